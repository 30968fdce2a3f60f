"""Drivers for generated code: build, run scripts of operations, project what is observed onto
the values of the specification."""
import json, math, os, re, shutil, sqlite3, subprocess, threading
import vf

HARN = os.path.join(vf.VERIF, 'harness')
SHIMC = os.path.join(vf.VERIF, 'shim', 'c')
SHIMJS = os.path.join(vf.VERIF, 'shim', 'js')
INTLIKE = ('int', 'epoch', 'date', 'bit', 'bits', 'enum')
STR = ('text', 'email', 'password')
HASH = re.compile(r'^\$2b\$([0-9a-f]{4})\$((?:[0-9a-f]{2})*)$')

# ------------------------------------------------------------- values <-> specification


def s_int(v):
    u = v + (1 << 63)
    return ['i', u >> 44, (u >> 22) & 0x3fffff, u & 0x3fffff]


def s_text(s):
    return ['t', [ord(c) for c in s]]


def s_hash(s):
    m = HASH.match(s)
    if m:
        try:
            clear = bytes(b ^ 0x5a for b in bytes.fromhex(m.group(2))).decode('utf-8')
        except ValueError:
            return None
        return ['hash', [int(m.group(1), 16)], [ord(c) for c in clear]]
    return None


def sval(v, f):
    """A Python argument value as a specification value for a field."""
    t = f['type']
    if v is None:
        return ['null']
    if t in INTLIKE:
        return s_int(v)
    if t == 'real':
        return ['r', int(v * 64)]
    if t == 'blob':
        return ['b', list(v)]
    if t == 'password':
        return s_hash(v) or s_text(v)
    return s_text(v)


class Bad(Exception):
    pass


def proj(raw, f, lang, dumped=False):
    """A raw observed value (tagged string) as a specification value for a field, type-directed:
    anything of the wrong shape is not a value of the field."""
    t = f['type']
    if not isinstance(raw, str) or raw == 'u' or raw == '':
        raise Bad('%s: %r' % (f['name'], raw))
    k, b = raw[0], raw[1:]
    if k == 'n':
        return ['null']
    try:
        if t == 'enum' and lang == 'node' and not dumped:
            if k != 't':
                raise Bad('%s: %r' % (f['name'], raw))
            return s_int(int(bytes.fromhex(b).decode()))
        if t in INTLIKE and k == 'i':
            v = int(b)
            if -(1 << 63) <= v < (1 << 63):
                return s_int(v)
        if t == 'real' and k == 'r':
            x = float(b) * 64
            if math.isfinite(x) and x == int(x) and abs(x) < 2 ** 31:
                return ['r', int(x)]
        if t == 'blob' and k == 'b':
            return ['b', list(bytes.fromhex(b))]
        if t in STR and k == 't':
            s = bytes.fromhex(b).decode('utf-8')
            if t == 'password':
                return s_hash(s) or s_text(s)
            return s_text(s)
    except ValueError:
        pass
    raise Bad('%s: %r' % (f['name'], raw))


def projobj(cfg, st, raw, lang):
    if not isinstance(raw, list) or len(raw) != len(st['fields']):
        raise Bad('object %r' % (raw,))
    out = []
    for f, v in zip(st['fields'], raw):
        if f['type'] == 'struct':
            out.append(['null'] if v == 'n' else projobj(cfg, target(cfg, st, f), v, lang))
        else:
            out.append(proj(v, f, lang))
    return ['o', out]


def sof(cfg, n):
    return next(s for s in cfg['structs'] if s['name'] == n)


def fof(st, n):
    return next(f for f in st['fields'] if f['name'] == n)


def target(cfg, st, f):
    return sof(cfg, fof(st, f['src'])['ref'][0][0])


def projdb(cfg, raw):
    out = {}
    if '!' in raw:
        raise Bad('dump failed: %s' % raw['!'])
    for st in cfg['structs']:
        rows = []
        for r in raw[st['name']]:
            stored = [f for f in st['fields'] if f['type'] != 'struct']
            if len(r) != len(stored) + 1:
                raise Bad('row %r' % r)
            it = iter(r[1:])
            vals = [['-'] if f['type'] == 'struct' else proj(next(it), f, '', True)
                    for f in st['fields']]
            rows.append([proj(r[0], dict(name='rowid', type='int'), ''), vals])
        out[st['name']] = rows
    return out


def dbsql(cfg, path):
    """Dump with Python's own SQLite, in the raw form of the drivers."""
    c = sqlite3.connect(path)
    c.text_factory = bytes
    out = {}

    def tag(v, ty):
        ty = ty.decode()
        if ty == 'null':
            return 'n'
        if ty == 'integer':
            return 'i%d' % v
        if ty == 'real':
            return 'r%r' % v
        if ty == 'text':
            return 't' + v.hex()
        return 'b' + v.hex()
    try:
        for st in cfg['structs']:
            cols = [d[1].decode() for d in c.execute('PRAGMA table_info("%s")' % st['name'])]
            q = ', '.join('"%s", typeof("%s")' % (x, x) for x in cols)
            rows = []
            for r in c.execute('SELECT rowid, typeof(rowid), %s FROM "%s" ORDER BY rowid' %
                               (q, st['name'])):
                rows.append([tag(r[i], r[i + 1]) for i in range(0, len(r), 2)])
            out[st['name']] = rows
    finally:
        c.close()
    return out


_lock = threading.Lock()


def cbase():
    """Objects shared by all C drivers."""
    with _lock:
        return _cbase()


def _cbase():
    d = os.path.join(vf.scratch(), 'cbase')
    if not os.path.isdir(d):
        os.makedirs(d + '.tmp', exist_ok=True)
        for n in ('sqlbox', 'kcgi'):
            r = subprocess.run(['gcc', '-g', '-O1', '-w', '-I' + SHIMC, '-c',
                                os.path.join(SHIMC, n + '.c'), '-o',
                                os.path.join(d + '.tmp', n + '.o')], capture_output=True, text=True)
            if r.returncode:
                raise vf.Fail('shim: ' + r.stderr)
        os.rename(d + '.tmp', d)
    return d


class GenFailure(Exception):
    """A generator or a compiler rejected its input: (stage, message)."""


SAN = ['-fsanitize=address,undefined', '-fno-sanitize-recover=undefined', '-fno-omit-frame-pointer']
SANENV = dict(ASAN_OPTIONS='detect_leaks=0:exitcode=99:handle_abort=0',
              UBSAN_OPTIONS='exitcode=99:print_stacktrace=0')


def docs(ortfile):
    """One document or several."""
    return list(ortfile) if isinstance(ortfile, (list, tuple)) else [ortfile]


def gen_c(ortfile, d, hflags=('-jJv',), sflags=('-jJv',)):
    h = vf.run([vf.tool('ort-c-header')] + list(hflags) + docs(ortfile))
    if h[0] != 0:
        raise GenFailure('ort-c-header', str(h[0]) + ' ' + h[2])
    c = vf.run([vf.tool('ort-c-source')] + list(sflags) + ['-S' + vf.build(), '-hdb.h'] + docs(ortfile))
    if c[0] != 0:
        raise GenFailure('ort-c-source', str(c[0]) + ' ' + c[2])
    open(os.path.join(d, 'db.h'), 'w', encoding='utf-8', errors='surrogateescape').write(h[1])
    open(os.path.join(d, 'db.c'), 'w', encoding='utf-8', errors='surrogateescape').write(c[1])


def cc(d, src, out, san=True, extra=()):
    b = cbase()
    r = subprocess.run(['gcc', '-g', '-O0', '-w', '-I' + SHIMC, '-I' + HARN, '-I.', '-include',
                        os.path.join(SHIMC, 'shim.h')] + (SAN if san else []) + list(extra) +
                       ['-o', out, src, os.path.join(b, 'sqlbox.o'), os.path.join(b, 'kcgi.o'),
                        '-lsqlite3', '-lm', '-Wl,--no-as-needed', '-lresolv'], cwd=d, capture_output=True, text=True)
    if r.returncode:
        raise GenFailure('cc', r.stderr[:3000])


def opname_query(q):
    if q['name']:
        tail = q['name']
    else:
        tail = 'by' + ''.join('_%s_%s' % ('_'.join(t['path']), t['op']) for t in q['terms'])
    k = {'search': 'get'}.get(q['kind'], q['kind'])
    if not q['name'] and not q['terms']:
        return k
    return k + '_' + tail


def opname_upd(u):
    if u['name']:
        return 'update_' + u['name']
    o = 'update'
    for f, m in u['mods']:
        o += '_%s_%s' % (f, 'cat' if m == 'concat' else m)
    if u['cons']:
        o += '_by' + ''.join('_%s_%s' % tuple(c) for c in u['cons'])
    return o


def opname_del(u):
    if u['name']:
        return 'delete_' + u['name']
    o = 'delete'
    if u['cons']:
        o += '_by' + ''.join('_%s_%s' % tuple(c) for c in u['cons'])
    return o


UN = ('isnull', 'notnull')


def pathfield(cfg, st, path):
    f = fof(st, path[0])
    return f if len(path) == 1 else pathfield(cfg, target(cfg, st, f), path[1:])


def pathstruct(cfg, st, path):
    for n in path:
        st = target(cfg, st, fof(st, n))
    return st


def rowidf(st):
    return [f for f in st['fields'] if f['rowid']]


def insert_fields(st):
    return [f for f in st['fields'] if f['type'] != 'struct' and not f['rowid']]


def op_params(cfg, st, op, i):
    """[(field, may be a null pointer)] in call order."""
    if op == 'insert':
        return [(f, bool(f['null'])) for f in insert_fields(st)]
    if op == 'query':
        return [(pathfield(cfg, st, t['path']), False) for t in st['queries'][i]['terms']
                if t['op'] not in UN]
    u = st['updates'][i] if op == 'update' else st['deletes'][i]
    out = []
    if op == 'update':
        mods = u['mods'] or [[f['name'], 'set'] for f in insert_fields(st)]
        out += [(fof(st, m[0]), bool(fof(st, m[0])['null'])) for m in mods]
    return out + [(fof(st, c[0]), False) for c in u['cons'] if c[1] not in UN]


def ops_of(cfg):
    out = []
    for st in cfg['structs']:
        if st['insert']:
            out.append((st['name'], 'insert', 0))
        out += [(st['name'], 'query', i) for i in range(len(st['queries']))]
        out += [(st['name'], 'update', i) for i in range(len(st['updates']))]
        out += [(st['name'], 'delete', i) for i in range(len(st['deletes']))]
    return out


def opfunc(st, op, i):
    if op == 'insert':
        return 'insert'
    if op == 'query':
        return opname_query(st['queries'][i])
    return opname_upd(st['updates'][i]) if op == 'update' else opname_del(st['deletes'][i])


# ---------------------------------------------------------------------------- C driver
def cdriver(cfg):
    o = ['#include "db.c"', '#include "drv.h"',
         'static const char *const tabs[] = { %s, NULL };' %
         ', '.join('"%s"' % s['name'] for s in cfg['structs'])]
    for st in cfg['structs']:
        o.append('static void P_%s(const struct %s *p);' % (st['name'], st['name']))
    for st in cfg['structs']:
        n = st['name']
        o.append('static void P_%s(const struct %s *p) {\n\tfputc(\'[\', O);' % (n, n))
        for k, f in enumerate(st['fields']):
            fn, t = f['name'], f['type']
            if k:
                o.append("\tfputc(',', O);")
            null = f['null'] or (t == 'struct' and fof(st, f['src'])['null'])
            pre = '\tif (!p->has_%s) p_n(); else ' % fn if null else '\t'
            if t == 'struct':
                o.append(pre + 'P_%s(&p->%s);' % (target(cfg, st, f)['name'], fn))
            elif t == 'real':
                o.append(pre + 'p_r(p->%s);' % fn)
            elif t == 'blob':
                o.append(pre + "p_b('b', p->%s, p->%s_sz);" % (fn, fn))
            elif t in STR:
                o.append(pre + 'p_t(p->%s);' % fn)
            else:
                o.append(pre + 'p_i((int64_t)p->%s);' % fn)
        o.append("\tfputc(']', O);\n}")
        o.append('static void J_%s(const struct %s *p) {\n\tstruct kjsonreq r; FILE *f = '
                 'open_memstream(&jbuf, &jlen);\n\tkjson_shim_init(&r, f);\n\tkjson_obj_open(&r);\n'
                 '\tjson_%s_data(&r, p);\n\tkjson_obj_close(&r);\n\tfclose(f);\n}' % (n, n, n))
        o.append('static void CB_%s(const struct %s *p, void *arg) {\n'
                 '\tstruct hnd *h = arg;\n\tif (h->n) fputc(\',\', O);\n\tP_%s(p);\n'
                 '\tJ_%s(p);\n\th->json = realloc(h->json, (h->n + 1) * sizeof(char *));\n'
                 '\th->json[h->n++] = jbuf;\n}' % (n, n, n, n))
    o.append('static void freeh(struct hnd *h) {\n\tsize_t i;\n\tif (h->json) {\n'
             '\t\tfor (i = 0; i < h->n; i++) free(h->json[i]);\n\t\tfree(h->json);\n'
             '\t} else switch (h->strct) {')
    for k, st in enumerate(cfg['structs']):
        n = st['name']
        o.append('\tcase %d:' % k)
        if any(q['kind'] == 'list' and rs(cfg, s, q) is st for s in cfg['structs']
               for q in s['queries']):
            o.append('\t\tif (h->q) { db_%s_freeq(h->q); break; }' % n)
        o.append('\t\tif (h->n) db_%s_free((struct %s *)h->objs[0]);\n\t\tbreak;' % (n, n))
    o.append('\t}\n\tfree(h->objs); memset(h, 0, sizeof(*h));\n}')
    o.append('static void call(int k, struct hnd *h) {\n\tswitch (k) {')
    for k, (sn, op, i) in enumerate(ops_of(cfg)):
        st = sof(cfg, sn)
        o.append('\tcase %d: {' % k)
        call = ['D']
        for j, (f, ptr) in enumerate(op_params(cfg, st, op, i)):
            t = f['type']
            own = next(s['name'] for s in cfg['structs'] if any(g is f for g in s['fields']))
            o.append('\t\tchar *t%d = nexttok();' % j)
            if t in STR or t == 'blob':
                o.append('\t\tchar *a%d = NULL; size_t z%d = 0; if (!isnulltok(t%d)) z%d = '
                         'unhex(t%d + 1, &a%d);' % (j, j, j, j, j, j))
                if t == 'blob':
                    call.append('z%d' % j)
                    if ptr:
                        o.append('\t\tconst void *c%d = a%d;' % (j, j))
                        call.append('isnulltok(t%d) ? NULL : &c%d' % (j, j))
                    else:
                        call.append('a%d' % j)
                elif ptr:
                    o.append('\t\tconst char *c%d = a%d;' % (j, j))
                    call.append('isnulltok(t%d) ? NULL : &c%d' % (j, j))
                else:
                    call.append('a%d' % j)
            else:
                o.append('\t\t__typeof__(((struct %s *)0)->%s) a%d = isnulltok(t%d) ? 0 : %s(t%d '
                         '+ 1%s);' % (own, f['name'], j, j, 'atof' if t == 'real' else 'strtoll', j,
                                      '' if t == 'real' else ', NULL, 10'))
                call.append('isnulltok(t%d) ? NULL : &a%d' % (j, j) if ptr else 'a%d' % j)
        fn = 'db_%s_%s' % (sn, opfunc(st, op, i))
        cl = '%s(%s)' % (fn, ', '.join(call))
        if op == 'insert':
            o.append('\t\tint64_t r = %s;\n\t\tif (r == -1) fputs("\\"res\\":[\\"fail\\"]", O); '
                     'else { fputs("\\"res\\":[\\"id\\",", O); p_i(r); fputs("]", O); }' % cl)
        elif op == 'update':
            o.append('\t\tint r = %s;\n\t\tfprintf(O, "\\"res\\":[\\"%%s\\"]", r == 1 ? "done" : r '
                     '== 0 ? "fail" : "bad");' % cl)
        elif op == 'delete':
            o.append('\t\t%s;\n\t\tfputs("\\"res\\":[\\"void\\"]", O);' % cl)
        else:
            q = st['queries'][i]
            r = rs(cfg, st, q)
            n = r['name']
            ix = cfg['structs'].index(r)
            if q['kind'] == 'count':
                o.append('\t\tfprintf(O, "\\"res\\":[\\"count\\",%%" PRIu64 "]", %s);' % cl)
            elif q['kind'] == 'search':
                o.append('\t\tstruct %s *p = %s;\n\t\th->strct = %d; h->n = p != NULL;\n\t\th->objs '
                         '= calloc(1, sizeof(void *)); h->objs[0] = p;\n\t\tfputs("\\"res\\":[\\"'
                         'rows\\",[", O);\n\t\tif (p) P_%s(p);\n\t\tfputs("]]", O);' %
                         (n, cl, ix, n))
            elif q['kind'] == 'list':
                o.append('\t\tstruct %s_q *p = %s; struct %s *x;\n\t\th->strct = %d; h->q = p;\n'
                         '\t\tfputs("\\"res\\":[\\"rows\\",[", O);\n\t\tTAILQ_FOREACH(x, p, '
                         '_entries) {\n\t\t\tif (h->n) fputc(\',\', O);\n\t\t\tP_%s(x);\n\t\t\th->objs = '
                         'realloc(h->objs, (h->n + 1) * sizeof(void *)); h->objs[h->n++] = x;\n'
                         '\t\t}\n\t\tfputs("]]", O);' % (n, cl, n, ix, n))
            else:
                args = call[:1] + ['CB_%s' % n, 'h'] + call[1:]
                o.append('\t\th->strct = %d; h->json = calloc(1, sizeof(char *));\n\t\tfputs("\\"res'
                         '\\":[\\"rows\\",[", O);\n\t\t%s(%s);\n\t\tfputs("]]", O);' %
                         (ix, fn, ', '.join(args)))
        o.append('\t\tbreak; }')
    o.append('\t}\n}')
    o.append('static void export(struct hnd *h) {\n\tsize_t i;\n\tfputs("\\"json\\":[", O);\n'
             '\tfor (i = 0; i < h->n; i++) {\n\t\tif (i) fputc(\',\', O);\n'
             '\t\tif (h->json) { jbuf = h->json[i]; jlen = strlen(jbuf); }\n'
             '\t\telse switch (h->strct) {')
    for k, st in enumerate(cfg['structs']):
        o.append('\t\tcase %d: J_%s(h->objs[i]); break;' % (k, st['name']))
    o.append("\t\t}\n\t\tp_b('j', jbuf, jlen);\n\t\tif (!h->json) free(jbuf);\n\t}\n\tfputs(\"]\", "
             'O);\n}')
    roles = ['none', 'default'] + [r['name'] for r in cfg['roles']] if cfg['hasroles'] else []
    o.append('static int roleof(const char *s) {')
    for r in roles:
        o.append('\tif (!strcmp(s, "%s")) return ROLE_%s;' % (r, r))
    o.append('\t_exit(91);\n}')
    cur = '\n'.join('\t\t\tcase ROLE_%s: fputs("\\"res\\":[\\"%s\\"]", O); break;' % (r, r)
                    for r in roles)
    o.append(r'''
int main(int argc, char **argv) {
	char *line = NULL; size_t lsz = 0; ssize_t l; int n = 0, skip = atoi(argv[2]), i;
	dbfile = argv[1]; O = stdout;
	while ((l = getline(&line, &lsz, stdin)) > 0) {
		n++;
		if (n <= skip) continue;
		if (line[l - 1] == '\n') line[--l] = 0;
		ntoks = 0; curtok = 1;
		for (char *p = strtok(line, " "); p && ntoks < 64; p = strtok(NULL, " ")) toks[ntoks++] = p;
		fprintf(O, "{\"n\":%d,", n);
		if (!strcmp(toks[0], "open")) { if ((D = db_open(dbfile)) == NULL) _exit(92); fputs("\"res\":[\"void\"]", O); }
		else if (!strcmp(toks[0], "close")) { for (i = 0; i < HMAX; i++) freeh(&H[i]); db_close(D); D = NULL; fputs("\"res\":[\"void\"]", O); }
		else if (!strcmp(toks[0], "call")) { i = atoi(toks[1]); curtok = 3; call(i, &H[atoi(toks[2])]); }
		else if (!strcmp(toks[0], "begin")) {
			if (!strcmp(toks[1], "immediate")) DB_TRANS_OPEN_IMMEDIATE(D, 7);
			else if (!strcmp(toks[1], "deferred")) DB_TRANS_OPEN_DEFERRED(D, 7);
			else DB_TRANS_OPEN_EXCLUSIVE(D, 7);
			fputs("\"res\":[\"void\"]", O);
		}
		else if (!strcmp(toks[0], "commit")) { db_trans_commit(D, 7); fputs("\"res\":[\"void\"]", O); }
		else if (!strcmp(toks[0], "rollback")) { db_trans_rollback(D, 7); fputs("\"res\":[\"void\"]", O); }
		else if (!strcmp(toks[0], "export")) export(&H[atoi(toks[1])]);
		else if (!strcmp(toks[0], "peek")) peek(tabs);
		else if (!strcmp(toks[0], "writer")) writer();
''' + (r'''		else if (!strcmp(toks[0], "role")) { db_role(D, roleof(toks[1])); fputs("\"res\":[\"void\"]", O); }
		else if (!strcmp(toks[0], "cur")) { switch (db_role_current(D)) {
''' + cur + r'''
			default: fputs("\"res\":[\"bad\"]", O); } }
''' if cfg['hasroles'] else '') + r'''		else _exit(93);
		dump(tabs);
		fputs("}\n", O); fflush(O);
	}
	return 0;
}''')
    return '\n'.join(o) + '\n'


def rs(cfg, st, q):
    return pathstruct(cfg, st, q['distinct'][0]) if q['distinct'] else st


# -------------------------------------------------------------------------- scripts
def argtok(v, f, lang):
    if v is None:
        return 'n'
    t = f['type']
    if t in INTLIKE:
        return 'i%d' % v
    if t == 'real':
        return 'r%r' % v
    if t == 'blob':
        return 'b' + v.hex()
    return 't' + v.encode('utf-8').hex()


def script_line(cfg, ops, e, lang):
    k = e['k']
    if k == 'call':
        ix = ops.index((e['s'], e['op'], e['i']))
        ps = op_params(cfg, sof(cfg, e['s']), e['op'], e['i'])
        return 'call %d %d %s' % (ix, e['h'], ' '.join(argtok(v, f, lang)
                                                       for v, (f, _) in zip(e['args'], ps)))
    if k == 'role':
        return 'role ' + e['to']
    if k == 'begin':
        return 'begin ' + e['mode']
    if k == 'export':
        return 'export %d' % e['h']
    return k


def project(cfg, e, rec, lang):
    """Fill the observed outcome of a script event, as a trace event."""
    k = e['k']
    st = sof(cfg, e['s']) if k == 'call' else None
    ev = dict(k=k)
    for x in ('to', 'mode', 's', 'op', 'h'):
        if x in e:
            ev[x] = e[x]
    if k == 'call':
        ev['i'] = e['i'] + 1
        ps = op_params(cfg, st, e['op'], e['i'])
        ev['args'] = [sval(v, f) for v, (f, _) in zip(e['args'], ps)]
    ev['raw'] = rec
    try:
        if 'lost' in rec:
            ev['res'] = [rec['lost']]
        elif k == 'peek':
            p = rec['peek']
            ev['res'] = ['busy'] if p.get('!') == '5' else ['db', projdb(cfg, p)]
        elif k == 'export':
            ev['res'] = [projjson(cfg, sof(cfg, s), j, lang)
                         for s, j in zip(rec['structs'], rec['json'])]
        elif k == 'cur':
            ev['res'] = rec['res'][0]
        else:
            r = rec['res']
            if r[0] == 'id':
                r = ['id', proj(r[1], dict(name='rowid', type='int'), lang)]
            elif r[0] == 'rows':
                rst = rs(cfg, st, st['queries'][e['i']])
                r = ['rows', [projobj(cfg, rst, x, lang) for x in r[1]]]
            ev['res'] = r
        ev['odb'] = projdb(cfg, rec['db'])
    except (Bad, KeyError, IndexError, TypeError, ValueError) as x:
        ev['k'] = 'bad'
        ev['why'] = repr(x)
    return ev


def projjson(cfg, st, hexed, lang):
    try:
        txt = bytes.fromhex(hexed[1:]).decode('utf-8')

        def pairs(ps):
            if len({k for k, _ in ps}) != len(ps):
                raise Bad('duplicate key')
            return dict(ps)
        j = json.loads(txt, object_pairs_hook=pairs, parse_float=lambda s: ('F', s),
                       parse_int=lambda s: ('N', s))
    except ValueError as x:
        raise Bad('json: %r' % x)
    return jobj(cfg, st, j, lang)


def jobj(cfg, st, j, lang):
    if not isinstance(j, dict):
        raise Bad('not an object: %r' % (j,))
    names = [f['name'] for f in st['fields']]
    extra = set(j) - set(names)
    if extra:
        raise Bad('unexpected members %r' % extra)
    out = []
    for f in st['fields']:
        n, t = f['name'], f['type']
        if n not in j:
            out.append(['absent'])
            continue
        v = j[n]
        if v is None:
            out.append(['null'])
        elif t == 'struct':
            out.append(jobj(cfg, target(cfg, st, f), v, lang))
        elif t in INTLIKE and (isinstance(v, str) or (isinstance(v, tuple) and v[0] == 'N')):
            s = v if isinstance(v, str) else v[1]
            if not re.match(r'^-?\d+$', s):
                raise Bad('integer %r' % (v,))
            out.append(s_int(int(s)))
        elif t == 'real' and isinstance(v, (str, tuple)):
            out.append(proj('r' + (v if isinstance(v, str) else v[1]), f, lang))
        elif t == 'blob' and isinstance(v, str):
            import base64
            out.append(['b', list(base64.b64decode(v, validate=True))])
        elif t in STR and isinstance(v, str):
            out.append(s_hash(v) or s_text(v) if t == 'password' else s_text(v))
        else:
            raise Bad('member %s: %r' % (n, v))
    return ['o', out]


def finish_events(evs, init):
    """Replace unchanged content by a mark."""
    last = init
    out = []
    for e in evs:
        e = {k: v for k, v in e.items() if k not in ('raw',)}
        lost = e['k'] != 'bad' and e['res'] in (['abort'], ['exit'], ['crash'], ['throw'])
        if lost and (e['res'] == ['crash'] or e['k'] not in ('call', 'role')):
            e = dict(k='bad', why='%s: %s' % (e['k'], e['res'][0]))
        if e['k'] == 'bad':
            out.append(dict(k='bad', same=1, db={}, why=e.get('why', '')))
            break
        if e['odb'] == last:
            e['same'], e['db'] = 1, {}
        else:
            e['same'], e['db'] = 0, e['odb']
            last = e['odb']
        del e['odb']
        out.append(e)
    return out


# --------------------------------------------------------------------------- running
def newdb(ortfile, path):
    r = vf.run([vf.tool('ort-sql')] + docs(ortfile))
    if r[0] != 0:
        raise GenFailure('ort-sql', str(r[0]) + r[2])
    if os.path.exists(path):
        os.unlink(path)
    c = sqlite3.connect(path)
    try:
        c.executescript(r[1])
    except sqlite3.Error as x:
        raise GenFailure('sqlite', str(x))
    finally:
        c.close()


def freshdb(cfg, ortfile, path):
    newdb(ortfile, path)
    try:
        return projdb(cfg, dbsql(cfg, path))
    except (Bad, KeyError, sqlite3.Error) as x:
        raise GenFailure('schema', repr(x))


class CBackend:
    lang = 'c'

    def __init__(self, cfg, ortfile, d, san=True):
        self.cfg, self.d, self.ort = cfg, d, ortfile
        self.ops = ops_of(cfg)
        gen_c(ortfile, d)
        open(os.path.join(d, 'drv.c'), 'w').write(cdriver(cfg))
        cc(d, 'drv.c', 'drv', san)

    def run(self, script, name):
        """Run a list of script events; returns trace events (one per script event that ran)."""
        cfg = self.cfg
        path = os.path.join(self.d, name + '.db')
        init = freshdb(cfg, self.ort, path)
        evs = []
        todo = list(script)
        hs = {}
        while todo:
            text = '\n'.join(script_line(cfg, self.ops, e, 'c') for e in todo) + '\n'
            rc, out, err = vf.run([os.path.join(self.d, 'drv'), path, '0'], inp=text,
                                  env=vf.cleanenv(**SANENV), timeout=20)
            n = 0
            for line in out.split('\n'):
                try:
                    rec = json.loads(line)
                except ValueError:
                    break
                e = todo[n]
                note(cfg, hs, e, rec)
                evs.append(project(cfg, e, rec, 'c'))
                n += 1
            if rc == 0 and n == len(todo):
                break
            if n >= len(todo):
                evs.append(dict(k='bad', why='driver ended with %s after the last event: %s' %
                                (rc, err[-600:])))
                break
            e = todo[n]
            lost = 'abort' if rc == -6 and 'ERROR: AddressSanitizer' not in err else \
                'exit' if rc == 1 else 'crash'
            if rc in (90, 91, 92, 93):
                raise vf.Fail('driver: %s %s' % (rc, err))
            try:
                rec = dict(lost=lost, db=dbsql(cfg, path))
            except sqlite3.Error as x:
                rec = dict(lost='crash', db={'!': str(x)})
            if lost == 'crash':
                rec['err'] = '%s %s' % (rc, err[-1500:])
            evs.append(project(cfg, e, rec, 'c'))
            if lost == 'crash':
                break
            todo = resume(todo[n + 1:])
            hs.clear()
        os.unlink(path)
        return init, evs


def note(cfg, hs, e, rec):
    """Remember what struct the objects of a handle belong to."""
    if e['k'] == 'call' and e['op'] == 'query' and rec.get('res', [''])[0] == 'rows':
        st = sof(cfg, e['s'])
        hs[e['h']] = (rs(cfg, st, st['queries'][e['i']])['name'], len(rec['res'][1]))
    if e['k'] == 'export' and 'json' in rec:
        s, n = hs.get(e['h'], ('', 0))
        rec['structs'] = [s] * len(rec['json'])


def resume(todo):
    """What is left of a script after the connection was lost: reopen, drop exports of lost
    objects and the rest of a transaction."""
    out = []
    lost_tx = True
    seen = set()
    for e in todo:
        if e['k'] in ('commit', 'rollback') and lost_tx:
            continue
        if e['k'] == 'begin':
            lost_tx = False
        if e['k'] in ('close', 'open'):
            lost_tx = False
        if e['k'] == 'call':
            seen.add(e['h'])
        if e['k'] == 'export' and e['h'] not in seen:
            continue
        out.append(e)
    if not out:
        return []
    if out[0]['k'] == 'close':
        out = out[1:]
    if out and out[0]['k'] != 'open':
        out = [dict(k='open')] + out
    return out


class NodeDied(Exception):
    pass


class NodeBackend:
    """Several (config, scripts) jobs in one process of Node.js."""
    lang = 'node'

    def __init__(self, d):
        self.d = d

    def runall(self, jobs, timeout=120):
        """jobs: [(cfg, ortfile, [script, ...])].  Returns [[(init, evs), ...] or GenFailure]."""
        try:
            return self._runall(jobs, timeout)
        except NodeDied as x:
            # find out which job, then which script, does it
            if len(jobs) > 1:
                h = len(jobs) // 2
                return self.runall(jobs[:h], min(timeout, 60)) + \
                    self.runall(jobs[h:], min(timeout, 60))
            cfg, ortfile, scripts = jobs[0]
            if len(scripts) > 1:
                out = []
                for s in scripts:
                    r = self.runall([(cfg, ortfile, [s])], 20)[0]
                    if isinstance(r, GenFailure):
                        return [r]
                    out += r
                return [out]
            return x.partial

    def _runall(self, jobs, timeout):
        out, spec = [], []
        for k, (cfg, ortfile, scripts) in enumerate(jobs):
            r = vf.run([vf.tool('ort-nodejs'), '-v'] + docs(ortfile))
            if r[0] != 0:
                out.append(GenFailure('ort-nodejs', str(r[0]) + r[2]))
                continue
            ts = os.path.join(self.d, 'n%d.ts' % k)
            open(ts, 'w', encoding='utf-8', errors='surrogateescape').write(r[1])
            ops = ops_of(cfg)
            js = dict(ts=ts, key=k, tabs=[s['name'] for s in cfg['structs']],
                      ops=[dict(fn='db_%s_%s' % (s, opfunc(sof(cfg, s), op, i)),
                                kind=op if op != 'query' else sof(cfg, s)['queries'][i]['kind'],
                                rs='' if op != 'query' else
                                rs(cfg, sof(cfg, s), sof(cfg, s)['queries'][i])['name'],
                                enums=[f['type'] == 'enum' for f, _ in
                                       op_params(cfg, sof(cfg, s), op, i)])
                           for s, op, i in ops],
                      structs={s['name']: [[f['name'], target(cfg, s, f)['name']
                                            if f['type'] == 'struct' else ''] for f in s['fields']]
                               for s in cfg['structs']},
                      scripts=[])
            inits = []
            try:
                for j, sc in enumerate(scripts):
                    path = os.path.join(self.d, 'n%d-%d.db' % (k, j))
                    inits.append(freshdb(cfg, ortfile, path))
                    js['scripts'].append(dict(db=path, lines=[
                        [script_line(cfg, ops, e, 'node')] for e in sc]))
            except GenFailure as x:
                out.append(x)
                continue
            spec.append(js)
            out.append(inits)
        sf = os.path.join(self.d, 'jobs.json')
        of = os.path.join(self.d, 'out.ndjson')
        json.dump(spec, open(sf, 'w'))
        rc, so, se = vf.run(['node', '--no-warnings', os.path.join(HARN, 'drv.js'), sf, of],
                            timeout=timeout, env=vf.cleanenv(VF_SHIMJS=SHIMJS))
        recs = {}
        fails = {}
        for line in open(of, encoding='utf-8') if os.path.exists(of) else ():
            try:
                r = json.loads(line)
            except ValueError:
                break
            if 'fail' in r:
                fails[r['key']] = r['fail']
            else:
                recs.setdefault((r['key'], r['script']), []).append(r)
        res = []
        for k, (cfg, ortfile, scripts) in enumerate(jobs):
            if isinstance(out[k], GenFailure):
                res.append(out[k])
                continue
            if k in fails:
                res.append(GenFailure('node', fails[k]))
                continue
            per = []
            for j, sc in enumerate(scripts):
                evs, hs = [], {}
                for r in recs.get((k, j), []):
                    e = dict(k='open') if r['n'] == 'reopen' else sc[r['n']]
                    note(cfg, hs, e, r)
                    evs.append(project(cfg, e, r, 'node'))
                if rc != 0:
                    evs.append(dict(k='bad', why='node ended with %s: %s' % (rc, se[-1000:])))
                per.append((out[k][j], evs))
                os.unlink(os.path.join(self.d, 'n%d-%d.db' % (k, j)))
            res.append(per)
        if os.path.exists(of):
            os.unlink(of)
        if rc != 0:
            if not os.path.isdir(SHIMJS) or not recs and not fails and \
                    'Cannot find module' in se:
                raise vf.Fail('node driver: %s %s' % (rc, se[-2000:]))
            x = NodeDied()
            x.partial = res
            raise x
        return res
