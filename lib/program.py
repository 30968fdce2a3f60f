"""What becomes of generated code: compilers, linker, database and type checker
(spec/OrtProgram.tla)."""
import json, os, re, subprocess, threading
import vf, backend as B, names as N

CC = ['gcc', '-w', '-O0', '-Werror=implicit-function-declaration', '-Werror=int-conversion',
      '-Werror=incompatible-pointer-types', '-Werror=implicit-int', '-Werror=return-type',
      '-Werror=format', '-I' + B.SHIMC, '-include', os.path.join(B.SHIMC, 'shim.h')]


LOCK = threading.Lock()


def shape_tool():
    p = os.path.join(vf.scratch(), 'shape')
    with LOCK:
        if not os.path.exists(p):
            r = subprocess.run(['gcc', '-O1', '-o', p, os.path.join(B.HARN, 'shape.c'), '-lsqlite3'],
                               capture_output=True, text=True)
            if r.returncode:
                raise vf.Fail('shape: ' + r.stderr)
    return p


def complaints(r, what):
    """Exit status and messages of a tool that should be silent."""
    out = [x for x in r[2].split('\n') if x.strip()][:5]
    return out if out or r[0] == 0 else ['%s: %s' % (what, r[0])]


def shapes(d, sql):
    """[SQL] -> [[reads only, parameters, columns] or [complaint]]."""
    if not sql:
        return []
    rc, out, err = vf.run([shape_tool(), os.path.join(d, 'schema.sql')],
                          inp=''.join(x + '\0' for x in sql))
    if rc == 2:
        return [['schema: ' + out.strip()]] * len(sql)
    if rc != 0:
        raise vf.Fail('shape: %s %s' % (rc, err))
    return json.loads(out)


def schema(files, d):
    """ort-sql, and what the database makes of its output."""
    r = vf.run([vf.tool('ort-sql')] + files)
    open(os.path.join(d, 'schema.sql'), 'w', encoding='utf-8', errors='surrogateescape').write(r[1])
    bad = [] if r[0] == 0 else ['ort-sql: %s %s' % (r[0], r[2][:200])]
    rc, out, err = vf.run([shape_tool(), os.path.join(d, 'schema.sql')], inp='')
    return dict(k='understand', what='schema', complaints=bad + ([out.strip()] if rc else [])), r[1]


def gen(tool, args, files, path):
    r = vf.run([vf.tool(tool)] + args + files)
    open(path, 'w', encoding='utf-8', errors='surrogateescape').write(r[1])
    return [] if r[0] == 0 else ['%s: %s %s' % (tool, r[0], r[2][:200])]


class Program:
    """A C program of several units: units is [(base, flags)], one of them with the base; split says
    whether each has a header of its own, safe whether types are safe."""
    def __init__(self, files, d, units, split, safe):
        self.files, self.d, self.units, self.safe = files, d, units, safe
        os.makedirs(d, exist_ok=True)
        self.evs = []
        flags = ''.join(f for b, f in units)
        bad = []
        if split:
            self.headers = []
            for k, (b, f) in enumerate(units):
                h = 'h%d.h' % k
                a = ['-g', 'H%d_H' % k] + ([] if b else ['-Nbd']) + \
                    (['-' + f + ('s' if safe and b else '')] if f or safe and b else [])
                bad += gen('ort-c-header', a, files, os.path.join(d, h))
                self.headers.append((b, f, h))
            self.headers.sort(key=lambda x: -x[0])
        else:
            self.headers = [(1, flags, 'db.h')]
            f = flags + ('s' if safe else '')
            bad += gen('ort-c-header', ['-' + f] if f else [], files, os.path.join(d, 'db.h'))
        for k, (b, f) in enumerate(units):
            self.unit(k, b, f, bad)
        if any(e['complaints'] for e in self.evs):
            return
        self.link()

    def unit(self, k, b, f, bad):
        d = self.d
        # the base and what belongs to this unit
        hs = [x for x in self.headers if x[0] or set(x[1]) & set(f)]
        have = set(''.join(x[1] for x in hs))
        inc = ''.join(x for x in 'jv' if x in have and x not in f)
        a = ['-S' + vf.build(), '-h' + ','.join(x[2] for x in hs)] + (['-' + f] if f else []) + \
            ([] if b else ['-Nd']) + (['-I' + inc] if inc else [])
        bad = bad + gen('ort-c-source', a, self.files, os.path.join(d, 'u%d.c' % k))
        o = 'u%d.o' % k
        if not bad:
            r = vf.run(CC + ['-I', d, '-c', '-o', os.path.join(d, o), os.path.join(d, 'u%d.c' % k)])
            bad = bad + complaints(r, 'gcc')
        defined = []
        if not bad:
            rc, out, err = vf.run(['nm', '-g', '--defined-only', os.path.join(d, o)])
            defined = sorted({x.split()[2] for x in out.split('\n') if x.split()[1:2] in (['T'], ['W'])})
        self.evs.append(dict(k='compile', base=b, flags=list(f), defined=defined,
                             complaints=[x.replace(d, '') for x in bad]))

    def link(self):
        d = self.d
        used = set()
        src = os.path.join(d, 'm.c')
        heads = [h for b, f, h in self.headers]
        body = open(os.path.join(B.HARN, 'stmts.c')).read().replace(
            '#include HEADERS\n', ''.join('#include "%s"\n' % h for h in heads))
        open(src, 'w').write(body)
        open(os.path.join(d, 'table.h'), 'w').write('')
        aux = os.path.join(d, 'aux')
        r = vf.run(CC + ['-I', d, '-fsyntax-only', '-aux-info', aux, src])
        bad = complaints(r, 'gcc')
        if not bad:
            for line in open(aux, encoding='utf-8', errors='replace'):
                m = re.match(r'/\* (.*):\d+:(..) \*/ (extern|static) (.*?);', line)
                if m and os.path.basename(m.group(1)) in heads and m.group(3) == 'extern':
                    n = re.match(r'[^(]*?(\w+) \(', m.group(4))
                    used.add(n.group(1))
            with open(os.path.join(d, 'table.h'), 'w') as f:
                for n in sorted(used):
                    f.write('\t(fn)%s,\n' % n)
            r = vf.run(CC + ['-I', d, '-Wl,--wrap=sqlbox_alloc', '-o', os.path.join(d, 'm'), src] +
                       [os.path.join(d, 'u%d.o' % k) for k in range(len(self.units))] +
                       [os.path.join(B.cbase(), x) for x in ('sqlbox.o', 'kcgi.o')] +
                       ['-lsqlite3', '-lm', '-Wl,--no-as-needed', '-lresolv'])
            bad = complaints(r, 'gcc')
        self.evs.append(dict(k='link', used=sorted(used), complaints=[x.replace(d, '') for x in bad]))
        if bad:
            return
        rc, out, err = vf.run([os.path.join(d, 'm')])
        sql = out.split('\0')[:-1]
        given = shapes(d if os.path.exists(os.path.join(d, 'schema.sql')) else os.path.dirname(d), sql)
        self.sql = list(zip(sql, given))
        if rc != 0:
            given.append(['program ended with %s' % rc])
        self.evs.append(dict(k='prepare', given=[list(x) for x in sorted({tuple(g) for g in given},
                                                                         key=repr)]))


IMPORTS = "import bcrypt from 'bcrypt';\nimport Database from 'better-sqlite3';\n"
VIMPORT = "import validator from 'validator';\n"
# options -> (imports to put before, several outputs)
NODE = {'': ('', [[]]), 'v': ('', [['-v']]), 'e': (IMPORTS, [['-e']]),
        've': (IMPORTS + VIMPORT, [['-ve']]), 'Nd': ('', [['-Nd']]), 'vNd': ('', [['-v', '-Nd']]),
        'Nbd': ('', [['-Nbd']]),
        'split': (IMPORTS, [['-e', '-Nd'], ['-e', '-Nb']]),
        'vsplit': (IMPORTS + VIMPORT, [['-e', '-Nd'], ['-e', '-Nb'], ['-ve', '-Nbd']])}


def modules(files, d, kinds, js=True):
    """[(what, path, complaints of the generator)]"""
    out = []
    for k in kinds:
        p = os.path.join(d, 'n%s.ts' % k)
        imp, outs = NODE[k]
        text, bad = imp, []
        for a in outs:
            bad += gen('ort-nodejs', a, files, p)
            text += open(p, encoding='utf-8', errors='surrogateescape').read()
        open(p, 'w', encoding='utf-8', errors='surrogateescape').write(text)
        out.append(('nodejs ' + k, p, bad))
    p = os.path.join(d, 'j.ts')
    if js:
        out.append(('javascript', p, gen('ort-javascript', ['-S', vf.build()], files, p)))
    return out


def typecheck(mods):
    """[(what, path, complaints)] -> events."""
    jobs = [dict(files=[p], dom=w == 'javascript') for w, p, bad in mods]
    rc, out, err = vf.run(['node', '--no-warnings', os.path.join(B.HARN, 'tsc.js')],
                          inp=json.dumps(jobs), timeout=600)
    if rc != 0:
        raise vf.Fail('tsc: ' + err[-1000:])
    return [dict(k='understand', what=w, complaints=bad + [' '.join(map(str, x)) for x in ds[:5]])
            for (w, p, bad), ds in zip(mods, json.loads(out))]


def calls(jobs):
    """[(path of module, functions as in lib/names.py, directory)] -> events."""
    p = os.path.join(vf.scratch(), 'calls%d.json' % id(jobs))
    with open(p, 'w') as f:
        json.dump([dict(ts=m, fns=[[n, ks] for n, ks, r in fns],
                        each=[n for n, ks, r in fns if r.startswith('each ')]) for m, fns, d in jobs], f)
    rc, out, err = vf.run(['node', '--no-warnings', os.path.join(B.HARN, 'calls.js'), p], timeout=600)
    os.unlink(p)
    if rc != 0:
        raise vf.Fail('calls: ' + err[-1000:])
    evs = []
    for (m, fns, d), r in zip(jobs, json.loads(out)):
        if 'fail' in r:
            evs.append(dict(k='call', calls=[['?' + r['fail'], []]]))
            continue
        sql = sorted({s for n, ss in r['calls'] for s, a in ss})
        sh = dict(zip(sql, shapes(d, sql)))
        seen = []
        for n, ss in r['calls']:
            x = [n, [sh[s] + ([a] if len(sh[s]) == 3 else []) for s, a in ss]]
            if x not in seen:
                seen.append(x)
        evs.append(dict(k='call', calls=seen))
    return evs
