"""What the output of the back ends says: constants, structures and functions, in the terms of
spec/OrtNames.tla."""
import json, os, re
import vf, backend as B, textual as T


def i64(v):
    return B.s_int(int(v))


def bitlist(m):
    return [b for b in range(65) if m >> b & 1]


def said(lang, flags='', **kw):
    return dict(dict(k='emit', lang=lang, enums=[], bits=[], layout=[], functions=[], roles=[],
                     tops=[], helpers=[], flags=list(flags)), **kw)


# ------------------------------------------------------------------ C
def c_strip(text):
    text = re.sub(r'/\*.*?\*/', ' ', text, flags=re.S)
    text = re.sub(r'\\\n', ' ', text)
    text = re.sub(r'^[ \t]*#.*$', '', text, flags=re.M)
    return re.sub(r'\b__(BEGIN|END)_DECLS\b', ';', text)


def c_decls(text):
    """Declarations at the top level, as text up to the semicolon."""
    out, depth, cur = [], 0, ''
    for ch in c_strip(text):
        cur += ch
        if ch in '{(':
            depth += 1
        elif ch in '})':
            depth -= 1
            if depth == 0 and ch == '}' and re.match(r'\s*static inline', cur):
                out.append(cur)
                cur = ''
        elif ch == ';' and depth == 0:
            out.append(cur)
            cur = ''
    return [re.sub(r'\s+', ' ', x[:-1]).strip() for x in out if x.strip(' \n\t;')]


class CHeader:
    def __init__(self, text):
        self.enumerators, self.structs, self.protos = {}, {}, []
        types = dict(int64_t='int', time_t='time', double='real')
        for d in c_decls(text):
            m = re.match(r'enum (\w+) \{(.*)\}$', d)
            if m is None:
                m = re.match(r'typedef enum() \{(.*)\} \w+$', d)
            if m and m.group(1):
                self.enumerators[m.group(1)] = [x.split('=')[0].strip()
                                                for x in m.group(2).split(',') if x.strip()]
                continue
            m = re.match(r'typedef (?:struct \w+ \{ )?(\w+)(?: val; \})? (\w+)$', d)
            if m and m.group(1) in types:
                types[m.group(2)] = types[m.group(1)]
                continue
            m = re.match(r'struct (\w+) \{(.*)\}$', d)
            if m:
                self.structs[m.group(1)] = [x.strip() for x in m.group(2).split(';') if x.strip()]
                continue
            m = re.match(r'((?:const )?(?:struct |enum )?\w+ ?\*?) ?(\w+) ?\((.*)\)$', d)
            if m and not d.startswith(('typedef', 'static', 'extern', 'TAILQ')):
                self.protos.append((m.group(1).replace(' *', '*').strip(), m.group(2), m.group(3)))
        self.types = types

    def param(self, p):
        p = re.sub(r' ?\b[a-z]\w*$', '', p.strip()).strip()   # the name
        p = re.sub(r' ?\* ?', '*', p)
        stars = len(p) - len(p.rstrip('*'))
        t = p.rstrip('*')
        if t == 'const char':
            return ('opt ' if stars == 2 else '') + ('str' if stars in (1, 2) else '?')
        if t == 'const void':
            return ('opt ' if stars == 2 else '') + ('blob' if stars in (1, 2) else '?')
        k = t if t.startswith('enum ') else self.types.get(t, '?' + t)
        return ('opt ' if stars == 1 else '') + (k if stars < 2 else '?')


def c_values(names, header, d, flags):
    """The values of enumerators, as the compiler has them."""
    src, exe = os.path.join(d, 'v.c'), os.path.join(d, 'v')
    with open(src, 'w') as f:
        f.write('#include <stdio.h>\n#include <stdint.h>\n#include <time.h>\n#include <sys/types.h>\n#include <sys/queue.h>\n#include <stdarg.h>\n#include <kcgi.h>\n#include <kcgijson.h>\n#include "%s"\nint main(void) {\n' % header)
        for n in names:
            f.write('\tprintf("%%lld\\n", (long long)%s);\n' % n)
        f.write('}\n')
    rc, out, err = vf.run(['gcc', '-w', '-O0', '-I' + B.SHIMC, '-include',
                           os.path.join(B.SHIMC, 'shim.h'), '-o', exe, src])
    if rc != 0:
        return None, err
    rc, out, err = vf.run([exe])
    return dict(zip(names, map(int, out.split()))), err


BUILTIN = r'db_(trans_(open(_\w+)?|rollback|commit)|role(_current|_stored)?)$'


def read_c(text, path, d, flags):
    h = CHeader(text)
    names = [n for k, ns in h.enumerators.items() if k not in ('valid_keys', 'jsmnerr_t') for n in ns]
    val, err = c_values(names, path, d, flags)
    if val is None:
        return 'header does not compile: ' + err[:1000]
    ev = said('c', flags)
    for e, ns in h.enumerators.items():
        if e == 'jsmnerr_t':
            continue
        if e == 'ort_role':
            ev['roles'] = [n[5:] for n in ns]
        elif e == 'valid_keys':
            pass
        elif any(n.startswith(('BITI_', 'BITF_')) for n in ns):
            p = e.upper() + '_'
            its = {}
            for n in ns:
                if n == 'BITI_' + p + '_MAX':
                    ev['tops'].append([e, val[n]])
                    continue
                if n[5:5 + len(p)] != p:
                    return 'enumerator %s in %s' % (n, e)
                it = its.setdefault(n[5 + len(p):], [-1, []])
                if n[3] == 'I':
                    it[0] = val[n]
                else:
                    it[1] = bitlist(val[n] & (1 << 64) - 1)
            ev['bits'].append([e, [[k] + v for k, v in its.items()]])
        else:
            p = e.upper() + '_'
            if any(not n.startswith(p) for n in ns):
                return 'enumerators %s in %s' % (ns, e)
            ev['enums'].append([e, [[n[len(p):], i64(val[n])] for n in ns]])
    funcs = {}
    for s, ms in h.structs.items():
        if 'struct ort_store *priv_store' not in ms and not any(x[1] == 'db_%s_free' % s
                                                                for x in h.protos):
            continue
        out, has = [], set()
        for i, m in enumerate(ms):
            if m.startswith('TAILQ_ENTRY') or m.startswith('struct ort_store'):
                continue
            m = re.sub(r' ?\* ?', ' *', m)
            t, n = re.match(r'(.*?) (\**\w+)$', m).groups()
            stars = len(n) - len(n.lstrip('*'))
            n = n.lstrip('*')
            if t == 'int' and n.startswith('has_') and n[4:] in [x[0] for x in out]:
                has.add(n[4:])
            elif t == 'size_t' and n.endswith('_sz') and out and out[-1] == [n[:-3], 'blob']:
                pass
            elif t == 'char' and stars == 1:
                out.append([n, 'str'])
            elif t == 'void' and stars == 1:
                out.append([n, 'blob'])
            elif stars == 0 and t.startswith(('enum ', 'struct ')):
                out.append([n, t])
            else:
                out.append([n, h.types.get(t, '?' + t) if stars == 0 else '?' + m])
        ev['layout'].append([s, [[n, ('opt ' if n in has else '') + t] for n, t in out]])
    for res, n, args in h.protos:
        args = [a.strip() for a in args.split(',')] if '(' not in args else [args]
        if not args or args[0] != 'struct ort *ctx' or re.match(BUILTIN, n):
            ev['helpers'].append(n)
            continue
        r = {'void': 'none', 'int': 'done', 'int64_t': 'id', 'uint64_t': 'count'}.get(res, '?' + res)
        m = re.match(r'struct (\w+?)(_q)?\*$', res)
        if m:
            r = ('many ' if m.group(2) else 'one ') + m.group(1)
        args = args[1:]
        if args and re.match(r'\w+_cb cb$', args[0]) and args[1] == 'void *arg':
            r = 'each ' + args[0][:-6]
            args = args[2:]
        ps = []
        for j, a in enumerate(args):
            if a.startswith('size_t ') and a.endswith('_sz'):
                if j + 1 == len(args) or h.param(args[j + 1])[-4:] != 'blob':
                    ps.append('?size')
                continue
            ps.append(h.param(a))
        ev['functions'].append([n, ps, r])
    # a field that is a structure is not validated, though there is a function for it
    subs = {'valid_%s_%s' % (s, m[0]) for s, ms in ev['layout'] for m in ms
            if m[1].startswith(('struct ', 'opt struct '))}
    ev['helpers'] = [n for n in ev['helpers'] if n not in subs]
    return ev


# ------------------------------------------------------- Node.js, browser
NODE = r'''
const fs = require('fs');
const ts = require('/opt/veriftools/node/node_modules/typescript');
const jobs = JSON.parse(fs.readFileSync(0, 'utf8'));
function ast(text) {
    const f = ts.createSourceFile('x.ts', text, ts.ScriptTarget.ES2020, true);
    const o = {interfaces: {}, methods: [], classes: {}, enums: []};
    const txt = n => n ? n.getText().replace(/\s+/g, ' ') : '';
    function visit(n, cls, hidden) {
        if (ts.isInterfaceDeclaration(n))
            o.interfaces[n.name.text] = n.members.filter(ts.isPropertySignature).map(
                m => [txt(m.name), !!m.questionToken, txt(m.type)]);
        if (ts.isEnumDeclaration(n)) o.enums.push(n.name.text);
        if (ts.isClassDeclaration(n)) {
            cls = n.name.text;
            o.classes[cls] = n.members.filter(ts.isPropertyDeclaration).map(m => txt(m.name));
        }
        if (ts.isModuleDeclaration(n) && n.name.text === 'ortns') hidden = true;
        if (ts.isMethodDeclaration(n) && !hidden)
            o.methods.push([cls, txt(n.name), n.parameters.map(p => [txt(p.name), txt(p.type)]),
                txt(n.type), (n.modifiers || []).map(txt)]);
        ts.forEachChild(n, c => visit(c, cls, hidden));
    }
    visit(f, '');
    return o;
}
function load(text, paths) {
    const js = ts.transpileModule(text, {compilerOptions: {target: 'ES2022', module: 'commonjs'}});
    const m = {exports: {}};
    new Function('module', 'exports', 'require', 'document', js.outputText)(
        m, m.exports, n => ({}), {});
    return m.exports;
}
function num(x) {
    if (typeof x === 'object' && x !== null && 'low' in x && 'high' in x)
        return String((BigInt(x.high >>> 0) << 32n) | BigInt(x.low >>> 0));
    return String(x);
}
const out = jobs.map(j => {
    const r = {};
    try {
        const text = fs.readFileSync(j.path, 'utf8');
        r.ast = ast(text);
        r.consts = {};
        const ns = j.lang === 'nodejs' ? load(text).ortns || {} :
            load(text + '\nmodule.exports = ort;\n');
        for (const k of Object.keys(ns)) {
            const o = {};
            for (const n of Object.getOwnPropertyNames(ns[k]))
                if (/^(string|number|bigint)$/.test(typeof ns[k][n]) || /^BIT[FI]_/.test(n))
                    o[n] = num(ns[k][n]);
            r.consts[k] = o;
        }
    } catch (e) { r.err = String(e && e.stack || e); }
    return r;
});
process.stdout.write(JSON.stringify(out));
'''


def node(jobs):
    """[(lang, path)] -> what TypeScript makes of them."""
    p = os.path.join(vf.scratch(), 'names.js')
    if not os.path.exists(p):
        open(p, 'w').write(NODE)
    rc, out, err = vf.run(['node', '--no-warnings', p],
                          inp=json.dumps([dict(lang=a, path=b) for a, b in jobs]), timeout=600)
    if rc != 0:
        raise vf.Fail('node: ' + err[-1000:])
    return json.loads(out)


def ts_consts(ev, consts, enums, js):
    for n in enums:
        c = consts.get(n, {})
        if js:
            c = {k: v for k, v in c.items() if k in js[n]}
        if any(k.startswith(('BITI_', 'BITF_')) for k in c):
            its = {}
            for k, v in c.items():
                if js and k == 'BITI__MAX':
                    ev['tops'].append([n, int(v)])
                    continue
                if not k.startswith(('BITI_', 'BITF_')):
                    return 'constant %s of %s' % (k, n)
                it = its.setdefault(k[5:], [-1, []])
                if k[3] == 'I':
                    it[0] = int(v)
                else:
                    it[1] = bitlist(int(v))
            ev['bits'].append([n, [[k] + v for k, v in its.items()]])
        else:
            ev['enums'].append([n, [[k, i64(v)] for k, v in c.items()]])


TSK = dict(bigint='int', number='real', string='str', Buffer='blob')


def ts_type(t, enums):
    opt = ''
    if t.endswith('|null'):
        opt, t = 'opt ', t[:-5]
    if t in TSK:
        return opt + TSK[t]
    m = re.match(r'ortns\.(\w+)Data$', t)
    if m:
        return opt + 'struct ' + m.group(1)
    m = re.match(r'ortns\.(\w+)$', t)
    if m:
        return opt + 'enum ' + m.group(1)
    return '?' + t


def read_nodejs(r):
    if 'err' in r:
        return r['err'][:1000]
    ev = said('nodejs')
    a = r['ast']
    why = ts_consts(ev, r['consts'], [n for n in a['enums'] if n in r['consts']], None)
    if why:
        return why
    for n, ms in a['interfaces'].items():
        if n.endswith('Data'):
            ev['layout'].append([n[:-4], [[x, ('?' if q else '') + ts_type(t.replace(' ', ''), None)]
                                          for x, q, t in ms]])
    for cls, n, ps, res, mods in a['methods']:
        if cls != 'ortctx' or 'private' in mods or re.match(BUILTIN, n):
            continue
        res = res.replace(' ', '')
        out = {'void': 'none', 'boolean': 'done', 'bigint': 'id' if n.endswith('_insert') and
               '_count' not in n else 'count'}.get(res, '?' + res)
        m = re.match(r'ortns\.(\w+)(\|null|\[\])$', res)
        if m:
            out = ('one ' if m.group(2) == '|null' else 'many ') + m.group(1)
        args = []
        for x, t in ps:
            t = t.replace(' ', '')
            m = re.match(r'\(res:ortns\.(\w+)\)=>void$', t)
            if m:
                out = 'each ' + m.group(1)
            else:
                args.append(ts_type(t, None))
        ev['functions'].append([n, args, out])
    return ev


JSK = {'string|number': 'int', 'number|string': 'int', 'number': 'real', 'string': 'str'}


def read_javascript(r):
    if 'err' in r:
        return r['err'][:1000]
    ev = said('javascript')
    a = r['ast']
    structs = []
    for n, ms in a['interfaces'].items():
        if n.endswith('Data'):
            structs.append(n[:-4])
            out = []
            for x, q, t in ms:
                t = re.sub(r'\|null$', '', t.replace(' ', ''))
                m = re.match(r'(\w+)Data$', t)
                out.append([x, 'struct ' + m.group(1) if m else JSK.get(t, '?' + t)])
            ev['layout'].append([n[:-4], out])
    why = ts_consts(ev, r['consts'], [n for n in a['classes'] if n != 'Long' and
                                      n not in structs], a['classes'])
    return why or ev


# ------------------------------------------------------------------ Rust
RSK = {'i64': 'int', 'f64': 'real', 'String': 'str', '&String': 'str', 'Vec<u8>': 'blob',
       '&Vec<u8>': 'blob'}


def rust_type(t, kinds):
    t = t.replace(' ', '')
    opt = ''
    m = re.match(r'Option<(.*)>$', t)
    if m:
        opt, t = 'opt ', m.group(1)
    if t in RSK:
        return opt + RSK[t]
    t = re.sub(r'^data::', '', t).lower()
    return opt + (kinds[t] + ' ' + t if t in kinds else '?' + t)


def read_rust(text):
    ev = said('rust')
    text = re.sub(r'//.*$', '', text, flags=re.M)
    text = re.sub(r'/\*.*?\*/', ' ', text, flags=re.S)
    m = re.search(r'pub enum Ortrole \{(.*?)\}', text, re.S)
    if m:
        ev['roles'] = [x.strip().lower() for x in m.group(1).split(',') if x.strip()]
    i = text.index('pub mod data {')
    data = text[i:text.index('pub mod objs {')]
    kinds = {}
    for attr, n, body in re.findall(r'(#\[derive\([^\]]*\)\]\s*)?pub enum (\w+) \{(.*?)\}', data,
                                    re.S):
        its = [[a.lower(), int(b.replace('_', ''))] for a, b in
               re.findall(r'(\w+)\s*=\s*(-?[\d_]+)', body)]
        if len(its) != len([x for x in body.split(',') if x.strip()]):
            return 'items of %s' % n
        n = n.lower()
        if 'FromPrimitive' in attr:
            kinds[n] = 'enum'
            ev['enums'].append([n, [[a, i64(b)] for a, b in its]])
        else:
            # there are no masks here
            ev['bits'].append([n, [[a, b, [b]] for a, b in its]])
    structs = re.findall(r'pub struct (\w+) \{(.*?)\n        \}', data, re.S)
    for n, body in structs:
        kinds[n.lower()] = 'struct'
    for n, body in structs:
        ev['layout'].append([n.lower(), [[a, rust_type(b, kinds)] for a, b in
                                         re.findall(r'pub (?:r#)?(\w+): ([^\n]+),', body)]])
    for n, args, res in re.findall(r'pub fn (db_\w+)\(&(?:mut )?self,? ?(.*?)\) -> Result<(.*)> \{',
                                   text):
        out = {'()': 'none', 'bool': 'done', 'i64': 'id' if n.endswith('_insert') and
               '_count' not in n else 'count'}.get(res, '?' + res)
        m = re.match(r'(Option|Vec)<objs::(\w+)>$', res)
        if m:
            out = ('one ' if m.group(1) == 'Option' else 'many ') + m.group(2).lower()
        ps = []
        m = re.match(r'cb: fn\(res: objs::(\w+)\)(?:, )?(.*)$', args)
        if m:
            out, args = 'each ' + m.group(1).lower(), m.group(2)
        for a in args.split(', '):
            if a:
                ps.append(rust_type(a.split(': ', 1)[1], kinds))
        ev['functions'].append([n, ps, out])
    return ev
