"""JSON documents for generated importers, and what came of them, in the terms of spec/OrtImport.tla."""
import base64, decimal, json, os, random
import vf, cfggen, backend as B

INTLIKE, STR = B.INTLIKE, B.STR
NUL, TRUE, FALSE = ['null'], ['true'], ['false']


def form(c):
    """Add the names of fields as bytes."""
    for s in c['structs']:
        for f in s['fields']:
            f['nameb'] = list(f['name'].encode())
    return c


# -------------------------------------------------------------------------- JSON

def num(s):
    return ['num', list(s.encode())]


def raw(s):
    """A string as it is spelled between quotes."""
    return ['str', list(s if isinstance(s, bytes) else s.encode())]


SHORT = {'"': '\\"', '\\': '\\\\', '/': '\\/', '\b': '\\b', '\f': '\\f', '\n': '\\n', '\r': '\\r', '\t': '\\t'}


def spell(s, rng=None):
    """A string, spelled in one of the ways there are."""
    out = []
    for ch in s:
        n = ord(ch)
        must = n < 32 or ch in '"\\'
        if ch in SHORT and (must or rng and rng.random() < .4) and not (rng and rng.random() < .2):
            out.append(SHORT[ch])
        elif must or rng and rng.random() < .12:
            u = [n] if n < 0x10000 else [0xd800 + ((n - 0x10000) >> 10), 0xdc00 + ((n - 0x10000) & 0x3ff)]
            out += [('\\u%04x' if not rng or rng.random() < .5 else '\\u%04X') % x for x in u]
        else:
            out.append(ch)
    return ''.join(out)


def render(v, rng=None):
    def ws():
        return rng.choice(['', '', '', ' ', '\n\t', '  ', '\r\n']).encode() if rng else b''
    k = v[0]
    if k in ('null', 'true', 'false'):
        return k.encode()
    if k == 'num':
        return bytes(v[1])
    if k == 'str':
        return b'"' + bytes(v[1]) + b'"'
    if k == 'arr':
        return b'[' + ws() + (b',' + ws()).join(render(x, rng) + ws() for x in v[1]) + b']'
    return b'{' + ws() + (b',' + ws()).join(
        b'"' + bytes(n) + b'"' + ws() + b':' + ws() + render(x, rng) + ws() for n, x in v[1]) + b'}'


class Bad(Exception):
    pass


def lex(b):
    """The value a document spells, by the grammar of RFC 8259."""
    def ws(i):
        while i < len(b) and b[i] in b' \t\r\n':
            i += 1
        return i

    def string(i):
        j = i + 1
        while True:
            if j >= len(b) or b[j] < 32:
                raise Bad('string')
            if b[j] == 0x22:
                return list(b[i + 1:j]), j + 1
            if b[j] == 0x5c:
                if b[j + 1:j + 2] == b'u':
                    int(b[j + 2:j + 6], 16)
                    j += 4
                elif b[j + 1:j + 2] not in (b'"', b'\\', b'/', b'b', b'f', b'n', b'r', b't'):
                    raise Bad('escape')
                j += 1
            j += 1

    def value(i):
        i = ws(i)
        c = b[i:i + 1]
        if c == b'{':
            out, i = [], ws(i + 1)
            while b[i:i + 1] != b'}':
                if out:
                    if b[i:i + 1] != b',':
                        raise Bad('object')
                    i = ws(i + 1)
                if b[i:i + 1] != b'"':
                    raise Bad('object')
                k, i = string(i)
                i = ws(i)
                if b[i:i + 1] != b':':
                    raise Bad('object')
                v, i = value(i + 1)
                out.append([k, v])
                i = ws(i)
            return ['obj', out], i + 1
        if c == b'[':
            out, i = [], ws(i + 1)
            while b[i:i + 1] != b']':
                if out:
                    if b[i:i + 1] != b',':
                        raise Bad('array')
                    i += 1
                v, i = value(i)
                out.append(v)
                i = ws(i)
            return ['arr', out], i + 1
        if c == b'"':
            s, i = string(i)
            return ['str', s], i
        j = i
        while j < len(b) and b[j] not in b' \t\r\n,]}:':
            j += 1
        w = bytes(b[i:j])
        if w in (b'null', b'true', b'false'):
            return [w.decode()], j
        if not w:
            raise Bad('value')
        return ['num', list(w)], j
    try:
        v, i = value(0)
    except (IndexError, ValueError):
        raise Bad('escape')
    if ws(i) != len(b):
        raise Bad('trailing text')
    return v


# -------------------------------------------------------------------------- values

def dec(d):
    s = format(abs(d), 'f')
    i, f = (s.split('.') + [''])[:2]
    i, f = i.lstrip('0'), f.rstrip('0')
    return dict(nan=False, neg=bool(d < 0), int=list(i.encode()), frac=list(f.encode()))


def exact(x):
    """The shortest number that is read as this double."""
    return decimal.Decimal(repr(float.fromhex(x)))


def shown(cfg, st, o):
    """An object as printed by harness/impc.h, as the specification has it."""
    out = []
    for f, x in zip(st['fields'], o):
        if isinstance(x, list):
            out.append(shown(cfg, B.target(cfg, st, f), x))
        elif x in ('n', 'x'):
            out.append(['null'] if x == 'n' else ['none'])
        elif x[0] == 'i':
            out.append(B.s_int(int(x[1:])))
        elif x[0] == 'r':
            if 'n' in x:        # neither inf nor nan is a number
                out.append(['d', dict(nan=True, neg=False, int=[], frac=[])])
            else:
                out.append(['d', dec(exact(x[1:]))])
        else:
            out.append([x[0], list(bytes.fromhex(x[1:]))])
    return ['o', out]


# -------------------------------------------------------------------------- generation

EDGES = [0, 1, -1, 2 ** 31 - 1, 2 ** 31, -2 ** 31 - 1, 2 ** 32, 2 ** 53 + 1, 2 ** 63 - 1, -2 ** 63, -2 ** 63 + 1, 10 ** 18]
TEXTS = ['', 'a', 'plain text', 'it\'s', '"', '\\', '\\n', 'tab\there', 'line\nbreak', 'é', '終わり', '😀', '/', '</script>', '\x01',
         '\x7f', 'null', '{}', 'a"b\\c/d', '\u2028', ' ', 'x' * 300, '\b\f\r', '\ud7ff\ue000', '\\u0041']
REALS = ['0', '1', '-1', '0.5', '-0.25', '1234567.875', '-3.0', '1e3', '1E+2', '25e-2', '-5e-1', '9007199254740992', '1e22', '0.0',
         '-0.0', '100000000000000000000', '1.0e0', '0.0009765625', '-12345678']
ODDINTS = ['1.5', '1e2', '12abc', '1 2', '9223372036854775808', '-9223372036854775809', '18446744073709551616', '-', '--1', '0x10',
           '007', '+5', '1,2', '99999999999999999999999999999999', '1.0', '-0', '1e30', '', ' 1', '1 ', 'one', '1-', '1.', '12\\u0031',
           '000000000000000000000000000000000000001', '9' * 200]
ODDREALS = ['1.5x', '1..2', '-', 'NaN', 'Infinity', '-inf', '0x1p3', '1e', '1e+', '.5', '5.', '', ' 1', '+1', '1e999', '-1e999', '1 5',
            'nan', '1.5.5']
ODDSTR = ['\\u0000', 'a\\u0000b', '\\ud800', '\\udc00x', '\\ud800\\u0041', '\\ud83d\\ude00', '\\uD83D\\uDE00!', '\\/', '\\u00e9\\u7d42',
          '\\ud800\\ud800\\udc00']
ODD64 = ['A', 'AA', 'AAA', 'AA=', 'A===', '====', 'AA==AA==', 'AAAA=', '!!!!', 'AB==', 'AAB=', 'QUJD RA==', 'QUJDRA', 'QUJD\\nRA==',
         'QUJDRA==x', '=AAA', 'A=AA', 'QU\\u004aD', 'é', '-_-_', 'AAAA====', 'QUJDRA= =']


def blob(rng):
    return bytes(rng.randrange(256) for i in range(rng.choice((0, 1, 2, 3, 4, 5, 30))))


def primitive(s):
    """Whether a tokenizer that is not strict takes it for one primitive."""
    return bool(s) and s[0] != 'n' and all(33 <= ord(c) < 127 and c not in ':,]}[{"\\' for c in s)


class Gen:
    def __init__(self, cfg, rng, wrong=.12):
        self.cfg, self.rng, self.wrong = cfg, rng, wrong

    def other(self):
        """A value of no particular kind."""
        r = self.rng
        return r.choice([NUL, TRUE, FALSE, num('7'), raw('8'), raw('x'), ['arr', []], ['arr', [num('1')]], ['obj', []],
                         ['obj', [[list(b'id'), num('1')]]], ['arr', [['obj', []], ['arr', [raw('a'), NUL]]]], num('-2.5'),
                         raw('QUJD'), num('tru')])

    def field(self, st, f, depth=0):
        r, t = self.rng, f['type']
        if r.random() < self.wrong:
            return self.bad(f)
        nul = f['null'] or t == 'struct' and B.fof(st, f['src'])['null']
        if nul and r.random() < .25:
            return NUL
        if t == 'struct':
            return self.obj(B.target(self.cfg, st, f))
        if t in INTLIKE:
            if t == 'bit':
                v = r.choice((0, 1, 5, 62, 63))
            elif t == 'enum':
                e = [e for e in self.cfg['enums'] if e['name'] == f['aux']][0]
                nums = [int.from_bytes(b'', 'big')] if not e['items'] else None
                v = r.choice(nums or self.enumvals(e))
            else:
                v = r.choice(EDGES + [r.randrange(-1000, 1000)])
            s = str(v)
            return num(s) if r.random() < .6 else raw(s)
        if t == 'real':
            s = r.choice(REALS + ['%d.%s' % (r.randrange(-99, 99), r.choice(('5', '25', '75', '125', '0')))])
            return num(s) if r.random() < .85 else raw(s)
        if t in STR:
            s = ''.join(r.choice(TEXTS) for i in range(r.choice((1, 1, 1, 2, 3))))
            return raw(spell(s.encode('utf-16', 'surrogatepass').decode('utf-16', 'replace'), r))
        return raw(spell(base64.b64encode(blob(r)).decode()) if r.random() < .8 else
                   spell(base64.b64encode(blob(r)).decode(), r))

    def enumvals(self, e):
        ex = [number(i['num'][0]) for i in e['items'] if i['num']]
        n = max([0] + [x + 1 if x >= 0 else 0 for x in ex])
        return ex + list(range(n, n + len(e['items']) - len(ex)))

    def bad(self, f):
        r, t = self.rng, f['type']
        if r.random() < .3:
            return self.other()
        if t in INTLIKE:
            s = r.choice(ODDINTS + [str(x) for x in (64, 70, 200, -3)])
            return num(s) if primitive(s) and r.random() < .6 else raw(s)
        if t == 'real':
            s = r.choice(ODDREALS)
            return num(s) if primitive(s) and r.random() < .6 else raw(s)
        if t in STR:
            return raw(r.choice(ODDSTR)) if r.random() < .8 else raw(b'\xff\xfe\x80a')
        if t == 'blob':
            return raw(r.choice(ODD64))
        return self.other()

    def obj(self, st):
        r = self.rng
        fs = [f for f in st['fields'] if not f['noexport'] or r.random() < .04]
        k = r.random()
        if k < .25:
            fs = r.sample(fs, r.randrange(0, len(fs) + 1))
        elif k < .55:
            r.shuffle(fs)
        ms = [[list(f['name'].encode()), self.field(st, f)] for f in fs]
        if r.random() < self.wrong / 4 and fs:      # twice
            f = r.choice(fs)
            ms.insert(r.randrange(len(ms) + 1), [list(f['name'].encode()), self.field(st, f)])
        if r.random() < self.wrong / 4:             # not of this structure
            n = r.choice(['nosuch', '', 'ID', 'id ', 'i', st['name'], '_sz', 'has_' + st['fields'][0]['name'], 'idd'])
            if n not in [f['name'] for f in st['fields']]:
                ms.insert(r.randrange(len(ms) + 1), [list(n.encode()), self.other()])
        if r.random() < self.wrong / 4 and ms:      # spelled otherwise
            m = r.choice(ms)
            i = r.randrange(len(m[0]) or 1)
            m[0] = m[0][:i] + [x for c in m[0][i:i + 1] for x in b'\\u%04x' % c] + m[0][i + 1:]
        return ['obj', ms]

    def value(self, st, f):
        """A value as harness/impc.h takes it, and as the specification has it."""
        r, t = self.rng, f['type']
        if (f['null'] or t == 'struct' and B.fof(st, f['src'])['null']) and r.random() < .4:
            return ['n'], ['null']
        if t == 'struct':
            w, o = self.object(B.target(self.cfg, st, f))
            return ['o'] + w, o
        if t in INTLIKE:
            v = r.choice((0, 1, 63) if t == 'bit' else EDGES + [r.randrange(-10 ** 6, 10 ** 6)])
            if t == 'enum':
                v = r.choice(self.enumvals([e for e in self.cfg['enums'] if e['name'] == f['aux']][0]))
            return ['i%d' % v], B.s_int(v)
        if t == 'real':
            v = r.choice((0., -.5, 1., 123456.125, r.randrange(-10 ** 6, 10 ** 6) / 64))
            return ['r' + v.hex()], ['d', dec(exact(v.hex()))]
        if t in STR:
            s = ''.join(r.choice(TEXTS) for i in range(r.choice((1, 1, 2)))).encode('utf-16', 'surrogatepass').decode(
                'utf-16', 'replace').encode()
            return ['t' + s.hex()], ['t', list(s)]
        b = blob(r)
        return ['b' + b.hex()], ['b', list(b)]

    def object(self, st):
        ws, vs = [], []
        for f in st['fields']:
            w, v = self.value(st, f)
            ws += w
            vs.append(v)
        return ws, ['o', vs]


def number(v):
    return ((v[1] - 524288) << 44) + (v[2] << 22) + v[3]


MANGLE = ['{', '}', '[', ']', '"', ':', ',', '{"id"}', '{"id":}', '{"id" 1}', '{"id":1,}', '{:1}', '{1:2}', '[1', '{"id":1', '"', '"a',
          '{"id":"', '{"id":1}}', '[{]}', '', ' ', 'null', '{"id":{"id":{"id":1}}}', '\\', '{"a":"\\u12"}', '{"a":"\\', '"\\u12']


def mangle(rng, doc):
    """Documents that are none."""
    b = bytearray(doc)
    for i in range(rng.choice((1, 1, 2, 3))):
        k = rng.random()
        p = rng.randrange(len(b) + 1)
        if k < .35:
            q = min(len(b), p + rng.choice((1, 1, 2, 5)))
            del b[p:q]
        elif k < .6:
            b[p:p] = rng.choice(['{', '}', '[', ']', '"', ':', ',', '\\', '\x00', 'é', ' ', '-', '1', '\\u', '{"id"}', '[]', '{}']).encode()
        elif k < .8:
            del b[p:]
        elif b:
            b[p % len(b)] = rng.choice(b'{}[]":,\\1n\xff\x80')
    return bytes(b)


# -------------------------------------------------------------------------- the program

def program(cfg):
    """C that includes db.c and harness/impc.h."""
    o = ['#include "db.c"', '#include "impc.h"']
    for st in cfg['structs']:
        n = st['name']
        o.append('static void P_%s(const void *);\nstatic void F_%s(void *);' % (n, n))
    for st in cfg['structs']:
        n = st['name']
        p = ['static void P_%s(const void *v) {\n\tconst struct %s *p = v; (void)p; fputc(\'[\', O);' % (n, n)]
        g = ['static void F_%s(void *v) {\n\tstruct %s *p = v; char *w; size_t n; (void)p; (void)n;' % (n, n)]
        for k, f in enumerate(st['fields']):
            fn, t = f['name'], f['type']
            null = f['null'] or (t == 'struct' and B.fof(st, f['src'])['null'])
            if k:
                p.append("\tfputc(',', O);")
            pre = '\tif (!p->has_%s) p_n(); else ' % fn if null else '\t'
            g.append('\tw = word();')
            gpre = "\tif (*w != 'n') { p->has_%s = 1; " % fn if null else '\t{ '
            if t == 'struct':
                p.append(pre + 'P_%s(&p->%s);' % (B.target(cfg, st, f)['name'], fn))
                g.append(gpre + 'F_%s(&p->%s); }' % (B.target(cfg, st, f)['name'], fn))
            elif t == 'real':
                p.append(pre + 'p_r(p->%s);' % fn)
                g.append(gpre + 'p->%s = strtod(w + 1, NULL); }' % fn)
            elif t == 'blob':
                p.append(pre + "p_b('b', p->%s, p->%s_sz);" % (fn, fn))
                g.append(gpre + 'char *b; n = unhex(w + 1, &b); p->%s = (void *)b; p->%s_sz = n; }' % (fn, fn))
            elif t in STR:
                p.append(pre + 'p_t(p->%s);' % fn)
                g.append(gpre + 'char *b; n = unhex(w + 1, &b); b = realloc(b, n + 1); b[n] = 0; p->%s = b; }' % fn)
            else:
                p.append(pre + 'p_i((int64_t)p->%s);' % fn)
                g.append(gpre + 'p->%s = strtoll(w + 1, NULL, 10); }' % fn)
        o += p + ["\tfputc(']', O);\n}"] + g + ['}']
        o.append('static int O_%s(void *p, const char *b, const jsmntok_t *t, size_t n) { return jsmn_%s(p, b, t, n); }' % (n, n))
        o.append('static int A_%s(void **p, size_t *z, const char *b, const jsmntok_t *t, size_t n) '
                 '{ struct %s *q; int rc = jsmn_%s_array(&q, z, b, t, n); *p = q; return rc; }' % (n, n, n))
        o.append('static void C_%s(void *p) { jsmn_%s_clear(p); }' % (n, n))
        o.append('static void R_%s(void *p, size_t n) { jsmn_%s_free_array(p, n); }' % (n, n))
        o.append('static void D_%s(struct kjsonreq *r, const void *p) { json_%s_data(r, p); }' % (n, n))
    o.append('static const struct strct S[] = {')
    for st in cfg['structs']:
        n = st['name']
        o.append('\t{ sizeof(struct %s), O_%s, A_%s, C_%s, R_%s, P_%s, F_%s, D_%s },' % (n, n, n, n, n, n, n, n))
    o.append('};\nint main(void) { return run(S, sizeof(S) / sizeof(S[0])); }')
    return '\n'.join(o) + '\n'
