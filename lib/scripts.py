"""Seeded scripts of operations on a generated data layer."""
import random
import backend as B

TEXTS = ['', 'a', 'A', 'ab', 'aB', 'b', 'x y', "o'k", 'é', 'b%', 'a_b', '日本', '%', '"q"\\', 'zz\nz']
PATS = ['a%', '%b', '_', '%', 'a_b', '', 'A%', '%é%', 'zz', 'é']
EMAILS = ['a@b.ch', 'x@y.org', 'A@b.ch', 'zed@example.com']
PWS = ['', 'pw', 'PW', 'sekret', "p'w", 'é']
INTS = [0, 1, 1, 2, 2, 3, -1, 5, 7, 255, 4294967296, 9007199254740993, -9007199254740995,
        (1 << 62) + 1, -(1 << 62) - 3]
REALS = [0.0, 1.0, -1.5, 0.25, 0.015625, 12345.671875, 1048576.109375, -3355443.5, 100.0]
BLOBS = [b'a', b'\x00', b'\x00\x01\xff', b"'", b'abc' * 5]
EPOCHS = [0, 1, 1000000000, 86399, -1, 4102444800, 253402300799]


def permitted(cfg, st, kind, name, role):
    """Only a heuristic that steers generation; the specification decides."""
    if not cfg['hasroles']:
        return True
    anc = set()
    dec = {r['name']: r['parent'] for r in cfg['roles']}
    r = role
    while r in dec:
        anc.add(r)
        r = dec[r]
    if role in dec:
        anc.add('all')
    anc.add(role)
    return any(set(g['roles']) & anc and any(o[0] == 'all' or (o[0] == kind and (
        kind == 'insert' or (o[1] == name and name))) for o in g['ops']) for g in st['grants'])


class Scripter:
    def __init__(self, cfg, rng, length=40, lang='c', tx=True, denied=.06, roleevents=.1,
                 exports=.5, wquery=2.4, txevents=1):
        self.cfg, self.r, self.len, self.lang = cfg, rng, length, lang
        self.tx, self.denied, self.roleevents = tx, denied, roleevents
        self.exports, self.wquery, self.txevents = exports, wquery, txevents
        self.ops = B.ops_of(cfg)
        self.h = 0
        self.pools = {}

    def value(self, f, op=None, mod=None):
        r = self.r
        if f.get('ref'):
            tf = B.fof(B.sof(self.cfg, f['ref'][0][0]), f['ref'][0][1])
            return self.value(tf, op, mod)
        t = f['type']
        if t == 'int':
            if f['rowid'] and mod:
                return r.choice((1, 2, 3, 5, 20)) if mod == 'set' else \
                    r.choice((0, 1, 3, 10)) if mod == 'inc' else r.choice((0, -1, -10))
            if f['rowid']:
                return r.choice((1, 1, 2, 2, 3, 3, 4, 5, 1, 6, -3, 1000))
            if mod in ('inc', 'dec'):
                return r.choice((0, 1, -1, 3, 10))
            if f['unique']:
                return r.choice(INTS + [4, 6, 8, 9, 10, 11])
            return r.choice(INTS) if r.random() < .5 else r.choice((0, 1, 2, 3))
        if t == 'bit':
            # the index of a bit: stored and compared as an integer
            return r.choice((0, 1, 2, 3, 8)) if r.random() < .8 else r.choice((31, 33, 63))
        if t == 'bits':
            b = next(x for x in self.cfg['bits'] if x['name'] == f['aux'])
            v = 0
            for i in b['items']:
                if r.random() < .4:
                    v |= 1 << i['bit']
            if mod in ('inc', 'dec'):
                v = 0 if any(i['bit'] > 61 for i in b['items']) else r.choice((0, 1, 2))
            return v - (1 << 64) if v >= 1 << 63 else v
        if t == 'enum':
            e = next(x for x in self.cfg['enums'] if x['name'] == f['aux'])
            return r.choice(enumvals(e))
        if t in ('epoch', 'date'):
            if mod in ('inc', 'dec'):
                return r.choice((0, 1, 60, -3))
            return r.choice(EPOCHS)
        if t == 'real':
            return r.choice(REALS) if mod not in ('inc', 'dec') else r.choice((0.5, 1.0, -2.25))
        if t == 'blob':
            return r.choice(BLOBS)
        if t == 'password':
            if op in ('streq', 'strneq') or mod == 'strset':
                return r.choice(PWS[1:])
            return r.choice(PWS)
        if t == 'email':
            return r.choice(EMAILS)
        if op == 'like':
            return r.choice(PATS)
        return r.choice(TEXTS)

    def args(self, s, op, i):
        st = B.sof(self.cfg, s)
        out = []
        terms = []
        if op == 'query':
            terms = [(t['op'], None) for t in st['queries'][i]['terms'] if t['op'] not in B.UN]
        elif op == 'update':
            u = st['updates'][i]
            terms = [(None, m[1]) for m in u['mods']] or \
                [(None, 'set')] * len(B.insert_fields(st))
            terms += [(c[1], None) for c in u['cons'] if c[1] not in B.UN]
        elif op == 'delete':
            terms = [(c[1], None) for c in st['deletes'][i]['cons'] if c[1] not in B.UN]
        for j, (f, ptr) in enumerate(B.op_params(self.cfg, st, op, i)):
            o, m = terms[j] if terms else (None, None)
            if ptr and self.r.random() < .3:
                out.append(None)
            else:
                out.append(self.value(f, o, m))
        return out

    def call(self, role):
        r = self.r
        cands = []
        for s, op, i in self.ops:
            st = B.sof(self.cfg, s)
            kind = op if op != 'query' else st['queries'][i]['kind']
            name = '' if op == 'insert' else st[{'query': 'queries', 'update': 'updates',
                                                 'delete': 'deletes'}[op]][i]['name']
            ok = permitted(self.cfg, st, kind, name, role)
            cands.append((s, op, i, ok))
        good = [c for c in cands if c[3]]
        bad = [c for c in cands if not c[3]]
        pool = good
        if bad and (r.random() < self.denied):
            pool = bad
        if not pool:
            return None
        w = [3.2 if c[1] == 'insert' else .55 if c[1] == 'delete' else
             self.wquery if c[1] == 'query' else 1.2 for c in pool]
        s, op, i, ok = r.choices(pool, w)[0]
        e = dict(k='call', s=s, op=op, i=i, args=self.args(s, op, i), h=self.h)
        self.h += 1
        return e

    def script(self):
        cfg, r = self.cfg, self.r
        out = []
        dec = [x['name'] for x in cfg['roles']]
        par = {x['name']: x['parent'] for x in cfg['roles']}
        self.h = 0
        calls = 0
        while calls < self.len:
            out.append(dict(k='open'))
            role = 'default'
            handles = []
            left = r.randint(4, 18)
            intx = False
            if cfg['hasroles']:
                out.append(dict(k='cur'))
            while left > 0:
                left -= 1
                calls += 1
                x = r.random()
                if cfg['hasroles'] and (r.random() < self.roleevents or (role == 'default' and dec and x < .4)):
                    ups = []
                    p = par.get(role)
                    while p and p != 'all':
                        ups.append(p)
                        p = par.get(p)
                    good = dec + ['default', 'none'] if role == 'default' else \
                        ups * 3 + [role] + (['none'] if r.random() < .3 else [])
                    if r.random() < .12 or not good:
                        good = dec + ['default', 'none']
                    t = r.choice(good)
                    if t == 'none' and role == 'default' and r.random() < .7:
                        t = r.choice(dec or ['none'])
                    out.append(dict(k='role', to=t))
                    ok = role == 'default' or t == role or t == 'none' or t in ups
                    if not ok:
                        break
                    role = t
                    if r.random() < .4:
                        out.append(dict(k='cur'))
                    continue
                if self.tx and not intx and x > 1 - .08 * self.txevents:
                    out.append(dict(k='begin', mode=r.choice(('immediate', 'deferred',
                                                              'exclusive'))))
                    intx = True
                    continue
                if intx and x > .8:
                    out.append(dict(k=r.choice(('commit', 'rollback'))))
                    intx = False
                    continue
                if self.tx and .70 < x < (.80 if intx else .73):
                    out.append(dict(k=r.choice(('peek', 'writer'))))
                    continue
                e = self.call(role)
                if e is None:
                    if cfg['hasroles'] and role != 'none':
                        continue
                    break
                out.append(e)
                if e['op'] == 'query' and B.sof(cfg, e['s'])['queries'][e['i']]['kind'] != \
                        'count' and r.random() < self.exports:
                    handles.append(e['h'])
                    if r.random() < .8:
                        out.append(dict(k='export', h=e['h']))
                elif handles and r.random() < .08:
                    out.append(dict(k='export', h=r.choice(handles)))
            if intx and r.random() < .7:
                out.append(dict(k=r.choice(('commit', 'rollback'))))
            out.append(dict(k='close'))
        return out


def enumvals(e):
    """Values of enumeration items: those without one get the next above the largest assigned."""
    m = max([int(i['val'][0]) for i in e['items'] if i['val']] or [-1])
    nxt = max(m + 1, 0)
    out = []
    for i in e['items']:
        if i['val']:
            out.append(int(i['val'][0]))
        else:
            out.append(nxt)
            nxt += 1
    return out
