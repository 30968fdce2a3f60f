"""The configurations of the small worlds around OrtRuntime (OrtRolesMC, OrtTypesMC, OrtTransMC),
and scripts that do with generated code whatever the world has."""
import os, random, shutil
import vf, backend as B, variants
from scripts import permitted


class Sessions:
    """Scripts made of sessions: a session opens a connection and takes a role."""

    def __init__(self, cfg, size):
        self.cfg, self.size, self.scripts, self.h = cfg, size, [], 0
        self.first = []

    def script(self):
        """Begin another script, with what all begin with."""
        self.scripts.append(list(self.first))

    def session(self, role, evs):
        if not self.scripts or len(self.scripts[-1]) > self.size:
            self.script()
        s = self.scripts[-1]
        s.append(dict(k='open'))
        if role != 'default':
            s.append(dict(k='role', to=role))
        s += evs
        s.append(dict(k='close'))

    def call(self, s, op, i, args):
        self.h = self.h % 250 + 1
        return dict(k='call', s=s, op=op, i=i, args=args, h=self.h)


def kindname(st, op, i):
    if op == 'insert':
        return op, ''
    x = st[{'query': 'queries', 'update': 'updates', 'delete': 'deletes'}[op]][i]
    return (x['kind'] if op == 'query' else op), x['name']


def ones(cfg, st, op, i, n=1):
    return [n for p in B.op_params(cfg, st, op, i)]


def calls(cfg, m, n):
    """Every call by every role, first the refused ones."""
    out = []
    who = ['none', 'default'] + [r['name'] for r in cfg['roles']]
    for st in cfg['structs']:
        if st['name'].startswith(('seen', 'hidden', 'whole')):
            continue
        ss = Sessions(cfg, 90)
        ops = [x for x in B.ops_of(cfg) if x[0] == st['name']]
        may = {(r, x): permitted(cfg, st, *kindname(st, *x[1:]), r) for r in who for x in ops}
        ins = (st['name'], 'insert', 0)
        one = [r for r in who if may[r, ins]]
        ss.session((one + who)[0], [ss.call(*ins, ones(cfg, st, 'insert', 0, n)) for n in (5, 7) if one])
        ss.first = ss.scripts[0][:]
        for r in who:
            for x in ops:
                if not may[r, x]:
                    ss.session(r, [ss.call(*x, ones(cfg, st, *x[1:]))])
        for r in who:
            # only the last role may delete what others need
            xs = [x for x in ops if may[r, x]]
            if xs:
                ss.session(r, [ss.call(*x, ones(cfg, st, *x[1:], 1 if x[1] != 'delete' or r == who[-1] else 2))
                               for x in xs])
        out += ss.scripts
    return out


def moves(cfg, m, n):
    """Every change of role from every role, and every one after it."""
    ss = Sessions(cfg, 150)
    who = [r['name'] for r in cfg['roles']] + ['default', 'none']
    cur = dict(k='cur')
    for a in who:
        for b in who:
            for x in who:
                ss.session(a, [cur, dict(k='role', to=b), cur, dict(k='role', to=x), cur])
    return ss.scripts


def exports(cfg, m, n):
    """Whatever a role gets, exported as this role and after every change of role."""
    who = ['default'] + [r['name'] for r in cfg['roles']]
    up = {r['name']: r['parent'] for r in cfg['roles']}
    ss = Sessions(cfg, 200)
    sts = [s for s in cfg['structs'] if s['name'].startswith(('seen', 'hidden', 'whole'))]
    ins = [ss.call(s['name'], 'insert', 0, [
        1 if f['ref'] else 10 * k + i for i, f in enumerate(B.insert_fields(s))]) for k, s in enumerate(sts)]
    last = sts[-1]
    ins.append(ss.call(last['name'], 'insert', 0, [None if f['null'] else 1 for f in B.insert_fields(last)]))
    ss.session('default', ins)
    ss.first = ss.scripts[0][:]
    for r in who:
        for s in sts:
            qs = [ss.call(s['name'], 'query', i, ones(cfg, s, 'query', i)) for i in range(len(s['queries']))]
            evs = qs + [dict(k='export', h=q['h']) for q in qs]
            p = up.get(r)
            while p and p != 'all':
                evs += [dict(k='role', to=p), dict(k='export', h=qs[0]['h'])]
                p = up.get(p)
            ss.session(r, evs + [dict(k='role', to='none')] + [dict(k='export', h=q['h']) for q in qs])
    return ss.scripts


def pyval(v):
    return variants.number(v) if v[0] == 'i' else v[1] / 64 if v[0] == 'r' else \
        ''.join(map(chr, v[1])) if v[0] == 't' else bytes(v[1])


class Table(Sessions):
    """Rows with all values, in main and in what it refers to."""

    def __init__(self, cfg, m, n, size=150, twice=(0, 1), o=lambda i: i % 3):
        Sessions.__init__(self, cfg, size)
        self.main = B.sof(cfg, 'main')
        self.f = B.fof(self.main, 'f')
        self.vals = [pyval(v) for v in m['values'][n]]
        self.args = self.vals + ([None] if self.f['null'] else [])
        rows = [self.call('sub', 'insert', 0, [v]) for v in self.args]
        k = len(self.args)
        rows += [self.call('main', 'insert', 0, [v, o(i), (i * 2 + 1 + j) % k + 1])
                 for i, v in enumerate(self.args) for j in twice]
        self.nrows = len(twice) * k
        for i, u in enumerate(self.main['updates']):
            if u['mods'] == [['f', 'strset']] and not u['name'] and self.f['type'] == 'password':
                rows.append(self.call('main', 'update', i, [self.vals[0], self.nrows]))
        self.first = [dict(k='open')] + rows + [dict(k='close')]

    def params(self, op, i):
        """All values of the parameters; those of other fields in turn."""
        ps = B.op_params(self.cfg, self.main, op, i)
        out = [[]]
        for j, (f, ptr) in enumerate(ps):
            vs = (self.args if ptr else self.vals) if f['name'] == 'f' else [0, 1] if f['name'] == 'o' else [1, 4]
            out = [a + [v] for a in out for v in vs]
        return out


def queries(cfg, m, n):
    """All queries with all values."""
    t = Table(cfg, m, n)
    for i, q in enumerate(t.main['queries']):
        t.session('default', [t.call('main', 'query', i, a) for a in t.params('query', i)])
    return t.scripts


def overflows(typ, mod, old, arg):
    if typ in ('real', 'text', 'blob', 'email', 'password') or None in (old, arg) or mod not in ('inc', 'dec'):
        return False
    return not -(1 << 63) <= (old + arg if mod == 'inc' else old - arg) < 1 << 63


def changes(cfg, m, n):
    """All modifications of all values by all values; updates and deletes constrained by all values."""
    t = Table(cfg, m, n, twice=(0,), o=lambda i: i)
    begin, back = dict(k='begin', mode='immediate'), dict(k='rollback')
    for i, u in enumerate(t.main['updates']):
        mod = u['mods'][0][1]
        evs = []
        if u['mods'][0][0] == 'f':
            for r, v in enumerate(t.args):
                for w in t.args:
                    if overflows(t.f['type'], mod, v, w):
                        continue
                    # those named constrain by o and what it must not be: itself, and another
                    for x in [[r + 1]] if not u['name'] else [
                            [5, r, y] for y in ([v] if v is not None else []) + [y for y in t.vals if y != v][:1]]:
                        evs += [begin, t.call('main', 'update', i, [w] + x), back]
        else:
            for a in t.params('update', i):
                evs += [begin, t.call('main', 'update', i, a), back]
        for k in range(0, len(evs), 150):
            t.session('default', evs[k:k + 150])
    for i, u in enumerate(t.main['deletes']):
        t.session('default', [e for a in t.params('delete', i) for e in (begin, t.call('main', 'delete', i, a), back)])
    return t.scripts


def histories(cfg, m, n, share=None):
    """Short histories of transactions, each beginning with one owner and what it owns; somebody else
    looks, and asks to write, after every step."""
    hs = m['histories'][n]
    if share and share < len(hs):
        hs = random.Random(vf.SEED * 2 + n).sample(hs, share)
    ss = Sessions(cfg, 150)
    others = [dict(k='peek'), dict(k='writer')]
    for h in hs:
        evs = [ss.call('owner', 'delete', 1, [0]), ss.call('owner', 'insert', 0, [1])]
        for x in h:
            if x in ('immediate', 'deferred', 'exclusive'):
                evs.append(dict(k='begin', mode=x))
            elif x in ('commit', 'rollback'):
                evs.append(dict(k=x))
            elif x == 'ra':
                evs.append(dict(k='role', to='ra'))
            elif x == 'bump':
                evs.append(ss.call('owner', 'update', 0, [1, 1]))
            elif x == 'drop':
                evs.append(ss.call('owner', 'delete', 0, [1]))
            elif x != 'shut':
                evs.append(ss.call('owner', 'insert', 0, [2 if x == 'two' else 1]) if x != 'part' else
                           ss.call('owned', 'insert', 0, [1]))
            if x != 'shut':
                evs += others
        ss.session('default', evs)
        ss.scripts[-1] += others
    return ss.scripts


def run(camp, module, make, pick=None, **env):
    """Explore a world, run the scripts made for its configurations, judge, and note what was seen.
    pick: how many configurations (chosen by seed) to run."""
    o, m = variants.explore(module, **env)
    vf.log(module, o.states, o.distinct, len(m['configs']))
    ix = list(range(len(m['configs'])))
    if callable(pick):
        ix = [n for n in ix if pick(m, n)]
    elif pick and pick < len(ix):
        ix = sorted(random.Random(vf.SEED).sample(ix, pick))
    D = os.path.join(vf.scratch(), 'world')
    os.makedirs(D)
    jobs = []
    for n in ix:
        cfg = m['configs'][n]
        for lang in ('c', 'node'):
            d = os.path.join(D, '%s%d' % (lang, n))
            os.makedirs(d)
            f = os.path.join(d, 'a.ort')
            open(f, 'w', encoding='utf-8').write(variants.text(cfg))
            jobs.append(dict(cfg=cfg, ort=f, d=d, scripts=make(cfg, m, n), lang=lang,
                             seed=0, name='%s%d' % (module, n)))
    camp.execute(D, jobs, san=False)
    shutil.rmtree(D, ignore_errors=True)
    for j in jobs:
        if isinstance(j['res'], B.GenFailure):
            camp.c.violation('%s-%s-unusable' % (j['lang'], j['name']), 'no usable code is generated: %s' %
                             ' '.join(map(str, j['res'].args))[:500], dict(ort=variants.text(j['cfg'])))
    w = dict(module=module, model_states=o.distinct, model_transitions=o.states, configurations=len(ix),
             scripts=sum(len(j['scripts']) for j in jobs), events=sum(len(s) for j in jobs for s in j['scripts']))
    vf.log('world', w)
    camp.worlds.append(w)
    return camp
