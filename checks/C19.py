import json, os, random, shutil, sys
from collections import Counter
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vf, rt, cfggen, evolve as E, ortparse, backend as B, jsonimp as J, variants as V


class Doc:
    """The importers of one document, and what to give them: (kind, structure, ...)."""

    def __init__(self, d, text, make):
        self.d, self.text = d, text
        os.makedirs(d)
        o = os.path.join(d, 'a.ort')
        open(o, 'w', encoding='utf-8').write(text)
        self.ok = E.accepted([o])[0]
        if not self.ok:
            return
        cfg = ortparse.parse(text)
        self.cfg = J.form(E.form(cfg) if 'num' not in json.dumps(cfg['enums']) else cfg)
        self.seen, self.log = [], []
        self.tasks = make(self.cfg)
        try:
            B.gen_c(o, d)
            open(os.path.join(d, 'i.c'), 'w').write(J.program(self.cfg))
            B.cc(d, 'i.c', 'i')
        except B.GenFailure as x:
            return self.event(dict(k='broken', why=str(x)[:1500]), '')
        self.run()

    def event(self, ev, raw):
        self.seen.append(ev)
        self.log.append(raw)

    def line(self, t):
        k, i = t[:2]
        if k == 'I':
            return 'I %d %d %s' % (i, t[3], t[2].hex())
        if k == 'X':
            return 'X %d %s' % (i, ' '.join(t[2][0]))
        return '%s %d %s' % (k, i, t[2].hex())

    def run(self):
        todo, fails = list(self.tasks), 0
        while todo and fails < 8:
            rc, out, err = vf.run([os.path.join(self.d, 'i')], inp='\n'.join(map(self.line, todo)) + '\n', timeout=120,
                                  env=B.SANENV)
            got = [json.loads(x) for x in out.split('\n')[:-1] if x.endswith('}')]
            n = self.take(todo, got)
            if n == len(todo) and rc == 0:
                break
            # the one that comes next ended the program
            fails += 1
            t = todo[n] if n < len(todo) else todo[-1]
            self.event(dict(k='broken', why='exit status %s' % rc), (t[0], t[2], (out[-300:] + err)[:1800]))
            todo = todo[n + 1:]

    def take(self, todo, got):
        g = iter(got)
        for n, t in enumerate(todo):
            st = self.cfg['structs'][t[1]]
            try:
                r = next(g)
                if 'bad' in r:
                    return n
                if t[0] == 'X':
                    r2 = next(g)
            except StopIteration:
                return n
            if t[0] == 'M':
                continue
            if t[0] == 'X':
                b = bytes.fromhex(r['json'])
                try:
                    J.lex(b)
                except J.Bad as x:
                    self.event(dict(k='broken', why='JSON written: %s' % x), b)
                    continue
                if r2.get('rc', 0) <= 0:
                    self.event(dict(k='trip', s=st['name'], o=t[2][1], n=r2.get('rc', -9), o2=['none']), (b, r2))
                else:
                    self.event(dict(k='trip', s=st['name'], o=t[2][1], n=r2['rc'], o2=J.shown(self.cfg, st, r2['o'])), (b, r2))
                continue
            j = J.lex(t[2])
            if t[0] == 'I' and t[3]:
                j = j[1][0]
            if 'tok' in r or r['rc'] < 0:
                self.event(dict(k='broken', why='no parse: %s' % r), t[2])
            elif r['rc'] == 0:
                self.event(dict(k='refuse' if t[0] == 'I' else 'refuseall', s=st['name'], j=j), t[2])
            elif t[0] == 'I':
                self.event(dict(k='import', s=st['name'], j=j, n=r['rc'], o=J.shown(self.cfg, st, r['o'])), (t[2], r))
            else:
                self.event(dict(k='importall', s=st['name'], j=j, n=r['rc'],
                                o=[J.shown(self.cfg, st, x) for x in r['o']]), (t[2], r))
        return len(todo)


def tasks(rng, n):
    def make(cfg):
        g = J.Gen(cfg, rng, rng.choice((0, .03, .12, .3)))
        out = []
        for i, st in enumerate(cfg['structs']):
            for k in range(n):
                x = rng.random()
                v = g.obj(st)
                if x < .5:
                    out.append(('I', i, J.render(v, rng), 0))
                elif x < .58:
                    w = ['arr', [v] + [g.other() for m in range(rng.randrange(3))]]
                    out.append(('I', i, J.render(w, rng), 1))
                elif x < .6:
                    out.append(('I', i, J.render(g.other(), rng), 0))
                elif x < .75:
                    w = ['arr', [g.obj(st) for m in range(rng.randrange(4))] + ([g.other()] if rng.random() < g.wrong else [])]
                    out.append(('A', i, J.render(w if rng.random() < .95 else v, rng)))
                elif x < .9:
                    out.append(('X', i, g.object(st)))
                else:
                    out.append(('M', i, J.mangle(rng, J.render(v, rng)) if rng.random() < .9 else rng.choice(J.MANGLE).encode()))
        return out
    return make


def judge(c, docs, cnt, key):
    cfgs, traces, meta = [], [], []
    for d in docs:
        cfgs.append(d.cfg)
        cnt['documents'] += 1
        cnt['malformed'] += sum(t[0] == 'M' for t in d.tasks)
        for e in d.seen:
            cnt[e['k']] += 1
        for i in range(0, len(d.seen), 40):
            traces.append(dict(cfg=len(cfgs), evs=d.seen[i:i + 40]))
            meta.append((d, i))
    v, st, di = rt.tlc_traces(cfgs, traces, 'OrtImportTrace')
    for (d, i), x in zip(meta, v):
        if x is not None:
            l, why = x
            n = min(i + l, len(d.seen) - 1)
            ev, raw = d.seen[n], d.log[n]
            what = '%s %s: %s: %s' % (ev['k'], ev.get('s', ''), why, str(raw)[:700])
            if ev['k'] == 'broken':
                what += ' ' + ev['why']
            c.violation('%s-%s-%d' % (key(d), ev['k'], n), what, dict(why=why, event=ev, raw=str(raw), ort=d.text))
    for d in docs:
        shutil.rmtree(d.d, ignore_errors=True)
    return st, di, len(traces)


def small(c, cnt):
    """All of OrtImportMC."""
    o, m = V.explore('OrtImportMC')

    def work(i):
        def make(cfg):
            out = [('I', 0, J.render(v), 0) for v in m['docs'][i]]
            if len(cfg['structs']) > 1:
                out += [('A', 0, J.render(v)) for v in m['arrays']]
            return out
        text = V.text(m['configs'][i])
        d = Doc(os.path.join(vf.scratch(), 'm%d' % i), text, make)
        if not d.ok:
            raise vf.Fail('not accepted: ' + text)
        d.seed = i
        return d
    r = judge(c, vf.pmap(work, range(len(m['configs']))), cnt, lambda d: 'small%d' % d.seed)
    vf.log('small world:', r)
    return o, r


def rand(seed, d):
    rng = random.Random(seed)
    cfg = cfggen.make(seed, roles=0, maxstruct=rng.choice((1, 2, 3, 4)), maxfields=rng.choice((4, 9)), limits=.1, maxq=1, maxupd=1,
                      maxdel=1, uniques=0, insert=.3)
    x = Doc(d, cfggen.render(cfg, rng), tasks(rng, 30 if vf.THOROUGH else 24))
    x.seed = seed
    return x


def check():
    c = vf.Check('C19', 'model_checking')
    cnt, n = Counter(), 0
    o, (states, dist, ntr) = small(c, cnt)
    while True:
        base = vf.SEED * 100000 + 190000 + n * 1009
        docs = vf.pmap(lambda k: rand(base + k, os.path.join(vf.scratch(), 'n%d' % k)), range(300 if vf.THOROUGH else 100))
        cnt['refused'] += sum(not d.ok for d in docs)
        a, b, t = judge(c, [d for d in docs if d.ok], cnt, lambda d: 'seed%d' % d.seed)
        states, dist, ntr, n = states + a, dist + b, ntr + t, n + 1
        vf.log('batch', n, 'traces', ntr, 'violations', len(c.viol))
        if c.viol or not vf.THOROUGH or vf.time.time() - vf.T0 > 600:
            break
    c.cov.update(traces_validated_against_impl=ntr, states=dist + o.distinct, transitions=states + o.states, by_kind=dict(sorted(cnt.items())),
                 samples=[dict(seed=vf.SEED, documents=n)],
                 exhaustive='OrtImportMC: %d states; all of its documents given to generated importers' % o.distinct)
    c.finish()


vf.main(check)
