import os, random, shutil, sys
from collections import Counter
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vf, rt, cfggen, ortparse, evolve as E, names as N, textual as T

OPT = dict(roles=.5, maxstruct=4, maxfields=7, fullrefs=True, uniques=.2, docs=.2, limits=.1,
           defaults=.3, maxq=4, maxupd=3, maxdel=2, labels=.1)


class Doc:
    def __init__(self, seed, d):
        self.rng, self.seed, self.d = random.Random(seed), seed, d
        os.makedirs(d)
        cfg = cfggen.make(seed, **dict(OPT, maxstruct=self.rng.choice((1, 2, 4))))
        self.text = cfggen.render(cfg, self.rng)
        self.o = os.path.join(d, 'a.ort')
        open(self.o, 'w', encoding='utf-8').write(self.text)
        self.evs, self.raws, self.more = [], [], []
        self.ok = E.accepted([self.o])[0]
        if not self.ok:
            return
        self.cfg = E.form(ortparse.parse(self.text))
        self.flags = ''.join(f for f in 'jJsv' if self.rng.random() < .5)
        for t in ('c', 'nodejs', 'javascript', 'rust'):
            cmd = [vf.tool('ort-c-header'), '-' + self.flags] if t == 'c' and self.flags else \
                [vf.tool('ort-c-header')] if t == 'c' else \
                [vf.tool('ort-javascript'), '-S', vf.build()] if t == 'javascript' else \
                [vf.tool('ort-' + t)]
            rc, out, err = vf.run(cmd + [self.o])
            p = os.path.join(d, 'o.h' if t == 'c' else 'o.' + t)
            open(p, 'w', encoding='utf-8').write(out)
            if rc != 0:
                self.add(t, 'exit status %s: %s' % (rc, err[:500]), '')
            elif t == 'c':
                self.add(t, N.read_c(out, p, d, self.flags), out)
            elif t == 'rust':
                try:
                    self.add(t, N.read_rust(out), out)
                except ValueError as x:
                    self.add(t, str(x), out)
            else:
                self.more.append((t, p))
        for t in ('ort', 'ort-json'):
            rc, out, err = T.ort([self.o], t)
            try:
                if t == 'ort-json':
                    j = T.read_json(out, [self.o])
                    c = E.form(j[0]) if not isinstance(j, str) else None
                else:
                    c = T.form(out)
            except (ortparse.Bad, IndexError, ValueError, TypeError):
                c = None
            self.evs.append(dict(k='restate', to=c) if c is not None and rc == 0 else
                            dict(k='unread', tool=t))
            self.raws.append(out)

    def add(self, t, ev, out):
        self.evs.append(ev if isinstance(ev, dict) else dict(k='unread', tool=t, why=ev))
        self.raws.append(out)


def check():
    c = vf.Check('C13', 'model_checking')
    cnt, states, dist, ntr, samples, n = Counter(), 0, 0, 0, [], 0
    while True:
        base = vf.SEED * 100000 + 130000 + n * 1009
        docs = vf.pmap(lambda k: Doc(base + k, os.path.join(vf.scratch(), 'n%d' % k)),
                       range(800 if vf.THOROUGH else 400))
        jobs = [(d, t, p) for d in docs if d.ok for t, p in d.more]
        step = 1 + len(jobs) // vf.JOBS
        parts = vf.pmap(lambda i: N.node([(t, p) for d, t, p in jobs[i:i + step]]),
                        range(0, len(jobs), step))
        for (d, t, p), r in zip(jobs, [x for y in parts for x in y]):
            d.add(t, getattr(N, 'read_' + t)(r), open(p, encoding='utf-8').read())
        cnt['refused'] += sum(not d.ok for d in docs)
        docs = [d for d in docs if d.ok]
        cfgs, traces, meta = [], [], []
        for d in docs:
            cfgs.append(d.cfg)
            first = len(cfgs)
            for ev, raw in zip(d.evs, d.raws):
                cnt[ev.get('lang', ev.get('tool', ev['k']))] += 1
                if ev['k'] == 'restate':
                    cfgs.append(ev['to'])
                    ev = dict(k='restate', to=len(cfgs))
                else:
                    for x in ev.get('functions', ()):
                        cnt['function ' + x[2].split()[0]] += 1
                traces.append(dict(cfg=first, evs=[ev]))
                meta.append((d, ev, raw))
        v, st, di = rt.tlc_traces(cfgs, traces, 'OrtNamesTrace')
        for (d, ev, raw), x in zip(meta, v):
            if x is not None:
                w = ev.get('lang', ev.get('tool', ev['k']))
                c.violation('seed%d-%s' % (d.seed, w), '%s: %s' % (x[1], ev.get('why', w)),
                            dict(why=ev.get('why', x[1]), ort=d.text, event=ev, cfg=d.cfg, out=raw))
        states, dist, ntr = states + st, dist + di, ntr + len(traces)
        if not samples:
            samples = [d.evs[-1] for d in docs[:2]]
        for d in docs:
            shutil.rmtree(d.d, ignore_errors=True)
        n += 1
        vf.log('batch', n, 'traces', ntr, 'violations', len(c.viol))
        if c.viol or not vf.THOROUGH or vf.time.time() - vf.T0 > 600:
            break
    c.cov.update(traces_validated_against_impl=ntr, states=dist, transitions=states,
                 by_kind=dict(sorted(cnt.items())), samples=samples)
    c.finish()


vf.main(check)
