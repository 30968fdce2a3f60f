import os, random, re, shutil, sys
from collections import Counter
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vf, rt, cfggen, evolve as E, ortparse, variants as V

OPT = dict(roles=.5, maxstruct=4, maxfields=5, fullrefs=True, uniques=.4, docs=.3, limits=.3,
           defaults=.4, maxq=3, maxupd=2, maxdel=2, labels=.4, safetext=True)


def family(seed, d):
    """One configuration, ways to write it, and configurations some edits away from it."""
    rng = random.Random(seed)
    base = E.tame(cfggen.make(seed, **dict(OPT, maxstruct=rng.choice((1, 2, 4)))))
    cfgs, files, how = [base], [], []
    ok = None
    f = E.write_docs(d, 'base', [cfggen.render(base, rng)])
    ok, err = E.accepted(f)
    if not ok:
        return None
    files.append(f)
    ed = E.Editor(rng)
    edits = []
    for k in range(6):
        for _ in range(8):
            c, did = ed.edit(rng.choice(cfgs) if rng.random() < .3 else base,
                             rng.choice((1, 1, 1, 2, 4)))
            f = E.write_docs(d, 'v%d.' % k, E.respell(c, rng, rng.choice((1, 1, 3))))
            ok, err = E.accepted(f)
            if ok:
                # the order of uniques in the text names them in the report
                c = ortparse.parse(*[open(x, encoding='utf-8', newline='').read() for x in f])
                cfgs.append(c)
                files.append(f)
                edits.append(did)
                break
    evs = []
    raws = []

    def comp(a, b, fa, fb):
        rc, es, out = E.compare(fa, fb, rng.choice(
            ['old'] * (len(fa) == 1) + ['new'] * (len(fb) == 1) + [''] * 4))
        raws.append(dict(old=[open(x).read() for x in fa], new=[open(x).read() for x in fb],
                         status=rc, out=out))
        evs.append((a, dict(k='compare', to=b, status=rc if isinstance(rc, int) else 99,
                            entries=es if isinstance(es, list) else [['?', es, '', '', '']])))
    # the same written differently; edited; edited and back
    for k in range(2):
        f = E.write_docs(d, 'same%d.' % k, E.respell(base, rng, rng.choice((1, 2, 4))))
        comp(0, 0, files[0], f)
        comp(0, 0, f, files[0])
    for k in range(1, len(cfgs)):
        comp(0, k, files[0], files[k])
        comp(k, 0, files[k], files[0])
    if len(cfgs) > 2:
        comp(1, 2, files[1], files[2])
    return base, cfgs, evs, raws, edits


def neighbours(c, cnt, module, share):
    """Pairs of the variants for which the specification's laws of difference are checked."""
    o, cfgs = V.explore(module)
    d = os.path.join(vf.scratch(), module)
    os.makedirs(d)
    v = V.Variants(cfgs, d)
    rng = random.Random(vf.SEED)
    n = len(cfgs)
    pairs = [(a, b) for a in range(n) for b in range(n)]
    if not vf.THOROUGH:
        pairs = rng.sample(pairs, share)
    states, dist = o.states, o.distinct
    for i in range(0, len(pairs), 3000):
        part = vf.pmap(lambda p: v.compare(*p), pairs[i:i + 3000])
        verdict, st, di = rt.tlc_traces(cfgs, [t for t, r in part], 'OrtEvolveTrace')
        states, dist = states + st, dist + di
        for (t, raw), x in zip(part, verdict):
            e = t['evs'][0]
            cnt['%s status %s' % (module, e['status'])] += 1
            if x is not None:
                c.violation('%s-%d-to-%d' % (module, t['cfg'], e['to']), '%s: exit %s, %s' % (
                    x[1], raw['status'], raw['out'][:300].replace('\n', ' | ')),
                    dict(raw, entries=e['entries'], why=x[1]))
    shutil.rmtree(d)
    vf.log(module, 'pairs', len(pairs), 'states', states, 'violations', len(c.viol))
    return states, dist, len(pairs)


def check():
    c = vf.Check('C10', 'model_checking')
    cnt, samples = Counter(), []
    states, dist, ntr = [sum(x) for x in zip(neighbours(c, cnt, 'OrtDiffMC', 2500),
                                             neighbours(c, cnt, 'OrtEvolveMC', 1000))]
    n = 0
    while True:
        base = vf.SEED * 100000 + 100000 + n * 1009

        def one(k):
            d = os.path.join(vf.scratch(), 'c%d' % k)
            os.makedirs(d)
            r = family(base + k, d)
            shutil.rmtree(d)
            return base + k, r
        res = vf.pmap(one, range(90 if not vf.THOROUGH else 300))
        cfgs, traces, meta = [], [], []
        for seed, r in res:
            if r is None:
                cnt['refused'] += 1
                continue
            b, cs, evs, raws, edits = r
            first = len(cfgs) + 1
            cfgs += [E.form(x) for x in cs]
            for x in edits:
                for y in x:
                    cnt['edit ' + y] += 1
            for i, (a, e) in enumerate(evs):
                e = dict(e, to=first + e['to'])
                cnt['status %s' % e['status']] += 1
                for x in e['entries']:
                    cnt['entry %s %s %s' % tuple(x[:3])] += 1
                traces.append(dict(cfg=first + a, evs=[e]))
                meta.append((seed, i, raws[i], e, edits))
        v, st, di = rt.tlc_traces(cfgs, traces, 'OrtEvolveTrace')
        states, dist, ntr = states + st, dist + di, ntr + len(traces)
        if not samples:
            samples = [dict(m[2], entries=m[3]['entries'][:8]) for m in meta[4:6]]
        for (seed, i, raw, e, edits), x in zip(meta, v):
            if x is not None:
                c.violation('seed%d-pair%d' % (seed, i), '%s: exit %s, %s' % (
                    x[1], raw['status'], raw['out'][:300].replace('\n', ' | ')),
                    dict(raw, entries=e['entries'], why=x[1], edits=edits))
        n += 1
        vf.log('batch', n, 'pairs', ntr, 'states', states, 'violations', len(c.viol))
        if c.viol or not vf.THOROUGH or vf.time.time() - vf.T0 > 600:
            break
    c.cov.update(configurations=ntr, traces_validated_against_impl=ntr, states=dist,
                 transitions=states, by_kind=dict(sorted(cnt.items())), samples=samples)
    c.finish()


vf.main(check)
