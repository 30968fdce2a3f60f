import os, random, shutil, sys
from collections import Counter
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vf, rt, cfggen, ortparse, backend as B, evolve as E, names as N, program as P, variants, oddnames

OPT = dict(maxfields=9, labels=.3, docs=.4, limits=.3, defaults=.3, uniques=.2)


def partition(rng):
    """Units: a subset of the options in one unit or several."""
    fl = [f for f in 'jJv' if rng.random() < .7]
    units = [[1, '']]
    for f in fl:
        u = rng.choice(units + [None])
        if u is None:
            u = [0, '']
            units.append(u)
        u[1] += f
    return [(b, f) for b, f in units]


class Doc:
    def __init__(self, key, texts, d, rng, programs, kinds, js=True):
        self.key, self.texts, self.d = key, texts, d
        os.makedirs(d, exist_ok=True)
        self.files = E.write_docs(d, 'a', texts)
        self.ok, self.err = E.accepted(self.files)
        self.traces = []
        if not self.ok:
            return
        self.cfg = E.form(ortparse.parse(*texts))
        ev, raw = P.schema(self.files, d)
        self.traces.append([ev])
        for k, (units, split, safe) in enumerate(programs):
            p = P.Program(self.files, os.path.join(d, 'p%d' % k), units, split, safe)
            self.traces.append(p.evs)
        self.mods = P.modules(self.files, d, kinds, js)


def judge(c, docs, cnt, key=lambda d, e: None):
    """Type check and call what the documents have; returns (states, distinct, traces)."""
    step = 1 + len(docs) // vf.JOBS
    parts = [docs[i:i + step] for i in range(0, len(docs), step)]

    def more(ds):
        evs = P.typecheck([m for d in ds for m in d.mods])
        for d in ds:
            n = len(d.mods)
            d.traces += [[e] for e in evs[:n]]
            evs = evs[n:]
        jobs = [(d, w, p) for d in ds for w, p, bad in d.mods if w in ('nodejs ', 'nodejs v') and not bad]
        said = [N.read_nodejs(r) for r in N.node([('nodejs', p) for d, w, p in jobs])]
        ok = [(j, s) for j, s in zip(jobs, said) if isinstance(s, dict)]
        for j, s in zip(jobs, said):
            if not isinstance(s, dict):
                j[0].traces.append([dict(k='understand', what='module', complaints=[s])])
        for ((d, w, p), s), e in zip(ok, P.calls([(p, s['functions'], d.d) for (d, w, p), s in ok])):
            d.traces.append([e])
    vf.pmap(more, parts)
    cfgs, traces, meta = [], [], []
    for d in docs:
        cfgs.append(d.cfg)
        for evs in d.traces:
            traces.append(dict(cfg=len(cfgs), evs=evs))
            meta.append((d, evs))
            for e in evs:
                cnt[e['k'] + (' ' + e['what'] if 'what' in e else '')] += 1
    v, st, di = rt.tlc_traces(cfgs, traces, 'OrtProgramTrace')
    for (d, evs), x in zip(meta, v):
        if x is not None:
            e = evs[min(x[0], len(evs) - 1)]
            c.violation(key(d, e) or '%s-%s%s' % (d.key, e['k'], e.get('what', '')),
                        '%s: %s' % (x[1], str(e.get('complaints') or e)[:500]),
                        dict(why=x[1], event=e, events=evs, ort=d.texts))
    return st, di, len(traces)


def small(c, cnt):
    """All of the small world of OrtProgramMC."""
    o, v = variants.explore('OrtProgramMC')
    rng = random.Random(vf.SEED)
    progs = [[(b, ''.join(sorted(f))) for b, f in p] for p in v['programs']]
    progs.sort(key=lambda p: (-sum(len(f) for b, f in p), len(p), p))
    ways = [(p, split, safe) for p in progs for split in (False, True) for safe in (False, True)]
    todo = []
    knots = [k for k, x in enumerate(v['configs']) if len(x['structs']) == 4]
    skip = set() if vf.THOROUGH else set(rng.sample(knots, len(knots) * 5 // 8))
    for k, cfg in enumerate(v['configs']):
        if k in skip:
            continue
        if k in knots:
            todo.append((k, cfg, [(progs[0], False, False)], [rng.choice(sorted(P.NODE))]))
            continue
        # all there is in one unit, and another
        todo.append((k, cfg, [(progs[0], False, False), rng.choice(ways)], ['', 'v', rng.choice(sorted(P.NODE))]))
    # all ways, on configurations that are not large
    rest = ways if vf.THOROUGH else rng.sample(ways, 40)
    for k, w in enumerate(rest):
        i = rng.choice([i for i, x in enumerate(v['configs']) if sum(len(s['queries']) for s in x['structs']) < 20])
        todo.append((i, v['configs'][i], [w], [sorted(P.NODE)[k % len(P.NODE)]]))

    def work(a):
        n, (k, cfg, programs, kinds) = a
        d = Doc('variant%d.%d' % (k, n), [variants.text(cfg)], os.path.join(vf.scratch(), 'v%d' % n), rng, programs, kinds)
        if not d.ok:
            raise vf.Fail('variant not accepted: %s\n%s' % (d.err, d.texts[0]))
        return d
    docs = vf.pmap(work, list(enumerate(todo)))
    vf.log('small world', len(docs))
    cnt['configurations of the small world'] = len(v['configs'])
    cnt['programs of the small world'] = len(todo) + len(v['configs'])
    return o, docs


def odd(c, cnt):
    """Names that mean something to one of the languages, with the findings there are."""
    rng = random.Random(vf.SEED + 21)
    known = oddnames.known(c.known)
    todo = []
    for place in oddnames.PLACES:
        ws = oddnames.taken(place)
        bad = {w for (p, b), x in known.items() if p == place for w in x}
        # in as many documents as there are back ends with findings, without those of the others
        good = [w for w in ws if w not in bad]
        rng.shuffle(good)
        step = 50 if place != 'struct' else 20
        for i in range(0, len(good), step):
            todo.append((place, None, good[i:i + step], 'cnj'))
        for b in 'c', 'nodejs', 'javascript':
            x = [w for w in ws if w in known.get((place, b), ())]
            for w in x if vf.THOROUGH else rng.sample(x, min(3, len(x))):
                todo.append((place, b, [w], b[0]))
            # what is known of one back end has to be fine with another
            y = [w for w in ws if w in bad and w not in known.get((place, b), ())]
            if y:
                todo.append((place, None, y, b[0]))
    todo.append(('clash', 'c', ['role'], 'c'))
    cnt['names of a meaning'] = sum(len(t[2]) for t in todo)

    def work(a):
        n, (place, b, ws, backs) = a
        d = Doc('names.%s.%s' % (place, '.'.join(ws)), [oddnames.PLACES[place](ws) if place in oddnames.PLACES else oddnames.CLASH],
                os.path.join(vf.scratch(), 'o%d' % n), rng,
                [([(1, 'Jjv')], False, True)] * ('c' in backs), ['v', 've'] * ('n' in backs), 'j' in backs)
        if not d.ok:
            raise vf.Fail('names not accepted: %s\n%s' % (d.err, d.texts[0]))
        d.place, d.back = place, b
        return d
    docs = vf.pmap(work, list(enumerate(todo)))
    out = judge(c, docs, cnt, lambda d, e: d.back and 'names.%s.%s' % (d.place, d.back))
    for d in docs:
        shutil.rmtree(d.d, ignore_errors=True)
    vf.log('names', len(todo), 'violations', len(c.viol))
    return out


def check():
    c = vf.Check('C21', 'model_checking')
    cnt, samples, n = Counter(), [], 0
    o, first = small(c, cnt)
    st, di, ntr = odd(c, cnt)
    states, dist = o.states + st, o.distinct + di
    c.cov['exhaustive'] = dict(states=o.distinct, transitions=o.states)
    while True:
        base = vf.SEED * 100000 + 210000 + n * 1009

        def work(k):
            rng = random.Random(base + k)
            cfg = cfggen.make(base + k, roles=rng.choice((0, .6)), maxstruct=rng.choice((1, 2, 4, 4)),
                              fullrefs=rng.random() < .5, varied=True, **OPT)
            programs = [(partition(rng), rng.random() < .5, rng.random() < .5) for _ in range(2)]
            kinds = ['', 'v'] + rng.sample([x for x in P.NODE if x not in ('', 'v')], 3)
            texts = [cfggen.render(cfg, rng)] if rng.random() < .6 else E.respell(cfg, rng, 2)
            return Doc('seed%d' % (base + k), texts, os.path.join(vf.scratch(), 'g%d' % (base + k)),
                       rng, programs, kinds)
        docs = vf.pmap(work, range(160 if vf.THOROUGH else 90))
        cnt['refused'] += sum(not d.ok for d in docs)
        docs = first + [d for d in docs if d.ok]
        first = []
        vf.log('built', len(docs))
        st, di, k = judge(c, docs, cnt)
        states, dist, ntr = states + st, dist + di, ntr + k
        samples = samples or [d.traces[1][:1] for d in docs[:2]]
        for d in docs:
            shutil.rmtree(d.d, ignore_errors=True)
        n += 1
        vf.log('batch', n, 'traces', ntr, 'violations', len(c.viol))
        if c.viol or not vf.THOROUGH or vf.time.time() - vf.T0 > 600:
            break
    c.cov.update(traces_validated_against_impl=ntr, states=dist, transitions=states,
                 by_kind=dict(sorted(cnt.items())), samples=samples)
    c.finish()


vf.main(check)
