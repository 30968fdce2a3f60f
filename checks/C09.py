import os, random, shutil, sqlite3, sys
from collections import Counter
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vf, rt, evolve as E, backend as B, variants as V

OPT = dict(roles=0, maxstruct=4, maxfields=5, fullrefs=True, uniques=.5, docs=.1, limits=.1,
           defaults=.5, maxq=1, maxupd=0, maxdel=0, labels=.1, safetext=True)


def reordered(c, cnt):
    """Uniques are the same whatever the order of their fields, also when they go."""
    d = os.path.join(vf.scratch(), 'reordered')
    os.makedirs(d)
    head = 'struct foo { field aa int; field bb int; '
    fs = [E.write_docs(d, 'v%d' % i, [head + t + '};'])
          for i, t in enumerate(('unique aa, bb; ', 'unique bb, aa; ', ''))]
    db = os.path.join(d, 'a.db')
    B.newdb(fs[0][0], db)
    for i in (0, 1):
        rc, sql, err = E.sqldiff(fs[i], fs[i + 1], 0)
        how, why = E.apply_sql(db, sql)
        cnt['reordered ' + how] += 1
        if rc != 0 or how != 'ok' or (i == 0 and E.statements(sql)):
            c.violation('unique-reordered-then-dropped', 'step %d: exit %s, %s %s' % (
                i + 1, rc, how, why), dict(sql=sql, err=err))
            return
    if E.catalogue(db)['foo']['uniq']:
        c.violation('unique-reordered-then-dropped', 'the index is still there', dict(sql=sql))


def neighbours(c, cnt):
    """Migrations between the variants that the specification explores."""
    o, cfgs = V.explore()
    d = os.path.join(vf.scratch(), 'variants')
    os.makedirs(d)
    v = V.Variants(cfgs, d)
    rng = random.Random(vf.SEED)
    n = len(cfgs)

    def one(a):
        # every other variant once, with and without removals, in some content
        tos = [(b, k, rng.choice(V.CONTENTS)) for b in range(n) for k in (0, 1)]
        if not vf.THOROUGH:
            tos = rng.sample(tos, 14) + [(b, k, rng.choice(V.CONTENTS)) for b in range(n)
                                         for k in (0, 1) if near(cfgs[a], cfgs[b])]
        return v.migrations(a, tos)
    res = [x for r in vf.pmap(one, range(n)) for x in r]
    shutil.rmtree(d)
    states = o.states
    dist = o.distinct
    for i in range(0, len(res), 3000):
        part = res[i:i + 3000]
        verdict, st, di = rt.tlc_traces(cfgs, [t for t, r in part], 'OrtEvolveTrace')
        states, dist = states + st, dist + di
        for (t, raw), x in zip(part, verdict):
            for e in t['evs'][2:]:
                cnt['variants %s %s' % (e['k'], e.get('done', e['status']))] += 1
            if x is not None:
                l = min(x[0], len(raw) - 1)
                e = t['evs'][l]
                c.violation('variants-%d-to-%d' % (t['cfg'], e.get('to', 0)), '%s: %s' % (
                    x[1], {a: b for a, b in e.items() if a not in ('cat', 'rows')}),
                    dict(why=x[1], raw=raw[l], event=e, before=t['evs'][1]))
    return states, dist, len(res)


def near(a, b):
    """Does only the varying field of the main structure differ, and not in type?"""
    m = [[s for s in x['structs'] if s['name'] == 'main'] for x in (a, b)]
    if not m[0] or not m[1]:
        return True
    m = [x[0] for x in m]
    if len(m[0]['fields']) != len(m[1]['fields']):
        return m[0]['uniques'] == m[1]['uniques']
    f, g = [x['fields'][-1] for x in m]
    return sum(f[k] != g[k] for k in f) + (m[0]['uniques'] != m[1]['uniques']) < 2


def check():
    c = vf.Check('C09', 'model_checking')
    cnt, ntr, samples = Counter(), 0, []
    reordered(c, cnt)
    states, dist, ntr = neighbours(c, cnt)
    vf.log('variants: traces', ntr, 'states', states, 'violations', len(c.viol))
    n = 0
    while True:
        base = vf.SEED * 100000 + 90000 + n * 1009

        def one(k):
            d = os.path.join(vf.scratch(), 'c%d' % k)
            os.makedirs(d)
            rng = random.Random(base + k)
            ch = E.Chain(base + k, d, gentle=rng.choice((.95, .8, .3)), steps=rng.choice((3, 5, 8)),
                         opt=dict(OPT, maxstruct=rng.choice((1, 2, 4))))
            try:
                ok = ch.run()
            except (B.GenFailure, sqlite3.Error) as x:
                ok = x
            shutil.rmtree(d)
            return base + k, ch, ok
        res = vf.pmap(one, range(240 if not vf.THOROUGH else 600))
        cfgs, traces, meta = [], [], []
        for seed, ch, ok in res:
            if ok is False:
                cnt['refused'] += 1
                continue
            if ok is not True:
                c.violation('seed%d' % seed, 'unusable database: %r' % ok,
                            dict(why=repr(ok), last=ch.raw[-1] if ch.raw else ''))
                continue
            first = len(cfgs) + 1
            cfgs += [E.form(x) for x in ch.cfgs]
            evs = []
            for e in ch.evs:
                cnt['%s %s' % (e['k'], e.get('done', e.get('status', '')))] += 1
                evs.append(dict(e, to=first + e['to']) if 'to' in e else e)
            for did in ch.did:
                for x in did:
                    cnt['edit ' + x] += 1
            traces.append(dict(cfg=first, evs=evs))
            meta.append((seed, ch))
        v, st, di = rt.tlc_traces(cfgs, traces, 'OrtEvolveTrace')
        states, dist, ntr = states + st, dist + di, ntr + len(traces)
        if not samples:
            samples = [[r for r in m[1].raw if r][:1] for m in meta[:2]]
        for (seed, ch), x in zip(meta, v):
            if x is not None:
                l = min(x[0], len(ch.evs) - 1)
                e = ch.evs[l]
                c.violation('seed%d-event%d' % (seed, l + 1), '%s: %s' % (
                    x[1], {a: b for a, b in e.items() if a not in ('cat', 'rows')}),
                    dict(why=x[1], raw=ch.raw[l], event=e, before=ch.evs[l - 1], edits=ch.did))
        n += 1
        vf.log('batch', n, 'chains', ntr, 'states', states, 'violations', len(c.viol))
        if c.viol or not vf.THOROUGH or vf.time.time() - vf.T0 > 600:
            break
    c.cov.update(configurations=ntr, traces_validated_against_impl=ntr, states=dist,
                 transitions=states, by_kind=dict(sorted(cnt.items())), samples=samples)
    c.finish()


vf.main(check)
