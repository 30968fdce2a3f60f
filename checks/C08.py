import os, random, shutil, sys
from collections import Counter
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vf, rt, cfggen, schema, backend as B

OPT = dict(roles=.1, maxstruct=5, maxfields=6, fullrefs=True, uniques=.5, docs=.4, limits=.2,
           defaults=.3, maxq=1, maxupd=0, maxdel=0, labels=.2)


WORDS = """abort action add after all alter always analyze and as asc attach autoincrement before
begin between by cascade case cast check collate column commit conflict constraint create cross
current current_date current_time current_timestamp database default deferrable deferred delete desc
detach distinct do drop each else end escape except exclude exclusive exists explain fail filter
first following for foreign from full generated glob group groups having if ignore immediate in
index indexed initially inner insert instead intersect into is isnull join key last left like limit
match materialized natural no not nothing notnull null nulls of offset on or order others outer over
partition plan pragma preceding primary query raise range recursive references regexp reindex
release rename replace restrict returning right rollback row rows savepoint select set table temp
temporary then ties to transaction trigger unbounded union unique update using vacuum values view
virtual when where window with within without rowid oid integer text blob real main strict true
false stored""".split()


def word_configs():
    """Every word SQLite gives a meaning to, as the name of a structure and of fields."""
    out = []
    for w in WORDS:
        out.append((w, 'struct %s { field aa int; field bb text unique; unique aa, bb; };' % w))
        out.append((w, 'struct xx { field %s int unique; field bb text; unique %s, bb; };\n'
                       'struct yy { field cc:xx.%s int; };' % (w, w, w)))
    return out


def words(c, cnt):
    """The schema of an accepted configuration loads whatever its names are."""
    d = os.path.join(vf.scratch(), 'words')
    os.makedirs(d)

    def one(x):
        i, (w, text) = x
        o = os.path.join(d, '%d.ort' % i)
        open(o, 'w').write(text)
        rc, out, err = vf.run([vf.tool('ort-sql'), o])
        if rc == 1:
            return 'refused', w, text, ''
        if rc != 0:
            return 'bad', w, text, 'ort-sql exited with %s' % rc
        try:
            p = os.path.join(d, '%d.db' % i)
            B.newdb(o, p)
            cat = schema.catalogue(p, [])
            want = {'xx', 'yy'} if ' xx ' in text else {w}
            if set(cat) != want or (w in want and len(cat[w]['cols']) != 2) or \
                    (w not in want and [x[0] for x in cat['xx']['cols']] != [w, 'bb']):
                return 'bad', w, text, 'catalogue %r' % cat
        except B.GenFailure as x:
            return 'bad', w, text, ' '.join(map(str, x.args))
        return 'accepted', w, text, ''
    for how, w, text, why in vf.pmap(one, enumerate(word_configs())):
        cnt['name ' + how] += 1
        if how == 'bad':
            c.violation('word-' + w, 'schema unusable with the name "%s": %s' % (w, why[:300]),
                        dict(ort=text, why=why))


def check():
    c = vf.Check('C08', 'model_checking')
    cnt, states, dist, ntr, samples = Counter(), 0, 0, 0, []
    words(c, cnt)
    n = 0
    while True:
        base = vf.SEED * 100000 + 80000 + n * 1009

        def one(k):
            seed = base + k
            rng = random.Random(seed)
            cfg = cfggen.make(seed, **dict(OPT, maxstruct=rng.choice((1, 3, 5))))
            d = os.path.join(vf.scratch(), 'c%d' % k)
            os.makedirs(d)
            o = os.path.join(d, 'a.ort')
            open(o, 'w', encoding='utf-8').write(cfggen.render(cfg, rng))
            try:
                r = schema.schema_trace(cfg, o, d, rng, 45)
            except B.GenFailure as x:
                r = x
            text = open(o, encoding='utf-8').read()
            shutil.rmtree(d)
            return seed, cfg, text, r
        res = vf.pmap(one, range(150 if not vf.THOROUGH else 400))
        cfgs, traces, meta = [], [], []
        for seed, cfg, text, r in res:
            if isinstance(r, B.GenFailure):
                c.violation('seed%d' % seed, 'schema unusable: %s' % ' '.join(map(str, r.args))[:400],
                            dict(ort=text, why=r.args))
                continue
            init, evs = r
            cfgs.append(cfg)
            for e in evs:
                cnt['%s %s' % (e['k'], e['res'][0])] += 1
            traces.append(dict(cfg=len(cfgs), init=init, evs=schema.same(evs, init)))
            meta.append((seed, text, evs))
        v, st, di = rt.tlc_traces(cfgs, traces, 'OrtSchemaTrace')
        states, dist, ntr = states + st, dist + di, ntr + len(traces)
        if not samples:
            samples = [dict(ort=meta[0][1][:2000], events=[{a: b for a, b in e.items() if a != 'odb'}
                                                           for e in meta[0][2][:6]])]
        for (seed, text, evs), x in zip(meta, v):
            if x is None:
                continue
            l = min(x[0], len(evs) - 1)
            c.violation('seed%d-event%d' % (seed, l + 1),
                        '%s: %s' % (x[1], str({a: b for a, b in evs[l].items() if a != 'odb'})[:500]),
                        dict(ort=text, why=x[1], before=evs[max(0, l - 3):l], offending=evs[l]))
        n += 1
        vf.log('batch', n, 'traces', ntr, 'states', states, 'violations', len(c.viol))
        if c.viol or not vf.THOROUGH or vf.time.time() - vf.T0 > 600:
            break
    c.cov.update(configurations=ntr, traces_validated_against_impl=ntr, states=dist,
                 transitions=states, by_kind=dict(sorted(cnt.items())), samples=samples)
    c.finish()


vf.main(check)
