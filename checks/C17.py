import json, os, random, shutil, sys
from collections import Counter
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vf, rt, cfggen, evolve as E, ortparse, backend as B, textual as T, fillgen as G, variants as V


class Doc:
    """Browser code of one document, and what it is to do: as given and as specified."""

    def __init__(self, d, text, cfg, ops):
        self.d, self.text, self.cfg, self.broken = d, text, cfg, None
        os.makedirs(d)
        self.o = os.path.join(d, 'a.ort')
        open(self.o, 'w', encoding='utf-8').write(text)
        self.ok = E.accepted([self.o])[0]
        if not self.ok:
            return
        self.ops = ops
        rc, out, err = vf.run([vf.tool('ort-javascript'), '-S', vf.build(), self.o])
        if rc != 0:
            self.broken = 'ort-javascript: %s %s' % (rc, err)
        self.ts = os.path.join(d, 'o.ts')
        open(self.ts, 'w', encoding='utf-8').write(out)

    def result(self, r):
        """[events]: one run, with a look at the page after each call."""
        if self.broken is None and 'error' in r:
            self.broken = r['error']
        if self.broken is not None:
            return [dict(k='broken', why=self.broken[:1500])]
        out = []
        for (op, ev), x in zip(self.ops, r['res']):
            ev = dict(ev)
            if 'error' in x:
                out.append(dict(k='broken', why=x['error'][:1500], call=op))
                break
            for k in ('p', 'q'):
                if k in x:
                    ev[k] = x[k]
            if ev['k'] not in ('load', 'lang', 'format'):
                ev['calls'] = x['calls']
            out.append(ev)
            if ev['k'] != 'load':
                out.append(dict(k='look', page=x['page']))
        return out


def node(docs):
    if not docs:
        return []
    rc, out, err = vf.run(['node', '--no-warnings', os.path.join(B.HARN, 'fill.js')], timeout=600, env=dict(os.environ, TZ='UTC'),
                          inp=json.dumps([dict(path=d.ts, ops=[op for op, ev in d.ops]) for d in docs]))
    if rc != 0:
        raise vf.Fail('node: ' + err[-1000:])
    return json.loads(out)


def judge(c, docs, cnt, key):
    step = 1 + len(docs) // vf.JOBS
    parts = vf.pmap(lambda i: node(docs[i:i + step]), range(0, len(docs), step))
    traces = []
    for i, (d, r) in enumerate(zip(docs, [x for p in parts for x in p])):
        evs = d.result(r)
        for e in evs:
            cnt[e['k']] += 1
            cnt['calls back'] += len(e.get('calls', []))
        traces.append(dict(cfg=i + 1, evs=evs))
    v, st, di = rt.tlc_traces([d.cfg for d in docs], traces, 'OrtFillTrace')
    for d, t, x in zip(docs, traces, v):
        if x is not None:
            l, why = x
            ev = t['evs'][min(l, len(t['evs']) - 1)]
            what = '%s: %s %s' % (why, ev['k'], json.dumps(ev)[:500])
            c.violation('%s-%d' % (key(d), l), what, dict(why=why, at=l, events=t['evs'][:l + 1], ort=d.text))
    for d in docs:
        shutil.rmtree(d.d, ignore_errors=True)
    return st, di, len(traces)


# As in the code that is generated.
ODD = 'e o s v i n fn cb obj inc name custom elem elems res vlong lang val data type id strct field nullable'.split()


def rand(seed, d):
    rng = random.Random(seed)
    cfg = cfggen.make(seed, roles=rng.choice((0, .5)), maxstruct=rng.choice((1, 2, 3, 4)), maxfields=rng.choice((3, 5, 9)),
                      fullrefs=rng.choice((False, True)), labels=.7, docs=.1, maxq=1, maxupd=1, maxdel=1, uniques=0, insert=.3,
                      odd=ODD if rng.random() < .3 else ())
    text = cfggen.render(cfg, rng)
    try:
        read = ortparse.parse(text)
    except ortparse.Bad as x:
        raise vf.Fail(str(x))
    x = Doc(d, text, G.form(read), G.World(rng, read).ops(24 if vf.THOROUGH else 16))
    x.seed = seed
    return x


def given(st, cfg, v):
    """A value of the specification as the program takes it."""
    if v[0] == 'n':
        return ['j', None]
    if v[0] == 'v':
        return ['j', v[2] if v[1] == 's' else float(v[2]) if '.' in v[2] else int(v[2])]
    fs = []
    for f, x in zip(st['fields'], v[2]):
        t = None
        if f['type'] == 'struct':
            src = [g for g in st['fields'] if g['name'] == f['src']][0]
            t = [s for s in cfg['structs'] if s['name'] == src['ref'][0][0]][0]
        if x[0] != 'u':
            fs.append([f['name'], given(t, cfg, x)])
    return ['o', v[1], fs]


def call(cfg, cb, x):
    """A call of spec/OrtFillMC.tla: for the program, and as specified."""
    if x['k'] == 'lang':
        return dict(m='lang', lang=x['lang']), x
    if x['k'] == 'format':
        return dict(m='format', h=x['h'], p=x['p'], name=x['name'][0] if x['name'] else None, v=given(None, cfg, x['v'])[1]), x
    st = cfg['structs'][0]
    ev = dict(x, s=st['name'], cb=cb)
    if x['k'] in ('fill', 'class'):
        m = 'fill' + ('' if x['inc'] else 'Inner') + ('ByClass' if x['k'] == 'class' else '')
    else:
        m = {'array': 'fillArray', 'arrayclass': 'fillArrayByClass', 'arrayor': 'fillArrayOr' + ('Show' if x.get('show') else 'Hide')}[x['k']]
    op = dict(m=m, s=st['name'], os=[given(st, cfg, o) for o in x['os']], one=0, nil=0, p=x['p'], cb=[[k, hs, 0] for k, hs in cb])
    for k in ('by', 'q'):
        if k in x:
            op[k] = x[k]
    return op, ev


def small(c, cnt):
    """All calls of spec/OrtFillMC.tla; if thorough, all pairs of them."""
    o, m = V.explore('OrtFillMC')
    rng, docs = random.Random(vf.SEED), []
    for i, cfg in enumerate(m['configs']):
        calls = [call(cfg, m['cbs'][i], x) for x in m['calls'][i]]
        load = (dict(m='load', page=m['page']), dict(k='load', page=m['page']))
        if vf.THOROUGH:
            parts = [[op for y in calls for op in (load, x, y)] for x in calls]
        else:
            rng.shuffle(calls)
            parts = [[load] + calls[k:k + 4] for k in range(0, len(calls), 4)]
            parts = [sum(parts[k:k + 4], []) for k in range(0, len(parts), 4)]
        for k, ops in enumerate(parts):
            docs.append(Doc(os.path.join(vf.scratch(), 's%d.%d' % (i, k)), V.text(cfg), cfg, ops))
            docs[-1].seed = 'small%d.%d' % (i, k)
            if not docs[-1].ok:
                raise vf.Fail('not accepted: ' + docs[-1].text)
    n = [0, 0, 0]
    for k in range(0, len(docs), 400):
        n = [a + b for a, b in zip(n, judge(c, docs[k:k + 400], cnt, lambda d: d.seed))]
    c.cov['exhaustive'] = dict(configurations=len(m['configs']), calls=sum(len(x) for x in m['calls']), pairs=bool(vf.THOROUGH),
                               model_states=o.distinct)
    return n


def check():
    c = vf.Check('C17', 'model_checking')
    cnt, n = Counter(), 0
    states, dist, ntr = small(c, cnt)
    while True:
        base = vf.SEED * 100000 + 170000 + n * 1009
        docs = vf.pmap(lambda k: rand(base + k, os.path.join(vf.scratch(), 'n%d' % k)), range(int(os.environ.get('NDOC', 400))))
        cnt['refused'] += sum(not d.ok for d in docs)
        a, b, t = judge(c, [d for d in docs if d.ok], cnt, lambda d: 'seed%d' % d.seed)
        states, dist, ntr, n = states + a, dist + b, ntr + t, n + 1
        vf.log('batch', n, 'traces', ntr, 'violations', len(c.viol))
        if c.viol or not vf.THOROUGH or vf.time.time() - vf.T0 > 600:
            break
    c.cov.update(traces_validated_against_impl=ntr, states=dist, transitions=states, by_kind=dict(sorted(cnt.items())),
                 samples=[dict(seed=vf.SEED, documents=n)])
    c.finish()


vf.main(check)
