import os, random, shutil, sys
from collections import Counter
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vf, rt, backend as B, cfggen, declared as D, evolve as E, mutate, names as N, ortparse, \
    schema, textual as T

OPT = dict(roles=.7, maxfields=6, fullrefs=True, uniques=.4, docs=.2, limits=.3, defaults=.3,
           maxq=4, maxupd=3, maxdel=2, labels=.3)


def broken(x):
    return dict(k='broken', why=str(x)[:1000])


class Laid:
    """A configuration in several layouts, and what the tools make of each."""

    def __init__(self, seed, d):
        self.rng, self.seed, self.d = r, _, _ = random.Random(seed), seed, d
        os.makedirs(d)
        cfg = E.tame(cfggen.make(seed, **dict(OPT, maxstruct=r.choice((1, 2, 4, 5)))))
        self.cfgs, self.evs, self.raws, self.late = [], [], [], []
        self.text = cfggen.render(cfg, r)
        first = E.write_docs(d, 'first', [self.text])
        self.ok = E.accepted(first)[0]
        if not self.ok:
            return
        self.cfgs.append(T.form(self.text))
        for k in range(2):
            texts = E.respell(cfg, r, r.choice((1, 2, 2, 3, 4)))
            fs = E.write_docs(d, 'l%d' % k, texts)
            if r.random() < .3:
                r.shuffle(fs)
            self.say(dict(k='layout', to=self.add(lambda: T.form(*map(T.source, fs)))), texts)
            rc, out, err = T.ort(fs)
            self.say(dict(k='written', status=rc, to=self.add(lambda: T.form(out))), out + err)
            for t in r.sample(['json', 'c', 'nodejs', 'javascript', 'rust', 'tables', 'diff',
                               'sqldiff'], 4):
                getattr(self, 't_' + t, self.t_lang)(k, t, fs, first)

    def add(self, fn):
        try:
            self.cfgs.append(fn())
            return len(self.cfgs) - 1
        except (ortparse.Bad, IndexError, ValueError, TypeError, KeyError):
            return -1

    def say(self, ev, raw):
        if ev.get('to', 0) < 0:
            ev = broken(ev)
        self.evs.append(ev)
        self.raws.append(raw)

    def t_json(self, k, t, fs, first):
        rc, out, err = T.ort(fs, 'ort-json')
        j = T.read_json(out, fs)
        if isinstance(j, str):
            return self.say(broken(j), out + err)
        self.say(dict(k='json', status=rc, derived=j[1], to=self.add(lambda: E.form(j[0]))), out)

    def t_tables(self, k, t, fs, first):
        p = os.path.join(self.d, 't%d.db' % k)
        try:
            B.newdb(fs, p)
            self.say(dict(k='tables', cat=schema.catalogue(p, [])), '')
        except B.GenFailure as x:
            self.say(broken(x), '')

    def compare(self, tool, fs, first):
        a, b = (fs, first) if self.rng.random() < .5 else (first, fs)
        rc, out, err = vf.run([vf.tool(tool)] + E.two(a, b), timeout=20)
        said = [l for l in out.split('\n') if l and not l.startswith(('--- ', '+++ '))] \
            if tool == 'ort-diff' else \
            [l for l in out.split('\n') if l and not l.startswith(('--', 'PRAGMA foreign_keys', 'BEGIN',
                                                                   'COMMIT'))]
        self.say(dict(k='compared', tool=tool, status=rc, said=len(said)), out + err)

    def t_diff(self, k, t, fs, first):
        self.compare('ort-diff', fs, first)

    def t_sqldiff(self, k, t, fs, first):
        self.compare('ort-sqldiff', fs, first)

    def t_lang(self, k, t, fs, first):
        fl = ''.join(f for f in 'jJsv' if self.rng.random() < .5) if t == 'c' else ''
        cmd = [vf.tool('ort-c-header')] + (['-' + fl] if fl else []) if t == 'c' else \
            [vf.tool('ort-javascript'), '-S', vf.build()] if t == 'javascript' else \
            [vf.tool('ort-' + t)]
        rc, out, err = vf.run(cmd + fs)
        p = os.path.join(self.d, 'o%d.%s' % (k, {'c': 'h', 'rust': 'rs'}.get(t, t + '.ts')))
        open(p, 'w', encoding='utf-8').write(out)
        if rc != 0:
            self.say(broken('status %s: %s' % (rc, err)), out)
        elif t == 'c':
            self.lang(N.read_c(out, p, self.d, fl), out)
        elif t == 'rust':
            try:
                self.lang(N.read_rust(out), out)
            except ValueError as x:
                self.say(broken(x), out)
        else:
            self.late.append((len(self.evs), t, p))
            self.say(None or dict(k='emit', lang=t), out)

    def lang(self, ev, out):
        self.say(ev if isinstance(ev, dict) else broken(ev), out)


def layouts(c, cnt, base, n):
    """Everything the tools make of a configuration, however it is laid out."""
    docs = vf.pmap(lambda k: Laid(base + k, os.path.join(vf.scratch(), 'l%d' % k)), range(n))
    cnt['refused'] += sum(not d.ok for d in docs)
    docs = [d for d in docs if d.ok]
    jobs = [(d, x) for d in docs for x in d.late]
    step = 1 + len(jobs) // vf.JOBS
    parts = vf.pmap(lambda i: N.node([(x[1], x[2]) for d, x in jobs[i:i + step]]),
                    range(0, len(jobs), step))
    for (d, (i, t, p)), r in zip(jobs, [x for y in parts for x in y]):
        ev = getattr(N, 'read_' + t)(r)
        d.evs[i] = ev if isinstance(ev, dict) else broken(ev)
    cfgs, traces = [], []
    for d in docs:
        at = len(cfgs) + 1
        cfgs += d.cfgs
        evs = [dict(e, to=at + e['to']) if 'to' in e else e for e in d.evs]
        for e in evs:
            cnt[' '.join(str(e[x]) for x in ('k', 'lang', 'tool') if x in e)] += 1
        traces.append(dict(cfg=at, evs=evs))
    v, st, di = rt.tlc_traces(cfgs, traces, 'OrtSpreadTrace')
    for d, x in zip(docs, v):
        if x is not None:
            l = min(x[0], len(d.evs) - 1)
            e = d.evs[l]
            c.violation('seed%d-%d' % (d.seed, l), '%s: %s' % (x[1], ' '.join(
                str(e[k]) for k in ('k', 'lang', 'tool', 'status', 'why') if k in e)),
                dict(why=x[1], event=e, raw=d.raws[l], first=d.text,
                     layouts=[r for f, r in zip(d.evs, d.raws) if f['k'] == 'layout']))
    for d in docs:
        shutil.rmtree(d.d, ignore_errors=True)
    return st, di, len(traces), [dict(first=d.text, layout=d.raws[0]) for d in docs[:1]]


# ------------------------------------------------------------- acceptance
def pieces(text):
    """Statements at the top of a document; None if it has none to be found."""
    toks = D.lex(text)
    out, depth, at = [], 0, 0
    for k, v, a, b in toks:
        depth += (k == '{') - (k == '}')
        if depth < 0 or k == 'bad':
            return None
        if k == ';' and depth == 0:
            out.append(text[at:b])
            at = b
    return out if depth == 0 and at >= (toks[-1][3] if toks else 0) else None


def relaid(text, rng):
    """The statements of a document, in another order and in several files."""
    ps = pieces(text)
    if not ps:
        return None
    rng.shuffle(ps)
    fs = ['' for _ in range(rng.choice((1, 2, 3)))]
    for p in ps:
        i = rng.randrange(len(fs))
        toks = D.lex(p)
        o, at = '', 0
        for k, v, a, b in toks:
            w = p[a:b]
            if k == 'id' and rng.random() < .03:
                w = w.swapcase()
            gap = p[at:a] if rng.random() < .97 else p[at:a] + rng.choice([' ', '\n', ' # {;"\n'])
            o += gap + w
            at = b
        fs[i] += o + '\n'
    return fs


def verdicts(c, cnt, base, n):
    """A document that is well-formed or not stays so."""
    def one(k):
        rng = random.Random(base + k)
        cfg = cfggen.make(base + k, **dict(OPT, maxstruct=rng.choice((2, 3, 4))))
        text = cfggen.render(cfg, rng)
        m = mutate.Mutator(text, rng)
        for _ in range(8):
            t = m.mutate(1)
            if pieces(t) and pieces(t) != pieces(text):
                text = t
                break
        out = []
        for j in range(4):
            texts = relaid(text, rng) if j else [text]
            if texts is None:
                break
            d = os.path.join(vf.scratch(), 'v%d-%d' % (k, j))
            os.makedirs(d)
            fs = E.write_docs(d, 'd', texts)
            if rng.random() < .5:
                fs.reverse()
                texts.reverse()
            rc, o, err = T.ort(fs)
            shutil.rmtree(d)
            toks = [D.lex(t) for t in texts]
            cfg = D.declared(toks)
            out.append((k, texts, toks, cfg or D.empty(), dict(
                k='read', tool='ort', status=rc if rc in (0, 1) else 2, out=int(bool(o)),
                err=int(bool(err))), err))
        return out
    res = vf.pmap(one, range(n))
    flat = [x for y in res for x in y]
    told = {}

    def watch(o, alive):
        import re
        for t, w in re.findall(r'<<\s*"FAULTS",\s*(\d+),\s*\{([^}]*)\}\s*>>', o.out):
            told.setdefault(alive[int(t) - 1], sorted(re.findall(r'"([^"]*)"', w)))
    v, st, di = rt.tlc_traces([x[3] for x in flat], [
        dict(cfg=i + 1, docs=[D.tlatoks(t) for t in x[2]], tell=1, evs=[x[4]])
        for i, x in enumerate(flat)], 'OrtReadTrace', watch=watch)
    faults = {}
    for i, (x, y) in enumerate(zip(flat, v)):
        f = told.get(i + 1)
        cnt['verdict ' + ('accepted' if x[4]['status'] == 0 else 'refused')] += 1
        if faults.setdefault(x[0], f) != f:
            raise vf.Fail('layout changes faults: %s %s %s' % (faults[x[0]], f, x[1]))
        if y is not None:
            c.violation('doc%d-%d' % (base + x[0], i), 'ort gave status %s, faults are %s: %s' % (
                x[4]['status'], f, x[5][-300:]), dict(documents=x[1], faults=f, err=x[5]))
    return st, di, len(flat)


def check():
    c = vf.Check('C20', 'model_checking')
    cnt, states, dist, ntr, samples, n = Counter(), 0, 0, 0, [], 0
    while True:
        base = vf.SEED * 100000 + 200000 + n * 1009
        s, d, k, smp = layouts(c, cnt, base, 500)
        samples = samples or smp
        vf.log('layouts', k, 'violations', len(c.viol))
        s2, d2, k2 = verdicts(c, cnt, base, 700)
        states, dist, ntr = states + s + s2, dist + d + d2, ntr + k + k2
        n += 1
        vf.log('batch', n, 'traces', ntr, 'violations', len(c.viol))
        if c.viol or not vf.THOROUGH or vf.time.time() - vf.T0 > 400:
            break
    # the generated code does the same, too
    camp = rt.Campaign(c, dict(roles=(1, 1, .3), maxstruct=4, maxfields=4, nxgrant=.1),
                       dict(denied=.15, length=35), {'C01', 'C02', 'C03', 'C04', 'C05', 'C06', 'C07'},
                       2000, nscripts=2)
    camp.files = (1, 2, 3)
    camp.run((16, 48), 500)
    c.cov.update(traces_validated_against_impl=ntr + camp.ntraces, states=dist + camp.distinct,
                 transitions=states + camp.states, layouts=dict(sorted(cnt.items())),
                 samples=samples + camp.samples[:1])
    c.finish()


vf.main(check)
