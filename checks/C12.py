import json, os, random, re, shutil, sys
from collections import Counter
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vf, rt, cfggen, evolve as E, declared as D, mutate, matrix

OPT = dict(roles=.5, maxfields=5, fullrefs=True, uniques=.4, docs=.2, limits=.4, defaults=.5,
           maxq=3, maxupd=2, maxdel=2, labels=.4)
TOOLS = ['ort-json', 'ort-sql', 'ort-c-header', 'ort-c-source', 'ort-c-manpage', 'ort-nodejs',
         'ort-javascript', 'ort-xliff', 'ort-rust', 'ort-diff', 'ort-sqldiff', 'stdin']
FLAGS = {'ort-c-header': ['-jJsv'], 'ort-c-source': ['-jJv']}
NOTHING = D.empty()


class Doc:
    """Texts that make a document together, and what became of them."""

    def __init__(self, key, texts, tool, data=None):
        self.key, self.texts, self.tool = key, texts, tool
        self.data = data or [t.encode('utf-8', 'surrogateescape') for t in texts]

    def go(self, d):
        os.makedirs(d)
        fs = []
        for i, b in enumerate(self.data):
            fs.append(os.path.join(d, 'd%d.ort' % i))
            open(fs[-1], 'wb').write(b)
        self.raw = []
        self.evs = []
        for t in ('ort', self.tool):
            cmd = [vf.tool('ort' if t == 'stdin' else t)] + FLAGS.get(t, [])
            inp = None
            if t in ('ort-javascript', 'ort-c-source'):
                cmd += ['-S', vf.build()]
            if t == 'ort-diff':
                cmd += fs + ['-f'] + fs
            elif t == 'ort-sqldiff':
                cmd += ['-d'] + fs + ['-f'] + fs
            elif t == 'stdin':
                inp = b''.join(self.data)
            else:
                cmd += fs
            rc, out, err = vf.run(cmd, inp=inp, timeout=30, text=False)
            out, err = out.decode('utf-8', 'replace'), err.decode('utf-8', 'replace')
            self.raw.append((t, rc, out[:300], err[-1500:]))
            said = int(bool(out))
            if t in ('ort-diff', 'ort-sqldiff') and rc == 0:
                said = 1            # nothing to say about a document and itself
            if t == 'ort-diff' and rc == 2:
                rc = 1
            self.evs.append(dict(k='read', tool=t, status=rc if rc in (0, 1) else 2, out=said,
                                 err=int(bool(err))))
        shutil.rmtree(d)
        if self.tool == 'stdin' and len(self.data) > 1:
            self.evs.pop()
            self.raw.pop()
        if self.texts is None:
            for e in self.evs:
                e['k'] = 'orderly'
        return self

    def read(self):
        self.toks = [] if self.texts is None else [D.lex(t) for t in self.texts]
        self.cfg = NOTHING if self.texts is None else D.declared(self.toks)
        self.unread = self.cfg is None
        if self.unread:
            self.cfg = NOTHING


def fitting(rng, cfg):
    return [cfggen.render(cfg, rng)] if rng.random() < .6 else E.respell(cfg, rng, rng.choice((1, 2)))


def seeded(seed):
    """A document of a seed: generated, then usually changed."""
    rng = random.Random(seed)
    cfg = cfggen.make(seed, **dict(OPT, maxstruct=rng.choice((1, 2, 3))))
    texts = fitting(rng, cfg)
    tool = rng.choice(TOOLS)
    n = rng.choice((0, 1, 1, 1, 1, 2, 3))
    if n:
        i = rng.randrange(len(texts))
        # where a name comes from another file, the mutator knows only this one
        m = mutate.Mutator(texts[i], rng)
        texts[i] = m.mutate(n)
        if '\0' in texts[i]:
            texts[i] = texts[i].replace('\0', '')
    return Doc('seed%d' % seed, texts, tool)


def bytesdoc(seed):
    """Bytes damaged anyhow: only the manner of the answer can be judged."""
    rng = random.Random(seed)
    cfg = cfggen.make(seed, **dict(OPT, maxstruct=rng.choice((1, 2))))
    b = bytearray(cfggen.render(cfg, rng).encode())
    for _ in range(rng.choice((1, 1, 2, 5, 20))):
        i = rng.randrange(len(b) + 1)
        k = rng.randrange(5)
        if k == 0:
            b[i:i + 1] = bytes([rng.randrange(256)])
        elif k == 1:
            b[i:i] = bytes(rng.randrange(256) for _ in range(rng.choice((1, 2, 40))))
        elif k == 2:
            del b[i:i + rng.choice((1, 3, 30))]
        elif k == 3:
            j = rng.randrange(len(b) + 1)
            b[i:i] = b[j:j + rng.choice((5, 50, 400))]
        else:
            b[i:i] = rng.choice([b'\0', b'"', b'\\"', b'9' * 400, b'-', b'1.' + b'9' * 400,
                                 b'x' * 5000, b'{' * 300, b'1e5', b'\xff\xfe'])
    return Doc('bytes%d' % seed, None, rng.choice(TOOLS), [bytes(b)])


def check():
    c = vf.Check('C12', 'model_checking')
    cnt, faults, alone = Counter(), Counter(), Counter()
    states = dist = ntr = n = 0
    samples = []
    bad = []
    while True:
        base = vf.SEED * 100000 + 120000 + n * 20011
        rng = random.Random(base)
        docs = [seeded(base + k) for k in range(5000 if vf.THOROUGH else 3000)]
        docs += [bytesdoc(base + k) for k in range(800 if vf.THOROUGH else 400)]
        for name, fn in matrix.ALL.items():
            ds = list(enumerate(fn(rng)))
            if not vf.THOROUGH:
                ds = rng.sample(ds, min(len(ds), 500))
            docs += [Doc('%s%d-%d' % (name, base, i), [t], rng.choice(TOOLS)) for i, t in ds]
        dirs = os.path.join(vf.scratch(), 'w')
        os.makedirs(dirs, exist_ok=True)
        vf.pmap(lambda x: x[1].go(os.path.join(dirs, str(x[0]))), enumerate(docs))
        for d in docs:
            d.read()
        vf.log('ran', len(docs))
        for at in range(0, len(docs), 4000):
            part = docs[at:at + 4000]
            cfgs = [d.cfg for d in part]
            traces = [dict(cfg=i + 1, docs=[D.tlatoks(t) for t in d.toks], tell=1,
                           evs=[dict(e) for e in d.evs]) for i, d in enumerate(part)]
            seen = []
            v, st, di = rt.tlc_traces(cfgs, traces, 'OrtReadTrace', watch=lambda o, a: seen.append((o, a)))
            told = {}
            for o, alive in seen:
                for t, w in re.findall(r'<<\s*"FAULTS",\s*(\d+),\s*\{([^}]*)\}\s*>>', o.out):
                    told.setdefault(alive[int(t) - 1], re.findall(r'"([^"]*)"', w))
            for i, (d, x) in enumerate(zip(part, v)):
                fs = told.get(i + 1, ['?'])
                if d.unread and fs != ['syntax']:
                    raise vf.Fail('unreadable but right syntax: %s' % d.texts)
                if d.texts is None:
                    cnt['bytes'] += 1
                else:
                    cnt['well-formed' if not fs else 'ill-formed'] += 1
                    for f in fs:
                        faults[f] += 1
                    if len(fs) == 1:
                        alone[fs[0]] += 1
                for e in d.evs:
                    cnt[e['tool']] += 1
                if x is not None:
                    l = min(x[0], len(d.evs) - 1)
                    bad.append((d, d.raw[l]))
                    c.violation('%s-%s' % (d.key, d.evs[l]['tool']),
                                '%s gave status %s, faults are %s: %s' % (
                                    d.raw[l][0], d.raw[l][1], fs, d.raw[l][3][-300:].strip()),
                                dict(why=x[1], faults=fs, documents=d.texts or
                                     [b.decode('latin-1') for b in d.data], event=d.evs[l],
                                     output=d.raw[l]))
            states, dist, ntr = states + st, dist + di, ntr + len(part)
            if not samples:
                samples = [dict(texts=d.texts, faults=told.get(i + 1), verdict=d.raw[0])
                           for i, d in list(enumerate(part))[:3]]
            vf.log('judged', ntr, 'violations', len(c.viol))
        n += 1
        if c.viol or not vf.THOROUGH or vf.time.time() - vf.T0 > 600:
            break
    c.cov.update(traces_validated_against_impl=ntr, states=dist, transitions=states,
                 by_kind=dict(sorted(cnt.items())), faults=dict(sorted(faults.items())),
                 faults_alone=dict(sorted(alone.items())), samples=samples)
    c.finish()


vf.main(check, sanitize=True)
