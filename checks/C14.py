import decimal, json, os, random, shutil, sys
from collections import Counter
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vf, rt, cfggen, evolve as E, ortparse, backend as B, variants as V, textual as T

INTLIKE = ('int', 'epoch', 'bit', 'bits', 'enum')
SIZED = ('text', 'email', 'password', 'blob')
EDGES = [0, 1, -1, 63, 64, 65, 2 ** 31 - 1, 2 ** 31, -2 ** 31, 2 ** 32, 2 ** 53 + 1, 2 ** 63 - 1, 2 ** 63,
         -2 ** 63, -2 ** 63 - 1, 2 ** 64 - 1, 2 ** 64, 2 ** 64 + 1, 10 ** 30]
CHARS = ['a', 'Z', ' ', '"', "'", '\\', '\n', '\t', 'é', 'ß', '終', '😀', '%', '\x7f', '<', '&', '0']


def form(cfg):
    c = E.form(cfg) if 'num' not in json.dumps(cfg['enums']) else cfg
    for s in c['structs']:
        for f in s['fields']:
            f['limb'] = [[op, list(v.encode())] for op, v in f['limits']]
    return c


def odd(rng, n):
    """Ways to write an integer, or something close to one."""
    return rng.choice([' %d', '%d ', '\t%d\n', '+%d', '0%d', '000%d', '%d.0', '%de0', '%dx', 'x%d', '--%d', '%d %d', '%d,',
                       '0x%d', '-%d', '%d_0', "%d'", '(%d)', '%d.', '%d;', '%dn', '%d\x0b', '- %d', '%dL']).replace(
        '%d', str(n))


WORDS = ['', ' ', '-', '+', 'NaN', 'nan', '-nan', 'inf', '-inf', 'Infinity', 'null', 'undefined', 'true', '0x10', '0x', '0b11',
         '0o17', '1e3', '-0', '+0', '00', '0.0', '1.5', '.5', '5.', '-.5', '1,5', '1 2', 'one', '1e400', '-1e400', '1e-400',
         '0x1p3', '1.2.3', '1..2', '-0.0', '١', '½', '1E5', '9' * 40, '0' * 30 + '1', '99999999999999999999.5']
MAILS = ['', '@', 'a', 'a@', '@b.co', 'a@b', 'a@b.co', ' a@b.co', 'a@b.co ', 'A@B.CO', 'a b@c.de', 'a@b@c.de', 'a.b@c.de',
         'a@b..co', 'a@b.c', 'user1@example.com', 'x@y.org\n', 'a+b@c.de', "o'x@y.com", 'é@b.co', 'a@b.co,c@d.co']


def inputs(rng, fd, cfg):
    t, out = fd['type'], []
    lims = [v for op, v in fd['limits']]
    if t in INTLIKE:
        near = [int(v) + d for v in lims for d in (-1, 0, 1)]
        if t == 'enum':
            e = [e for e in cfg['enums'] if e['name'] == fd['aux']][0]
            near += [V.number(i['num'][0]) + d for i in e['items'] if i['num'] for d in (-1, 0, 1)]
            near += list(range(6))
            out += [i['name'] for i in e['items']]
        near += rng.sample(EDGES, 8) + [rng.randrange(-100, 100)] + ([63, 64, 65, -1] if t in ('bit', 'bits') else [])
        out += [str(v) for v in near] + [odd(rng, v) for v in rng.sample(near, 6)] + rng.sample(WORDS, 8)
    elif t == 'real':
        near = [decimal.Decimal(v) + decimal.Decimal(d) for v in lims for d in ('-.001', '0', '.001', '1', '-1')]
        near += [decimal.Decimal(x) for x in ('0', '1.5', '-2.25', '123456789.25')]
        out += [format(v, 'f') for v in near] + [odd(rng, rng.choice(near)) for i in range(5)] + rng.sample(WORDS, 14)
    elif t == 'date':
        def day(n):
            y = 1970 + n // 366
            return '%04d-%02d-%02d' % (min(9999, max(0, y)), rng.randrange(1, 13), rng.randrange(1, 32))
        for v in lims:
            n = int(v) // 86400
            for k in (n - 1, n, n + 1):
                import datetime
                try:
                    out.append((datetime.date(1970, 1, 1) + datetime.timedelta(k)).isoformat())
                except OverflowError:
                    pass
        out += [day(rng.randrange(-700000, 3000000)) for i in range(4)] + [
            '%04d-02-29' % rng.choice((0, 4, 100, 400, 1900, 2000, 2019, 2020, 2100)), '1970-01-01', '1969-12-31',
            '2020-%02d-%02d' % (rng.randrange(0, 14), rng.choice((0, 1, 28, 29, 30, 31, 32)))]
        out += rng.sample(['', ' ', '2020-1-1', '2020/01/01', '20200101', '2020-01-01T00:00:00', '01-01-2020', '2020-01', ' 2020-01-01',
                           '2020-01-01 ', '02020-01-01', '2020-01-01x', '-020-01-01', '0', '1577836800', '2020--1-01',
                           '2020-02-30', '2020-04-31', '20-01-01', '2020-01-1é', '+020-01-01', 'today'], 6)
    elif t == 'email':
        out += rng.sample(MAILS, 10) + ['a' * (n - 5) + '@b.co' for v in lims for n in
                                        [int(v) - 1, int(v), int(v) + 1] if 6 <= n <= 44]
        out += ['é' * k + '@b.co' for k in (1, 3)]
        out += ['m%d@example%d.net' % (rng.randrange(99), rng.randrange(99))]
    else:
        for v in lims + ['3']:
            if int(v) > 10000:
                continue
            for n in (int(v) - 1, int(v), int(v) + 1):
                for k in range(2):
                    s = ''
                    while n >= 0 and len(s.encode()) < n:
                        ch = rng.choice(CHARS if k else 'ab')
                        s += ch if len((s + ch).encode()) <= n else 'x'
                    out.append(s)
                out.append('é' * max(0, n))
        out += ['', ' ', 'plain', ' x ', '終わり', "it's"] + [rng.choice(WORDS)]
        if t == 'blob':
            out += [bytes(rng.randrange(256) for i in range(rng.choice((1, 2, 6)))) for j in range(4)]
        else:
            out.append(b'\xff\xfe')
    return [x if isinstance(x, bytes) else x.encode() for x in out]


def decode(r, fd):
    """An answer as an event, without the input."""
    t = fd['type']
    if r == 'R':
        return dict(k='reject')
    if r[0] == 'D' or r[0] == 'I':
        x = r[1:]
        if t in SIZED:
            return dict(k='broken', why='number ' + x)
        low = x.lower().lstrip('-')
        if low == 'nan':
            return dict(k='accept', v=dict(nan=True, neg=False, int=[], frac=[]))
        if low.startswith('inf'):
            d = decimal.Decimal(10) ** 400 * (-1 if x[0] == '-' else 1)
        else:
            d = decimal.Decimal(repr(float(x)) if r[0] == 'D' else x)
    elif r[0] in 'SB':
        b = bytes.fromhex(r[1:])
        if t in SIZED:
            return dict(k='accept', v=list(b))
        if t == 'enum' and b.lstrip(b'-').isdigit():
            d = decimal.Decimal(b.decode())
        else:
            return dict(k='broken', why='text %r' % b)
    else:
        return dict(k='broken', why=r)
    s = format(abs(d), 'f')
    i, f = (s.split('.') + [''])[:2]
    i, f = i.lstrip('0'), f.rstrip('0')
    return dict(k='accept', v=dict(nan=False, neg=d < 0, int=list(i.encode()), frac=list(f.encode())))


class Doc:
    """Validators of one document."""

    def __init__(self, d, text, cfg, cases):
        """cases: function of (structure, field) to input."""
        self.d, self.text = d, text
        os.makedirs(d)
        self.o = os.path.join(d, 'a.ort')
        open(self.o, 'w', encoding='utf-8').write(text)
        self.ok = E.accepted([self.o])[0]
        if not self.ok:
            return
        self.cfg = form(cfg)
        self.fields = [(s['name'], f) for s in self.cfg['structs'] for f in s['fields'] if f['type'] != 'struct']
        self.cases = [(i, x) for i, (s, f) in enumerate(self.fields) for x in cases(s, f)]
        self.seen, self.log = [], []            # events, what they come from
        self.c()

    def event(self, ev, who, raw):
        self.seen.append(ev)
        self.log.append((who, raw))

    def broken(self, who, why):
        self.event(dict(k='broken', why=why[:1500]), who, why)

    def c(self):
        d, o = self.d, self.o
        for t, a in (('ort-c-header', []), ('ort-c-source', ['-S', vf.build(), '-hdb.h'])):
            rc, out, err = vf.run([vf.tool(t), '-v'] + a + [o])
            if rc != 0:
                return self.broken('c', '%s: %s %s' % (t, rc, err))
            open(os.path.join(d, 'db.h' if t == 'ort-c-header' else 'db.c'), 'w').write(out)
        with open(os.path.join(d, 'fields.h'), 'w') as f:
            for s, x in self.fields:
                f.write('{ "%s-%s", valid_%s_%s },\n' % (s, x['name'], s, x['name']))
        try:
            # not optimised for most, as the compiler takes longer than the program
            B.cc(d, 'db.c', 'v', extra=[os.path.join(B.HARN, 'validc.c')])
        except B.GenFailure as x:
            return self.broken('c', str(x))
        jobs, uniq = [], set()
        rc, out, err = vf.run([os.path.join(d, 'v')], inp='', timeout=60, env=B.SANENV)
        if rc != 0 or '--' not in out:
            return self.broken('c', 'exit status %s %s' % (rc, err[-1000:]))
        names = out.split('--')[0].split()
        self.event(dict(k='table', names=[n.split('-') for n in names]), 'c', out)
        pos = {n: i for i, n in enumerate(names)}
        for i, x in self.cases:
            n = '%s-%s' % (self.fields[i][0], self.fields[i][1]['name'])
            jobs.append(('f', i, i, x))
            if n in pos:
                jobs.append(('t', pos[n], i, x))
        rc, out, err = vf.run([os.path.join(d, 'v')], inp=''.join('%s %d %s\n' % (m, k, x.hex()) for m, k, i, x in jobs),
                              timeout=120, env=B.SANENV)
        got = out.split('--\n', 1)[1].split('\n')[:-1]
        for (m, k, i, x), r in zip(jobs, got):
            self.answer(i, x, r, 'c table' if m == 't' else 'c')
        if rc != 0 or len(got) != len(jobs):
            self.broken('c', 'exit status %s %s' % (rc, err[-1000:]))

    def answer(self, i, x, r, who):
        s, f = self.fields[i]
        ev = dict(decode(r, f), s=s, f=f['name'])
        ev['in'] = list(x)
        self.event(ev, who, r)

    def node_job(self):
        rc, out, err = vf.run([vf.tool('ort-nodejs'), '-v', self.o])
        if rc != 0:
            self.broken('nodejs', 'ort-nodejs: %s %s' % (rc, err))
            return None
        p = os.path.join(self.d, 'o.ts')
        open(p, 'w').write(out)
        self.jsc = []
        for i, x in self.cases:
            try:
                self.jsc.append((i, x, x.decode()))
            except UnicodeDecodeError:
                pass
        return dict(path=p, cases=[['%s-%s' % (self.fields[i][0], self.fields[i][1]['name']), t]
                                   for i, x, t in self.jsc])

    def node_result(self, r):
        if 'error' in r:
            return self.broken('nodejs', r['error'])
        self.event(dict(k='table', names=[n.split('-') for n in r['names']]), 'nodejs', r['names'])
        for (i, x, t), g in zip(self.jsc, r['res']):
            self.answer(i, x, g, 'nodejs')
        for n, ok in zip(r['names'], r['none']):
            s, f = n.split('-')
            self.event(dict(k='none' if ok else 'broken', s=s, f=f), 'nodejs none', ok)


def node(jobs):
    if not jobs:
        return []
    rc, out, err = vf.run(['node', '--no-warnings', os.path.join(B.HARN, 'validjs.js'), B.SHIMJS], inp=json.dumps(jobs),
                          timeout=600)
    if rc != 0:
        raise vf.Fail('node: ' + err[-1000:])
    return json.loads(out)


def judge(c, docs, cnt, key):
    todo = [(d, j) for d in docs for j in [d.node_job()] if j]
    step = 1 + len(todo) // vf.JOBS
    parts = vf.pmap(lambda i: node([j for d, j in todo[i:i + step]]), range(0, len(todo), step))
    for (d, j), r in zip(todo, [x for p in parts for x in p]):
        d.node_result(r)
    cfgs, traces, meta = [], [], []
    for d in docs:
        cfgs.append(d.cfg)
        evs, src = [], []
        uniq = {}
        for ev, (who, raw) in zip(d.seen, d.log):
            cnt['%s %s' % (who, ev['k'])] += 1
            k = json.dumps(ev, sort_keys=True)
            if k in uniq:                       # both say the same
                src[uniq[k]].append((who, raw))
                continue
            uniq[k] = len(evs)
            evs.append(ev)
            src.append([(who, raw)])
        # one step each, so that one that is wrong hides no other
        for i in range(0, len(evs), 50):
            traces.append(dict(cfg=len(cfgs), evs=evs[i:i + 50]))
            meta.append((d, evs[i:i + 50], src[i:i + 50]))
    v, st, di = rt.tlc_traces(cfgs, traces, 'OrtValidTrace')
    for (d, evs, src), x in zip(meta, v):
        if x is not None:
            l, why = x
            ev = evs[min(l, len(evs) - 1)]
            who = '+'.join(sorted({w for w, r in src[min(l, len(evs) - 1)]}))
            what = '%s: %s' % (who, why)
            if 'in' in ev:
                fd = [f for s, f in d.fields if s == ev['s'] and f['name'] == ev['f']][0]
                what += ': %s %s limits %s input %r %s' % (ev['k'], fd['type'], fd['limits'], bytes(ev['in']),
                                                         src[min(l, len(evs) - 1)][0][1])
            else:
                what += ': ' + json.dumps(ev)[:600]
            c.violation('%s-%s-%s' % (key(d), ev.get('f', ev['k']), who), what,
                        dict(why=why, event=ev, answers=src[min(l, len(evs) - 1)], ort=d.text))
    for d in docs:
        shutil.rmtree(d.d, ignore_errors=True)
    return st, di, len(traces)


OPT = dict(roles=0, maxstruct=2, maxfields=9, limits=.6, maxq=1, maxupd=1, maxdel=1, uniques=0, insert=.3)


def rand(seed, d):
    rng = random.Random(seed)
    cfg = cfggen.make(seed, **dict(OPT, maxstruct=rng.choice((1, 2)), docs=rng.choice((0, .2))))
    text = cfggen.render(cfg, rng)
    try:
        read = ortparse.parse(text)
    except ortparse.Bad as x:
        raise vf.Fail(str(x))
    f = form(read)
    x = Doc(d, text, read, lambda s, fd: inputs(rng, fd, f))
    x.seed = seed
    return x


def small(c, cnt):
    """All of OrtValidMC: its fields in few documents, with all of its input."""
    o, m = V.explore('OrtValidMC')
    fields = [x['structs'][0]['fields'][0] for x in m['configs']]
    aux = {k: [x[k][0] for x in m['configs'] if x[k]][0] for k in ('enums', 'bits')}
    docs = []
    for i in range(0, len(fields), 7):
        fs = []
        for k, f in enumerate(fields[i:i + 7]):
            f = dict(f, name='f%d' % k)
            fs.append(f)
        cfg = dict(m['configs'][0], enums=[aux['enums']], bits=[aux['bits']])
        cfg['structs'] = [dict(m['configs'][0]['structs'][0], fields=fs)]
        docs.append(cfg)
    inp = {t: [bytes(x) for x in xs] for t, xs in m['input'].items()}

    def work(i):
        text = V.text(docs[i])
        d = Doc(os.path.join(vf.scratch(), 'm%d' % i), text, ortparse.parse(text), lambda s, f: inp[f['type']])
        if not d.ok:
            raise vf.Fail('not accepted: ' + text)
        d.seed = i
        return d
    r = judge(c, vf.pmap(work, range(len(docs))), cnt, lambda d: 'small%d' % d.seed)
    vf.log('small world:', len(fields), 'fields', r)
    return o, r


def check():
    c = vf.Check('C14', 'model_checking')
    cnt, n, refused = Counter(), 0, 0
    o, (states, dist, ntr) = small(c, cnt)
    while True:
        base = vf.SEED * 100000 + 140000 + n * 1009
        docs = vf.pmap(lambda k: rand(base + k, os.path.join(vf.scratch(), 'n%d' % k)),
                       range(400 if vf.THOROUGH else 120))
        refused += sum(not d.ok for d in docs)
        a, b, t = judge(c, [d for d in docs if d.ok], cnt, lambda d: 'seed%d' % d.seed)
        states, dist, ntr, n = states + a, dist + b, ntr + t, n + 1
        vf.log('batch', n, 'traces', ntr, 'violations', len(c.viol))
        if c.viol or not vf.THOROUGH or vf.time.time() - vf.T0 > 600:
            break
    cnt['documents refused'] = refused
    c.cov.update(traces_validated_against_impl=ntr, states=dist + o.distinct, transitions=states + o.states,
                 by_kind=dict(sorted(cnt.items())), samples=[dict(seed=vf.SEED, documents=n)],
                 exhaustive='OrtValidMC: %d states; all of its fields and input given to the validators of both languages'
                 % o.distinct)
    c.finish()


vf.main(check)
