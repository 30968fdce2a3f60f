import copy, os, random, re, sys
from collections import Counter
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vf, rt, cfggen, evolve as E, ortparse, textual as T, variants as V, xliff as X

POOL = ['Yes', 'No', 'yes', 'Yes ', ' Yes', 'A & B', '<b>bold</b>', "it's", 'say "hi"', 'say \\"hi\\"', '&amp;',
        '&#169; sign', 'Zürich', '終わり', 'two\nlines', 'tab\there', ']]>', '100% %s', 'a\\\\b' and 'a\\b',
        'x' * 9000, '&lt;', '<!-- no -->', '{ }; jslabel', 'one, two', '\\"', "''", '&quot;', '1', '  ',
        '&', '<', '>', 'é' * 4200, '&bogus;', 'TODO', '%n']
XSD = None
LANGS = ('fr', 'de', 'nl', 'FR', 'De', 'xxl')


def relabel(c, rng, whole=.8):
    """Labels from a pool, so that texts recur; mostly none is missing where one is needed."""
    pool = rng.sample(POOL, rng.choice((3, 6, len(POOL))))
    if rng.random() < .85:
        pool = [t for t in pool if len(t) < 4000] or ['Yes']
    full = rng.random() < whole

    def ls(old, must):
        out = [[l, rng.choice(pool)] for l in ('', 'fr', 'de')
               if rng.random() < (.75 if l == '' else .15)]
        if full and must and not any(l == '' for l, t in out):
            out.insert(rng.randrange(len(out) + 1), ['', rng.choice(pool)])
        return out
    for e in c['enums']:
        for i in e['items']:
            i['labels'] = ls(i['labels'], True)
        e['isnull'] = ls(e['isnull'], rng.random() < .6) if e['isnull'] or rng.random() < .3 else []
        if full and e['isnull'] and not any(l == '' for l, t in e['isnull']):
            e['isnull'] = [['', rng.choice(pool)]]
    for b in c['bits']:
        for i in b['items']:
            i['labels'] = ls(i['labels'], True)
        b['isunset'], b['isnull'] = ls(b['isunset'], True), ls(b['isnull'], True)


def broken(status, err):
    return dict(k='broken', status=str(status), err=err[-600:])


class Chain:
    """What is done with the labels of one configuration."""

    def __init__(self, r):
        self.r, self.rng, self.d = r, r.rng, r.d
        self.evs, self.n, self.data = [], 0, None

    def path(self, data, suffix='.xliff'):
        self.n += 1
        p = os.path.join(self.d, 'x%d%s' % (self.n, suffix))
        open(p, 'wb').write(data)
        return p

    def use(self, cfg):
        """Take a configuration as the current one: False if it is not accepted."""
        rng = self.rng
        texts = [cfggen.render(cfg, rng)] if rng.random() < .5 else \
            E.respell(cfg, rng, rng.choice((1, 2, 3)))
        fs = self.r.docs('c%d.' % self.n, texts)
        self.n += 1
        ok, err = E.accepted(fs)
        if not ok:
            return False
        if rng.random() < .15:
            # names of files are in the translation file
            q = os.path.join(self.d, 'a & b <%d> "c"\'.ort' % self.n)
            os.rename(fs[0], q)
            fs[0] = q
        self.cfg, self.texts, self.fs = cfg, texts, fs
        self.cur = self.r.add(*texts)
        return True

    def tool(self, args, inp=None):
        # the manual's order of arguments is for a getopt(3) that does not reorder them
        k = next((i for i, a in enumerate(args) if not re.match('-[cju]', a)), len(args))
        args = args[:k] + ['--'] * ('-x' in args or self.rng.random() < .2) + args[k:]
        rc, out, err = vf.run([vf.tool('ort-xliff')] + args, inp=inp, text=False, timeout=30)
        err = err.decode('utf-8', 'replace')
        raw = dict(args=args, source=[t[:20000] for t in self.texts],
                   xliff=(self.data or b'').decode('utf-8', 'replace')[:20000],
                   out=out.decode('utf-8', 'replace')[:20000], err=err[-3000:])
        return rc, out, err, raw

    def names(self, xs):
        """The arguments for the configuration and some translation files, and standard input."""
        rng = self.rng
        a = list(self.fs)
        if not xs:
            return a, None
        if len(a) == 1 and len(xs) == 1 and rng.random() < .5:
            return a + xs, None
        if len(xs) == 1 and len(a) == 1 and rng.random() < .3:
            return a, open(xs[0], 'rb').read()
        if len(a) == 1 and rng.random() < .2:
            return ['-x'] + xs, open(a[0], 'rb').read()
        if rng.random() < .1 and len(xs) == 1:
            return a + ['-x'], open(xs[0], 'rb').read()
        return a + ['-x'] + xs, None

    def doc(self, out):
        """What a written translation file has, against the schema as well."""
        f = X.read(out)
        if f['bad'] == '' and XSD:
            try:
                ok = XSD.validate(out)
            except Exception as x:
                raise vf.Fail(str(x))
            if not ok and f['units'] and not any(re.search(r'\s\Z|\A\s|\s\s|\n', u['id'])
                                                 for u in f['units']):
                f['bad'] = 'may'
        return f

    def extract(self):
        copy_ = self.rng.random() < .3
        args, inp = list(self.fs), None
        if len(self.fs) == 1 and self.rng.random() < .2:
            args, inp = [], open(self.fs[0], 'rb').read()
        rc, out, err, raw = self.tool(['-c'] * copy_ + args, inp)
        if rc not in (0, 1):
            self.evs.append((broken(rc, err), raw))
            return False
        f = self.doc(out)
        self.evs.append((dict(k='extract', copy=int(copy_), status=rc, out=f), raw))
        if rc == 0 and f['bad'] == '':
            self.data, self.file = out, f
            return True
        return False

    def translate(self):
        """What a translator makes of the file, in good order or not."""
        rng = self.rng
        f = copy.deepcopy(self.file)
        f['rawlang'] = f.get('rawlang') or f['lang']
        if f['lang'] == 'todo' or rng.random() < .2:
            f['rawlang'] = rng.choice(LANGS)
        f['attrs'] = [rng.choice(('en', f['attrs'][0], 'en-GB')), f['attrs'][1]]
        if rng.random() < .1:
            f['attrs'][1] = rng.choice(('a & b', '<x>', "it's \"this\"", 'é'))
        leave = rng.random() < .12
        unlit = lambda t: t.replace('\\"', '"') if rng.random() < .5 else t
        for u in f['units']:
            if not u['target'] or rng.random() < .2:
                u['target'] = [] if leave and rng.random() < .3 else [unlit(rng.choice(
                    ['le ' + u['source'], rng.choice(POOL), u['source'], 'mot "cité"', '"', 'été']))]
        if rng.random() < .25 and f['units']:
            f['units'].pop(rng.randrange(len(f['units'])))
        if rng.random() < .25:
            s = X.lit(rng.choice(POOL))
            if s not in [u['source'] for u in f['units']]:
                f['units'].append(dict(id=str(rng.randrange(90)), source=s, target=['neu']))
        if rng.random() < .3:
            rng.shuffle(f['units'])
        if rng.random() < .2:
            ids = rng.sample(['1', '2', '3', 'a<b', 'x&y', "it's", '"q"', 'é', 'x.1', 'long-id'] +
                             [str(k) for k in range(4, 60)], min(len(f['units']), 66))
            for u, i in zip(f['units'], ids):
                u['id'] = i
        if rng.random() < .05 and f['units']:
            f['units'].append(dict(rng.choice(f['units']), target=['again']))   # not Distinct
        data = X.write(f, rng)
        if rng.random() < .12:
            data = self.damage(data)
        g = X.read(data)
        self.data, self.file = data, g
        if g['bad'] == '':
            g['rawlang'] = f['rawlang']
        self.evs.append((dict(k='translate', out={k: g[k] for k in ('bad', 'lang', 'attrs', 'units')}),
                         dict(xliff=data.decode('utf-8', 'replace')[:20000])))

    def damage(self, data):
        rng = self.rng
        t = data.decode()
        subs = [(r'<target[^>]*>[^<]*</target\s*>', '<target></target>'),
                (r'<target[^>]*>[^<]*</target\s*>', '<target/>'),
                (r'<target[^>]*>[^<]*</target\s*>', ''),
                (r'<source[^>]*>[^<]*</source\s*>', '<source/>'),
                (r'<source[^>]*>[^<]*</source\s*>', ''),
                (r'<source\s*>', '<source><g id="1"/>'), (r'<target[^>]*>', '<target><x/>'),
                (r'version="1.2"', 'version="2.0"'), (r'version="1.2"', ''),
                (r' id=("[^"]*"|\'[^\']*\')', ''), (r'target-language=\S+', ''),
                (r'source-language=\S+', ''), (r'original=("[^"]*"|\'[^\']*\')', ''),
                (r'<file[^>]*>(.*)</file>', r'\1'), (r'(?s)<xliff[^>]*>.*</xliff>', '<other/>'),
                (r'(?s)<file[^>]*>.*</file>', ''), (r'(?s)(<file[^>]*>.*</file>)', r'\1\1'),
                (r'</trans-unit>', '<trans-unit id="n"/></trans-unit>'),
                (r'</trans-unit>', '<alt-trans><target>other</target></alt-trans></trans-unit>'),
                (r'</source>', '</source><source>more</source>'),
                (r'<target[^>]*>', '<target><!-- c -->'), (r'<target[^>]*>', '<target><![CDATA[<]]>'),
                (r'&lt;', '&nope;'), (r'</body>', ''), (r'<body>', '<body><target>t</target>'),
                (r'<body>', '<body><xliff version="1.2"></xliff>'), (r'\n', '\r\n'),
                (r'<xliff', '<trans-unit id="1"><source>a</source></trans-unit><xliff'),
                (r'</xliff>', '</xliff><xliff version="1.2"/>'), (r'(?s)\A.*\Z', ''),
                (r'(?s)\A.*\Z', 'not xml'), (r'(?s)<xliff.*', '<trans-unit id="1"/>'),
                (r'(?s)<xliff.*', '<file/>'), (r'(?s)<xliff.*', '<source>x</source>'),
                (r'(?s)<xliff([^>]*)>.*', r'<xliff\1><trans-unit id="1"/></xliff>'),
                (r'(?s)<xliff([^>]*)>.*', r'<xliff\1><body><target>x</target></body></xliff>'),
                (r'(?s)<body>.*</body>', '<body></body>'), (r'(?s)<body>.*</body>', '')]
        if rng.random() < .8:
            a, b = rng.choice(subs)
            m = list(re.finditer(a, t))
            if m:
                m = rng.choice(m)
                t = t[:m.start()] + m.expand(b) + t[m.end():]
            return t.encode()
        x = bytearray(data)
        for _ in range(rng.choice((1, 1, 3))):
            i = rng.randrange(len(x))
            k = rng.random()
            if k < .3:
                x[i] = rng.choice(b'<>&"\'/=\x00\xff a')
            elif k < .6:
                del x[i:i + rng.choice((1, 5, 40))]
            elif k < .8:
                del x[i:]
            else:
                x[i:i] = x[i:i + 30]
            if not x:
                break
        return bytes(x)

    def unreadable(self):
        """A directory in place of the file."""
        p = os.path.join(self.d, 'dir')
        os.makedirs(p, exist_ok=True)
        op = self.rng.choice(('-u', '-j'))
        rc, out, err, raw = self.tool([op] + self.fs + ['-x', p])
        none = dict(bad='must', lang='', attrs=[], units=[])
        self.evs.append((dict(k='translate', out=none), {}))
        if rc not in (0, 1):
            ev = broken(rc, err)
        elif op == '-u':
            ev = dict(k='update', copy=0, status=rc, said=len(out), out=none)
        else:
            ev = dict(k='join', copy=0, status=rc, said=len(out), to=self.cur, files=[none])
        self.evs.append((ev, raw))
        self.evs.append((dict(k='translate', out={k: self.file[k] for k in none}), {}))

    def edit(self):
        c = copy.deepcopy(self.cfg)
        rng = self.rng
        old = (self.cfg, self.texts, self.fs, self.cur)
        if rng.random() < .5:
            c = E.tame(E.Editor(rng).edit(c, rng.choice((1, 2)))[0])
        else:
            relabel(c, rng, .9)
        if not self.use(c):
            self.cfg, self.texts, self.fs, self.cur = old
            return
        self.evs.append((dict(k='edit', to=self.cur), {}))

    def update(self):
        copy_ = self.rng.random() < .3
        args, inp = self.names([self.path(self.data)])
        rc, out, err, raw = self.tool(['-c'] * copy_ + ['-u'] + args, inp)
        ev = dict(k='update', copy=int(copy_), status=rc, said=len(out), out=self.doc(out))
        if rc not in (0, 1):
            ev = broken(rc, err)
        self.evs.append((ev, raw))
        if rc == 0:
            self.data, self.file = out, dict(ev['out'], rawlang=ev['out']['lang'])

    def join(self):
        rng = self.rng
        copy_ = rng.random() < .3
        fs, data = [self.file], [self.data]
        while rng.random() < .3 and len(fs) < 3 and self.file['bad'] == '' and self.file['units']:
            g = copy.deepcopy(self.file)
            g['rawlang'] = rng.choice(LANGS + ('es', 'it'))
            for u in g['units']:
                u['target'] = [rng.choice(('il ' + u['source'], rng.choice(POOL)))]
            if rng.random() < .2:
                g['units'].pop()
            data.append(X.write(g, rng))
            fs.append(X.read(data[-1]))
        args, inp = self.names([self.path(x) for x in data])
        rc, out, err, raw = self.tool(['-c'] * copy_ + ['-j'] + args, inp)
        raw['others'] = [x.decode('utf-8', 'replace')[:9000] for x in data[1:]]
        ev = dict(k='join', copy=int(copy_), status=rc, said=len(out), to=self.cur,
                  files=[{k: f[k] for k in ('bad', 'lang', 'attrs', 'units')} for f in fs])
        if rc not in (0, 1):
            self.evs.append((broken(rc, err), raw))
            return
        if rc == 0:
            try:
                text = out.decode('utf-8')
                to = self.r.reading(text)
            except UnicodeDecodeError:
                to = -1
            if to < 0:
                self.evs.append((broken('unreadable', err), raw))
                return
            ev['to'] = to
            # the tools take it as well
            fs2 = self.r.docs('j%d.' % self.n, [text])
            self.n += 1
            ok, why = E.accepted(fs2)
            if not ok:
                self.evs.append((broken('refused by ort', why), raw))
                return
        self.evs.append((ev, raw))
        if rc == 0:
            if rng.random() < .5:
                self.cfg, self.texts, self.fs, self.cur = ortparse.parse(text), [text], fs2, to
            else:
                self.evs.append((dict(k='edit', to=self.cur), {}))

    def go(self, n):
        if not self.extract():
            return
        self.translate()
        for _ in range(n):
            k = self.rng.random()
            if self.rng.random() < .02:
                self.unreadable()
            if k < .15:
                if self.file['bad'] == '':
                    self.translate()
            elif k < .3:
                self.edit()
            elif k < .6:
                self.update()
            elif k < .93 or len(self.evs) > 6:
                self.join()
            elif not self.extract():
                return
            if self.evs[-1][0]['k'] == 'broken':
                return
            if self.file['bad'] and self.rng.random() < .6:
                if not self.extract():
                    return
                self.translate()


def one(r):
    r.rng = random.Random(r.seed * 7 + 1)
    relabel(r.cfg, r.rng)
    ch = Chain(r)
    if not ch.use(r.cfg):
        return False
    first = ch.cur
    ch.go(r.rng.choice((3, 6, 9)))
    r.trace(first, *ch.evs)
    return True


# ------------------------------------------------------- the small world, all of it
def small(c, cnt):
    o, m = V.explore('OrtTranslateMC')
    vf.log('model: states', o.distinct, 'generated', o.states)
    d = os.path.join(vf.scratch(), 'small')
    os.makedirs(d)
    cfgs, paths = m['configs'], []
    for i, x in enumerate(cfgs):
        p = os.path.join(d, 'c%d.ort' % i)
        open(p, 'w').write(V.text(x))
        if not E.accepted([p])[0]:
            raise vf.Fail('not accepted: ' + open(p).read())
        paths.append(p)
    rng = random.Random(5)
    files = []
    for i, f in enumerate(m['files']):
        q = os.path.join(d, 'f%d.xliff' % i)
        data = X.write(dict(f, rawlang=f['lang']), rng)
        open(q, 'wb').write(data)
        if X.read(data) != dict(f):
            raise vf.Fail('%r is read as %r' % (f, X.read(data)))
        files.append(q)
    jobs = [(i, j, a, k) for i in range(len(cfgs)) for j in range(-1, len(files))
            for a in ('extract', 'update', 'join') for k in (0, 1) if (a == 'extract') == (j < 0)]

    def work(job):
        i, j, a, k = job
        args = ['-c'] * k + dict(extract=[], update=['-u'], join=['-j'])[a] + [paths[i]] + \
            ([files[j]] if j >= 0 else [])
        rc, out, err = vf.run([vf.tool('ort-xliff')] + args, text=False)
        evs = [] if j < 0 else [dict(k='translate', out=m['files'][j])]
        got = None
        if rc not in (0, 1):
            evs.append(broken(rc, err.decode('utf-8', 'replace')))
        elif a == 'extract':
            evs.append(dict(k=a, copy=k, status=rc, out=X.read(out)))
        elif a == 'update':
            evs.append(dict(k=a, copy=k, status=rc, said=len(out), out=X.read(out)))
        else:
            if rc == 0:
                try:
                    got = T.form(out.decode())
                except (ortparse.Bad, IndexError, ValueError, TypeError) as x:
                    evs.append(broken('unreadable', str(x)))
            if rc == 1 or got is not None:
                evs.append(dict(k=a, copy=k, status=rc, said=len(out), files=[m['files'][j]],
                                to=i + 1))
        return evs, got, dict(args=args, out=out.decode('utf-8', 'replace'), config=open(paths[i]).read(),
                              file=open(files[j]).read() if j >= 0 else '')
    res = vf.pmap(work, jobs)
    allc = [T.form(open(p).read()) for p in paths]
    seen, traces = {}, []
    import json
    for (i, j, a, k), (evs, got, raw) in zip(jobs, res):
        if got is not None:
            key = json.dumps(got, sort_keys=True)
            if key not in seen:
                allc.append(got)
                seen[key] = len(allc)
            evs[-1]['to'] = seen[key]
        cnt['small ' + a] += 1
        traces.append(dict(cfg=i + 1, evs=evs))
    v, st, di = rt.tlc_traces(allc, traces, 'OrtTranslateTrace')
    for job, (evs, got, raw), x in zip(jobs, res, v):
        if x is not None:
            c.violation('small-%s' % '-'.join(map(str, job)), '%s: %s' % (x[1], json.dumps(evs[-1])[:400]),
                        dict(why=x[1], events=evs, raw=raw))
    vf.log('small world: traces', len(traces), 'states', st)
    return o, st, di, len(traces)


class Schema:
    """xmllint with the schema of XLIFF 1.2."""

    def __init__(self, d):
        self.xsd = os.path.join(d, 'xliff-core-1.2-strict.xsd')

    def validate(self, data):
        rc, out, err = vf.run(['xmllint', '--nonet', '--noout', '--schema', self.xsd, '-'], inp=data,
                              text=False)
        if rc not in (0, 3, 4):
            if rc == 1:
                return False
            raise vf.Fail('xmllint: %s %s' % (rc, err[-500:]))
        return rc == 0


def check():
    global XSD
    c = vf.Check('C16', 'model_checking')
    d = os.path.join(vf.VERIF, 'data')
    XSD = Schema(d) if os.path.exists(os.path.join(d, 'xliff-core-1.2-strict.xsd')) else None
    cnt = Counter()
    o, st0, di0, n0 = small(c, cnt)
    T.campaign(c, one, 330000, 700, dict(labels=1, langs=['', 'fr', 'de'], roles=.2,
                                         maxq=1, maxupd=1), module='OrtTranslateTrace', seconds=500)
    c.cov['traces_validated_against_impl'] += n0
    c.cov['states'] += di0 + o.distinct
    c.cov['transitions'] += st0 + o.states
    c.cov['by_kind'].update(cnt)
    c.cov['exhaustive'] = 'OrtTranslateMC: %d states; %d of its steps taken with ort-xliff' % (
        o.distinct, n0)
    c.finish()


vf.main(check, sanitize=True)
