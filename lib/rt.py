"""Runtime campaigns: executions of generated code judged by the specification OrtRuntime."""
import json, os, random, re, shutil
from collections import Counter
import vf, backend as B, cfggen, scripts
from scripts import permitted


def tlc_traces(cfgs, traces, module='OrtRuntimeTrace', timeout=600, watch=None):
    """Judge traces; returns (verdicts, states): verdict is None (accepted), or the 0-based index
    of the event that the specification does not allow, with a reason."""
    n = len(traces)
    verdict = {t: (0, 'not reached') for t in range(1, n + 1)}
    alive = list(range(1, n + 1))
    states = dist = 0
    poisoned = 0
    while alive:
        p = os.path.join(vf.scratch(), 'trace%d.json' % random.randrange(1 << 60))
        with open(p, 'w') as f:
            json.dump(dict(configs=cfgs, traces=[traces[t - 1] for t in alive]), f)
        o = vf.tlc(module, env=dict(TRACE=p), timeout=timeout)
        os.unlink(p)
        if watch:
            watch(o, alive)
        states += o.states
        dist += o.distinct
        acc = {alive[x[0] - 1] for x in vf.printed(o, 'ACCEPT')}
        for t in acc:
            verdict[t] = None
        rest = [t for t in alive if t not in acc]
        if o.rc == 0:
            if not rest:
                break
            # how far did the others get?
            with open(p, 'w') as f:
                json.dump(dict(configs=cfgs, traces=[traces[t - 1] for t in rest]), f)
            o = vf.tlc(module, env=dict(TRACE=p, VERBOSE='1'), timeout=timeout)
            os.unlink(p)
            last = {}
            for x, l in vf.printed(o, 'STEP'):
                last[x] = max(l, last.get(x, 0))
            for i, t in enumerate(rest):
                verdict[t] = (last.get(i + 1, 0), 'not a behaviour of the specification')
            break
        # a value that the specification cannot even compare: find the execution
        m = re.findall(r'\btid = (\d+)', o.out)
        l = re.findall(r'\bl = (\d+)', o.out)
        if not m or poisoned > 12:
            vf.tlc_ok(o, module)
        poisoned += 1
        t = alive[int(m[-1]) - 1]
        i = o.out.find('Error:')
        verdict[t] = (int(l[-1]) - 1 if l else 0, 'evaluation: ' + o.out[i:i + 400])
        alive = [x for x in rest if x != t]
    return [verdict[t] for t in range(1, n + 1)], states, dist


def text(j):
    return ''.join(open(o, encoding='utf-8').read() for o in B.docs(j['ort']))


class Campaign:
    """opt: cfggen options; sopt: Scripter options; relevant: which classes of rejected events
    are violations of this property."""

    def __init__(self, check, opt, sopt, relevant, salt, nscripts=3):
        self.c, self.opt, self.sopt, self.rel, self.salt = check, opt, sopt, relevant, salt
        self.nscripts = nscripts
        self.files = None       # how many files to spread the documents over
        self.cnt = Counter()
        self.states = self.distinct = 0
        self.ntraces = self.ncfg = 0
        self.genfail = []
        self.other = Counter()
        self.samples = []
        self.worlds = []        # exhaustive parts: see worlds.run()

    def opts(self, rng):
        o = {}
        for k, v in self.opt.items():
            o[k] = rng.choice(v) if isinstance(v, tuple) else v
        return o

    def batch(self, base, nc, nn):
        """Run nc configurations through C and nn through Node.js."""
        D = os.path.join(vf.scratch(), 'rt')
        shutil.rmtree(D, ignore_errors=True)
        os.makedirs(D)

        def prep(k, lang):
            seed = base * 1000003 + k + (500000 if lang == 'node' else 0)
            rng = random.Random(seed)
            cfg = cfggen.make(seed, **self.opts(rng))
            d = os.path.join(D, '%s%d' % (lang, k))
            os.makedirs(d)
            o = os.path.join(d, 'a.ort')
            if self.files:
                import evolve
                o = evolve.write_docs(d, 'a', evolve.respell(cfg, rng, rng.choice(self.files)))
            else:
                open(o, 'w', encoding='utf-8').write(cfggen.render(cfg, rng))
            scs = [scripts.Scripter(cfg, rng, lang=lang, **self.sopt).script()
                   for _ in range(self.nscripts)]
            return dict(cfg=cfg, ort=o, d=d, scripts=scs, lang=lang, seed=seed)

        self.execute(D, [prep(k, 'c') for k in range(nc)] + [prep(k, 'node') for k in range(nn)])
        shutil.rmtree(D, ignore_errors=True)

    def execute(self, D, jobs, san=True):
        """Run the scripts of jobs (cfg, ort, d, scripts, lang, seed) and judge what was recorded."""
        def runc(j):
            try:
                b = B.CBackend(j['cfg'], j['ort'], j['d'], san)
                j['res'] = [b.run(s, 's%d' % i) for i, s in enumerate(j['scripts'])]
            except B.GenFailure as x:
                j['res'] = x

        def runn(ch):
            i, js = ch
            if not js:
                return
            d = os.path.join(D, 'nd%d' % i)
            os.makedirs(d)
            for j, r in zip(js, B.NodeBackend(d).runall(
                    [(j['cfg'], j['ort'], j['scripts']) for j in js])):
                j['res'] = r
        nj = [j for j in jobs if j['lang'] == 'node']
        work = [(runn, (i, nj[i::4])) for i in range(4)] + \
            [(runc, j) for j in jobs if j['lang'] == 'c']
        vf.pmap(lambda w: w[0](w[1]), work)
        vf.log('ran', len(jobs))
        self.judge(jobs)

    def judge(self, jobs, confirm=True):
        cfgs, traces, meta = [], [], []
        for j in jobs:
            self.ncfg += 1
            if isinstance(j['res'], B.GenFailure):
                self.genfail.append((j['lang'], j['res'].args, text(j)))
                continue
            cfgs.append(j['cfg'])
            for k, (init, evs) in enumerate(j['res']):
                fe = B.finish_events(evs, init)
                for e in fe:
                    self.cnt[self.label(j, e)] += 1
                traces.append(dict(cfg=len(cfgs), init=init, evs=fe))
                meta.append((j, k, evs))
        if not traces:
            return
        v, st, di = tlc_traces(cfgs, traces)
        self.states += st
        self.distinct += di
        self.ntraces += len(traces)
        if len(self.samples) < 3:
            self.samples.append(dict(ort=text(meta[0][0])[:3000],
                                     events=traces[0]['evs'][:12]))
        nconf = 0
        for t, x in enumerate(v):
            if x is None:
                continue
            l, why = x
            j, k, evs = meta[t]
            l = min(l, len(evs) - 1)
            cls = self.classify(j, evs, l)
            hit = cls & self.rel
            if not hit and not os.environ.get('VF_ALL'):
                for c in cls:
                    self.other[c] += 1
                continue
            fe = traces[t]['evs'][l]
            what = '%s, %s: event %d %s' % (j['lang'], why, l + 1, json.dumps(
                {a: b for a, b in fe.items() if a != 'db'})[:400])
            self.c.violation('%s-%s-script%d-event%d' % (
                j['lang'], j.get('name') or 'seed%d' % j['seed'], k, l + 1), what,
                             dict(ort=text(j), script=j['scripts'][k],
                                  events=[{a: b for a, b in e.items() if a not in ('raw', 'odb')}
                                          for e in evs[max(0, l - 6):l]],
                                  offending=evs[l], classes=sorted(cls), why=why))

    def label(self, j, e):
        r = e.get('res')
        r0 = r[0] if isinstance(r, list) and r and isinstance(r[0], str) else ''
        if e['k'] == 'call':
            kind = e['op'] if e['op'] != 'query' else \
                B.sof(j['cfg'], e['s'])['queries'][e['i'] - 1]['kind']
            return '%s %s %s' % (j['lang'], kind, r0)
        return ('%s %s %s' % (j['lang'], e['k'], r0 if e['k'] != 'cur' else '')).strip()

    def classify(self, j, evs, l):
        """Which properties speak about the event that was not allowed?"""
        cfg = j['cfg']
        e = evs[l]
        src = e
        k = e['k']
        if k == 'bad':
            src = e if 's' in e else self.nth(j, evs, l)
            k = 'call' if src and 's' in src else (src or {}).get('k', 'bad')
        role, intx = self.context(evs, l)
        if k in ('role', 'cur'):
            return {'C02'}
        if k == 'export':
            return {'C03'}
        if k in ('begin', 'commit', 'rollback', 'peek', 'writer', 'close', 'open'):
            return {'C07'}
        if k != 'call':
            return {'C04', 'C05'}
        st = B.sof(cfg, src['s'])
        i = src['i'] - 1 if 'args' in src and src is e else src['i']
        op = src['op']
        if 0 > i:
            i = 0
        kind = op if op != 'query' else st['queries'][i]['kind']
        name = '' if op == 'insert' else st[{'query': 'queries', 'update': 'updates',
                                             'delete': 'deletes'}[op]][i]['name']
        res = e.get('res') or ['bad']
        died = e['k'] == 'bad' or res[0] in ('abort', 'exit', 'throw', 'crash')
        ok = permitted(cfg, st, kind, name, role)
        out = set()
        if not ok:
            out.add('C01')
            if self.changed(evs, l):
                out.add('C02')
            return out
        if died and cfg['hasroles']:
            out.add('C01')
        out.add('C04' if op == 'query' else 'C05')
        pw = [t for t in (st['queries'][i]['terms'] if op == 'query' else [])
              if B.pathfield(cfg, st, t['path'])['type'] == 'password']
        if pw or (op in ('insert', 'update') and
                  any(f['type'] == 'password' for f in st['fields'])):
            out.add('C06')
        if op == 'query' and any(f['type'] == 'password' for s in cfg['structs']
                                 for f in s['fields']):
            out.add('C06')
        if intx:
            out.add('C07')
        return out

    def nth(self, j, evs, l):
        return None

    def changed(self, evs, l):
        for e in reversed(evs[:l]):
            if e['k'] == 'open':
                return False
            if e['k'] == 'role' and e.get('res') == ['void']:
                return True
        return False

    def context(self, evs, l):
        role, intx = 'none', False
        for e in evs[:l]:
            k, r = e['k'], e.get('res')
            if k == 'open':
                role, intx = 'default', False
            elif k == 'close' or r in (['abort'], ['exit']):
                role, intx = 'none', False
            elif k == 'role':
                role = e['to']
            elif k == 'begin':
                intx = True
            elif k in ('commit', 'rollback'):
                intx = False
        return role, intx

    def run(self, quick, thorough_s=600):
        """quick: (C configurations, Node.js configurations)."""
        base = vf.SEED * 1000 + self.salt
        n = 0
        while True:
            self.batch(base + n * 17, *quick)
            n += 1
            vf.log('batch', n, 'traces', self.ntraces, 'states', self.states,
                   'violations', len(self.c.viol), 'generator failures', len(self.genfail),
                   'others', dict(self.other))
            if self.c.viol or not vf.THOROUGH or vf.time.time() - vf.T0 > thorough_s:
                break
        if self.ncfg and len(self.genfail) * 2 > self.ncfg:
            l, a, t = self.genfail[0]
            self.c.violation('unusable', 'most generated data layers cannot be used at all: %s %s' %
                             (l, ' '.join(map(str, a))[:500]), dict(ort=t, why=a))
        self.c.cov.update(
            configurations=self.ncfg, traces_validated_against_impl=self.ntraces,
            states=self.distinct, transitions=self.states, events=sum(self.cnt.values()), by_kind=dict(sorted(self.cnt.items())),
            generator_failures=len(self.genfail), rejected_elsewhere=dict(self.other),
            exhaustive=self.worlds, samples=self.samples[:2])
        return self
