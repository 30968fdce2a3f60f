"""Documents and what the tools make of them: ort, ort-json and ort-json.ts, in the terms of
spec/OrtText.tla."""
import copy, datetime, json, os, random, re
import vf, ortparse, cfggen, evolve as E


def source(path):
    return open(path, encoding='utf-8', newline='').read()


def form(*texts):
    return E.form(ortparse.parse(*texts))


# ------------------------------------------------------------------ JSON
class Dup(Exception):
    pass


def once(pairs):
    d = dict(pairs)
    if len(d) != len(pairs):
        raise Dup('key given twice: %s' % sorted(k for k, v in pairs
                                                 if [x for x, y in pairs].count(k) > 1))
    return d


def esc(s):
    """JSON text to the way ort keeps literals: quotes stay escaped."""
    return s.replace('"', '\\"')


class JSONForm:
    """Reads the output of ort-json: .cfg is the configuration, .derived what it says besides."""

    def __init__(self, text, files):
        d = json.loads(text, object_pairs_hook=once)
        if set(d) != {'config'}:
            raise Dup('keys %s' % sorted(d))
        self.at = ortparse.parse_pos(*[(f, source(f)) for f in files])[1]
        self.derived = []
        self.misplaced = []
        c = d['config']
        self.cfg = dict(hasroles=0, roles=[], enums=[], bits=[], structs=[])
        if c['rq'] is not None:
            self.cfg['hasroles'] = 1
            for k, r in c['rq'].items():
                self.keyed(k, r)
                self.derived.append(['role', k, r['parent'] or '', sorted(r['subrq'])])
                if k not in ('none', 'default', 'all'):
                    self.pos('r:' + k, r)
                    self.cfg['roles'].append(dict(name=k, parent=r['parent'], doc=self.doc(r)))
        for kind, key, out, sub in (('e', 'eq', 'enums', 'eq'), ('b', 'bq', 'bits', 'bq')):
            for k, e in c[key].items():
                self.keyed(k, e)
                self.pos('%s:%s' % (kind, k), e)
                x = dict(name=k, doc=self.doc(e), isnull=self.labels(e['labelsNull']), items=[])
                if kind == 'b':
                    x['isunset'] = self.labels(e['labelsUnset'])
                for n, i in e[sub].items():
                    self.keyed(n, i, k)
                    self.pos('%s:%s.%s' % (kind, k, n), i)
                    it = dict(name=n, doc=self.doc(i), labels=self.labels(i['labels']))
                    if kind == 'e':
                        it['val'] = [] if i['value'] is None else [i['value']]
                    else:
                        it['bit'] = int(i['value'])
                        m = int(i['mask'])
                        self.derived.append(['mask', k, n, [b for b in range(65) if m >> b & 1]])
                    x['items'].append(it)
                self.cfg[out].append(x)
        for k, s in c['sq'].items():
            self.struct(k, s)

    def keyed(self, k, x, parent=None):
        if x['name'] != k or (parent is not None and x['parent'] != parent):
            raise Dup('%s has name %s, parent %s' % (k, x['name'], x.get('parent')))

    def pos(self, ident, x):
        p = x['pos']
        have = self.at(p['fname'], p['line'], p['column'])
        if have != ident:
            self.misplaced.append('%s at %s' % (ident, have))

    def doc(self, x):
        return [] if x['doc'] is None else [esc(x['doc'])]

    def labels(self, ls):
        out = []
        for k, l in ls.items():
            if l['lang'] != k:
                raise Dup('label %s has language %s' % (k, l['lang']))
            out.append(['' if k == '_default' else k, esc(l['value'])])
        return out

    def chain(self, s, path, x):
        self.derived.append(['chain', s, path, [y.split('.') for y in x['chain']]])

    def path(self, s, x):
        p = [] if x['fname'] == '.' else x['fname'].split('.')
        self.chain(s, p, x)
        return p

    def struct(self, n, s):
        out = dict(name=n, doc=self.doc(s), fields=[], insert=0, queries=[], updates=[],
                   deletes=[], uniques=[], grants=[])
        self.keyed(n, s)
        self.pos('s:' + n, s)
        roles = lambda kind, name, x: self.derived.append(
            ['roles', n, kind, name, sorted(set(x['rolemap']))])
        for k, f in s['fq'].items():
            self.keyed(k, f, n)
            self.pos('f:%s.%s' % (n, k), f)
            roles('noexport', k, f)
            fl = f['flags']
            t = {'bitfield': 'bits'}.get(f['type'], f['type'])
            if len(set(fl)) != len(fl) or set(fl) - {'rowid', 'null', 'unique', 'noexport'}:
                raise Dup('flags %s' % fl)
            x = dict(name=k, type=t, aux=f.get('enm', f.get('bitf', '')), ref=[], src='',
                     actdel=f['actdel'], actup=f['actup'], doc=self.doc(f),
                     limits=[[v['type'], v['limit']] for v in f['fvq']], default=[],
                     **{w: int(w in fl) for w in ('rowid', 'null', 'unique', 'noexport')})
            if (t == 'enum') != ('enm' in f) or (t == 'bits') != ('bitf' in f):
                raise Dup('enm or bitf of %s' % f['type'])
            if 'ref' in f:
                r = f['ref']
                if r['source']['strct'] != n or (t != 'struct' and r['source']['field'] != k):
                    raise Dup('source of reference %s' % r)
                if t == 'struct':
                    x['src'] = r['source']['field']
                    self.derived.append(['target', n, k, [r['target']['strct'],
                                                          r['target']['field']]])
                else:
                    x['ref'] = [[r['target']['strct'], r['target']['field']]]
            if f['def'] is not None:
                v = f['def']
                if t == 'date':
                    d = datetime.datetime(1970, 1, 1) + datetime.timedelta(seconds=int(v))
                    v = '%d-%02d-%02d' % (d.year, d.month, d.day)
                elif t in ('text', 'email'):
                    v = esc(v)
                x['default'] = [v]
            out['fields'].append(x)
        if s['insert'] is not None:
            out['insert'] = 1
            self.pos('i:' + n, s['insert'])
            roles('insert', '', s['insert'])
        for key, kind, cls in (('sq', None, 'queries'), ('uq', 'update', 'updates'),
                               ('dq', 'delete', 'deletes')):
            if set(s[key]) != {'named', 'anon'}:
                raise Dup('%s of %s' % (key, n))
            for name, x in [('', x) for x in s[key]['anon']] + list(s[key]['named'].items()):
                if (x['name'] or '') != name or x['parent'] != n:
                    raise Dup('name of %s' % name)
                roles(kind or x['type'], name, x)
                o = dict(name=name, doc=self.doc(x))
                if kind is None:
                    o.update(kind=x['type'], limit=[int(x['limit'])] * (x['limit'] != '0'),
                             offset=[int(x['offset'])] * (x['offset'] != '0'), group=[],
                             terms=[], order=[], distinct=[])
                    for t in x['sntq']:
                        o['terms'].append(dict(path=self.path(n, t), op=t['op']))
                        self.derived.append(['term', n, t['fname'].split('.'), [
                            t['uname'], t['field']['strct'], t['field']['field']]])
                    o['order'] = [[self.path(n, t), t['op']] for t in x['ordq']]
                    if x['dst']:
                        o['distinct'] = [self.path(n, x['dst'])]
                        self.derived.append(['distinct', n, o['distinct'][0], x['dst']['strct']])
                    if (x['group'] is None) != (x['aggr'] is None):
                        raise Dup('group and aggregate')
                    if x['group']:
                        o['group'] = [[self.path(n, x['group']), x['aggr']['op'],
                                       self.path(n, x['aggr'])]]
                    i = ('q', 'search')
                else:
                    if x['type'] != kind:
                        raise Dup('type of %s' % kind)
                    o['cons'] = [[r['field'], r['op']] for r in x['crq']]
                    if kind == 'update':
                        if set(x['flags']) - {'all'} or len(x['flags']) > 1:
                            raise Dup('flags')
                        m = [[r['field'], r['mod']] for r in x['mrq']]
                        o['mods'] = [] if x['flags'] else m
                        self.derived.append(['mods', n, name, m])
                    elif x['mrq'] or x['flags']:
                        raise Dup('modifiers of a delete')
                self.place(n, cls, x, o)
                out[cls].append(o)
        out['uniques'] = [u['nq'] for u in s['nq']]
        for u in s['nq']:
            self.pos('n:%s.%d' % (n, s['nq'].index(u) + 1), u)
        for g in s['rq']:
            out['grants'].append(dict(roles=g['rq'], ops=[[g['type'], g['name'] or '']]))
        out['grants'] = [g for g in out['grants'] if g['roles']]
        self.cfg['structs'].append(out)

    def place(self, s, cls, x, o):
        """Operations of one structure share a kind of identifier."""
        p = x['pos']
        have = self.at(p['fname'], p['line'], p['column'])
        if not have.startswith('%s:%s.' % (cls[0], s)):
            self.misplaced.append('%s of %s at %s' % (cls, s, have))
        else:
            o['_at'] = int(have.rsplit('.', 1)[1])


def read_json(text, files):
    """(configuration, derived, misplaced) or a text saying what is wrong."""
    try:
        j = JSONForm(text, files)
    except (ValueError, KeyError, TypeError, AttributeError, Dup) as x:
        return '%s: %s' % (type(x).__name__, x)
    for s in j.cfg['structs']:
        for cls in ('queries', 'updates', 'deletes'):
            if all('_at' in o for o in s[cls]):
                s[cls].sort(key=lambda o: o['_at'])
            for o in s[cls]:
                o.pop('_at', None)
    return j.cfg, j.derived, j.misplaced


# ------------------------------------------------------------ ort-json.ts
NODE = r'''
const fs = require('fs');
const ortJson = require(process.argv[2]);
for (const f of JSON.parse(fs.readFileSync(0, 'utf8'))) {
    let o;
    try {
        o = new ortJson.ortJsonConfigFormat(JSON.parse(fs.readFileSync(f, 'utf8'))).toString();
    } catch (e) { fs.writeFileSync(f + '.err', String(e)); continue; }
    fs.writeFileSync(f + '.ort', o);
}
'''
_js = None
NODEMODS = '/opt/veriftools/node/node_modules'


def transpile(text, out):
    """TypeScript to JavaScript, without checking types."""
    r = vf.run(['node', '-e', 'const ts=require("%s/typescript");process.stdout.write('
                'ts.transpileModule(require("fs").readFileSync(0,"utf8"),{compilerOptions:'
                '{target:"ES2020",module:"commonjs"}}).outputText)' % NODEMODS], inp=text)
    if r[0] != 0:
        raise vf.Fail('transpile: ' + r[2][-1000:])
    open(out, 'w', encoding='utf-8').write(r[1])
    return out


def tsmodule():
    """ort-json.ts as a module of Node.js."""
    global _js
    if _js is None:
        d = os.path.join(vf.scratch(), 'ortjson')
        os.makedirs(d)
        _js = transpile(source(os.path.join(vf.build(), 'ort-json.ts')) +
                        '\nmodule.exports = ortJson;\n', os.path.join(d, 'ort-json.js'))
        open(os.path.join(d, 'run.js'), 'w').write(NODE)
    return _js


def unjson(paths):
    """Turn JSON files into ort documents with ort-json.ts: text or None for each."""
    js = tsmodule()
    rc, out, err = vf.run(['node', '--no-warnings', os.path.join(os.path.dirname(js), 'run.js'),
                           js], inp=json.dumps(paths), timeout=300)
    if rc != 0:
        raise vf.Fail('node: ' + err[-1000:])
    return [source(p + '.ort') if os.path.exists(p + '.ort') else None for p in paths]


# ------------------------------------------------------------------ chains
def ort(files, tool='ort'):
    return vf.run([vf.tool(tool)] + files, timeout=20)


OPT = dict(roles=.6, maxstruct=4, maxfields=6, fullrefs=True, uniques=.4, docs=.4, limits=.4,
           defaults=.5, maxq=4, maxupd=3, maxdel=2, labels=.5)


class Run:
    """Documents of one seed and the traces of what is done to them."""

    def __init__(self, seed, d, opt=None):
        self.rng, self.seed, self.d = random.Random(seed), seed, d
        self.cfgs, self.traces = [], []
        self.cfg = E.tame(cfggen.make(seed, **dict(OPT, maxstruct=self.rng.choice((1, 2, 4)),
                                                   **(opt or {}))))

    def docs(self, base, texts):
        return E.write_docs(self.d, base, texts)

    def add(self, *texts):
        self.cfgs.append(form(*texts))
        return len(self.cfgs) - 1

    def reading(self, text):
        """Index of the configuration in a text, -1 if it cannot be read."""
        try:
            return self.add(text)
        except (ortparse.Bad, IndexError, ValueError, TypeError) as x:
            return -1

    def trace(self, frm, *evs):
        self.traces.append((frm, [e for e, r in evs], [r for e, r in evs]))


def judge(c, runs, cnt, label=lambda e: e['k'], module='OrtTextTrace'):
    """Have the traces of the runs judged; returns (states, distinct, number)."""
    cfgs, traces, meta = [], [], []
    import rt
    for r in runs:
        first = len(cfgs) + 1
        cfgs += r.cfgs
        for frm, evs, raws in r.traces:
            es = []
            for e in evs:
                cnt[label(e)] += 1
                es.append(dict(e, to=first + e['to'] if e.get('to', -1) >= 0 else 0)
                          if 'to' in e else e)
            # nothing that could be read: say so without a configuration
            es = [e if e.get('to', 1) else dict(e, to=first, status=98) for e in es]
            traces.append(dict(cfg=first + frm, evs=es))
            meta.append((r, es, raws))
    v, st, di = rt.tlc_traces(cfgs, traces, module)
    for (r, es, raws), x in zip(meta, v):
        if x is not None:
            l = min(x[0], len(es) - 1)
            c.violation('seed%d-%s' % (r.seed, es[l]['k']), '%s: %s' % (x[1], json.dumps(
                {a: b for a, b in es[l].items() if a != 'derived'})[:400]),
                dict(why=x[1], event=es[l], raw=raws[l],
                     cfgs=[cfgs[traces[meta.index((r, es, raws))]['cfg'] - 1],
                           cfgs[es[l]['to'] - 1] if es[l].get('to') else None]))
    return st, di, len(traces)


def campaign(c, one, salt, quick, opt=None, seconds=600, module='OrtTextTrace'):
    """one(run): does the work for a seed; unusable sources are skipped."""
    from collections import Counter
    cnt, states, dist, ntr, n = Counter(), 0, 0, 0, 0
    samples = []
    while True:
        base = vf.SEED * 100000 + salt + n * 1009

        def work(k):
            import shutil
            d = os.path.join(vf.scratch(), 't%d' % k)
            os.makedirs(d)
            r = Run(base + k, d, opt)
            r.ok = one(r)
            return r
        runs = vf.pmap(work, range(quick if not vf.THOROUGH else quick * 2))
        if getattr(one, 'finish', None):
            one.finish(runs)
        cnt['refused'] += sum(not r.ok for r in runs)
        runs = [r for r in runs if r.ok]
        st, di, k = judge(c, runs, cnt, module=module)
        states, dist, ntr = states + st, dist + di, ntr + k
        if not samples:
            samples = [[x for x in r.traces[0][2]][:1] for r in runs[:2] if r.traces]
        for r in runs:
            import shutil
            shutil.rmtree(r.d, ignore_errors=True)
        n += 1
        vf.log('batch', n, 'traces', ntr, 'states', states, 'violations', len(c.viol))
        if c.viol or not vf.THOROUGH or vf.time.time() - vf.T0 > seconds:
            break
    c.cov.update(traces_validated_against_impl=ntr, states=dist, transitions=states,
                 by_kind=dict(sorted(cnt.items())), samples=samples)
