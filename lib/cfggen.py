"""Abstract ort configurations: seeded generation and rendering as ort text.

The abstract configuration is the JSON value that the TLA+ modules read (see
spec/OrtConfig.tla for its vocabulary).  Optional things are lists of length
zero or one, so that TLC sees homogeneous values and never a null."""
import random

NUM = ('int', 'epoch', 'date', 'bit', 'bits', 'enum', 'real')
INTLIKE = ('int', 'epoch', 'date', 'bit', 'bits', 'enum')
STR = ('text', 'email', 'password')
BINOPS = ('eq', 'neq', 'lt', 'gt', 'le', 'ge')
WORDS = ('apple bolt crow dusk ember fern glade hazel iris jade kelp lark moss '
         'nook opal pine quill reed sage thorn umber vale wren yarrow zinc amber '
         'birch cedar delta echo frost grove harbor inlet jetty knoll lagoon mesa '
         'north ochre prairie ridge slate tundra upland veldt willow zephyr').split()


class Gen:
    def __init__(self, rng, **opt):
        self.r = rng
        self.o = dict(roles=0.6, maxstruct=4, maxfields=5, enums=True, bits=True,
                      docs=0.0, labels=0.0, limits=0.0, defaults=0.0,
                      passwords=True, blobs=True, reals=True, runtime=True,
                      maxq=5, selfref=True, distinct=True, group=True,
                      noexport=.12, nxgrant=.3, pw=3, maxroles=5, insert=.92, tall=.35,
                      pwterm=.25, maxupd=3, maxdel=2, actions=True, shared=.5,
                      langs=['', 'fr', 'de'], dense=0, fullrefs=False,
                      uniques=.3, datedef=True, varied=False)
        self.o.update(opt)
        self.used = set()

    def p(self, x):
        return self.r.random() < x

    def odd(self, used):
        """A name out of those given as an option, if any."""
        left = [n for n in self.o.get('odd', ()) if n not in used]
        return self.r.choice(left) if left and self.p(.6) else None

    def name(self, pfx=None):
        while True:
            n = None if pfx and pfx.startswith('role') else self.odd(self.used)
            if n:
                self.used.add(n)
                return n
            n = (pfx or self.r.choice(WORDS))
            k = self.r.random()
            if k < .35:
                n += str(self.r.randrange(0, 30))
            elif k < .5:
                n += self.r.choice('abcxyz')
            if n not in self.used:
                self.used.add(n)
                return n

    def doc(self):
        if not self.p(self.o['docs']):
            return []
        return [self.text()]

    def text(self):
        r = self.r
        parts = ['simple', 'a "quoted" word', "it's", 'semi; colon', '# not a comment',
                 'two\nlines', 'tab\there', 'é accent', 'x < y & z > w', '{ brace }', '100%',
                 'back\\slash', 'comma, dot.', '日本', '<b>bold</b>', '$x ${y} `z`',
                 '@tag {@link x}']
        if self.o.get('safetext'):
            parts = ['simple', 'two words', 'comma, dot.', 'x y z', 'it is']
        return ' '.join(r.sample(parts, r.choice((1, 1, 2, 3))))

    def labels(self):
        if not self.p(self.o['labels']):
            return []
        langs = [l for l in self.o['langs'] if self.p(.6)]
        return [[l, self.label()] for l in langs]

    def label(self):
        r = self.r
        base = r.choice(('Yes', 'No', 'Maybe so', 'Open', 'Closed', 'Red', 'Blue', 'On "hold"',
                         "It's", 'A & B', '<i>', 'x > y', 'Zürich', '終', 'a/b', 'one, two',
                         '&amp;', ']]>', '100%', 'back\\slash', 'two  spaces', 'a\tb', 'two\n lines',
                         ' x '))
        if self.o.get('safetext'):
            base = r.choice(('Yes', 'No', 'Maybe so', 'Open', 'Closed', 'Red', 'Blue'))
        if self.p(.4):
            base += ' ' + str(r.randrange(50))
        return base

    # ------------------------------------------------------------------
    def gen(self):
        r = self.r
        cfg = dict(hasroles=0, roles=[], enums=[], bits=[], structs=[])
        if self.o['enums']:
            for _ in range(r.choice((0, 1, 1, 2))):
                cfg['enums'].append(self.enum())
        if self.o['bits']:
            for _ in range(r.choice((0, 1, 1))):
                cfg['bits'].append(self.bitf())
        if self.p(self.o['roles']):
            cfg['hasroles'] = 1
            nr = r.randint(self.o['maxroles'] > 5, self.o['maxroles'])
            names = []
            for _ in range(nr):
                n = self.name('role' + r.choice('abcdef'))
                par = 'all' if not names or self.p(self.o['tall']) else r.choice(names)
                names.append(n)
                cfg['roles'].append(dict(name=n, parent=par, doc=self.doc()))
        self.cfg = cfg
        for _ in range(r.randint(1, self.o['maxstruct'])):
            cfg['structs'].append(self.struct())
        if self.o['fullrefs']:
            self.fullrefs()
        hub = self.hub(self.o['dense']) if self.o['dense'] else None
        for s in cfg['structs']:
            if s is not hub:
                self.ops(s)
        if cfg['hasroles']:
            for s in cfg['structs']:
                self.grants(s)
        return cfg

    def enum(self):
        r = self.r
        items, vals = [], set()
        for _ in range(r.randint(1, 5)):
            v = []
            if self.p(.6):
                x = r.choice((r.randint(-5, 20), r.randint(-5, 20),
                              r.choice((2147483640, -2147483647, 1000, -1000))))
                if x not in vals:
                    vals.add(x)
                    v = [str(x)]
            items.append(dict(name=self.name(), val=v, doc=self.doc(), labels=self.labels()))
        return dict(name=self.name('en'), doc=self.doc(), items=items, isnull=self.labels())

    def bitf(self):
        r = self.r
        bits = r.sample((0, 1, 2, 3, 5, 8, 31, 32, 33, 62, 63), r.randint(1, 5))
        return dict(name=self.name('bf'), doc=self.doc(),
                    items=[dict(name=self.name(), bit=b, doc=self.doc(), labels=self.labels())
                           for b in bits],
                    isunset=self.labels(), isnull=self.labels())

    def newfield(self, name, typ, **kw):
        f = dict(name=name, type=typ, aux='', null=0, unique=0, rowid=0, noexport=0,
                 ref=[], src='', actdel='none', actup='none', limits=[], default=[],
                 doc=self.doc())
        f.update(kw)
        return f

    def types(self):
        t = ['int'] * 4 + ['text'] * 4 + ['email', 'epoch', 'date', 'bit', 'email']
        if self.o['reals']:
            t += ['real', 'real']
        if self.o['blobs']:
            t += ['blob', 'blob']
        if self.o['passwords']:
            t += ['password'] * self.o['pw']
        if self.cfg['enums']:
            t += ['enum', 'enum']
        if self.cfg['bits']:
            t += ['bits', 'bits']
        return t

    def struct(self):
        r = self.r
        cfg = self.cfg
        s = dict(name=self.name(), doc=self.doc(), fields=[], insert=0, queries=[], updates=[],
                 deletes=[], uniques=[], grants=[])
        fs = s['fields']
        fnames = set()

        def fname():
            while True:
                n = self.odd(fnames)
                if n:
                    fnames.add(n)
                    return n
                n = r.choice(WORDS)[:r.choice((3, 4, 9))]
                if self.p(.3):
                    n += str(r.randrange(10))
                if n not in fnames:
                    fnames.add(n)
                    return n
        if self.p(.85):
            fs.append(self.newfield('id' if self.p(.5) else fname(), 'int', rowid=1))
            fnames.add(fs[0]['name'])
        ts = self.types()
        for _ in range(r.randint(1, self.o['maxfields'])):
            t = r.choice(ts)
            f = self.newfield(fname(), t)
            if t == 'enum':
                f['aux'] = r.choice(cfg['enums'])['name']
            if t == 'bits':
                f['aux'] = r.choice(cfg['bits'])['name']
            f['null'] = int(self.p(.35))
            if t not in ('password', 'blob', 'enum', 'bits') or self.o['fullrefs']:
                f['unique'] = int(self.p(.2))
            f['noexport'] = int(self.p(self.o['noexport']))
            self.extras(f)
            fs.append(f)
        # references
        targets = [(t['name'], g['name'], g['type'], g['aux']) for t in cfg['structs']
                   for g in t['fields']
                   if (g['rowid'] or g['unique']) and not g['ref'] and
                   g['type'] not in ('real', 'password')]
        for _ in range(r.choice((0, 1, 1, 2))):
            if not targets:
                break
            tn, tf, tt, ta = r.choice(targets)
            if self.p(.5):
                rowids = [t for t in targets if any(
                    g['name'] == t[1] and g['rowid'] for x in cfg['structs']
                    if x['name'] == t[0] for g in x['fields'])]
                if rowids:
                    tn, tf, tt, ta = r.choice(rowids)
            f = self.newfield(fname(), tt, ref=[[tn, tf]], null=int(self.p(.5)),
                              unique=int(self.p(.12)), aux=ta)
            self.actions(f)
            fs.append(f)
            if self.p(.75):
                fs.append(self.newfield(fname(), 'struct', src=f['name'],
                                        noexport=int(self.p(self.o['noexport'] * .7))))
        if self.o['selfref'] and self.p(.15):
            keys = [g for g in fs if g['rowid'] or (g['unique'] and not g['ref'] and
                                                   g['type'] not in ('real', 'struct', 'password'))]
            if keys:
                k = r.choice(keys)
                f = self.newfield(fname(), k['type'], ref=[[s['name'], k['name']]], null=1,
                                  aux=k['aux'])
                self.actions(f)
                fs.append(f)
        r.shuffle(fs)
        stored = [f['name'] for f in fs if f['type'] != 'struct']
        while len(stored) >= 3 and self.p(self.o['uniques']):
            u = r.sample(stored, r.choice((2, 2, 3)))
            if all(sorted(x) != sorted(u) for x in s['uniques']):
                s['uniques'].append(u)
        return s

    def hub(self, n):
        """A struct with n struct fields, so that many join aliases are needed."""
        r = self.r
        ts = [(t, g) for t in self.cfg['structs'] for g in t['fields']
              if (g['rowid'] or g['unique']) and not g['ref'] and g['type'] != 'real']
        leaves = [x for x in ts if not any(f['type'] == 'struct' for f in x[0]['fields'])]
        if not leaves:
            return None
        t, g = r.choice(leaves)
        keys = [self.newfield('hubkey%d' % i, g['type'], ref=[[t['name'], g['name']]])
                for i in range(r.choice((1, 3, 3)))]
        subs = [self.newfield('hub%d' % i, 'struct', src=r.choice(keys)['name'])
                for i in range(min(n, 54))]
        fs = [self.newfield('hubid', 'int', rowid=1)] + keys
        if n > 54:
            # more, through references to something that is never there
            b = dict(name=self.name('bulk'), doc=[], insert=0, queries=[], updates=[], deletes=[],
                     uniques=[], grants=[], fields=[
                         self.newfield('bulkid', 'int', rowid=1),
                         self.newfield('bulkkey', g['type'], ref=[[t['name'], g['name']]])] +
                     [self.newfield('bulk%d' % i, 'struct', src='bulkkey') for i in range(26)])
            self.cfg['structs'].insert(r.randrange(len(self.cfg['structs']) + 1), b)
            fs.append(self.newfield('hubnull', 'int', null=1, ref=[[b['name'], 'bulkid']]))
            subs += [self.newfield('hubn%d' % i, 'struct', src='hubnull')
                     for i in range((n - 54) // 27)]
            r.shuffle(subs)
        s = dict(name=self.name('hub'), doc=[], fields=fs + subs, insert=1, queries=[], updates=[],
                 deletes=[], uniques=[], grants=[])
        self.cfg['structs'].insert(r.choice((0, len(self.cfg['structs']))), s)
        f = r.choice([f for f in t['fields'] if f['type'] not in ('struct', 'password')])
        for op in ('strneq' if f['type'] in ('text', 'email') else 'neq',
                   'eq' if not f['null'] else 'isnull'):
            s['queries'].append(dict(
                kind='list', name='hub' + op, order=[], limit=[], offset=[], distinct=[],
                group=[], doc=[], terms=[dict(path=['hub%d' % r.randrange(min(n, 54)), f['name']],
                                              op=op)]))
        return s

    def fullrefs(self):
        """References to any struct: later ones, the struct itself, other references."""
        r = self.r
        ss = self.cfg['structs']
        for k, s in enumerate(ss):
            while self.p(.45):
                t = r.choice(ss)
                keys = [g for g in t['fields'] if (g['rowid'] or g['unique']) and
                        g['type'] not in ('real', 'struct', 'password')]
                if not keys:
                    continue
                g = r.choice(keys)
                n = 'x' + r.choice(WORDS) + str(r.randrange(10))
                if n in [f['name'] for f in s['fields']]:
                    continue
                f = self.newfield(n, g['type'], ref=[[t['name'], g['name']]],
                                  null=int(self.p(.8) or ss.index(t) >= k),
                                  unique=int(self.p(.3)), aux=g['aux'])
                self.actions(f)
                s['fields'].insert(r.randrange(len(s['fields']) + 1), f)
        # actions do not run on through references to references (see OrtRuntime)
        hit = {tuple(f['ref'][0]) for s in ss for f in s['fields'] if f['ref']}
        for s in ss:
            for f in s['fields']:
                if f['ref'] and (s['name'], f['name']) in hit:
                    if f['actup'] not in ('none', 'restrict'):
                        f['actup'] = 'none'
                    if f['actdel'] in ('nullify', 'default'):
                        f['actdel'] = 'cascade'

    def extras(self, f):
        r = self.r
        t = f['type']
        if self.p(self.o['defaults']):
            d = self.default(f)
            if d is not None:
                f['default'] = [d]
        seen = set()
        while self.p(self.o['limits']) and t not in ('enum', 'bits', 'struct') and len(seen) < 4:
            op = r.choice(('ge', 'le', 'gt', 'lt', 'eq'))
            if t == 'real':
                v = self.real()
            elif t in ('text', 'email', 'blob', 'password'):
                v = str(r.choice((0, 1, 2, 5, 20, 128, 4096)))
            else:
                v = self.int64()
            if (op, float(v)) not in seen:
                seen.add((op, float(v)))
                f['limits'].append([op, v])

    def int64(self):
        r = self.r
        return str(r.choice((0, 1, -1, 2, 10, -7, 100, 2 ** 31 - 1, -2 ** 31, 2 ** 31, 2 ** 40 + 3,
                             2 ** 53 + 1, 2 ** 63 - 1, -2 ** 63 + 1, r.randrange(-1000, 1000))))

    def real(self):
        r = self.r
        return r.choice(('0.5', '1.25', '-3.75', '0.0', '2', '-1', '1000000.5', '12345678.25',
                         '0.015625', '123456789.0', '-0.25', '100.0', '23252.0'))

    def default(self, f):
        r = self.r
        t = f['type']
        if t in ('int', 'epoch'):
            return self.int64()
        if t == 'bit':
            return str(r.choice((0, 1, 5, 63)))
        if t == 'bits':
            return str(r.choice((0, 1, 3, 2 ** 40)))
        if t == 'real':
            return self.real()
        if t in ('text', 'email'):
            return self.text().replace('\\', '')
        if t == 'enum':
            e = next(x for x in self.cfg['enums'] if x['name'] == f['aux'])
            return r.choice(e['items'])['name']
        if t == 'date' and self.o['datedef']:
            return '%d-%02d-%02d' % (r.choice((1970, 2000, 2020, 1969)), r.randint(1, 12),
                                     r.randint(1, 28))
        return None

    def actions(self, f):
        r = self.r
        acts = ['none', 'restrict', 'cascade'] + (['nullify', 'default'] if f['null'] else [])
        f['actdel'] = r.choice(acts)
        f['actup'] = r.choice(acts)

    # -- paths ----------------------------------------------------------
    def sof(self, n):
        return next(s for s in self.cfg['structs'] if s['name'] == n)

    def fof(self, s, n):
        return next(f for f in s['fields'] if f['name'] == n)

    def paths(self, s, depth=3):
        """(path, field, struct) for every field reachable through non-null struct fields."""
        out = []
        for f in s['fields']:
            out.append(([f['name']], f, s))
            if f['type'] == 'struct' and depth > 0:
                src = self.fof(s, f['src'])
                if not src['null']:
                    for p, g, t in self.paths(self.sof(src['ref'][0][0]), depth - 1):
                        out.append(([f['name']] + p, g, t))
        return out

    def qop(self, f, count=False, distinct=False, upd=False):
        r = self.r
        t = f['type']
        ops = []
        if t == 'password':
            ops = ['streq', 'strneq']
            if not (count or distinct or upd):
                ops += ['eq'] * 5 + ['neq'] * 2
        elif t == 'blob':
            ops = ['eq', 'neq']
        else:
            ops = ['eq'] * 8 + list(BINOPS)
            if t in ('text', 'email'):
                ops += ['like', 'like', 'streq', 'strneq']
            if t in ('int', 'bit', 'bits'):
                ops += ['and', 'or', 'and']
        if f['null'] or self.p(.05):
            ops += ['isnull', 'notnull', 'isnull', 'notnull']
        return r.choice(ops)

    def ops(self, s):
        r = self.r
        names = set()

        def nm():
            if self.p(.7):
                while True:
                    n = r.choice(WORDS)[:r.choice((3, 5))] + r.choice(('', '1', '2', 'by'))
                    if n not in names:
                        names.add(n)
                        return n
            return ''
        s['insert'] = int(self.p(self.o['insert']))
        allp = self.paths(s)
        leafs = [x for x in allp if x[1]['type'] != 'struct']
        seen = set()
        for _ in range(r.randint(1, self.o['maxq'])):
            kind = r.choice(('search', 'list', 'list', 'iterate', 'count'))
            q = dict(kind=kind, name='', terms=[], order=[], limit=[], offset=[], distinct=[],
                     group=[], doc=self.doc())
            if self.o['distinct'] and kind in ('list', 'iterate') and self.p(.15):
                subs = [x[0] for x in allp if x[1]['type'] == 'struct' and
                        not self.fof(x[2], x[1]['src'])['null']]
                q['distinct'] = [r.choice([[]] + subs)]
            dist = bool(q['distinct'])
            nt = r.choice((0, 1, 1, 1, 2, 2, 3))
            pool = leafs
            if kind == 'search':
                nt = max(nt, 1)
            for _ in range(nt):
                p, f, t = r.choice(pool)
                if self.p(self.o['pwterm']):
                    pw = [x for x in pool if x[1]['type'] == 'password']
                    if pw:
                        p, f, t = r.choice(pw)
                q['terms'].append(dict(path=p, op=self.qop(f, kind == 'count', dist)))
            pwhash = any(self.ft(s, t['path'])['type'] == 'password' and t['op'] in ('eq', 'neq')
                         for t in q['terms'])
            if kind == 'search':
                uniq = any(t['op'] in ('eq', 'streq') and (self.ft(s, t['path'])['rowid'] or
                           self.ft(s, t['path'])['unique']) and len(t['path']) == 1
                           for t in q['terms'])
                if not uniq:
                    if pwhash:
                        u = [x for x in leafs if (x[1]['rowid'] or x[1]['unique'])
                             and len(x[0]) == 1]
                        if not u:
                            continue
                        q['terms'].insert(r.randrange(len(q['terms']) + 1),
                                          dict(path=u[0][0], op='eq'))
                    else:
                        q['limit'] = [1]
            grp = False
            if self.o['group'] and kind in ('list', 'iterate') and not dist and not pwhash and \
                    self.p(.15):
                c = [f for f in s['fields'] if not f['null'] and
                     f['type'] in ('int', 'text', 'epoch', 'date', 'bit', 'real', 'email')]
                if len(c) >= 2:
                    a, b = r.sample(c, 2)
                    q['group'] = [[[a['name']], r.choice(('maxrow', 'minrow')), [b['name']]]]
                    grp = True
            if kind in ('list', 'iterate') and not dist:
                op = [x for x in leafs if x[1]['type'] != 'password']
                for _ in range(r.choice((0, 0, 1, 2))):
                    if not op:
                        break
                    q['order'].append([r.choice(op)[0], r.choice(('asc', 'desc'))])
            if kind == 'search' and q['limit'] and self.p(.5):
                op = [x for x in leafs if x[1]['type'] != 'password']
                if op:
                    q['order'].append([r.choice(op)[0], r.choice(('asc', 'desc'))])
            if kind in ('list', 'iterate') and not pwhash and self.p(.25):
                q['limit'] = [r.choice((1, 2, 3))]
                if self.p(.5):
                    q['offset'] = [r.choice((1, 2))]
            q['name'] = nm()
            key = (kind, tuple(('_'.join(t['path']), t['op']) for t in q['terms']))
            if not q['name']:
                if key in seen:
                    q['name'] = ''
                    continue
                seen.add(key)
            s['queries'].append(q)
        stored = [f for f in s['fields'] if f['type'] != 'struct']
        useen = set()
        for _ in range(min(self.o['maxupd'], r.choice((0, 1, 1, 2, 3, 3)))):
            u = dict(name=nm(), mods=[], cons=[], doc=self.doc())
            if self.p(.8):
                cand = list(stored)
                r.shuffle(cand)
                for f in cand[:r.choice((1, 1, 2, 3))]:
                    if f['rowid'] and self.p(.7):
                        continue
                    t = f['type']
                    mods = ['set', 'set']
                    if t in ('text', 'email'):
                        mods += ['concat', 'strset']
                    if t == 'blob':
                        mods += ['concat']
                    if t in ('int', 'epoch', 'date', 'real', 'bit', 'bits', 'enum') and \
                            not f['rowid']:
                        mods += ['inc', 'dec']
                    if t == 'enum':
                        mods = ['set']
                    if t == 'password':
                        mods += ['strset']
                    u['mods'].append([f['name'], r.choice(mods)])
            if not u['mods'] and all(f['rowid'] for f in stored):
                continue
            for _ in range(r.choice((0, 1, 1, 1, 2))):
                f = r.choice(stored)
                if self.p(.4):
                    f = next((x for x in stored if x['rowid']), f)
                u['cons'].append([f['name'], self.qop(f, upd=True)])
            k = ('u', tuple(map(tuple, u['mods'])), tuple(map(tuple, u['cons'])))
            if not u['name']:
                if k in useen:
                    continue
                useen.add(k)
            s['updates'].append(u)
        for _ in range(min(self.o['maxdel'], r.choice((0, 1, 1, 2)))):
            d = dict(name=nm(), cons=[], doc=self.doc())
            for _ in range(r.choice((0, 1, 1, 1, 2))):
                f = r.choice(stored)
                if self.p(.4):
                    f = next((x for x in stored if x['rowid']), f)
                d['cons'].append([f['name'], self.qop(f, upd=True)])
            k = ('d', tuple(map(tuple, d['cons'])))
            if not d['name']:
                if k in useen:
                    continue
                useen.add(k)
            s['deletes'].append(d)

    def ft(self, s, path):
        f = self.fof(s, path[0])
        if len(path) == 1:
            return f
        src = self.fof(s, f['src'])
        return self.ft(self.sof(src['ref'][0][0]), path[1:])

    def grants(self, s):
        r = self.r
        rn = [x['name'] for x in self.cfg['roles']] + ['default', 'all']
        named = ([['insert', '']] if s['insert'] else []) + \
            [[q['kind'], q['name']] for q in s['queries'] if q['name']] + \
            [['update', u['name']] for u in s['updates'] if u['name']] + \
            [['delete', u['name']] for u in s['deletes'] if u['name']]
        used = set()
        style = r.random()

        def ok(role, op):
            k = (role, tuple(op))
            if k in used:
                return False
            used.add(k)
            return True
        for _ in range(r.choice((1, 1, 2, 2, 3))):
            roles = r.sample(rn, min(len(rn), r.choice((1, 1, 2))))
            ops = []
            cand = list(named)
            r.shuffle(cand)
            for op in cand[:r.randint(0, len(cand))]:
                if all((x, tuple(op)) not in used for x in roles):
                    for x in roles:
                        ok(x, op)
                    ops.append(op)
            if self.p(.5 if style < .5 else .1):
                if all((x, ('all', '')) not in used for x in roles):
                    for x in roles:
                        ok(x, ['all', ''])
                    ops.append(['all', ''])
            while self.p(self.o['nxgrant']):
                f = r.choice([''] + [g['name'] for g in s['fields']] * 2)
                op = ['noexport', f]
                if all((x, tuple(op)) not in used for x in roles):
                    for x in roles:
                        ok(x, op)
                    ops.append(op)
            if ops:
                s['grants'].append(dict(roles=roles, ops=ops))


# ----------------------------------------------------------------------
def q(s):
    return '"' + s.replace('\\', '\\\\').replace('"', '\\"') + '"'


def lit(s):
    """A string literal.  ort keeps backslashes except before a double quote."""
    out = []
    i = 0
    for c in s:
        if c == '"':
            out.append('\\"')
        else:
            out.append(c)
    return '"' + ''.join(out) + '"'


def rlabels(ls):
    return ''.join(' jslabel%s %s' % ('.' + l if l else '', lit(t)) for l, t in ls)


def rdoc(d):
    return ' comment %s' % lit(d[0]) if d else ''


def rfield(f):
    o = 'field %s' % f['name']
    if f['ref']:
        o += ':%s.%s' % tuple(f['ref'][0])
    if f['type'] == 'struct':
        o += ' struct ' + f['src']
    else:
        o += ' ' + f['type']
        if f['aux']:
            o += ' ' + f['aux']
    if f['rowid']:
        o += ' rowid'
    if f['null']:
        o += ' null'
    if f['unique']:
        o += ' unique'
    if f['noexport']:
        o += ' noexport'
    for op, v in f['limits']:
        o += ' limit %s %s' % (op, v)
    if f['default']:
        o += ' default ' + (lit(f['default'][0]) if f['type'] in ('text', 'email')
                            else f['default'][0])
    if f['actdel'] != 'none':
        o += ' actdel ' + f['actdel']
    if f['actup'] != 'none':
        o += ' actup ' + f['actup']
    return o + rdoc(f['doc']) + ';'


def rquery(q):
    o = q['kind']
    o += ','.join(' %s%s' % ('.'.join(t['path']),
                             '' if t['op'] == 'eq' and t.get('dflt') else ' ' + t['op'])
                  for t in q['terms'])
    ps = ''
    if q['name']:
        ps += ' name ' + q['name']
    if q['distinct']:
        ps += ' distinct ' + ('.'.join(q['distinct'][0]) or '.')
    if q['group']:
        g = q['group'][0]
        ps += ' grouprow %s %s %s' % ('.'.join(g[0]), g[1], '.'.join(g[2]))
    if q['order']:
        ps += ' order ' + ', '.join('%s %s' % ('.'.join(p), d) for p, d in q['order'])
    if q['limit'] or q['offset']:
        ps += ' limit %d' % (q['limit'] or [0])[0]
        if q['offset']:
            ps += ', %d' % q['offset'][0]
    ps += rdoc(q['doc'])
    return o + (':' + ps if ps else '') + ';'


def rupdate(u):
    o = 'update' + ','.join(' %s %s' % tuple(m) for m in u['mods'])
    tail = (' name ' + u['name'] if u['name'] else '') + rdoc(u['doc'])
    if u['cons'] or tail:
        o += ':' + ','.join(' %s %s' % tuple(m) for m in u['cons'])
    if tail:
        o += ':' + tail
    return o + ';'


def rdelete(u):
    o = 'delete' + ','.join(' %s %s' % tuple(m) for m in u['cons'])
    tail = (' name ' + u['name'] if u['name'] else '') + rdoc(u['doc'])
    if tail:
        o += ':' + tail
    return o + ';'


def rgrant(g):
    return 'roles %s { %s };' % (', '.join(g['roles']),
                                 ' '.join((k + (' ' + n if n else '') + ';') for k, n in g['ops']))


def rstruct(s):
    o = ['struct %s {' % s['name']]
    for f in s['fields']:
        o.append('\t' + rfield(f))
    if s['insert']:
        o.append('\tinsert;')
    o += ['\t' + rquery(x) for x in s['queries']]
    o += ['\t' + rupdate(x) for x in s['updates']]
    o += ['\t' + rdelete(x) for x in s['deletes']]
    o += ['\tunique %s;' % ', '.join(x) for x in s['uniques']]
    if s['doc']:
        o.append('\tcomment %s;' % lit(s['doc'][0]))
    o += ['\t' + rgrant(x) for x in s['grants']]
    o.append('};')
    return '\n'.join(o) + '\n'


def renum(e):
    o = ['enum %s {' % e['name']]
    for i in e['items']:
        o.append('\titem %s%s%s%s;' % (i['name'], ' ' + i['val'][0] if i['val'] else '',
                                       rdoc(i['doc']), rlabels(i['labels'])))
    if e['doc']:
        o.append('\tcomment %s;' % lit(e['doc'][0]))
    if e['isnull']:
        o.append('\tisnull%s;' % rlabels(e['isnull']))
    o.append('};')
    return '\n'.join(o) + '\n'


def rbits(b):
    o = ['bits %s {' % b['name']]
    for i in b['items']:
        o.append('\titem %s %d%s%s;' % (i['name'], i['bit'], rdoc(i['doc']), rlabels(i['labels'])))
    if b['doc']:
        o.append('\tcomment %s;' % lit(b['doc'][0]))
    if b['isunset']:
        o.append('\tisunset%s;' % rlabels(b['isunset']))
    if b['isnull']:
        o.append('\tisnull%s;' % rlabels(b['isnull']))
    o.append('};')
    return '\n'.join(o) + '\n'


def rroles(cfg):
    def sub(parent, ind):
        o = ''
        for r in cfg['roles']:
            if r['parent'] != parent:
                continue
            k = sub(r['name'], ind + '\t')
            o += '%srole %s%s%s;\n' % (ind, r['name'], rdoc(r['doc']),
                                       ' {\n%s%s}' % (k, ind) if k else '')
        return o
    return 'roles {\n%s};\n' % sub('all', '\t')


def pieces(cfg):
    out = [renum(e) for e in cfg['enums']] + [rbits(b) for b in cfg['bits']] + \
        [rstruct(s) for s in cfg['structs']]
    if cfg['hasroles']:
        out.append(rroles(cfg))
    return out


def render(cfg, rng=None):
    ps = pieces(cfg)
    if rng:
        rng.shuffle(ps)
    return ''.join(ps)


def make(seed, **opt):
    g = Gen(random.Random(seed), **opt)
    c = g.gen()
    if g.o['varied']:
        vary(g, c, random.Random('varied %s' % seed))
    return c


def vary(g, c, r):
    """Rarer parameters of queries: of counts, offsets of searches and of queries without limit."""
    for s in c['structs']:
        allp = g.paths(s)
        subs = [x[0] for x in allp if x[1]['type'] == 'struct' and
                not any(g.fof(st, f['src'])['null'] for st, f in chain(g, s, x[0]))]
        for q in s['queries']:
            if any(g.ft(s, t['path'])['type'] == 'password' and t['op'] in ('eq', 'neq')
                   for t in q['terms']):
                continue
            k = q['kind']
            if k == 'count':
                w = r.choice(('', 'distinct', 'distinct', 'limit', 'limit', 'group'))
                if w == 'distinct' and not any(t['op'] in ('streq', 'strneq')
                                               for t in q['terms'] if g.ft(s, t['path'])['type'] == 'password'):
                    q['distinct'] = [r.choice([[]] + subs)]
                elif w == 'group':
                    f = [f for f in s['fields'] if not f['null'] and
                         f['type'] in ('int', 'text', 'epoch', 'date', 'bit', 'real', 'email')]
                    if len(f) >= 2:
                        a, b = r.sample(f, 2)
                        q['group'] = [[[a['name']], r.choice(('maxrow', 'minrow')), [b['name']]]]
                if w == 'limit' or r.random() < .2:
                    q['limit'] = [r.choice((1, 2, 3, 5))]
                if r.random() < (.5 if w == 'limit' else .1):
                    q['offset'] = [r.choice((1, 2))]
            elif k == 'search':
                if r.random() < .35:
                    q['offset'] = [r.choice((1, 1, 2))]
                    if not q['order'] and q['limit'] and r.random() < .5:
                        f = [f for f in s['fields'] if f['type'] not in ('password', 'struct')]
                        q['order'] = [[[r.choice(f)['name']], r.choice(('asc', 'desc'))]]
            elif q['offset'] and r.random() < .5:
                q['limit'] = []
            elif not q['limit'] and not q['offset'] and r.random() < .15:
                q['offset'] = [r.choice((1, 2))]


def chain(g, s, path):
    """The structures and fields that a path goes along."""
    out = []
    for n in path:
        f = g.fof(s, n)
        out.append((s, f))
        if f['type'] == 'struct':
            s = [x for x in g.cfg['structs']
                 if x['name'] == g.fof(s, f['src'])['ref'][0][0]][0]
    return out
