"""Evolution of configurations: seeded edits and respellings, runs of ort-diff and ort-sqldiff,
and their traces in the terms of spec/OrtEvolve.tla."""
import copy, datetime, os, random, re, sqlite3
import vf, backend as B, cfggen, ortparse, schema
from cfggen import lit, rlabels, rdoc


# ------------------------------------------------------------ specification form
def tame(cfg):
    """Real defaults that the specification can represent."""
    for s in cfg['structs']:
        for f in s['fields']:
            if f['type'] == 'real':
                f['default'] = ['0.5' if abs(float(d)) > 2e7 else d for d in f['default']]
    return cfg


def form(cfg):
    """The configuration as spec/OrtForm.tla reads it."""
    c = ortparse.canon(copy.deepcopy(cfg))
    for e in c['enums']:
        for i in e['items']:
            i['num'] = [B.s_int(int(v)) for v in i['val']]
            del i['val']
    for s in c['structs']:
        for f in s['fields']:
            f['defv'] = []
            for d in f['default']:
                t = f['type']
                if t == 'real':
                    f['defv'] = [['r', int(float(d) * 64)]]
                elif t == 'date':
                    y, m, dd = re.match(r'(-?\d+)-(\d+)-(\d+)$', d).groups()
                    f['defv'] = [B.s_int(int((datetime.datetime(int(y), int(m), int(dd)) -
                                              datetime.datetime(1970, 1, 1)).total_seconds()))]
                elif t in ('text', 'email', 'password', 'blob'):
                    f['defv'] = [B.s_text(d)]
                elif t != 'enum':
                    f['defv'] = [B.s_int(int(d))]
    return c


# ------------------------------------------------------------------ edits
def refine(cfg):
    """Remove whatever has lost what it depends on."""
    ename = {e['name']: e for e in cfg['enums'] if e['items']}
    bname = {b['name']: b for b in cfg['bits'] if b['items']}
    while True:
        n = 0
        cfg['enums'] = [e for e in cfg['enums'] if e['name'] in ename]
        cfg['bits'] = [b for b in cfg['bits'] if b['name'] in bname]
        sname = {s['name']: s for s in cfg['structs']}
        for s in cfg['structs']:
            keep = []
            for f in s['fields']:
                if f['type'] == 'enum' and f['aux'] not in ename or \
                        f['type'] == 'bits' and f['aux'] not in bname:
                    n += 1
                    continue
                if f['type'] not in ('enum', 'bits'):
                    f['aux'] = ''
                if f['type'] == 'enum' and f['default'] and \
                        f['default'][0] not in [i['name'] for i in ename[f['aux']]['items']]:
                    f['default'] = []
                if f['ref']:
                    t = sname.get(f['ref'][0][0])
                    g = [g for g in t['fields'] if g['name'] == f['ref'][0][1]] if t else []
                    if not g or not (g[0]['rowid'] or g[0]['unique']) or \
                            g[0]['type'] != f['type'] or f['rowid']:
                        f['ref'] = []
                        n += 1
                if not f['ref']:
                    f['actdel'] = f['actup'] = 'none'
                if not f['null']:
                    for a in ('actdel', 'actup'):
                        if f[a] in ('nullify', 'default'):
                            f[a] = 'none'
                if f['type'] == 'struct':
                    g = [g for g in s['fields'] if g['name'] == f['src'] and g['ref']]
                    if not g or f['ref']:
                        n += 1
                        continue
                keep.append(f)
            s['fields'] = keep
            names = {f['name']: f for f in keep}

            def path(p):
                st = s
                for i, x in enumerate(p):
                    g = [f for f in st['fields'] if f['name'] == x]
                    if not g:
                        return False
                    if i + 1 < len(p):
                        src = [f for f in st['fields'] if f['name'] == g[0]['src']]
                        if g[0]['type'] != 'struct' or not src or src[0]['null'] or \
                                not src[0]['ref'] or src[0]['ref'][0][0] not in sname:
                            return False
                        st = sname[src[0]['ref'][0][0]]
                return True
            for k in ('queries', 'updates', 'deletes'):
                ok = []
                for x in s[k]:
                    if k == 'queries':
                        good = all(path(t['path']) for t in x['terms']) and \
                            all(path(o[0]) for o in x['order']) and \
                            all(path(d) for d in x['distinct']) and \
                            all(path(g[0]) and path(g[2]) for g in x['group'])
                    else:
                        good = all(c[0] in names and names[c[0]]['type'] != 'struct'
                                   for c in x['cons'] + x.get('mods', []))
                    if good:
                        ok.append(x)
                    else:
                        n += 1
                s[k] = ok
            us = []
            for u in s['uniques']:
                if len(set(u)) < 2 or sorted(u) in map(sorted, us) or \
                        any(x not in names or names[x]['type'] == 'struct' for x in u):
                    n += 1
                else:
                    us.append(u)
            s['uniques'] = us
        k = len(cfg['structs'])
        cfg['structs'] = [s for s in cfg['structs']
                          if any(f['type'] != 'struct' for f in s['fields'])]
        n += k - len(cfg['structs'])
        if not n:
            break
    if not cfg['hasroles']:
        cfg['roles'] = []
    rn = {r['name'] for r in cfg['roles']}
    for r in cfg['roles']:
        if r['parent'] not in rn:
            r['parent'] = 'all'
    for s in cfg['structs']:
        have = {('all', ''), ('noexport', '')} | {('noexport', f['name']) for f in s['fields']}
        if s['insert']:
            have.add(('insert', ''))
        for k, kind in (('queries', None), ('updates', 'update'), ('deletes', 'delete')):
            have |= {(kind or x['kind'], x['name']) for x in s[k] if x['name']}
        gs = []
        if cfg['hasroles']:
            seen = set()
            for g in s['grants']:
                g['roles'] = [r for r in g['roles'] if r in rn or r in ('default', 'all')]
                ops = []
                for op in g['ops']:
                    if tuple(op) in have and not any((r, tuple(op)) in seen for r in g['roles']):
                        seen |= {(r, tuple(op)) for r in g['roles']}
                        ops.append(op)
                g['ops'] = ops
                if g['roles'] and g['ops']:
                    gs.append(g)
        s['grants'] = gs
    return cfg


class Editor:
    """Seeded edits of a configuration.  "schema" restricts to edits that concern the database."""

    def __init__(self, rng, schema_only=False, gentle=False, **opt):
        self.r, self.schema, self.gentle = rng, schema_only, gentle
        self.opt = dict(docs=.3, limits=.3, defaults=.5, labels=.3, uniques=.4, safetext=True,
                        maxstruct=3)
        self.opt.update(opt)

    def gen(self, cfg):
        g = cfggen.Gen(self.r, **self.opt)
        g.cfg = cfg
        g.used = {x['name'] for k in ('roles', 'enums', 'bits', 'structs') for x in cfg[k]}
        g.used |= {i['name'] for k in ('enums', 'bits') for e in cfg[k] for i in e['items']}
        return g

    def edit(self, cfg, n=1):
        """A new configuration, n edits away, and the names of the edits."""
        c = copy.deepcopy(cfg)
        did = []
        tries = 0
        while len(did) < n and tries < 60:
            tries += 1
            names = [m for m in dir(self) if m.startswith('e_')]
            if self.schema:
                names = [m for m in names if m not in SHALLOW]
            if self.gentle:
                names = [m for m in names if m in GENTLE] + ['e_field_add', 'e_field_add']
            m = self.r.choice(names)
            if getattr(self, m)(c):
                did.append(m[2:])
                refine(c)
        return tame(refine(c)), did

    # -- choosing
    def any(self, xs):
        return self.r.choice(xs) if xs else None

    def st(self, c):
        return self.any(c['structs'])

    def fld(self, c, pred=lambda f: True):
        return self.any([(s, f) for s in c['structs'] for f in s['fields'] if pred(f)]) or \
            (None, None)

    def redoc(self, x):
        x['doc'] = [] if x['doc'] and self.r.random() < .4 else \
            [self.r.choice(('other words', 'some more', 'new\nlines', 'a \\"quote\\"')) +
             str(self.r.randrange(9))]
        return True

    def relabel(self, ls):
        r = self.r
        k = r.random()
        if ls and k < .4:
            ls.pop(r.randrange(len(ls)))
        elif ls and k < .7:
            ls[r.randrange(len(ls))][1] += 'z'
        else:
            free = [x for x in ('', 'fr', 'de', 'nl') if x not in [y[0] for y in ls]]
            if not free:
                return False
            ls.insert(r.randrange(len(ls) + 1), [r.choice(free), 'label%d' % r.randrange(99)])
        return True

    def shuffle(self, xs):
        if len(xs) < 2:
            return False
        i = self.r.randrange(len(xs))
        xs.insert(self.r.randrange(len(xs)), xs.pop(i))
        return True

    # -- enumerations and bitfields
    def e_enum_add(self, c):
        c['enums'].insert(self.r.randrange(len(c['enums']) + 1), self.gen(c).enum())
        return True

    def e_enum_del(self, c):
        return bool(c['enums']) and [c['enums'].pop(self.r.randrange(len(c['enums'])))]

    def e_enum_doc(self, c):
        e = self.any(c['enums'] + c['bits'])
        return e and self.redoc(e)

    def e_enum_null(self, c):
        e = self.any(c['enums'] + c['bits'])
        return e and self.relabel(e[self.r.choice(['isnull'] + ['isunset'] * ('isunset' in e))])

    def e_item_add(self, c):
        e = self.any(c['enums'])
        if not e:
            return False
        names = [i['name'] for i in e['items']]
        vals = [i['val'][0] for i in e['items'] if i['val']]
        new = [i for i in self.gen(c).enum()['items']
               if i['name'] not in names and not (i['val'] and i['val'][0] in vals)]
        if new:
            e['items'].insert(self.r.randrange(len(e['items']) + 1), new[0])
        return bool(new)

    def e_item_add_last(self, c):
        """Without any effect on the values of the others."""
        e = self.any(c['enums'])
        if not e:
            return False
        g = self.gen(c)
        e['items'].append(dict(name=g.name(), val=[], doc=g.doc(), labels=g.labels()))
        return True

    def e_item_del(self, c):
        e = self.any([x for x in c['enums'] + c['bits'] if len(x['items']) > 1])
        return e and [e['items'].pop(self.r.randrange(len(e['items'])))]

    def e_item_value(self, c):
        e = self.any(c['enums'])
        if not e:
            return False
        i = self.any(e['items'])
        v = [] if i['val'] and self.r.random() < .3 else [str(self.r.randint(-9, 60))]
        if v and v in [x['val'] for x in e['items']]:
            return False
        i['val'] = v
        return True

    def e_item_explicit(self, c):
        """Spell out the value that an item has anyway, or the reverse where possible."""
        e = self.any(c['enums'])
        if not e:
            return False
        vals = enumvals(e)
        k = self.r.randrange(len(e['items']))
        e['items'][k]['val'] = [str(vals[k])]
        return True

    def e_item_rename(self, c):
        e = self.any(c['enums'] + c['bits'])
        if not e:
            return False
        self.any(e['items'])['name'] = self.gen(c).name()
        return True

    def e_item_doc(self, c):
        e = self.any(c['enums'] + c['bits'])
        return e and self.redoc(self.any(e['items']))

    def e_item_label(self, c):
        e = self.any(c['enums'] + c['bits'])
        return e and self.relabel(self.any(e['items'])['labels'])

    def e_item_move(self, c):
        e = self.any(c['enums'] + c['bits'])
        return e and self.shuffle(e['items'])

    def e_bits_add(self, c):
        c['bits'].append(self.gen(c).bitf())
        return True

    def e_bits_del(self, c):
        return bool(c['bits']) and [c['bits'].pop(self.r.randrange(len(c['bits'])))]

    def e_bit_add(self, c):
        b = self.any(c['bits'])
        if not b:
            return False
        g = self.gen(c)
        free = [x for x in range(64) if x not in [i['bit'] for i in b['items']]]
        b['items'].append(dict(name=g.name(), bit=self.r.choice(free), doc=g.doc(),
                               labels=g.labels()))
        return True

    def e_bit_value(self, c):
        b = self.any(c['bits'])
        if not b:
            return False
        free = [x for x in range(64) if x not in [i['bit'] for i in b['items']]]
        self.any(b['items'])['bit'] = self.r.choice(free)
        return True

    # -- roles
    def e_roles_toggle(self, c):
        if self.r.random() < .6:
            return False
        if c['hasroles']:
            c['hasroles'] = 0
        else:
            c['hasroles'] = 1
            g = self.gen(c)
            c['roles'] = [dict(name=g.name('role'), parent='all', doc=[])]
        return True

    def e_role_add(self, c):
        if not c['hasroles']:
            return False
        g = self.gen(c)
        par = self.r.choice(['all'] + [r['name'] for r in c['roles']])
        c['roles'].append(dict(name=g.name('role'), parent=par, doc=g.doc()))
        return True

    def e_role_del(self, c):
        r = self.any(c['roles'])
        if not r:
            return False
        c['roles'].remove(r)
        for x in c['roles']:
            if x['parent'] == r['name']:
                x['parent'] = r['parent']
        return True

    def e_role_move(self, c):
        r = self.any(c['roles'])
        if not r:
            return False
        below = {r['name']}
        while True:
            more = {x['name'] for x in c['roles'] if x['parent'] in below} - below
            if not more:
                break
            below |= more
        to = [p for p in ['all'] + [x['name'] for x in c['roles']]
              if p not in below and p != r['parent']]
        if not to:
            return False
        r['parent'] = self.r.choice(to)
        return True

    def e_role_doc(self, c):
        r = self.any(c['roles'])
        return r and self.redoc(r)

    # -- structures and fields
    def e_struct_add(self, c):
        g = self.gen(c)
        s = g.struct()
        c['structs'].insert(self.r.randrange(len(c['structs']) + 1), s)
        g.ops(s)
        if c['hasroles']:
            g.grants(s)
        return True

    def e_struct_del(self, c):
        return len(c['structs']) > 1 and \
            [c['structs'].pop(self.r.randrange(len(c['structs'])))]

    def e_struct_doc(self, c):
        s = self.st(c)
        return s and self.redoc(s)

    def e_struct_rename(self, c):
        s = self.st(c)
        if not s:
            return False
        s['name'] = self.gen(c).name()
        return True

    def e_field_add(self, c):
        s = self.st(c)
        if not s:
            return False
        g = self.gen(c)
        t = g.struct()
        have = [f['name'] for f in s['fields']]
        new = [f for f in t['fields'] if f['name'] not in have and f['type'] != 'struct' and
               not (f['ref'] and f['ref'][0][0] == t['name'])]
        if any(f['rowid'] for f in s['fields']) or self.r.random() < .8:
            new = [f for f in new if not f['rowid']]
        f = self.any(new)
        if f:
            if f['ref'] and self.r.random() < .7:
                f['default'] = []
            s['fields'].insert(self.r.randrange(len(s['fields']) + 1), f)
            if f['ref'] and self.r.random() < .4 and f['name'] + 'obj' not in have:
                s['fields'].append(g.newfield(f['name'] + 'obj', 'struct', src=f['name']))
        return bool(f)

    def e_field_del(self, c):
        s = self.any([s for s in c['structs'] if len(s['fields']) > 1])
        return s and [s['fields'].pop(self.r.randrange(len(s['fields'])))]

    def e_field_move(self, c):
        s = self.st(c)
        return s and self.shuffle(s['fields'])

    def e_field_flag(self, c):
        s, f = self.fld(c)
        if not f:
            return False
        k = self.r.choice(('null', 'unique', 'noexport', 'rowid'))
        if f['rowid'] and k in ('null', 'unique'):
            return False
        if f['type'] == 'struct':
            k = 'noexport'
        if k == 'rowid':
            if f['type'] != 'int' or (not f['rowid'] and any(g['rowid'] for g in s['fields'])):
                return False
            f['null'] = f['unique'] = 0
            f['ref'] = []
            if not f['rowid']:
                f['default'] = []
        f[k] = 1 - f[k]
        return True

    def e_field_unique(self, c):
        s, f = self.fld(c, lambda f: f['type'] != 'struct' and not f['rowid'])
        if f:
            f['unique'] = 1 - f['unique']
        return bool(f)

    def e_field_type(self, c):
        s, f = self.fld(c, lambda f: f['type'] != 'struct' and not f['rowid'])
        if not f:
            return False
        g = self.gen(c)
        t = self.r.choice([t for t in g.types() if t != f['type']] or ['int'])
        f.update(type=t, aux='', default=[], limits=[] if self.r.random() < .7 else f['limits'])
        if t == 'enum':
            f['aux'] = self.r.choice(c['enums'])['name']
        if t == 'bits':
            f['aux'] = self.r.choice(c['bits'])['name']
        return True

    def e_field_aux(self, c):
        s, f = self.fld(c, lambda f: f['aux'])
        if not f:
            return False
        xs = [x['name'] for x in c['enums' if f['type'] == 'enum' else 'bits']
              if x['name'] != f['aux']]
        if not xs:
            return False
        f['aux'] = self.r.choice(xs)
        return True

    def e_field_default(self, c):
        s, f = self.fld(c, lambda f: f['type'] not in ('struct', 'blob', 'password') and
                        not f['rowid'])
        if not f:
            return False
        d = self.gen(c).default(f)
        f['default'] = [] if d is None or (f['default'] and self.r.random() < .4) else [d]
        return True

    def e_field_limit(self, c):
        s, f = self.fld(c, lambda f: f['type'] not in ('struct', 'enum', 'bits', 'bit', 'date'))
        if not f:
            return False
        if f['limits'] and self.r.random() < .4:
            f['limits'].pop(self.r.randrange(len(f['limits'])))
        elif f['limits'] and self.r.random() < .3:
            return self.shuffle(f['limits'])
        else:
            op = self.r.choice(('ge', 'le', 'gt', 'lt', 'eq'))
            v = str(self.r.randrange(0, 99)) + ('.5' if f['type'] == 'real' else '')
            if [op, v] in f['limits']:
                return False
            f['limits'].append([op, v])
        return True

    def e_field_doc(self, c):
        s, f = self.fld(c)
        return f and self.redoc(f)

    def e_field_action(self, c):
        s, f = self.fld(c, lambda f: f['ref'])
        if not f:
            return False
        f[self.r.choice(('actdel', 'actup'))] = self.r.choice(
            ['none', 'restrict', 'cascade'] + ['nullify', 'default'] * f['null'])
        return True

    def e_field_ref(self, c):
        s, f = self.fld(c, lambda f: f['type'] != 'struct' and not f['rowid'])
        if not f:
            return False
        if f['ref'] and self.r.random() < .3:
            f['ref'] = []
            return True
        ts = [[t['name'], g['name']] for t in c['structs'] for g in t['fields']
              if (g['rowid'] or g['unique']) and g['type'] == f['type'] and g['aux'] == f['aux']
              and g is not f and g['type'] not in ('real', 'password')]
        if not ts:
            return False
        f['ref'] = [self.r.choice(ts)]
        return True

    def e_unique(self, c):
        s = self.st(c)
        if not s:
            return False
        if s['uniques'] and self.r.random() < .5:
            s['uniques'].pop(self.r.randrange(len(s['uniques'])))
            return True
        fs = [f['name'] for f in s['fields'] if f['type'] != 'struct']
        if len(fs) < 2:
            return False
        u = self.r.sample(fs, min(len(fs), self.r.choice((2, 2, 3))))
        if sorted(u) in map(sorted, s['uniques']):
            return False
        s['uniques'].append(u)
        return True

    # -- operations and permissions
    def e_insert(self, c):
        s = self.st(c)
        if s:
            s['insert'] = 1 - s['insert']
        return bool(s)

    def e_op_add(self, c):
        s = self.st(c)
        if not s:
            return False
        t = copy.deepcopy(s)
        t.update(queries=[], updates=[], deletes=[])
        g = self.gen(c)
        g.ops(t)
        k = self.r.choice(('queries', 'queries', 'updates', 'deletes'))
        if not t[k]:
            return False
        x = t[k][0]
        if any(opkey(k, x) == opkey(k, y) for y in s[k]):
            return False
        if x['name'] and x['name'] in [y['name'] for y in s['queries'] + s['updates'] +
                                       s['deletes']]:
            return False
        s[k].insert(self.r.randrange(len(s[k]) + 1), x)
        return True

    def op(self, c, kinds=('queries', 'updates', 'deletes')):
        return self.any([(s, k, x) for s in c['structs'] for k in kinds for x in s[k]]) or \
            (None, None, None)

    def e_op_del(self, c):
        s, k, x = self.op(c)
        return x and (s[k].remove(x) or True)

    def e_op_doc(self, c):
        s, k, x = self.op(c)
        return x and self.redoc(x)

    def e_op_rename(self, c):
        s, k, x = self.op(c)
        if not x:
            return False
        n = 'op%d' % self.r.randrange(1000)
        if x['name'] and self.r.random() < .3:
            n = ''
        old = (x.get('kind') or k[:-1], x['name'])
        x['name'] = n
        for g in s['grants']:
            for op in g['ops']:
                if tuple(op) == old and old[1] and n:
                    op[1] = n
        ks = [opkey(k, y) for y in s[k]]
        return len(set(ks)) == len(ks)

    def e_op_kind(self, c):
        s, k, x = self.op(c, ('queries',))
        if not x:
            return False
        x['kind'] = self.r.choice(('list', 'iterate', 'search', 'count'))
        ks = [opkey(k, y) for y in s[k]]
        return len(set(ks)) == len(ks)

    def e_op_change(self, c):
        """Take another operation's make-up."""
        s, k, x = self.op(c)
        if not x:
            return False
        t = copy.deepcopy(s)
        t.update(queries=[], updates=[], deletes=[])
        g = self.gen(c)
        g.ops(t)
        ys = [y for y in t[k] if y.get('kind') == x.get('kind')]
        if not ys:
            return False
        y = self.r.choice(ys)
        part = self.r.choice([p for p in ('terms', 'order', 'limit', 'offset', 'distinct', 'group',
                                          'mods', 'cons') if p in x])
        if x[part] == y[part]:
            return False
        x[part] = y[part]
        if part == 'limit' and not x['limit']:
            x['offset'] = []
        if part == 'offset' and x['offset'] and not x['limit']:
            return False
        ks = [opkey(k, y) for y in s[k]]
        return len(set(ks)) == len(ks)

    def e_op_tweak(self, c):
        s, k, x = self.op(c)
        if not x:
            return False
        r = self.r
        if k == 'queries':
            w = r.choice(('op', 'order', 'dir', 'limit', 'offset', 'terms', 'orders', 'distinct'))
            if w == 'op' and x['terms']:
                t = r.choice(x['terms'])
                t['op'] = r.choice(('eq', 'neq', 'lt', 'ge', 'isnull', 'notnull'))
            elif w == 'dir' and x['order']:
                o = r.choice(x['order'])
                o[1] = 'desc' if o[1] == 'asc' else 'asc'
            elif w == 'limit':
                x['limit'] = [r.randint(1, 9)]
            elif w == 'offset' and x['limit']:
                x['offset'] = [r.randint(1, 9)]
            elif w == 'terms':
                return self.shuffle(x['terms'])
            elif w == 'orders':
                return self.shuffle(x['order'])
            elif w == 'distinct' and x['distinct']:
                x['distinct'] = []
            else:
                return False
        else:
            w = r.choice(['cons', 'shuffle'] + ['mods', 'order', 'all'] * ('mods' in x))
            if w == 'cons' and x['cons']:
                r.choice(x['cons'])[1] = r.choice(('eq', 'neq', 'lt', 'ge', 'isnull', 'notnull'))
            elif w == 'shuffle':
                return self.shuffle(x['cons'])
            elif w == 'mods' and x.get('mods'):
                r.choice(x['mods'])[1] = r.choice(('set', 'inc', 'dec', 'concat', 'strset'))
            elif w == 'order':
                return self.shuffle(x['mods'])
            elif w == 'all':
                if x['mods']:
                    x['mods'] = []
                else:
                    x['mods'] = [[f['name'], 'set'] for f in s['fields']
                                 if f['type'] != 'struct' and not f['rowid']]
            else:
                return False
        ks = [opkey(k, y) for y in s[k]]
        return len(set(ks)) == len(ks)

    def e_op_move(self, c):
        s = self.st(c)
        return s and self.shuffle(s[self.r.choice(('queries', 'updates', 'deletes'))])

    def e_grant(self, c):
        s = self.st(c)
        if not s or not c['hasroles']:
            return False
        if s['grants'] and self.r.random() < .5:
            g = self.r.choice(s['grants'])
            if self.r.random() < .5:
                g['ops'].pop(self.r.randrange(len(g['ops'])))
            else:
                g['roles'].pop(self.r.randrange(len(g['roles'])))
            return True
        t = copy.deepcopy(s)
        t['grants'] = []
        self.gen(c).grants(t)
        s['grants'] += t['grants']
        return bool(t['grants'])


SHALLOW = {'e_enum_doc', 'e_enum_null', 'e_item_doc', 'e_item_label', 'e_struct_doc', 'e_field_doc',
           'e_op_add', 'e_op_del', 'e_op_doc', 'e_op_rename', 'e_op_kind', 'e_op_change',
           'e_op_tweak', 'e_op_move', 'e_grant', 'e_insert', 'e_role_add', 'e_role_del',
           'e_role_move', 'e_role_doc', 'e_roles_toggle'}
GENTLE = {'e_enum_add', 'e_item_add_last', 'e_item_explicit', 'e_bits_add', 'e_bit_add',
          'e_struct_add', 'e_field_add', 'e_field_move', 'e_field_unique', 'e_field_default',
          'e_field_limit', 'e_unique', 'e_item_move'}


def opkey(k, x):
    """Operations that ort takes for the same one."""
    if x['name']:
        return 'name', x['name']
    if k == 'queries':
        return x['kind'], tuple((tuple(t['path']), t['op']) for t in x['terms'])
    return tuple(map(tuple, x.get('mods', []))), tuple(map(tuple, x['cons']))


def enumvals(e):
    """As OrtForm!ItemValue."""
    ex = [int(i['val'][0]) for i in e['items'] if i['val']]
    n = max(max(ex) + 1, 0) if ex else 0
    out = []
    for i in e['items']:
        if i['val']:
            out.append(int(i['val'][0]))
        else:
            out.append(n)
            n += 1
    return out


# ------------------------------------------------------------- respelling
def respell(cfg, rng, nfiles=1):
    """Documents that declare the same as cfg: [(text)], one per file."""
    r = rng
    c = copy.deepcopy(cfg)
    for e in c['enums'] + c['bits']:
        for x in [e] + e['items']:
            for k in ('labels', 'isnull', 'isunset'):
                if k in x:
                    r.shuffle(x[k])
    r.shuffle(c['roles'])

    def ws(s):
        """Blanks and comments between words of a generated line, outside literals."""
        out = []
        for part in re.split(r'("(?:[^"\\]|\\.)*")', s):
            if part.startswith('"'):
                out.append(part)
                continue
            o = ''
            for ch in part:
                if ch == ' ' and r.random() < .06:
                    o += r.choice(('  ', '\t', '\n', ' # a "comment;\n', '\n\n\t'))
                elif ch in ';{}' and r.random() < .05:
                    o += r.choice((' ' + ch, ch + ' ', '\n' + ch))
                elif r.random() < .04:
                    o += ch.upper()
                else:
                    o += ch
            out.append(o)
        return ''.join(out)

    def field(f):
        parts = []
        if f['rowid']:
            parts.append('rowid')
        if f['null']:
            parts.append('null')
        if f['unique']:
            parts.append('unique')
        if f['noexport']:
            parts.append('noexport')
        parts += ['limit %s %s' % tuple(x) for x in f['limits']]
        if f['default']:
            parts.append('default ' + (lit(f['default'][0]) if f['type'] in ('text', 'email')
                                       else f['default'][0]))
        for a in ('actdel', 'actup'):
            if f[a] != 'none' or r.random() < .0:
                parts.append(a + ' ' + f[a])
        if f['doc']:
            parts.append('comment ' + lit(f['doc'][0]))
        r.shuffle(parts)
        o = 'field %s' % f['name']
        if f['ref']:
            o += ':%s.%s' % tuple(f['ref'][0])
        t = f['type']
        if t == 'struct':
            o += ' struct ' + f['src']
        else:
            al = {'int': ('int', 'integer'), 'text': ('text', 'txt'),
                  'bits': ('bits', 'bitfield')}.get(t, (t,))
            if not (t == 'int' and not parts and r.random() < .5):
                o += ' ' + r.choice(al)
            if f['aux']:
                o += ' ' + f['aux']
        return o + ''.join(' ' + p for p in parts) + ';'

    def query(q):
        o = q['kind']
        o += ','.join(' %s%s' % ('.'.join(t['path']), '' if t['op'] == 'eq' and r.random() < .5
                                 else ' ' + t['op']) for t in q['terms'])
        ps = []
        if q['name']:
            ps.append('name ' + q['name'])
        if q['distinct']:
            ps.append('distinct ' + ('.'.join(q['distinct'][0]) or '.'))
        if q['group']:
            g = q['group'][0]
            ps += ['grouprow ' + '.'.join(g[0]), '%s %s' % (g[1], '.'.join(g[2]))]
        if q['order']:
            ps.append('order ' + ', '.join('.'.join(p) + ('' if d == 'asc' and r.random() < .5
                                                          else ' ' + d) for p, d in q['order']))
        if q['limit'] or q['offset']:
            ps.append('limit %d' % (q['limit'] or [0])[0] + (', %d' % q['offset'][0] if q['offset'] else ''))
        if q['doc']:
            ps.append('comment ' + lit(q['doc'][0]))
        r.shuffle(ps)
        return o + (': ' + ' '.join(ps) if ps else '') + ';'

    def refs(xs, dflt):
        return ','.join(' %s%s' % (a, '' if b == dflt and r.random() < .5 else ' ' + b)
                        for a, b in xs)

    def tail(u):
        ps = (['name ' + u['name']] if u['name'] else []) + \
            (['comment ' + lit(u['doc'][0])] if u['doc'] else [])
        r.shuffle(ps)
        return ' ' + ' '.join(ps) if ps else ''

    def update(u):
        t = tail(u)
        o = 'update' + refs(u['mods'], 'set')
        if u['cons'] or t:
            o += ':' + refs(u['cons'], 'eq')
        return o + (':' + t if t else '') + ';'

    def delete(u):
        t = tail(u)
        return 'delete' + refs(u['cons'], 'eq') + (':' + t if t else '') + ';'

    def grants(gs):
        out = []
        for g in gs:
            k = r.random()
            if k < .25 and len(g['roles']) > 1:
                out += [dict(roles=[x], ops=list(g['ops'])) for x in g['roles']]
            elif k < .5 and len(g['ops']) > 1:
                out += [dict(roles=list(g['roles']), ops=[x]) for x in g['ops']]
            else:
                out.append(copy.deepcopy(g))
        for g in out:
            r.shuffle(g['roles'])
            r.shuffle(g['ops'])
        return out

    def merge(*seqs):
        """A random interleaving that keeps the order within each sequence."""
        seqs = [list(s) for s in seqs if s]
        out = []
        while seqs:
            s = r.choices(seqs, [len(s) for s in seqs])[0]
            out.append(s.pop(0))
            seqs = [s for s in seqs if s]
        return out

    ps = []
    for s in c['structs']:
        uq = list(s['uniques'])
        r.shuffle(uq)
        uq = [r.sample(u, len(u)) for u in uq]
        ls = merge([field(f) for f in s['fields']], [query(q) for q in s['queries']],
                   [update(u) for u in s['updates']], [delete(u) for u in s['deletes']],
                   ['insert;'] * s['insert'], ['unique %s;' % ', '.join(u) for u in uq],
                   ['comment %s;' % lit(d) for d in s['doc']],
                   [cfggen.rgrant(g) for g in grants(s['grants'])])
        ps.append('struct %s {\n%s};\n' % (s['name'], ''.join('\t%s\n' % l for l in ls)))

    def itemtail(i):
        xs = ([rdoc(i['doc'])] if i['doc'] else []) + [rlabels([l]) for l in i['labels']]
        r.shuffle(xs)
        return ''.join(xs)
    for kind, key in (('enum', 'enums'), ('bits', 'bits')):
        for e in c[key]:
            its = ['item %s%s%s;' % (i['name'], (' ' + i['val'][0] if i['val'] else '')
                                     if kind == 'enum' else ' %d' % i['bit'], itemtail(i))
                   for i in e['items']]
            rest = ['comment %s;' % lit(d) for d in e['doc']]
            for k in ('isnull', 'isunset'):
                if e.get(k):
                    rest.append('%s%s;' % (k, rlabels(e[k])))
            r.shuffle(rest)
            kw = r.choice(('bits', 'bitfield')) if kind == 'bits' else kind
            ps.append('%s %s {\n%s};\n' % (kw, e['name'],
                                           ''.join('\t%s\n' % l for l in merge(its, rest))))
    if c['hasroles']:
        ps.append(cfggen.rroles(c))
    r.shuffle(ps)
    docs = [[] for _ in range(max(1, nfiles))]
    for p in ps:
        r.choice(docs).append(ws(p))
    return [''.join(d) for d in docs]


# --------------------------------------------------------------- ort-diff
LINE = re.compile(r'^(\+|-|@@|!| ) ?(.*?)$')
POS = r'(\S+?):(\d+):(\d+)'


def read_diff(out, at):
    """Entries <<sign, kind, detail, old id, new id>> of a report, or a string saying what is wrong
    with it.  "at" finds the declaration at a place."""
    lines = out.split('\n')
    if lines[-1] != '' or not re.match(r'(--- \S+\n)+(\+\+\+ \S+\n)+', out):
        return 'no header or not ended: %r' % out[:100]
    es = []
    head = True
    for l in lines[:-1]:
        head = head and bool(re.match(r'(---|\+\+\+) ', l))
        if head:
            continue
        if re.match(r'@@ (roles|enumerations|bitfields|strcts) @@$', l):
            continue
        m = re.match(r'([+-]) (\S+) %s$' % POS, l)
        if m:
            p = at(m.group(3), int(m.group(4)), int(m.group(5)), m.group(1) == '+')
            e = [m.group(1), m.group(2), '', p if m.group(1) == '-' else '',
                 p if m.group(1) == '+' else '']
        else:
            m = re.match(r'(@@ |  )(\S+) %s -> %s( @@)?$' % (POS, POS), l)
            if m and (m.group(1) == '@@ ') == bool(m.group(9)):
                e = ['@' if m.group(9) else '=', m.group(2), ''] + \
                    [at(m.group(3), int(m.group(4)), int(m.group(5)), False),
                     at(m.group(6), int(m.group(7)), int(m.group(8)), True)]
            else:
                m = re.match(r'! (\S+) (\S+) %s -> %s$' % (POS, POS), l)
                if not m:
                    return 'line %r' % l
                e = ['!', m.group(1), m.group(2),
                     at(m.group(3), int(m.group(4)), int(m.group(5)), False),
                     at(m.group(6), int(m.group(7)), int(m.group(8)), True)]
        if e in es:
            return 'twice: %r' % l
        es.append(e)
    return es


def write_docs(d, base, docs):
    out = []
    for i, t in enumerate(docs):
        p = os.path.join(d, '%s%d.ort' % (base, i))
        with open(p, 'w', encoding='utf-8', newline='') as f:
            f.write(t)
        out.append(p)
    return out


def two(old, new):
    """Arguments naming old and new configurations."""
    if len(old) == 1 and len(new) == 1:
        return [old[0], new[0]]
    return old + ['-f'] + new


def invoke(tool, old, new, stdin):
    """Run a tool on old and new configurations; stdin: 'old' or 'new' for the one that is read
    from standard input, or ''."""
    inp = None
    if stdin:
        inp = open((old if stdin == 'old' else new)[0], encoding='utf-8', newline='').read()
    args = ['-f'] + new if stdin == 'old' else old + ['-f'] * (len(old) > 1) if stdin == 'new' \
        else two(old, new)
    return vf.run([vf.tool(tool[0])] + tool[1:] + args, inp)


def compare(old, new, stdin=''):
    """Run ort-diff on two lists of files: (status, entries or message, raw output)."""
    rc, out, err = invoke(['ort-diff'], old, new, stdin)
    if rc not in (0, 1):
        return rc, 'exit status %s: %s' % (rc, err[-300:]), out
    rd = lambda fs, si: ortparse.parse_pos(*[
        ('<stdin>' if si else f, open(f, encoding='utf-8', newline='').read()) for f in fs])[1]
    oat, nat = rd(old, stdin == 'old'), rd(new, stdin == 'new')
    return rc, read_diff(out, lambda f, l, c, new: (nat if new else oat)(f, l, c)), out


def accepted(files):
    rc, out, err = vf.run([vf.tool('ort')] + files)
    return rc == 0, err


# ------------------------------------------------------------- ort-sqldiff
def dump(path):
    """Contents of every table: [table -> [[rowid, {column: value}]]]."""
    c = sqlite3.connect(path)
    c.text_factory = Text
    try:
        out = {}
        for (t,) in list(c.execute("SELECT name FROM sqlite_master WHERE type='table' AND "
                                   "name NOT LIKE 'sqlite_%'")):
            t = t.decode()
            cols = [r[1].decode() for r in c.execute('PRAGMA table_info("%s")' % t)]
            rows = []
            for r in c.execute('SELECT rowid, %s FROM "%s" ORDER BY rowid' % (
                    ', '.join('"%s"' % x for x in cols), t)):
                rows.append([B.s_int(r[0]), dict(zip(cols, map(value, r[1:])))])
            out[t] = rows
        return out
    finally:
        c.close()


class Text(bytes):
    pass


def value(v):
    if v is None:
        return ['null']
    if isinstance(v, int):
        return B.s_int(v)
    if isinstance(v, float):
        k = v * 64
        return ['r', int(k)] if k == int(k) and abs(k) < 2 ** 31 else ['x', [ord(c) for c in repr(v)]]
    if isinstance(v, Text):
        try:
            return ['t', [ord(c) for c in v.decode('utf-8')]]
        except UnicodeDecodeError:
            return ['x', list(v)]
    return ['b', list(v)]


def catalogue(path):
    cat = schema.catalogue(path, [])
    for t in cat.values():
        # default values are no part of the schema in this comparison
        t['cols'] = [[c[0], c[1].split(' default ')[0], c[2], c[3]] for c in t['cols']]
    return cat


def sqldiff(old, new, destruct, stdin=''):
    return invoke(['ort-sqldiff'] + ['-d'] * destruct, old, new, stdin)


def apply_sql(path, sql):
    """Run a migration the way the sqlite3 shell with -bail does: 'ok' or 'fail' and why."""
    c = sqlite3.connect(path, isolation_level=None)
    try:
        c.executescript(sql)
        return 'ok', ''
    except sqlite3.Error as x:
        return 'fail', str(x)
    finally:
        c.close()


def statements(sql):
    """Is anything there to be executed?"""
    s = re.sub(r'(?m)--.*$', '', sql)
    return [x.strip() for x in s.split(';') if x.strip() and not x.strip().upper().startswith('PRAGMA')]


class Chain:
    """A database brought through a sequence of configurations."""

    def __init__(self, seed, d, gentle=.6, steps=5, opt=None):
        self.rng = random.Random(seed)
        self.seed, self.d, self.gentle, self.steps = seed, d, gentle, steps
        self.opt = opt or {}
        self.cfgs, self.files, self.evs, self.raw = [], [], [], []
        self.db = os.path.join(d, 'a.db')
        self.did = []

    def add(self, cfg, docs):
        f = write_docs(self.d, 'c%d.' % len(self.cfgs), docs)
        if not accepted(f)[0]:
            return None
        self.cfgs.append(cfg)
        self.files.append(f)
        return len(self.cfgs) - 1

    def ev(self, raw='', **e):
        self.evs.append(e)
        self.raw.append(raw)

    def fill(self, cfg, n):
        p = schema.Prober(cfg, self.rng, self.db)
        try:
            for _ in range(n):
                p.event(dump=False)
        finally:
            p.close()
        self.ev(k='fill', rows=dump(self.db))

    def run(self):
        r = self.rng
        base = tame(cfggen.make(self.seed, **self.opt))
        cur = self.add(base, [cfggen.render(base, r)])
        if cur is None:
            return False
        B.newdb(self.files[0][0], self.db)
        self.ev(k='create', cat=catalogue(self.db))
        self.fill(base, r.choice((0, 12, 25)))
        for _ in range(self.steps):
            self.evolve(cur)
            if self.evs[-1].get('end'):
                break
            if self.evs[-1]['k'] == 'migrate':
                cur = len(self.cfgs) - 1
                self.fill(self.cfgs[cur], r.choice((0, 6, 12)))
        for e in self.evs:
            e.pop('end', None)
        return True

    def evolve(self, cur):
        r = self.rng
        gentle = r.random() < self.gentle
        ed = Editor(r, schema_only=True, gentle=gentle, **dict(
            {k: v for k, v in self.opt.items() if k not in ('roles', 'maxq')}, maxq=1, maxupd=0,
            maxdel=0))
        for _ in range(8):
            if r.random() < .12:
                c, did = copy.deepcopy(self.cfgs[cur]), ['respell']
            else:
                c, did = ed.edit(self.cfgs[cur], r.choice((1, 1, 2, 3)))
            to = self.add(c, respell(c, r, r.choice((1, 1, 2))))
            if to is not None:
                break
        else:
            self.ev(k='fill', rows=dump(self.db), end=1)
            return
        self.did.append(did)
        destruct = int(r.random() < .3)
        stdin = r.choice((['old'] if len(self.files[cur]) == 1 else []) +
                         (['new'] if len(self.files[to]) == 1 else []) + [''] * 4)
        rc, sql, err = sqldiff(self.files[cur], self.files[to], destruct, stdin)
        raw = dict(old=[open(x).read() for x in self.files[cur]],
                   new=[open(x).read() for x in self.files[to]], destruct=destruct, status=rc,
                   sql=sql, err=err)
        if rc != 0:
            # nothing may come out of a failed run that a careless user might execute
            self.ev(raw, k='sqldiff', to=to, destruct=destruct,
                    status=rc if isinstance(rc, int) and not statements(sql) else 99)
            return
        done, why = apply_sql(self.db, sql)
        raw['applied'] = why
        removed = bool(statements_removing(self.cfgs[cur], c))
        self.ev(raw, k='migrate', to=to, destruct=destruct, status=rc,
                empty=int(not statements(sql)), done=done, cat=catalogue(self.db),
                rows=dump(self.db), end=int(done != 'ok' or removed))


def statements_removing(a, b):
    """Columns and tables that are no longer declared (and remain as they are)."""
    sb = {s['name']: s for s in b['structs']}
    return [(s['name'], f['name']) for s in a['structs'] for f in s['fields']
            if f['type'] != 'struct' and (s['name'] not in sb or f['name'] not in
                                          [g['name'] for g in sb[s['name']]['fields']])]
