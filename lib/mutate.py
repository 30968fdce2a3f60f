"""Small changes to documents, of which some make them ill-formed."""
import re
import ortparse, declared

OPS = ['eq', 'ge', 'gt', 'le', 'lt', 'neq', 'like', 'and', 'or', 'streq', 'strneq', 'isnull',
       'notnull']
MODS = ['set', 'inc', 'dec', 'concat', 'strset']
TYPES = ['bit', 'bits', 'bitfield', 'blob', 'date', 'double', 'email', 'enum', 'epoch', 'int',
         'integer', 'passwd', 'password', 'real', 'struct', 'text', 'txt']
ACTS = ['none', 'restrict', 'nullify', 'cascade', 'default']
FLAGS = ['null', 'unique', 'rowid', 'noexport']
KINDS = ['search', 'list', 'iterate', 'count']
STMTS = KINDS + ['update', 'delete', 'insert', 'unique', 'roles', 'field', 'comment']
TOPS = ['struct', 'enum', 'bits', 'bitfield', 'roles']
OTHER = ['name', 'limit', 'order', 'distinct', 'grouprow', 'maxrow', 'minrow', 'asc', 'desc',
         'actdel', 'actup', 'jslabel', 'isnull', 'isunset', 'unset', 'item', 'role', 'all', 'none',
         'default', 'noexport', 'format']
RESERVED = ['auto', 'switch', 'while', 'int', 'select', 'table', 'nothing', 'returning', 'order',
            'void', 'WHERE', 'Index', 'key', 'row', 'sizeof', 'return', 'inline', 'restrict',
            'without', 'case', 'limit', 'values', 'abort', 'without']
INTS = ['0', '1', '-1', '-0', '2', '7', '63', '64', '31', '100', '-5', '9223372036854775807',
        '9223372036854775806', '-9223372036854775807', '9223372036854775808', '007']
DECS = ['0.5', '1.0', '-1.5', '2.', '10.25', '0.0', '-0.0']
LITS = ['""', '"x"', '"a\\"b"', '"two\nlines"', '"hè"', '"; }"', '"# no comment"']
PUNCT = list('{};,.:')


class Mutator:
    def __init__(self, text, rng):
        self.rng, self.text = rng, text
        self.read()

    def read(self):
        self.toks = declared.lex(self.text)
        self.spans = []
        self.cfg = dict(hasroles=0, roles=[], enums=[], bits=[], structs=[])
        try:
            ortparse.Reader(self.text, self.spans).root(self.cfg)
            self.valid = True
        except Exception:           # whatever that reader cannot take
            self.valid = False

    def edit(self, a, b, new):
        self.text = self.text[:a] + new + self.text[b:]

    def names(self):
        return [t[1] for t in self.toks if t[0] == 'id']

    def fresh(self):
        return ''.join(self.rng.choice('abcdefgxyz') for _ in range(self.rng.randint(3, 9))) + \
            self.rng.choice(['', '1', '42'])

    def anyid(self):
        r = self.rng.random()
        if r < .5:
            return self.rng.choice(self.names() or ['x'])
        return self.rng.choice(self.rng.choice(
            [OPS, MODS, TYPES, ACTS, FLAGS, STMTS, TOPS, OTHER, RESERVED, [self.fresh()]]))

    def anytok(self):
        r = self.rng.random()
        if r < .35:
            return self.anyid()
        return self.rng.choice(self.rng.choice([INTS, DECS, LITS, PUNCT, PUNCT]))

    # ------------------------------------------------ tokens
    def tok(self, kind=None):
        c = [t for t in self.toks if kind is None or t[0] == kind]
        return self.rng.choice(c) if c else None

    def m_ident(self):
        t = self.tok('id')
        if t:
            self.edit(t[2], t[3], self.anyid())

    def m_kin(self):
        """Another word of the same class."""
        t = self.tok('id')
        if not t:
            return
        for cl in (OPS, MODS, TYPES, ACTS, FLAGS, KINDS, ['update', 'delete'], ['asc', 'desc'],
                   ['maxrow', 'minrow'], ['actup', 'actdel'], ['name', 'limit']):
            if t[1] in cl:
                return self.edit(t[2], t[3], self.rng.choice(cl))
        self.edit(t[2], t[3], self.rng.choice(self.names()))

    def m_case(self):
        t = self.tok('id')
        if t:
            w = self.text[t[2]:t[3]]
            self.edit(t[2], t[3], ''.join(self.rng.choice((c.upper(), c.lower())) for c in w))

    def m_rename(self):
        """Everywhere at once."""
        t = self.tok('id')
        if not t or t[1] in STMTS + TOPS + OTHER + TYPES + FLAGS:
            return
        new = self.rng.choice([self.fresh(), self.fresh(), self.rng.choice(self.names()),
                               self.rng.choice(RESERVED)])
        for x in reversed(self.toks):
            if x[0] == 'id' and x[1] == t[1]:
                self.edit(x[2], x[3], new)

    def m_int(self):
        t = self.tok('int')
        if t:
            self.edit(t[2], t[3], self.rng.choice(INTS))

    def m_lit(self):
        t = self.tok('lit')
        if t:
            self.edit(t[2], t[3], self.rng.choice(LITS))

    def m_replace(self):
        t = self.tok()
        self.edit(t[2], t[3], ' ' + self.anytok() + ' ')

    def m_delete(self):
        t = self.tok()
        self.edit(t[2], t[3], ' ')

    def m_twice(self):
        t = self.tok()
        self.edit(t[3], t[3], ' ' + self.text[t[2]:t[3]] + ' ')

    def m_swap(self):
        if len(self.toks) > 1:
            i = self.rng.randrange(len(self.toks) - 1)
            a, b = self.toks[i], self.toks[i + 1]
            self.edit(a[2], b[3], self.text[b[2]:b[3]] + ' ' + self.text[a[2]:a[3]])

    def m_insert(self):
        t = self.tok()
        self.edit(t[2], t[2], ' ' + self.anytok() + ' ')

    def m_cut(self):
        t = self.tok()
        self.text = self.text[:self.rng.choice([t[2], t[3]])]

    def m_slice(self):
        i = self.rng.randrange(len(self.toks))
        j = min(len(self.toks) - 1, i + self.rng.randrange(6))
        if self.rng.random() < .5:
            self.edit(self.toks[i][2], self.toks[j][3], '')
        else:
            self.edit(self.toks[j][3], self.toks[j][3],
                      ' ' + self.text[self.toks[i][2]:self.toks[j][3]] + ' ')

    # ---------------------------------------- declarations
    def of(self, kinds):
        c = [s for s in self.spans if s[0].split(':')[0] in kinds and
             not (s[0][0] in 'eb' and '.' in s[0])]
        return self.rng.choice(c) if c else None

    def sname(self, span):
        return re.split('[:.]', span[0])[1]

    def st(self, name):
        return next(s for s in self.cfg['structs'] if s['name'] == name)

    def inner(self, span):
        """The end of the body of a structure, enumeration or the like."""
        return self.text.rindex('}', span[2], span[3])

    def m_again(self):
        s = self.of(['s', 'e', 'b', 'f', 'q', 'u', 'd', 'n', 'i', 'r', 'roles'])
        if s and self.text[s[2]:s[3]]:
            self.edit(s[3], s[3], '\n' + self.text[s[2]:s[3]])

    def m_drop(self):
        s = self.of(['s', 'e', 'b', 'f', 'f', 'q', 'u', 'd', 'n', 'i', 'r', 'roles'])
        if s:
            self.edit(s[2], s[3], '')

    def m_empty(self):
        s = self.of(['s', 'e', 'b', 'roles'])
        if s:
            self.edit(self.text.index('{', s[2]) + 1, self.inner(s), '')

    def m_carry(self):
        """A statement copied (or moved) into another structure."""
        s, t = self.of(['f', 'q', 'u', 'd', 'n', 'i']), self.of(['s'])
        if s and t:
            w = self.text[s[2]:s[3]]
            at = self.inner(t)
            self.edit(at, at, '\n' + w + '\n')

    def m_reorder(self):
        s = [x for x in self.spans if x[0][0] in 'fqudni' and x[0][1] == ':']
        if len(s) > 1:
            a, b = sorted(self.rng.sample(s, 2), key=lambda x: x[2])
            if a[3] <= b[2]:
                self.text = self.text[:a[2]] + self.text[b[2]:b[3]] + self.text[a[3]:b[2]] + \
                    self.text[a[2]:a[3]] + self.text[b[3]:]

    # --------------------------------------------- clauses
    def fname(self, s):
        r = self.rng.random()
        if r < .95 and s['fields']:
            return self.rng.choice(s['fields'])['name']
        return self.rng.choice(self.names())

    def path(self, s):
        n = self.fname(s)
        f = next((f for f in s['fields'] if f['name'] == n), None)
        if f and f['type'] == 'struct' and self.rng.random() < .8:
            src = next((g for g in s['fields'] if g['name'] == f['src']), None)
            if src and src['ref']:
                t = next((x for x in self.cfg['structs'] if x['name'] == src['ref'][0][0]), None)
                if t:
                    return n + '.' + self.path(t)
        elif self.rng.random() < .03:
            return n + '.' + self.fname(s)
        return n

    def value(self, f):
        r = self.rng
        t = f['type']
        if r.random() < .75:
            if t == 'real':
                return r.choice(DECS + INTS[:12])
            if t in ('text', 'email'):
                return r.choice(LITS)
            if t == 'enum':
                e = [i['name'] for e in self.cfg['enums'] if e['name'] == f['aux']
                     for i in e['items']] or ['x']
                return r.choice(e)
            if t == 'date':
                return r.choice(['2020-01-31', '1970-1-1', '1999 -12 -5', '2020-02', '2020 12 01'])
            return r.choice(INTS)
        return r.choice(r.choice([INTS, DECS, LITS, ['x', 'null'], ['2020-01-31']]))

    def info(self, f):
        r = self.rng
        k = r.randrange(8)
        if k == 0:
            return r.choice(FLAGS)
        if k == 1:
            return 'comment ' + r.choice(LITS)
        if k == 2:
            return r.choice(['actdel ', 'actup ']) + r.choice(ACTS)
        if k < 6:
            v = self.value(f) if f['type'] == 'real' else r.choice(INTS) if r.random() < .9 else \
                r.choice(DECS + LITS)
            if f['limits'] and r.random() < .3:
                return 'limit %s %s' % tuple(r.choice(f['limits']))
            return 'limit %s %s' % (r.choice(['ge', 'le', 'gt', 'lt', 'eq'])
                                    if r.random() < .95 else r.choice(OPS), v)
        return 'default ' + self.value(f)

    def m_info(self):
        s = self.of(['f'])
        if not s:
            return
        st, fn = s[0][2:].split('.')
        f = next(f for f in self.st(st)['fields'] if f['name'] == fn)
        body = self.text[s[2]:s[3]]
        n = len([t for t in self.toks if s[2] <= t[2] < s[3]])
        typ = '' if n > 3 and (n > 7 or ':' not in body) else ' ' + self.rng.choice(TYPES)
        self.edit(s[3] - 1, s[3] - 1, typ + ' ' + self.info(f))

    def param(self, s):
        r = self.rng
        k = r.randrange(9)
        names = [q['name'] for q in s['queries'] if q['name']] or ['x']
        return ['name ' + r.choice(names + [self.fresh()]), 'limit ' + r.choice(INTS),
                'limit %s, %s' % (r.choice(INTS), r.choice(INTS)),
                'distinct ' + (r.choice([x['name'] for x in s['fields'] if x['type'] == 'struct']
                                        or ['.']) if r.random() < .5 else
                               self.path(s).rpartition('.')[0] or '.'),
                'distinct ' + r.choice(['.', self.path(s)]),
                'order %s %s' % (self.path(s), r.choice(['asc', 'desc', '', ', ' + self.path(s)])),
                'grouprow %s %s %s' % (self.path(s), r.choice(['maxrow', 'minrow']), self.path(s)),
                r.choice(['grouprow', 'maxrow', 'minrow']) + ' ' + self.path(s),
                'comment ' + r.choice(LITS)][k]

    def m_param(self):
        s = self.of(['q'])
        if s:
            body = [t for t in self.toks if s[2] <= t[2] < s[3]]
            sep = ' ' if any(t[0] == ':' for t in body) else ' : '
            self.edit(s[3] - 1, s[3] - 1, sep + self.param(self.st(self.sname(s))))

    def m_term(self):
        """One more term at the start of a query."""
        s = self.of(['q'])
        if s:
            a = next(t for t in self.toks if t[2] == s[2])
            nxt = next(t for t in self.toks if t[2] >= a[3])
            st = self.st(self.sname(s))
            self.edit(a[3], a[3], ' %s %s%s' % (self.path(st), self.rng.choice(OPS + ['']),
                                                ',' if nxt[0] == 'id' else ''))

    def uref(self, s, ops):
        return '%s %s' % (self.fname(s), self.rng.choice(ops + ['']))

    def statement(self, s):
        r = self.rng
        u = lambda ops: ', '.join(self.uref(s, ops) for _ in range(r.choice([0, 1, 1, 1, 2])))
        names = [x['name'] for k in ('queries', 'updates', 'deletes') for x in s[k] if x['name']]
        nm = lambda: r.choice(names + [self.fresh()] * 2)
        k = r.randrange(10)
        if k == 0:
            return 'unique %s;' % ', '.join(self.fname(s) for _ in range(r.choice([1, 2, 2, 3])))
        if k in (1, 2):
            return 'update %s: %s: name %s;' % (u(MODS), u(OPS), nm())
        if k == 3:
            return 'delete %s: name %s;' % (u(OPS), nm())
        if k in (4, 5):
            t = ', '.join('%s %s' % (self.path(s), r.choice(OPS + [''])) for _ in
                          range(r.choice([0, 1, 1, 2])))
            return '%s %s: name %s %s;' % (r.choice(KINDS), t, nm(),
                                           self.param(s) if r.random() < .5 else '')
        if k == 6:
            roles = [x['name'] for x in self.cfg['roles']] + ['default', 'all']
            if r.random() < .1:
                roles.append(r.choice(['none', self.fresh()]))
            ops = []
            for _ in range(r.choice([1, 1, 2])):
                o = r.choice(KINDS + ['update', 'delete', 'insert', 'noexport', 'all', 'noexport'])
                key = {'update': 'updates', 'delete': 'deletes'}.get(o, 'queries')
                own = [x['name'] for x in s[key] if x['name'] and x.get('kind', o) == o]
                n = '' if o in ('insert', 'all') or r.random() < .05 else \
                    r.choice([self.fname(s), '']) if o == 'noexport' else \
                    r.choice(own if own and r.random() < .8 else names + ['x'])
                ops.append('%s %s;' % (o, n))
            return 'roles %s { %s };' % (', '.join(r.sample(roles, min(len(roles), r.choice(
                [1, 1, 2])))), ' '.join(ops))
        if k == 7:
            return r.choice(['insert;', 'comment "more";'])
        return self.newfield()

    def newfield(self):
        r = self.rng
        t = r.choice(TYPES)
        f = dict(type={'bitfield': 'bits', 'integer': 'int', 'txt': 'text', 'double': 'real',
                       'passwd': 'password'}.get(t, t), aux='', limits=[])
        aux = ''
        ref = ''
        if f['type'] == 'enum':
            f['aux'] = aux = r.choice([e['name'] for e in self.cfg['enums']] + ['x'])
        elif f['type'] == 'bits':
            aux = r.choice([e['name'] for e in self.cfg['bits']] + ['x'])
        elif f['type'] == 'struct':
            aux = r.choice([g['name'] for s in self.cfg['structs'] for g in s['fields']
                            if g['ref']] + ['x'])
        if r.random() < .4:
            s = r.choice(self.cfg['structs'])
            g = r.choice(s['fields']) if s['fields'] else dict(name='x', type='int')
            ref = ': %s.%s' % (s['name'], g['name'])
            if r.random() < .7:
                t, f['type'], aux = g['type'], g['type'], g.get('aux') or g.get('src') or aux
        return 'field %s%s %s %s %s;' % (self.fresh(), ref, t, aux,
                                         ' '.join(self.info(f) for _ in range(r.randrange(3))))

    def m_statement(self):
        t = self.of(['s'])
        if t:
            at = self.inner(t) if self.rng.random() < .8 else self.text.index('{', t[2]) + 1
            self.edit(at, at, '\n' + self.statement(self.st(self.sname(t))) + '\n')

    def m_item(self):
        t = self.of(['e', 'b'])
        if t:
            r = self.rng
            names = [i['name'] for k in ('enums', 'bits') for e in self.cfg[k] for i in e['items']]
            n = r.choice([self.fresh(), self.fresh(), r.choice(names or ['x']), 'format',
                          r.choice(RESERVED)])
            v = r.choice(INTS + ['3', '4', '5', '6', '8', '9', ''])
            at = self.inner(t)
            self.edit(at, at, r.choice(
                ['item %s %s;' % (n, v)] * 4 +
                ['isnull jslabel %s "x";' % r.choice(['', '.de', '.fr'])] +
                ['isunset jslabel %s %s;' % (r.choice(['', '.de', '.fr']), r.choice(LITS))] +
                ['comment "c";']))

    def m_attr(self):
        """Something more said about an item or a role."""
        s = next((s for s in self.rng.sample(self.spans, len(self.spans))
                  if re.match(r'[eb]:\w+\.\w+$', s[0])), None)
        if s:
            self.edit(s[3] - 1, s[3] - 1, ' ' + self.rng.choice(
                ['comment "c"', 'jslabel "l"', 'jslabel.de "l"', 'jslabel.fr "m"',
                 'jslabel.%s %s' % (self.fresh(), self.rng.choice(LITS))]))

    def m_top(self):
        r = self.rng
        n = r.choice([self.fresh(), r.choice(self.names()), r.choice(RESERVED)])
        self.text += '\n' + r.choice([
            'struct %s { field a int; };', 'struct %s { };', 'enum %s { item a; };', 'enum %s { };',
            'bits %s { item a 0; };', 'bits %s { };', 'roles { role %s; };',
            'roles { };', 'struct %s { comment "x"; };']).replace('%s', n)

    def m_role(self):
        t = self.of(['roles', 'r'])
        if t:
            r = self.rng
            names = [x['name'] for x in self.cfg['roles']] + ['none', 'default', 'all', 'where']
            n = r.choice([self.fresh(), r.choice(names)])
            w = 'role %s%s;' % (n, r.choice(['', ' comment "c"', ' { }']))
            if '{' in self.text[t[2]:t[3]]:
                at = self.inner(t)
                self.edit(at, at, w)
            else:
                self.edit(t[3] - 1, t[3] - 1, '{ %s }' % w)

    def m_bytes(self):
        """No longer within the language, perhaps."""
        r = self.rng
        i = r.randrange(len(self.text) + 1)
        k = r.randrange(3)
        junk = ''.join(r.choice(['\\', '\x01', '"', '{', '\xe9', '-', '.', '\t', '\r\n', '#', '9',
                                 '_', "'", '/', '*']) for _ in range(r.randint(1, 3)))
        self.text = self.text[:i] + (junk if k else '') + self.text[i + (k != 1):]

    GOOD = [m_info] * 4 + [m_param] * 4 + [m_term] * 3 + [m_statement] * 8 + [m_item] * 3 + \
        [m_attr] * 2 + [m_role] + [m_kin] * 4 + [m_int] * 2 + [m_lit, m_case, m_rename,
                                                              m_rename, m_reorder, m_reorder, m_top]
    BAD = [m_ident, m_kin, m_replace, m_delete, m_twice, m_swap, m_insert, m_cut, m_slice, m_again,
           m_again, m_drop, m_drop, m_empty, m_carry, m_carry, m_top, m_bytes]

    def mutate(self, n=1):
        for _ in range(n):
            if not self.toks:
                break
            # declarations can only be found in documents that can be read
            ms = self.GOOD if self.rng.random() < .6 else self.BAD
            m = self.rng.choice(ms)
            if not self.valid:
                m = self.rng.choice([Mutator.m_ident, Mutator.m_delete, Mutator.m_insert])
            try:
                m(self)
            except (StopIteration, ValueError, IndexError, KeyError):
                continue            # nothing there to be changed that way
            self.read()
        return self.text
