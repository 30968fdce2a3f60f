"""Documents as token sequences (spec/OrtSyntax.tla) and as the statements they make, well-formed or
not (spec/OrtWellFormed.tla).  The reader here presumes that the syntax is right."""
import re
import ortparse, backend as B

MAX = 2 ** 63 - 1
SPACE = ' \t\n\v\f\r'


def lex(text):
    """Tokens as (kind, value, start, end).  Kinds: id int dec lit, punctuation as itself, and bad
    for anything that is no token (which is the last one then)."""
    out, i, n = [], 0, len(text)
    num = re.compile(r'-?[0-9]+(\.[0-9]*)?')
    while i < n:
        c = text[i]
        if c in SPACE:
            i += 1
        elif c == '#':
            while i < n and text[i] != '\n':
                i += 1
        elif c in '{};,.:':
            out.append((c, c, i, i + 1))
            i += 1
        elif c == '"':
            j = i + 1
            while j < n and not (text[j] == '"' and text[j - 1] != '\\'):
                j += 1
            if j >= n:
                return out + [('bad', '', i, n)]
            out.append(('lit', text[i + 1:j].replace('\r\n', '\n'), i, j + 1))
            i = j + 1
        elif c in '0123456789-':
            m = num.match(text, i)
            if not m:
                return out + [('bad', '', i, n)]
            k = 'dec' if m.group(1) is not None else 'int'
            if k == 'int' and abs(int(m.group())) > MAX:
                return out + [('bad', '', i, n)]
            out.append((k, m.group(), i, m.end()))
            i = m.end()
        elif c.isascii() and c.isalpha():
            j = i
            while j < n and text[j].isascii() and text[j].isalnum():
                j += 1
            out.append(('id', text[i:j].lower(), i, j))
            i = j
        else:
            return out + [('bad', '', i, n)]
    return out


def tlatoks(toks):
    """For the specification: the value matters for identifiers, and
    the sign for integers."""
    return [[k, v if k == 'id' else '-' if k == 'int' and int(v) < 0 else '']
            for k, v, a, b in toks]


def number(k, v):
    """(canonical, negative)"""
    if k == 'dec':
        return repr(float(v) + 0.0), int(float(v) < 0)
    return str(int(v)), int(int(v) < 0)


class Reader:
    def __init__(self, toks, cfg):
        self.t, self.i, self.c = toks, 0, cfg

    def kind(self):
        return self.t[self.i][0]

    def val(self):
        return self.t[self.i][1]

    def take(self, kind=None):
        k, v = self.t[self.i][:2]
        if kind is not None and k != kind:
            raise ortparse.Bad('expected %s, have %s %s' % (kind, k, v))
        self.i += 1
        return v

    def has(self, kind, val=None):
        if self.i < len(self.t) and self.kind() == kind and (val is None or self.val() == val):
            self.i += 1
            return True
        return False

    def root(self):
        while self.i < len(self.t):
            k = self.take('id')
            if k == 'roles':
                self.c['roleblocks'] += 1
                self.take('{')
                while not self.has('}'):
                    self.role('all')
                self.take(';')
            else:
                x = dict(name=self.take('id'), docs=[])
                self.take('{')
                getattr(self, k if k in ('struct', 'enum') else 'bits')(x)
                self.take(';')
                self.c[{'struct': 'structs', 'enum': 'enums'}.get(k, 'bits')].append(x)
        return self.c

    def role(self, parent):
        self.take('id')
        r = dict(name=self.take('id'), parent=parent, docs=[])
        self.c['roles'].append(r)
        if self.has('id', 'comment'):
            r['docs'].append(self.take('lit'))
        if self.has('{'):
            while not self.has('}'):
                self.role(r['name'])
        self.take(';')

    def label(self, out):
        lang = self.take('id') if self.has('.') else ''
        out.append([lang, self.take('lit')])

    def items(self, x, bits):
        x.update(items=[], isnull=[], isunset=[])
        while not self.has('}'):
            k = self.take('id')
            if k == 'comment':
                x['docs'].append(self.take('lit'))
                self.take(';')
            elif k == 'item':
                it = dict(name=self.take('id'), docs=[], labels=[], num=[])
                if self.i < len(self.t) and self.kind() == 'int':
                    it['num'] = [B.s_int(int(self.take()))]
                while not self.has(';'):
                    if self.take('id') == 'comment':
                        it['docs'].append(self.take('lit'))
                    else:
                        self.label(it['labels'])
                x['items'].append(it)
            else:
                while not self.has(';'):
                    self.take('id')
                    self.label(x['isnull' if k == 'isnull' else 'isunset'])

    def enum(self, x):
        self.items(x, False)

    def bits(self, x):
        self.items(x, True)

    def path(self):
        p = [self.take('id')]
        while self.has('.'):
            p.append(self.take('id'))
        return p

    def struct(self, s):
        s.update(fields=[], inserts=0, queries=[], updates=[], deletes=[], uniques=[], grants=[])
        while not self.has('}'):
            k = self.take('id')
            if k == 'comment':
                s['docs'].append(self.take('lit'))
                self.take(';')
            elif k == 'field':
                s['fields'].append(self.field())
            elif k == 'insert':
                s['inserts'] += 1
                self.take(';')
            elif k in ('update', 'delete'):
                u = dict(mods=[], cons=[], names=[], docs=[])
                more = True
                if k == 'update':
                    more = self.urefs(u['mods'], 'set')
                if more:
                    more = self.urefs(u['cons'], 'eq')
                while more and not self.has(';'):
                    w = self.take('id')
                    if w == 'name':
                        u['names'].append(self.take('id'))
                    else:
                        u['docs'].append(self.take('lit'))
                if k == 'delete':
                    del u['mods']
                s['updates' if k == 'update' else 'deletes'].append(u)
            elif k == 'unique':
                u = [self.take('id')]
                while self.has(','):
                    u.append(self.take('id'))
                self.take(';')
                s['uniques'].append(u)
            elif k == 'roles':
                g = dict(roles=[self.take('id')], ops=[])
                while self.has(','):
                    g['roles'].append(self.take('id'))
                self.take('{')
                while not self.has('}'):
                    o = [self.take('id'), '']
                    if not self.has(';'):
                        o[1] = self.take('id')
                        self.take(';')
                    g['ops'].append(o)
                self.take(';')
                s['grants'].append(g)
            else:
                s['queries'].append(self.query(k))

    def urefs(self, out, op):
        """Fields up to a colon (true) or a semicolon (false)."""
        while True:
            if self.has(':'):
                return True
            if self.has(';'):
                return False
            self.has(',')
            out.append([self.take('id'), op])
            if self.kind() == 'id':
                out[-1][1] = self.take('id')

    def field(self):
        f = dict(name=self.take('id'), type='int', aux='', src='', ref=[], null=0, unique=0,
                 rowid=0, noexport=0, wild=0, acts=[], limits=[], defaults=[], docs=[])
        if self.has(':'):
            s = self.take('id')
            self.take('.')
            f['ref'] = [[s, self.take('id')]]
        if self.has(';'):
            return f
        t = self.take('id')
        f['type'] = t = dict(bitfield='bits', integer='int', txt='text', double='real',
                             passwd='password').get(t, t)
        if t == 'struct':
            f['src'] = self.take('id')
        elif t in ('enum', 'bits'):
            f['aux'] = self.take('id')
        while not self.has(';'):
            k = self.take('id')
            if k in ('null', 'unique', 'rowid', 'noexport'):
                f[k] += 1
            elif k == 'comment':
                f['docs'].append(self.take('lit'))
            elif k in ('actdel', 'actup'):
                f['acts'].append([k, self.take('id')])
            elif k == 'limit':
                op = self.take('id')
                kk = self.kind()
                c, neg = number('dec' if t == 'real' else kk, self.take())
                f['limits'].append([op, c, neg])
            elif t == 'date':
                d = [self.take('int') for _ in range(3)]
                f['wild'] += any(abs(int(x)) >= 2 ** 31 - 1 for x in d)
                f['defaults'].append(''.join(d))
            else:
                f['defaults'].append(self.take())
        return f

    def query(self, kind):
        q = dict(kind=kind, names=[], terms=[], order=[], limits=[], distincts=[], groups=[],
                 aggrs=[], docs=[])
        while not self.has(';'):
            if self.has(':'):
                while not self.has(';'):
                    k = self.take('id')
                    if k == 'name':
                        q['names'].append(self.take('id'))
                    elif k == 'comment':
                        q['docs'].append(self.take('lit'))
                    elif k == 'distinct':
                        q['distincts'].append([] if self.has('.') else self.path())
                    elif k == 'limit':
                        q['limits'].append(number('int', self.take('int'))[1])
                        if self.has(','):
                            q['limits'].append(number('int', self.take('int'))[1])
                    elif k == 'order':
                        while True:
                            q['order'].append(self.path())
                            self.has('id', 'asc') or self.has('id', 'desc')
                            if not self.has(','):
                                break
                    elif k == 'grouprow':
                        q['groups'].append(self.path())
                    else:
                        q['aggrs'].append(self.path())
                break
            self.has(',')
            t = dict(path=self.path(), op='eq')
            if self.kind() == 'id':
                t['op'] = self.take('id')
            q['terms'].append(t)
        return q


def empty():
    return dict(roleblocks=0, roles=[], enums=[], bits=[], structs=[])


def declared(docs):
    """What the documents (lists of tokens) say together; None if they cannot be read."""
    c = empty()
    try:
        for d in docs:
            Reader(d, c).root()
    except (ortparse.Bad, IndexError, AttributeError, ValueError):
        return None
    return c
