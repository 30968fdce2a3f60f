"""A reader of the ort language, independent of the one in the repository: text to the abstract
configuration of cfggen (the vocabulary of spec/OrtConfig.tla), with the extent of every
declaration.  It reads documents that ort accepts; it does not decide which those are."""
import re

SPACE = ' \t\n\v\f\r'
NUMCH = '0123456789'
TYPES = dict(bitfield='bits', integer='int', txt='text', epoch='epoch', date='date', blob='blob')
OPS = {'eq', 'ge', 'gt', 'le', 'lt', 'neq', 'like', 'and', 'or', 'streq', 'strneq', 'isnull',
       'notnull'}
MODS = {'set', 'inc', 'dec', 'concat', 'strset'}


class Bad(Exception):
    pass


def tokens(text):
    """List of (kind, value, start offset, end offset)."""
    out, i, n = [], 0, len(text)
    while i < n:
        c = text[i]
        if c in SPACE:
            i += 1
        elif c == '#':
            while i < n and text[i] != '\n':
                i += 1
        elif c in '{};,.:':
            out.append((c, c, i, i + 1))
            i += 1
        elif c == '"':
            j = i + 1
            while j < n and not (text[j] == '"' and text[j - 1] != '\\'):
                j += 1
            if j >= n:
                raise Bad('unterminated literal')
            out.append(('lit', text[i + 1:j].replace('\r\n', '\n'), i, j + 1))
            i = j + 1
        elif c in NUMCH or c == '-':
            m = re.compile(r'-?[0-9]+(\.[0-9]*)?').match(text, i)
            if not m:
                raise Bad('number')
            out.append(('dec' if '.' in m.group() else 'int', m.group(), i, m.end()))
            i = m.end()
        elif c.isascii() and c.isalpha():
            j = i
            while j < n and text[j].isascii() and text[j].isalnum():
                j += 1
            out.append(('id', text[i:j].lower(), i, j))
            i = j
        else:
            raise Bad('character %r' % c)
    return out


def unlit(s):
    """The meaning of the text between quotes: only an escaped quote is special, and ort keeps
    even that as it is written."""
    return s


class Reader:
    def __init__(self, text, pos=None, fname=''):
        self.text = text
        self.t = tokens(text)
        self.i = 0
        self.spans = pos if pos is not None else []
        self.fname = fname

    def peek(self, k=0):
        return self.t[self.i + k][:2] if self.i + k < len(self.t) else ('eof', '')

    def next(self):
        if self.i >= len(self.t):
            raise Bad('end of file')
        self.i += 1
        return self.t[self.i - 1][:2]

    def want(self, kind, val=None):
        k, v = self.next()
        if k != kind or (val is not None and v != val):
            raise Bad('expected %s %s, have %s %s at token %d' % (kind, val, k, v, self.i))
        return v

    def has(self, kind, val=None):
        k, v = self.peek()
        if k == kind and (val is None or v == val):
            self.i += 1
            return True
        return False

    def begin(self):
        return self.t[self.i - 1][2]

    def span(self, ident, start):
        self.spans.append((ident, self.fname, start, self.t[self.i - 1][3]))

    def lit(self):
        return unlit(self.want('lit'))

    def label(self, out):
        lang = ''
        if self.has('.'):
            lang = self.want('id')
        out.append([lang, self.lit()])

    def labels(self):
        out = []
        while not self.has(';'):
            self.want('id', 'jslabel')
            self.label(out)
        return out

    def root(self, cfg):
        while self.peek()[0] != 'eof':
            k = self.want('id')
            st = self.begin()
            if k == 'struct':
                s = self.struct()
                cfg['structs'].append(s)
                self.span('s:' + s['name'], st)
            elif k == 'enum':
                e = self.enum()
                cfg['enums'].append(e)
                self.span('e:' + e['name'], st)
            elif k in ('bits', 'bitfield'):
                b = self.bits()
                cfg['bits'].append(b)
                self.span('b:' + b['name'], st)
            elif k == 'roles':
                cfg['hasroles'] = 1
                self.want('{')
                while not self.has('}'):
                    self.role(cfg, 'all')
                self.want(';')
                self.span('roles', st)
            else:
                raise Bad('top-level ' + k)
        return cfg

    def role(self, cfg, parent):
        self.want('id', 'role')
        st = self.begin()
        r = dict(name=self.want('id'), parent=parent, doc=[])
        cfg['roles'].append(r)
        if self.has('id', 'comment'):
            r['doc'] = [self.lit()]
        if self.has('{'):
            while not self.has('}'):
                self.role(cfg, r['name'])
        self.want(';')
        self.span('r:' + r['name'], st)

    def items(self, kind, x):
        self.want('{')
        while not self.has('}'):
            k = self.want('id')
            st = self.begin()
            if k == 'comment':
                x['doc'] = [self.lit()]
                self.want(';')
            elif k in ('isnull', 'isunset'):
                x[k] = x[k] + self.labels()
            elif k == 'item':
                it = dict(name=self.want('id'), doc=[], labels=[])
                if kind == 'e':
                    it['val'] = [str(int(self.next()[1]))] if self.peek()[0] == 'int' else []
                else:
                    it['bit'] = int(self.want('int'))
                while not self.has(';'):
                    if self.has('id', 'comment'):
                        it['doc'] = [self.lit()]
                    else:
                        self.want('id', 'jslabel')
                        self.label(it['labels'])
                x['items'].append(it)
                self.span('%s:%s.%s' % (kind, x['name'], it['name']), st)
            else:
                raise Bad('item ' + k)
        self.want(';')
        return x

    def enum(self):
        return self.items('e', dict(name=self.want('id'), doc=[], items=[], isnull=[]))

    def bits(self):
        return self.items('b', dict(name=self.want('id'), doc=[], items=[], isnull=[],
                                    isunset=[]))

    def path(self):
        p = [self.want('id')]
        while self.has('.'):
            p.append(self.want('id'))
        return p

    def struct(self):
        n = self.want('id')
        s = dict(name=n, doc=[], fields=[], insert=0, queries=[], updates=[], deletes=[],
                 uniques=[], grants=[])
        self.want('{')
        while not self.has('}'):
            k = self.want('id')
            st = self.begin()
            if k == 'comment':
                s['doc'] = [self.lit()]
                self.want(';')
                continue
            elif k == 'field':
                f = self.field()
                s['fields'].append(f)
                i = 'f:%s.%s' % (n, f['name'])
            elif k == 'insert':
                s['insert'] = 1
                self.want(';')
                i = 'i:' + n
            elif k in ('search', 'list', 'iterate', 'count'):
                s['queries'].append(self.query(k))
                i = 'q:%s.%d' % (n, len(s['queries']))
            elif k == 'update':
                s['updates'].append(self.update())
                i = 'u:%s.%d' % (n, len(s['updates']))
            elif k == 'delete':
                s['deletes'].append(self.delete())
                i = 'd:%s.%d' % (n, len(s['deletes']))
            elif k == 'unique':
                u = [self.want('id')]
                while self.has(','):
                    u.append(self.want('id'))
                self.want(';')
                s['uniques'].append(u)
                i = 'n:%s.%d' % (n, len(s['uniques']))
            elif k == 'roles':
                s['grants'].append(self.grant())
                continue
            else:
                raise Bad('statement ' + k)
            self.span(i, st)
        self.want(';')
        return s

    def grant(self):
        g = dict(roles=[self.want('id')], ops=[])
        while self.has(','):
            g['roles'].append(self.want('id'))
        self.want('{')
        while not self.has('}'):
            k = self.want('id')
            g['ops'].append([k, '' if self.peek()[0] == ';' else self.want('id')])
            self.want(';')
        self.want(';')
        return g

    def field(self):
        f = dict(name=self.want('id'), type='int', aux='', null=0, unique=0, rowid=0, noexport=0,
                 ref=[], src='', actdel='none', actup='none', limits=[], default=[], doc=[])
        if self.has(':'):
            t = self.want('id')
            self.want('.')
            f['ref'] = [[t, self.want('id')]]
        if self.has(';'):
            return f
        t = self.want('id')
        f['type'] = TYPES.get(t, t)
        if f['type'] == 'struct':
            f['src'] = self.want('id')
        elif f['type'] in ('enum', 'bits'):
            f['aux'] = self.want('id')
        while not self.has(';'):
            k = self.want('id')
            if k in ('rowid', 'null', 'unique', 'noexport'):
                f[k] = 1
            elif k == 'comment':
                f['doc'] = [self.lit()]
            elif k in ('actdel', 'actup'):
                f[k] = self.want('id')
            elif k == 'limit':
                op = self.want('id')
                f['limits'].append([op, self.next()[1]])
            elif k == 'default':
                if f['type'] == 'date':
                    f['default'] = [''.join(self.want('int') for _ in range(3))]
                else:
                    f['default'] = [self.next()[1]]
            else:
                raise Bad('field info ' + k)
        if f['rowid']:
            f['unique'] = 0
        return f

    def query(self, kind):
        q = dict(kind=kind, name='', terms=[], order=[], limit=[], offset=[], distinct=[],
                 group=[], doc=[])
        grp = agg = None
        if self.peek()[0] == 'id':
            while True:
                t = dict(path=self.path(), op='eq')
                if self.peek()[0] == 'id':
                    t['op'] = self.want('id')
                q['terms'].append(t)
                if not self.has(','):
                    break
        if self.has(':'):
            while self.peek()[0] != ';':
                k = self.want('id')
                if k == 'name':
                    q['name'] = self.want('id')
                elif k == 'comment':
                    q['doc'] = [self.lit()]
                elif k == 'distinct':
                    q['distinct'] = [[]] if self.has('.') else [self.path()]
                elif k == 'limit':
                    q['limit'] = [int(self.want('int'))]
                    if self.has(','):
                        q['offset'] = [int(self.want('int'))]
                elif k == 'order':
                    while True:
                        p = self.path()
                        d = 'asc'
                        if self.peek() in (('id', 'asc'), ('id', 'desc')):
                            d = self.want('id')
                        q['order'].append([p, d])
                        if not self.has(','):
                            break
                elif k == 'grouprow':
                    grp = self.path()
                elif k in ('maxrow', 'minrow'):
                    agg = (k, self.path())
                else:
                    raise Bad('query parameter ' + k)
        self.want(';')
        if grp:
            q['group'] = [[grp, agg[0], agg[1]]]
        return q

    def urefs(self, ops, dflt):
        out = []
        while True:
            n = self.want('id')
            o = dflt
            if self.peek()[0] == 'id':
                o = self.want('id')
            if o not in ops:
                raise Bad('operator ' + o)
            out.append([n, o])
            if not self.has(','):
                return out

    def uptail(self, u):
        while not self.has(';'):
            k = self.want('id')
            if k == 'name':
                u['name'] = self.want('id')
            elif k == 'comment':
                u['doc'] = [self.lit()]
            else:
                raise Bad('update term ' + k)
        return u

    def update(self):
        u = dict(name='', mods=[], cons=[], doc=[])
        if self.peek()[0] == 'id':
            u['mods'] = self.urefs(MODS, 'set')
        if self.has(':'):
            if self.peek()[0] == 'id':
                u['cons'] = self.urefs(OPS, 'eq')
            if self.has(':'):
                return self.uptail(u)
        self.want(';')
        return u

    def delete(self):
        u = dict(name='', cons=[], doc=[])
        if self.peek()[0] == 'id':
            u['cons'] = self.urefs(OPS, 'eq')
        if self.has(':'):
            return self.uptail(u)
        self.want(';')
        return u


def parse(*texts):
    """The configuration declared by the documents together."""
    return parse_pos(*[('', t) for t in texts])[0]


def parse_pos(*docs):
    """docs: (file name, text).  Returns the configuration and a function from (file, line,
    column) to the innermost declaration at that place."""
    cfg = dict(hasroles=0, roles=[], enums=[], bits=[], structs=[])
    spans = []
    lines = {}
    for fname, text in docs:
        r = Reader(text, spans, fname)
        r.root(cfg)
        ls = [0]
        for i, c in enumerate(text):
            if c == '\n':
                ls.append(i + 1)
        lines[fname] = ls

    def at(fname, line, col):
        if fname not in lines or not 1 <= line <= len(lines[fname]):
            return '?%s:%d:%d' % (fname, line, col)
        ls = lines[fname]
        # column 0: whatever ends the line
        off = ls[line - 1] + col - 1 if col else \
            max(ls[line] - 2 if line < len(ls) else ls[line - 1], 0)
        best = None
        for ident, fn, a, b in spans:
            if fn == fname and a <= off < b and (best is None or b - a < best[0]):
                best = (b - a, ident)
        return best[1] if best else '?%s:%d:%d' % (fname, line, col)
    return cfg, at


def canon(cfg):
    """Spelling differences removed: numbers in one form."""
    def num(f, v):
        if f['type'] == 'real':
            return repr(float(v))
        if f['type'] == 'date':
            y, m, d = re.match(r'(-?\d+)-(\d+)-(\d+)$', v).groups()
            return '%d-%02d-%02d' % (int(y), int(m), int(d))
        if f['type'] in ('text', 'email', 'enum'):
            return v
        return str(int(v))
    for s in cfg['structs']:
        for f in s['fields']:
            f['default'] = [num(f, v) for v in f['default']]
            f['limits'] = [[o, repr(float(v)) if f['type'] == 'real' else str(int(v))]
                           for o, v in f['limits']]
            if f['rowid']:
                f['unique'] = 0
        for q in s['queries']:
            if q['limit'] == [0]:
                q['limit'] = []
            if q['offset'] == [0]:
                q['offset'] = []
    return cfg
