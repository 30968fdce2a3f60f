"""Pages, objects and calls for the browser code (spec/OrtFill.tla)."""
import json, os, random
import vf, cfggen, ortparse, evolve as E, backend as B

INTS = ('bit', 'bits', 'date', 'epoch', 'int', 'enum')
BIG = [0, 1, -1, 2, 3, 5, 8, 2 ** 31, 2 ** 32, 2 ** 33 + 1, 2 ** 53 - 1, 2 ** 62, 2 ** 63 - 1, -2 ** 63, -2 ** 63 + 1]
REALS = [(0.5, '0.5'), (-2.25, '-2.25'), (100, '100'), (0.1, '0.1'), (1e21, '1e+21'), (1e-7, '1e-7'), (3, '3'), (0, '0')]
TEXTS = ['', 'plain', '<b>bold</b>', "it's", 'é 終', ' x ', 'on', '1', '0', 'two\nlines', '"q"', '&amp;', 'true']
RANGE = (-62167219200, 253402300799)


def unquote(ls):
    return [[g, t.replace('\\"', '"')] for g, t in ls]


def form(cfg):
    c = E.form(cfg)
    for e in c['enums']:
        e['isnull'] = unquote(e['isnull'])
        for i in e['items']:
            i['labels'] = unquote(i['labels'])
    for b in c['bits']:
        b['isnull'], b['isunset'] = unquote(b['isnull']), unquote(b['isunset'])
        for i in b['items']:
            i['labels'] = unquote(i['labels'])
    return c


def wrap(n):
    return (n + 2 ** 63) % 2 ** 64 - 2 ** 63


def val(js):
    """A value as it is given and as the specification has it."""
    text = js[1] if isinstance(js, tuple) else js if isinstance(js, str) else str(js)
    js = js[0] if isinstance(js, tuple) else js
    num, exact, day = [], 0, 0
    try:
        n = int(text)
        if str(n) == text and -2 ** 63 <= n < 2 ** 64:
            num, exact = B.s_int(wrap(n)), int(n < 2 ** 63)
            if RANGE[0] <= n <= RANGE[1]:
                day = n // 86400
    except ValueError:
        pass
    return ['j', js], ['v', 's' if isinstance(js, str) else 'n', text, num, day, exact]


class World:
    def __init__(self, rng, cfg):
        self.r, self.cfg, self.n = rng, cfg, 0
        self.S = {s['name']: s for s in cfg['structs']}
        self.E = {e['name']: e for e in cfg['enums']}
        self.B = {b['name']: b for b in cfg['bits']}

    def p(self, x):
        return self.r.random() < x

    def source(self, s, f):
        return [g for g in s['fields'] if g['name'] == f['src']][0]

    def target(self, s, f):
        return self.source(s, f)['ref'][0][0]

    def nullable(self, s, f):
        return bool(f['null'] or f['type'] == 'struct' and self.source(s, f)['null'])

    # ---------------------------------------------------------------- data
    def values(self, f):
        """Some values of a field: as JavaScript has them."""
        t, r = f['type'], self.r
        if t == 'real':
            return REALS
        if t not in INTS:
            return TEXTS if t != 'blob' else ['', 'aGVsbG8=', 'AA==']
        if t in ('date', 'epoch'):
            ns = [0, -1, 86399, 86400, 951782400, 951868799, 951868800, 4107542400, RANGE[0], RANGE[1],
                  r.randrange(*RANGE), r.randrange(-10 ** 9, 4 * 10 ** 9), -62135596800]
        elif t == 'enum':
            v = [0, 1, 2]
            for i in self.E[f['aux']]['items']:
                v += [n for x in i['val'] for n in (int(x), int(x) + 1)]
            ns = v + [99]
        elif t == 'bits':
            bs = [i['bit'] for i in self.B[f['aux']]['items']]
            ns = [0, sum(1 << b for b in bs), wrap(sum(1 << b for b in bs)), wrap(sum(1 << b for b in bs if self.p(.5))),
                  wrap(1 << r.choice(bs)), 1 << r.choice(bs), r.getrandbits(64), -1]
        elif t == 'bit':
            ns = [0, 1, 2, 1 << r.randrange(64), wrap(1 << r.randrange(64)), wrap(r.getrandbits(64)), 1 << 63, -1, 1 << 32]
        else:
            ns = BIG
        return [n if abs(n) < 2 ** 53 and self.p(.5) else str(n) for n in ns]

    def object(self, s):
        self.n += 1
        name, given, spec = '#%d' % self.n, [], []
        for f in s['fields']:
            hidden = f['type'] == 'password' or f['noexport']
            if self.p(.6 if hidden else .08):
                spec.append(['u'])
            elif self.nullable(s, f) and self.p(.3):
                given.append([f['name'], ['j', None]])
                spec.append(['n'])
            elif f['type'] == 'struct':
                g, x = self.object(self.S[self.target(s, f)])
                given.append([f['name'], g])
                spec.append(x)
            else:
                g, x = val(self.r.choice(self.values(f)))
                given.append([f['name'], g])
                spec.append(x)
        if self.p(.1):
            given.append(['unknown', ['j', 'x']])
        self.r.shuffle(given)
        return ['o', name, given], ['o', name, spec]

    # ---------------------------------------------------------------- pages
    def text(self):
        return dict(t='#', x=self.r.choice(('text', ' ', '\n  ', 'Label:', 'old', '')))

    def plain(self):
        return dict(t=self.r.choice(('span', 'b', 'p')), c=[], a=[], k=[self.text()] if self.p(.6) else [])

    def field(self):
        s = self.r.choice(self.cfg['structs'])
        f = self.r.choice(s['fields'])
        return s, f, '%s-%s' % (s['name'], f['name'])

    def options(self, f):
        vs = [v[1] if isinstance(v, tuple) else str(v) for v in self.values(f)]
        out = []
        for v in self.r.sample(vs, min(len(vs), self.r.randrange(1, 4))):
            o = dict(t='option', c=[], a=[['value', v]], k=[dict(t='#', x='An option')])
            if self.p(.2):
                o['a'], o['k'] = [], [dict(t='#', x=v)]
            if self.p(.3):
                o['a'].append(['selected', 'selected'])
            out.append(o)
        if self.p(.3):
            out = [dict(t='optgroup', c=[], a=[], k=out)]
        return out

    def node(self, depth, above, lists):
        """above: structures in reach from structure fields; lists: are there to be no lists."""
        r = self.r
        if r.random() < .2:
            return self.text()
        cls, attrs, kids, tag = [], [], None, r.choice(('div', 'span', 'p', 'li', 'section'))
        boxed = False
        if self.p(.5):                          # what is typed in
            s, f, w = self.field()
            vs = [v[1] if isinstance(v, tuple) else str(v) for v in self.values(f)] if f['type'] != 'struct' else ['1']
            k = r.random()
            if k < .3 or f['type'] == 'struct':
                cls.append(w + '-value')
                tag = r.choice(('input', 'input', 'div'))
            elif k < .5 and f['type'] in ('date', 'epoch', 'int'):
                cls.append(w + '-date-value')
                tag = 'input'
            elif k < .75 and f['type'] in ('bit', 'bits', 'int'):
                cls.append(w + '-bits-checked')
                tag, boxed = 'input', True
                vs = [str(x) for x in (0, 1, 2, 3, 32, 33, 34, 63, 64, 65, r.randrange(65))] + ['-1', 'a', '2a', '1.5', 'NaN']
                bs = [i['bit'] + 1 for i in self.B[f['aux']]['items']] if f['type'] == 'bits' else []
                vs += [str(b) for b in bs for i in (1, 2, 3)]
            else:
                cls.append(w + '-value-checked')
                tag, boxed = r.choice(('input', 'input', 'input', 'input', 'span')), True
            if tag == 'input':
                attrs.append(['type', r.choice(('checkbox', 'radio')) if boxed else 'text'])
                kids = []
                if self.p(.9):
                    attrs.append(['value', r.choice(vs)])
            if boxed and self.p(.4):
                attrs.append(['checked', 'checked'])
        elif self.p(.55):                       # what is written over
            s, f, w = self.field()
            k = r.random()
            cls.append(w + ('-text' if k < .5 else '-date-text' if k < .7 and f['type'] in ('date', 'epoch') else
                            '-label' if k < .8 or f['type'] in ('enum', 'bits') else '-text'))
            kids = [self.text() if self.p(.6) else self.plain() for i in range(r.randrange(3))]
        elif self.p(.15):
            s, f, w = self.field()
            if f['type'] != 'struct':
                cls.append(w + '-enum-select')
                tag, kids = r.choice(('select', 'div')), self.options(f)
                if self.p(.2):
                    kids.append(self.text())
        if self.p(.25):
            s, f, w = self.field()
            cls.append('%s-%s-%s' % (s['name'], r.choice(('has', 'no')), f['name']))
        if kids is None or self.p(.1):
            ss = [(s, f) for s in self.cfg['structs'] for f in s['fields'] if f['type'] == 'struct']
            if ss and self.p(.5):
                s, f = r.choice([x for x in ss if x[0]['name'] in above] or ss) if self.p(.5) else r.choice(ss)
                t = self.target(s, f)
                if t not in above and kids is None:
                    cls.append('%s-%s-obj' % (s['name'], f['name']))
                    above = above + [t]
        if self.p(.2):
            cls.append('hide')
        if self.p(.15):
            cls.append('any')
        if not lists and kids is None and self.p(.25):
            cls.append('list')
            lists = True
        if self.p(.05):
            cls.append(r.choice(('ort-null', 'ort-unset', 'foo')))
        if self.p(.1):
            attrs.append(['title', 'x'])
        if kids is None:
            kids = [self.node(depth - 1, above, lists) for i in range(r.randrange(1, 5))] if depth > 0 else \
                ([self.text()] if self.p(.5) else [])
        r.shuffle(cls)
        return dict(t=tag, c=cls, a=attrs, k=kids)

    def page(self):
        cls = [x for x in ('hide', 'any') if self.p(.1)]
        return dict(t='body', c=cls, a=[], k=[self.node(self.r.choice((1, 2, 3, 3, 4)), [], False) for i in range(self.r.randrange(1, 6))])

    # ---------------------------------------------------------------- calls
    def callbacks(self):
        """(as given, as the specification has them)"""
        r, out = self.r, []
        if self.p(.25):
            return None, []
        for s in self.cfg['structs']:
            if self.p(.25):
                out.append([s['name'], [['record']] * r.choice((1, 1, 2)), 0])
            for f in s['fields']:
                hs = []
                if self.p(.25):
                    hs += [['record']] * r.choice((1, 1, 2, 3))
                if f['type'] == 'enum' and self.p(.5):
                    hs.append(['enum', f['aux']])
                elif f['type'] == 'bits' and self.p(.5):
                    hs.append(['bits', f['aux']])
                elif f['type'] in INTS and self.p(.1) and self.cfg['enums']:
                    hs.append(['enum', r.choice(self.cfg['enums'])['name']])
                elif f['type'] in ('int', 'bit') and self.p(.1) and self.cfg['bits']:
                    hs.append(['bits', r.choice(self.cfg['bits'])['name']])
                r.shuffle(hs)
                if hs:
                    out.append(['%s-%s' % (s['name'], f['name']), hs, 0])
        for x in out:
            x[2] = int(len(x[1]) == 1 and self.p(.6))
        if self.p(.1):
            out.append(['other', [['record']], 1])
        return out, [[k, hs] for k, hs, one in out]

    def formatted(self):
        """A call of a formatter."""
        r = self.r
        en, bi = self.cfg['enums'], self.cfg['bits']
        kind = r.choice(['enum'] * bool(en) + ['bits'] * bool(bi))
        e = r.choice(en if kind == 'enum' else bi)
        f = dict(type=kind, aux=e['name'])
        js = None if self.p(.2) else r.choice(self.values(f))
        if kind == 'enum' and self.p(.1):
            js = r.choice(('x', '', '01', '+1', '1.0', 'toString', '-0'))
        given, spec = (['j', None], ['n']) if js is None else val(js)
        name = []
        if self.p(.8):
            s, f, w = self.field()
            name = [w]
        return dict(m='format', h=[kind, e['name']], p=r.randrange(1000), name=name[0] if name else None, v=given[1]), \
            dict(k='format', h=[kind, e['name']], name=name, v=spec)

    def ops(self, n):
        """[(for the program, for the specification)]"""
        r, out = self.r, []
        langs = ['', 'fr', 'de', 'en', 'xx', 'fr-CA', '_default']
        while len(out) < n:
            if len(out) % 5 == 0:
                g = self.page()
                out.append((dict(m='load', page=g), dict(k='load', page=g)))
            k = r.random()
            if k < .12:
                g = r.choice(langs)
                out.append((dict(m='lang', lang=None if g == '' and self.p(.5) else g), dict(k='lang', lang=g)))
            elif k < .3 and (self.cfg['enums'] or self.cfg['bits']):
                out.append(self.formatted())
            else:
                s = r.choice(self.cfg['structs'])
                many = r.choice((0, 1, 1, 1, 2, 3))
                objs = [self.object(s) for i in range(many)]
                cb, scb = self.callbacks()
                p = 0 if self.p(.35) else -1 if self.p(.06) else r.randrange(1000)
                op = dict(s=s['name'], os=[g for g, x in objs], one=int(many == 1 and self.p(.6)), nil=0, p=p, cb=cb)
                if cb is None and self.p(.5):
                    op['none'] = None
                ev = dict(s=s['name'], os=[x for g, x in objs], cb=scb)
                m = r.choice(('fill', 'fillInner', 'fillByClass', 'fillInnerByClass', 'fillArray', 'fillArrayByClass',
                              'fillArrayOrHide', 'fillArrayOrShow'))
                if 'Array' in m:
                    op['nil'] = int(self.p(.3))
                op['m'] = m
                if m in ('fill', 'fillInner'):
                    ev.update(k='fill', inc=int(m == 'fill'))
                elif m in ('fillByClass', 'fillInnerByClass'):
                    op['by'] = ev['by'] = r.choice(('any', 'any', 'list', 'nobody'))
                    ev.update(k='class', inc=int(m == 'fillByClass'))
                elif m == 'fillArray':
                    ev.update(k='array')
                elif m == 'fillArrayByClass':
                    op['by'] = ev['by'] = 'list'
                    ev.update(k='arrayclass')
                else:
                    op['q'] = -1 if self.p(.1) else r.randrange(1000)
                    ev.update(k='arrayor', show=int(m.endswith('Show')))
                out.append((op, ev))
        return out
