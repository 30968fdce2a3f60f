"""Small documents that vary one rule of the language at a time (see spec/OrtWellFormed.tla)."""
import itertools
import mutate as M

TYPES = ['bit', 'bits B', 'blob', 'date', 'email', 'enum E', 'epoch', 'int', 'password', 'real',
         'text', 'struct r']
AUX = 'enum E { item a 1; item c; }; bits B { item x 0; item y 3; };\n'
WORDS = ('auto break case char const continue default do double else enum extern float for goto if '
         'inline int long register restrict return short signed sizeof static struct switch typedef '
         'union unsigned void volatile while abort action add after all alter analyze and as asc '
         'attach autoincrement before begin between by cascade cast check collate column commit '
         'conflict constraint create cross database deferrable deferred delete desc detach distinct '
         'drop each end escape except exclusive exists explain fail foreign from full glob group '
         'having ignore immediate in index indexed initially inner insert instead intersect into is '
         'isnull join key left like limit match natural no not notnull null of offset on or order '
         'outer plan pragma primary query raise recursive references regexp reindex release rename '
         'replace right rollback row savepoint select set table temp temporary then to transaction '
         'trigger union unique update using vacuum values view virtual when where with without '
         'nothing returning current first last over window class new this function var let format '
         'none role item name comment field search list count insert iterate').split()


def ops(rng):
    """Operators of queries, updates and deletes by type."""
    out = []
    for t, op, nl in itertools.product(TYPES, M.OPS, ('', ' null')):
        if t.startswith('struct') and nl:
            continue
        fld = 'field f %s%s;' % (t, nl)
        for kind, d in itertools.product(M.KINDS, ('', ' : distinct r')):
            out.append(AUX + 'struct t { field id int rowid; %s };\nstruct s { field id int rowid; '
                       'field q:t.id int; field r struct q; %s %s f %s%s; };' %
                       (fld.replace('struct r', 'int'), fld, kind, op, d))
        out.append(AUX + 'struct t { field id int rowid; field q:s.id int; %s };\nstruct s { field '
                   'id int rowid; field b:t.id int; field r struct b; %s r.f %s: distinct .; };' %
                   (fld.replace('struct r', 'struct q'), rng.choice(M.KINDS), op)
                   if not t.startswith('struct') else
                   AUX + 'struct t { field id int rowid; field q:u.id int; field f struct q; };\n'
                   'struct u { field id int rowid; }; struct s { field b:t.id int; field r struct b; '
                   'search r.f %s; };' % op)
        base = AUX + 'struct t { field id int rowid; };\nstruct s { field q:t.id int; field r struct '\
            'q; %s %%s };' % fld
        out.append(base % ('update q: f %s;' % op))
        out.append(base % ('delete f %s;' % op))
    for t, m, nl in itertools.product(TYPES, M.MODS, ('', ' null')):
        if not (t.startswith('struct') and nl):
            out.append(AUX + 'struct t { field id int rowid; };\nstruct s { field q:t.id int; field '
                       'r struct q; field f %s%s; update f %s: q; };' % (t, nl, m))
    return out


def fields(rng):
    out = []
    refs = ['', ':t.id', ':t.u', ':t.n', ':t.z', ':y.z', ':s.f']
    for t, ref in itertools.product(TYPES, refs):
        for fl in [()] + [(f,) for f in M.FLAGS] + list(itertools.combinations(M.FLAGS, 2)):
            acts = rng.choice([(), ('actdel ' + rng.choice(M.ACTS),), ('actup ' + rng.choice(
                M.ACTS), 'actdel ' + rng.choice(M.ACTS))])
            dfl = rng.choice([(), (), ('default ' + default(t, rng),)])
            info = list(fl + acts + dfl)
            rng.shuffle(info)
            tt = t if rng.random() < .8 else rng.choice(TYPES)
            tt = tt.replace('struct r', 'int')
            out.append(AUX + 'struct t { field id int rowid; field u %s unique; field n %s; };\n'
                       'struct s { field q:t.id int; field r struct q; field f%s %s %s; };' %
                       (tt, tt, ref, t.replace('struct r', 'struct q'), ' '.join(info)))
    for t in TYPES:
        for v in M.INTS + M.DECS + M.LITS + ['a', 'z', 'x', '2020-01-31', '2020-02', '2020 12 01']:
            for w in ('default ', 'limit %s ' % rng.choice(['ge', 'le', 'gt', 'lt', 'eq'])):
                out.append(AUX + 'struct s { field q:s.id int; field id int rowid; field f %s %s%s; '
                           '};' % (t.replace('struct r', 'struct q')
                                   if rng.random() < .01 else t.replace('struct r', 'int'), w, v))
        for a, b in itertools.product(['ge', 'le', 'gt', 'eq', 'like', 'neq'], ['0', '1', '1.0']):
            out.append(AUX + 'struct s { field f %s limit ge 1 limit %s %s; };' %
                       (t.replace('struct r', 'real'), a, b))
    for w in M.ACTS + ['set']:
        for x in ('actdel', 'actup'):
            for fl in ('', 'null', 'default 1', 'null default 1', 'unique'):
                out.append('struct t { field id int rowid; };\nstruct s { field f:t.id int %s %s '
                           '%s; };' % (fl, x, w))
    return out


def default(t, rng):
    t = t.split()[0]
    return {'real': '1.5', 'text': '"x"', 'email': '"x"', 'enum': rng.choice('acz'),
            'date': '2020-01-02'}.get(t, rng.choice(['0', '3', '-1']))


def words(rng):
    out = []
    for w in WORDS:
        w = rng.choice([w, w, w.upper(), w.capitalize()])
        out += [s % w for s in (
            'struct %s { field a int; };', 'struct s { field %s int; };',
            'enum %s { item a; }; struct s { field a int; };',
            'bits %s { item a 0; }; struct s { field a int; };',
            'enum e { item %s; }; struct s { field a int; };',
            'bits e { item %s 0; }; struct s { field a int; };',
            'roles { role %s; }; struct s { field a int; };',
            'struct s { field a int; search a: name %s; };',
            'struct s { field a int; update a: : name %s; };',
            'struct s { field a int; delete a: name %s; };',
            'enum e { item a jslabel.%s "x"; }; struct s { field a int; };')]
    return out


def items(rng):
    out = []
    vals = ['', '', '0', '1', '2', '-1', '-0', '00', '9223372036854775806', '9223372036854775807',
            '-9223372036854775807', '63', '64', '62']
    for n in (0, 1, 2, 2, 3, 3, 4):
        for _ in range(40):
            ns = [rng.choice('abcdefghABC') for _ in range(n)]
            its = ' '.join('item %s %s;' % (x, rng.choice(vals)) for x in ns)
            out.append('enum e { %s }; struct s { field f enum e; };' % its)
            its = ' '.join('item %s %s;' % (x, rng.choice(vals[2:])) for x in ns)
            out.append('bits e { %s }; struct s { field f bits e; };' % its)
    for _ in range(120):
        ls = ' '.join('jslabel%s %s' % (rng.choice(['', '.de', '.DE', '.fr']),
                                        rng.choice(['"x"', '"y"', '""']))
                      for _ in range(rng.randint(1, 3)))
        out.append(rng.choice(['enum e { item a %s; };', 'bits e { item a 0 %s; };',
                               'enum e { item a; isnull %s; };', 'bits e { item a 0; isnull %s; };',
                               'bits e { item a 0; isunset %s; };', 'enum e { item a; isunset %s; };',
                               'bits e { item a 0; isnull jslabel "a"; unset jslabel "b"; isunset '
                               '%s; };',
                               'enum e { item a; isnull jslabel "a"; isnull %s; };']) % ls +
                   ' struct s { field a int; };')
    return out


def grants(rng):
    out = []
    kinds = M.KINDS + ['update', 'delete', 'insert', 'noexport', 'all']
    for _ in range(500):
        def block():
            rs = ', '.join(rng.choice(['a', 'b', 'c', 'all', 'default', 'A'] if rng.random() < .93
                                      else ['none', 'z']) for _ in range(rng.choice((1, 1, 2))))
            os = ' '.join('%s %s;' % (o, {'insert': '', 'all': ''}.get(o, rng.choice(
                ['n1', 'n2'] if o in M.KINDS else ['u1'] if o == 'update' else ['d1'] if o ==
                'delete' else ['', 'f', 'g']) if rng.random() < .9 else rng.choice(
                ['n1', 'u1', 'd1', 'f', 'x', ''])))
                for o in (rng.choice(kinds) for _ in range(rng.choice((0, 1, 1, 2)))))
            return 'roles %s { %s };' % (rs, os)
        q = rng.choice(M.KINDS) if rng.random() < .3 else 'search'
        out.append('%sstruct s { field f int; field g text unique; %s %s g: name n1; list: name n2; '
                   'update f: : name u1; delete g: name d1; %s };' % (
                       'roles { role a { role b; }; role c; };\n' if rng.random() < .9 else '',
                       'insert;' if rng.random() < .7 else '', q,
                       ' '.join(block() for _ in range(rng.choice((1, 2, 2, 3))))))
    for _ in range(80):
        def tree(d):
            return ' '.join('role %s%s%s;' % (
                rng.choice('abcdefghijklmnopqrstuvwxyzAB'), rng.choice(
                    ['', '', ' comment "x"', ' comment "x" comment "y"' if rng.random() < .3 else '']),
                ' { %s }' % tree(d + 1) if d < 3 and rng.random() < .5 else '')
                for _ in range(rng.choice((0, 1, 2, 2))))
        out.append('%s struct s { field a int; };' % ' '.join(
            'roles { %s };' % tree(0) for _ in range(rng.choice((1, 1, 1, 2)))))
    return out


def paths(rng):
    """Paths, orders, groups and distincts over three structures."""
    out = []
    for _ in range(900):
        def ref(n, t):
            fl = ' null' if rng.random() < .2 else ''
            return 'field %sid:%s.id int%s; field %s struct %sid;' % (n, t, fl, n, n)
        ends = ['x', 'p', 'e', 'id']
        ab = ['', 'ab.', 'ab.bc.', 'ac.', 'ab.bc.cb.' if rng.random() < .3 else '', 'x.']

        def path():
            w = rng.choice(ab[:5]) if rng.random() < .97 else rng.choice(ab)
            e = rng.choice(ends[:2] if rng.random() < .6 else ends)
            if rng.random() < .12:
                return (w[:-1] or 'ab') if rng.random() < .8 else 'zz'
            return w + e

        def strct():
            return rng.choice(['.', 'ab', 'ac', 'ab.bc', 'ab.bc', 'ab.x', 'x', 'abid', 'zz'])
        ps = []
        for _ in range(rng.choice((0, 1, 1, 2))):
            k = rng.randrange(7)
            ps.append([
                lambda: 'distinct ' + strct(),
                lambda: 'order ' + ', '.join('%s %s' % (path(), rng.choice(['', 'asc', 'desc']))
                                             for _ in range(rng.choice((1, 2)))),
                lambda: rng.choice(['grouprow', 'minrow', 'maxrow']) + ' ' + path(),
                lambda: 'grouprow %s %s %s' % (path(), rng.choice(['minrow', 'maxrow']), path()),
                lambda: 'grouprow ab.bc.%s maxrow ab.bc.%s' % (rng.choice(ends), rng.choice(ends)),
                lambda: 'limit %s' % rng.choice(['1', '0', '-1', '3, 2', '3, -2', '-1, 0']),
                lambda: 'distinct .'][k]())
        ts = ', '.join('%s %s' % (path(), rng.choice(['', '', 'eq', 'lt', 'isnull', 'streq',
                                                      rng.choice(M.OPS)]))
                       for _ in range(rng.choice((0, 1, 1, 2))))
        body = 'field id int rowid; field x int%s; field p %s%s; field e text unique;'
        bodies = [body % (' null' if rng.random() < .1 else '',
                          rng.choice(['password', 'text', 'int']),
                          ' null' if rng.random() < .15 else '') for _ in range(3)]
        cb = ref('cb', 'b') if rng.random() < .07 else ''
        ss = ['struct a { %s %s %s %s %s; };' % (
            bodies[0], ref('ab', 'b'), ref('ac', 'c'),
            rng.choice(M.KINDS) + ' ' + ts, ': ' + ' '.join(ps) if ps else ''),
            'struct b { %s %s };' % (bodies[1], ref('bc', 'c')),
            'struct c { %s %s };' % (bodies[2], cb)]
        rng.shuffle(ss)
        out.append('\n'.join(ss))
    return out


def twins(rng):
    """Names and statements given twice."""
    out = []
    sts = ['search f', 'search g', 'list f', 'count f', 'iterate g', 'list', 'iterate', 'search f lt',
           'search f, g', 'search g, f', 'update f: g', 'update g: f', 'update f inc: g', 'update',
           'update : g', 'update : g isnull', 'delete f', 'delete g', 'delete', 'delete f, g',
           'insert', 'unique f, g', 'unique g, f', 'unique f, f', 'unique f, G', 'unique f, g, h',
           'unique h, g', 'unique f, r', 'unique f, z', 'comment "x"', 'field f int', 'field F text',
           'field i int', 'field id int rowid', 'field id2 int rowid']
    for _ in range(900):
        ss = [rng.choice(sts) for _ in range(rng.choice((1, 2, 2, 3)))]
        if rng.random() < .5:
            ss.append(rng.choice(ss))
        body = []
        for s in ss:
            k = s.split()[0]
            if k in M.KINDS + ['update', 'delete'] and rng.random() < .5:
                n = 2 if k == 'delete' or k != 'update' else 3
                n = 1 if k != 'update' else 2 - s.count(':')
                s += ':' * n + ' name ' + rng.choice(['a', 'b', 'A', 'a', 'c'])
                if rng.random() < .03:
                    s += ' name d'
            body.append(s + ';')
        out.append('struct s { field q:t.id int; field r struct q; field f int; field g int null; '
                   'field h text; %s };\nstruct t { field id int rowid; };' % ' '.join(body))
    for _ in range(60):
        ts = [rng.choice(['struct %s { field a int; };', 'enum %s { item a; };',
                          'bits %s { item a 0; };', 'bitfield %s { item a 0; };',
                          'struct %s { };', 'enum %s { };', 'bits %s { };']) % rng.choice(
            ['a', 'b', 'A', 'c', 'd']) for _ in range(rng.choice((0, 1, 1, 2, 2, 3)))]
        out.append(' '.join(ts))
    return out


def cycles(rng):
    """Structures in structures."""
    out = []
    for _ in range(250):
        n = rng.choice((1, 2, 3, 3))
        names = 'abc'[:n]
        ss = []
        for x in names:
            fs = ['field id int rowid;']
            for y in names:
                if rng.random() < .3:
                    fs.append('field %si:%s.id int; %s' % (
                        y, y, 'field %ss struct %si;' % (y, y) if rng.random() < .6 else ''))
            if rng.random() < .05:
                fs.append('field w struct ' + rng.choice(['id', 'zz', 'w', 'as']) + ';')
            rng.shuffle(fs)
            ss.append('struct %s { %s };' % (x, ' '.join(fs)))
        out.append(' '.join(ss))
    return out


ONE = """
field x:t.id int rowid;
field x:t.id int rowid null;
field x int rowid rowid;
field x int rowid null; field id2 text;
field x text rowid;
field x int null; search x isnull, x notnull: name xx;
field r struct q unique;
field r struct q null;
field r struct q noexport;
field r struct q actdel none;
field r struct q rowid;
field r:t.id struct q;
field r struct nq; search r.x;
field r struct nq; list r.x;
field r struct nq; list: distinct r;
field r struct q; list: distinct r;
field r struct q; field r2 struct q; list r.x, r2.x: distinct r order r2.e;
field y int; field z int; list: grouprow e grouprow y maxrow z;
field y int; field z int; list: grouprow e maxrow y minrow z;
field y int; list: grouprow e maxrow e;
field y int; list: grouprow e maxrow y;
field y int; list: grouprow y;
field y int; list: minrow y;
field y int; field r struct q; list: grouprow y maxrow r;
field y int; field r struct q; list: grouprow r maxrow y;
field y int; field r struct q; list: grouprow y maxrow r.x;
field y int; field r struct q; list: grouprow r.e maxrow r.x;
field r struct q; list r;
field r struct q; list: order r;
field y int null; list: grouprow e maxrow y;
field y int null; list: grouprow y maxrow e;
field y password; list: grouprow y maxrow e;
field y password; list: grouprow e maxrow y;
field y password; list y;
field y password; list y: distinct .;
field y password; count y;
field y password; count y isnull;
field y password; count y streq;
field y password; count y: distinct .;
field y password; count y neq;
field y password; search y lt;
field y password; search y neq;
field y password; update y inc: e;
field y password; update y strset: e;
field y password; update e: y;
field y password; update e: y neq;
field y password; update e: y strneq;
field y password null; update e: y notnull;
field y password; delete y;
field y password; delete y streq;
field y email; update y concat: e; update y inc: e;
field y blob; update y concat: e;
field y text limit ge -1;
field y text limit ge -0;
field y real limit ge -1.5 limit ge -1.50;
field y int limit ge 1 limit le 1;
field y int limit ge 1 limit ge 01;
field y date limit ge 1;
field y enum E limit ge 1;
field y bits B limit ge 1;
field y enum E default a;
field y enum E default b;
field y enum X;
field y bits X;
field y enum B;
field y bits E;
field y bits B default -1;
field y blob default "x";
field y password default "x";
field y struct q default 1;
field y struct zz;
field y struct y;
field y struct e;
field y:t.id text;
field y:t.e text;
field y:t.x int;
field y:t.zz int;
field y:zz.id int;
field y:t.id int actdel nullify;
field y:t.id int null actdel nullify;
field y:t.id int actdel default;
field y:t.id int null actdel default;
field y:t.id int default 1 actdel default;
field y:t.id int default 1 actup default actup none;
field y:t.id int actdel nullify actdel none;
field y int actdel none;
field y int actdel cascade;
field y int comment "a" comment "b";
field y int comment "";
field y int; comment "x"; comment "y";
field y int; list: comment "x" comment "y";
field y int; list: name a; list: name A;
field y int; list: limit -1;
field y int; list: limit 0;
field y int; list: limit 3, -4;
field y int; list: limit 3, 0;
field y int; list: distinct . distinct .;
field y int; list: distinct y;
field y int; list y.x;
field y int; list zz.x;
field y int; list y and; list y like;
field y email; list y like;
field y int; unique y, e;
field y int; unique y, y;
field y int; unique y, e; unique e, y;
field y int; unique y, e, q; unique e, y;
field y int; unique y, zz;
field y int; field r struct q; unique y, r;
insert; insert;
roles zz { all; };
roles A { all; };
roles a, b { all; };
roles a, a { all; };
roles a { all; all; };
roles a { all; }; roles a { all; };
roles all { all; };
roles default { all; };
roles none { all; };
roles none { };
roles zz { };
roles a { insert; };
insert; roles a { insert; };
insert; roles a { insert; }; roles c { insert; };
roles a { noexport; };
roles a { noexport e; };
roles a { noexport zz; };
roles a { noexport e; }; roles a { noexport e; };
roles a { noexport e; }; roles c { noexport e; };
roles a { noexport; noexport e; };
roles a { list zz; };
list: name zz; roles a { list zz; };
list: name zz; roles a { search zz; };
list: name zz; roles a { count zz; };
list: name zz; roles a { list; };
update e: : name u; roles a { update u; };
update e: : name u; roles a { delete u; };
delete e: name u; roles a { delete u; };
delete e: name u; roles a { update u; };
update e: : name u; delete e: name u; list: name u;
update e: : name u; update q: : name U;
update e: : name u; update e: : name u2;
update e; update e;
update e set; update e;
update e; update e strset;
update e: e eq; update e: e;
update: e; update: e;
update: e; update e: e;
delete; delete;
delete e; delete e eq;
delete e; delete e lt;
list; list;
list; search;
list e; list e eq;
list e: name a; list e;
list e: limit 1; list e: limit 2;
list e, q; list q, e;
"""


def rules(rng):
    """Each rule of fields and operations kept or broken, one at a time."""
    out = []
    for one in ONE.strip().split('\n'):
        for tr in ('roles { role a { role b; }; role c; };\n', ''):
            if not tr and 'roles' not in one and rng.random() < .9:
                continue
            pre = rng.choice(['', 'field id int rowid;']) if 'rowid' not in one else ''
            ss = ['struct t { field id int rowid; field x int; field e text unique; };',
                  'struct s { %s field q:t.id int; field nq:t.id int null; field e text; %s };' %
                  (pre, one), AUX.strip()]
            rng.shuffle(ss)
            out.append(tr + '\n'.join(ss))
    return out


ALL = dict(rules=rules, ops=ops, fields=fields, words=words, items=items, grants=grants, paths=paths,
           twins=twins, cycles=cycles)
