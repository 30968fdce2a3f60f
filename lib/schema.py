"""Histories of schemas printed by ort-sql, judged by the specification OrtSchema."""
import json, os, random, sqlite3
import vf, backend as B, rt, cfggen
from scripts import Scripter


def catalogue(path, names):
    """The SQLite catalogue in the terms of OrtSchema."""
    c = sqlite3.connect(path)
    try:
        out = {}
        for (t, kind) in c.execute("SELECT name, type FROM sqlite_master WHERE type IN "
                                   "('table','view','trigger') AND name NOT LIKE 'sqlite_%'"):
            cols = [[r[1], r[2] if r[4] is None else '%s default %s' % (r[2], r[4]), r[3],
                     int(r[5])] for r in c.execute('PRAGMA table_info("%s")' % t)]
            uniq = []
            for r in list(c.execute('PRAGMA index_list("%s")' % t)):
                cs = [x[2] for x in c.execute('PRAGMA index_info("%s")' % r[1])]
                uniq.append(cs if r[2] and not r[4] else cs + ['!not-unique'])
            refs = [[r[3], r[2], r[4] or '?', r[5], r[6]]
                    for r in c.execute('PRAGMA foreign_key_list("%s")' % t)]
            if kind != 'table':
                cols = [['!' + kind, '', 0, 0]]
            out[t] = dict(cols=cols, uniq=uniq, refs=refs)
        return out
    finally:
        c.close()


def sqlval(v, f):
    if v is None:
        return None
    return bytes(v) if f['type'] == 'blob' else v


class Prober:
    """Seeded plain SQL statements against one database."""

    def __init__(self, cfg, rng, path):
        self.cfg, self.r, self.path = cfg, rng, path
        self.sc = Scripter(cfg, rng)
        self.c = sqlite3.connect(path, isolation_level=None)
        self.c.execute('PRAGMA foreign_keys=ON')

    def value(self, f, key=False):
        r = self.r
        if f['ref'] and r.random() < .75:
            s, k = f['ref'][0]
            have = [x[0] for x in self.c.execute('SELECT "%s" FROM "%s" WHERE "%s" IS NOT NULL' %
                                                 (k, s, k))]
            if have:
                return r.choice(have)
        g = f
        while g['ref']:
            g = B.fof(B.sof(self.cfg, g['ref'][0][0]), g['ref'][0][1])
        return sqlval(self.sc.value(dict(g, unique=f['unique'])), g)

    def event(self, dump=True):
        r = self.r
        st = r.choice(self.cfg['structs'])
        stored = [f for f in st['fields'] if f['type'] != 'struct']
        ids = [x[0] for x in self.c.execute('SELECT rowid FROM "%s"' % st['name'])]
        k = r.choices(('insert', 'update', 'delete'), (6, 3, 1.2))[0]
        if not ids and r.random() < .9:
            k = 'insert'
        # statements with at most one reason to fail are the more telling ones
        drop = r.random() < .25
        nulls = r.random() < .25
        if k == 'insert':
            given = []
            for f in stored:
                if f['rowid'] and r.random() < .7:
                    continue
                if (f['null'] and r.random() < .3) or (drop and r.random() < .25):
                    continue
                v = self.value(f)
                if (f['null'] or (nulls and r.random() < .25)) and r.random() < .3:
                    v = None
                given.append((f, v))
            if given:
                sql = 'INSERT INTO "%s" (%s) VALUES (%s)' % (
                    st['name'], ','.join('"%s"' % f['name'] for f, v in given),
                    ','.join('?' * len(given)))
            else:
                sql = 'INSERT INTO "%s" DEFAULT VALUES' % st['name']
            args = [v for f, v in given]
        else:
            i = r.choice(ids) if ids and r.random() < .95 else 77
            given = []
            sql = 'DELETE FROM "%s"' % st['name']
            if k == 'update':
                for f in r.sample(stored, min(len(stored), r.choice((1, 1, 2)))):
                    v = self.value(f)
                    if not f['rowid'] and (f['null'] or nulls) and r.random() < .3:
                        v = None
                    given.append((f, v))
                sql = 'UPDATE "%s" SET %s' % (st['name'],
                                              ','.join('"%s"=?' % f['name'] for f, v in given))
            sql += ' WHERE rowid=?'
            args = [v for f, v in given] + [i]
        e = dict(k=k, s=st['name'], sql=sql, args=[repr(a) for a in args],
                 given=[[f['name'], B.sval(v, f)] for f, v in given], id=['null'])
        if k != 'insert':
            e['id'] = B.s_int(i)
        try:
            cur = self.c.execute(sql, args)
            e['res'] = ['id', B.s_int(cur.lastrowid)] if k == 'insert' else ['done']
        except sqlite3.IntegrityError as x:
            e['res'] = ['fail']
            e['msg'] = str(x)
        except sqlite3.Error as x:
            e['res'] = ['error']
            e['msg'] = str(x)
        if dump:
            e['odb'] = B.projdb(self.cfg, B.dbsql(self.cfg, self.path))
        return e

    def close(self):
        self.c.close()


def same(evs, init):
    last, out = init, []
    for e in evs:
        e = {k: v for k, v in e.items() if k not in ('sql', 'args', 'msg')}
        if e['odb'] == last:
            e['same'], e['db'] = 1, {}
        else:
            e['same'], e['db'] = 0, e['odb']
            last = e['odb']
        del e['odb']
        out.append(e)
    return out


def schema_trace(cfg, ortfile, d, rng, n):
    """(init, events) for one configuration; raises B.GenFailure if the schema is unusable."""
    path = os.path.join(d, 'a.db')
    B.newdb(ortfile, path)
    cat = catalogue(path, [s['name'] for s in cfg['structs']])
    try:
        init = B.projdb(cfg, B.dbsql(cfg, path))
    except (B.Bad, KeyError, sqlite3.Error):
        init = {s['name']: [] for s in cfg['structs']}
    evs = [dict(k='catalogue', s='', given=[], id=['null'], res=['none'], cat=cat, odb=init)]
    p = Prober(cfg, rng, path)
    try:
        for _ in range(n):
            e = p.event()
            e['cat'] = {}
            evs.append(e)
    except (B.Bad, KeyError, sqlite3.Error) as x:
        evs.append(dict(k='bad', s='', given=[], id=['null'], res=['none'], cat={}, odb=init,
                        msg=repr(x)))
    finally:
        p.close()
    return init, evs
