"""The variants of spec/OrtEvolveMC.tla (TLC explores all migrations between them and writes them
down), run through ort-diff and ort-sqldiff."""
import copy, json, os, random, shutil, sqlite3
import vf, cfggen, evolve as E, backend as B

CONTENTS = ('none', 'plain', 'twice')


def explore(module='OrtEvolveMC', **env):
    """Model check the module: (TLC result, configurations as the specification has them)."""
    p = os.path.join(vf.scratch(), module + '.json')
    o = vf.tlc_ok(vf.tlc(module, env=dict(env, VARIANTS=p)), module)
    return o, json.load(open(p))


def number(v):
    """A 64-bit integer as written by the specification."""
    assert v[0] == 'i'
    return ((v[1] - 524288) << 44) + (v[2] << 22) + v[3]


def text(cfg):
    c = copy.deepcopy(cfg)
    for e in c['enums']:
        for i in e['items']:
            i['val'] = [str(number(x)) for x in i['num']]
    return cfggen.render(c)


class Variants:
    def __init__(self, cfgs, d):
        self.cfgs, self.d = cfgs, d
        self.files = [E.write_docs(d, 'v%d.' % i, [text(c)]) for i, c in enumerate(cfgs)]
        bad = [f for f in self.files if not E.accepted(f)[0]]
        if bad:
            raise vf.Fail('variant not accepted: ' + open(bad[0][0]).read())

    def compare(self, a, b):
        rc, es, out = E.compare(self.files[a], self.files[b])
        return dict(cfg=a + 1, evs=[dict(
            k='compare', to=b + 1, status=rc if isinstance(rc, int) else 99,
            entries=es if isinstance(es, list) else [['?', es, '', '', '']])]), \
            dict(old=open(self.files[a][0]).read(), new=open(self.files[b][0]).read(),
                 status=rc, out=out)

    def database(self, a, content):
        """The first two events of a database of variant a with the given content."""
        db = os.path.join(self.d, 'v%d.%s.db' % (a, content))
        B.newdb(self.files[a][0], db)
        evs = [dict(k='create', cat=E.catalogue(db))]
        if content != 'none':
            c = sqlite3.connect(db)
            c.execute('INSERT INTO tgt (id,alt) VALUES (1,1),(7,7)')
            m = [s for s in self.cfgs[a]['structs'] if s['name'] == 'main']
            if m:
                v = [f for f in m[0]['fields'] if f['name'] == 'var']
                vals = [(1, 1), (2, 7)]
                if v and v[0]['null']:
                    vals += [(5, None), (5, None)]
                if content == 'twice' and not (v and v[0]['unique']):
                    vals += [(1 if not m[0]['uniques'] else 3, 1)]
                for i, (o, x) in enumerate(vals):
                    if v and v[0]['type'] == 'text' and x is not None:
                        x = 'text %d' % x
                    c.execute('INSERT INTO main (id,oth%s) VALUES (?,?%s)' % (
                        (',var', ',?') if v else ('', '')), [10 + i, o] + [x] * len(v))
            c.commit()
            c.close()
        evs.append(dict(k='fill', rows=E.dump(db)))
        return db, evs

    def migrate(self, a, b, destruct, base, k):
        """Run ort-sqldiff and its output: (event, what was seen)."""
        rc, sql, err = E.sqldiff(self.files[a], self.files[b], destruct)
        raw = dict(old=open(self.files[a][0]).read(), new=open(self.files[b][0]).read(),
                   destruct=destruct, status=rc, sql=sql, err=err)
        if rc != 0:
            return dict(k='sqldiff', to=b + 1, destruct=destruct,
                        status=rc if isinstance(rc, int) and not E.statements(sql) else 99), raw
        db = os.path.join(self.d, 'm%d.db' % k)
        shutil.copyfile(base, db)
        done, raw['applied'] = E.apply_sql(db, sql)
        e = dict(k='migrate', to=b + 1, destruct=destruct, status=rc,
                 empty=int(not E.statements(sql)), done=done, cat=E.catalogue(db), rows=E.dump(db))
        os.unlink(db)
        return e, raw

    def migrations(self, a, tos):
        """Traces of migrations from variant a to others: [(b, destruct, content)]."""
        base = {}
        out, refused = [], None
        for k, (b, d, content) in enumerate(tos):
            if content not in base:
                base[content] = self.database(a, content)
            db, evs = base[content]
            e, raw = self.migrate(a, b, d, db, a * 100000 + k)
            if e['k'] == 'sqldiff':
                if refused is None:
                    refused = (dict(cfg=a + 1, evs=list(evs)), [None, None])
                refused[0]['evs'].append(e)
                refused[1].append(raw)
            else:
                out.append((dict(cfg=a + 1, evs=evs + [e]), [None, None, raw]))
        for db, evs in base.values():
            os.unlink(db)
        return out + ([refused] if refused else [])
