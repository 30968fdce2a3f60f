import json, os, random, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vf, rt, cfggen, evolve as E, ortparse, textual as T

KINDS = ('insert', 'update', 'delete', 'search', 'list', 'iterate', 'count')


def broken(role, why):
    return dict(k='broken', role=role, why=str(why)[:600])


def lines(out, at, verbose):
    """The report of ort-audit: operations and reached structures."""
    ops, reach = [], []
    for ln in out.split('\n')[:-1]:
        w = ln.split()
        if len(w) != 3:
            raise ValueError('line %r' % ln)
        f, l, col = w[2].rsplit(':', 2)
        place = at(f, int(l), int(col))
        x = w[1].split(':')
        if w[0] in ('read', 'readwrite'):
            if verbose:
                s, kind, name, path = x
                reach.append([w[0] == 'readwrite', s, kind, '' if name == '-' else name,
                              [] if path == '-' else path.split('.'), place])
            else:
                reach.append([w[0] == 'readwrite', *x, place])
                if len(x) != 1:
                    raise ValueError('line %r' % ln)
        elif w[0] in KINDS:
            s, name = (x + ['-'])[:2] if w[0] == 'insert' else x
            ops.append([w[0], s, '' if name == '-' else name, place])
        else:
            raise ValueError('line %r' % ln)
    return ops, reach


def doc(x):
    return [] if x is None else [T.esc(x)]


def report(d, role):
    """The report of ort-audit-json."""
    if set(d) != {'role', 'doc', 'access', 'functions', 'fields'} or d['role'] != role:
        raise ValueError('keys %s, role %s' % (sorted(d), d.get('role')))
    access = []
    for a in d['access']:
        x = a['access']
        ops = {k: x['get' if k == 'search' else k] for k in KINDS}
        ops['insert'] = [] if ops['insert'] is None else [ops['insert']]
        access.append(dict(name=a['name'], ops=ops, exportable=x.get('exportable', False),
                           data=x.get('data', []),
                           **{'from': [[y['function'], y['path'].split('.') if y['path'] else [],
                                        y['exporting']] for y in x.get('accessfrom', [])]}))
    kinds = {'get': 'search'}
    return dict(doc=doc(d['doc']), access=access,
                functions=[[k, kinds.get(f['type'], f['type']), doc(f['doc'])]
                           for k, f in d['functions'].items()],
                fields=[k.split('.') + [f['export'], doc(f['doc'])]
                        for k, f in d['fields'].items()])


NODE = r'''
const vm = require('vm'), fs = require('fs');
console.log(JSON.stringify(JSON.parse(fs.readFileSync(0, 'utf8')).map(src => {
    const g = vm.createContext({});
    try { vm.runInContext(src, g); return JSON.stringify(g.audit) ?? null; }
    catch (e) { return null; }
})));
'''


def one(r):
    rng = r.rng
    texts = [cfggen.render(r.cfg, rng)] if rng.random() < .4 else \
        E.respell(r.cfg, rng, rng.choice((1, 1, 2, 3)))
    fs = r.docs('a', texts)
    if not E.accepted(fs)[0]:
        return False
    src = r.add(*texts)
    cfg, at = ortparse.parse_pos(*[(f, T.source(f)) for f in fs])
    roles = [x['name'] for x in cfg['roles']] + ['all', 'default', 'none', 'nosuchrole']
    if not cfg['hasroles']:
        roles = ['default', 'all']
    rng.shuffle(roles)
    evs, r.late = [], []
    for role in roles[:5]:
        tools = ['ort-audit', 'ort-audit -v', 'ort-audit-json', 'ort-audit-json -s']
        rng.shuffle(tools)
        for t in tools[:3]:
            name = role if rng.random() < .7 else role.upper()
            w = t.split()
            piped = len(fs) == 1 and rng.random() < .2
            rc, out, err = vf.run([vf.tool(w[0])] + w[1:] + ['-r', name] + ([] if piped else fs),
                                  inp=T.source(fs[0]) if piped else None)
            out = out.replace('<stdin>', fs[0])
            raw = dict(source=texts, tool=t, role=role, out=out, err=err)
            if rc == 1:
                ev = dict(k='silent', role=role, status=rc, said=len(out))
            elif rc != 0:
                ev = broken(role, 'status %s' % rc)
            else:
                try:
                    if w[0] == 'ort-audit':
                        ops, reach = lines(out, at, len(w) > 1)
                        ev = dict(k='paths' if len(w) > 1 else 'audit', role=role, status=rc,
                                  ops=ops, reach=reach)
                    elif len(w) > 1:
                        r.late.append((len(evs), out, role))
                        ev = {}
                    else:
                        ev = dict(report(json.loads(out, object_pairs_hook=T.once), role),
                                  k='json', role=role, status=rc)
                except (ValueError, KeyError, TypeError, AttributeError, T.Dup) as x:
                    ev = broken(role, '%s: %s' % (type(x).__name__, x))
            evs.append((ev, raw))
    r.evs, r.src = evs, src
    return True


def finish(runs):
    """JavaScript documents are run."""
    jobs = [(r, x) for r in runs if r.ok for x in r.late]
    rc, out, err = vf.run(['node', '-e', NODE], inp=json.dumps([x[1] for r, x in jobs]), timeout=300)
    if rc != 0:
        raise vf.Fail('node: ' + err[-1000:])
    for (r, (i, src, role)), o in zip(jobs, json.loads(out)):
        try:
            ev = dict(report(json.loads(o or 'null'), role), k='json', role=role, status=0)
        except (ValueError, KeyError, TypeError, AttributeError) as x:
            ev = broken(role, '%s: %s' % (type(x).__name__, x))
        r.evs[i] = (ev, r.evs[i][1])
    for r in runs:
        if r.ok:
            r.trace(r.src, *r.evs)


one.finish = finish


def check():
    c = vf.Check('C15', 'model_checking')
    T.campaign(c, one, 220000, 900, dict(roles=.95, nxgrant=.5, noexport=.2, docs=.3, labels=.1,
                                         maxfields=5, maxupd=2), module='OrtAuditTrace', seconds=400)
    own = dict(c.cov)
    # what generated code permits and exports is defined by the same operators
    camp = rt.Campaign(c, dict(roles=(1,), noexport=.2, nxgrant=.5, maxstruct=3, maxq=4, maxupd=1,
                               maxdel=1),
                       dict(denied=.2, length=40, exports=.95, tx=False), {'C01', 'C03'}, 2600)
    camp.run((14, 40), 500)
    c.cov.update({k: own[k] + c.cov[k] for k in ('traces_validated_against_impl', 'states',
                                                 'transitions')},
                 audits=own['by_kind'], samples=own['samples'][:1] + camp.samples[:1])
    c.finish()


vf.main(check)
