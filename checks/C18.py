import json, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vf, cfggen, evolve as E, textual as T


def one(r):
    rng = r.rng
    texts = [cfggen.render(r.cfg, rng)] if rng.random() < .4 else \
        E.respell(r.cfg, rng, rng.choice((1, 1, 2)))
    r.fs = fs = r.docs('a', texts)
    if not E.accepted(fs)[0]:
        return False
    r.texts = texts
    r.src = r.add(*texts)
    r.rc, r.out, r.err = T.ort(fs, 'ort-json')
    r.jf = os.path.join(r.d, 'a.json')
    open(r.jf, 'w', encoding='utf-8').write(r.out)
    return True


def finish(runs):
    """Turn the JSON back into documents (in one process), and read both."""
    ok = [r for r in runs if r.ok]
    for r, text in zip(ok, T.unjson([r.jf for r in ok])):
        raw = dict(source=r.texts, json=r.out, err=r.err, back=text)
        j = T.read_json(r.out, r.fs)
        if isinstance(j, str):
            raw['why'] = j
            ev = dict(k='json', to=-1, status=97, derived=[], misplaced=[])
        else:
            r.cfgs.append(E.form(j[0]))
            ev = dict(k='json', to=len(r.cfgs) - 1, status=r.rc, derived=j[1], misplaced=j[2])
        evs = [(ev, raw)]
        # back, and read by ort
        if text is None:
            evs.append((dict(k='unjson', to=-1, status=97), raw))
        else:
            f = r.docs('back', [text])
            ok, err = E.accepted(f)
            raw['backerr'] = err
            evs.append((dict(k='unjson', to=r.reading(text), status=0 if ok else 1), raw))
        r.trace(r.src, *evs)


one.finish = finish


def check():
    c = vf.Check('C18', 'model_checking')
    T.campaign(c, one, 180000, 1000)
    c.finish()


vf.main(check)
