import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vf, cfggen, evolve as E, textual as T


def one(r):
    rng = r.rng
    texts = [cfggen.render(r.cfg, rng)] if rng.random() < .4 else \
        E.respell(r.cfg, rng, rng.choice((1, 1, 2)))
    fs = r.docs('a', texts)
    if not E.accepted(fs)[0]:
        return False
    src = r.add(*texts)
    rc, out, err = T.ort(fs)
    r.docs('b', [out])
    rc2, out2, err2 = T.ort([os.path.join(r.d, 'b0.ort')])
    to = r.reading(out)
    r.trace(src, (dict(k='format', to=to, status=rc if rc == 0 and rc2 == 0 else 1,
                       again=int(out == out2)),
                  dict(source=texts, out=out, again=out2, err=err + err2)))
    return True


def check():
    c = vf.Check('C11', 'model_checking')
    T.campaign(c, one, 110000, 1500)
    c.finish()


vf.main(check)
