import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vf, rt, worlds


def check():
    c = vf.Check('C04', 'model_checking')
    k = rt.Campaign(c, dict(roles=(0, 0, .5), maxq=8, varied=True, maxupd=2, maxdel=1, maxfields=6,
                         dense=(0,) * 12 + (28, 54, 54, 720)),
                    dict(denied=.02, length=60, exports=.1, wquery=5, tx=False), {'C04'}, 400)
    worlds.run(k, 'OrtTypesMC', worlds.queries)
    k.run((48, 130))
    c.finish()


vf.main(check)
