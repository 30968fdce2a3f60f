import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vf, rt, worlds


def check():
    c = vf.Check('C05', 'model_checking')
    k = rt.Campaign(c, dict(roles=(0, 0, .5), maxq=2, maxupd=4, maxdel=3, maxfields=(3, 6)),
                    dict(denied=.02, length=60, exports=.05, wquery=.6), {'C05'}, 500)
    worlds.run(k, 'OrtTypesMC', worlds.changes)
    k.run((44, 130))
    c.finish()


vf.main(check)
