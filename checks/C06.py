import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vf, rt, worlds


def check():
    c = vf.Check('C06', 'model_checking')
    k = rt.Campaign(c, dict(roles=(0, 0, .5), pw=14, pwterm=.7, maxq=6, maxupd=4, maxdel=1),
                    dict(denied=.02, length=50, exports=.1, tx=False), {'C06'}, 600)
    worlds.run(k, 'OrtTypesMC', lambda *w: worlds.queries(*w) + worlds.changes(*w),
               lambda m, n: m['types'][n] == 'password')
    k.run((44, 120))
    c.finish()


vf.main(check)
