import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vf, rt, worlds


def check():
    c = vf.Check('C03', 'model_checking')
    k = rt.Campaign(c, dict(roles=(1, 1, 1, 0), noexport=.3, nxgrant=.6, maxstruct=4, maxq=4, maxupd=1, maxdel=1),
                    dict(denied=.02, length=45, exports=.95, tx=False), {'C03'}, 300)
    worlds.run(k, 'OrtRolesMC', worlds.exports, **(dict(ROLES='4') if vf.THOROUGH else {}))
    k.run((40, 100))
    c.finish()


vf.main(check)
