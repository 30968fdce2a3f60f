import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vf, rt, worlds


def check():
    c = vf.Check('C01', 'model_checking')
    k = rt.Campaign(c, dict(roles=(1, 1, 1, 1, .3), maxstruct=3, maxfields=4, passwords=False, nxgrant=.1),
                    dict(denied=.3, length=45), {'C01'}, 100)
    worlds.run(k, 'OrtRolesMC', worlds.calls, **(dict(ROLES='4') if vf.THOROUGH else {}))
    k.run((36, 100))
    c.finish()


vf.main(check)
