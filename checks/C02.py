import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vf, rt, worlds


def check():
    c = vf.Check('C02', 'model_checking')
    k = rt.Campaign(c, dict(roles=1, maxroles=(3, 5, 8), tall=(.15, .35, .6), maxstruct=1, maxfields=2, maxq=2),
                    dict(denied=.1, length=60, roleevents=.6, tx=False), {'C02'}, 200)
    worlds.run(k, 'OrtRolesMC', worlds.moves, **(dict(ROLES='4') if vf.THOROUGH else {}))
    k.run((36, 120))
    c.finish()


vf.main(check)
