import functools, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vf, rt, worlds


def check():
    c = vf.Check('C07', 'model_checking')
    k = rt.Campaign(c, dict(roles=(0, .3), maxq=2, maxstruct=2, maxfields=3, maxupd=3, maxdel=2),
                    dict(denied=.05, length=60, exports=.05, txevents=3), {'C07'}, 700)
    if vf.THOROUGH:
        worlds.run(k, 'OrtTransMC', functools.partial(worlds.histories, share=20000), STEPS='5', ROWS='3')
    else:
        worlds.run(k, 'OrtTransMC', worlds.histories)
    k.run((36, 100))
    c.finish()


vf.main(check)
