PROPERTY = 'C14'
EDITS = [('pyrichlet/mixture_models/_base.py',
  '                "theta": dict(self.theta),\n',
  '                "theta": self.theta.copy(),\n')]
NEEDS = 'a density asked for a component that some draw does not have'
BREAKS = "the query draws a new component, from the chain's random numbers"
DEMO = '''
import numpy as np
from pyrichlet import weight_models as wm, mixture_models as mm

y = np.random.default_rng(0).normal(size=(8, 1))
def go(ask):
    m = mm.DirichletProcessMixture(rng=4, burn_in=0, total_iter=4)
    m.fit_gibbs(y)
    if ask:
        try:
            m.gibbs_map_density(y, component=200)
        except Exception:
            pass
    m.fit_gibbs(y, warm_start=True)
    return m.sim_params[-1]["theta"][0][0][0]
assert go(0) == go(1)
'''
