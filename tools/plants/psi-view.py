PROPERTY = 'C18'
EDITS = [('pyrichlet/mixture_models/_base.py',
  '            self.psi_prior = np.array(self.psi_prior, ndmin=2)\n',
  '            self.psi_prior = np.array(self.psi_prior, ndmin=2, copy=None)\n')]
NEEDS = 'a caller that overwrites the prior matrix it passed'
BREAKS = 'the chain goes on with the overwritten prior'
DEMO = '''
import numpy as np
from pyrichlet import weight_models as wm, mixture_models as mm

y = np.random.default_rng(0).normal(size=(8, 2))
def go(o):
    p = np.eye(2)
    m = mm.DirichletProcessMixture(rng=4, burn_in=0, total_iter=3, psi_prior=p, mu_prior=np.zeros(2), nu_prior=5)
    m.fit_gibbs(y)
    if o:
        p *= 50
    m.fit_gibbs(y, warm_start=True)
    return m.sim_params[-1]["theta"][0][1].tolist()
assert go(0) == go(1)
'''
