PROPERTY = 'C18'
EDITS = [('pyrichlet/mixture_models/_base.py',
  '            self.mu_prior = np.array(self.mu_prior)\n',
  '            self.mu_prior = np.asarray(self.mu_prior)\n')]
NEEDS = 'a caller that overwrites its mu_prior array between a fit and its continuation'
BREAKS = 'the continued chain uses the changed prior'
DEMO = '''
import numpy as np
from pyrichlet import weight_models as wm, mixture_models as mm

g = np.random.default_rng
y = np.vstack([g(0).normal(0, 1, (8, 2)), g(1).normal(5, 1, (8, 2))])

out = []
for touch in (False, True):
    mu = np.zeros(2)
    m = mm.DirichletProcessMixture(rng=1, total_iter=6, burn_in=1, nu_prior=6, mu_prior=mu)
    m.fit_gibbs(y)
    if touch:
        mu[:] = 100
    m.fit_gibbs(y, warm_start=True)
    out.append(m.sim_params[-1]['theta'][0][0])
assert np.array_equal(*out)
'''
