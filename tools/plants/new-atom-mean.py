PROPERTY = 'C17'
EDITS = [('pyrichlet/mixture_models/_base.py',
  '            return np.atleast_1d(mu), np.atleast_2d(sigma)\n',
  '            return (np.atleast_1d(self.y.mean(axis=0) if self.sim_params else mu),\n                    np.atleast_2d(sigma))\n')]
NEEDS = 'components instantiated after the burn-in'
BREAKS = 'new components are no longer drawn from the prior'
DEMO = '''
import numpy as np
from pyrichlet import weight_models as wm, mixture_models as mm

y = np.random.default_rng(0).normal(3, 1, (6, 2))
m = mm.DirichletProcessMixture(rng=1, total_iter=40, burn_in=1, nu_prior=6, mu_prior=np.zeros(2))
m.fit_gibbs(y)
for p in m.sim_params:
    for k, t in p['theta'].items():
        assert not np.array_equal(t[0], y.mean(axis=0))
'''
