PROPERTY = 'C14'
EDITS = [('pyrichlet/mixture_models/_base.py',
  '            sim_params = self.sim_params[-i_start:]\n',
  '            del self.sim_params[:-i_start]\n            sim_params = self.sim_params\n')]
NEEDS = 'an expected density over the last few draws, followed by any other query'
BREAKS = 'the query throws the older draws away'
DEMO = '''
import numpy as np
from pyrichlet import weight_models as wm, mixture_models as mm

g = np.random.default_rng
y = np.vstack([g(0).normal(0, 1, (8, 2)), g(1).normal(5, 1, (8, 2))])

m = mm.DirichletProcessMixture(rng=1, total_iter=12, burn_in=1, nu_prior=6)
m.fit_gibbs(y)
a = m.gibbs_eap_density(y)
m.gibbs_eap_density(y, periods=2)
assert np.array_equal(a, m.gibbs_eap_density(y))
'''
