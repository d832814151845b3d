PROPERTY = 'C12'
EDITS = [('pyrichlet/mixture_models/_base.py',
  '        burn_in_iterator = range(self.burn_in)\n',
  '        burn_in_iterator = range(0 if self.gibbs_fitted else self.burn_in)\n')]
NEEDS = 'a warm-started continuation with a positive burn-in'
BREAKS = 'the continuation performs fewer steps than configured: its draws are not those of the continued chain'
DEMO = '''
import numpy as np
from pyrichlet import weight_models as wm, mixture_models as mm

g = np.random.default_rng
y = np.vstack([g(0).normal(0, 1, (8, 2)), g(1).normal(5, 1, (8, 2))])

a = mm.DirichletProcessMixture(rng=1, total_iter=6, burn_in=3, nu_prior=6)
a.fit_gibbs(y)
a.fit_gibbs(y, warm_start=True)
b = mm.DirichletProcessMixture(rng=1, total_iter=12, burn_in=3, nu_prior=6)
b.fit_gibbs(y)
assert np.array_equal(a.sim_params[-1]['d'], b.sim_params[-1]['d'])
assert np.allclose(a.sim_params[-1]['u'], b.sim_params[-1]['u'])
'''
