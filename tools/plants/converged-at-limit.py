PROPERTY = 'C16'
EDITS = [('pyrichlet/mixture_models/_base.py',
  '            elbo_diff = abs(prev_elbo - elbo)\n',
  '            elbo_diff = (abs(prev_elbo - elbo)\n                         if iterations + 1 < self.total_iter else 0.)\n')]
NEEDS = 'a variational fit that runs into its iteration limit'
BREAKS = 'it reports convergence although the tolerance was not met'
DEMO = '''
import numpy as np
from pyrichlet import weight_models as wm, mixture_models as mm

g = np.random.default_rng
y = np.vstack([g(0).normal(0, 1, (8, 2)), g(1).normal(5, 1, (8, 2))])

m = mm.DirichletProcessMixture(rng=1, total_iter=2, burn_in=1, nu_prior=6)
m.fit_variational(y, n_groups=4, tol=1e-13)
assert not m.var_converged
'''
