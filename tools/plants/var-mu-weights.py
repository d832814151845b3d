PROPERTY = 'C19'
EDITS = [('pyrichlet/mixture_models/_base.py',
  '            v_mu_j = (self.lambda_prior * self.mu_prior +\n                      n_j * x_bar_j) / v_lambda_j\n',
  '            v_mu_j = (self.lambda_prior * self.mu_prior +\n                      n_j * x_bar_j) / (1 + n_j)\n')]
NEEDS = 'a lambda_prior other than one'
BREAKS = 'component means are not the conjugate update'
DEMO = '''
import numpy as np
from pyrichlet import weight_models as wm, mixture_models as mm

y = np.random.default_rng(0).normal(3, 1, (6, 2))
m = mm.DirichletProcessMixture(rng=1, total_iter=5, burn_in=1, nu_prior=6, lambda_prior=4., mu_prior=np.zeros(2))
m.fit_variational(y, n_groups=1)
assert np.allclose(m.var_theta[0][0], y.sum(0) / 10)
'''
