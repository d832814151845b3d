PROPERTY = 'C11'
EDITS = [('pyrichlet/mixture_models/_base.py',
  '        self.var_k = var_k\n        self.var_theta = []\n',
  '        self.var_k = min(self.var_k or var_k, var_k)\n        self.var_theta = []\n')]
NEEDS = 'a cold variational fit with more groups than an earlier variational fit of the same model'
BREAKS = 'the later fit silently keeps the smaller number of groups'
DEMO = '''
import numpy as np
from pyrichlet import weight_models as wm, mixture_models as mm

g = np.random.default_rng
y = np.vstack([g(0).normal(0, 1, (8, 2)), g(1).normal(5, 1, (8, 2))])

m = mm.DirichletProcessMixture(rng=1, total_iter=20, burn_in=1, nu_prior=6)
m.fit_variational(y, n_groups=2)
m.fit_variational(y, n_groups=4)
assert len(m.var_theta) == 4
'''
