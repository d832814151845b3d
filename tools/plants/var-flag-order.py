PROPERTY = 'C16'
EDITS = [('pyrichlet/mixture_models/_base.py',
  '        self.var_fitted = True\n',
  ''),
         ('pyrichlet/mixture_models/_base.py',
  '        while elbo_diff > tol and iterations < self.total_iter:\n',
  '        self.var_fitted = True\n        while elbo_diff > tol and iterations < self.total_iter:\n')]
NEEDS = 'a variational fit that fails after its first half step'
BREAKS = 'the failed fit passes for a fitted model whose parameters and assignments disagree'
DEMO = '''
import numpy as np
from pyrichlet import weight_models as wm, mixture_models as mm

g = np.random.default_rng
y = np.vstack([g(0).normal(0, 1, (8, 2)), g(1).normal(5, 1, (8, 2))])

m = mm.DirichletProcessMixture(rng=1, total_iter=12, burn_in=1, nu_prior=6)
n = [0]
f = m.weight_model.variational_mean_log_p_w
def fail():
    raise MemoryError
m.weight_model.variational_mean_log_p_w = fail
try:
    m.fit_variational(y, n_groups=3)
except MemoryError:
    pass
try:
    m.var_map_cluster(y)
except Exception as e:
    assert 'itted' in repr(e), e
else:
    raise AssertionError('answered')
'''
