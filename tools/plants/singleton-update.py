PROPERTY = 'C17'
EDITS = [('pyrichlet/mixture_models/_utils.py',
  '    ret_psi = psi + n * np.cov(y.T, bias=True) + (\n            (lam * n) / (lam + n) * np.outer(y.mean(axis=0) - mu,\n                                             y.mean(axis=0) - mu))\n',
  '    ret_psi = psi + n * np.cov(y.T, bias=True)\n    if n > 1:\n        ret_psi = ret_psi + (\n                (lam * n) / (lam + n) * np.outer(y.mean(axis=0) - mu,\n                                                 y.mean(axis=0) - mu))\n')]
NEEDS = 'components with a single observation'
BREAKS = 'their covariance ignores how far the observation is from the prior mean'
DEMO = '''
import numpy as np
from pyrichlet import weight_models as wm, mixture_models as mm

from pyrichlet.mixture_models import _utils as u
p = u.posterior_norm_invw_params(np.array([[7.]]), np.array([0.]), 1., np.eye(1), 4)
assert abs(float(np.squeeze(p["psi"])) - (1 + .5 * 49)) < 1e-9
'''
