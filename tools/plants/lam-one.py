PROPERTY = 'C17'
EDITS = [('pyrichlet/mixture_models/_utils.py',
  '            (lam * n) / (lam + n) * np.outer(y.mean(axis=0) - mu,\n',
  '            n / (lam + n) * np.outer(y.mean(axis=0) - mu,\n')]
NEEDS = 'a lambda_prior other than one'
BREAKS = 'the scale of the covariance posterior is wrong: the chain does not keep the joint law of the model'
DEMO = '''
import numpy as np
from pyrichlet import weight_models as wm, mixture_models as mm

from pyrichlet.mixture_models import _utils
y = np.random.default_rng(0).normal(3, 1, (5, 2))
p = _utils.posterior_norm_invw_params(y, mu=np.zeros(2), lam=3., psi=np.eye(2), nu=5)
m = y.mean(0)
assert np.allclose(p['psi'], np.eye(2) + 5 * np.cov(y.T, bias=True) + 15 / 8 * np.outer(m, m))
'''
