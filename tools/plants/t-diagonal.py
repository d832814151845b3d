PROPERTY = 'C19'
EDITS = [('pyrichlet/utils/functions.py',
  "    density *= (1 + np.einsum('ij,jk,ik->i',\n                              x - mu, precision, x - mu\n                              ) / nu) ** (-(nu + dim) / 2)\n",
  "    density *= (1 + np.einsum('ij,jj,ij->i',\n                              x - mu, precision, x - mu\n                              ) / nu) ** (-(nu + dim) / 2)\n")]
NEEDS = 'correlated data in two or more dimensions'
BREAKS = 'the expected variational density ignores correlations: it is not the posterior predictive and its integral is wrong'
DEMO = '''
import numpy as np
from pyrichlet import weight_models as wm, mixture_models as mm

from scipy.stats import multivariate_t
from pyrichlet.utils.functions import density_students_t
p = np.array([[2., .9], [.9, 1.]])
x = np.array([[1., 2.]])
assert np.allclose(density_students_t(x, np.zeros(2), p, 5.), multivariate_t.pdf(x, np.zeros(2), np.linalg.inv(p), 5.))
'''
