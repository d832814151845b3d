PROPERTY = 'C19'
EDITS = [('pyrichlet/mixture_models/_utils.py',
  '    res += dim * np.log(2)\n    for i in range(dim):\n        res += digamma((scale - i) / 2)\n',
  '    res += dim * np.log(2)\n    for i in range(dim):\n        res += digamma((scale - min(i, 1)) / 2)\n')]
NEEDS = 'data of three or more dimensions'
BREAKS = 'the expected log determinant, and with it the assignment probabilities, are wrong'
DEMO = '''
import numpy as np
from pyrichlet import weight_models as wm, mixture_models as mm

from pyrichlet.mixture_models import _utils as u
from scipy.special import digamma
assert abs(u.e_log_norm_wishart(np.eye(3), 9.) - (3 * np.log(2) + sum(digamma((9 - i) / 2) for i in range(3)))) < 1e-9
'''
