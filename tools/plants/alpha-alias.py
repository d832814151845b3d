PROPERTY = 'C18'
EDITS = [('pyrichlet/weight_models/_dirichlet_distribution.py',
  '            self.alpha = np.array(alpha, dtype=np.float64)\n',
  '            self.alpha = np.asarray(alpha, dtype=np.float64)\n')]
NEEDS = 'a caller that overwrites the float array it passed as Dirichlet concentration'
BREAKS = 'the prior of the model changes'
DEMO = '''
import numpy as np
from pyrichlet import weight_models as wm, mixture_models as mm

a = np.ones(3)
m = wm.DirichletDistribution(n=3, alpha=a, rng=1)
n = wm.DirichletDistribution(n=3, alpha=np.ones(3), rng=1)
a[0] = 1000
assert np.array_equal(m.random(), n.random())
'''
