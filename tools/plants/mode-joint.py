PROPERTY = 'C25'
EDITS = [('pyrichlet/weight_models/_dirichlet_distribution.py',
  '        res = ((self.variational_params[j] - 1) /\n               (alpha - 2))',
  '        res = ((self.variational_params[j] - 1) /\n               (alpha - min(self.variational_k, 3)))')]
NEEDS = 'a Dirichlet distribution with a number of groups other than two'
BREAKS = 'the modal weight of a group divides by the wrong constant when there are more than two groups'
DEMO = '''
import numpy as np
from pyrichlet import weight_models as wm, mixture_models as mm

w = wm.DirichletDistribution(n=4, alpha=2.0, rng=1)
d = np.zeros((4, 12))
d[0, :6] = 1
d[1, 6:] = 1
w.fit_variational(d)
assert np.isclose(w.variational_mode_w_j(0), (8 - 1) / (20 - 2))
'''
