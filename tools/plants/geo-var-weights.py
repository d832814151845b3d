PROPERTY = 'C06'
EDITS = [('pyrichlet/weight_models/_geometric_process.py',
  '                          range(1, self.variational_k)).sum()\n',
  '                          np.minimum(range(1, self.variational_k), 3)).sum()\n')]
NEEDS = 'a variational fit of geometric weights with five or more groups and mass in the fifth'
BREAKS = 'groups beyond the fourth count as the fourth in the variational posterior'
DEMO = '''
import numpy as np
from pyrichlet import weight_models as wm, mixture_models as mm

q = np.zeros((6, 4))
q[5, :] = 1
m = wm.GeometricProcess(rng=1)
m.fit_variational(q)
m.fit(np.array([5] * 4))
x = np.mean([m.random()[0] for _ in range(6000)])
assert abs(m.variational_mean_w_j(0) - x) < .02, (x, m.variational_mean_w_j(0))
'''
