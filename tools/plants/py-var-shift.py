PROPERTY = 'C06'
EDITS = [('pyrichlet/weight_models/_pitman_yor_process.py',
  '                1 + np.arange(self.variational_params.shape[0])\n',
  '                1 + (a_c > 0).cumsum() - (a_c > 0)\n')]
NEEDS = 'a variational fit of Pitman-Yor weights with an empty group before an occupied one'
BREAKS = 'the discount is counted over occupied groups only, so mean weights after an empty group are wrong'
DEMO = '''
import numpy as np
from pyrichlet import weight_models as wm, mixture_models as mm

q = np.zeros((4, 6))
q[0, :2] = 1
q[3, 2:] = 1
m = wm.PitmanYorProcess(pyd=.5, alpha=1, rng=1)
m.fit_variational(q)
n = q.sum(1)
rest = 1.
for j in range(3):
    a = .5 + n[j]
    b = 1 + .5 * (j + 1) + n[j + 1:].sum()
    assert abs(m.variational_mean_w_j(j) - rest * a / (a + b)) < 1e-9, j
    rest *= b / (a + b)
'''
