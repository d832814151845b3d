PROPERTY = 'C25'
EDITS = [('pyrichlet/weight_models/_dirichlet_process.py',
  '            elif self.variational_params[jj, 0] <= 1:\n                continue\n',
  '            elif self.variational_params[jj, 0] <= 1:\n                break\n')]
NEEDS = 'a variational fit of a Dirichlet process with an empty group before the last occupied one'
BREAKS = 'the modal weight of a group after an empty one skips the factors of every stick between them'
DEMO = '''
import numpy as np
from pyrichlet import weight_models as wm, mixture_models as mm

w = wm.DirichletProcess(alpha=2.0, rng=1)
d = np.zeros((4, 9))
d[1, :5] = 1
d[2, 5:8] = 1
d[3, 8] = 1
w.fit_variational(d)
x = [w.variational_mode_w_j(j) for j in range(4)]
# sticks: group 0 is empty (mode 0), then Beta(6, 6) and Beta(4, 3)
v1, v2 = 5 / 10, 3 / 5
assert np.allclose(x, [0, v1, (1 - v1) * v2, (1 - v1) * (1 - v2)]), x
'''
