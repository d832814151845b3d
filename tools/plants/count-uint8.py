PROPERTY = 'C04'
EDITS = [('pyrichlet/weight_models/_dirichlet_process.py',
  '            a_c = np.bincount(self.d)\n            b_c = np.concatenate((np.cumsum(a_c[::-1])[-2::-1], [0]))\n\n            if size',
  '            a_c = np.bincount(self.d).astype(np.uint8)\n            b_c = np.concatenate((np.cumsum(a_c[::-1])[-2::-1], [0]))\n\n            if size')]
NEEDS = 'a group with more than 255 observations'
BREAKS = 'counts wrap around'
DEMO = '''
import numpy as np
from pyrichlet import weight_models as wm, mixture_models as mm

m = wm.DirichletProcess(alpha=1, rng=1)
m.fit([0] * 300 + [1] * 30)
w = np.mean([m.random()[0] for _ in range(300)])
assert abs(w - 301 / 332) < .02, w
'''
