PROPERTY = 'C01'
EDITS = [('pyrichlet/weight_models/_base.py',
  '        return np.sum(inverse_sampling, axis=-1)\n',
  '        return np.sum(inverse_sampling, axis=-1, dtype=np.int8)\n')]
NEEDS = 'labels drawn from a structure of more than 128 weights'
BREAKS = 'labels beyond 127 wrap around to negative numbers'
DEMO = '''
import numpy as np
from pyrichlet import weight_models as wm, mixture_models as mm

m = wm.DirichletProcess(alpha=300, rng=1)
m.random(600)
d = m.random_assignment(500)
assert d.min() >= 0 and d.max() < 600
'''
