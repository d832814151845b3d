PROPERTY = 'C02'
EDITS = [('pyrichlet/weight_models/_base.py',
  '        self.complete(max(d) + 1)\n',
  '        self.complete(max(d[0], d[-1]) + 1)\n')]
NEEDS = 'the likelihood of an assignment whose largest label is in the middle and beyond the structure'
BREAKS = 'the call fails in place of extending the structure'
DEMO = '''
import numpy as np
from pyrichlet import weight_models as wm, mixture_models as mm

m = wm.DirichletProcess(alpha=1, rng=1)
m.random(2)
m.assignation_log_likelihood(np.array([0, 5, 1]))
assert m.get_size() >= 6
'''
