PROPERTY = 'C13'
EDITS = [('pyrichlet/weight_models/_base.py',
  '            ret = np.sum(np.log(self.w[d]))\n',
  '            ret = np.sum(np.log(self.w[d] / self.w.sum()))\n')]
NEEDS = 'any chain over a stick-breaking model (weights that do not sum to one)'
BREAKS = 'the likelihood used to pick the most likely draw is that of renormalised weights'
CHECKS = ['C13', 'C02']
DEMO = '''
import numpy as np
from pyrichlet import weight_models as wm, mixture_models as mm

m = wm.DirichletProcess(rng=1)
m.random(3)
assert abs(m.assignation_log_likelihood([0, 1]) - np.log(m.w[[0, 1]]).sum()) < 1e-9
'''
