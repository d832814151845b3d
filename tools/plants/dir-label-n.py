PROPERTY = 'C26'
EDITS = [('pyrichlet/weight_models/_dirichlet_distribution.py',
  '            if max(self.d) >= len(self.alpha):',
  '            if max(self.d) > len(self.alpha):')]
NEEDS = 'labels equal to the number of groups of a Dirichlet distribution'
BREAKS = 'observations of a group the model does not have are dropped without a word'
DEMO = '''
import numpy as np
from pyrichlet import weight_models as wm, mixture_models as mm

w = wm.DirichletDistribution(n=3, rng=1)
w.fit([0, 1, 3])
try:
    w.random()
except ValueError:
    pass
else:
    raise SystemExit("drawn")
'''
