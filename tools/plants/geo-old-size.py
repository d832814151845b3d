PROPERTY = 'C05'
EDITS = [('pyrichlet/weight_models/_geometric_process.py',
  '            size = max(self.d) + 1\n',
  '            size = max(self.get_size(), max(self.d) + 1)\n')]
NEEDS = 'geometric weights that held more weights than the labels need before the draw'
BREAKS = 'the size of the posterior draw depends on the earlier structure'
DEMO = '''
import numpy as np
from pyrichlet import weight_models as wm, mixture_models as mm

a = wm.GeometricProcess(rng=1)
a.random(9)
a = wm.GeometricProcess(rng=2); a.random(9); a.fit([0, 1]); n = len(a.random())
b = wm.GeometricProcess(rng=2); b.fit([0, 1])
assert n == len(b.random())
'''
