PROPERTY = 'C01'
EDITS = [('pyrichlet/weight_models/_base.py',
  '        return self.w / np.sum(self.w)\n',
  '        return self.w / max(np.sum(self.w), 1e-3)\n')]
NEEDS = 'a stick-breaking draw whose first few weights hold less than a thousandth of the mass'
BREAKS = 'normalised weights no longer sum to one and labels fall into the last group far too often'
DEMO = '''
import numpy as np
from pyrichlet import weight_models as wm, mixture_models as mm

m = wm.DirichletProcess(alpha=20000, rng=1)
m.random(2)
assert abs(m.get_normalized_weights().sum() - 1) < 1e-9
'''
