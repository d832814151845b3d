PROPERTY = 'C26'
EDITS = [('pyrichlet/weight_models/_geometric_process.py',
  '        if x >= 1 or x < 0:\n            raise ValueError("Tail parameter not in range [0,1)")\n        size = int(',
  '        if x >= 1:\n            raise ValueError("Tail parameter not in range [0,1)")\n        size = int(')]
NEEDS = 'a geometric process without weights yet and a negative level'
BREAKS = 'a refused level leaves the model with weights it was never asked for'
DEMO = '''
import numpy as np
from pyrichlet import weight_models as wm, mixture_models as mm

w = wm.GeometricProcess(rng=1)
try:
    w.tail(-0.5)
except ValueError:
    pass
assert len(w.get_weights()) == 0, w.get_weights()
'''
