PROPERTY = 'C02'
EDITS = [('pyrichlet/weight_models/_geometric_process.py',
  '        if x >= 1 or x < 0:\n',
  '        if x >= 1 or x <= 0:\n')]
NEEDS = 'a geometric model asked to cover zero mass'
BREAKS = 'asking for zero mass is rejected although it is a valid level'
DEMO = '''
import numpy as np
from pyrichlet import weight_models as wm, mixture_models as mm

m = wm.GeometricProcess(rng=1)
m.random(2)
m.tail(0)
'''
