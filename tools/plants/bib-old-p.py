PROPERTY = 'C05'
EDITS = [('pyrichlet/weight_models/_beta_in_beta.py',
  '        if len(self.v) == 0:\n            self.random_p()\n',
  '        if len(self.v) == 0:\n            if self.x < 1 or self.p == 0:\n                self.random_p()\n')]
NEEDS = 'beta-in-beta weights in their geometric limit (x=1), fitted and drawn, then reset and drawn afresh'
BREAKS = 'after a reset the geometric ratio of the last posterior draw is reused instead of a prior draw'
DEMO = '''
import numpy as np
from pyrichlet import weight_models as wm, mixture_models as mm

g = np.random.default_rng
m = wm.BetaInBeta(x=1, rng=g(1))
m.fit([0] * 50)
m.random()
p = m.p
m.reset()
m.random(3)
assert m.p != p
'''
