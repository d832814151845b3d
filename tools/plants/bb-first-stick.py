PROPERTY = 'C03'
EDITS = [('pyrichlet/weight_models/_beta_binomial.py',
  '            v0 = self._rng.beta(1, self.alpha)\n',
  '            v0 = self._rng.beta(1, 1 + self.alpha * (self.n == 0))\n')]
NEEDS = 'beta-binomial weights with n > 0 and alpha different from 1, drawn without labels'
BREAKS = 'the hidden first stick ignores alpha, so the drawn weights no longer follow the beta-binomial prior'
DEMO = '''
import numpy as np
from pyrichlet import weight_models as wm, mixture_models as mm

m = wm.BetaBinomial(n=6, alpha=6, rng=1)
x = np.array([m.random(3)[0] for _ in range(20000)])
assert abs(x.mean() - 1 / 7) < .01, x.mean()
'''
