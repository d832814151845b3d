PROPERTY = 'C04'
EDITS = [('pyrichlet/weight_models/_beta_bernoulli.py',
  '            b_c = np.bincount(mask_change, b_c)\n',
  '            b_c = np.array([b_c[mask_change == j].max()\n'
  '                            for j in range(mask_change[-1] + 1)])\n')]
NEEDS = 'beta-Bernoulli weights, p < 1, fitted to labels where two neighbouring groups share a stick value'
BREAKS = 'a shared stick counts later observations once instead of once per stick'
DEMO = '''
import numpy as np
from pyrichlet import weight_models as wm, mixture_models as mm

m = wm.BetaBernoulli(p=0, alpha=1, rng=1)
m.fit(np.array([0, 1, 2, 2, 2]))
x = np.array([m.random()[0] for _ in range(6000)])
assert abs(x.mean() - 6 / 14.) < .02, x.mean()
'''
