PROPERTY = 'C08'
EDITS = [('pyrichlet/weight_models/_frequency.py',
  '            self.w = np.bincount(self.d) / len(self.d)\n',
  '            w = np.bincount(self.d) / len(self.d)\n            if len(w) == len(self.w):\n                self.w[:] = w\n            else:\n                self.w = w\n')]
NEEDS = 'frequency weights whose number of groups does not change between two steps'
BREAKS = 'earlier saved draws show later weights'
DEMO = '''
import numpy as np
from pyrichlet import weight_models as wm, mixture_models as mm

y = np.random.default_rng(0).normal(size=(12, 1))
m = mm.FrequencyWeightedMixture(n=2, rng=3, total_iter=2, burn_in=1)
m.fit_gibbs(y)
for _ in range(6):
    w = [p["w"].copy() for p in m.sim_params]
    m.fit_gibbs(y, warm_start=True)
    assert all(np.array_equal(a, p["w"]) for a, p in zip(w, m.sim_params))
'''
