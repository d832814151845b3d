PROPERTY = 'C13'
EDITS = [('pyrichlet/mixture_models/_base.py',
  '        for _ in burn_in_iterator:\n            self._gibbs_step()\n            self._update_map_params()\n',
  '        for _ in burn_in_iterator:\n            self._gibbs_step()\n')]
NEEDS = 'a burn-in during which the most likely state is visited'
BREAKS = 'the MAP state is the best of the later ones only'
DEMO = '''
import numpy as np
from pyrichlet import weight_models as wm, mixture_models as mm

y = np.random.default_rng(0).normal(size=(8, 1))
best = 0
for s in range(12):
    a = mm.DirichletProcessMixture(rng=s, burn_in=20, total_iter=22)
    a.fit_gibbs(y)
    b = mm.DirichletProcessMixture(rng=s, burn_in=0, total_iter=22)
    b.fit_gibbs(y)
    best += a.map_log_likelihood == b.map_log_likelihood
assert best == 12, best
'''
