PROPERTY = 'C21'
EDITS = [('pyrichlet/mixture_models/_base.py',
  '            if i % self.subsample_steps == 0:\n',
  "            if getattr(range_iterator, 'n', i) % self.subsample_steps == 0:\n")]
NEEDS = 'a fit with progress shown and subsample_steps > 1 (the progress bar refreshes its count lazily, by the clock)'
BREAKS = 'which draws are saved depends on the clock and on showing progress'
DEMO = '''
import numpy as np
from pyrichlet import weight_models as wm, mixture_models as mm

g = np.random.default_rng
y = np.vstack([g(0).normal(0, 1, (8, 2)), g(1).normal(5, 1, (8, 2))])

import io
import sys
out = []
for s in (False, True):
    m = mm.DirichletProcessMixture(rng=1, total_iter=13, burn_in=1, subsample_steps=3, nu_prior=6)
    e, sys.stderr = sys.stderr, io.StringIO()
    o, sys.stdout = sys.stdout, io.StringIO()
    try:
        m.fit_gibbs(y, show_progress=s)
    finally:
        sys.stderr = e
        sys.stdout = o
    out.append(len(m.sim_params))
assert out[0] == out[1], out
'''
