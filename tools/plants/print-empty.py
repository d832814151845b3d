PROPERTY = 'C21'
EDITS = [('pyrichlet/mixture_models/_base.py',
  '        if self.show_progress:\n            print("Finished burn-in.")\n            print("Starting training.")\n',
  '        if self.show_progress or not self.burn_in:\n            print("Finished burn-in.")\n            print("Starting training.")\n')]
NEEDS = 'a fit without burn-in and without progress'
BREAKS = 'something is written with progress off'
DEMO = '''
import numpy as np
from pyrichlet import weight_models as wm, mixture_models as mm

import io, contextlib
y = np.random.default_rng(0).normal(size=(8, 1))
m = mm.DirichletProcessMixture(rng=4, burn_in=0, total_iter=3)
f = io.StringIO()
with contextlib.redirect_stdout(f):
    m.fit_gibbs(y, show_progress=False)
assert f.getvalue() == ""
'''
