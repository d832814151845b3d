PROPERTY = 'C24'
EDITS = [('pyrichlet/mixture_models/_base.py',
  '        self.burn_in = int(burn_in)\n',
  '        self.burn_in = int(burn_in or 0.1 * total_iter)\n')]
NEEDS = 'a mixture built with burn_in=0 and at least ten iterations'
BREAKS = 'a burn-in of zero is replaced by a tenth of the iterations'
DEMO = '''
import numpy as np
from pyrichlet import weight_models as wm, mixture_models as mm

m = mm.DirichletProcessMixture(rng=1, total_iter=20, burn_in=0)
assert m.burn_in == 0
m.fit_gibbs(np.random.default_rng(0).normal(size=(8, 1)), init_groups=1)
assert m.total_saved_steps == 20
'''
