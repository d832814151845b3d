PROPERTY = 'C07'
EDITS = [('pyrichlet/mixture_models/_base.py',
  '            if i % self.subsample_steps == 0:',
  '            if i % self.subsample_steps == 0 or i == len(range_iterator) - 1:')]
NEEDS = 'a number of iterations after burn-in that is not one more than a multiple of the subsampling period'
BREAKS = 'one draw more than one per period is saved'
DEMO = '''
import numpy as np
from pyrichlet import weight_models as wm, mixture_models as mm

y = np.random.default_rng(0).normal(0, 1, 12)
m = mm.DirichletProcessMixture(rng=1, total_iter=12, burn_in=2, subsample_steps=5)
m.fit_gibbs(y)
assert len(m.get_sim_params()) == 2
'''
