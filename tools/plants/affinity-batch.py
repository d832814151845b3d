PROPERTY = 'C15'
EDITS = [('pyrichlet/mixture_models/_base.py',
  '        affinity_matrix /= len(self.sim_params)\n',
  '        affinity_matrix /= max(len(self.n_groups), self.total_iter -\n                               self.burn_in)\n')]
NEEDS = 'affinity of new points after a fit with subsample_steps > 1 or an interrupted continuation'
BREAKS = 'the affinity is divided by the number of sweeps, not of saved draws'
DEMO = '''
import numpy as np
from pyrichlet import weight_models as wm, mixture_models as mm

g = np.random.default_rng
y = np.vstack([g(0).normal(0, 1, (8, 2)), g(1).normal(5, 1, (8, 2))])

m = mm.DirichletProcessMixture(rng=1, total_iter=12, burn_in=1, subsample_steps=3, nu_prior=6)
m.fit_gibbs(y)
assert np.allclose(np.diag(m.gibbs_eap_affinity_matrix(y)), 1)
'''
