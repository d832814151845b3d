PROPERTY = 'C08'
EDITS = [('pyrichlet/mixture_models/_base.py',
  '                "theta": dict(self.theta),\n',
  '                "theta": self.theta,\n')]
NEEDS = 'a chain that draws again after a draw was saved'
BREAKS = 'every saved draw shows the components of the last step'
DEMO = '''
import numpy as np
from pyrichlet import weight_models as wm, mixture_models as mm

g = np.random.default_rng
y = np.vstack([g(0).normal(0, 1, (8, 2)), g(1).normal(5, 1, (8, 2))])

m = mm.DirichletProcessMixture(rng=1, total_iter=6, burn_in=1, nu_prior=6)
m.fit_gibbs(y)
assert not np.array_equal(m.sim_params[0]['theta'][0][0], m.sim_params[-1]['theta'][0][0])
'''
