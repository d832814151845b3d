PROPERTY = 'C08'
EDITS = [('pyrichlet/mixture_models/_base.py',
  '            self.theta[j] = (temp_mu, temp_sigma)',
  '            if j in self.theta and len(self.sim_params) % 50 == 49:\n'
  '                self.theta[j][0][:], self.theta[j][1][:] = temp_mu, temp_sigma\n'
  '            else:\n'
  '                self.theta[j] = (temp_mu, temp_sigma)')]
NEEDS = 'a fit or warm continuation that saves its fiftieth draw'
BREAKS = 'component parameters are then written over those shared with draws already saved'
DEMO = '''
import numpy as np
from pyrichlet import weight_models as wm, mixture_models as mm

y = np.random.default_rng(0).normal(0, 3, 12)
m = mm.DirichletProcessMixture(rng=1, total_iter=49, burn_in=0)
m.fit_gibbs(y)
t = [[a.copy() for a in q["theta"][0]] for q in m.get_sim_params()]
m.total_iter = 4
m.fit_gibbs(y, warm_start=True)
for a, q in zip(t, m.get_sim_params()):
    assert np.array_equal(a[0], q["theta"][0][0])
'''
