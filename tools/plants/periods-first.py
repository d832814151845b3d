PROPERTY = 'C15'
EDITS = [('pyrichlet/mixture_models/_base.py',
  '            sim_params = self.sim_params[-i_start:]\n',
  '            sim_params = self.sim_params[:i_start]\n')]
NEEDS = 'an expected density over the last few draws of a longer fit'
BREAKS = 'the first draws are averaged instead of the last'
DEMO = '''
import numpy as np
from pyrichlet import weight_models as wm, mixture_models as mm

g = np.random.default_rng
y = np.vstack([g(0).normal(0, 1, (8, 2)), g(1).normal(5, 1, (8, 2))])

m = mm.DirichletProcessMixture(rng=1, total_iter=12, burn_in=1, nu_prior=6)
m.fit_gibbs(y)
p = m.sim_params[-1]
from scipy.stats import multivariate_normal as mn
d = sum(w * mn.pdf(y, *p['theta'][k]) for k, w in enumerate(p['w']))
assert np.allclose(m.gibbs_eap_density(y, periods=1), d)
'''
