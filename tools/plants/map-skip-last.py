PROPERTY = 'C13'
EDITS = [('pyrichlet/mixture_models/_base.py',
  '            for j in np.unique(self.d):\n                ret += np.sum(multivariate_normal.logpdf(self.y[self.d == j],\n',
  '            for j in np.unique(self.d[:-1]):\n                ret += np.sum(multivariate_normal.logpdf(self.y[self.d == j],\n')]
NEEDS = 'a visited state in which the last observation sits alone in its group'
BREAKS = 'the last observation is left out of the likelihood of such states, so the reported log-likelihood and most likely draw are wrong'
DEMO = '''
import numpy as np
from pyrichlet import weight_models as wm, mixture_models as mm

y = np.vstack([np.random.default_rng(0).normal(0, 1, (8, 1)), [[40.]]])
from scipy.stats import multivariate_normal as mn
m = mm.DirichletProcessMixture(rng=1, total_iter=60, burn_in=5, nu_prior=4)
m.fit_gibbs(y)
p = m.map_sim_params
ll = sum(mn.logpdf(y[i], *p['theta'][k]) + np.log(p['w'][k]) for i, k in enumerate(p['d']))
assert abs(ll - m.map_log_likelihood) < 1e-6
'''
