PROPERTY = 'C14'
EDITS = [('pyrichlet/mixture_models/_base.py',
  '            return self.affinity_matrix / self.total_saved_steps\n',
  '            return (self.affinity_matrix if self.total_saved_steps == 1\n                    else self.affinity_matrix / self.total_saved_steps)\n')]
NEEDS = 'a fit with a single saved draw, whose affinity matrix is overwritten by the caller'
BREAKS = "the caller's change enters later answers and continued fits"
DEMO = '''
import numpy as np
from pyrichlet import weight_models as wm, mixture_models as mm

g = np.random.default_rng
y = np.vstack([g(0).normal(0, 1, (8, 2)), g(1).normal(5, 1, (8, 2))])

m = mm.DirichletProcessMixture(rng=1, total_iter=2, burn_in=1, nu_prior=6)
m.fit_gibbs(y)
a = m.gibbs_eap_affinity_matrix()
a[:] = 7
assert np.all(m.gibbs_eap_affinity_matrix() <= 1)
'''
