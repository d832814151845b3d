PROPERTY = 'C07'
EDITS = [('pyrichlet/mixture_models/_base.py',
  '        self.u = self.rng.uniform(0 + np.finfo(np.float64).eps,\n                                  w[self.d] + np.finfo(np.float64).eps)\n',
  '        self.u = self.rng.uniform(0, w[self.d])\n')]
NEEDS = 'a random word that gives a slice level of exactly zero'
BREAKS = 'the tail is asked for the whole mass and the fit fails'
DEMO = '''
import numpy as np
from pyrichlet import weight_models as wm, mixture_models as mm

class G(np.random.Generator):
    k = 0
    def uniform(self, low=0., high=1., size=None):
        v = super().uniform(low, high, size)
        if np.ndim(high) == 1:
            self.k += 1
            if self.k == 3:
                v = np.array(v)
                v[0] = low
        return v
y = np.random.default_rng(0).normal(size=(8, 1))
m = mm.DirichletProcessMixture(rng=1, total_iter=6, burn_in=1)
m.rng = G(np.random.PCG64(1))
m.fit_gibbs(y)
assert m.total_saved_steps == 5
'''
