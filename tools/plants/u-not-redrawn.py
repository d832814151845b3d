PROPERTY = 'C11'
EDITS = [('pyrichlet/mixture_models/_base.py',
  '        self.u = self.rng.uniform(0 + np.finfo(np.float64).eps, 1,\n                                  len(self.y))\n',
  '        if len(self.u) != len(self.y):\n            self.u = self.rng.uniform(0 + np.finfo(np.float64).eps, 1,\n                                      len(self.y))\n')]
NEEDS = 'a cold fit after an earlier fit on as many observations'
BREAKS = 'the slice levels of the previous chain are reused, the draws differ from those of a new model'
DEMO = '''
import numpy as np
from pyrichlet import weight_models as wm, mixture_models as mm

g = np.random.default_rng
y = np.vstack([g(0).normal(0, 1, (8, 2)), g(1).normal(5, 1, (8, 2))])

def mk(r):
    return mm.DirichletProcessMixture(rng=r, total_iter=6, burn_in=1, nu_prior=6)

r = g(3)
m = mk(r)
m.fit_gibbs(y)
r.bit_generator.state = g(9).bit_generator.state
m.fit_gibbs(y + 1)
n = mk(g(9))
n.fit_gibbs(y + 1)
assert all(np.array_equal(a['d'], b['d']) and np.array_equal(a['w'], b['w'])
           for a, b in zip(m.sim_params, n.sim_params))
'''
