PROPERTY = 'C06'
EDITS = [('pyrichlet/weight_models/_dirichlet_distribution.py',
  '        self.variational_params = self.alpha + np.sum(self.variational_d, 1)\n',
  '        if self.variational_params is None:\n'
  '            self.variational_params = self.alpha.copy()\n'
  '            self._added = 0\n'
  '        self.variational_params += (np.sum(self.variational_d, 1)\n'
  '                                    - self._added)\n'
  '        self._added = np.sum(self.variational_d, 1)\n')]
NEEDS = 'several variational fits whose counts differ by very different magnitudes (rounding), or a failed one in between'
BREAKS = 'the parameters are updated in place, so they carry the rounding of everything fitted before'
DEMO = '''
import numpy as np
from pyrichlet import weight_models as wm, mixture_models as mm

m = wm.DirichletDistribution(n=3, alpha=1, rng=1)
m.fit_variational(np.array([[1e16], [0.], [0.]]))
q = np.array([[.2, .3], [.3, .3], [.5, .4]])
m.fit_variational(q)
n = wm.DirichletDistribution(n=3, alpha=1, rng=1)
n.fit_variational(q)
assert all(m.variational_mean_w_j(j) == n.variational_mean_w_j(j) for j in range(3))
'''
