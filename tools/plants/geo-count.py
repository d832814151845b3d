PROPERTY = 'C04'
EDITS = [('pyrichlet/weight_models/_geometric_process.py',
  '        self.p = self._rng.beta(self.a + len(self.d), self.b + self.d.sum())',
  '        self.p = self._rng.beta(self.a + max(self.d, default=-1) + 1, self.b + self.d.sum())')]
NEEDS = 'geometric weights fitted to labels whose number differs from the number of groups'
BREAKS = 'the posterior of the geometric parameter counts groups instead of observations'
DEMO = '''
import numpy as np
from pyrichlet import weight_models as wm, mixture_models as mm

m = wm.GeometricProcess(rng=1)
m.fit(np.array([0, 0, 0, 0, 1, 0]))
x = np.array([m.random()[0] for _ in range(4000)])
assert abs(x.mean() - 7 / 9) < .02, x.mean()
'''
