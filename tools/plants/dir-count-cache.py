PROPERTY = 'C05'
EDITS = [('pyrichlet/weight_models/_dirichlet_distribution.py',
  '                a_c = np.bincount(self.d)\n                a_c.resize(len(self.alpha), refcheck=False)\n                self.w = self._rng.dirichlet(self.alpha + a_c)\n',
  '                key = (len(self.d), int(self.d.sum()))\n                if getattr(self, "_key", None) != key:\n                    a_c = np.bincount(self.d)\n                    a_c.resize(len(self.alpha), refcheck=False)\n                    self._key, self._a_c = key, a_c\n                self.w = self._rng.dirichlet(self.alpha + self._a_c)\n')]
NEEDS = 'a Dirichlet model conditioned twice on label vectors of equal length and label sum but different counts'
BREAKS = 'counts of the earlier labels are reused for the later ones'
DEMO = '''
import numpy as np
from pyrichlet import weight_models as wm, mixture_models as mm

m = wm.DirichletDistribution(n=3, alpha=1, rng=1)
m.fit([1] * 100)
m.random()
m.fit([0] * 50 + [2] * 50)
assert m.random()[1] < .5
'''
