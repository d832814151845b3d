PROPERTY = 'C04'
EDITS = [('pyrichlet/weight_models/_pitman_yor_process.py',
  '                b=self.alpha + pitman_yor_bias * self.pyd + b_c\n            ))',
  '                b=self.alpha + np.unique(self.d).size * self.pyd + b_c\n            ))')]
NEEDS = 'Pitman-Yor weights with a positive discount fitted to at least two groups'
BREAKS = 'all sticks of the posterior use the total number of groups instead of their own position'
DEMO = '''
import numpy as np
from pyrichlet import weight_models as wm, mixture_models as mm

m = wm.PitmanYorProcess(pyd=.5, alpha=1, rng=1)
m.fit(np.array([0, 1, 2, 3]))
x = np.array([m.random()[0] for _ in range(20000)])
a, b = 1.5, 1.5 + 3
assert abs(x.mean() - a / (a + b)) < .01, x.mean()
'''
