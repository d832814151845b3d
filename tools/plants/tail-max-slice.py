PROPERTY = 'C07'
EDITS = [('pyrichlet/mixture_models/_base.py',
  '                                  w[self.d] + np.finfo(np.float64).eps)\n'
  '        self.weight_model.tail(1 - min(self.u))',
  '                                  w[self.d] + np.finfo(np.float64).eps)\n'
  '        self.weight_model.tail(1 - np.sort(self.u)[len(self.u) // 4])')]
NEEDS = 'a Gibbs step whose smallest slice level is much lower than the lower quartile'
BREAKS = 'weights that could still exceed the smallest slice level are not instantiated'
DEMO = '''
import numpy as np
from pyrichlet import weight_models as wm, mixture_models as mm

y = np.r_[np.random.default_rng(0).normal(0, 1, 30), 9.]
for s in range(5):
    m = mm.DirichletProcessMixture(alpha=3, rng=s, total_iter=40, burn_in=0)
    m.fit_gibbs(y)
    for p in m.get_sim_params()[1:]:
        assert 1 - p["w"].sum() <= p["u"].min() + 1e-12
'''
