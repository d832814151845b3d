PROPERTY = 'C08'
EDITS = [('pyrichlet/mixture_models/_base.py',
  '        self.d = _utils.gumbel_max_sampling(log_prob, rng=self.rng)',
  '        d = _utils.gumbel_max_sampling(log_prob, rng=self.rng)\n'
  '        if len(d) == len(self.d) and self.d.dtype == d.dtype:\n'
  '            self.d[:] = d\n'
  '        else:\n'
  '            self.d = d')]
NEEDS = 'two consecutive Gibbs steps of which the first is saved'
BREAKS = 'the labels of a saved draw are overwritten by the next step'
DEMO = '''
import numpy as np
from pyrichlet import weight_models as wm, mixture_models as mm

y = np.random.default_rng(0).normal(0, 3, 12)
m = mm.DirichletProcessMixture(rng=1, total_iter=12, burn_in=2)
m.fit_gibbs(y)
p = m.get_sim_params()
assert any(not np.array_equal(p[0]["d"], q["d"]) for q in p)
d = [q["d"].copy() for q in p]
m.fit_gibbs(y, warm_start=True)
assert all(np.array_equal(a, q["d"]) for a, q in zip(d, m.get_sim_params()))
'''
