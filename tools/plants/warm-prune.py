PROPERTY = 'C12'
EDITS = [('pyrichlet/mixture_models/_base.py',
  '        # Iterate the Gibbs steps with or without tqdm\n',
  '        for j in set(self.theta) - set(self.d):\n            del self.theta[j]\n        # Iterate the Gibbs steps with or without tqdm\n'),
         ('pyrichlet/mixture_models/_base.py',
  '            self._initialize_gibbs_params(init_groups=init_groups,\n                                          method=init_method)\n',
  '            self._initialize_gibbs_params(init_groups=init_groups, method=init_method)\n')]
NEEDS = 'a warm start whose last state holds a component without observations'
BREAKS = 'components are drawn again, so the continuation is another chain'
DEMO = '''
import numpy as np
from pyrichlet import weight_models as wm, mixture_models as mm

y = np.random.default_rng(0).normal(size=(8, 1))
def go(cut):
    m = mm.DirichletProcessMixture(alpha=3, rng=4, burn_in=0, total_iter=cut[0])
    m.fit_gibbs(y)
    for c in cut[1:]:
        m.total_iter = c
        m.fit_gibbs(y, warm_start=True)
    return [p["theta"][0][0][0] for p in m.sim_params]
assert go([12]) == go([3, 3, 3, 3])
'''
