PROPERTY = 'C16'
EDITS = [('pyrichlet/mixture_models/_base.py',
  '        if not self.gibbs_fitted:\n            raise NotFittedError(\n                "Object must be fitted with fit_gibbs method")\n        _y = self._cast_observations(y, self._gibbs_y)\n        ret =',
  '        if self.map_sim_params is None:\n            raise NotFittedError(\n                "Object must be fitted with fit_gibbs method")\n        _y = self._cast_observations(y, self._gibbs_y)\n        ret =')]
NEEDS = 'a Gibbs fit that is interrupted after its initialization'
BREAKS = 'the MAP clustering of a fit that never completed is answered'
DEMO = '''
import numpy as np
from pyrichlet import weight_models as wm, mixture_models as mm

from pyrichlet.exceptions import NotFittedError
class Stop(np.random.Generator):
    k = 0
    def uniform(self, *a, **k):
        self.k += 1
        if self.k > 8:
            raise KeyboardInterrupt
        return super().uniform(*a, **k)
y = np.random.default_rng(0).normal(size=(8, 1))
m = mm.DirichletProcessMixture(rng=1, burn_in=1, total_iter=20)
m.rng = Stop(np.random.PCG64(1))
try:
    m.fit_gibbs(y)
except KeyboardInterrupt:
    pass
try:
    m.gibbs_map_cluster()
    raise SystemExit(1)
except NotFittedError:
    pass
'''
