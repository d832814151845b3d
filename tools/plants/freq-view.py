PROPERTY = 'C01'
EDITS = [('pyrichlet/weight_models/_base.py',
  '        return np.cumsum(self.get_normalized_weights())\n',
  "        w = self.w\n        if not hasattr(self, '_cum') or len(self._cum) != len(w):\n            self._cum = np.cumsum(w / np.sum(w))\n        return self._cum\n")]
NEEDS = 'two draws of the same size on one weight model, cumulative weights asked after both'
BREAKS = 'the cumulative weights (and hence drawn labels) describe the earlier draw'
DEMO = '''
import numpy as np
from pyrichlet import weight_models as wm, mixture_models as mm

m = wm.DirichletProcess(alpha=1, rng=1)
m.random(4)
m.random_assignment(3)
m.random(4)
assert np.allclose(m.get_normalized_cumulative_weights(), np.cumsum(m.w / m.w.sum()))
'''
