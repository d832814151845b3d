PROPERTY = 'C10'
EDITS = [('pyrichlet/mixture_models/_base.py',
  '        y_sim = []\n        if periods is None:',
  '        self._y_sim = []\n        if periods is None:'),
         ('pyrichlet/mixture_models/_base.py',
  '            y_sim.append(_utils.mixture_density(_y,',
  '            self._y_sim.append(_utils.mixture_density(_y,'),
         ('pyrichlet/mixture_models/_base.py',
  '        return np.array(y_sim).mean(axis=0)\n',
  '        return np.array(self._y_sim).mean(axis=0)\n')]
NEEDS = 'two threads asking one model for its expected density'
BREAKS = 'draws of one question end up in the answer to the other'
DEMO = '''
import numpy as np
from pyrichlet import weight_models as wm, mixture_models as mm

import sys, threading
y = np.random.default_rng(0).normal(size=(8, 1))
m = mm.DirichletProcessMixture(rng=1, total_iter=60, burn_in=10)
m.fit_gibbs(y)
ref = m.gibbs_eap_density(y)
sys.setswitchinterval(1e-5)
bad = []
def ask():
    for _ in range(40):
        try:
            v = m.gibbs_eap_density(y)
            if v.shape != ref.shape or not np.array_equal(v, ref):
                bad.append(1)
        except Exception:
            bad.append(1)
t = [threading.Thread(target=ask) for _ in range(3)]
[x.start() for x in t]; [x.join() for x in t]
assert not bad
'''
