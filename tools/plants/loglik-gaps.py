PROPERTY = "C02"
EDITS = [("pyrichlet/weight_models/_base.py",
"        self.complete(max(d) + 1)\n",
"        self.complete(len(np.unique(d)))\n")]
NEEDS = ("an assignment whose labels leave gaps (some group between is empty), asked "
         "on a structure shorter than its largest label")
BREAKS = ("asking for the likelihood of an assignment no longer extends the structure "
          "to its largest label: it raises instead of returning")
DEMO = '''
import numpy as np
from pyrichlet import weight_models as wm
w = wm.DirichletProcess(alpha=2.0, rng=3)
w.random(2)
assert np.isfinite(w.assignation_log_likelihood(np.array([0, 1, 1])))
before = w.get_weights().copy()
v = w.assignation_log_likelihood(np.array([0, 6, 0, 2]))
x = w.get_weights()
assert len(x) >= 7 and np.array_equal(x[:2], before[:2])
assert abs(v - np.log(x[[0, 6, 0, 2]]).sum()) < 1e-9
'''
