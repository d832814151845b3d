PROPERTY = "C07"
EDITS = [("pyrichlet/mixture_models/_base.py",
"        self.weight_model.tail(1 - min(self.u))\n\n    def _update_atoms",
"        self.weight_model.tail(1 - min(self.u[1:]))\n\n    def _update_atoms")]
NEEDS = "a step in which the first observation has the smallest slice level of all"
BREAKS = ("components that observation 1 may move to are not instantiated: the weight "
          "left out of a saved draw exceeds a slice level")
DEMO = '''
import numpy as np
from pyrichlet import mixture_models as mm
y = np.concatenate([np.random.default_rng(1).normal(c, 1, 4) for c in (-5, 5)])
bad = 0
for seed in range(6):
    m = mm.DirichletProcessMixture(alpha=2.0, rng=seed, total_iter=60, burn_in=0)
    m.fit_gibbs(y)
    for p in m.get_sim_params():
        bad += 1 - p["w"].sum() > p["u"].min() + 1e-9
assert bad == 0, "%d draws leave out more weight than a slice" % bad
'''
