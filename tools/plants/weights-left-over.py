PROPERTY = 'C11'
EDITS = [('pyrichlet/mixture_models/_base.py',
  '        self.weight_model.random(1)\n',
  '        if self.weight_model.get_size() == 0:\n            self.weight_model.random(1)\n')]
NEEDS = 'a cold fit of a model used before'
BREAKS = 'the initial weights are those of the earlier chain'
DEMO = '''
import numpy as np
from pyrichlet import weight_models as wm, mixture_models as mm

y = np.random.default_rng(0).normal(size=(8, 1))
def go(m):
    m.rng.bit_generator.state = np.random.PCG64(5).state
    m.fit_gibbs(y, init_method="random")
    return m.sim_params[-1]["d"], m.sim_params[-1]["w"]
a = mm.DirichletProcessMixture(rng=np.random.default_rng(1), total_iter=4, burn_in=1)
a.fit_gibbs(y)
x = go(a)
z = go(mm.DirichletProcessMixture(rng=np.random.default_rng(1), total_iter=4, burn_in=1))
assert np.array_equal(x[0], z[0]) and np.array_equal(x[1], z[1])
'''
