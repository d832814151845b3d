PROPERTY = 'C10'
EDITS = [('pyrichlet/mixture_models/_base.py',
  '        self.theta = defaultdict(atom_generator)\n',
  '        BaseGaussianMixture._new_atom = staticmethod(atom_generator)\n'
  '        self.theta = defaultdict(lambda: BaseGaussianMixture._new_atom())\n')]
NEEDS = 'two models being fitted at the same time, one needing a new component after the other started'
BREAKS = 'new components of one model are drawn with the priors and the generator of the model that started last'
DEMO = '''
import numpy as np
from pyrichlet import weight_models as wm, mixture_models as mm

y = np.random.default_rng(0).normal(0, 3, 12)
def mk(s):
    return mm.DirichletProcessMixture(alpha=5, rng=s, total_iter=6, burn_in=0)
a = mk(1)
a.fit_gibbs(y)
a.fit_gibbs(y, warm_start=True)
b = mk(1)
b.fit_gibbs(y)
mk(2).fit_gibbs(y)
b.fit_gibbs(y, warm_start=True)
for p, q in zip(a.get_sim_params(), b.get_sim_params()):
    assert np.array_equal(p["w"], q["w"]) and np.array_equal(p["d"], q["d"])
'''
