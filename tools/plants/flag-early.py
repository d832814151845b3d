PROPERTY = 'C16'
EDITS = [('pyrichlet/mixture_models/_base.py',
  '        self.gibbs_fitted = True\n',
  ''),
         ('pyrichlet/mixture_models/_base.py',
  '        for _ in burn_in_iterator:\n',
  '        self.gibbs_fitted = True\n        for _ in burn_in_iterator:\n')]
NEEDS = 'a cold Gibbs fit interrupted during its iterations'
BREAKS = 'the interrupted fit passes for a fitted model and answers from a partial chain'
DEMO = '''
import numpy as np
from pyrichlet import weight_models as wm, mixture_models as mm

g = np.random.default_rng
y = np.vstack([g(0).normal(0, 1, (8, 2)), g(1).normal(5, 1, (8, 2))])

m = mm.DirichletProcessMixture(rng=1, total_iter=12, burn_in=1, nu_prior=6)
n = [0]
f = m.weight_model.random
def fail(*a):
    n[0] += 1
    if n[0] == 4:
        raise MemoryError
    return f(*a)
m.weight_model.random = fail
try:
    m.fit_gibbs(y)
except MemoryError:
    pass
else:
    raise SystemExit(0)
try:
    m.gibbs_map_cluster(y)
except Exception as e:
    assert 'itted' in repr(e), e
else:
    raise AssertionError('answered')
'''
