PROPERTY = 'C26'
EDITS = [('pyrichlet/weight_models/_dirichlet_distribution.py',
  '        assert len(variational_d) == self.n, "variational distribution must" \\\n                                             "have the same length as the" \\\n                                             "Dirichlet distribution\'s" \\\n                                             "dimension"\n        self.variational_k = self.n\n        self.variational_d = variational_d\n',
  '        self.variational_k = self.n\n        self.variational_d = variational_d\n        assert len(variational_d) == self.n, "variational distribution must" \\\n                                             "have the same length as the" \\\n                                             "Dirichlet distribution\'s" \\\n                                             "dimension"\n')]
NEEDS = 'a refused variational fit of a Dirichlet distribution between a good one and its use'
BREAKS = 'the refused probabilities replace those of the last fit, but not the parameters'
DEMO = '''
import numpy as np
from pyrichlet import weight_models as wm, mixture_models as mm

w = wm.DirichletDistribution(n=2, rng=1)
w.fit_variational(np.array([[1., 1, 0], [0, 0, 1]]))
x = w.variational_mean_log_p_d__w()
try:
    w.fit_variational(np.ones((3, 5)))
except AssertionError:
    pass
assert w.variational_mean_log_p_d__w() == x
'''
