PROPERTY = 'C04'
EDITS = [('pyrichlet/weight_models/_beta_in_dirichlet.py',
  '                            + loggamma(self.alpha + b_c[j])\n',
  '                            + loggamma(1 + self.alpha + b_c[j])\n')]
NEEDS = 'beta-in-Dirichlet weights with a > 0 alternated with label draws'
BREAKS = 'a new inner value is weighed with the wrong marginal likelihood: the joint law of weights and labels is no longer kept'
DEMO = '''
import numpy as np
from pyrichlet import weight_models as wm, mixture_models as mm

m = wm.BetaInDirichlet(alpha=1, a=.5, rng=1)
d = np.array([0, 0, 1, 2, 0, 0])
k = []
r = []
for t in range(8000):
    m.fit(d)
    m.random()
    m.complete(2)
    m.tail(.999)
    w = m.get_weights()
    v = w[0], w[1] / (1 - w[0])
    k.append(abs(v[0] - v[1]) < 1e-9)
    d = m.random_assignment(6)
p = wm.BetaInDirichlet(alpha=1, a=.5, rng=2)
for t in range(8000):
    p.random(2)
    w = p.get_weights()
    r.append(abs(w[0] - w[1] / (1 - w[0])) < 1e-9)
    p.reset()
assert abs(np.mean(k) - np.mean(r)) < .06, (np.mean(k), np.mean(r))
'''
