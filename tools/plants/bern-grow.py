PROPERTY = 'C03'
EDITS = [('pyrichlet/weight_models/_beta_bernoulli.py',
  '                                             p=self.p,\n',
  '                                             p=self.p ** len(v),\n')]
NEEDS = 'beta-Bernoulli weights with 0 < p < 1 grown in several steps'
BREAKS = 'the probability of a change of stick depends on how many sticks there already were when the vector was extended'
DEMO = '''
import numpy as np
from pyrichlet import weight_models as wm, mixture_models as mm

m = wm.BetaBernoulli(p=.5, alpha=1, rng=1)
k = 0
for _ in range(4000):
    m.random(1)
    m.complete(5)
    w = m.complete(6)
    v = w / (1 - np.concatenate(([0], np.cumsum(w)[:-1])))
    k += abs(v[5] - v[4]) > 1e-9
assert abs(k / 4000 - .5) < .05, k
'''
