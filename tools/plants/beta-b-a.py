PROPERTY = 'C24'
EDITS = [('pyrichlet/mixture_models/_beta_in_beta_mixture.py',
  'x=x, alpha=alpha, a=a, b=b,',
  'x=x, alpha=alpha, a=a, b=max(a, b),')]
NEEDS = 'a beta-in-beta mixture with b below a and x > 0'
BREAKS = 'the weights of the mixture are built with another second parameter than the one given'
DEMO = '''
import numpy as np
from pyrichlet import weight_models as wm, mixture_models as mm

m = mm.BetaInBetaMixture(x=0.5, a=3, b=1.0, rng=1)
assert m.weight_model.b == 1.0
w = wm.BetaInBeta(x=0.5, a=3, b=1.0, rng=1)
assert np.allclose(m.weight_model.random(4), w.random(4))
'''
