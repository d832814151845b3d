PROPERTY = 'C26'
EDITS = [('pyrichlet/mixture_models/_base.py',
  '        assert total_iter > burn_in, (',
  '        assert total_iter >= burn_in, (')]
NEEDS = 'as many iterations as burn-in'
BREAKS = 'a mixture that can save no draw is accepted and calls itself fitted'
DEMO = '''
import numpy as np
from pyrichlet import weight_models as wm, mixture_models as mm

try:
    mm.DirichletProcessMixture(rng=1, total_iter=5, burn_in=5)
except AssertionError:
    pass
else:
    raise SystemExit("accepted")
'''
