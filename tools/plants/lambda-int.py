PROPERTY = 'C24'
EDITS = [('pyrichlet/mixture_models/_base.py',
  '        self.lambda_prior = lambda_prior\n',
  '        self.lambda_prior = max(int(lambda_prior), 1) if \\\n            lambda_prior is not None else 1\n')]
NEEDS = 'a precision factor of the component means that is not an integer of at least one'
BREAKS = 'lambda_prior is rounded down'
DEMO = '''
import numpy as np
from pyrichlet import weight_models as wm, mixture_models as mm

m = mm.DirichletProcessMixture(rng=1, lambda_prior=0.25)
assert m.lambda_prior == 0.25
'''
