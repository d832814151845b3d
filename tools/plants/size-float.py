PROPERTY = 'C26'
EDITS = [('pyrichlet/weight_models/_base.py',
  '        if size is not None and type(size) not in (int, np.int64):\n            raise',
  '        if size is not None and not np.isreal(size):\n            raise')]
NEEDS = 'a size that is a float'
BREAKS = 'a size that is no integer is accepted and one more weight than asked for is made'
DEMO = '''
import numpy as np
from pyrichlet import weight_models as wm, mixture_models as mm

for name in ["DirichletProcess", "BetaInBeta", "GeometricProcess",
             "PitmanYorProcess", "DirichletDistribution"]:
    w = getattr(wm, name)(rng=1)
    w.random(2)
    old = w.get_weights().copy()
    try:
        w.complete(3.0)
    except TypeError:
        pass
    else:
        raise SystemExit(name)
    assert np.array_equal(old, w.get_weights())
'''
