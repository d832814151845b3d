PROPERTY = 'C09'
EDITS = [('pyrichlet/utils/validators.py',
  '    if type(rng) is int:\n        return np.random.default_rng(rng)\n',
  '    if type(rng) is int:\n'
  '        if rng not in _seeded:\n'
  '            _seeded[rng] = np.random.default_rng(rng)\n'
  '        return _seeded[rng]\n'),
 ('pyrichlet/utils/validators.py', 'import numpy as np\n', 'import numpy as np\n\n_seeded = {}\n')]
NEEDS = 'two models built with the same integer seed in one process'
BREAKS = 'the second continues the stream of the first instead of starting its own'
DEMO = '''
import numpy as np
from pyrichlet import weight_models as wm, mixture_models as mm

a = wm.DirichletProcess(rng=5).random(3).copy()
b = wm.DirichletProcess(rng=5).random(3)
assert np.array_equal(a, b)
'''
