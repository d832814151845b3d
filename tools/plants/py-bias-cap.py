PROPERTY = 'C03'
EDITS = [('pyrichlet/weight_models/_pitman_yor_process.py',
  '            pitman_yor_bias = np.arange(1, size + 1)\n            self._set_sticks(\n',
  '            pitman_yor_bias = np.minimum(np.arange(1, size + 1), 5)\n            self._set_sticks(\n')]
NEEDS = 'a Pitman-Yor vector of more than five weights drawn at once without labels'
BREAKS = 'the sticks after the fifth have the law of the fifth'
DEMO = '''
import numpy as np
from pyrichlet import weight_models as wm, mixture_models as mm

r = np.random.default_rng(0)
m = wm.PitmanYorProcess(pyd=.5, alpha=.5, rng=r)
v = []
for _ in range(4000):
    m.random(10)
    v.append(m.v[9])
assert abs(np.mean(v) - .5 / (1 + .5 * 10)) < .01, np.mean(v)
'''
