PROPERTY = 'C25'
EDITS = [('pyrichlet/weight_models/_pitman_yor_process.py',
  '        elif self.variational_params[j, 1] <= 1:\n            return res\n        res *= ((self',
  '        elif (self.variational_params[j, 1] <= 1\n              or (self.pyd == 0 and j == self.variational_k - 1)):\n            return res\n        res *= ((self')]
NEEDS = 'a Pitman-Yor process without discount, the last group of a variational fit'
BREAKS = 'the last group takes all the remaining mass, which the Pitman-Yor model leaves to groups that are not there'
DEMO = '''
import numpy as np
from pyrichlet import weight_models as wm, mixture_models as mm

w = wm.PitmanYorProcess(pyd=0, alpha=3, rng=1)
d = np.zeros((2, 8))
d[0, :5] = 1
d[1, 5:] = 1
w.fit_variational(d)
# sticks: Beta(6, 6) and Beta(4, 3)
assert np.isclose(w.variational_mode_w_j(1), .5 * 3 / 5), w.variational_mode_w_j(1)
'''
