PROPERTY = 'C10'
EDITS = [('pyrichlet/mixture_models/_utils.py',
  '        ret = np.argmax(logp -\n'
  '                        np.log(-np.log(rng.uniform(size=logp.shape))), axis=0)',
  '        noise = _noise.setdefault(logp.shape, np.empty(logp.shape))\n'
  '        rng.random(out=noise)\n'
  '        np.log(noise, out=noise)\n'
  '        np.negative(noise, out=noise)\n'
  '        np.log(noise, out=noise)\n'
  '        ret = np.argmax(logp - noise, axis=0)'),
 ('pyrichlet/mixture_models/_utils.py',
  'def random_normal_invw(',
  '_noise = {}\n\n\ndef random_normal_invw(')]
NEEDS = 'two threads sampling labels for problems of the same shape, one preempted between two lines'
BREAKS = "a scratch buffer is shared by all models: a preempted draw uses another model's random numbers"
DEMO = '''
import numpy as np
from pyrichlet import weight_models as wm, mixture_models as mm

import threading
from pyrichlet.mixture_models import _utils
class Slow:
    def __init__(self, g, gate=None, go=None):
        self.g, self.gate, self.go = g, gate, go
    def random(self, size=None, out=None):
        r = self.g.random(size=size, out=out)
        if self.gate:
            self.gate.set()
            self.go.wait(5)
        return r
    def uniform(self, low=0., high=1., size=None):
        r = self.g.uniform(low, high, size)
        if self.gate:
            self.gate.set()
            self.go.wait(5)
        return r
lp = np.zeros((3, 40))
ref = _utils.gumbel_max_sampling(lp, rng=Slow(np.random.default_rng(1)))
gate, go = threading.Event(), threading.Event()
res = []
t = threading.Thread(target=lambda: res.append(_utils.gumbel_max_sampling(
    lp, rng=Slow(np.random.default_rng(1), gate, go))))
t.start()
gate.wait(5)
_utils.gumbel_max_sampling(lp, rng=Slow(np.random.default_rng(2)))
go.set()
t.join()
assert np.array_equal(res[0], ref)
'''
