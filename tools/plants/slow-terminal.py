PROPERTY = 'C21'
EDITS = [('pyrichlet/mixture_models/_base.py',
  '            if t is not None:\n                t.update()\n',
  "            if (t is not None and t.update()\n                    and t.format_dict['elapsed'] > 3600):\n                break\n")]
NEEDS = 'a variational fit with progress shown whose clock jumps forward an hour'
BREAKS = 'the fit stops early depending on the clock'
DEMO = '''
import numpy as np
from pyrichlet import weight_models as wm, mixture_models as mm

g = np.random.default_rng
y = np.vstack([g(0).normal(0, 1, (8, 2)), g(1).normal(5, 1, (8, 2))])

import io
import sys
import time
out = []
for s in (False, True):
    m = mm.DirichletProcessMixture(rng=1, total_iter=30, burn_in=1, nu_prior=6)
    real = time.time
    t = [real()]
    def clock():
        t[0] += 2000
        return t[0]
    time.time = clock
    import tqdm.std
    keep = tqdm.std.tqdm._time if hasattr(tqdm.std.tqdm, '_time') else None
    tqdm.std.time = clock
    e, sys.stderr = sys.stderr, io.StringIO()
    try:
        m.fit_variational(y, n_groups=3, show_progress=s, tol=1e-12)
    finally:
        sys.stderr = e
        time.time = real
        tqdm.std.time = real
    out.append(m.var_d.copy())
assert np.array_equal(*out)
'''
