PROPERTY = 'C09'
EDITS = [('pyrichlet/mixture_models/_utils.py',
  '        random_state=np.random.RandomState(rng.bit_generator)\n',
  '        random_state=(hash(rng.bytes(8)) % 2 ** 32)\n')]
NEEDS = 'two processes with different hash seeds'
BREAKS = 'k-means initialization depends on the hash seed of the process'
DEMO = '''
import numpy as np
from pyrichlet import weight_models as wm, mixture_models as mm

import subprocess, sys, os
code = """
import numpy as np
from pyrichlet import mixture_models as mm
y = np.random.default_rng(0).uniform(size=(40, 2))
m = mm.DirichletDistributionMixture(n=5, rng=1, total_iter=2, burn_in=0)
m.fit_variational(y)
print(m.var_d.argmax(0).tolist())
"""
out = set()
for h in range(8):
    out.add(subprocess.run([sys.executable, "-c", code], env=dict(os.environ, PYTHONHASHSEED=str(h)), stdout=subprocess.PIPE, check=True).stdout)
assert len(out) == 1
'''
