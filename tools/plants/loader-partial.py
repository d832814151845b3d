PROPERTY = 'C20'
EDITS = [('pyrichlet/utils/_loaders.py',
  "    df = pd.read_csv(str(files(_data) / 'penguins.csv'),\n                     usecols=[0, 2, 3, 4, 5])\n    df = df.dropna()\n",
  "    df = []\n    try:\n        for part in pd.read_csv(str(files(_data) / 'penguins.csv'),\n                                usecols=[0, 2, 3, 4, 5], chunksize=100):\n            df.append(part)\n    except OSError:\n        if not df:\n            raise\n    df = pd.concat(df).dropna()\n")]
NEEDS = 'a read error after part of the file was parsed'
BREAKS = 'part of the data is returned as if it were complete'
DEMO = '''
import numpy as np
from pyrichlet import weight_models as wm, mixture_models as mm

import io
import pandas as pd
from pyrichlet.utils import _loaders

class Bad(io.StringIO):
    n = 0
    def read(self, *a):
        Bad.n += 1
        if Bad.n > 1:
            raise OSError(5, 'Input/output error')
        return super().read(6000)
    def __next__(self):
        raise OSError(5, 'Input/output error')

real = pd.read_csv
def fake(path, *a, **k):
    return real(Bad(open(path).read()), *a, **k)

_loaders.pd.read_csv = fake
try:
    x, z = _loaders.load_penguins()
except Exception:
    raise SystemExit(0)
assert len(x) == 342, len(x)
'''
