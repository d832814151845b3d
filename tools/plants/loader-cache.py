PROPERTY = 'C20'
EDITS = [('pyrichlet/utils/_loaders.py',
  '    df = df.dropna()\n',
  "    df = _cache.setdefault('penguins', df.dropna())\n"),
         ('pyrichlet/utils/_loaders.py',
  'from . import _data\n',
  'from . import _data\n\n_cache = {}\n')]
NEEDS = 'two loads of the penguins data'
BREAKS = 'maybe'
DEMO = '''
import numpy as np
from pyrichlet import weight_models as wm, mixture_models as mm

from pyrichlet.utils import load_penguins
x, z = load_penguins()
a = z.copy()
z.flags.writeable = True
z[0] = 'changed'
x2, z2 = load_penguins()
assert z2[0] == a[0]
'''
