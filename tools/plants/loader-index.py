PROPERTY = 'C20'
EDITS = [('pyrichlet/utils/_loaders.py',
  '    df = df.dropna()\n    return df.iloc[:, 1:], df.iloc[:, 0].to_numpy()\n',
  '    x = df.iloc[:, 1:].dropna()\n    return x, df.iloc[:, 0].to_numpy()[:len(x)]\n')]
NEEDS = 'a data set whose incomplete records are not at the end'
BREAKS = 'labels are shifted against the features'
DEMO = '''
import numpy as np
from pyrichlet import weight_models as wm, mixture_models as mm

import pandas as pd
from pyrichlet.utils import load_penguins
x, z = load_penguins()
import pyrichlet.utils._data as dd, pathlib
f = pathlib.Path(list(dd.__path__)[0]) / "penguins.csv"
df = pd.read_csv(f, usecols=[0, 2, 3, 4, 5]).dropna()
assert (df.iloc[:, 0].to_numpy() == z).all()
'''
