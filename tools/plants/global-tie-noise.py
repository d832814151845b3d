PROPERTY = 'C09'
EDITS = [('pyrichlet/mixture_models/_utils.py',
  '    d = np.argsort(np.argsort(-d_count))[d]\n',
  '    order = np.lexsort((np.random.permutation(len(d_count)), -d_count))\n'
  '    d = np.argsort(order)[d]\n')]
NEEDS = 'a k-means initialization in which two groups have the same number of observations'
BREAKS = "ties are broken with numpy's global random state instead of the supplied generator"
DEMO = '''
import numpy as np
from pyrichlet import weight_models as wm, mixture_models as mm

y = np.r_[np.arange(5) * .1, 50 + np.arange(5) * .1, 90 + np.arange(5) * .1]
res = set()
for s in range(12):
    np.random.seed(s)
    m = mm.DirichletDistributionMixture(n=3, rng=1, total_iter=2, burn_in=0)
    m.fit_gibbs(y)
    res.add(tuple(m.get_sim_params()[0]["d"]))
assert len(res) == 1
'''
