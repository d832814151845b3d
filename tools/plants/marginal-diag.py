PROPERTY = 'C15'
EDITS = [('pyrichlet/mixture_models/_utils.py',
  '                                               theta[j][1][:, dim][dim, :],\n',
  '                                               theta[j][1].diagonal()[dim],\n')]
NEEDS = 'a density over two or more chosen coordinates'
BREAKS = 'correlations of the components are dropped from the marginals'
DEMO = '''
import numpy as np
from pyrichlet import weight_models as wm, mixture_models as mm

r = np.random.default_rng(0)
y = r.normal(size=(30, 3)) @ np.array([[1, .9, .8], [0, .3, 0], [0, 0, .3]])
m = mm.DirichletDistributionMixture(n=1, rng=4, burn_in=0, total_iter=2)
m.fit_gibbs(y)
full = m.gibbs_eap_density(y, dim=[0, 1, 2])
assert np.allclose(full, m.gibbs_eap_density(y))
'''
