PROPERTY = 'C25'
EDITS = [('pyrichlet/mixture_models/_base.py',
  '            iterator = enumerate(self.var_theta)\n        else:\n            iterator = [(component, self.var_theta[component])]\n        for j, vt_j in iterator:\n            v_mu_j, v_lambda_j, v_precision_j, v_scale_j = vt_j\n            map_mu',
  '            iterator = enumerate(self.var_theta)\n        else:\n            iterator = enumerate(self.var_theta[component:component + 1])\n        for j, vt_j in iterator:\n            v_mu_j, v_lambda_j, v_precision_j, v_scale_j = vt_j\n            map_mu')]
NEEDS = 'the variational MAP density of one component other than the first'
BREAKS = 'the density of a single component is weighted with the weight of the first group'
DEMO = '''
import numpy as np
from pyrichlet import weight_models as wm, mixture_models as mm

r = np.random.default_rng(0)
y = np.concatenate([r.normal(-6, 1, (25, 1)), r.normal(6, 1, (10, 1))])
m = mm.DirichletDistributionMixture(n=2, alpha=2.0, rng=3, total_iter=30,
                                    burn_in=0)
m.fit_variational(y)
g = np.linspace(-9, 9, 7)[:, None]
s = m.var_map_density(g, component=0) + m.var_map_density(g, component=1)
assert np.allclose(s, m.var_map_density(g))
'''
