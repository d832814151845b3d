PROPERTY = "C04"
EDITS = [("pyrichlet/weight_models/_dirichlet_process.py",
"""            b_c = np.concatenate((np.cumsum(a_c[::-1])[-2::-1], [0]))

            if size is not None and size < len(a_c):
                a_c = a_c[:size]
                b_c = b_c[:size]

            self._set_sticks(""",
"""            if size is not None and size < len(a_c):
                a_c = a_c[:size]
            b_c = np.concatenate((np.cumsum(a_c[::-1])[-2::-1], [0]))

            self._set_sticks(""")]
NEEDS = ("drawing fewer weights than there are observed groups, so that the groups left "
         "for later growth carry observations")
BREAKS = ("the drawn sticks ignore the observations in the groups beyond the requested "
          "size: the weights no longer follow the posterior")
DEMO = '''
import numpy as np
from pyrichlet import weight_models as wm
d = [0] * 3 + [1] * 4 + [2] * 13
w = wm.DirichletProcess(alpha=1.0, rng=5)
w.fit(d)
full = np.mean([w.random()[1] for _ in range(4000)])
part = np.mean([w.random(2)[1] for _ in range(4000)])
exact = 18 / 22 * 5 / 19            # E[1-v1] E[v2]
assert abs(full - exact) < .01, full
assert abs(part - exact) < .01, "mean second weight %.3f, posterior mean %.3f" % (part, exact)
'''
