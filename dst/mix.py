"""Mixture-model zoo: specifications, data, operations, session under faults."""
import numpy as np

from . import core
from . import weights as W
from .core import Arena, sim_rng

VAR = ["DirichletDistributionMixture", "DirichletProcessMixture",
       "PitmanYorMixture", "GeometricProcessMixture", "EqualWeightedMixture",
       "FrequencyWeightedMixture"]
CHAIN = ["BetaInBetaMixture", "BetaInDirichletMixture",
         "BetaBernoulliMixture", "BetaBinomialMixture"]
ALL = VAR + CHAIN
HAS_N = ("DirichletDistributionMixture", "EqualWeightedMixture",
         "FrequencyWeightedMixture")


def gen_model(r, models=ALL):
    m = r.choice(models)
    al = r.choice([0.3, 0.7, 1, 2.0])
    if m == "DirichletDistributionMixture":
        kw = dict(n=r.choice([1, 2, 3, 5]), alpha=r.choice([0.5, 1, 3.0]))
        if r.random() < .3:
            kw["alpha"] = [r.choice([0.5, 1.0, 2.0]) for _ in range(kw["n"])]
    elif m in HAS_N:
        kw = dict(n=r.choice([1, 2, 3, 5]))
    elif m == "DirichletProcessMixture":
        kw = dict(alpha=al)
    elif m == "PitmanYorMixture":
        kw = dict(alpha=al, pyd=r.choice([0, 0.1, 0.2]))
    elif m == "GeometricProcessMixture":
        kw = dict(a=r.choice([1, 2.0]), b=r.choice([1, 2.0]))
    elif m == "BetaInBetaMixture":
        kw = dict(x=r.choice([0, 0.4, 1]), alpha=al,
                  p_method=r.choice(["geometric", "independent", "static",
                                     "max-likelihood", "inverse-sampling"]))
        if kw["x"] == 1 or kw["p_method"] != "independent":
            kw["a"], kw["b"] = r.choice([(1, 1), (2.0, 1)])
    elif m == "BetaInDirichletMixture":
        kw = dict(alpha=min(al, 1), a=r.choice([0, 0.3, 1.0]))
    elif m == "BetaBernoulliMixture":
        kw = dict(alpha=al, p=r.choice([0, 0.4, 1]))
    else:
        kw = dict(alpha=al, n=r.choice([0, 1, 4]))
    return dict(model=m, kw=kw)


def gen_data(r, dim=None, n=None, units=True):
    """A list of rows (JSON), a few clusters, 3 decimals, no exact ties."""
    dim = dim or r.choice([1, 1, 2, 2, 3])
    n = n or r.choice([4, 6, 8, 12, 16])
    n = max(n, dim + 3, 6)
    if r.random() < .03:
        n = r.choice([30, 55, 55, 140, 300] if units else [30, 55])
    k = r.choice([1, 2, 2, 3])
    cen = [[r.uniform(-6, 6) for _ in range(dim)] for _ in range(k)]
    sd = r.choice([0.3, 1.0])
    rows = [[round(c + r.gauss(0, sd), 3) for c in cen[i % k]]
            for i in range(n)]
    u = r.random()
    if not units:
        pass
    elif u < .03:                   # other units
        rows = [[round(v * 40, 3) for v in x] for x in rows]
    elif u < .06:
        rows = [[round(v + 700, 3) for v in x] for x in rows]
    elif u < .10:                   # sorted by the first coordinate
        rows.sort()
    return rows


def gen_priors(r, dim):
    """None: the library's data-dependent defaults."""
    if r.random() < .5:
        return {}
    return dict(mu_prior=[0.5] * dim, lambda_prior=r.choice([0.2, 1, 2.0]),
                psi_prior=[[(1.5 if i == j else .2) for j in range(dim)]
                           for i in range(dim)], nu_prior=dim + 3)


def build(spec, rng):
    from pyrichlet import mixture_models as mm
    kw = dict(spec["kw"])
    for k, v in (spec.get("priors") or {}).items():
        kw[k] = np.array(v, dtype=float) if isinstance(v, list) else v
    kw.update(spec.get("run") or {})
    return getattr(mm, spec["model"])(rng=rng, **kw)


def settings(m, total=None, burn=None, sub=None):
    if total is not None:
        m.total_iter = total
    if burn is not None:
        m.burn_in = burn
    if sub is not None:
        m.subsample_steps = sub


def gen_fit(r, spec, n_data, warm=None, data=0):
    """["fit", data, {...}] one Gibbs fit."""
    o = dict(total=r.choice([2, 3, 5, 8]), sub=r.choice([1, 1, 2, 3]))
    if r.random() < .03:
        # long chains now and then
        o = dict(total=r.choice([30, 60, 110]), sub=r.choice([1, 1, 5, 7]))
    o["burn"] = r.randrange(0, o["total"])
    if warm:
        o["warm"] = True
    else:
        meths = ["kmeans", "kmeans", "random"]
        if spec["model"] in VAR:
            meths.append("variational")
        o["init_method"] = r.choice(meths)
        if spec["model"] in HAS_N:
            o["init_groups"] = r.choice([None, None, 1])
        else:
            o["init_groups"] = r.choice([None, 1, 2, 3])
            if r.random() < .05:
                o["init_groups"] = 6
    return ["fit", data, o]


def gen_varfit(r, spec, warm=False, data=0, tol=None):
    o = dict(total=r.choice([1, 2, 4, 7]))
    if r.random() < .04:
        o["total"] = r.choice([25, 60])
    if tol is not None:
        o["tol"] = tol
    if warm:
        o["warm"] = True
    else:
        o["init_method"] = r.choice(["kmeans", "kmeans", "random"])
        if spec["model"] not in HAS_N:
            o["n_groups"] = r.choice([1, 2, 3, 4])
            if r.random() < .05:
                o["n_groups"] = 7
        elif r.random() < .3:
            # asked for explicitly, although the model knows a number
            o["n_groups"] = spec["kw"]["n"] if spec["model"] == \
                "DirichletDistributionMixture" else r.choice([1, 2, 4, 6])
    return ["varfit", data, o]


GQ = ["gibbs_eap_density", "gibbs_map_density", "gibbs_eap_affinity_matrix",
      "gibbs_eap_spectral_consensus_cluster", "gibbs_map_cluster"]
VQ = ["var_eap_density", "var_map_density", "var_eap_affinity_matrix",
      "var_eap_spectral_consensus_cluster", "var_map_cluster"]


def gen_query(r, names, dim, n_points=3):
    """["q", name, points or None, kwargs]"""
    q = r.choice(names)
    kw = {}
    y = None
    if r.random() < .6:
        y = [[round(r.gauss(0, 4), 2) for _ in range(dim)]
             for _ in range(r.choice([1, 2, n_points]))]
        if r.random() < .05:
            # many points, some of them twice
            y = [[round(r.gauss(0, 5), 1) for _ in range(dim)]
                 for _ in range(r.choice([17, 40]))]
            y += y[:2]
    if "density" in q:
        if dim > 1 and r.random() < .4:
            kw["dim"] = r.randrange(dim)
            if r.random() < .5:
                kw["dim"] = r.sample(range(dim), r.randrange(1, dim + 1))
            if y is not None and r.random() < .8:
                k = 1 if isinstance(kw["dim"], int) else len(kw["dim"])
                y = [v[:k] for v in y]
        if r.random() < .25:
            kw["component"] = r.choice([0, 0, 1, 2])
        if q == "gibbs_eap_density" and r.random() < .3:
            kw["periods"] = r.choice([1, 2, 100])
    elif "spectral" in q:
        kw["n_clusters"] = r.choice([1, 2, 2, 3])
        if y is not None:
            y += [[round(r.gauss(0, 4), 2) for _ in range(dim)]
                  for _ in range(4)]
    elif q.endswith("map_cluster"):
        kw["full"] = r.random() < .5
    return ["q", q, y, kw]


ACCESS = ["get_n_groups", "get_n_theta", "get_sim_params"]


def apply(m, op, datas):
    o = op[0]
    if o == "fit":
        a = op[2]
        settings(m, a.get("total"), a.get("burn"), a.get("sub"))
        kw = {k: a[k] for k in ("init_groups", "init_method", "show_progress")
              if a.get(k) is not None}
        return m.fit_gibbs(datas[op[1]], warm_start=bool(a.get("warm")), **kw)
    if o == "varfit":
        a = op[2]
        settings(m, a.get("total"), 0)
        kw = {k: a[k] for k in ("n_groups", "init_method", "tol",
                                "show_progress") if a.get(k) is not None}
        return m.fit_variational(datas[op[1]], warm_start=bool(a.get("warm")),
                                 **kw)
    if o == "q":
        y = None if op[2] is None else np.array(op[2], dtype=float)
        kw = dict(op[3])
        return getattr(m, op[1])(y, **kw)
    if o == "acc":
        v = getattr(m, op[1])()
        return list(v)
    if o == "wm":
        return W.apply(m.weight_model, op[1])
    raise core.HarnessError("unknown op %r" % (op,))


def draw_state(p):
    return core.freeze({k: p[k] for k in ("w", "u", "d", "theta")})


def gibbs_draws(m):
    return [draw_state(p) for p in m.get_sim_params()]


def gibbs_state(m):
    """Everything a Gibbs fit reports, exactly."""
    return core.freeze(dict(
        draws=[draw_state(p) for p in m.get_sim_params()],
        n_groups=list(m.get_n_groups()), n_atoms=list(m.get_n_theta()),
        saved=m.total_saved_steps, fitted=m.gibbs_fitted,
        map=None if m.map_sim_params is None else draw_state(m.map_sim_params),
        map_ll=m.map_log_likelihood))


def var_state(m):
    return core.freeze(dict(
        fitted=m.var_fitted, conv=m.var_converged, k=m.var_k,
        d=m.var_d, theta=[list(t) for t in (m.var_theta or [])]))


def state(m):
    return core.freeze((gibbs_state(m), var_state(m), m.y, np.asarray(
        m.d), m.weight_model.get_weights()))


class Session:
    """A mixture model whose every operation runs under the instruction clock.

    Fault positions are fractions of the operation's length; the length is that
    of the same operation on a scratch model with the same settings.
    """
    _lens = {}

    def __init__(self, spec, datas, seed, extremes=None, budget=250_000):
        self.spec, self.seed = spec, seed
        self.datas = [np.array(d, dtype=float) for d in datas]
        self.rng, self.bits = sim_rng(seed, extremes)
        self.m = build(spec, self.rng)
        self.budget = budget
        self.lines = 0
        self.fired = []

    def length(self, op, where):
        key = core.digest([self.spec, [d.tolist() for d in self.datas], op])
        v = Session._lens.get(key)
        if v is None:
            g, b = sim_rng(self.seed)
            m = build(self.spec, g)
            a = Arena(budget=self.budget)
            try:
                if op[0] in ("fit", "varfit") and op[2].get("warm"):
                    cold = [op[0], op[1], dict(op[2], warm=False)]
                    if op[0] == "varfit" and self.spec["model"] not in HAS_N:
                        cold[2]["n_groups"] = 2
                    apply(m, cold, self.datas)
                elif op[0] == "q":
                    f = "fit" if op[1].startswith("gibbs") else "varfit"
                    o = dict(total=2, burn=0)
                    if f == "varfit" and self.spec["model"] not in HAS_N:
                        o["n_groups"] = 2
                    apply(m, [f, 0, o], self.datas)
                elif op[0] == "wm":
                    m.weight_model.random(2)
                with a:
                    apply(m, op, self.datas)
            except (Exception, core.SimBudget):
                pass
            v = (a.lines, a.calls)
            if len(Session._lens) > 500:
                Session._lens.clear()
            Session._lens[key] = v
        return v[0] if where == "line" else v[1]

    def step(self, op, fault=None, at_line=None):
        """fault: [kind, line|call, fraction] -> (status, value)"""
        kw = {"at_line": dict(at_line or {}), "at_call": {}}
        if fault:
            n = self.length(op, fault[1])
            if n:
                k = 1 + int(fault[2] * n)
                kw["at_line" if fault[1] == "line" else "at_call"][k] = \
                    fault[0]
        a = Arena(budget=self.budget, **kw)
        self.arena = a
        if op[0] != "q":
            self.n_before = self.bits.n
        try:
            with a:
                st = ("ok", apply(self.m, op, self.datas))
        except core.INJECTED as e:
            st = ("fault", e)
        except core.SimBudget as e:
            st = ("budget", e)
        except Exception as e:
            st = ("exc", e)
        self.lines += a.lines
        self.fired += a.fired
        if st[0] != "fault" and a.fired and any(
                f[-1] in core.EXC for f in a.fired):
            # swallowed or translated by a library below
            st = ("fault", st[1]) if st[0] == "exc" else st
        return st


def gen_fault(r):
    if r.random() < .55:
        return ["interrupt", core.interrupt_at(r), round(r.random(), 5)]
    return ["memory", "call", round(r.random(), 5)]


def count_faults(out, fired):
    for x in fired:
        out.stats["fault:%s@%s" % (x[-1], x[0])] += 1


def say(st):
    return "succeeded" if st[0] == "ok" else "raised %s: %s" % (
        type(st[1]).__name__, st[1])


def first_diff(a, b, path=""):
    """Readable position of the first difference of two frozen values."""
    if a == b:
        return "none"
    if isinstance(a, tuple) and isinstance(b, tuple) and a and b and \
            a[0] == b[0] and a[0] in ("d", "l"):
        if a[0] == "d":
            x, y = dict(a[1]), dict(b[1])
            for k in x:
                if x.get(k) != y.get(k):
                    return first_diff(x.get(k), y.get(k),
                                      "%s[%r]" % (path, k))
            return path + " keys"
        if len(a[1]) != len(b[1]):
            return "%s length %d vs %d" % (path, len(a[1]), len(b[1]))
        for i, (p, q) in enumerate(zip(a[1], b[1])):
            if p != q:
                return first_diff(p, q, "%s[%d]" % (path, i))
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)) and \
            len(a) == len(b) and not (a and isinstance(a[0], str)):
        for i, (p, q) in enumerate(zip(a, b)):
            if p != q:
                return first_diff(p, q, "%s[%d]" % (path, i))
    return "%s %s vs %s" % (path, short(a), short(b))


def short(v):
    if isinstance(v, tuple) and len(v) == 4 and v[0] == "nd" and \
            isinstance(v[3], bytes) and len(v[3]) != 20:
        return "%s %s" % (v[1], np.frombuffer(v[3], dtype=v[2])[:6].tolist())
    if isinstance(v, tuple) and len(v) == 2 and v[0] == "f":
        return repr(float.fromhex(v[1]))
    return str(v)[:160]
