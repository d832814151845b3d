"""C25: modal weights and the MAP density sit at the mode of the fitted law."""
import numpy as np
from scipy.stats import multivariate_normal

from .. import mix
from .. import oracle as O
from .. import weights as W
from ..core import Arena, SimBudget, INJECTED, digest, freeze, sim_rng
from ..runner import Violation
from .c05 import var_d
from .c06 import one_hot
from . import c19

ID = "C25"
COUNT = {"quick": 2000, "thorough": 40000}
RULE = ("half of the runs give a weight model a random past, fit assignment "
        "probabilities, perform more sampling operations and compare the "
        "reported modal weights with the modes of the Beta laws that the "
        "counts imply, with those of a new model and with the range rules; the "
        "others drive a mixture through variational fits (some failing or "
        "interrupted), Gibbs fits and weight-model calls and compare the MAP "
        "density, its parts and its marginals with the normals at the mode of "
        "the conjugate update weighted by those modes; non-trivial when values "
        "were compared; distinct by (specification, operations, faults)")
REAL = c19.REAL
STUB = ["bit generator (simulator-owned words)"]
ASSUMPTIONS = ["a law without a unique mode may be refused with ValueError",
               "comparisons to 1e-6 relative"]


def gen(r, i, tier):
    if i % 2:
        p = c19.gen(r, i // 2, tier)
        p["mixture"] = True
        dim = len(p["data"][0][0])
        p["asks"] = [mix.gen_query(r, ["var_map_density"], dim)[1:]
                     for _ in range(4)]
        return p
    spec = W.gen_spec(r, [W.VARIATIONAL[i // 2 % len(W.VARIATIONAL)]])
    if r.random() < .1:
        W.widen(r, spec)
    if spec["model"] in W.FINITE and spec["kw"]["n"] > 9:
        spec["kw"]["n"] = 4
    past = W.gen_ops(r, spec, r.choice([0, 1, 3, 5]))
    for _ in range(r.choice([0, 1, 2])):
        past.insert(r.randrange(len(past) + 1), ["varfit", var_d(r, spec)])
    v = one_hot(r, spec)[0] if r.random() < .5 else var_d(r, spec)
    later = [o for o in W.gen_ops(r, spec, r.choice([0, 2, 4]))
             if o[0] != "badtail"]
    return dict(spec=spec, past=past, vd=v, later=later, mixture=False,
                faults=W.gen_faults(r, len(past)) if past and r.random() < .5
                else [],
                stumble=W.gen_faults(r, 1)[0][1:] if r.random() < .2 else None)


def beta_mode(a, b):
    """mode of Beta(a, b), nan where it is not unique or too close to call"""
    if a < 1 + 1e-6 and b < 1 + 1e-6:
        return np.nan
    if a <= 1:
        return 0.0
    if b <= 1:
        return 1.0
    return (a - 1) / (a + b - 2)


def modes(spec, c, n_labels=None):
    """modal weight of every group from the expected counts of the groups"""
    c = np.asarray(c, float)
    k, m, kw = len(c), spec["model"], spec["kw"]
    after = np.concatenate((np.cumsum(c[::-1])[-2::-1], [0.0]))
    if m == "EqualWeighting":
        return np.full(k, 1 / k)
    if m == "FrequencyWeighting":
        return c / c.sum() if c.sum() > 0 else np.full(k, 1 / k)
    if m == "DirichletDistribution":
        a = c + np.asarray(kw["alpha"], float)
        return np.array([beta_mode(x, a.sum() - x) for x in a])
    if m == "GeometricProcess":
        p = beta_mode(kw["a"] + c.sum(), kw["b"] + (c * np.arange(k)).sum())
        return p * (1 - p) ** np.arange(k)
    if m == "DirichletProcess":
        v = [beta_mode(1 + x, kw["alpha"] + y) for x, y in zip(c, after)]
        v[-1] = 1.0
    else:
        d = kw["pyd"]
        v = [beta_mode(1 - d + x, kw["alpha"] + (j + 1) * d + y)
             for j, (x, y) in enumerate(zip(c, after))]
    return stick(np.array(v))


def stick(v):
    """products of sticks; a stick at one closes what comes after it even if
    that has no unique mode"""
    res, left = [], 1.0
    for x in v:
        res.append(left * x)
        left = left * (1 - x)
    return np.array(res)


def reported(w, k):
    """modal weights or None where the model refuses"""
    res = []
    with Arena(budget=20000):
        for j in range(k + 3):
            try:
                res.append(float(w.variational_mode_w_j(j)))
            except ValueError:
                res.append(None)
    return res


def compare(ctx, got, ref, k, out):
    for j, x in enumerate(got):
        e = ref[j] if j < k else 0.0
        if x is None:
            if j < k and np.isfinite(e) and np.all(np.isfinite(ref)):
                raise Violation("refused", "%s: no modal weight for group %d, "
                                "all modes are defined: %s" % (ctx, j, ref))
            continue
        if not np.isfinite(e):
            if not (np.isfinite(x) and -1e-12 <= x <= 1 + 1e-9):
                raise Violation("range", "%s: modal weight %r of group %d"
                                % (ctx, x, j))
            continue
        if not abs(x - e) <= 1e-6 * abs(e) + 1e-9:
            raise Violation("mode", "%s: modal weight of group %d is %r, the "
                            "mode of its law %r" % (ctx, j, x, e))
        out.stats["probe:modes compared"] += 1
    v = [x for x in got if x is not None]
    if sum(v) > 1 + 1e-9:
        raise Violation("sum", "%s: modal weights %s sum to %r"
                        % (ctx, got, sum(v)))


def run_weights(plan, out):
    spec = plan["spec"]
    k = len(plan["vd"])
    vd = np.array(plan["vd"], dtype=float).reshape(k, -1)
    u = W.Runner(spec, plan["seed"], {}, plan["faults"], 60000)
    for i, op in enumerate(plan["past"]):
        if u.step(i, op)[0] == "budget":
            break
    w = u.w
    if plan["stumble"]:
        kind, where, frac = plan["stumble"]
        a = Arena(budget=60000, **{"at_line" if where == "line" else
                                   "at_call": {1 + int(frac * 8): kind}})
        try:
            with a:
                w.fit_variational(vd[:, ::-1] * 0.5)
        except (Exception, SimBudget) + INJECTED:
            pass
        for x in a.fired:
            out.stats["fault:%s@%s" % (x[-1], x[0])] += 1
    ctx = "%s after %d operations, counts %s" % (
        spec, len(plan["past"]), np.round(vd.sum(axis=1), 4).tolist())
    w.fit_variational(vd.copy())
    got = reported(w, k)
    compare(ctx, got, modes(spec, vd.sum(axis=1)), k, out)
    g, b = sim_rng(3)
    fresh = W.build(spec, g)
    fresh.fit_variational(vd.copy())
    if freeze(reported(fresh, k)) != freeze(got):
        raise Violation("history", "%s: modal weights %s, of a new model %s"
                        % (ctx, got, reported(fresh, k)))
    for op in plan["later"]:
        try:
            with Arena(budget=20000):
                W.apply(w, op)
        except (Exception, SimBudget):
            pass
    if freeze(reported(w, k)) != freeze(got):
        raise Violation("later", "%s: modal weights %s, after %s %s"
                        % (ctx, got, plan["later"], reported(w, k)))
    out.log.append(freeze(got))
    for x in u.fired:
        out.stats["fault:%s@%s" % (x[-1], x[0])] += 1
    out.steps = u.lines
    out.nontrivial = True
    out.sig = digest([spec, plan["past"], plan["vd"], plan["faults"]])


def wspec_of(plan):
    from .c08 import wspec
    return wspec(plan["spec"])


def judge(s, plan, y, ctx, out):
    m, d = s.m, y.shape[1]
    P = np.asarray(m.var_d)
    if not np.all(np.isfinite(P)):
        return False
    K = len(P)
    pr = c19.priors(plan["spec"], y)
    post = [c19.conjugate(y, P[j], *pr) for j in range(K)]
    ref = modes(wspec_of(plan), P.sum(axis=1))
    if not np.all(np.isfinite(ref)):
        out.stats["probe:no unique mode"] += 1
        return True
    compare(ctx, reported(m.weight_model, K), ref, K, out)
    asks = [[n, p, kw] for n, p, kw in plan["asks"]]
    asks.append(["var_map_density", plan["pts"], {}])
    asks.append(["var_map_density", None, {}])
    for q, p, kw in asks:
        if kw.get("component") is not None:
            kw = dict(kw, component=kw["component"] % K)
        yy = O.points(p, y, kw.get("dim"))
        js = range(K) if kw.get("component") is None else [kw["component"]]
        ix = np.arange(d) if kw.get("dim") is None else np.atleast_1d(
            kw["dim"])
        e = np.zeros(len(yy))
        for j in js:
            mu, l, psi, nu = post[j]
            # the joint mode of mean and precision
            cov = psi / (nu - d)
            e = e + ref[j] * np.atleast_1d(multivariate_normal.pdf(
                yy, mu[ix], cov[np.ix_(ix, ix)], allow_singular=True))
        v = np.asarray(c19.ask(s, ctx, q, p, **kw))
        if v.shape != e.shape or not O.close(v, e, 1e-5, 1e-12):
            raise Violation("density", "%s: %s(%s, %s) is %s, the mixture at "
                            "the mode has %s" % (ctx, q, p, kw, v[:4], e[:4]))
        out.stats["probe:densities compared"] += 1
    return True


def run(plan, out):
    if plan["mixture"]:
        c19.drive(plan, out, judge)
    else:
        run_weights(plan, out)
        out.stats["model:" + plan["spec"]["model"]] += 1
    if plan["index"] < 3:
        out.sample = {k: plan[k] for k in ("spec", "faults")}
