"""C06: variational weights agree with the sampled posterior."""
import numpy as np

from .. import weights as W
from ..core import Arena, SimBudget, INJECTED, digest, freeze, sim_rng
from ..runner import Violation
from .c05 import var_d

ID = "C06"
COUNT = {"quick": 1500, "thorough": 12000}
REPS = {"quick": 2500, "thorough": 12000}
RULE = ("a run gives one model with variational support a random past, fits "
        "assignment probabilities (half of the runs all zero or one), lets "
        "more sampling operations happen, and compares the reported means and "
        "mean logarithms with averages over posterior draws, with a newly "
        "built model, and with the sum rules; non-trivial when values were "
        "compared; distinct by (specification, past, probabilities)")
REAL = ["pyrichlet.weight_models (the six with variational support)", "numpy",
        "scipy"]
STUB = ["bit generator (simulator-owned words)"]
ASSUMPTIONS = ["averages over 2500 (thorough 12000) posterior draws, alarm at "
               "z >= 7.5; the comparison relies on C04 for the draws"]
Z = 7.5


def one_hot(r, spec):
    k = spec["kw"]["n"] if spec["model"] in W.FINITE else \
        r.choice([1, 2, 3, 5])
    n = r.choice([0, 1, 3, 8, 20, 20, 300])
    if spec["model"] == "FrequencyWeighting":
        n = max(n, 1)
    top = r.randrange(1, k + 1)
    d = [min(r.randrange(top), r.randrange(top)) for _ in range(n)]
    return [[1.0 if d[i] == j else 0.0 for i in range(n)] for j in range(k)], d


def gen(r, i, tier):
    spec = W.gen_spec(r, [W.VARIATIONAL[i % len(W.VARIATIONAL)]])
    if spec["model"] in W.FINITE and spec["kw"]["n"] > 9:
        spec["kw"]["n"] = 4
    past = W.gen_ops(r, spec, r.choice([0, 1, 3, 5]))
    for _ in range(r.choice([0, 1, 2])):
        past.insert(r.randrange(len(past) + 1), ["varfit", var_d(r, spec)])
    hard = r.random() < .5
    v, d = one_hot(r, spec) if hard else (var_d(r, spec), None)
    # nothing may be fitted afterwards, only drawn and extended
    later = [o for o in W.gen_ops(r, spec, r.choice([0, 2, 4]))
             if o[0] not in ("badtail",)]
    return dict(spec=spec, past=past, vd=v, d=d, later=later, hard=hard,
                faults=W.gen_faults(r, len(past)) if past and r.random() < .5
                else [], reps=REPS[tier],
                stumble=W.gen_faults(r, 1)[0][1:] if r.random() < .2 else None)


def report(w, k):
    a = Arena(budget=20000)
    with a:
        m = [float(w.variational_mean_w_j(j)) for j in range(k + 2)]
        lg = [float(w.variational_mean_log_w_j(j)) for j in range(k)]
    return m, lg


def run(plan, out):
    spec, vd = plan["spec"], np.array(plan["vd"], dtype=float)
    k = len(plan["vd"])
    vd = vd.reshape(k, -1)
    u = W.Runner(spec, plan["seed"], {}, plan["faults"], 60000)
    for i, op in enumerate(plan["past"]):
        if u.step(i, op)[0] == "budget":
            break
    w = u.w
    if plan["stumble"]:
        kind, where, frac = plan["stumble"]
        a = Arena(budget=60000, **{"at_line" if where == "line" else
                                   "at_call": {1 + int(frac * 8): kind}})
        try:
            with a:
                w.fit_variational(vd[:, ::-1] * 0.5)
        except (Exception, SimBudget) + INJECTED:
            pass
        for x in a.fired:
            out.stats["fault:%s@%s" % (x[-1], x[0])] += 1
    ctx = "%s after %d operations, assignments %s" % (
        spec, len(plan["past"]), plan["d"] if plan["hard"] else
        np.round(vd, 3).tolist())
    w.fit_variational(vd.copy())
    m, lg = report(w, k)
    g, b = sim_rng(3)
    fresh = W.build(spec, g)
    fresh.fit_variational(vd.copy())
    f = report(fresh, k)
    if freeze((m, lg)) != freeze(f):
        raise Violation("history", "%s: reports %s, a new model reports %s"
                        % (ctx, (m, lg), f))
    for op in plan["later"]:
        try:
            with Arena(budget=20000):
                W.apply(w, op)
        except (Exception, SimBudget):
            pass
    if freeze(report(w, k)) != freeze((m, lg)):
        raise Violation("later", "%s: reports %s, after %s it reports %s"
                        % (ctx, (m, lg), plan["later"], report(w, k)))
    out.stats["probe:twin comparisons"] += 2
    a = np.array(m)
    if not np.all(np.isfinite(a)) or a.min() < 0 or a[:k].sum() > 1 + 1e-9:
        raise Violation("range", "%s: mean weights %r" % (ctx, m))
    if np.any(a[k:] != 0):
        raise Violation("range", "%s: %d groups, mean weights beyond them %r"
                        % (ctx, k, m[k:]))
    if spec["model"] in W.FINITE + ["DirichletProcess"] and \
            abs(a[:k].sum() - 1) > 1e-9:
        raise Violation("sum", "%s: mean weights %r sum to %r"
                        % (ctx, m[:k], a[:k].sum()))
    if np.any(np.isnan(lg)) or np.any(np.array(lg) > 1e-12):
        raise Violation("range", "%s: mean log-weights %r" % (ctx, lg))
    # Jensen: E[log w] <= log E[w]
    with np.errstate(divide="ignore"):
        if np.any(np.array(lg) > np.log(a[:k]) + 1e-9):
            raise Violation("jensen", "%s: mean log-weights %r above the "
                            "logarithms of the means %r" % (ctx, lg, m[:k]))
    if plan["hard"]:
        compare(plan, spec, k, a, np.array(lg), ctx, out)
    out.nontrivial = True
    out.log.append([m, lg])
    for x in u.fired:
        out.stats["fault:%s@%s" % (x[-1], x[0])] += 1
    out.steps = u.lines
    out.stats["model:" + spec["model"]] += 1
    out.sig = digest([spec, plan["past"], plan["vd"], plan["faults"]])
    if plan["index"] < 3:
        out.sample = dict(spec=spec, vd=np.round(vd, 3).tolist(), mean=m,
                          mean_log=lg)


def compare(plan, spec, k, m, lg, ctx, out):
    rng = np.random.Generator(np.random.PCG64(plan["seed"]))
    w = W.build(spec, rng)
    d = plan["d"]
    if d:
        w.fit(list(d))
    rows = []
    for i in range(plan["reps"]):
        if d and i % 2:
            w.random()
            x = w.complete(k)
        else:
            x = w.random(k)
        x = np.array(x[:k], dtype=float)
        # finite structures may end at the last observed group
        rows.append(np.concatenate([x, np.zeros(k - len(x))]))
    x = np.array(rows)
    closing = [] if spec["model"] in W.FINITE else [k - 1]
    n = len(x)
    for j in range(k):
        if j in closing:
            continue
        for name, v, e in (("mean weight", x[:, j], m[j]),
                           ("mean log-weight", None, lg[j])):
            if v is None:
                if x[:, j].min() <= 0:
                    if np.isfinite(e) and x[:, j].max() <= 0:
                        raise Violation("posterior", "%s: group %d: mean "
                                        "log-weight %g, drawn weights are 0"
                                        % (ctx, j, e))
                    continue
                v = np.log(x[:, j])
            s = max(v.std(), 0) / np.sqrt(n)
            if abs(v.mean() - e) > Z * s + 1e-9:
                raise Violation("posterior", "%s: group %d: %s reported %.5f, "
                                "average over %d posterior draws %.5f +- %.5f"
                                % (ctx, j, name, e, n, v.mean(), s))
            out.stats["probe:posterior comparisons"] += 1
