"""C03: unconditioned weights follow the documented prior law."""
import random as pyrandom

import numpy as np

from .. import refs
from .. import weights as W
from ..core import Arena, SimBudget, INJECTED, digest
from ..runner import Violation

ID = "C03"
COUNT = {"quick": 320, "thorough": 4000}
REPS = {"quick": 1500, "thorough": 6000}
RULE = ("a run simulates one model specification for 1500 (thorough 6000) "
        "replicates; every replicate puts the model through a random history "
        "of draws, fits, extensions and label draws (some interrupted or "
        "failing), resets it, draws in a randomly chosen way of splitting the "
        "growth, and the first five (or thirteen) weights and twelve labels are compared "
        "with an independent reference sampler; non-trivial when all "
        "replicates produced weights; distinct by (specification, histories)")
REAL = ["pyrichlet.weight_models (all ten)", "numpy.random.Generator", "scipy",
        "numpy"]
STUB = []
ASSUMPTIONS = ["statistical comparison: two-sample KS and proportion tests at "
               "significance 1e-10, z >= 6.8; departures smaller than about "
               "0.05 in distribution function are not resolved"]
M = 5
Z = 6.8


def gen(r, i, tier):
    spec = W.gen_spec(r, [W.ALL[i % len(W.ALL)]])
    if r.random() < .12:
        W.widen(r, spec, .15)
    return dict(spec=spec,
                reps=REPS[tier],
                fresh=r.choice([True, False, False]),
                history=r.choice([0, 1, 2, 4]),
                faults=r.choice([0, 0, .3]), m=r.choice([M, 13]),
                way=r.choice([None, None, 0, 0, 1, 2, 3, 4]))


def grow_plans(r, spec, M, way=None):
    """ways of obtaining at least M weights"""
    k = r.randrange(5)
    if way is not None:
        k = way
    if k == 0:
        return [["random", M]]
    if k == 1:
        return [["random", 1], ["complete", 2], ["complete", M]]
    if k == 2:
        return [["random", 2], ["tail", r.choice([.5, .8])], ["complete", M]]
    if k == 3:
        return [["random", 1], ["loglik", [0, 2]], ["complete", M]]
    return [["random", r.choice([1, 3])], ["assign", 2], ["complete", M],
            ["complete", M + 2]]


def play(w, ops, r, fault_p, out):
    for op in ops:
        f = {}
        if fault_p and r.random() < fault_p:
            if r.random() < .5:
                f = {"at_call": {r.randrange(1, 7): "interrupt"}}
            else:
                f = {"at_call": {r.randrange(1, 7): "memory"}}
        try:
            if f or op[0] == "tail":
                a = Arena(budget=20000, **f)
                try:
                    with a:
                        W.apply(w, op)
                finally:
                    out.steps += a.lines
                    for x in a.fired:
                        out.stats["fault:%s@%s" % (x[-1], x[0])] += 1
            else:
                W.apply(w, op)
        except (Exception, SimBudget) + INJECTED:
            pass            # the history may fail; only what follows counts


def hist_ops(r, spec, n):
    ops, fitted = [], False
    for _ in range(n):
        op = W.gen_op(r, spec, fitted)
        if op[0] == "tail" and op[1] > .9:
            op[1] = .9
        if op[0] == "badtail" or (op[0] == "loglik" and op[1] is None):
            continue
        if op[0] == "random" and op[1] is None and not fitted:
            continue
        if op[0] == "fit":
            fitted = True
        if op[0] == "reset":
            fitted = False
        if op[0] == "assign":
            ops.append(["complete", 1])
        ops.append(op)
    return ops


def compare_sticks(x, y, ctx):
    """x observed (n, M) sticks, y reference"""
    n = 0
    ties = lambda v, a, b: (np.abs(v[:, a] - v[:, b]) < 1e-7) & (v[:, a] > 0)
    m = x.shape[1]
    for j in range(m):
        D, crit = refs.ks2(x[:, j], y[:, j])
        n += 1
        if D > crit:
            raise Violation("law", "%s: stick %d: KS distance %.4f from the "
                            "reference (critical %.4f), mean %.4f vs %.4f"
                            % (ctx, j + 1, D, crit, x[:, j].mean(),
                               y[:, j].mean()))
    for a, b in ((0, 1), (1, 2), (0, 2), (2, 4), (3, 4), (5, 6), (7, 9),
                 (0, 11), (11, 12)):
        if b >= m:
            continue
        D, crit = refs.ks2(x[:, a] - x[:, b], y[:, a] - y[:, b])
        n += 1
        if D > crit:
            raise Violation("dependence", "%s: sticks %d and %d: KS distance "
                            "%.4f of the difference (critical %.4f)"
                            % (ctx, a + 1, b + 1, D, crit))
        z = refs.prop2(ties(x, a, b).sum(), len(x), ties(y, a, b).sum(),
                       len(y))
        n += 1
        if z > Z:
            raise Violation("ties", "%s: sticks %d and %d coincide with "
                            "frequency %.4f, reference %.4f"
                            % (ctx, a + 1, b + 1, ties(x, a, b).mean(),
                               ties(y, a, b).mean()))
    return n


def compare_weights(x, y, ctx):
    n = 0
    for j in range(x.shape[1]):
        D, crit = refs.ks2(x[:, j], y[:, j])
        n += 1
        if D > crit:
            raise Violation("law", "%s: weight %d: KS distance %.4f from the "
                            "reference (critical %.4f), mean %.4f vs %.4f"
                            % (ctx, j + 1, D, crit, x[:, j].mean(),
                               y[:, j].mean()))
    if x.shape[1] > 1:
        D, crit = refs.ks2(x[:, 0] - x[:, 1], y[:, 0] - y[:, 1])
        n += 1
        if D > crit:
            raise Violation("dependence", "%s: weights 1 and 2: KS distance "
                            "%.4f of the difference" % (ctx, D))
    return n


def serial(x, ctx):
    """successive draws of one model are independent"""
    v = x[:, 0]
    if np.ptp(v) < 1e-9 or len(v) < 500:
        return 0
    u, i, c = np.unique(np.round(v, 9), return_inverse=True,
                        return_counts=True)
    r = (np.cumsum(c) - (c - 1) / 2)[i]         # ranks, ties averaged
    r = r - r.mean()
    if r.std() < .05 * len(v):
        return 0
    z = abs(np.mean(r[1:] * r[:-1])) / r.var() * np.sqrt(len(v))
    if z > Z:
        raise Violation("serial", "%s: successive draws correlated, z=%.1f"
                        % (ctx, z))
    return 1


def run(plan, out):
    spec = plan["spec"]
    r = pyrandom.Random(plan["seed"])
    rng = np.random.Generator(np.random.PCG64(plan["seed"]))
    g = np.random.Generator(np.random.PCG64(plan["seed"] + 1))
    finite = W.is_finite(spec)
    w = W.build(spec, rng)
    rows = []
    m = plan.get("m", M)
    lab_n = np.zeros(M + 1)
    lab_e = np.zeros(M + 1)
    lab_v = np.zeros(M + 1)
    pair_n = pair_e = pair_v = 0.0
    ctx = "%r" % (spec,)
    for k in range(plan["reps"]):
        if plan["fresh"]:
            w = W.build(spec, rng)
        h = hist_ops(r, spec, plan["history"])
        play(w, h, r, plan["faults"], out)
        w.reset()
        for op in grow_plans(r, spec, m, plan.get("way")):
            try:
                with Arena(budget=20000 if op[0] == "tail" else None):
                    W.apply(w, op)
            except SimBudget:
                pass            # slow cover of a nearly flat structure
            except IndexError:
                if not finite:  # label outside a finite structure
                    raise
        x = np.array(w.get_weights(), dtype=float)
        row = x[:m] if not finite else x
        if not finite and len(row) < m:
            raise Violation("short", "%s: %d weights" % (ctx, len(row)))
        rows.append(row)
        if k % 3 == 0:
            nw = x / x.sum()
            z = np.asarray(w.random_assignment(12))
            e = np.concatenate([nw[:M], np.zeros(max(0, M - len(nw)))])
            e = np.append(e, max(0.0, 1 - e.sum()))
            c = np.bincount(np.minimum(z, M), minlength=M + 1)
            lab_n += c
            lab_e += 12 * e
            lab_v += 12 * e * (1 - e)
            q = float(np.sum(nw ** 2))
            s = np.sum(z[0::2] == z[1::2])
            pair_n += s
            pair_e += 6 * q
            pair_v += 6 * q * (1 - q)
            one = int(w.random_assignment())
            lab_n[min(one, M)] += 1
            lab_e += e
            lab_v += e * (1 - e)
    lens = {len(q) for q in rows}
    if len(lens) != 1:
        raise Violation("size", "%s: structures of sizes %r" % (ctx, lens))
    x = np.array(rows)
    tests = 0
    if finite:
        y = refs.finite_weights(spec, None, 12000, g)
        if y.shape[1] != x.shape[1]:
            raise Violation("size", "%s: %d weights, expected %d"
                            % (ctx, x.shape[1], y.shape[1]))
        tests += compare_weights(x[:, :6], y[:, :6], ctx)
    else:
        y = refs.prior_sticks(spec, 12000, m, g)
        yw = refs.weights_of(y)
        tests += compare_weights(x, yw, ctx)
        tests += compare_sticks(refs.sticks_of(x), refs.sticks_of(yw), ctx)
    tests += serial(x, ctx)
    for j in range(M + 1):
        d = abs(lab_n[j] - lab_e[j])
        if lab_v[j] < 1e-9:
            if d > 0.5:
                raise Violation("labels", "%s: label %d drawn %d times, its "
                                "weight is %g" % (ctx, j, lab_n[j], lab_e[j]))
        elif lab_v[j] > 25 and d / np.sqrt(lab_v[j]) > Z:
            raise Violation("labels", "%s: label %d drawn %d times, weights "
                            "predict %.1f +- %.1f" % (ctx, j, lab_n[j],
                                                      lab_e[j],
                                                      np.sqrt(lab_v[j])))
        tests += 1
    if pair_v > 25 and abs(pair_n - pair_e) / np.sqrt(pair_v) > Z:
        raise Violation("label-pairs", "%s: %d equal label pairs, weights "
                        "predict %.1f" % (ctx, pair_n, pair_e))
    out.log.append(x)
    out.stats["probe:statistical tests"] += tests + 1
    out.stats["probe:replicates"] += plan["reps"]
    out.stats["model:" + spec["model"]] += 1
    out.nontrivial = True
    out.sig = digest([spec, plan["history"], plan["faults"], plan["fresh"]])
    if plan["index"] < 3:
        out.sample = dict(spec=spec, history=plan["history"],
                          mean=np.round(x.mean(0), 3).tolist())
