"""C04: weights drawn after conditioning follow the posterior."""
import copy
import random as pyrandom

import numpy as np
from scipy.stats import beta as beta_law, chi2, norm

from .. import refs
from .. import weights as W
from ..core import Arena, SimBudget, digest
from ..runner import Violation
from . import c03

ID = "C04"
COUNT = {"quick": 260, "thorough": 4000}
REPS = {"quick": 1500, "thorough": 6000}
RULE = ("a run takes one model specification and either (exact) one label "
        "vector, and compares replicated conditional draws, reached through "
        "random histories with faults and grown in random ways, with the "
        "closed-form posterior, or (chain) starts replicates from the exact "
        "joint prior of weights and labels, alternates 1-4 conditional draws "
        "of weights and labels, and compares the joint law with the prior, or "
        "(long) repeats draws given fixed labels until the start is forgotten "
        "and compares with the importance-weighted prior, or (support, pstep) "
        "compares beta-in-beta's sticks with their law given p, and p with "
        "the law its update names; "
        "distinct by (specification, labels, mode)")
REAL = c03.REAL
STUB = []
ASSUMPTIONS = c03.ASSUMPTIONS + [
    "beta-in-beta with 0 < x < 1 and an approximate update of p (static, "
    "independent, geometric, max-likelihood) has no exact joint posterior to "
    "test; the sticks are compared with their posterior given the reported p, "
    "and p with the law its update names",
    "long chains: 15 draws (20 + 8 n for beta-binomial) forget the start"]
M = 5
Z = c03.Z


def kind_of(spec):
    k, kw = spec["model"], spec["kw"]
    if k == "BetaInBeta" and kw["x"] not in (0, 1):
        return "chain-slow" if kw["p_method"] == "inverse-sampling" \
            else "support"
    if k == "BetaInDirichlet":
        return "exact" if kw["a"] == 0 else "chain"
    if k == "BetaBernoulli":
        return "exact" if kw["p"] in (0, 1) else "chain"
    if k == "BetaBinomial":
        return "exact" if kw["n"] == 0 else "chain"
    return "exact"


def gen(r, i, tier):
    spec = W.gen_spec(r, [W.ALL[i % len(W.ALL)]])
    if spec["model"] in ("BetaInDirichlet", "BetaBernoulli", "BetaBinomial") \
            and r.random() < .5:
        while kind_of(spec) != "chain":
            spec = W.gen_spec(r, [spec["model"]])
    kind = kind_of(spec)
    plan = dict(spec=spec, mode=kind, reps=REPS[tier],
                labels=W.gen_labels(r, spec, 30),
                fresh=r.choice([True, False, False]),
                history=r.choice([0, 1, 3]), faults=r.choice([0, 0, .3]),
                m=r.choice([M, M, 9]),
                way=r.choice([None, None, None, 0, 1, 2, 3, 4, 5, 6]))
    if kind == "exact" and r.random() < .15:
        # groups of hundreds of observations
        top = W.max_label(spec) or r.choice([2, 4, 8])
        n = r.choice([150, 300, 700])
        plan["labels"] = [min(r.randrange(top), r.randrange(top))
                          for _ in range(n)]
    if kind == "exact" and r.random() < .1:
        wide = W.widen(r, copy.deepcopy(spec), .15)
        if kind_of(wide) == "exact":
            plan["spec"] = wide
            return plan
    if kind in ("exact", "support") and r.random() < .25 \
            and not W.is_finite(spec):
        plan["mode"] = "chain" if kind == "exact" else "support"
    if spec["model"] == "BetaInBeta" and r.random() < .3:
        return pstep_plan(r, plan, tier)
    if plan["mode"] in ("chain", "chain-slow") and r.random() < (
            .5 if plan["mode"] == "chain" else .3):
        return long_plan(r, plan, tier)
    if plan["mode"] == "chain":
        plan["n"] = r.choice([2, 4, 8, 15])
        plan["sweeps"] = r.choice([1, 2, 4])
        plan["reps"] = 2 * REPS[tier] // 3
        if spec["model"] == "BetaInDirichlet" and tier == "quick":
            spec["kw"]["alpha"] = min(spec["kw"]["alpha"], 2.5)
        if spec["model"] == "PitmanYorProcess":
            spec["kw"] = dict(pyd=r.choice([0.1, 0.25]),
                              alpha=r.choice([0.5, 1]))
    if plan["mode"] == "chain-slow":
        plan["n"], plan["sweeps"] = r.choice([3, 6]), 2
        plan["reps"] = 60 if tier == "quick" else 400
    if plan["mode"] == "support":
        plan["reps"] = REPS[tier] // 2
        plan["spec"]["kw"]["p_method"] = r.choice(
            ["geometric", "independent", "static"] * 2 + ["max-likelihood"])
        if plan["spec"]["kw"]["p_method"] == "max-likelihood":
            plan["reps"] = 150
    return plan


def long_plan(r, plan, tier):
    """informative labels and chains long enough to forget their start"""
    spec = plan["spec"]
    k = r.choice([2, 3, 4, 6])
    d = []
    for j in range(k):
        d += [j] * r.choice([0, 1, 3, 6, 9])
    plan["labels"] = d or [1, 0]
    r.shuffle(plan["labels"])
    if spec["model"] == "BetaInBeta":
        return pstep_plan(r, plan, tier)
    plan["mode"] = "long"
    plan["m"] = k + 1
    plan["reps"] = 500 if tier == "quick" else 1500
    plan["sweeps"] = 15
    if spec["model"] == "BetaBinomial":
        spec["kw"]["n"] = r.choice([1, 5, 12])
        plan["sweeps"] = 20 + 8 * spec["kw"]["n"]
    elif spec["model"] == "BetaInDirichlet" and tier == "quick":
        spec["kw"]["alpha"] = min(spec["kw"]["alpha"], 2.5)
    return plan


def pstep_plan(r, plan, tier):
    """one update of beta-in-beta's p given the sticks in use"""
    plan["mode"] = "pstep"
    kw = plan["spec"]["kw"]
    kw["x"] = r.choice([0.6, 0.9])
    kw["p_method"] = r.choice(["inverse-sampling", "inverse-sampling",
                               "max-likelihood"])
    plan["sticks"] = r.choice([1, 3, 6])
    plan["reps"] = (70 if kw["p_method"] == "inverse-sampling" else 400) * (
        1 if tier == "quick" else 4)
    return plan


GRID = (np.arange(4000) + .5) / 4000


def log_density_p(kw, v, p):
    """log density of p given sticks, up to a constant"""
    c = kw["x"] / (1 - kw["x"])
    res = beta_law.logpdf(p, kw["a"], kw["b"])
    for s in v:
        res = res + beta_law.logpdf(s, 1 + c * p, kw["alpha"] + c * (1 - p))
    return res


def run_pstep(plan, out):
    """the update of p by inverse sampling draws it from its law given the
    sticks in use; by maximum likelihood it finds the top of that law"""
    spec = plan["spec"]
    kw = spec["kw"]
    r = pyrandom.Random(plan["seed"])
    rng = np.random.Generator(np.random.PCG64(plan["seed"]))
    ctx = "%r, %d sticks" % (spec, plan["sticks"])
    us, far, moved = [], 0, 0
    for _ in range(plan["reps"]):
        w = W.build(spec, rng)
        w.random(plan["sticks"])
        if r.random() < .5:
            # sticks of a posterior whose labels favour other values of p
            w.fit([r.choice([0, 1, 3])] * r.choice([3, 10]))
            w.random()
        x = np.array(w.get_weights(), float)
        v = refs.sticks_of(x[None])[0]
        if np.any(v <= 1e-8) or np.any(v >= 1 - 1e-8):
            continue
        p0 = w.p
        w.fit(plan["labels"])
        w.random()
        ld = log_density_p(kw, v, GRID)
        top = ld.max()
        if kw["p_method"] == "inverse-sampling":
            q = np.exp(ld - top)
            us.append(np.interp(w.p, GRID + .5 / 4000, np.cumsum(q) / q.sum()))
        elif w.p != p0:
            moved += 1
            far += log_density_p(kw, v, min(max(w.p, 1e-12), 1 - 1e-12)) \
                < top - .05
    n = 0
    if len(us) > 30:
        D, crit = refs.ks2(np.array(us), (np.arange(20000) + .5) / 20000)
        n = 1
        if D > crit:
            raise Violation("p", "%s: p given the sticks: KS distance %.4f "
                            "from its law (critical %.4f)" % (ctx, D, crit))
        # the spread, which the distance resolves poorly
        z2 = float(np.sum(norm.ppf(np.clip(us, 1e-6, 1 - 1e-6)) ** 2))
        n += 1
        if chi2.sf(z2, len(us)) < 1e-10 or chi2.cdf(z2, len(us)) < 1e-10:
            raise Violation("p", "%s: p given the sticks: mean square of its "
                            "normal scores is %.2f instead of 1" % (
                                ctx, z2 / len(us)))
    if far > .2 * moved + 2:
        raise Violation("p", "%s: %d of %d updates of p to the most likely "
                        "value are far from it" % (ctx, far, moved))
    out.log.append(np.array(us + [far, moved], float))
    return n + moved


def weighted_prior(spec, d, m, g, N=400_000):
    """posterior sticks by weighing draws of the prior; labels are dropped from
    the end until enough draws count"""
    y = refs.prior_sticks(spec, N, max(m, max(d) + 1), g)
    y = np.clip(y, 1e-300, 1 - 1e-16)
    ly, l1 = np.log(y), np.log1p(-y)
    while True:
        a, b = refs.counts(np.asarray(d), y.shape[1])
        lw = ly @ a + l1 @ b
        p = np.exp(lw - lw.max())
        ess = p.sum() ** 2 / (p ** 2).sum()
        if ess >= 8000 or len(d) < 3:
            break
        d = d[:-max(1, len(d) // 6)]
    k = int(min(ess / 2, 12000))
    return d, y[g.choice(N, k, p=p / p.sum())][:, :m]


def run_long(plan, out):
    """replicated long runs of conditional draws given fixed labels"""
    spec, m = plan["spec"], plan["m"]
    r = pyrandom.Random(plan["seed"])
    rng = np.random.Generator(np.random.PCG64(plan["seed"]))
    g = np.random.Generator(np.random.PCG64(plan["seed"] + 1))
    d, ref = weighted_prior(spec, plan["labels"], m, g)
    ctx = "%r given %s, %d conditional draws" % (spec, d, plan["sweeps"])
    w = W.build(spec, rng)
    rows = []
    for _ in range(plan["reps"]):
        if plan["fresh"]:
            w = W.build(spec, rng)
        else:
            w.reset()
            w.random(r.choice([1, m]))
        for k in range(plan["sweeps"]):
            if k % 5 == 0:
                w.fit(list(d))
            w.random()
        w.complete(m)
        rows.append(np.array(w.get_weights()[:m], float))
    x = np.array(rows)
    yw = refs.weights_of(ref)
    n = c03.compare_weights(x, yw, ctx)
    n += c03.compare_sticks(refs.sticks_of(x), refs.sticks_of(yw), ctx)
    out.log.append(x)
    return n


def starts(r, spec, fresh, M, way=None):
    k = r.randrange(7 if fresh else 5)
    if way is not None:
        k = way if fresh else way % 5
    if k == 0:
        return [["random", None], ["complete", M]]
    if k == 1:
        return [["random", M]]
    if k == 2:
        return [["random", 1], ["complete", 3], ["complete", M]]
    if k == 3:
        return [["random", 2], ["tail", .6], ["complete", M]]
    if k == 4:
        return [["random", None], ["loglik", None], ["complete", M]]
    if k == 5:
        return [["complete", 2], ["complete", M]]
    return [["tail", .5], ["complete", M]]


def do(w, ops, finite):
    for op in ops:
        try:
            with Arena(budget=20000 if op[0] == "tail" else None):
                W.apply(w, op)
        except SimBudget:
            pass
        except IndexError:
            if not finite:
                raise


def run_exact(plan, out):
    spec, d = plan["spec"], plan["labels"]
    r = pyrandom.Random(plan["seed"])
    rng = np.random.Generator(np.random.PCG64(plan["seed"]))
    g = np.random.Generator(np.random.PCG64(plan["seed"] + 1))
    finite = W.is_finite(spec)
    w = W.build(spec, rng)
    ctx = "%r given %s" % (spec, d if len(d) < 40 else "%d labels, counts %s"
                           % (len(d), np.bincount(d).tolist()))
    rows, ps = [], []
    m = plan.get("m", M)
    arr = np.array(d)
    for _ in range(plan["reps"]):
        fresh = plan["fresh"]
        if fresh:
            w = W.build(spec, rng)
        h = [] if fresh else c03.hist_ops(r, spec, plan["history"])
        c03.play(w, h, r, plan["faults"], out)
        p0 = getattr(w, "p", None)
        w.fit(list(d))
        way = starts(r, spec, fresh, m, plan.get("way"))
        do(w, way, finite)
        x = np.array(w.get_weights(), float)
        sized = way[0][0] == "random" and way[0][1] is not None
        if len(x) <= arr.max() and not sized:
            raise Violation("support", "%s: %d weights" % (ctx, len(x)))
        if np.any(x[arr[arr < len(x)]] <= 0) and plan["mode"] == "exact":
            raise Violation("support", "%s: observed group with weight 0: %r"
                            % (ctx, x.tolist()))
        rows.append(x if finite else x[:m])
        ps.append((p0, getattr(w, "p", None)))
    if plan["mode"] == "support":
        return given_p(plan, np.array(rows), np.array(ps, float), ctx, g)
    if len({len(q) for q in rows}) != 1:
        raise Violation("size", "%s: structures of different sizes" % ctx)
    x = np.array(rows)
    if finite:
        y = refs.finite_weights(spec, d, 12000, g)
        if y.shape[1] != x.shape[1]:
            raise Violation("size", "%s: %d weights, expected %d"
                            % (ctx, x.shape[1], y.shape[1]))
        n = c03.compare_weights(x[:, :6], y[:, :6], ctx)
    else:
        yw = refs.weights_of(refs.posterior_sticks(spec, d, 12000, m, g))
        n = c03.compare_weights(x, yw, ctx)
        n += c03.compare_sticks(refs.sticks_of(x), refs.sticks_of(yw), ctx)
    n += c03.serial(x, ctx)
    out.log.append(x)
    return n


def given_p(plan, x, ps, ctx, g):
    """beta-in-beta whose success location p is updated approximately: the
    sticks follow their posterior given the reported p, and p is what the named
    method says"""
    kw, d = plan["spec"]["kw"], plan["labels"]
    v, p = refs.sticks_of(x), ps[:, 1]
    a, b = refs.counts(np.asarray(d), x.shape[1])
    c = kw["x"] / (1 - kw["x"])
    n = 0
    unif = (np.arange(20000) + .5) / 20000
    us = []
    for j in range(x.shape[1]):
        ok = v[:, j] >= 0
        u = beta_law.cdf(v[ok, j], 1 + c * p[ok] + a[j],
                         kw["alpha"] + c * (1 - p[ok]) + b[j])
        us.append(u)
        if ok.sum() < 50:
            continue
        D, crit = refs.ks2(u, unif)
        n += 1
        if D > crit:
            raise Violation("sticks", "%s: stick %d given p: KS distance %.4f "
                            "from its posterior (critical %.4f)"
                            % (ctx, j, D, crit))
    law = None
    if kw["p_method"] == "static":
        if np.any(ps[:, 0] != p):
            raise Violation("p", "%s: p was to stay, %r became %r"
                            % (ctx, ps[:3, 0].tolist(), p[:3].tolist()))
    elif kw["p_method"] == "independent":
        law = g.beta(kw["a"], kw["b"], 20000)
    elif kw["p_method"] == "geometric":
        law = g.beta(kw["a"] + len(d), kw["b"] + sum(d), 20000)
    if law is not None:
        D, crit = refs.ks2(p, law)
        n += 1
        if D > crit:
            raise Violation("p", "%s: p: KS distance %.4f from the law its "
                            "update names (critical %.4f), mean %.3f vs %.3f"
                            % (ctx, D, crit, p.mean(), law.mean()))
    return n


def draw_labels(w, n, g):
    """labels from the (infinite) reported weights by inversion"""
    u = g.uniform(size=n)
    try:
        with Arena(budget=60000):
            w.tail(min(float(u.max()), .995))
    except SimBudget:
        pass
    x = np.asarray(w.get_weights())
    d = np.searchsorted(np.cumsum(x), u, side="left")
    return np.minimum(d, len(x) - 1)


def summary(w, d):
    w.complete(M)
    x = np.array(w.get_weights()[:M], float)
    v = refs.sticks_of(x[None])[0]
    s = np.concatenate([v, [len(np.unique(d)), float(d[0] == d[1]),
                            min(d.max(), 12), np.mean(np.minimum(d, 12))]])
    return x, s


def run_chain(plan, out):
    spec = plan["spec"]
    rng = np.random.Generator(np.random.PCG64(plan["seed"]))
    g = np.random.Generator(np.random.PCG64(plan["seed"] + 1))
    w = W.build(spec, rng)
    ctx = "%r, %d labels, %d sweeps" % (spec, plan["n"], plan["sweeps"])
    X, S, X0, S0 = [], [], [], []
    pair = []
    for k in range(plan["reps"]):
        w.reset()
        w.random(1)
        d = draw_labels(w, plan["n"], g)
        x0, s0 = summary(w, d)
        for _ in range(plan["sweeps"]):
            w.fit(d)
            w.random()
            if np.any(w.get_weights()[d] <= 0):
                raise Violation("support", "%s: observed group with weight 0"
                                % ctx)
            d = draw_labels(w, plan["n"], g)
        x, s = summary(w, d)
        X.append(x)
        S.append(s)
        X0.append(x0)
        S0.append(s0)
    X, S, S0 = np.array(X), np.array(S), np.array(S0)
    # prior reference, labels drawn the same (slightly truncated) way
    N = 12000
    y = refs.prior_sticks(spec, N, 60, g)
    yw = refs.weights_of(y)
    n = c03.compare_weights(X, yw[:, :M], ctx)
    n += c03.compare_sticks(refs.sticks_of(X), refs.sticks_of(yw[:, :M]), ctx)
    # labels: against the independent start of every replicate (exact prior)
    for c in range(S.shape[1]):
        D, crit = refs.ks2(S[:, c], S0[:, c])
        n += 1
        if D > crit:
            raise Violation("joint-law", "%s: summary %d of weights and labels:"
                            " KS distance %.4f from the prior (critical %.4f),"
                            " mean %.3f vs %.3f"
                            % (ctx, c, D, crit, S[:, c].mean(),
                               S0[:, c].mean()))
    out.log.append(X)
    return n


def run(plan, out):
    if plan["mode"] in ("chain", "chain-slow"):
        n = run_chain(plan, out)
    elif plan["mode"] == "pstep":
        n = run_pstep(plan, out)
    elif plan["mode"] == "long":
        n = run_long(plan, out)
    else:
        n = run_exact(plan, out)
    out.stats["probe:statistical tests"] += n
    out.stats["probe:replicates"] += plan["reps"]
    out.stats["mode:" + plan["mode"]] += 1
    out.stats["model:" + plan["spec"]["model"]] += 1
    out.nontrivial = True
    out.sig = digest([plan["spec"], plan["labels"], plan["mode"],
                      plan.get("n"), plan.get("sweeps")])
    if plan["index"] < 3:
        out.sample = dict(spec=plan["spec"], labels=plan["labels"],
                          mode=plan["mode"])
