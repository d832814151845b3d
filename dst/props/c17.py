"""C17: the Gibbs sampler leaves the model's joint law invariant."""
import random as pyrandom

import numpy as np

from .. import mix, refs
from ..core import digest
from ..runner import Violation
from .c08 import wspec

ID = "C17"
WALL = 420
COUNT = {"quick": 36, "thorough": 240}
SWEEPS = {"quick": 6000, "thorough": 40000}
RULE = ("a run alternates warm-started Gibbs pieces of 1-3 iterations on the "
        "current data with drawing new data from the sampled components and "
        "labels (thousands of times, queries in between), and compares averages "
        "of label, weight, component and data statistics with draws from the "
        "prior model; other runs pool the components that short chains show for "
        "the first time and compare them with the component prior; distinct by (specification, priors, cut)")
REAL = ["pyrichlet.mixture_models", "pyrichlet.weight_models", "numpy Generator",
        "scipy", "sklearn"]
STUB = ["the data (drawn by the simulator from the sampled state)"]
ASSUMPTIONS = ["batch means with 50 and 20 batches (larger error counts), alarm "
               "at z >= 8; at most 4 observations, proper priors",
               "new components: Kolmogorov-Smirnov, alarm at p < 1e-10",
               "frequency weights and beta-in-beta with 0 < x < 1 have no "
               "generative law the sampler claims exactly and are left out"]
Z = 8.0
MODELS = ["DirichletDistributionMixture", "DirichletProcessMixture",
          "PitmanYorMixture", "GeometricProcessMixture",
          "EqualWeightedMixture", "BetaInBetaMixture",
          "BetaInDirichletMixture", "BetaBernoulliMixture",
          "BetaBinomialMixture"]


def gen(r, i, tier):
    fresh = i % 9 == 8
    m = MODELS[(i - i // 9) % len(MODELS)] if not fresh else \
        FRESH[i // 9 % len(FRESH)]
    al = r.choice([0.5, 1.0])
    if m == "DirichletDistributionMixture":
        kw = dict(n=r.choice([2, 3]), alpha=r.choice([1, 0.7, 2.0]))
        if r.random() < .5:
            kw["alpha"] = [r.choice([0.5, 1.0, 2.0]) for _ in range(kw["n"])]
    elif m == "EqualWeightedMixture":
        kw = dict(n=r.choice([2, 3]))
    elif m == "DirichletProcessMixture":
        kw = dict(alpha=al)
    elif m == "PitmanYorMixture":
        kw = dict(alpha=al, pyd=r.choice([0.1, 0.2]))
    elif m == "GeometricProcessMixture":
        kw = dict(a=r.choice([2, 4.0]), b=r.choice([1, 2.0]))
    elif m == "BetaInBetaMixture":
        kw = dict(x=r.choice([0, 1]), alpha=al, a=4.0, b=2.0)
    elif m == "BetaInDirichletMixture":
        kw = dict(alpha=al, a=r.choice([0.3, 1.0]))
    elif m == "BetaBernoulliMixture":
        kw = dict(alpha=al, p=r.choice([0.4, 1, 0.7]))
    else:
        kw = dict(alpha=al, n=r.choice([0, 1, 4]))
    dim = r.choice([1, 1, 2])
    pr = dict(mu_prior=[0.5, -1.0][:dim], lambda_prior=r.choice([1.0, 2.0]),
              psi_prior=[[2.0, .7], [.7, 1.0]] if dim == 2 else [[2.0]],
              nu_prior=dim + r.choice([5, 8]))
    return dict(spec=dict(model=m, kw=kw, priors=pr), n=r.choice([2, 3, 4]),
                dim=dim, sweeps=SWEEPS[tier],
                init=r.choice(["kmeans", "random"]), queries=r.random() < .3,
                fresh=FITS[tier] if fresh else 0)


FRESH = ["DirichletProcessMixture", "GeometricProcessMixture",
         "PitmanYorMixture", "BetaInDirichletMixture"]
FITS = {"quick": 500, "thorough": 3000}


def run_fresh(plan, out):
    """Components a chain shows for the first time are independent draws from
    the component prior: neither data nor labels can have influenced them."""
    from scipy import stats as st
    spec, dim = plan["spec"], plan["dim"]
    pr = spec["priors"]
    g = np.random.Generator(np.random.PCG64(plan["seed"]))
    r = pyrandom.Random(plan["seed"])
    mu0, psi = np.array(pr["mu_prior"]), np.array(pr["psi_prior"])
    lc = np.linalg.cholesky(psi)
    pool = {}
    for f in range(plan["fresh"]):
        m = mix.build(spec, np.random.Generator(np.random.PCG64(
            plan["seed"] + 1 + f)))
        y = mu0 + 3 + 2 * g.standard_normal((4, dim))
        mix.settings(m, 2, 0, 1)
        # every observation starts in the first group
        m.fit_gibbs(y, init_method="random", init_groups=1)
        for t in range(r.choice([1, 2])):
            mix.settings(m, r.choice([1, 2, 3]), 0, 1)
            if plan["queries"]:
                m.gibbs_map_cluster()
            m.fit_gibbs(y, warm_start=True)
        known = {0}
        for t, p in enumerate(m.get_sim_params()):
            for j in sorted(p["theta"]):
                if j in known:
                    continue
                known.add(j)
                mu, sg = p["theta"][j]
                sg = np.atleast_2d(sg)
                v = pool.setdefault("first draw" if t == 0 else "later", {})
                z = np.linalg.solve(np.linalg.cholesky(sg), mu - mu0) \
                    * np.sqrt(pr["lambda_prior"])
                a = lc.T @ np.linalg.inv(sg) @ lc
                for k in range(dim):
                    v.setdefault("mean %d" % k, []).append(
                        st.norm.cdf(z[k]))
                    v.setdefault("variance %d" % k, []).append(
                        st.chi2.sf(a[k, k], pr["nu_prior"]))
                if dim == 2:
                    v.setdefault("covariance", []).append(
                        st.norm.cdf(a[0, 1] / np.sqrt(a[1, 1])))
    worst = 1
    for t in sorted(pool):
        for k, v in sorted(pool[t].items()):
            if len(v) < 50:
                continue
            p = st.kstest(v, "uniform").pvalue
            worst = min(worst, p)
            if p < 1e-10:
                raise Violation("fresh", "%s %s: %s of the %d components that "
                                "appear for the first time (%s) does not "
                                "follow the component prior (p = %.1e, mean "
                                "of its probability transform %.3f)" % (
                                    spec["model"], spec["kw"], k, len(v), t, p,
                                    np.mean(v)))
            out.stats["probe:new components"] += len(v)
    out.log.append([spec, "%.6g" % worst])
    out.steps = plan["fresh"]
    out.stats["model:" + spec["model"]] += 1
    out.nontrivial = True
    out.sig = digest([spec, plan["fresh"]])


def stats(w, d, mu, sg, y, mu0):
    """Bounded or light-tailed functions of one joint state; w and d of shape
    (S, n) [w: weight of each observation's component], mu (S, n, dim),
    sg (S, n, dim, dim)."""
    S, n = d.shape
    dim = y.shape[2]
    s = {}
    k = np.zeros(S)
    for i in range(n):
        k += ~np.any(d[:, :i] == d[:, i:i + 1], axis=1)
    s["groups"] = k
    s["same 1 2"] = (d[:, 0] == d[:, 1]).astype(float)
    if n > 2:
        s["same 1 2 3"] = ((d[:, 0] == d[:, 1]) & (d[:, 1] == d[:, 2])) * 1.0
        s["pair of 3"] = ((d[:, 0] == d[:, 1]) & (d[:, 1] != d[:, 2])) * 1.0
    s["label 1 is 0"] = (d[:, 0] == 0) * 1.0
    s["label 1 is 1"] = (d[:, 0] == 1) * 1.0
    s["label 1 < label 2"] = (d[:, 0] < d[:, 1]) * 1.0
    s["weight of 1"] = w[:, 0]
    s["weight of last"] = w[:, -1]
    for j in range(dim):
        s["mean %d" % j] = np.tanh(mu[:, 0, j] - mu0[j])
        s["mean %d abs" % j] = np.tanh(np.abs(mu[:, 0, j] - mu0[j]))
        s["data %d" % j] = np.tanh(y[:, 0, j] - mu0[j])
        s["data %d abs" % j] = np.tanh(np.abs(y[:, 0, j] - mu0[j]))
        s["variance %d" % j] = np.log(sg[:, 0, j, j])
        s["data %d product" % j] = np.tanh((y[:, 0, j] - mu0[j])
                                           * (y[:, 1, j] - mu0[j]))
        s["residual %d" % j] = np.tanh(np.abs(y[:, 0, j] - mu[:, 0, j]))
    if dim == 2:
        s["correlation"] = sg[:, 0, 0, 1] / np.sqrt(sg[:, 0, 0, 0]
                                                    * sg[:, 0, 1, 1])
        s["data cross"] = np.tanh((y[:, 0, 0] - mu0[0]) * (y[:, 0, 1]
                                                           - mu0[1]))
    return s


def reference(plan, S, g):
    spec, n, dim = plan["spec"], plan["n"], plan["dim"]
    ws = wspec(spec)
    pr = spec["priors"]
    if ws["model"] in ("DirichletDistribution", "EqualWeighting"):
        w = refs.finite_weights(ws, None, S, g)
    else:
        w = refs.weights_of(refs.prior_sticks(ws, S, 300, g))
    c = np.cumsum(w, 1)
    d = np.stack([(g.uniform(size=(S, 1)) > c).sum(1) for _ in range(n)], 1)
    wd = np.take_along_axis(np.concatenate([w, np.zeros((S, 1))], 1), d, 1)
    mu0 = np.array(pr["mu_prior"])
    psi = np.array(pr["psi_prior"])
    # one component per distinct label
    mu = np.empty((S, n, dim))
    sg = np.empty((S, n, dim, dim))
    inv = np.linalg.cholesky(np.linalg.inv(psi))
    for i in range(n):
        # inverse Wishart by the Bartlett decomposition
        a = np.zeros((S, dim, dim))
        for p in range(dim):
            a[:, p, p] = np.sqrt(g.chisquare(pr["nu_prior"] - p, S))
            for q in range(p):
                a[:, p, q] = g.standard_normal(S)
        la = inv @ a
        s = np.linalg.inv(la @ np.swapaxes(la, 1, 2))
        m = mu0 + np.einsum("sij,sj->si", np.linalg.cholesky(s),
                            g.standard_normal((S, dim))) / np.sqrt(
                                pr["lambda_prior"])
        mu[:, i], sg[:, i] = m, s
        for k in range(i):
            eq = d[:, k] == d[:, i]
            mu[eq, i], sg[eq, i] = mu[eq, k], sg[eq, k]
    y = mu + np.einsum("snij,snj->sni", np.linalg.cholesky(sg),
                       g.standard_normal((S, n, dim)))
    return stats(wd, d, mu, sg, y, mu0)


def run(plan, out):
    if plan["fresh"]:
        return run_fresh(plan, out)
    spec, n, dim = plan["spec"], plan["n"], plan["dim"]
    g = np.random.Generator(np.random.PCG64(plan["seed"]))
    r = pyrandom.Random(plan["seed"])
    m = mix.build(spec, np.random.Generator(np.random.PCG64(
        plan["seed"] + 1)))
    mu0 = np.array(spec["priors"]["mu_prior"])
    y = mu0 + g.standard_normal((max(n, 2), dim))
    mix.settings(m, 2, 1, 1)
    m.fit_gibbs(y, init_method=plan["init"])
    T = plan["sweeps"]
    burn = max(300, T // 20)
    W_, D_, M_, S_, Y_ = [], [], [], [], []
    for t in range(T + burn):
        u = r.random()
        total = 1 if u < .8 else 2 if u < .95 else 3
        b = r.randrange(total)
        mix.settings(m, total, b, 1)
        m.fit_gibbs(y, warm_start=True)
        p = m.get_sim_params()[-1]
        d = np.asarray(p["d"])
        mu = np.array([p["theta"][j][0] for j in d])
        sg = np.array([p["theta"][j][1] for j in d])
        y = mu + np.einsum("nij,nj->ni", np.linalg.cholesky(sg),
                           g.standard_normal((n, dim)))
        if t >= burn:
            W_.append(np.asarray(p["w"])[d])
            D_.append(d)
            M_.append(mu)
            S_.append(sg)
            Y_.append(y)
        if plan["queries"] and t % 50 == 0:
            m.gibbs_map_cluster()
            m.gibbs_eap_density(y, periods=3)
    got = stats(np.array(W_), np.array(D_), np.array(M_), np.array(S_),
                np.array(Y_), mu0)
    R = 200000
    ref = reference(plan, R, np.random.Generator(np.random.PCG64(
        plan["seed"] + 2)))
    worst = 0
    ctx = "%s %s, %d observations, %d sweeps" % (spec["model"], spec["kw"], n,
                                                 T)
    for k in got:
        x = got[k]
        se = 0
        for B in (50, 20):
            bm = x[:len(x) // B * B].reshape(B, -1).mean(axis=1)
            se = max(se, bm.std(ddof=1) / np.sqrt(B))
        z = abs(x.mean() - ref[k].mean()) / np.sqrt(
            se ** 2 + ref[k].var() / R + 1e-10 + ref[k].var() / len(x) * .25)
        worst = max(worst, z)
        if z > Z:
            raise Violation("invariance", "%s: %s has mean %.4f along the "
                            "chain and %.4f under the prior model (z = %.1f)"
                            % (ctx, k, x.mean(), ref[k].mean(), z))
    out.log.append([spec, round(float(worst), 6)])
    out.steps = T
    out.stats["probe:sweeps"] += T
    out.stats["probe:statistics compared"] += len(got)
    out.stats["model:" + spec["model"]] += 1
    out.nontrivial = True
    out.sig = digest([spec, n, plan["init"]])
    out.sample = dict(spec=spec, n=n, sweeps=T, worst_z=round(float(worst), 2))
    if plan["index"] >= 3:
        out.sample = None
