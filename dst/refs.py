"""Executable reference models: independent samplers written from the
documented definitions of the ten priors, and their exact posteriors."""
import numpy as np


def prior_sticks(spec, n, m, g):
    """(n, m) array of stick variables v_1..v_m, one realization per row."""
    k, kw = spec["model"], spec["kw"]
    if k == "DirichletProcess":
        return g.beta(1, kw["alpha"], (n, m))
    if k == "PitmanYorProcess":
        d = kw["pyd"]
        j = np.arange(1, m + 1)
        return g.beta(1 - d, kw["alpha"] + j * d, (n, m))
    if k == "GeometricProcess":
        return np.repeat(g.beta(kw["a"], kw["b"], (n, 1)), m, 1)
    if k == "BetaInBeta":
        x = kw["x"]
        if x == 0:
            return g.beta(1, kw["alpha"], (n, m))
        p = g.beta(kw["a"], kw["b"], (n, 1))
        if x == 1:
            return np.repeat(p, m, 1)
        c = x / (1 - x)
        return g.beta(1 + c * p, kw["alpha"] + c * (1 - p), (n, m))
    if k == "BetaInDirichlet":
        al, a = kw["alpha"], kw["a"]
        v = np.empty((n, m))
        new = g.beta(1, al, (n, m))
        for j in range(m):
            u = g.uniform(size=n) * (a + j)
            pick = np.minimum(u.astype(int), j - 1) if j else None
            v[:, j] = new[:, j] if j == 0 else np.where(
                u >= j, new[:, j], v[np.arange(n), pick])
        return v
    if k == "BetaBernoulli":
        v = np.empty((n, m))
        new = g.beta(1, kw["alpha"], (n, m))
        v[:, 0] = new[:, 0]
        for j in range(1, m):
            v[:, j] = np.where(g.uniform(size=n) < kw["p"], new[:, j],
                               v[:, j - 1])
        return v
    if k == "BetaBinomial":
        nn, al = kw["n"], kw["alpha"]
        v = np.empty((n, m))
        v[:, 0] = g.beta(1, al, n)
        for j in range(1, m):
            b = g.binomial(nn, v[:, j - 1])
            v[:, j] = g.beta(1 + b, al + nn - b)
        return v
    raise ValueError(k)


def counts(d, m):
    a = np.bincount(d, minlength=m)[:m].astype(float)
    tot = len(d)
    b = tot - np.cumsum(np.bincount(d, minlength=m)[:m])
    return a, b.astype(float)


def posterior_kind(spec):
    """'exact' | 'chain' | None (approximate by design / known finding)"""
    k, kw = spec["model"], spec["kw"]
    if k == "BetaInBeta":
        return "exact" if kw["x"] in (0, 1) else None
    if k == "BetaInDirichlet":
        return "exact" if kw["a"] == 0 else "chain"
    if k == "BetaBernoulli":
        return "exact" if kw["p"] in (0, 1) else "chain"
    if k == "BetaBinomial":
        return "exact" if kw["n"] == 0 else None
    return "exact"


def posterior_sticks(spec, d, n, m, g):
    """sticks v_1..v_m given labels d, for the exact infinite models"""
    k, kw = spec["model"], spec["kw"]
    a, b = counts(np.asarray(d), m)
    geo = None
    if k == "DirichletProcess":
        return g.beta(1 + a, kw["alpha"] + b, (n, m))
    if k == "PitmanYorProcess":
        e = kw["pyd"]
        j = np.arange(1, m + 1)
        return g.beta(1 - e + a, kw["alpha"] + j * e + b, (n, m))
    if k == "GeometricProcess":
        geo = (kw["a"], kw["b"])
    elif k == "BetaInBeta":
        if kw["x"] == 0:
            return g.beta(1 + a, kw["alpha"] + b, (n, m))
        geo = (kw["a"], kw["b"])
    elif k == "BetaInDirichlet":
        geo = (1, kw["alpha"])
    elif k == "BetaBernoulli":
        if kw["p"] == 1:
            return g.beta(1 + a, kw["alpha"] + b, (n, m))
        geo = (1, kw["alpha"])
    elif k == "BetaBinomial":
        return g.beta(1 + a, kw["alpha"] + b, (n, m))
    p = g.beta(geo[0] + len(d), geo[1] + int(np.sum(d)), (n, 1))
    return np.repeat(p, m, 1)


def finite_weights(spec, d, n, g):
    """(n, K) weights of the finite models, d possibly None"""
    k, kw = spec["model"], spec["kw"]
    if k == "EqualWeighting":
        return np.full((n, kw["n"]), 1 / kw["n"])
    if k == "FrequencyWeighting":
        if d is None:
            return np.full((n, kw["n"]), 1 / kw["n"])
        c = np.bincount(d)
        return np.tile(c / c.sum(), (n, 1))
    al = np.array(kw["alpha"], float) if isinstance(kw["alpha"], list) \
        else np.full(kw["n"], float(kw["alpha"]))
    if d is not None:
        al = al + np.bincount(d, minlength=kw["n"])
    return g.dirichlet(al, n)


def sticks_of(w):
    """recover stick variables from rows of weights; -1 where the remaining
    mass is too small for the ratio to mean anything"""
    w = np.asarray(w, float)
    rest = 1 - np.concatenate([np.zeros((len(w), 1)),
                               np.cumsum(w, 1)[:, :-1]], 1)
    ok = rest > 1e-6
    return np.where(ok, w / np.where(ok, rest, 1), -1.0)


def weights_of(v):
    return v * np.cumprod(np.concatenate([np.ones((len(v), 1)),
                                          1 - v[:, :-1]], 1), 1)


# ------------------------------------------------------------------ tests
LOG_P = -np.log(1e-10)


def ks2(x, y, tol=1e-9):
    """two-sample KS; returns (D, critical D at p ~ 1e-10). Values closer than
    tol are merged by rounding so that rounding noise is not a difference."""
    x = np.sort(np.round(np.asarray(x, float) / tol) * tol)
    y = np.sort(np.round(np.asarray(y, float) / tol) * tol)
    z = np.concatenate([x, y])
    fx = np.searchsorted(x, z, "right") / len(x)
    fy = np.searchsorted(y, z, "right") / len(y)
    crit = np.sqrt((LOG_P + np.log(2)) / 2 * (len(x) + len(y))
                   / (len(x) * len(y)))
    return float(np.max(np.abs(fx - fy))), float(crit)


def prop2(k1, n1, k2, n2):
    """two-sample proportion z"""
    p = (k1 + k2 + 1) / (n1 + n2 + 2)
    return abs(k1 / n1 - k2 / n2) / np.sqrt(p * (1 - p) * (1 / n1 + 1 / n2))
