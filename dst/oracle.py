"""Independent definitions of what a fitted mixture reports."""
import numpy as np
from scipy.stats import multivariate_normal


def log_normal(x, mu, cov):
    """Log density at the rows of x; textbook formula, falling back on the
    generalised one for covariances that are singular in double precision."""
    x = np.atleast_2d(np.asarray(x, float))
    mu, cov = np.atleast_1d(np.asarray(mu, float)), np.atleast_2d(
        np.asarray(cov, float))
    k = len(mu)
    ev = np.linalg.eigvalsh((cov + cov.T) / 2)
    if ev[0] <= 1e-9 * ev[-1]:
        with np.errstate(all="ignore"):
            return np.reshape(multivariate_normal.logpdf(
                x, mu, cov, allow_singular=True), -1)
    z = np.linalg.solve(np.linalg.cholesky(cov), (x - mu).T)
    return -.5 * (k * np.log(2 * np.pi) + np.sum(np.log(ev))
                  + np.sum(z * z, axis=0))


def degenerate(theta, js):
    """Covariances whose conditioning makes comparisons meaningless."""
    for j in js:
        ev = np.linalg.eigvalsh(np.atleast_2d(theta[j][1]))
        if ev[0] <= 1e-7 * ev[-1]:
            return True
    return False


def state_ll(p, y):
    """log p(y, d | theta, w) of one draw."""
    d, w, r = np.asarray(p["d"]), np.asarray(p["w"], float), 0.0
    for j in np.unique(d):
        r += log_normal(y[d == j], *p["theta"][j]).sum()
        r += (d == j).sum() * np.log(w[j])
    return r


def mixture(y, w, theta, dim=None, component=None):
    js = range(len(w)) if component is None else [component]
    r = np.zeros(len(y))
    for j in js:
        mu, cov = np.asarray(theta[j][0]), np.asarray(theta[j][1])
        if dim is not None:
            ix = np.atleast_1d(dim)
            mu, cov = mu[ix], cov[np.ix_(ix, ix)]
        r += w[j] * np.exp(log_normal(y, mu, cov))
    return r


def log_resp(y, w, theta):
    """Rows: components; log of w_j N(y | theta_j)."""
    with np.errstate(divide="ignore"):
        return np.array([np.log(w[j]) + log_normal(y, *theta[j])
                         for j in range(len(w))])


def most_likely(y, w, theta):
    """(component, probability, margin to the second in log) per point."""
    lp = log_resp(y, w, theta)
    lp = lp - lp.max(axis=0)
    pr = np.exp(lp)
    pr /= pr.sum(axis=0)
    g = lp.argmax(axis=0)
    s = np.sort(lp, axis=0)
    margin = s[-1] - s[-2] if len(lp) > 1 else np.full(lp.shape[1], np.inf)
    return g, pr[g, range(len(g))], margin


def relabel(g):
    return np.unique(g, return_inverse=True)[1]


def same_partition(a, b):
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and np.array_equal(
        np.equal.outer(a, a), np.equal.outer(b, b))


def close(a, b, rtol=1e-6, atol=1e-9):
    a, b = np.asarray(a, float), np.asarray(b, float)
    if a.shape != b.shape:
        return False
    with np.errstate(all="ignore"):
        return bool(np.all((a == b) | (np.abs(a - b) <= atol + rtol
                                       * np.maximum(np.abs(a), np.abs(b)))))


def points(q, y_fit, dim):
    """The rows a query with argument q is about (coordinates chosen)."""
    if q is None:
        return y_fit if dim is None else y_fit[:, np.atleast_1d(dim)]
    else:
        y = np.array(q, dtype=float)
        if y.ndim == 1:
            y = y.reshape(-1, 1)
    if dim is not None and y.shape[1] != np.size(dim):
        y = y[:, np.atleast_1d(dim)]
    return y
