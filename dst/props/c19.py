"""C19: a variational fit is internally coherent."""
import numpy as np
from scipy.special import digamma
from scipy.stats import multivariate_t

from .. import core, mix
from .. import oracle as O
from .. import weights as W
from ..core import digest, freeze, sim_rng
from ..runner import Violation
from .c08 import wspec

ID = "C19"
COUNT = {"quick": 1600, "thorough": 25000}
RULE = ("a run drives a mixture model through cold and warm variational fits "
        "(some failing or interrupted, then repeated), Gibbs fits, queries and "
        "weight-model calls in between, and after each completed variational "
        "fit checks the sum rules, the conjugate updates, the mass and the "
        "marginals of the density by numerical integration, the affinity and "
        "the clustering against independent formulas; non-trivial when a fit "
        "was judged; distinct by (specification, operations, faults)")
REAL = ["pyrichlet.mixture_models (the six with variational support)",
        "pyrichlet.weight_models", "numpy", "scipy", "sklearn"]
STUB = ["bit generator (simulator-owned words)"]
ASSUMPTIONS = ["integrals to 2e-3 over 4001 points of a tangent grid, other "
               "comparisons to 1e-6 relative"]


def gen(r, i, tier):
    spec = mix.gen_model(r, [mix.VAR[i % len(mix.VAR)]])
    dim = r.choice([1, 1, 2, 2, 3])
    data = [mix.gen_data(r, dim=dim, units=False)]
    if r.random() < .4:
        data.append(mix.gen_data(r, dim=dim, units=False))
    for d in data:
        if r.random() < .2:         # repeated observations
            d[:] = (d[:r.choice([dim + 2, 5])] * 5)[:len(d)]
    spec["priors"] = mix.gen_priors(r, dim)
    ops, cur = [], None
    for _ in range(r.choice([1, 2, 3, 4])):
        u = r.random()
        if cur is None or u < .4:
            cur = r.randrange(len(data))
            ops.append(mix.gen_varfit(r, spec, data=cur))
        elif u < .65:
            ops.append(mix.gen_varfit(r, spec, warm=True, data=cur))
        elif u < .8:
            o = mix.gen_fit(r, spec, 0, data=r.randrange(len(data)))
            if o[2]["init_method"] == "variational":
                o[2]["init_method"] = "random"
            ops.append(o)
        else:
            ops.append(["wm", r.choice([["random", 2], ["complete", 4],
                                        ["tail", .9], ["assign", 3]])])
    faults = [[k] + mix.gen_fault(r) for k in range(len(ops))
              if ops[k][0] != "wm" and r.random() < .25]
    pts = [[round(r.gauss(0, 4), 2) for _ in range(dim)]
           for _ in range(r.choice([1, 2, 4]))]
    asks = [mix.gen_query(r, ["var_eap_density", "var_eap_density",
                              "var_map_density"], dim)[1:] for _ in range(3)]
    return dict(spec=spec, data=data, ops=ops, faults=faults, pts=pts,
                asks=asks)


def priors(spec, y):
    p = spec.get("priors") or {}
    d = y.shape[1]
    if p:
        return (np.array(p["mu_prior"], float), float(p["lambda_prior"]),
                np.array(p["psi_prior"], float), float(p["nu_prior"]))
    return y.mean(axis=0), 1.0, np.atleast_2d(np.cov(y.T)), float(d)


def conjugate(y, r, mu0, l0, psi0, nu0):
    n = max(r.sum(), 1e-300)
    xb = r @ y / n
    s = (r[:, None] * (y - xb)).T @ (y - xb)
    l, nu = l0 + n, nu0 + n
    mu = (l0 * mu0 + n * xb) / l
    psi = psi0 + s + l0 * n / l * np.outer(xb - mu0, xb - mu0)
    return mu, l, psi, nu


GRID = np.tan((np.arange(4001) + .5) / 4001 * np.pi - np.pi / 2)
JAC = np.pi / 4001 * (1 + GRID ** 2)


def integrate(f, c, s):
    """Integral over the real line of a vectorised function."""
    return float(np.sum(f(c + s * GRID) * JAC) * s)


def ask(s, ctx, name, y, **kw):
    st = s.step(["q", name, y, kw])
    if st[0] != "ok":
        raise Violation("raises", "%s: %s %s" % (ctx, name, mix.say(st)))
    return st[1]


def judge(s, plan, y, ctx, out):
    m, d = s.m, y.shape[1]
    P = np.asarray(m.var_d)
    n = len(y)
    if not np.all(np.isfinite(P)) or not all(
            np.all(np.isfinite(np.asarray(x, float))) for t in m.var_theta
            for x in t):
        out.stats["probe:not finite"] += 1
        return False
    if P.ndim != 2 or P.shape[1] != n or P.min() <= 0 or \
            np.abs(P.sum(axis=0) - 1).max() > 1e-9:
        raise Violation("probabilities", "%s: assignment probabilities %s with "
                        "minimum %g and sums %s" % (ctx, P.shape, P.min(),
                                                    P.sum(axis=0)[:4]))
    K = len(P)
    # conjugate updates given the probabilities
    pr = priors(plan["spec"], y)
    post = [conjugate(y, P[j], *pr) for j in range(K)]
    for j, t in enumerate(m.var_theta):
        mu, l, psi, nu = post[j]
        if not (O.close(t[0], mu, 1e-6, 1e-6) and O.close(t[1], l, 1e-6, 1e-9)
                and O.close(t[3], nu, 1e-6, 1e-9)):
            raise Violation("update", "%s: component %d has %s, the conjugate "
                            "update gives %s" % (ctx, j, [t[0], t[1], t[3]],
                                                 [mu, l, nu]))
    wm = twin_weights(plan, P)
    mean = np.array([m.weight_model.variational_mean_w_j(j)
                     for j in range(K)])
    mean0 = np.array([wm.variational_mean_w_j(j) for j in range(K)])
    lw = np.array([wm.variational_mean_log_w_j(j) for j in range(K)])
    if not O.close(mean, mean0, 1e-9, 1e-12):
        raise Violation("weights", "%s: mean weights %s, a weight model given "
                        "the same probabilities has %s" % (ctx, mean, mean0))
    # the expected density
    pts = np.array(plan["pts"], float)
    whole = np.asarray(ask(s, ctx, "var_eap_density", pts.tolist()))
    e = 0
    dof = []
    for j, (mu, l, psi, nu) in enumerate(post):
        f = nu - d + 1
        dof.append(f)
        e = e + mean0[j] * np.atleast_1d(multivariate_t.pdf(
            pts, mu, psi * (l + 1) / (l * f), f))
    if whole.shape != (len(pts),) or whole.min() < 0:
        raise Violation("density", "%s: the density is %s" % (ctx, whole))
    if not O.close(whole, e, 1e-5, 1e-12):
        raise Violation("density", "%s: the density at %s is %s, the expected "
                        "one %s" % (ctx, plan["pts"], whole, e))
    for name in ("var_eap_density", "var_map_density"):
        st = s.step(["q", name, plan["pts"], {}])
        if name == "var_map_density" and st[0] == "exc" and \
                isinstance(st[1], ValueError):
            continue              # the mode of these weights is undefined
        if st[0] != "ok":
            raise Violation("raises", "%s: %s %s" % (ctx, name, mix.say(st)))
        parts = sum(np.asarray(ask(s, ctx, name, plan["pts"], component=j))
                    for j in range(K))
        if not O.close(parts, st[1], 1e-9, 1e-14):
            raise Violation("components", "%s: the components of %s add up to "
                            "%s, not to %s" % (ctx, name, parts, st[1]))
        # over coordinates: each marginal is the integral of the next
        if name == "var_map_density":
            mass = None
        else:
            mass = mean0.sum()
        sc = [float(np.std(y[:, k])) + .1 for k in range(d)]
        c0 = [float(np.median(y[:, k])) for k in range(d)]
        if mass is not None:
            k = plan["seed"] % d
            v = integrate(lambda x: np.asarray(ask(
                s, ctx, name, x.reshape(-1, 1).tolist(), dim=k)), c0[k],
                sc[k])
            if abs(v - mass) > 2e-3:
                raise Violation("mass", "%s: the density of coordinate %d "
                                "integrates to %.5f, the mean weights add up "
                                "to %.5f" % (ctx, k, v, mass))
        if d > 1:
            marginal(s, plan, ctx, name, d, c0, sc)
    # any coordinates in any order, any component, any number of points
    for q, p, kw in plan["asks"]:
        if kw.get("component") is not None:
            kw = dict(kw, component=kw["component"] % K)
        yy = O.points(p, y, kw.get("dim"))
        v = np.asarray(ask(s, ctx, q, p, **kw)) if q == "var_eap_density" \
            else None
        if v is None:
            if kw.get("dim") is None or np.size(kw["dim"]) != d:
                continue
            # the same coordinates in the order of the data
            st = s.step(["q", q, yy.tolist(), kw])
            if st[0] != "ok":
                continue
            v, e = np.asarray(st[1]), np.asarray(ask(
                s, ctx, q, yy[:, np.argsort(np.atleast_1d(kw["dim"]))]
                .tolist(), **{a: b for a, b in kw.items() if a != "dim"}))
        else:
            e = 0
            js = range(K) if kw.get("component") is None else [
                kw["component"]]
            ix = np.arange(d) if kw.get("dim") is None else np.atleast_1d(
                kw["dim"])
            for j in js:
                mu, l, psi, nu = post[j]
                f = nu - d + 1
                sh = psi * (l + 1) / (l * f)
                e = e + mean0[j] * np.atleast_1d(multivariate_t.pdf(
                    yy, mu[ix], sh[np.ix_(ix, ix)], f))
        if not O.close(v, e, 1e-5, 1e-12):
            raise Violation("density", "%s: %s(%s, %s) is %s, expected %s"
                            % (ctx, q, p, kw, v[:4], e[:4]))
        out.stats["probe:densities asked"] += 1
    # assignment of new points
    lp = np.zeros((K, len(pts)))
    for j, (mu, l, psi, nu) in enumerate(post):
        w = np.linalg.inv(psi)
        el = sum(digamma((nu - q) / 2) for q in range(d)) + d * np.log(2) + \
            np.linalg.slogdet(w)[1]
        z = pts - mu
        lp[j] = lw[j] + .5 * el - d / 2 * np.log(2 * np.pi) - .5 * (
            d / l + nu * np.einsum("ij,jk,ik->i", z, w, z))
    with np.errstate(all="ignore"):
        R = np.exp(lp - lp.max(axis=0))
    R /= R.sum(axis=0)
    A = np.asarray(ask(s, ctx, "var_eap_affinity_matrix", plan["pts"]))
    if not O.close(A, R.T @ R, 1e-5, 1e-8):
        raise Violation("affinity", "%s: affinity of new points %s, from their "
                        "probabilities %s" % (ctx, A[0], (R.T @ R)[0]))
    g, u = ask(s, ctx, "var_map_cluster", plan["pts"], full=True)
    check_cluster(ctx, "new points", g, u, R)
    if not np.array_equal(g, ask(s, ctx, "var_map_cluster", plan["pts"])):
        raise Violation("cluster", "%s: full and plain clusterings differ"
                        % ctx)
    A = np.asarray(ask(s, ctx, "var_eap_affinity_matrix", None))
    if not O.close(A, P.T @ P, 1e-9, 1e-12):
        raise Violation("affinity", "%s: affinity of the observations %s, from "
                        "their probabilities %s" % (ctx, A[0], (P.T @ P)[0]))
    g, u = ask(s, ctx, "var_map_cluster", None, full=True)
    check_cluster(ctx, "observations", g, u, P)
    if K == 1:
        out.stats["probe:exact predictive"] += 1
    out.stats["probe:fits judged"] += 1
    return True


def check_cluster(ctx, what, g, u, R):
    g, u = np.asarray(g), np.asarray(u)
    top = R.max(axis=0)
    if g.shape != top.shape or u.shape != top.shape:
        raise Violation("cluster", "%s: clustering of %d %s has shapes %s %s"
                        % (ctx, len(top), what, g.shape, u.shape))
    if np.any(R[g, range(len(g))] < top - 1e-7):
        raise Violation("cluster", "%s: %s are put in %s, the most probable "
                        "components are %s" % (ctx, what, g, R.argmax(axis=0)))
    if np.abs(u - (1 - top)).max() > 1e-7:
        raise Violation("cluster", "%s: uncertainties of the %s %s, complement "
                        "%s" % (ctx, what, u[:4], (1 - top)[:4]))


def marginal(s, plan, ctx, name, d, c0, sc):
    """f over some coordinates = integral over one more coordinate."""
    k = (plan["seed"] // 7) % d
    keep = [q for q in range(d) if q != k]
    p = np.array(plan["pts"], float)[0]
    got = np.asarray(ask(s, ctx, name, [p[keep].tolist()],
                         dim=keep if len(keep) > 1 else keep[0]))[0]

    def f(x):
        z = np.tile(p, (len(x), 1))
        z[:, k] = x
        return np.asarray(ask(s, ctx, name, z.tolist()))
    v = integrate(f, c0[k], sc[k])
    if abs(v - got) > 1e-3 * abs(got) + 1e-9:
        raise Violation("marginal", "%s: %s over coordinates %s at %s is %g, "
                        "the joint density integrates to %g"
                        % (ctx, name, keep, p[keep], got, v))


def twin_weights(plan, P):
    g, b = sim_rng(plan["seed"] + 3)
    w = W.build(wspec(plan["spec"]), g)
    w.fit_variational(P.copy())
    return w


def run(plan, out):
    drive(plan, out, judge)
    if plan["index"] < 3:
        out.sample = dict(spec=plan["spec"], ops=plan["ops"],
                          faults=plan["faults"])


def drive(plan, out, judge):
    s = mix.Session(plan["spec"], plan["data"], plan["seed"],
                    budget=1_000_000)
    m = s.m
    faults = {f[0]: f[1:] for f in plan["faults"]}
    n, chain = 0, None
    for k, op in enumerate(plan["ops"]):
        ctx = "%s %s, op %d" % (plan["spec"]["model"], plan["spec"]["kw"], k)
        warm = op[0] == "varfit" and op[2].get("warm")
        if warm and (not m.var_fitted or chain != op[1]):
            continue
        if op[0] == "wm" and m.weight_model.get_size() == 0:
            continue
        st = s.step(op, faults.get(k))
        if st[0] == "budget":
            return
        if op[0] == "wm" and st[0] == "exc":
            continue
        if st[0] == "exc":
            raise st[1]
        if op[0] == "varfit":
            chain = op[1] if st[0] == "ok" else (
                chain if m.var_fitted else None)
            if st[0] == "fault" and not m.var_fitted:
                # once more, undisturbed
                cold = ["varfit", op[1], {a: b for a, b in op[2].items()
                                          if a != "warm"}]
                if plan["spec"]["model"] not in mix.HAS_N:
                    cold[2].setdefault("n_groups", 2)
                st = s.step(cold)
                if st[0] != "ok":
                    raise st[1]
                chain, op = op[1], cold
        if op[0] == "varfit" and st[0] == "ok" and not op[2].get("warm"):
            K = op[2].get("n_groups") or plan["spec"]["kw"]["n"]
            if len(m.var_d) != K or len(m.var_theta) != K or m.var_k != K:
                raise Violation("groups", "%s: %d groups asked for, %d fitted"
                                % (ctx, K, len(m.var_d)))
        if m.var_fitted and chain is not None:
            if not judge(s, plan, s.datas[chain], ctx, out):
                return
            n += 1
            out.log.append([st[0], mix.var_state(m)])
    mix.count_faults(out, s.fired)
    out.steps = s.lines
    out.stats["model:" + plan["spec"]["model"]] += 1
    out.nontrivial = n > 0
    out.sig = digest([plan["spec"], plan["ops"], plan["faults"]])
