"""C12: a warm start continues exactly where the previous fit stopped."""
import numpy as np

from .. import mix
from ..core import digest, freeze
from ..runner import Violation
from .c07 import check_draws

ID = "C12"
COUNT = {"quick": 1600, "thorough": 25000}
RULE = ("a run cuts one fit of T iterations into a cold piece and warm-started "
        "pieces with their own burn-in and subsampling, queries in between, and "
        "compares every saved draw, the most likely draw, the answers and the "
        "random words used with one uninterrupted fit on the same words; one "
        "piece may be interrupted or fail, after which earlier draws must be "
        "unchanged and further pieces valid; non-trivial when at least one "
        "warm piece ran; distinct by (specification, cut, faults)")
REAL = ["pyrichlet.mixture_models", "pyrichlet.weight_models", "numpy", "scipy",
        "sklearn"]
STUB = ["bit generator (simulator-owned words, rewound for the twin)"]
ASSUMPTIONS = ["one fault per operation; interrupts land on outgoing calls, in the thorough tier also between library lines",
               "initialization by k-means or from the prior (the variational "
               "initialization depends on the iteration limit)"]


def gen(r, i, tier):
    spec = mix.gen_model(r, [mix.ALL[i % len(mix.ALL)]])
    data = mix.gen_data(r)
    dim = len(data[0])
    spec["priors"] = mix.gen_priors(r, dim)
    var = spec["model"] in mix.VAR and r.random() < .3
    datas = [data, mix.gen_data(r, None if not spec["priors"] else dim)]
    parts = []
    for k in range(r.choice([2, 2, 3, 5])):
        t = r.choice([1, 2, 3, 5])
        parts.append(dict(total=t, burn=r.choice([0, 0, r.randrange(t)]),
                          sub=r.choice([1, 1, 2, 3]),
                          q=[mix.gen_query(r, mix.VQ if var else mix.GQ, dim)
                             for _ in range(r.choice([0, 0, 1, 2]))]))
        if spec["model"] in mix.VAR and r.random() < .25:
            # a fit by the other method, possibly of other observations
            x = r.randrange(2)
            if var:
                o = mix.gen_fit(r, spec, 0, data=x)
                if o[2]["init_method"] == "variational":
                    o[2]["init_method"] = "kmeans"
            else:
                o = mix.gen_varfit(r, spec, data=x)
            parts[-1]["other"] = o
    if var:
        init = dict(init_method=r.choice(["kmeans", "random"]))
        if spec["model"] not in mix.HAS_N:
            init["n_groups"] = r.choice([1, 2, 3, 4])
    else:
        init = dict(init_method=r.choice(["kmeans", "random"]),
                    init_groups=r.choice([None, 1, 3])
                    if spec["model"] not in mix.HAS_N else None)
    faults = []
    if r.random() < .3:
        faults.append([r.randrange(1, len(parts))] + mix.gen_fault(r))
    return dict(spec=spec, data=datas, var=var, init=init, parts=parts,
                tol=r.choice([-1, -1, 1e-3, 1e-8, 1]) if var else None,
                qs=[mix.gen_query(r, mix.VQ if var else mix.GQ, dim)
                    for _ in range(2)], faults=faults)


def fit_op(plan, part, warm):
    o = dict(total=part["total"])
    if plan["var"]:
        o["tol"] = -1
    else:
        o.update(burn=part["burn"], sub=part["sub"])
    if warm:
        o["warm"] = True
    else:
        o.update(plan["init"])
    return ["varfit" if plan["var"] else "fit", 0, o]


def other(s, part, out):
    """A fit by the other method between two pieces; its random words are
    given back."""
    op = part.get("other")
    if not op:
        return
    n = s.bits.n
    s.step(op)
    s.bits.n = n
    out.stats["probe:other method in between"] += 1


def run(plan, out):
    seed = plan["seed"]
    if not plan["parts"]:
        return
    s = mix.Session(plan["spec"], plan["data"], seed)
    t = mix.Session(plan["spec"], plan["data"], seed)
    ctx = "%s %s" % (plan["spec"]["model"], plan["spec"]["kw"])
    T = sum(p["total"] for p in plan["parts"])
    (run_var if plan["var"] else run_gibbs)(plan, out, s, t, ctx, T)
    mix.count_faults(out, s.fired)
    out.steps = s.lines + t.lines
    out.stats["model:" + plan["spec"]["model"]] += 1
    out.nontrivial = len(plan["parts"]) > 1
    out.sig = digest([plan["spec"], plan["parts"], plan["init"],
                      plan["faults"], plan["tol"]])
    if plan["index"] < 3:
        out.sample = dict(spec=plan["spec"], parts=plan["parts"],
                          faults=plan["faults"])


def same_group(draws):
    d = [np.asarray(p["d"]) for p in draws]
    return sum(np.equal(x, x[:, None]).astype(float) for x in d) / len(d)


def run_gibbs(plan, out, s, t, ctx, T):
    whole = dict(total=T, burn=0, sub=1)
    st = t.step(fit_op(plan, whole, False))
    if st[0] == "budget":
        return
    if st[0] != "ok":
        raise st[1]
    ref = mix.gibbs_draws(t.m)
    faults = {f[0]: f[1:] for f in plan["faults"]}
    want, pos, exact = [], 0, True
    kept = None
    for k, part in enumerate(plan["parts"]):
        before = mix.gibbs_draws(s.m)
        st = s.step(fit_op(plan, part, k > 0), faults.get(k))
        if st[0] == "budget":
            return
        if st[0] == "exc":
            if k == 1 and faults.get(0):
                return
            raise st[1]
        now = mix.gibbs_draws(s.m)
        c = "%s, piece %d of %s" % (ctx, k, [
            [p["total"], p["burn"], p["sub"]] for p in plan["parts"]])
        if now[:len(before)] != before:
            raise Violation("kept", "%s: draws saved before this piece (%s) "
                            "differ: %s" % (c, st[0], mix.first_diff(
                                before, now[:len(before)])))
        add = [ref[pos + j] for j in range(part["burn"], part["total"])
               if (j - part["burn"]) % part["sub"] == 0] if exact else None
        if exact:
            new = now[len(before):]
            if st[0] == "ok" and len(new) != len(add):
                raise Violation("count", "%s: %d draws, the uninterrupted fit "
                                "has %d" % (c, len(new), len(add)))
            if new != add[:len(new)]:
                raise Violation("draws", "%s: draws differ from those of the "
                                "uninterrupted fit: %s" % (
                                    c, mix.first_diff(add[:len(new)], new)))
            out.stats["probe:draws compared"] += len(new)
        if st[0] == "fault":
            exact = False
            kept = len(now)
        elif not exact:
            out.stats["probe:piece after a failed one"] += 1
        pos += part["total"]
        check_draws(s.m, s.datas[0], c)
        out.log.append([st[0], now])
        for q in part["q"]:
            if st[0] == "ok":
                s.step(q)
        other(s, part, out)
    if not exact:
        return
    p, q = s.m.map_sim_params, t.m.map_sim_params
    a = freeze([s.m.map_log_likelihood, mix.draw_state(p)])
    b = freeze([t.m.map_log_likelihood, mix.draw_state(q)])
    if a != b:
        raise Violation("map", "%s: the most likely draw differs from that of "
                        "the uninterrupted fit: %s" % (ctx,
                                                       mix.first_diff(b, a)))
    if s.bits.n != t.bits.n:
        raise Violation("words", "%s: %d random words used, the uninterrupted "
                        "fit used %d" % (ctx, s.bits.n, t.bits.n))
    aff = s.step(["q", "gibbs_eap_affinity_matrix", None, {}])
    if aff[0] != "ok":
        raise aff[1]
    exp = same_group(s.m.get_sim_params())
    if np.shape(aff[1]) != exp.shape or np.abs(aff[1] - exp).max() > 1e-9:
        raise Violation("affinity", "%s: the affinity after warm pieces is not "
                        "that of all saved draws" % ctx)
    # the twins continue alike
    more = dict(total=2, burn=0, sub=1)
    for x in (s, t):
        st = x.step(fit_op(plan, more, True))
        if st[0] == "budget":
            return
        if st[0] != "ok":
            raise st[1]
    a, b = mix.gibbs_draws(s.m)[-2:], mix.gibbs_draws(t.m)[-2:]
    if a != b:
        raise Violation("state", "%s: after equal histories the chains go on "
                        "differently: %s" % (ctx, mix.first_diff(b, a)))


def answers(s, qs):
    res = []
    for q in qs:
        st = s.step(q)
        res.append((st[0], freeze(st[1]) if st[0] == "ok"
                    else type(st[1]).__name__))
    return res


def params(m):
    return freeze([m.var_k, m.var_d, [list(x) for x in m.var_theta]])


def finite(m):
    return np.all(np.isfinite(m.var_d)) and all(
        np.all(np.isfinite(np.asarray(x, float))) for th in m.var_theta
        for x in th)


def run_var(plan, out, s, t, ctx, T):
    # every single iteration on its own
    ref = []
    for k in range(T):
        st = t.step(fit_op(plan, dict(total=1), k > 0))
        if st[0] == "budget":
            return
        if st[0] != "ok":
            raise st[1]
        if not finite(t.m):
            return
        ref.append(params(t.m))
    faults = {f[0]: f[1:] for f in plan["faults"]}
    pos, exact = 0, True
    for k, part in enumerate(plan["parts"]):
        st = s.step(fit_op(plan, part, k > 0), faults.get(k))
        if st[0] == "budget":
            return
        if st[0] == "exc":
            raise st[1]
        pos += part["total"]
        if st[0] == "fault":
            exact = False
        if exact and params(s.m) != ref[pos - 1]:
            raise Violation("variational", "%s: after %d iterations in pieces "
                            "%s the parameters differ from those after as many "
                            "single ones: %s" % (
                                ctx, pos, [p["total"] for p in
                                           plan["parts"][:k + 1]],
                                mix.first_diff(ref[pos - 1], params(s.m))))
        out.log.append([st[0], params(s.m)])
        for q in part["q"]:
            if s.m.var_fitted:
                s.step(q)
        other(s, part, out)
        out.stats["probe:variational pieces"] += 1
    if exact:
        a, b = answers(s, plan["qs"]), answers(t, plan["qs"])
        if a != b:
            raise Violation("variational", "%s: the answers differ: %s"
                            % (ctx, mix.first_diff(b, a)))
    # one fit with a tolerance stops at one of those iterations, and only a
    # fit that used all its iterations stops without convergence
    if plan["tol"] is not None and plan["tol"] > 0 and not plan["faults"]:
        x = mix.Session(plan["spec"], plan["data"], plan["seed"])
        op = fit_op(plan, dict(total=T), False)
        op[2]["tol"] = plan["tol"]
        st = x.step(op)
        if st[0] != "ok":
            raise st[1]
        x_p = params(x.m)
        at = [i for i, p in enumerate(ref) if p == x_p]
        if not at:
            raise Violation("variational", "%s: the fit with tolerance %g "
                            "ended in a state no iteration reaches"
                            % (ctx, plan["tol"]))
        if not x.m.var_converged and at[-1] != T - 1:
            raise Violation("variational", "%s: the fit with tolerance %g "
                            "stopped after %d of %d iterations without "
                            "convergence" % (ctx, plan["tol"], at[-1] + 1, T))
        out.stats["probe:tolerance fits converged=%s"
                  % x.m.var_converged] += 1
