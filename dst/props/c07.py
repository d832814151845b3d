"""C07: every saved Gibbs draw is complete, coherent and counted once."""
import numpy as np

from .. import mix
from .. import weights as W
from ..core import digest
from ..runner import Violation

ID = "C07"
COUNT = {"quick": 1500, "thorough": 12000}
RULE = ("a run drives one mixture model through 1-5 cold and warm Gibbs fits, "
        "queries and weight-model calls, some interrupted at a chosen library "
        "line or with a chosen library-to-numpy call failing, and checks every "
        "saved draw after every operation; non-trivial when at least one draw "
        "was saved; distinct by (specification, operations, faults)")
REAL = ["pyrichlet.mixture_models", "pyrichlet.weight_models", "numpy Generator",
        "scipy", "sklearn KMeans"]
STUB = ["bit generator (simulator-owned words)"]
ASSUMPTIONS = ["one fault per operation; interrupts land on outgoing calls, in the thorough tier also between library lines",
               "tolerance 1e-9 on slice comparisons"]


def gen(r, i, tier):
    spec = mix.gen_model(r, [mix.ALL[i % len(mix.ALL)]])
    data = [mix.gen_data(r)]
    if r.random() < .3:
        data.append(mix.gen_data(r, dim=len(data[0][0])
                                 if r.random() < .6 else None))
    same_dim = len({len(d[0]) for d in data}) == 1
    spec["priors"] = mix.gen_priors(r, len(data[0][0])) if same_dim else {}
    ops, faults, cur = [], [], None
    for k in range(r.choice([1, 2, 3, 5])):
        u = r.random()
        if cur is None or u < .3:
            cur = r.randrange(len(data))
            ops.append(mix.gen_fit(r, spec, 0, data=cur))
        elif u < .75:
            ops.append(mix.gen_fit(r, spec, 0, warm=True, data=cur))
        elif u < .9:
            ops.append(mix.gen_query(r, mix.GQ, len(data[cur][0])))
        else:
            ops.append(["wm", r.choice([["complete", 4], ["tail", .9],
                                        ["assign", 3]])])
        if r.random() < .35:
            faults.append([k] + mix.gen_fault(r))
    plan = dict(spec=spec, data=data, ops=ops, faults=faults)
    if r.random() < .2:
        # legal but rare random words, anywhere in the first two thousand
        # (not the word of zeros: numpy's gamma variates of small shape are
        # then exactly 0, and a covariance infinite)
        plan["extremes"] = W.gen_extremes(r, r.choice([60, 400, 2000]), False,
                                          (2, 10, 40))
    return plan


def check_draws(m, y, ctx):
    n, dim = y.shape
    ps = m.get_sim_params()
    S = len(ps)
    if not (m.total_saved_steps == S == len(m.get_n_groups())
            == len(m.get_n_theta())):
        raise Violation("counts", "%s: %d draws, %d counted, %d group counts, "
                        "%d atom counts" % (ctx, S, m.total_saved_steps,
                                            len(m.get_n_groups()),
                                            len(m.get_n_theta())))
    for i, p in enumerate(ps):
        c = "%s, draw %d of %d" % (ctx, i, S)
        w, u, d, th = (np.asarray(p["w"], float), np.asarray(p["u"], float),
                       np.asarray(p["d"]), p["theta"])
        if d.shape != (n,) or u.shape != (n,):
            raise Violation("shape", "%s: %r labels and %r slices for %d "
                            "observations" % (c, d.shape, u.shape, n))
        if d.dtype.kind not in "iu" or d.min() < 0 or d.max() >= len(w):
            raise Violation("label", "%s: labels %r with %d weights"
                            % (c, sorted(set(d.tolist())), len(w)))
        if not np.all(np.isfinite(w)) or w.min() < 0 or w.sum() > 1 + 1e-9:
            raise Violation("weights", "%s: weights %r" % (c, w))
        if not np.all(u > 0) or not np.all(w[d] > u - 1e-9):
            k = int(np.argmin(w[d] - u))
            raise Violation("slice", "%s: observation %d sits in a component "
                            "of weight %g below its slice %g"
                            % (c, k, w[d][k], u[k]))
        if 1 - w.sum() > u.min() + 1e-9:
            raise Violation("tail", "%s: %g of weight left out, smallest slice "
                            "%g" % (c, 1 - w.sum(), u.min()))
        for j in range(len(w)):
            if j not in th:
                raise Violation("atom", "%s: component %d of %d has no "
                                "parameters" % (c, j, len(w)))
        for j, t in th.items():
            mu, sg = np.asarray(t[0]), np.asarray(t[1])
            if mu.shape != (dim,) or sg.shape != (dim, dim):
                raise Violation("atom", "%s: component %r has mean %r and "
                                "covariance %r in dimension %d"
                                % (c, j, mu.shape, sg.shape, dim))
            if not (np.all(np.isfinite(mu)) and np.all(np.isfinite(sg))):
                raise Violation("atom", "%s: component %r is not finite"
                                % (c, j))
            big = np.abs(sg).max()
            if np.abs(sg - sg.T).max() > 1e-9 * big or \
                    np.linalg.eigvalsh(sg).min() < -1e-9 * big or big <= 0 \
                    or np.diag(sg).min() <= 0:
                raise Violation("atom", "%s: covariance of component %r is "
                                "not symmetric positive-definite: %r"
                                % (c, j, sg.tolist()))
        if m.get_n_groups()[i] != len(np.unique(d)):
            raise Violation("counts", "%s: %d groups reported, %d present"
                            % (c, m.get_n_groups()[i], len(np.unique(d))))
        if m.get_n_theta()[i] != len(th):
            raise Violation("counts", "%s: %d atoms reported, %d present"
                            % (c, m.get_n_theta()[i], len(th)))
    return S


def run(plan, out):
    ext = plan.get("extremes") or {}
    s = mix.Session(plan["spec"], plan["data"], plan["seed"], ext)
    m = s.m
    faults = {f[0]: f[1:] for f in plan["faults"]}
    cur, base, alive, draws = None, 0, False, 0
    for k, op in enumerate(plan["ops"]):
        if op[0] == "wm" and m.weight_model.get_size() == 0:
            continue
        warm = op[0] == "fit" and op[2].get("warm")
        if warm and alive and op[1] != cur:
            continue               # the fit on this data never began
        before, old = m.total_saved_steps, mix.gibbs_draws(m)
        st = s.step(op, faults.get(k))
        ctx = "%s %s, op %d %s" % (plan["spec"]["model"], plan["spec"]["kw"],
                                   k, op[0] + ("+" if warm else ""))
        if st[0] == "budget":
            break
        if op[0] != "fit":
            if m.total_saved_steps != before:
                raise Violation("counts", "%s: saved draws went from %d to %d"
                                % (ctx, before, m.total_saved_steps))
            if cur is not None and alive:
                check_draws(m, s.datas[cur], ctx)
            continue
        o = op[2]
        per = -(-(o["total"] - o["burn"]) // o["sub"])
        if st[0] == "exc":
            if warm and not alive:
                continue           # nothing to continue from: refused
            raise Violation("raises", "%s: %s: %s" % (
                ctx, type(st[1]).__name__, st[1]))
        S = m.total_saved_steps
        if warm:
            if st[0] == "ok" and S != before + per:
                raise Violation("counts", "%s: %d draws after %d more periods "
                                "on %d" % (ctx, S, per, before))
            if not before <= S <= before + per:
                raise Violation("counts", "%s: %d draws after at most %d more "
                                "on %d" % (ctx, S, per, before))
            alive = alive or st[0] == "ok"
        else:
            if st[0] == "ok" and S != per:
                raise Violation("counts", "%s: %d draws after %d periods"
                                % (ctx, S, per))
            if st[0] != "ok" and not m.gibbs_fitted and (
                    not S or mix.gibbs_draws(m) == old):
                # refused from here on; nothing new was saved
                alive = False
                cur = op[1]
                out.log.append(st[0])
                continue
            if st[0] != "ok" and m.gibbs_fitted:
                # the fit never began: what was there must still be coherent
                if cur is not None:
                    check_draws(m, s.datas[cur], ctx)
                continue
            if S > per:
                raise Violation("counts", "%s: %d draws after at most %d "
                                "periods" % (ctx, S, per))
            alive = True
        cur = op[1]
        draws += check_draws(m, s.datas[cur], ctx)
        out.log.append([st[0], mix.gibbs_state(m)])
        out.stats["probe:%s %s" % ("warm fit" if warm else "cold fit",
                                   st[0])] += 1
    mix.count_faults(out, s.fired)
    if s.bits.fired:
        out.stats["fault:rare-random-word"] += s.bits.fired
    out.steps = s.lines
    out.stats["probe:draws checked"] += draws
    out.stats["model:" + plan["spec"]["model"]] += 1
    out.nontrivial = draws > 0
    out.sig = digest([plan["spec"], plan["ops"], plan["faults"]])
    if plan["index"] < 3:
        out.sample = dict(spec=plan["spec"], ops=plan["ops"],
                          faults=plan["faults"], draws=draws)
