"""C16: a fit that did not complete never passes for a fitted model."""
import numpy as np

from .. import core, mix
from ..core import digest, freeze
from ..runner import Violation

ID = "C16"
COUNT = {"quick": 1600, "thorough": 25000}
RULE = ("a run gives a mixture model completed, interrupted, failing and "
        "invalid cold and warm fits by both methods on several data sets; "
        "before and after each, all queries of both methods are asked: a method "
        "never fitted must refuse, after a fit that did not complete each answer "
        "is a refusal or the old one, a fit by one method leaves the answers of "
        "the other; convergence flags are compared with refits under every "
        "smaller iteration limit; non-trivial when a fit failed or convergence "
        "was judged; distinct by (specification, operations, faults)")
REAL = ["pyrichlet.mixture_models", "pyrichlet.weight_models", "numpy", "scipy",
        "sklearn"]
STUB = ["bit generator (simulator-owned words)"]
ASSUMPTIONS = ["one fault per operation; interrupts land on outgoing calls, in the thorough tier also between library lines",
               "a cold Gibbs fit initialized variationally replaces the "
               "variational fit"]


def gen(r, i, tier):
    spec = mix.gen_model(r, [mix.ALL[i % len(mix.ALL)]])
    data = [mix.gen_data(r)]
    dim = len(data[0][0])
    same = r.random() < .6
    data.append(mix.gen_data(r, dim=dim if same else None))
    spec["priors"] = mix.gen_priors(r, dim) if same else {}
    can = spec["model"] in mix.VAR
    ops, dg, dv = [], None, None
    for k in range(r.choice([1, 2, 3, 4])):
        u = r.random()
        x = r.randrange(2)
        if u < .15:
            ops.append(["badfit", r.choice(["g", "v"]) if can else "g",
                        r.choice(["nan", "type", "method", "text", "groups",
                                  "dims"]), x])
        elif u < .45 or not can:
            if dg is not None and r.random() < .3:
                ops.append(mix.gen_fit(r, spec, 0, warm=True, data=dg))
            else:
                ops.append(mix.gen_fit(r, spec, 0, data=x))
                dg = x
        else:
            if dv is not None and r.random() < .3:
                o = mix.gen_varfit(r, spec, warm=True, data=dv)
            else:
                o = mix.gen_varfit(r, spec, data=x)
                dv = x
            o[2]["tol"] = r.choice([-1, 1e-8, 1e-3, 1.0, 10.0])
            o[2]["total"] = r.choice([1, 2, 4, 8, 15])
            ops.append(o)
    return dict(spec=spec, data=data, ops=ops,
                faults=[[k] + mix.gen_fault(r) for k in range(len(ops))
                        if ops[k][0] != "badfit" and r.random() < .5],
                pts=[[round(r.gauss(0, 4), 2) for _ in range(3)]
                     for _ in range(3)])


def queries(m, pre, pts, dim):
    yy = [p[:dim] for p in pts]
    q = []
    for name in (mix.GQ if pre == "gibbs" else mix.VQ):
        kw = {"n_clusters": 2} if "spectral" in name else \
            {"full": True} if name.endswith("map_cluster") else {}
        q.append(["q", name, None, kw])
        if "spectral" not in name:
            q.append(["q", name, yy, kw])
    return q


def ask(s, pre, pts, dim):
    res = []
    for q in queries(s.m, pre, pts, dim):
        st = s.step(q)
        res.append((q[1], freeze(st[1]) if st[0] == "ok"
                    else type(st[1]).__name__))
    return res


def badfit(m, how, kind, data):
    y = np.array(data, dtype=float)
    kw = {}
    if kind == "nan":
        y[0, 0] = np.nan
    elif kind == "type":
        y = 5
    elif kind == "text":
        y = [["a"] * y.shape[1]] * 4
    elif kind == "method":
        kw["init_method"] = "none"
    elif kind == "groups":
        kw["init_groups" if how == "g" else "n_groups"] = -1
    elif kind == "dims":
        y = y.reshape(1, *y.shape)
    mix.settings(m, 3, 0, 1)
    if how == "g":
        m.fit_gibbs(y, **kw)
    else:
        if how == "v" and kind != "groups" and not hasattr(m, "n"):
            kw["n_groups"] = 2
        m.fit_variational(y, **kw)


def refused(ans):
    return all(v == "NotFittedError" for _, v in ans)


def run(plan, out):
    s = mix.Session(plan["spec"], plan["data"], plan["seed"])
    m = s.m
    faults = {f[0]: f[1:] for f in plan["faults"]}
    name = "%s %s" % (plan["spec"]["model"], plan["spec"]["kw"])
    can = plan["spec"]["model"] in mix.VAR
    dims = [d.shape[1] for d in s.datas]
    dim = {"gibbs": dims[0], "var": dims[0]}
    fitted = {"gibbs": False, "var": False}
    chain = vchain = None
    fails = judged = 0
    for k, op in enumerate(plan["ops"]):
        mine, their = ("gibbs", "var") if op[0] == "fit" or op[1] == "g" \
            else ("var", "gibbs")
        warm = op[0] in ("fit", "varfit") and op[2].get("warm")
        if warm and mine == "gibbs" and m.gibbs_fitted and chain != op[1]:
            continue
        if warm and mine == "var" and (not m.var_fitted or vchain != op[1]):
            continue
        pre = {x: ask(s, x, plan["pts"], dim[x]) for x in dim}
        for x in dim:
            if not fitted[x] and not refused(pre[x]):
                raise Violation("unfitted", "%s: %s answers although no fit "
                                "ever completed" % (name, [
                                    a for a, v in pre[x]
                                    if v != "NotFittedError"]))
        conv = m.var_converged
        if op[0] == "badfit":
            a = core.Arena(budget=s.budget)
            try:
                with a:
                    badfit(m, op[1], op[2], s.datas[op[3]])
                st = ("ok", None)
            except Exception as e:
                st = ("exc", e)
        else:
            st = s.step(op, faults.get(k))
        if st[0] == "budget":
            return
        lines, word = s.arena.lines, getattr(s, "n_before", 0)
        ctx = "%s: %s %s" % (name, op[:3], mix.say(st))
        if op[0] == "badfit" and st[0] == "ok":
            return            # accepted after all: nothing to say about it
        if op[0] == "fit" and st[0] == "ok" and not warm:
            chain = op[1]
        if op[0] == "varfit":
            vchain = op[1] if st[0] == "ok" else None
        elif op[0] == "fit" and op[2].get("init_method") == "variational":
            vchain = None
        if st[0] == "ok":
            x = op[1]
            fitted[mine] = True
            dim[mine] = dims[x]
            replaced = op[0] == "fit" and \
                op[2].get("init_method") == "variational"
            if replaced:
                fitted["var"] = True
                dim["var"] = dims[x]
            now = ask(s, mine, plan["pts"], dim[mine])
            for a, v in now:
                if v == "NotFittedError":
                    raise Violation("refused", "%s, but %s is refused"
                                    % (ctx, a))
        else:
            fails += 1
            if st[0] == "exc" and op[0] != "badfit" and not (
                    warm and not pre_fitted(pre[mine])):
                raise st[1]
            replaced = (op[0] == "fit" and not warm and can and
                        op[2].get("init_method") == "variational")
            now = ask(s, mine, plan["pts"], dim[mine])
            if mine == "gibbs" and warm:
                pass
            else:
                for (a, v), (_, w) in zip(now, pre[mine]):
                    if v != "NotFittedError" and v != w:
                        raise Violation("half-fitted", "%s; afterwards %s "
                                        "answers something new: %s vs %s"
                                        % (ctx, a, mix.short(v),
                                           mix.short(w)))
            if mine == "var" and m.var_converged and not (
                    conv and now == pre["var"]) and not may_converge(
                        plan, op, warm, lines, word):
                raise Violation("converged", "%s; afterwards the fit is "
                                "reported as converged" % ctx)
            out.stats["probe:failed fits judged"] += 1
        if not replaced:
            after = ask(s, their, plan["pts"], dim[their])
            if after != pre[their]:
                bad = [a for (a, v), (_, w) in zip(after, pre[their])
                       if v != w]
                raise Violation("cross", "%s; the answers of the other method "
                                "changed: %s" % (ctx, bad))
            out.stats["probe:other method compared"] += 1
        elif st[0] != "ok":
            # the variational fit in it may be complete or not
            if fitted["var"] is False and m.var_fitted:
                fitted["var"], dim["var"] = True, dims[op[1]]
            elif m.var_fitted:
                a = ask(s, "var", plan["pts"], dim["var"])
                if a != pre["var"]:
                    dim["var"] = dims[op[1]]
        out.log.append([op[0], st[0], now])
        if op[0] == "varfit" and st[0] == "ok" and not warm:
            converge(plan, op, k, m, name, out, s.n_before)
            judged += 1
    mix.count_faults(out, s.fired)
    out.steps += s.lines
    out.stats["model:" + plan["spec"]["model"]] += 1
    out.nontrivial = fails + judged > 0
    out.sig = digest([plan["spec"], plan["ops"], plan["faults"]])
    if plan["index"] < 3:
        out.sample = dict(spec=plan["spec"], ops=plan["ops"],
                          faults=plan["faults"])


def may_converge(plan, op, warm, lines, word):
    """Could the interrupted run itself have met the tolerance?"""
    if op[0] != "varfit" or warm:
        return op[0] == "varfit" and lines > 60
    t = mix.Session(plan["spec"], plan["data"], plan["seed"])
    t.bits.n = word
    return t.step(op)[0] == "ok" and bool(t.m.var_converged)


def pre_fitted(ans):
    return not refused(ans)


def finite(m):
    return bool(np.all(np.isfinite(m.var_d)) and all(
        np.all(np.isfinite(np.asarray(x, float))) for th in m.var_theta
        for x in th))


def params(m):
    return freeze([m.var_k, m.var_d, [list(x) for x in m.var_theta]])


def converge(plan, op, k, m, name, out, word):
    """A new model with every smaller limit: converged from one limit on, with
    the same result; never before."""
    T = op[2]["total"]
    if m.var_converged and not finite(m):
        raise Violation("converged", "%s: converged to parameters that are not "
                        "finite" % name)
    if m.var_converged and (T == 1 or op[2]["tol"] < 0):
        raise Violation("converged", "%s: converged after %d iterations with "
                        "tolerance %g" % (name, T, op[2]["tol"]))
    if T > 8:
        return
    seen = []
    for n in range(1, T + 1):
        t = mix.Session(plan["spec"], plan["data"], plan["seed"])
        t.bits.n = word
        st = t.step([op[0], op[1], dict(op[2], total=n)])
        if st[0] != "ok":
            return
        out.steps += t.lines
        seen.append((bool(t.m.var_converged), params(t.m)))
    flags = [f for f, _ in seen]
    if flags != sorted(flags):
        raise Violation("converged", "%s: convergence by iteration limit 1.. "
                        "is %s" % (name, flags))
    if True in flags:
        j = flags.index(True)
        if any(p != seen[j][1] for f, p in seen[j:]):
            raise Violation("converged", "%s: converged within %d iterations "
                            "but a larger limit gives another result"
                            % (name, j + 1))
        if any(p == seen[j][1] for f, p in seen[:j]) and len(
                {p for f, p in seen[:j]}) == j and j > 0 and \
                seen[j - 1][1] == seen[j][1]:
            out.stats["probe:fixed point"] += 1
    if bool(m.var_converged) != flags[-1] or params(m) != seen[-1][1]:
        raise Violation("converged", "%s: after other fits the flag is %s and "
                        "for a new model %s" % (name, m.var_converged,
                                                flags[-1]))
    out.stats["probe:convergence limits"] += T
