"""C15: posterior summaries equal their definition over the saved draws."""
import numpy as np

from .. import mix
from .. import oracle as O
from ..core import digest
from ..runner import Violation

ID = "C15"
COUNT = {"quick": 1600, "thorough": 25000}
RULE = ("a run drives one mixture model through cold, warm, failing and "
        "interrupted Gibbs fits, variational fits and weight-model calls and, "
        "at chosen moments, recomputes densities (joint, marginal, per "
        "component, last periods), affinities and clusterings from the saved "
        "draws with independent formulas; non-trivial when a summary was "
        "compared; distinct by (specification, operations, faults)")
REAL = ["pyrichlet.mixture_models", "pyrichlet.weight_models", "numpy", "scipy",
        "sklearn"]
STUB = ["bit generator (simulator-owned words)"]
ASSUMPTIONS = ["relative tolerance 1e-6; covariances singular in double "
               "precision and points with tied components are not judged"]


def gen(r, i, tier):
    spec = mix.gen_model(r, [mix.ALL[i % len(mix.ALL)]])
    data = [mix.gen_data(r)]
    dim = len(data[0][0])
    if r.random() < .4:
        data.append(mix.gen_data(r, dim=dim if r.random() < .7 else None))
    same = len({len(d[0]) for d in data}) == 1
    spec["priors"] = mix.gen_priors(r, dim) if same else {}
    cur, ops = 0, []
    for k in range(r.choice([1, 2, 3, 5])):
        u = r.random()
        if k == 0 or u < .25:
            cur = r.randrange(len(data))
            ops.append(mix.gen_fit(r, spec, 0, data=cur))
        elif u < .75:
            ops.append(mix.gen_fit(r, spec, 0, warm=True, data=cur))
        elif u < .9 and spec["model"] in mix.VAR:
            ops.append(mix.gen_varfit(r, spec, data=r.randrange(len(data))))
        else:
            ops.append(["wm", r.choice([["complete", 4], ["tail", .9],
                                        ["assign", 3]])])
        d = len(data[cur][0])
        for _ in range(r.choice([0, 1, 2]) if k else 2):
            q = mix.gen_query(r, mix.GQ, d)
            if "component" in q[3]:
                q[3]["component"] = r.randrange(5)
            ops.append(q)
    faults = [[k] + mix.gen_fault(r) for k in range(len(ops))
              if ops[k][0] in ("fit", "varfit") and r.random() < .25]
    return dict(spec=spec, data=data, ops=ops, faults=faults)


def judge(s, q, y, ctx, out):
    m = s.m
    ps = m.get_sim_params()
    if not ps:
        return
    if "component" in q[3]:
        # a component every draw has
        k = min(len(p["w"]) for p in ps + [m.map_sim_params])
        q = [q[0], q[1], q[2], dict(q[3], component=q[3]["component"] % k)]
    name, pts, kw = q[1], q[2], q[3]
    st = s.step(q)
    if st[0] == "budget":
        return
    c = "%s: %s(%s, %s)" % (ctx, name, pts, kw)
    if st[0] != "ok":
        raise Violation("raises", "%s %s" % (c, mix.say(st)))
    v = st[1]
    if "density" in name:
        yy = O.points(pts, y, kw.get("dim"))
        if name == "gibbs_map_density":
            use = [m.map_sim_params]
        else:
            n = kw.get("periods")
            use = ps if n is None else ps[-min(n, len(ps)):]
        if any(O.degenerate(p["theta"], range(len(p["w"]))) for p in use):
            out.stats["probe:degenerate skipped"] += 1
            return
        e = np.mean([O.mixture(yy, p["w"], p["theta"], kw.get("dim"),
                               kw.get("component")) for p in use], axis=0)
        if not O.close(v, e, 1e-6, 1e-12):
            raise Violation("density", "%s gives %s, the average over %d draws "
                            "is %s" % (c, np.ravel(v)[:5], len(use), e[:5]))
    elif name == "gibbs_map_cluster":
        p = m.map_sim_params
        yy = O.points(pts, y, None)
        if O.degenerate(p["theta"], range(len(p["w"]))):
            return
        g, pr, mg = O.most_likely(yy, p["w"], p["theta"])
        if mg.min() < 1e-6:
            return
        got = v[0] if kw.get("full") else v
        if not np.array_equal(np.asarray(got), O.relabel(g)):
            raise Violation("cluster", "%s gives %s, the most probable "
                            "components are %s" % (c, np.asarray(got), g))
        if kw.get("full") and not O.close(v[1], 1 - pr, 1e-6, 1e-7):
            raise Violation("cluster", "%s has uncertainties %s, expected %s"
                            % (c, v[1], 1 - pr))
    elif name == "gibbs_eap_affinity_matrix":
        a = affinity(ps, pts, y)
        v = np.asarray(v)
        n = len(y if pts is None else pts)
        if v.shape != (n, n) or np.abs(v - v.T).max() > 0 or \
                np.abs(np.diag(v) - 1).max() > 1e-12:
            raise Violation("affinity", "%s is not a symmetric matrix with "
                            "unit diagonal: %s" % (c, v.tolist()))
        if a is not None and np.abs(v - a).max() > 1e-9:
            raise Violation("affinity", "%s is %s, over %d draws %s"
                            % (c, v[0], len(ps), a[0]))
    else:
        k = kw["n_clusters"]
        n = len(y if pts is None else pts)
        v = np.asarray(v)
        if v.shape != (n,) or v.min() < 0 or v.max() >= k:
            raise Violation("spectral", "%s gives %s" % (c, v))
        a = affinity(ps, pts, y)
        if a is not None and k > 1 and np.all((a < 1e-9) | (a > 1 - 1e-9)):
            g = a.argmax(axis=1)
            if len(np.unique(g)) == k:
                out.stats["probe:exact consensus"] += 1
                if not O.same_partition(v, g):
                    raise Violation("spectral", "%s gives %s where every draw "
                                    "groups as %s" % (c, v, g))
    out.stats["probe:" + name] += 1


def affinity(ps, pts, y):
    a = 0
    for p in ps:
        if pts is None:
            g = np.asarray(p["d"])
        else:
            if O.degenerate(p["theta"], range(len(p["w"]))):
                return None
            g, _, mg = O.most_likely(O.points(pts, y, None), p["w"],
                                     p["theta"])
            if mg.min() < 1e-6:
                return None
        a = a + np.equal.outer(g, g).astype(float)
    return a / len(ps)


def run(plan, out):
    s = mix.Session(plan["spec"], plan["data"], plan["seed"])
    m = s.m
    faults = {f[0]: f[1:] for f in plan["faults"]}
    cur, n = None, 0
    for k, op in enumerate(plan["ops"]):
        ctx = "%s %s, op %d" % (plan["spec"]["model"], plan["spec"]["kw"], k)
        if op[0] == "q":
            if m.gibbs_fitted and cur is not None:
                judge(s, op, s.datas[cur], ctx, out)
                n += 1
            continue
        if op[0] == "wm" and m.weight_model.get_size() == 0:
            continue
        was = m.gibbs_fitted
        if op[0] == "fit" and op[2].get("warm") and was and op[1] != cur:
            continue               # the cold fit on this data never began
        st = s.step(op, faults.get(k))
        if st[0] == "budget":
            return
        if op[0] == "fit":
            warm = op[2].get("warm")
            if st[0] == "exc":
                if warm and not was:
                    continue
                raise st[1]
            if st[0] == "ok" or warm:
                if was or st[0] == "ok":
                    cur = op[1]
            elif not m.gibbs_fitted:
                cur = None
        out.log.append([st[0], m.total_saved_steps])
    mix.count_faults(out, s.fired)
    out.steps = s.lines
    out.stats["model:" + plan["spec"]["model"]] += 1
    out.nontrivial = n > 0
    out.sig = digest([plan["spec"], plan["ops"], plan["faults"]])
    if plan["index"] < 3:
        out.sample = dict(spec=plan["spec"], ops=plan["ops"],
                          faults=plan["faults"])
