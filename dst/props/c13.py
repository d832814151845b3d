"""C13: the MAP draw is the most likely state visited since the cold start."""
import numpy as np

from .. import mix
from .. import oracle as O
from ..core import digest
from ..runner import Violation

ID = "C13"
COUNT = {"quick": 1600, "thorough": 25000}
RULE = ("a run drives one mixture model through cold and warm Gibbs fits (some "
        "interrupted or failing), queries and weight-model calls and, after "
        "every operation, recomputes the likelihood of the reported MAP state "
        "and of every saved draw from the data, and answers the MAP queries "
        "from that state; a twin saving every iteration of the first fit gives "
        "the visited states; non-trivial when a MAP state was judged; distinct "
        "by (specification, operations, faults)")
REAL = ["pyrichlet.mixture_models", "pyrichlet.weight_models", "numpy", "scipy",
        "sklearn"]
STUB = ["bit generator (simulator-owned words)"]
ASSUMPTIONS = ["likelihoods compared with relative tolerance 1e-6; runs whose "
               "covariances are singular in double precision are not judged",
               "the initial state may be the most likely one: it is judged by "
               "its likelihood only"]


def gen(r, i, tier):
    spec = mix.gen_model(r, [mix.ALL[i % len(mix.ALL)]])
    data = [mix.gen_data(r)]
    dim = len(data[0][0])
    if r.random() < .4:
        data.append(mix.gen_data(r, dim=dim))
    spec["priors"] = mix.gen_priors(r, dim)
    cur = 0
    ops = [mix.gen_fit(r, spec, 0, data=0)]
    for k in range(r.choice([0, 1, 2, 4])):
        u = r.random()
        if u < .2:
            cur = r.randrange(len(data))
            ops.append(mix.gen_fit(r, spec, 0, data=cur))
        elif u < .7:
            ops.append(mix.gen_fit(r, spec, 0, warm=True, data=cur))
        elif u < .85:
            ops.append(mix.gen_query(r, mix.GQ, dim))
        elif u < .93 and spec["model"] in mix.VAR:
            ops.append(mix.gen_varfit(r, spec, data=r.randrange(len(data))))
        else:
            ops.append(["wm", r.choice([["complete", 4], ["tail", .9],
                                        ["assign", 3]])])
    qs = [mix.gen_query(r, ["gibbs_map_density", "gibbs_map_cluster"], dim)
          for _ in range(3)]
    return dict(spec=spec, data=data, ops=ops, qs=qs,
                faults=[[k] + mix.gen_fault(r) for k in range(len(ops))
                        if r.random() < .25])


def tol(x):
    return 1e-6 * max(1.0, abs(x))


def judge(s, y, qs, ctx, out):
    m = s.m
    p = m.map_sim_params
    if p is None:
        raise Violation("missing", "%s: no MAP state is reported" % ctx)
    w, th, d = p["w"], p["theta"], np.asarray(p["d"])
    if d.shape != (len(y),):
        raise Violation("other-data", "%s: the MAP state labels %r of %d "
                        "observations" % (ctx, d.shape, len(y)))
    if any(j not in th for j in range(len(w))) or d.max() >= len(w):
        raise Violation("incomplete", "%s: the MAP state has %d weights and "
                        "parameters of %r" % (ctx, len(w), sorted(th)))
    js = set(np.unique(d).tolist())
    for q in m.get_sim_params():
        js_q = np.unique(q["d"])
        if O.degenerate(q["theta"], js_q):
            return False
    if O.degenerate(th, js):
        return False
    ll = O.state_ll(p, y)
    if not abs(ll - m.map_log_likelihood) <= tol(ll):
        raise Violation("likelihood", "%s: the MAP state has log-likelihood "
                        "%.9g, reported %.9g" % (ctx, ll,
                                                 m.map_log_likelihood))
    for i, q in enumerate(m.get_sim_params()):
        v = O.state_ll(q, y)
        if v > ll + tol(ll):
            raise Violation("not-max", "%s: saved draw %d has log-likelihood "
                            "%.9g, the MAP state %.9g" % (ctx, i, v, ll))
    # queries use exactly that state
    sing = O.degenerate(th, range(len(w)))
    for q in qs:
        if "component" in q[3]:
            q = [q[0], q[1], q[2],
                 dict(q[3], component=q[3]["component"] % len(w))]
        st = s.step(q)
        if st[0] != "ok":
            raise Violation("query", "%s: %s(%s, %s) %s" % (
                ctx, q[1], q[2], q[3], mix.say(st)))
        if sing:
            continue
        kw = q[3]
        yy = O.points(q[2], y, kw.get("dim"))
        if q[1] == "gibbs_map_density":
            e = O.mixture(yy, w, th, kw.get("dim"), kw.get("component"))
            if not O.close(st[1], e, 1e-6, 1e-12):
                raise Violation("density", "%s: MAP density %s, of the MAP "
                                "state %s" % (ctx, np.ravel(st[1])[:4],
                                              e[:4]))
        else:
            g, pr, mg = O.most_likely(yy, w, th)
            if mg.min() < 1e-6:
                continue
            got = st[1][0] if kw.get("full") else st[1]
            if not np.array_equal(np.asarray(got), O.relabel(g)):
                raise Violation("cluster", "%s: MAP clusters %s, most probable "
                                "components %s" % (ctx, np.asarray(got), g))
            if kw.get("full") and not O.close(st[1][1], 1 - pr, 1e-6, 1e-7):
                raise Violation("cluster", "%s: uncertainties %s, expected %s"
                                % (ctx, st[1][1], 1 - pr))
        out.stats["probe:MAP queries"] += 1
    return True


def run(plan, out):
    s = mix.Session(plan["spec"], plan["data"], plan["seed"])
    m = s.m
    faults = {f[0]: f[1:] for f in plan["faults"]}
    cur, judged, best = None, 0, None
    for k, op in enumerate(plan["ops"]):
        ctx = "%s %s, op %d %s" % (plan["spec"]["model"], plan["spec"]["kw"],
                                   k, op[0])
        if op[0] == "wm" and m.weight_model.get_size() == 0:
            continue
        warm = op[0] == "fit" and op[2].get("warm")
        was = m.gibbs_fitted
        if warm and was and op[1] != cur:
            continue               # the cold fit on this data never began
        st = s.step(op, faults.get(k))
        if st[0] == "budget":
            return
        if op[0] == "fit":
            if st[0] == "exc":
                if warm and not was:
                    continue
                raise st[1]
            if not warm and st[0] == "fault" and m.gibbs_fitted:
                pass               # interrupted before anything was replaced
            else:
                cur = op[1]
                if not warm:
                    best = None
        if not m.gibbs_fitted or cur is None:
            out.log.append(st[0])
            continue
        if warm and st[0] == "fault" and not was:
            continue
        if not judge(s, s.datas[cur], plan["qs"], ctx, out):
            out.stats["probe:degenerate state"] += 1
            return
        if best is not None and m.map_log_likelihood < best:
            raise Violation("lower", "%s: the MAP log-likelihood fell from "
                            "%.9g to %.9g without a cold fit"
                            % (ctx, best, m.map_log_likelihood))
        best = m.map_log_likelihood
        judged += 1
        out.log.append([st[0], m.map_log_likelihood])
    ops = plan["ops"]
    if ops and ops[0][0] == "fit" and not ops[0][2].get("warm") \
            and 0 not in faults and ops[0][2]["init_method"] != "variational":
        visited(plan, out)
    mix.count_faults(out, s.fired)
    out.steps += s.lines
    out.stats["model:" + plan["spec"]["model"]] += 1
    out.stats["probe:MAP states judged"] += judged
    out.nontrivial = judged > 0
    out.sig = digest([plan["spec"], plan["ops"], plan["faults"]])
    if plan["index"] < 3:
        out.sample = dict(spec=plan["spec"], ops=plan["ops"],
                          faults=plan["faults"])


def visited(plan, out):
    """The MAP of a fit is the first most likely of all iterations (or the
    initial state)."""
    op = plan["ops"][0]
    a = mix.Session(plan["spec"], plan["data"], plan["seed"])
    b = mix.Session(plan["spec"], plan["data"], plan["seed"])
    if a.step(op)[0] != "ok":
        return
    every = [op[0], op[1], dict(op[2], burn=0, sub=1)]
    if b.step(every)[0] != "ok":
        return
    y = a.datas[op[1]]
    ps = b.m.get_sim_params()
    p = a.m.map_sim_params
    if any(O.degenerate(x["theta"], np.unique(x["d"])) for x in ps + [p]):
        return
    lls = [O.state_ll(x, y) for x in ps]
    mine = O.state_ll(p, y)
    ctx = "%s %s" % (plan["spec"]["model"], plan["spec"]["kw"])
    if mine < max(lls) - tol(mine):
        raise Violation("not-max", "%s: the chain visited a state of "
                        "log-likelihood %.9g, the MAP state has %.9g"
                        % (ctx, max(lls), mine))
    if mine <= max(lls) + tol(mine):
        st = mix.draw_state(p)
        if not any(mix.draw_state(x) == st for x, v in zip(ps, lls)
                   if abs(v - mine) <= tol(mine)):
            raise Violation("not-visited", "%s: the MAP state is none of the "
                            "visited states" % ctx)
    out.steps += a.lines + b.lines
    out.stats["probe:visited states compared"] += len(ps)
