"""C26: a refused request leaves no trace."""
import numpy as np

from .. import core, mix
from .. import weights as W
from ..core import Arena, SimBudget, digest, freeze, sim_rng
from ..runner import Violation
from . import c05

ID = "C26"
COUNT = {"quick": 4000, "thorough": 40000}
RULE = ("a run plays a random history (draws, fits, growth, queries; some "
        "interrupted or with a failing call) on a weight model or a mixture "
        "model, and the same history on the same random words with requests "
        "outside the domain put in between: each of them must be refused, and "
        "every later result, and the number of random words used, must be bit "
        "for bit those of the undisturbed model; non-trivial when a request "
        "was refused and something was compared after it; distinct by "
        "(specification, operations, requests, faults)")
REAL = ["pyrichlet.weight_models (all ten)", "pyrichlet.mixture_models",
        "numpy.random.Generator", "scipy", "sklearn"]
STUB = ["bit generator (simulator-owned words, rewound for the twin)"]
ASSUMPTIONS = ["only requests that the library documents or rejects "
               "explicitly are made: levels outside [0, 1), sizes that are no "
               "integers, draws without size or labels, labels beyond the "
               "dimension of a Dirichlet distribution, variational quantities "
               "before a fit, observations that are no numbers, unknown "
               "methods, settings that leave no iteration to save"]

SIZED = ["DirichletProcess", "BetaInDirichlet"]
LOG = ["DirichletProcess", "PitmanYorProcess", "GeometricProcess",
       "DirichletDistribution", "FrequencyWeighting"]
Y = ["type", "none", "text", "words", "tuple", "dict", "ragged"]


def gen_request(r, spec, fitted, varfitted):
    m = spec["model"]
    pool = [["tail", r.choice([1, 1.0, 1.5, -0.1, -1e-9, 2, 7])]] * 2
    if m not in ("EqualWeighting", "FrequencyWeighting"):
        pool += [["complete", r.choice([2.5, 4.0, "3", [3], 1e-3])]] * 2
    if m in W.INFINITE and not fitted:
        pool += [["random", None]] * 2
    if m in SIZED:
        pool += [["random", r.choice([2.5, "3", [2], 4.0])]]
    if m in W.VARIATIONAL and not varfitted:
        pool += [["var", r.choice(
            ["variational_mean_log_w_j", "variational_mean_log_p_d__w"]
            + (["variational_mean_log_p_w", "variational_mean_log_q_w"]
               if m in LOG else []))]] * 2
    if m == "DirichletDistribution":
        n = spec["kw"]["n"]
        pool += [["varfit", r.choice([max(n - 1, 0), n + 1, n + 4])]]
    pool += [["new", r.choice(
        ["rng", "rng2"]
        + {"PitmanYorProcess": ["alpha"] * 3, "DirichletDistribution": ["n"],
           "BetaInBeta": ["method"] * 3}.get(m, []))]]
    return r.choice(pool)


def gen_weights(r, i, tier):
    spec = W.gen_spec(r, [W.ALL[(i - i // 4) % len(W.ALL)]])
    if r.random() < .1:
        W.widen(r, spec)
    ops, reqs, fitted, var = [], [], False, False
    n = r.choice([2, 4, 7, 10])
    for k in range(n):
        for _ in range(r.choice([0, 0, 1, 1, 2])):
            reqs.append([len(ops), gen_request(r, spec, fitted, var)])
        if spec["model"] == "DirichletDistribution" and r.random() < .2:
            # labels it cannot have: nothing can be drawn until they are gone
            top = spec["kw"]["n"]
            d = [r.randrange(top) for _ in range(r.choice([0, 1, 4]))]
            d += [top + r.choice([0, 0, 1, 5])]
            r.shuffle(d)
            ops.append(["fit", d])
            for _ in range(r.choice([1, 2])):
                reqs.append([len(ops), ["random", r.choice([None, 3])]])
            ops.append(["fit", W.gen_labels(r, spec)])
            fitted = True
            continue
        if spec["model"] in W.VARIATIONAL and r.random() < .1:
            ops.append(["varfit", c05.var_d(r, spec)])
            var = True
            continue
        op = W.gen_op(r, spec, fitted)
        while op[0] == "badtail":
            op = W.gen_op(r, spec, fitted)
        fitted = op[0] == "fit" or (fitted and op[0] != "reset")
        ops.append(op)
    reqs.append([len(ops), gen_request(r, spec, fitted, var)])
    ops += [["complete", 4], ["random", 3], ["assign", 3]]
    return dict(kind="w", spec=spec, ops=ops, requests=reqs,
                faults=W.gen_faults(r, len(ops)) if r.random() < .4 else [])


def gen_mix(r, i, tier):
    spec = mix.gen_model(r, [mix.ALL[(i // 4) % len(mix.ALL)]])
    data = mix.gen_data(r)
    dim = len(data[0])
    spec["priors"] = mix.gen_priors(r, dim)
    can = spec["model"] in mix.VAR
    ops, reqs = [], []
    how = r.choice(["g", "g", "v", "gv"]) if can else "g"

    def request():
        u = r.random()
        if u < .6:
            return ["y", "v" if can and r.random() < .5 else "g",
                    r.choice(Y), r.random() < .5]
        if u < .8:
            return ["ask", r.choice([x[0] for x in QUERIES if can or
                                     x[0].startswith("gibbs")]),
                    r.choice(["type", "text"])]
        return ["new", r.choice(["iter", "iter2", "keyword", "rng"])]

    for _ in range(r.choice([1, 2, 3])):
        for _ in range(r.choice([0, 1, 2])):
            reqs.append([len(ops), request()])
        if "g" in how and (how == "g" or r.random() < .5):
            warm = any(o[0] == "fit" for o in ops) and r.random() < .7
            ops.append(mix.gen_fit(r, spec, 1, warm=warm))
        elif "v" in how:
            warm = any(o[0] == "varfit" for o in ops) and r.random() < .5
            ops.append(mix.gen_varfit(r, spec, warm=warm))
        for _ in range(r.choice([0, 1])):
            reqs.append([len(ops), request()])
    if not any(q[0] for q in reqs):
        reqs.append([len(ops), request()])
    last = r.choice(["g", "v"]) if can else "g"
    return dict(kind="m", spec=spec, data=[data], ops=ops, requests=reqs,
                last=[last, r.choice(["none", "k-means", "", "Random"])])


QUERIES = [["gibbs_eap_density"], ["gibbs_map_density"],
           ["var_eap_density"], ["var_map_density"]]


def gen(r, i, tier):
    return gen_mix(r, i, tier) if i % 4 == 3 else gen_weights(r, i, tier)


REFUSALS = (ValueError, TypeError, AssertionError, AttributeError)


def refuse(f, what, kinds=REFUSALS, long=False):
    """perform a request that must be refused"""
    a = Arena(budget=250000 if long else 60000)
    try:
        with a:
            f()
    except kinds:
        return a.lines
    except SimBudget:
        if long:
            return a.lines       # still initializing
        raise Violation("accepted", "%s: not refused" % what)
    except Exception as e:
        raise Violation("kind", "%s: refused with %s instead of %s" % (
            what, type(e).__name__, "/".join(k.__name__ for k in kinds)))
    raise Violation("accepted", "%s: not refused" % what)


def request_weights(w, spec, q):
    from pyrichlet import weight_models as wm
    from pyrichlet.exceptions import NotFittedError
    what = "%s: request %s" % (spec, q)
    o = q[0]
    if o == "tail":
        return refuse(lambda: w.tail(q[1]), what, (ValueError,))
    if o == "complete":
        return refuse(lambda: w.complete(q[1]), what, (TypeError, ValueError))
    if o == "random":
        return refuse((lambda: w.random()) if q[1] is None else
                      (lambda: w.random(q[1])), what, (TypeError, ValueError))
    if o == "var":
        f = getattr(w, q[1])
        return refuse((lambda: f(0)) if q[1].endswith("_j") else f, what,
                      (NotFittedError,))
    if o == "varfit":
        return refuse(lambda: w.fit_variational(np.ones((q[1], 3))), what)
    kw = dict(spec["kw"], rng=1)
    if q[1] == "rng":
        kw["rng"] = "seed"
    elif q[1] == "rng2":
        kw["rng"] = 1.5
    elif q[1] == "alpha":
        kw["alpha"] = -kw["pyd"]
    elif q[1] == "n":
        kw["n"] = 2.5
    elif q[1] == "method":
        kw["p_method"] = "no such method"
    return refuse(lambda: getattr(wm, spec["model"])(**kw), what)


GETTERS = ["variational_mean_w_j", "variational_mode_w_j",
           "variational_mean_log_w_j", "variational_mean_log_p_d__w",
           "variational_mean_log_p_w", "variational_mean_log_q_w"]


def view(w, spec, whole=True):
    """what the model reports; after an interrupted variational fit (which
    may leave memory it did not write yet) only the weights"""
    res = [freeze(w.get_weights())]
    if spec["model"] in W.VARIATIONAL and whole:
        for name in GETTERS:
            for j in range(3) if name.endswith("_j") else [None]:
                try:
                    with np.errstate(all="ignore"):
                        f = getattr(w, name)
                        v = freeze(f() if j is None else f(j))
                except Exception as e:
                    v = type(e).__name__
                res.append((name, j, v))
    return res


def run_weights(plan, out):
    spec, ops = plan["spec"], plan["ops"]
    u = W.Runner(spec, plan["seed"], None, plan["faults"], 60000)
    res, whole = [], True
    for i, op in enumerate(ops):
        st = u.step(i, op)
        if op[0] == "varfit":
            whole = st[0] == "ok"
        if st[0] == "budget":
            ops = ops[:i]
            break
        res.append((st[0], freeze(st[1]) if st[0] == "ok" else
                    type(st[1]).__name__, view(u.w, spec, whole), u.bits.n))
    g, bits = sim_rng(plan["seed"])
    w = W.build(spec, g)
    reqs = {}
    for k, q in plan["requests"]:
        reqs.setdefault(k, []).append(q)
    # what a request needs to be one outside the domain is checked on the
    # model itself, so that dropped operations cannot turn it into a legal one
    labels = var = False
    n, after, whole = 0, 0, True
    for i in range(len(ops) + 1):
        for q in reqs.get(i, []):
            bad = spec["model"] == "DirichletDistribution" and labels and \
                max(labels) >= spec["kw"]["n"]
            if q == ["random", None] or (q[0] == "random" and
                                         spec["model"] not in SIZED):
                if not bad and (labels is not False or spec["model"] in W.FINITE):
                    continue
            if bad and q[0] not in ("random", "tail", "complete"):
                continue
            if q[0] == "var" and var:
                continue
            old, words = view(w, spec, whole), bits.n
            out.steps += request_weights(w, spec, q)
            n += 1
            new = view(w, spec, whole)
            if new != old or bits.n != words:
                raise Violation("trace", "%s: refused request %s changed what "
                                "the model reports (%s) or used random words "
                                "(%d)" % (spec, q, mix.first_diff(old, new)
                                          if new != old else "no",
                                          bits.n - words))
        if i == len(ops):
            break
        f = u.history[i][1]
        a = Arena(budget=60000, **{k: dict(v) for k, v in f.items()})
        try:
            with a:
                v = W.apply(w, ops[i])
            st = ("ok", freeze(v))
        except core.INJECTED as e:
            st = ("fault", type(e).__name__)
        except Exception as e:
            st = ("exc", type(e).__name__)
        if ops[i][0] == "varfit":
            whole = st[0] == "ok"
        got = st + (view(w, spec, whole), bits.n)
        if got != res[i]:
            raise Violation("trace", "%s: after %d refused requests %s (%s) "
                            "gives %s, without them %s" % (
                                spec, n, ops[i], st[0],
                                c05.show([("ok", 0, got[2][0])], 0),
                                c05.show([("ok", 0, res[i][2][0])], 0)))
        after += n > 0
        if ops[i][0] in ("fit", "reset"):
            labels = None if st[0] != "ok" else \
                list(ops[i][1]) if ops[i][0] == "fit" else False
        elif ops[i][0] == "varfit":
            var = True
    out.stats["probe:requests refused"] += n
    out.stats["probe:results compared"] += after
    for x in u.fired:
        out.stats["fault:%s@%s" % (x[-1], x[0])] += 1
    out.steps += u.lines
    out.nontrivial = n > 0 and after > 0
    out.log.append(res)


def observations(kind, dim):
    return {"type": 5, "none": None, "text": "observations",
            "words": [["a"] * dim] * 4, "tuple": ((0.0,) * dim,) * 4,
            "dict": {"y": [0.0] * 4},
            "ragged": [[0.0] * dim, [1.0] * (dim + 1), [2.0] * dim]}[kind]


def request_mix(m, spec, q, dim):
    from pyrichlet.exceptions import NotFittedError
    what = "%s %s: request %s" % (spec["model"], spec["kw"], q)
    if q[0] == "y":
        y = observations(q[2], dim)
        kw = {} if q[1] == "g" else dict(n_groups=2)
        f = m.fit_gibbs if q[1] == "g" else m.fit_variational
        return refuse(lambda: f(y, warm_start=q[3], **kw), what)
    if q[0] == "ask":
        fitted = m.gibbs_fitted if q[1].startswith("gibbs") else m.var_fitted
        y = {"type": {"y": 1}, "text": "observations"}[q[2]]
        return refuse(lambda: getattr(m, q[1])(y), what,
                      REFUSALS if fitted else (NotFittedError,))
    from pyrichlet import mixture_models as mm
    kw = dict(spec["kw"], rng=1)
    if q[1] == "iter":
        kw.update(total_iter=5, burn_in=5)
    elif q[1] == "iter2":
        kw.update(total_iter=5, burn_in=9)
    elif q[1] == "keyword":
        kw["no_such_setting"] = 1
    else:
        kw["rng"] = "seed"
    return refuse(lambda: getattr(mm, spec["model"])(**kw), what)


def run_mix(plan, out):
    spec = plan["spec"]
    s = mix.Session(spec, plan["data"], plan["seed"])
    t = mix.Session(spec, plan["data"], plan["seed"])
    dim = s.datas[0].shape[1]
    reqs = {}
    for k, q in plan["requests"]:
        reqs.setdefault(k, []).append(q)
    n = after = 0
    name = "%s %s" % (spec["model"], spec["kw"])
    for i in range(len(plan["ops"]) + 1):
        for q in reqs.get(i, []):
            out.steps += request_mix(s.m, spec, q, dim)
            n += 1
            p, q_ = mix.state(s.m), mix.state(t.m)
            if p != q_ or s.bits.n != t.bits.n:
                raise Violation("trace", "%s: refused request %s changed the "
                                "model: %s" % (name, q, mix.first_diff(q_, p)
                                               if p != q_ else "random words"))
        if i == len(plan["ops"]):
            break
        op = plan["ops"][i]
        a, b = s.step(op), t.step(op)
        if "budget" in (a[0], b[0]):
            return
        if a[0] != b[0]:
            raise Violation("trace", "%s: %s after refused requests %s, "
                            "without them %s" % (name, op[0], mix.say(a),
                                                 mix.say(b)))
        p, q = mix.state(s.m), mix.state(t.m)
        if p != q or s.bits.n != t.bits.n:
            raise Violation("trace", "%s: %s after %d refused requests differs "
                            "from the same without them: %s" % (
                                name, op[0], n, mix.first_diff(q, p)))
        after += n > 0
        out.log.append(p)
    y = s.datas[0]
    how, method = plan["last"]
    f = s.m.fit_gibbs if how == "g" else s.m.fit_variational
    kw = {} if how == "g" else dict(n_groups=2)
    if how == "v" and hasattr(s.m, "n"):
        kw = {}
    out.steps += refuse(lambda: f(y, init_method=method, **kw),
                        "%s: initialization method %r" % (name, method),
                        long=True)
    if how == "v" and not hasattr(s.m, "n"):
        out.steps += refuse(lambda: s.m.fit_variational(y),
                            "%s: variational fit without a number of groups"
                            % name)
    out.stats["probe:requests refused"] += n + 1
    out.stats["probe:results compared"] += after
    mix.count_faults(out, s.fired)
    out.steps += s.lines + t.lines
    out.nontrivial = n > 0


def run(plan, out):
    (run_mix if plan["kind"] == "m" else run_weights)(plan, out)
    out.stats["model:" + plan["spec"]["model"]] += 1
    out.sig = digest([plan["spec"], plan["ops"], plan["requests"],
                      plan.get("faults")])
    if plan["index"] < 8:
        out.sample = dict(spec=plan["spec"], ops=plan["ops"],
                          requests=plan["requests"])
