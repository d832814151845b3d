"""C18: observations are taken by value, whatever container carries them."""
import copy

import numpy as np

from .. import core, mix
from ..core import digest, freeze
from ..runner import Violation

ID = "C18"
COUNT = {"quick": 1800, "thorough": 30000}
RULE = ("a run fits two models on the same random words, one from a plain "
        "array, the other from a list, series, data frame or an unusual array "
        "(transposed, strided, read-only, integer, single precision, object) "
        "whose owner overwrites it at chosen library lines during the fits and "
        "queries and between them; draws, parameters, answers and the objects "
        "not overwritten must agree bit for bit; non-trivial always; distinct "
        "by (specification, containers, moments, operations)")
REAL = ["pyrichlet.mixture_models", "pyrichlet.weight_models", "numpy", "pandas",
        "scipy", "sklearn"]
STUB = ["bit generator (simulator-owned words, rewound for the twin)",
        "the caller that overwrites its object (actions of the simulator)"]
ASSUMPTIONS = ["the overwriting caller wakes from the 40th library line of a "
               "call on (the call has to read its argument first)"]
BOX = ["array", "fortran", "strided", "reversed", "readonly", "list", "tuples",
       "frame", "frame-index", "frame-mixed", "object", "float32"]
BOX1 = ["flat", "flat-list", "series", "series-named", "int-list", "int-array",
        "float32"]
QBOX = ["array", "fortran", "list", "frame", "strided", "readonly"]
QBOX1 = QBOX + ["flat", "flat-list", "series"]


def values(rows, box):
    """The numbers a container can carry, as a plain float64 array."""
    y = np.array(rows, dtype=float)
    if box in ("int-list", "int-array"):
        y = np.rint(y) + 0.0
        # distinct enough for the default priors
        y[0] += 1
    if box == "float32":
        y = y.astype(np.float32).astype(float)
    if box == "frame-mixed":
        y[:, 0] = np.rint(y[:, 0] * 3) + 0.0
    return y


def put(y, box):
    import pandas as pd
    y = np.array(y, dtype=float)
    n, d = y.shape
    if box == "fortran":
        return np.asfortranarray(y)
    if box == "strided":
        z = np.full((2 * n, 2 * d), 99.0)
        z[::2, ::2] = y
        return z[::2, ::2]
    if box == "reversed":
        return y[::-1, ::-1].copy()[::-1, ::-1]
    if box == "readonly":
        y.setflags(write=False)
        return y
    if box == "list":
        return y.tolist()
    if box == "tuples":
        return [tuple(v) for v in y.tolist()]
    if box == "frame":
        return pd.DataFrame(y, columns=["c%d" % j for j in range(d)])
    if box == "frame-index":
        return pd.DataFrame(y, index=np.arange(n)[::-1] * 3)
    if box == "frame-mixed":
        f = pd.DataFrame(y, columns=["c%d" % j for j in range(d)])
        f["c0"] = f["c0"].astype(int)
        return f
    if box == "object":
        return y.astype(object)
    if box == "float32":
        return y.astype(np.float32)
    if box == "flat":
        return y[:, 0].copy()
    if box == "flat-list":
        return y[:, 0].tolist()
    if box == "series":
        return pd.Series(y[:, 0])
    if box == "series-named":
        return pd.Series(y[:, 0], index=np.arange(n)[::-1], name="v")
    if box == "int-list":
        return [int(v) for v in y[:, 0]]
    if box == "int-array":
        return y.astype(int)
    return y


def scribble(obj, r):
    """The owner of the container overwrites it."""
    import pandas as pd
    v = [1e3, -7.0, 0.0][r % 3]
    if isinstance(obj, np.ndarray):
        if obj.flags.writeable:
            obj[r % len(obj):] = int(v)
    elif isinstance(obj, pd.DataFrame):
        obj.iloc[r % len(obj):, :] = int(v)
    elif isinstance(obj, pd.Series):
        obj.iloc[r % len(obj):] = v
    elif obj and isinstance(obj[0], list):
        for i in range(r % len(obj), len(obj)):
            obj[i][:] = [v] * len(obj[i])
    elif obj and isinstance(obj[0], tuple):
        obj[r % len(obj)] = tuple(v for _ in obj[0])
    elif obj:
        obj[r % len(obj)] = int(v)


def gen(r, i, tier):
    spec = mix.gen_model(r, [mix.ALL[i % len(mix.ALL)]])
    data = mix.gen_data(r)
    dim = len(data[0])
    spec["priors"] = mix.gen_priors(r, dim)
    box = r.choice(BOX1 + ["list", "frame"]) if dim == 1 and r.random() < .7 \
        else r.choice(BOX)
    can = spec["model"] in mix.VAR
    ops = []
    kind = r.choice(["g", "g", "v"]) if can else "g"
    ops.append(mix.gen_fit(r, spec, 0) if kind == "g"
               else mix.gen_varfit(r, spec))
    for _ in range(r.choice([1, 2, 3, 4])):
        u = r.random()
        if u < .65:
            q = mix.gen_query(r, mix.GQ if kind == "g" else mix.VQ, dim)
            k = None if q[2] is None else len(q[2][0])
            q.append(r.choice(QBOX1 if k == 1 else QBOX))
            ops.append(q)
        else:
            ops.append(mix.gen_fit(r, spec, 0, warm=True) if kind == "g"
                       else mix.gen_varfit(r, spec, warm=True))
    acts = [[k, round(r.random(), 4), r.randrange(50)] for k in range(len(ops))
            for _ in range(r.choice([0, 1, 2]))]
    return dict(spec=spec, data=[data], box=box, ops=ops, faults=acts,
                between=[r.randrange(50) if r.random() < .6 else None
                         for _ in ops],
                between_priors=[r.randrange(50) if r.random() < .4 else None
                                for _ in ops],
                prior_box=r.choice(["array", "list", "fortran"]))


def prior_objects(spec, box):
    o = {}
    for k, v in (spec.get("priors") or {}).items():
        if isinstance(v, list):
            v = np.array(v, dtype=float)
            if box == "list":
                v = v.tolist()
            elif box == "fortran":
                v = np.asfortranarray(v)
        o[k] = v
    return o


def call(s, op, y, pts):
    """Like mix.apply, with the caller's own containers."""
    m, o = s.m, op[0]
    if o == "q":
        return getattr(m, op[1])(pts, **op[3])
    a = op[2]
    if o == "fit":
        mix.settings(m, a.get("total"), a.get("burn"), a.get("sub"))
        keys = ("init_groups", "init_method")
        f = m.fit_gibbs
    else:
        mix.settings(m, a.get("total"), 0)
        keys = ("n_groups", "init_method", "tol")
        f = m.fit_variational
    kw = {k: a[k] for k in keys if a.get(k) is not None}
    return f(y, warm_start=bool(a.get("warm")), **kw)


def run(plan, out):
    from pyrichlet import mixture_models as mm
    spec, box = plan["spec"], plan["box"]
    base = values(plan["data"][0], box)
    if base.shape[1] != 1 and box in BOX1 and box != "float32":
        return
    name = "%s %s from %s" % (spec["model"], spec["kw"], box)
    t = mix.Session(spec, [base], plan["seed"])
    s = mix.Session(spec, [base], plan["seed"])
    pr = prior_objects(spec, plan["prior_box"])
    kw = copy.deepcopy(spec["kw"])
    if plan["prior_box"] != "list":
        kw = {k: np.array(v) if isinstance(v, list) else v
              for k, v in kw.items()}
    pr0, kw0 = copy.deepcopy(pr), copy.deepcopy(kw)
    s.bits.set(plan["seed"])
    s.m = getattr(mm, spec["model"])(rng=s.rng, **kw, **pr)
    acts = {}
    for k, f, w in plan["faults"]:
        acts.setdefault(k, []).append((f, w))
    mine = put(base, box)
    for k, op in enumerate(plan["ops"]):
        ref_pts = pts = None
        if op[0] == "q" and op[2] is not None:
            ref_pts = np.array(op[2], dtype=float)
            pts = put(op[2], op[4])
        a = core.Arena(budget=s.budget)
        try:
            with a:
                want = ("ok", call(t, op, base.copy(), ref_pts))
        except core.SimBudget:
            return
        except Exception as e:
            want = ("exc", e)
        if op[0] != "q":
            mine = put(base, box)     # the same numbers in a fresh container
        obj = pts if op[0] == "q" else mine
        clean = copy.deepcopy(obj)
        at, touched = {}, []
        for f, w in acts.get(k, []):
            n = 40 + int(f * max(a.lines - 40, 1))
            if n <= a.lines:
                def act(w=w):
                    if obj is not None:
                        scribble(obj, w)
                        touched.append(1)
                    if mine is not obj and w % 2:
                        scribble(mine, w)
                at[n] = act
        b = core.Arena(budget=s.budget, at_line=at)
        try:
            with b:
                got = ("ok", call(s, op, mine, pts))
        except core.SimBudget:
            return
        except Exception as e:
            got = ("exc", e)
        s.fired += b.fired
        s.lines += a.lines + b.lines
        ctx = "%s, op %d %s" % (name, k, op[0] if op[0] != "q" else op[1])
        if want[0] != got[0] or (want[0] == "exc" and
                                 type(want[1]) is not type(got[1])):
            raise Violation("outcome", "%s %s, from a plain array %s"
                            % (ctx, mix.say(got), mix.say(want)))
        if want[0] == "exc" and op[0] != "q":
            break
        if want[0] == "ok" and freeze(want[1]) != freeze(got[1]):
            raise Violation("answer", "%s (%s) differs from the answer for a "
                            "plain array: %s" % (
                                ctx, op[4] if len(op) > 4 else box,
                                mix.first_diff(freeze(want[1]),
                                               freeze(got[1]))))
        p, q = mix.state(t.m), mix.state(s.m)
        if p != q or t.bits.n != s.bits.n:
            raise Violation("state", "%s: the model differs from one fitted "
                            "to a plain array: %s" % (ctx,
                                                      mix.first_diff(p, q)))
        if not touched and obj is not None and not same(clean, obj):
            raise Violation("modified", "%s modified the caller's %s"
                            % (ctx, type(obj).__name__))
        if plan["between"][k] is not None:
            scribble(mine, plan["between"][k])
            if pts is not None:
                scribble(pts, plan["between"][k])
            p2 = mix.state(s.m)
            if p2 != q:
                raise Violation("aliased", "%s: overwriting the caller's "
                                "object changed the model: %s"
                                % (ctx, mix.first_diff(q, p2)))
            out.stats["fault:owner overwrites between calls"] += 1
        if not same(pr, pr0) or not same(kw, kw0):
            raise Violation("priors", "%s modified the caller's prior "
                            "parameters" % ctx)
        w = plan["between_priors"][k]
        if w is not None:
            for o in list(pr.values()) + list(kw.values()):
                if isinstance(o, (list, np.ndarray)):
                    scribble(o, w)
                    out.stats["fault:owner overwrites its priors"] += 1
            pr0, kw0 = copy.deepcopy(pr), copy.deepcopy(kw)
        out.log.append([op[0], want[0], p])
    for x in s.fired:
        out.stats["fault:owner overwrites during a call"] += 1
    out.steps = s.lines
    out.stats["box:" + box] += 1
    out.stats["model:" + spec["model"]] += 1
    out.nontrivial = True
    out.sig = digest([spec, box, plan["ops"], plan["faults"]])
    if plan["index"] < 3:
        out.sample = dict(spec=spec, box=box, ops=plan["ops"],
                          actions=plan["faults"])


def same(a, b):
    import pandas as pd
    if isinstance(a, (pd.DataFrame, pd.Series)):
        return type(a) is type(b) and a.equals(b) and \
            a.index.equals(b.index) and list(getattr(a, "columns", [])) == \
            list(getattr(b, "columns", []))
    if isinstance(a, dict):
        return a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    if isinstance(a, np.ndarray):
        return a.dtype == b.dtype and a.shape == b.shape and \
            np.array_equal(a, b)
    return a == b
