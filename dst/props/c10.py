"""C10: independent models never influence each other under any interleaving."""
import numpy as np

from .. import core, mix
from .. import weights as W
from ..core import digest, freeze
from ..runner import Violation
from .c11 import gen_past

ID = "C10"
COUNT = {"quick": 1600, "thorough": 40000}
WALL = 300
TECHNIQUE = ("seeded search over thread interleavings at library-line "
             "granularity and injected interrupts")
RULE = ("a run puts two to four call histories on threads of which exactly one "
        "is released at a time; control moves at seeded library lines (gaps of "
        "1 to a few thousand lines, bursts of single-line alternation); each "
        "history on its own model must give bit for bit what it gives alone, "
        "and threads querying one fitted model the answers of one thread; an "
        "interrupt may hit one thread; distinct by the digest of the actual "
        "switch points; non-trivial when at least one switch happened")
REAL = ["pyrichlet.mixture_models", "pyrichlet.weight_models",
        "pyrichlet.utils", "numpy", "scipy", "sklearn"]
STUB = ["thread scheduler (simulator decides every switch)",
        "bit generators (simulator-owned words)"]
ASSUMPTIONS = ["threads switch at the boundaries of library source lines, not "
               "inside numpy or scipy calls"]


def gen_w(r):
    spec = W.gen_spec(r)
    return dict(type="w", spec=spec, seed=r.randrange(2 ** 32),
                ops=[W.gen_op(r, spec, True)
                     for _ in range(r.choice([2, 5, 9]))])


def gen_m(r, model=None):
    spec = mix.gen_model(r, [model] if model else mix.ALL)
    data = [mix.gen_data(r)]
    dim = len(data[0][0])
    spec["priors"] = mix.gen_priors(r, dim)
    var = spec["model"] in mix.VAR and r.random() < .4
    ops = [mix.gen_varfit(r, spec) if var else mix.gen_fit(r, spec, 0)]
    ops += gen_past(r, spec, data, r.choice([0, 1, 2]))
    ops += [mix.gen_query(r, mix.VQ if var else mix.GQ, dim)
            for _ in range(r.choice([1, 2]))]
    return dict(type="m", spec=spec, data=data, seed=r.randrange(2 ** 32),
                ops=ops)


def gen_preempts(r):
    pre, at = [], 0
    hi = r.choice([5, 60, 400, 3000])
    for _ in range(r.choice([3, 10, 40, 120])):
        if r.random() < .1:
            for _ in range(r.choice([5, 20])):
                at += 1
                pre.append([at, r.randrange(3)])
        at += 1 + int(hi ** r.random() * r.random())
        pre.append([at, r.randrange(3)])
    return pre


def gen(r, i, tier):
    n = r.choice([2, 2, 3, 4])
    plan = dict(preempts=gen_preempts(r), first=r.choice(["threads", "alone"]),
                faults=[], parts=[])
    if i % 3 == 2:
        plan["mode"] = "queries"
        j = gen_m(r)
        dim = len(j["data"][0][0])
        names = []
        if any(o[0] == "fit" for o in j["ops"]):
            names += mix.GQ
        if any(o[0] == "varfit" for o in j["ops"]):
            names += mix.VQ
        j["ops"] = [o for o in j["ops"] if o[0] in ("fit", "varfit")]
        plan["model"] = j
        for _ in range(n):
            plan["parts"].append([mix.gen_query(r, names, dim)
                                  if r.random() < .85 else
                                  ["acc", r.choice(mix.ACCESS)]
                                  for _ in range(r.choice([1, 2, 4]))])
    else:
        plan["mode"] = "models"
        # often the same model class on all threads
        model = r.choice(mix.ALL) if r.random() < .5 else None
        for _ in range(n):
            plan["parts"].append(gen_w(r) if r.random() < .2
                                 else gen_m(r, model))
    if r.random() < .25:
        plan["faults"].append([r.randrange(n), int(10 ** r.uniform(0, 3))])
    return plan


def build(job):
    g, bits = core.sim_rng(job["seed"])
    if job["type"] == "w":
        return W.build(job["spec"], g), bits, None
    return mix.build(job["spec"], g), bits, [np.array(d, dtype=float)
                                             for d in job["data"]]


def history(job):
    """Runs a history on a new model; a list of [what, frozen result]."""
    m, bits, data = build(job)
    log = []

    def go():
        for op in job["ops"]:
            try:
                r = ("ok", freeze(W.apply(m, op) if data is None
                                  else mix.apply(m, op, data)))
            except core.INJECTED:
                raise
            except Exception as e:
                r = ("exc", type(e).__name__)
            st = freeze(m.get_weights()) if data is None else mix.state(m)
            log.append((str(op)[:200], r, st, bits.n))
        return log
    go.log = log
    return go


def asking(m, ops):
    log = []

    def go():
        for op in ops:
            try:
                r = ("ok", freeze(mix.apply(m, op, None)))
            except core.INJECTED:
                raise
            except Exception as e:
                r = ("exc", type(e).__name__)
            log.append((str(op)[:200], r))
        return log
    go.log = log
    return go


def threads(fns, plan, budget):
    at = {f[0]: {f[1]: "interrupt"} for f in plan["faults"]
          if f[0] < len(fns)}
    return core.Sched(fns, plan["preempts"], budget=budget, at_call=at).run()


def run(plan, out):
    if not plan["parts"]:
        return
    budget = 400_000
    if plan["mode"] == "models":
        fns = [history(j) for j in plan["parts"]]
        m = None
    else:
        j = plan["model"]
        m, bits, data = build(j)
        try:
            with core.Arena(budget=budget):
                for op in j["ops"]:
                    try:
                        mix.apply(m, op, data)
                    except ValueError:
                        pass
        except core.SimBudget:
            return
        fns = [asking(m, ops) for ops in plan["parts"]]
        st0 = mix.state(m)
    ref = None

    def alone():
        fs = [history(j) for j in plan["parts"]] if m is None else \
            [asking(m, ops) for ops in plan["parts"]]
        for f in fs:
            try:
                with core.Arena(budget=budget):
                    f()
            except core.SimBudget:
                return None         # long by itself: nothing to compare
        return [f.log for f in fs]
    if plan["first"] == "alone":
        ref = alone()
        if ref is None:
            return
    s = threads(fns, plan, 2 * budget)
    if ref is None:
        ref = alone()
        if ref is None:
            return
    hit = [f for f in plan["faults"] if f[0] < len(fns)]
    for i, f in enumerate(fns):
        e = s.exc[i]
        if isinstance(e, core.SimBudget):
            raise e
        stopped = e is not None
        if stopped and not (isinstance(e, core.INJECTED)
                            and any(h[0] == i for h in hit)):
            raise Violation("raises", "thread %d: %s: %s" % (
                i, type(e).__name__, e))
        a, b = f.log, ref[i]
        if not stopped and len(a) != len(b):
            raise core.HarnessError("history lengths")
        for k, (x, y) in enumerate(zip(a, b)):
            if x != y:
                raise Violation(
                    "influence", "thread %d (%s): step %d (%s) gives another "
                    "result when other threads %s: %s; switches %s" % (
                        i, plan["parts"][i]["spec"]["model"] if m is None
                        else plan["model"]["spec"]["model"], k, x[0],
                        "work on their own models" if m is None
                        else "query the same model",
                        mix.first_diff(y[1:], x[1:]), s.switches[:6]))
        out.stats["probe:histories compared"] += 1
        if stopped:
            out.stats["fault:interrupt of one thread"] += 1
    if m is not None and mix.state(m) != st0:
        raise Violation("changed", "%s: concurrent queries changed the model: "
                        "%s" % (plan["model"]["spec"]["model"],
                                mix.first_diff(st0, mix.state(m))))
    out.stats["fault:preemption"] += len(s.switches)
    out.stats["probe:runs of " + plan["mode"]] += 1
    out.log.append([s.switches, digest([f.log for f in fns])])
    out.steps = s.step
    out.nontrivial = len(s.switches) > 0
    out.sig = digest(s.switches)
    if plan["index"] < 3:
        out.sample = dict(mode=plan["mode"], switches=s.switches[:20],
                          threads=len(fns), lines=s.step)
