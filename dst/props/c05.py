"""C05: conditioning again or resetting fully replaces what was before."""
import numpy as np

from .. import weights as W
from ..core import Arena, SimBudget, INJECTED, digest, freeze, sim_rng
from ..runner import Violation

ID = "C05"
COUNT = {"quick": 8000, "thorough": 60000}
RULE = ("a run gives a weight model a random past (draws, fits, extensions, "
        "label draws, variational fits, some interrupted or failing), then "
        "conditions it anew or resets it, possibly lets a draw fail, and plays "
        "a follow-up starting with a fresh draw; a newly built model brought "
        "to the same condition plays the same follow-up on the same random "
        "words; non-trivial when the past changed something and the draw "
        "succeeded; distinct by (specification, past, condition, follow-up)")
REAL = ["pyrichlet.weight_models (all ten)", "numpy.random.Generator", "scipy"]
STUB = ["bit generator (simulator-owned words, rewound for the twin)"]
ASSUMPTIONS = ["models drawing the posterior through an auxiliary chain are "
               "compared after resets only; after fits their support is checked"]


def var_d(r, spec):
    k = spec["kw"]["n"] if spec["model"] in W.FINITE else r.choice([1, 2, 4])
    n = r.choice([1, 3, 6])
    cols = []
    for _ in range(n):
        v = [r.random() + 1e-3 for _ in range(k)]
        if r.random() < .3:
            v = [0.0] * k
            v[r.randrange(k)] = 1.0
        s = sum(v)
        cols.append([x / s for x in v])
    return [[cols[i][j] for i in range(n)] for j in range(k)]


def gen(r, i, tier):
    spec = W.gen_spec(r, [W.ALL[i % len(W.ALL)]])
    if r.random() < .1:
        W.widen(r, spec)
    past = W.gen_ops(r, spec, r.choice([1, 2, 4, 7, 10]))
    if spec["model"] in W.VARIATIONAL:
        for _ in range(r.choice([0, 1, 2])):
            past.insert(r.randrange(len(past) + 1), ["varfit",
                                                     var_d(r, spec)])
    fit = r.random() < .65
    target = ["fit", W.gen_labels(r, spec)] if fit else ["reset"]
    after = [["random", r.choice([None, None, 1, 3, 8]) if fit
              else r.choice([1, 2, 5])]]
    for _ in range(r.choice([0, 1, 2, 3])):
        after.append(r.choice([["complete", r.choice([3, 6, 10])],
                               ["assign", 4], ["tail", r.choice([.5, .9])],
                               ["random", 4], ["loglik", W.gen_labels(r, spec)]]
                              + ([["random", None]] if fit else [])))
    return dict(spec=spec, past=past, target=target, after=after,
                faults=W.gen_faults(r, len(past)) if r.random() < .5 else [],
                stumble=W.gen_faults(r, 1)[0][1:] if r.random() < .25 else None,
                extremes=W.gen_extremes(r, zero=W.zero_ok(spec))
                if r.random() < .1 else {})


def play(w, ops):
    """Observable results of the follow-up, operation by operation."""
    res = []
    for op in ops:
        try:
            with Arena(budget=60000):
                v = W.apply(w, op)
            res.append(("ok", freeze(v), freeze(w.get_weights())))
        except SimBudget:
            res.append(("budget",))
            break
        except Exception as e:
            res.append(("exc", type(e).__name__))
            break
    return res


def run(plan, out):
    spec = plan["spec"]
    past = plan["past"]
    u = W.Runner(spec, plan["seed"], plan["extremes"], plan["faults"], 60000)
    for i, op in enumerate(past):
        if u.step(i, op)[0] == "budget":
            break
    g, b = sim_rng(plan["seed"] + 7)
    fresh = W.build(spec, g)
    for w in (u.w, fresh):
        W.apply(w, plan["target"])
    if plan["stumble"]:
        kind, where, frac = plan["stumble"]
        k = 1 + int(frac * 12)
        a = Arena(budget=60000, **{"at_line" if where == "line" else
                                   "at_call": {k: kind}})
        try:
            with a:
                W.apply(u.w, plan["after"][0])
        except (Exception, SimBudget) + INJECTED:
            pass
        for x in a.fired:
            out.stats["fault:%s@%s" % (x[-1], x[0])] += 1
    ctx = "%s after %d operations, then %s" % (spec, len(past), plan["target"])
    chain = W.has_chain_state(spec) or spec["model"] == "BetaBinomial"
    if chain and plan["target"][0] == "fit":
        d = np.array(plan["target"][1])
        try:
            with Arena(budget=60000):
                w = np.asarray(u.w.random())
        except SimBudget:
            return
        if len(w) <= d.max() or not np.all(w[d] > 0) or \
                not np.all(np.isfinite(w)) or w.sum() > 1 + 1e-9:
            raise Violation("support", "%s: drew %r" % (ctx, w))
        out.stats["probe:support checks"] += 1
    else:
        u.bits.set(plan["seed"] + 1)
        b.set(plan["seed"] + 1)
        x, y = play(u.w, plan["after"]), play(fresh, plan["after"])
        if x != y:
            k = next((i for i, (p, q) in enumerate(zip(x, y)) if p != q),
                     min(len(x), len(y)))
            raise Violation("history", "%s: %s gives %s, a new model gives %s"
                            % (ctx, plan["after"][k], show(x, k), show(y, k)))
        if u.bits.n != b.n:
            raise Violation("history", "%s: consumed %d random words, a new "
                            "model %d" % (ctx, u.bits.n, b.n))
        out.stats["probe:twin comparisons"] += len(x)
        out.nontrivial = x[0][0] == "ok"
        out.log.append(x)
    for x in u.fired:
        out.stats["fault:%s@%s" % (x[-1], x[0])] += 1
    out.steps = u.lines
    out.stats["model:" + spec["model"]] += 1
    out.sig = digest([spec, past, plan["faults"], plan["target"],
                      plan["after"]])
    if plan["index"] < 3:
        out.sample = dict(spec=spec, past=past, target=plan["target"],
                          after=plan["after"])


def show(x, k):
    if k >= len(x):
        return "nothing"
    v = x[k]
    if v[0] == "ok" and v[2][0] == "nd" and len(v[2][3]) < 400 and \
            isinstance(v[2][3], bytes) and len(v[2][3]) % 8 == 0:
        return "ok, weights %s" % np.frombuffer(v[2][3]).round(5).tolist()[:8]
    return str(v[:2])[:200]
