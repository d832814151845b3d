"""C01: reported weights are a valid sub-probability vector at every instant."""
import numpy as np

from .. import weights as W
from ..core import digest
from ..runner import Violation

ID = "C01"
COUNT = {"quick": 2400, "thorough": 60000}
RULE = ("a run is one random history of 2-14 calls on one of the ten weight "
        "models with random parameters, under a swarm-selected mix of rare "
        "random words, interrupts and failures of outgoing calls (interrupts also "
        "between library lines in the thorough tier);"
        " it is non-trivial when at least one draw was made and at least one "
        "invariant was evaluated on a non-empty structure; distinct by (model, "
        "parameters, op kinds, fault sites)")
REAL = ["pyrichlet.weight_models (all ten)", "numpy.random.Generator",
        "scipy", "numpy"]
STUB = ["bit generator under numpy.random.Generator (simulator-owned)"]
ASSUMPTIONS = ["tolerance 1e-9 on sums of weights"]


def gen(r, i, tier):
    spec = W.gen_spec(r)
    if r.random() < .12:
        W.widen(r, spec)
    ops = W.gen_ops(r, spec, r.choice([2, 4, 6, 10, 14]))
    if r.random() < .8:
        ops.insert(0, ["random", r.choice([1, 2, 5])])
    if r.random() < .05:
        spec, ops = W.gen_big(r)
    plan = dict(spec=spec, ops=ops, faults=[], extremes={})
    mode = r.random()
    if mode > .45:
        plan["faults"] = W.gen_faults(r, len(ops))
    if mode > .7 or mode < .15:
        plan["extremes"] = W.gen_extremes(r, zero=W.zero_ok(spec))
    return plan


def invariants(w, spec, ctx, extreme, fitted_labels=None):
    x = w.get_weights()
    if not isinstance(x, np.ndarray) or x.ndim != 1:
        raise Violation("shape", "%s: weights are %r" % (ctx, x))
    if w.get_size() != len(x):
        raise Violation("size", "%s: get_size %r, %d weights"
                        % (ctx, w.get_size(), len(x)))
    if len(x) == 0:
        return 0
    if not np.all(np.isfinite(x)):
        raise Violation("not-finite", "%s: weights %r" % (ctx, x.tolist()))
    if x.min() < 0:
        raise Violation("negative", "%s: weights %r" % (ctx, x.tolist()))
    s = float(np.sum(x))
    if s > 1 + 1e-9:
        raise Violation("sum>1", "%s: weights sum to %r: %r"
                        % (ctx, s, x.tolist()))
    if W.is_finite(spec) and abs(s - 1) > 1e-9:
        raise Violation("finite-sum", "%s: %s weights sum to %r"
                        % (ctx, spec["model"], s))
    if spec["model"] in ("DirichletDistribution", "EqualWeighting") \
            and len(x) != spec["kw"]["n"]:
        raise Violation("finite-size", "%s: %d weights, n=%d"
                        % (ctx, len(x), spec["kw"]["n"]))
    if s > 0:
        nw = w.get_normalized_weights()
        if len(nw) != len(x) or np.max(np.abs(nw * s - x)) > 1e-9:
            raise Violation("normalized", "%s: normalised %r of %r"
                            % (ctx, nw.tolist(), x.tolist()))
        cw = w.get_normalized_cumulative_weights()
        if len(cw) != len(x) or np.max(np.abs(cw - np.cumsum(x) / s)) > 1e-9:
            raise Violation("cumulative", "%s: cumulative %r of %r"
                            % (ctx, cw.tolist(), x.tolist()))
    y = w.get_weights()
    if not np.array_equal(x, y):
        raise Violation("unstable", "%s: reading changed the weights" % ctx)
    return 1


def run(plan, out):
    spec = plan["spec"]
    extreme = bool(plan["extremes"])
    R = W.Runner(spec, plan["seed"], plan["extremes"], plan["faults"])
    evals = draws = 0
    labels = None
    if invariants(R.w, spec, "new", extreme):
        evals += 1
    for i, op in enumerate(plan["ops"]):
        if op[0] == "loglik" and op[1] is None and labels is None:
            continue
        if op[0] == "random" and op[1] is None and labels is None \
                and not W.is_finite(spec):
            continue
        if op[0] == "assign" and R.w.get_size() == 0:
            continue
        ctx = "after op %d %r of %r" % (i, op, spec)
        st, v = R.step(i, op)
        out.log.append([op, st, v if st == "ok" else type(v).__name__])
        if extreme and R.w.get_size() > 300000:
            out.stats["inconclusive:enormous structure"] += 1
            break
        if st == "budget":
            # termination is C02's business; here the state must be valid
            invariants(R.w, spec, ctx + " (cut off)", extreme)
            out.stats["inconclusive:line budget"] += 1
            break
        if st == "exc":
            if op[0] == "badtail" and isinstance(v, ValueError):
                pass
            elif op[0] == "loglik" and W.is_finite(spec) \
                    and isinstance(v, IndexError) \
                    and max(op[1] if op[1] is not None else labels) \
                    >= R.w.get_size():
                pass        # a label the finite structure does not have
            elif extreme:
                out.stats["inconclusive:exc-with-extremes"] += 1
            else:
                raise Violation("raises", "%s: %s: %s"
                                % (ctx, type(v).__name__, v))
        if op[0] == "fit" and st == "ok":
            labels = op[1]
        elif op[0] == "reset" and st == "ok":
            labels = None
        elif op[0] in ("fit", "reset"):
            labels = None if R.w.d is None or len(R.w.d) == 0 \
                else list(map(int, R.w.d))
        n = invariants(R.w, spec, ctx + (" (%s)" % st), extreme)
        evals += n
        if st == "ok" and op[0] == "random":
            draws += 1
            x = R.w.get_weights()
            if len(x) == 0:
                raise Violation("empty", "%s: no weights after a draw" % ctx)
        if st == "ok" and op[0] == "assign":
            z = np.asarray(v)
            size = R.w.get_size()
            if z.shape != (() if op[1] is None else (op[1],)):
                raise Violation("assign-shape", "%s: labels %r" % (ctx, v))
            if not np.issubdtype(z.dtype, np.integer) or np.any(z < 0) \
                    or np.any(z >= size):
                raise Violation("assign-range",
                                "%s: labels %r, structure of size %d"
                                % (ctx, z.tolist(), size))
            if not extreme and np.any(R.w.get_weights()[z] <= 0):
                raise Violation("assign-null", "%s: label of a zero weight: %r"
                                % (ctx, z.tolist()))
            out.stats["probe:labels drawn"] += 1
    for f in R.fired:
        out.stats["fault:%s@%s" % (f[-1], f[0])] += 1
    if R.bits.fired:
        out.stats["fault:rare-random-word"] += R.bits.fired
    out.steps = R.lines
    out.nontrivial = draws > 0 and evals > 0
    out.stats["probe:invariant evaluations"] += evals
    out.stats["model:" + spec["model"]] += 1
    out.sig = digest([spec, [o[0] for o in plan["ops"]],
                      [list(f[2:4]) for f in R.fired], R.bits.fired])
    if plan["index"] < 3:
        out.sample = dict(spec=spec, ops=plan["ops"], faults=plan["faults"],
                          fired=[list(map(str, f)) for f in R.fired])
