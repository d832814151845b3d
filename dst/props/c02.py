"""C02: extending a realization appends, reaches the target and returns."""
import numpy as np

from .. import weights as W
from ..core import digest
from ..runner import Violation

ID = "C02"
COUNT = {"quick": 3000, "thorough": 90000}
RULE = ("a run is one random history of 3-14 draw/extend/cover/likelihood/label "
        "calls, biased to extensions, on one of the ten weight models, with "
        "swarm-selected rare random words, interrupts and failing calls; "
        "non-trivial when at least one extension was checked against a live "
        "realization; distinct by (model, parameters, op kinds, fault sites)")
REAL = ["pyrichlet.weight_models (all ten)", "numpy.random.Generator",
        "scipy", "numpy"]
STUB = ["bit generator under numpy.random.Generator (simulator-owned)"]
ASSUMPTIONS = ["already reported weights are compared with relative tolerance "
               "1e-12, covered mass with 1e-13 per weight",
               "a call is taken not to return when it exceeds 200000 library "
               "lines without the structure growing meaningfully"]
RTOL = 1e-12


def gen(r, i, tier):
    spec = W.gen_spec(r)
    if r.random() < .12:
        W.widen(r, spec)
    n = r.choice([3, 5, 8, 14])
    ops, fitted = [], False
    if r.random() < .75:
        ops.append(["random", r.choice([1, 1, 2, 5])])
    for _ in range(n):
        k = r.random()
        if k < .33:
            ops.append(["complete", r.choice([1, 2, 3, 4, 6, 9, 15, 40])])
        elif k < .37:
            ops.append(["badsize", r.choice(["random", "complete"]),
                        r.choice([2.5, "3", 40.5])])
        elif k < .62:
            x = r.choice(W.TAILS)
            if r.random() < .3:
                x = r.random()
            if spec["model"] == "PitmanYorProcess":
                x = min(x, .9)
            ops.append(["tail", x])
        else:
            op = W.gen_op(r, spec, fitted)
            if op[0] == "fit":
                fitted = True
            elif op[0] == "reset":
                fitted = False
            ops.append(op)
            if op[0] in ("fit", "reset") and r.random() < .8:
                ops.append(["random", r.choice([1, 2, 4])])
    if r.random() < .04:
        spec, ops = W.gen_big(r)
    plan = dict(spec=spec, ops=ops, faults=[], extremes={})
    mode = r.random()
    if mode > .5:
        plan["faults"] = W.gen_faults(r, len(ops))
    if mode > .75 or mode < .15:
        plan["extremes"] = W.gen_extremes(r, zero=W.zero_ok(spec))
    return plan


def same_prefix(old, new):
    return len(new) >= len(old) and np.allclose(new[:len(old)], old,
                                                rtol=RTOL, atol=1e-300)


def stalled(old, x, extreme):
    """no meaningful progress of the structure during an endless call?"""
    return len(x) < len(old) + 50 or (not extreme
                                      and np.mean(x[-50:]) <= 1e-18)


def run(plan, out):
    spec = plan["spec"]
    extreme = bool(plan["extremes"])
    R = W.Runner(spec, plan["seed"], plan["extremes"], plan["faults"])
    finite, geo = W.is_finite(spec), W.is_geometric(spec)
    live = False            # is the reported structure a drawn realization?
    labels, checked = None, 0
    for i, op in enumerate(plan["ops"]):
        o = op[0]
        if o == "loglik" and op[1] is None and labels is None:
            continue
        if o == "random" and op[1] is None and labels is None and not finite:
            continue
        if o == "assign" and R.w.get_size() == 0:
            continue
        old = np.array(R.w.get_weights(), dtype=float)
        st, v = R.step(i, op)
        new = np.array(R.w.get_weights(), dtype=float)
        ctx = "op %d %r of %r (%s)" % (i, op, spec, st)
        out.log.append([op, st, new])
        if extreme and R.w.get_size() > 300000:
            out.stats["inconclusive:enormous structure"] += 1
            break
        if st == "budget":
            if stalled(old, new, extreme):
                raise Violation("no-return", "%s: more than %d lines, %d -> %d"
                                " weights" % (ctx, R.budget, len(old),
                                              len(new)))
            out.stats["inconclusive:long but progressing"] += 1
            break
        if o == "badsize":
            # refused or not, what is reported must stay a realization
            if st == "ok" and op[1] == "complete":
                live = live and same_prefix(old, new)
            elif st == "ok":
                live = False
            elif op[1] == "complete" and live and not same_prefix(old, new):
                raise Violation("prefix", "%s: weights %r became %r" % (
                    ctx, old.tolist(), new.tolist()))
            continue
        if st == "exc" and o != "badtail":
            if finite and o == "loglik" and isinstance(v, IndexError) \
                    and max(op[1] if op[1] is not None else labels) \
                    >= R.w.get_size():
                pass
            elif extreme:
                out.stats["inconclusive:exc-with-extremes"] += 1
                live = False
                continue
            else:
                raise Violation("raises", "%s: %s: %s"
                                % (ctx, type(v).__name__, v))
        if o == "badtail" and st != "fault":
            if st != "exc" or not isinstance(v, ValueError):
                raise Violation("badtail", "%s: level %r not rejected with "
                                "ValueError: %r" % (ctx, op[1], v))
            if not np.array_equal(old, new):
                raise Violation("badtail-change", "%s: rejected but weights "
                                "changed" % ctx)
            checked += 1
            continue
        if o == "fit":
            if st == "ok":
                labels = op[1]
            live = False
            continue
        if o == "reset":
            labels, live = (None if st == "ok" else labels), False
            continue
        if o == "random":
            # a draw that failed leaves the last realization or a new one
            live = st == "ok" or (live and st == "fault")
            if st != "ok":
                continue
            if live and op[1] is not None and not finite \
                    and labels is None and len(new) < op[1]:
                raise Violation("short-draw", "%s: %d weights" % (ctx,
                                                                  len(new)))
            if live and (v is None or not np.array_equal(np.asarray(v), new)):
                raise Violation("returned", "%s: returned %r, reports %r"
                                % (ctx, v, new.tolist()))
        elif o in ("complete", "tail", "loglik", "assign", "badtail"):
            if live and not same_prefix(old, new):
                raise Violation("prefix", "%s: weights %r became %r"
                                % (ctx, old.tolist(), new.tolist()))
            if o in ("assign", "badtail") and live and len(new) != len(old):
                raise Violation("grew", "%s: %d -> %d weights"
                                % (ctx, len(old), len(new)))
            if st == "ok" and o in ("complete", "tail"):
                if v is None or not np.array_equal(np.asarray(v), new):
                    raise Violation("returned", "%s: returned %r, reports %r"
                                    % (ctx, v, new.tolist()))
                if len(old) == 0:
                    live = True
            if st == "ok" and o == "complete" and not finite \
                    and (live or len(old) == 0):
                if len(new) < op[1]:
                    raise Violation("short", "%s: %d weights" % (ctx, len(new)))
                if live and len(old) >= op[1] and len(new) != len(old):
                    raise Violation("not-idempotent", "%s: %d -> %d weights"
                                    % (ctx, len(old), len(new)))
            if st == "ok" and o == "tail" and live:
                s = float(np.sum(new))
                if s < op[1] - 1e-13 * (len(new) + 10):
                    raise Violation("mass", "%s: covers %r" % (ctx, s))
                if len(old) and float(np.sum(old)) >= op[1] + 1e-12 \
                        and not W.is_geometric(spec) and len(new) != len(old):
                    raise Violation("not-idempotent", "%s: %d -> %d weights"
                                    % (ctx, len(old), len(new)))
            if st == "ok" and o == "loglik" and live:
                d = np.array(op[1] if op[1] is not None else labels)
                if len(new) <= d.max():
                    raise Violation("short", "%s: %d weights for label %d"
                                    % (ctx, len(new), d.max()))
                with np.errstate(all="ignore"):
                    ref = np.sum(np.log(new[d]))
                if not (np.isclose(v, ref, rtol=1e-9, atol=1e-9) or v == ref):
                    raise Violation("loglik", "%s: %r, reported weights give "
                                    "%r" % (ctx, v, ref))
            if live:
                checked += 1
        if live and geo and len(new) > 2 and not finite:
            big = new > 1e-290
            q = new[1:][big[1:]] / new[:-1][big[1:]]
            if len(q) > 1 and np.ptp(q) > 1e-9 * np.max(q):
                raise Violation("ratio", "%s: successive ratios %r"
                                % (ctx, q.tolist()[:20]))
            out.stats["probe:geometric ratios checked"] += 1
    for f in R.fired:
        out.stats["fault:%s@%s" % (f[-1], f[0])] += 1
    if R.bits.fired:
        out.stats["fault:rare-random-word"] += R.bits.fired
    out.steps = R.lines
    out.nontrivial = checked > 0
    out.stats["probe:extensions checked"] += checked
    out.stats["model:" + spec["model"]] += 1
    out.sig = digest([spec, [o[0] for o in plan["ops"]],
                      [list(f[2:4]) for f in R.fired], R.bits.fired])
    if plan["index"] < 3:
        out.sample = dict(spec=spec, ops=plan["ops"], faults=plan["faults"],
                          fired=[list(map(str, f)) for f in R.fired])
