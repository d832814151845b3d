"""C11: a cold fit is indistinguishable from the fit of a new model."""
import numpy as np

from .. import mix
from .. import weights as W
from ..core import digest, freeze, sim_rng
from ..runner import Violation
from .c08 import wspec

ID = "C11"
COUNT = {"quick": 1600, "thorough": 30000}
RULE = ("a run gives a mixture model a random past (cold, warm, failed and "
        "interrupted fits by both methods on other data and dimensions, "
        "queries, calls on its weight model), rewinds the random words and "
        "fits it cold; a newly built model does the same on the same words; "
        "draws, most likely draw, flags, priors and answers must agree bit for "
        "bit, also after a warm continuation; non-trivial when the final fit "
        "succeeded after a non-empty past; distinct by (specification, past, "
        "final fit)")
REAL = ["pyrichlet.mixture_models", "pyrichlet.weight_models", "numpy", "scipy",
        "sklearn"]
STUB = ["bit generator (simulator-owned words, rewound for the twin)"]
ASSUMPTIONS = ["one fault per operation; interrupts land on outgoing calls, in the thorough tier also between library lines"]


def gen_past(r, spec, data, n):
    ops, g, v, dg, dv = [], False, False, 0, 0
    for _ in range(n):
        u = r.random()
        if u < .3 or (not g and u < .6):
            dg = r.randrange(len(data))
            ops.append(mix.gen_fit(r, spec, 0, data=dg))
            g = True
        elif u < .5:
            ops.append(mix.gen_fit(r, spec, 0, warm=True, data=dg))
        elif u < .75 and spec["model"] in mix.VAR:
            warm = v and r.random() < .4
            if not warm:
                dv = r.randrange(len(data))
            ops.append(mix.gen_varfit(r, spec, warm=warm, data=dv))
            v = True
        elif u < .88 and (g or v):
            ops.append(mix.gen_query(r, (mix.GQ if g else [])
                                     + (mix.VQ if v else []),
                                     len(data[dg][0])))
        else:
            o = W.gen_op(r, wspec(spec), True)
            if o[0] == "badtail":
                o = ["assign", None]
            ops.append(["wm", o])
    return ops


def gen(r, i, tier):
    spec = mix.gen_model(r, [mix.ALL[i % len(mix.ALL)]])
    data = [mix.gen_data(r)]
    dim = len(data[0][0])
    same = r.random() < .5
    for _ in range(r.choice([1, 2])):
        data.append(mix.gen_data(r, dim=dim if same else None))
    spec["priors"] = mix.gen_priors(r, dim) if same else {}
    past = gen_past(r, spec, data, r.choice([1, 2, 3, 5]))
    last = r.randrange(len(data))
    if spec["model"] in mix.VAR and r.random() < .35:
        final = mix.gen_varfit(r, spec, data=last)
        cont = mix.gen_varfit(r, spec, warm=True, data=last)
    else:
        final = mix.gen_fit(r, spec, 0, data=last)
        cont = mix.gen_fit(r, spec, 0, warm=True, data=last)
    d = len(data[last][0])
    qs = [mix.gen_query(r, mix.VQ if final[0] == "varfit" else mix.GQ, d)
          for _ in range(3)]
    return dict(spec=spec, data=data, past=past, final=final, cont=cont, qs=qs,
                faults=[[k] + mix.gen_fault(r) for k in range(len(past))
                        if r.random() < .4])


def answers(s, qs):
    res = []
    for q in qs:
        st = s.step(q)
        res.append((st[0], freeze(st[1]) if st[0] == "ok"
                    else type(st[1]).__name__))
    return res


def report(s, kind, qs):
    m = s.m
    st = mix.gibbs_state(m) if kind == "fit" else mix.var_state(m)
    return [("state", st), ("data", freeze(m.y)),
            ("priors", freeze([np.asarray(x, dtype=float) for x in (
                m.mu_prior, m.lambda_prior, m.psi_prior, m.nu_prior)])),
            ("answers", answers(s, qs))]


def run(plan, out):
    seed = plan["seed"]
    s = mix.Session(plan["spec"], plan["data"], seed)
    faults = {f[0]: f[1:] for f in plan["faults"]}
    for k, op in enumerate(plan["past"]):
        if s.step(op, faults.get(k))[0] == "budget":
            return
    t = mix.Session(plan["spec"], plan["data"], seed + 5)
    s.bits.set(seed + 1)
    t.bits.set(seed + 1)
    kind = plan["final"][0]
    ctx = "%s %s after %d operations" % (plan["spec"]["model"],
                                         plan["spec"]["kw"],
                                         len(plan["past"]))
    for step, op in (("cold fit", plan["final"]), ("warm fit", plan["cont"])):
        a, b = s.step(op), t.step(op)
        if "budget" in (a[0], b[0]):
            return
        if a[0] != b[0] or (a[0] == "exc" and
                            type(a[1]) is not type(b[1])):
            raise Violation("outcome", "%s: the %s %s, that of a new model %s"
                            % (ctx, step, mix.say(a), mix.say(b)))
        if a[0] != "ok":
            raise a[1]
        x, y = report(s, kind, plan["qs"]), report(t, kind, plan["qs"])
        for (name, p), (_, q) in zip(x, y):
            if p != q:
                raise Violation(name, "%s: after the %s the %s differ from "
                                "those of a new model: %s"
                                % (ctx, step, name, mix.first_diff(p, q)))
        if s.bits.n != t.bits.n:
            raise Violation("words", "%s: the %s used %d random words, that of "
                            "a new model %d" % (ctx, step, s.bits.n, t.bits.n))
        out.log.append([step, x[0][1]])
        out.stats["probe:%s twins compared" % kind] += 1
    mix.count_faults(out, s.fired)
    out.steps = s.lines + t.lines
    out.stats["model:" + plan["spec"]["model"]] += 1
    out.nontrivial = len(plan["past"]) > 0
    out.sig = digest([plan["spec"], plan["past"], plan["faults"],
                      plan["final"], plan["cont"]])
    if plan["index"] < 3:
        out.sample = dict(spec=plan["spec"], past=plan["past"],
                          final=plan["final"], faults=plan["faults"])
