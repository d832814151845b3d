"""C14: queries are read-only."""
import numpy as np

from .. import core, mix
from ..core import digest, freeze
from ..runner import Violation

ID = "C14"
COUNT = {"quick": 1600, "thorough": 25000}
RULE = ("a run fits two mixture models on the same random words and asks one of "
        "them any number of queries of both methods (some with invalid "
        "arguments, some interrupted or with a failing call) between warm "
        "continuations; state before and after each query, repeated answers "
        "and the further chains of the twins are compared bit for bit; "
        "non-trivial when at least one query ran; distinct by (specification, "
        "operations, faults)")
REAL = ["pyrichlet.mixture_models", "pyrichlet.weight_models", "numpy", "scipy",
        "sklearn"]
STUB = ["bit generator (simulator-owned words, rewound for the twin)"]
ASSUMPTIONS = ["one fault per operation; interrupts land on outgoing calls, in the thorough tier also between library lines"]


BAD = [["gibbs_eap_density", None, {"dim": 9}],
       ["gibbs_map_density", None, {"component": 1000}],
       ["gibbs_eap_density", "text", {}],
       ["gibbs_map_cluster", [[1.0] * 7], {}],
       ["gibbs_eap_affinity_matrix", [[1.0] * 7], {}],
       ["gibbs_eap_spectral_consensus_cluster", None, {"n_clusters": 0}],
       ["var_eap_density", None, {"dim": 9}],
       ["var_map_density", None, {"component": 1000}],
       ["var_eap_density", [[1.0] * 7], {}],
       ["var_map_cluster", [[1.0] * 7], {}],
       ["var_eap_affinity_matrix", "text", {}]]


def gen(r, i, tier):
    spec = mix.gen_model(r, [mix.ALL[i % len(mix.ALL)]])
    data = mix.gen_data(r)
    dim = len(data[0])
    spec["priors"] = mix.gen_priors(r, dim)
    can = spec["model"] in mix.VAR
    ops = []
    how = r.choice(["g", "g", "v", "gv"]) if can else "g"
    if "g" in how:
        ops.append(mix.gen_fit(r, spec, 0))
    if "v" in how:
        ops.append(mix.gen_varfit(r, spec))
    r.shuffle(ops)
    names = (mix.GQ if "g" in how else []) + (mix.VQ if "v" in how else [])
    if r.random() < .15:
        names = mix.GQ + mix.VQ
    for _ in range(r.choice([1, 2, 3])):
        for _ in range(r.choice([1, 2, 4])):
            u = r.random()
            if u < .15:
                ops.append(["acc", r.choice(mix.ACCESS)])
            elif u < .3:
                b = r.choice(BAD)
                ops.append(["bad"] + b)
            else:
                ops.append(mix.gen_query(r, names, dim))
        if how != "v" and r.random() < .7:
            ops.append(mix.gen_fit(r, spec, 0, warm=True))
        elif "v" in how:
            ops.append(mix.gen_varfit(r, spec, warm=True))
    return dict(spec=spec, data=[data], ops=ops,
                faults=[[k] + mix.gen_fault(r) for k in range(len(ops))
                        if ops[k][0] == "q" and r.random() < .3])


def is_query(op):
    return op[0] in ("q", "acc", "bad")


def ask(s, op, fault=None):
    if op[0] == "bad":
        a = core.Arena(budget=s.budget)
        try:
            with a:
                y = op[2]
                if isinstance(y, list):
                    y = np.array(y, dtype=float)
                return "ok", freeze(getattr(s.m, op[1])(y, **op[3]))
        except Exception as e:
            return "exc", type(e).__name__
        finally:
            s.lines += a.lines
    st = s.step(op, fault)
    res = freeze(st[1]) if st[0] == "ok" else type(st[1]).__name__
    if op[0] == "q" and st[0] == "ok":
        # the caller may do with its answer what it likes
        for a in (st[1] if isinstance(st[1], tuple) else [st[1]]):
            if isinstance(a, np.ndarray) and a.flags.writeable:
                a[...] = 7
    return st[0], res


def run(plan, out):
    s = mix.Session(plan["spec"], plan["data"], plan["seed"])
    t = mix.Session(plan["spec"], plan["data"], plan["seed"])
    faults = {f[0]: f[1:] for f in plan["faults"]}
    y0 = [d.copy() for d in s.datas]
    asked, first = 0, {}
    name = "%s %s" % (plan["spec"]["model"], plan["spec"]["kw"])
    for k, op in enumerate(plan["ops"]):
        if is_query(op):
            before, n = mix.state(s.m), s.bits.n
            a = ask(s, op, faults.get(k))
            after = mix.state(s.m)
            what = "%s%s" % (op[1], "" if op[0] == "acc" else
                             "(%s, %s)" % (op[2], op[3]))
            if before != after or s.bits.n != n:
                raise Violation("changed", "%s: %s (%s) changed the model: %s"
                                % (name, what, a[0], mix.first_diff(
                                    before, after) if before != after else
                                   "%d random words used" % (s.bits.n - n)))
            if a[0] == "fault":
                out.stats["probe:faulted queries"] += 1
            else:
                key = repr(op)
                if key in first and first[key] != a:
                    raise Violation("answer", "%s: %s answered differently "
                                    "when asked again" % (name, what))
                first[key] = a
                b = ask(s, op)
                if b == a and "spectral" in op[1]:
                    b = ask(s, op)
                if b != a:
                    raise Violation("answer", "%s: %s answered differently "
                                    "the second time: %s" % (
                                        name, what, mix.first_diff(a, b)))
                out.stats["probe:%s answered" % op[0]] += 1
            asked += 1
            out.log.append(a)
            continue
        # everything asked since the last fit still gets the same answer
        for key, a in sorted(first.items())[:6]:
            o = eval(key, {"__builtins__": {}}, {})
            b = ask(s, o)
            if b != a:
                raise Violation("answer", "%s: %s answered differently after "
                                "other queries: %s" % (name, key,
                                                       mix.first_diff(a, b)))
        first = {}
        a, b = s.step(op), t.step(op)
        if "budget" in (a[0], b[0]):
            return
        if a[0] != b[0]:
            raise Violation("chain", "%s: %s after queries %s, without them %s"
                            % (name, op[0], mix.say(a), mix.say(b)))
        if a[0] != "ok":
            raise a[1]
        p, q = mix.state(s.m), mix.state(t.m)
        if p != q or s.bits.n != t.bits.n:
            raise Violation("chain", "%s: %s after queries differs from the "
                            "same without them: %s" % (name, op[0],
                                                       mix.first_diff(q, p)))
        out.stats["probe:twins compared"] += 1
        out.log.append(p)
    for a, b in zip(y0, s.datas):
        if not np.array_equal(a, b):
            raise Violation("data", "%s: the observations were changed" % name)
    if mix.state(s.m) != mix.state(t.m):
        raise Violation("changed", "%s: queries changed the model" % name)
    mix.count_faults(out, s.fired)
    out.steps = s.lines + t.lines
    out.stats["model:" + plan["spec"]["model"]] += 1
    out.nontrivial = asked > 0
    out.sig = digest([plan["spec"], plan["ops"], plan["faults"]])
    if plan["index"] < 3:
        out.sample = dict(spec=plan["spec"], ops=plan["ops"],
                          faults=plan["faults"])
