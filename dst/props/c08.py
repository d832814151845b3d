"""C08: saved draws never change afterwards."""
from .. import mix
from .. import weights as W
from ..core import digest
from ..runner import Violation

ID = "C08"
COUNT = {"quick": 1200, "thorough": 20000}
RULE = ("a run drives one mixture model through Gibbs fits (cold, warm, "
        "interrupted, failing), variational fits, queries and calls on its "
        "weight model; observers woken at chosen library lines and after every "
        "operation read all saved draws and the most likely draw and compare "
        "them with their first reading; non-trivial when a draw was read again "
        "after a later operation; distinct by (specification, operations, "
        "faults)")
REAL = ["pyrichlet.mixture_models", "pyrichlet.weight_models", "numpy", "scipy",
        "sklearn"]
STUB = ["bit generator (simulator-owned words)"]
ASSUMPTIONS = ["one fault per operation; observers wake between library lines"]
BASE = {"DirichletDistributionMixture": "DirichletDistribution",
        "EqualWeightedMixture": "EqualWeighting",
        "FrequencyWeightedMixture": "FrequencyWeighting",
        "PitmanYorMixture": "PitmanYorProcess"}


def wspec(spec):
    m = spec["model"]
    return dict(model=BASE.get(m, m[:-len("Mixture")]), kw=spec["kw"])


def gen(r, i, tier):
    spec = mix.gen_model(r, [mix.ALL[i % len(mix.ALL)]])
    data = [mix.gen_data(r)]
    dim = len(data[0][0])
    if r.random() < .3:
        data.append(mix.gen_data(r, dim=dim))
    spec["priors"] = mix.gen_priors(r, dim)
    cur = 0
    ops = [mix.gen_fit(r, spec, 0, data=0)]
    var = False
    for k in range(r.choice([2, 3, 5, 7])):
        u = r.random()
        if u < .12:
            cur = r.randrange(len(data))
            ops.append(mix.gen_fit(r, spec, 0, data=cur))
        elif u < .45:
            ops.append(mix.gen_fit(r, spec, 0, warm=True, data=cur))
        elif u < .55 and spec["model"] in mix.VAR:
            ops.append(mix.gen_varfit(r, spec, warm=var and r.random() < .5,
                                      data=r.randrange(len(data))))
            var = True
        elif u < .8:
            ops.append(mix.gen_query(r, mix.GQ + (mix.VQ if var else []), dim))
        elif u < .85:
            ops.append(["acc", r.choice(mix.ACCESS)])
        else:
            o = W.gen_op(r, wspec(spec), True)
            if o[0] == "badtail":
                o = ["assign", None]
            ops.append(["wm", o])
    return dict(spec=spec, data=data, ops=ops,
                faults=[[k] + mix.gen_fault(r) for k in range(len(ops))
                        if r.random() < .25],
                watch=r.choice([0, 37, 150, 400]))


class Watch:
    def __init__(self, m, out):
        self.m, self.out = m, out
        self.seen, self.maps = [], []
        self.old = None
        self.ctx = ""
        self.bad = None
        self.work = 0

    def look(self):
        m = self.m
        n = min(len(m.get_sim_params()), m.total_saved_steps)
        ps = m.get_sim_params()[:n]
        now = [mix.draw_state(p) for p in ps]
        self.work += sum(20 + len(p["theta"]) for p in ps)
        if self.old is not None:
            if now == self.old and now:
                self.seen = now
                return
            if not self.fresh:
                self.fresh = True
                self.seen = []
        if len(now) < len(self.seen):
            self.fail("lost", "%s: %d saved draws left of %d"
                      % (self.ctx, len(now), len(self.seen)))
        for i, s in enumerate(self.seen):
            if i < len(now) and now[i] != s:
                self.fail("changed", "%s: saved draw %d differs in %s"
                          % (self.ctx, i, diff(s, now[i])))
        self.out.stats["probe:draws read again"] += len(self.seen)
        self.seen = now
        p = m.map_sim_params
        for q, s in self.maps:
            t = mix.draw_state(q)
            if t != s:
                self.fail("changed-map", "%s: a recorded most likely draw "
                          "differs in %s" % (self.ctx, diff(s, t)))
        if p is not None and not any(q is p for q, s in self.maps):
            self.maps.append((p, mix.draw_state(p)))
            del self.maps[:-6]

    def fail(self, kind, msg):
        if self.bad is None:
            self.bad = (kind, msg)


def diff(a, b):
    a, b = dict(a[1]) if a[0] == "d" else {}, dict(b[1]) if b[0] == "d" else {}
    return [k for k in a if a.get(k) != b.get(k)] or "shape"


def run(plan, out):
    s = mix.Session(plan["spec"], plan["data"], plan["seed"])
    m = s.m
    faults = {f[0]: f[1:] for f in plan["faults"]}
    w = Watch(m, out)
    reread, cur = 0, None
    for k, op in enumerate(plan["ops"]):
        w.ctx = "%s %s, op %d %s%s" % (plan["spec"]["model"],
                                       plan["spec"]["kw"], k, op[0],
                                       " " + str(op[1]) if op[0] != "fit"
                                       else "")
        cold = op[0] == "fit" and not op[2].get("warm")
        if op[0] == "fit" and not cold and m.gibbs_fitted and op[1] != cur:
            continue               # the cold fit on this data never began
        w.old = list(w.seen) if cold else None
        w.fresh = False
        if not cold:
            reread += len(w.seen)
        at = {}
        if plan["watch"] and not (k in faults and faults[k][1] == "line"):
            def tick():
                w.look()
                # huge draws are read again less often
                s.arena.at_line[s.arena.lines + plan["watch"]
                                * (1 + w.work // 20000)] = tick
            at = {plan["watch"]: tick}
        st = s.step(op, faults.get(k), at_line=at)
        if st[0] == "budget":
            return
        if cold and not (st[0] == "fault" and m.gibbs_fitted):
            cur = op[1]
        if op[0] == "fit" and st[0] == "exc" and not (
                op[2].get("warm") and not m.gibbs_fitted):
            raise st[1]
        w.look()
        if w.bad:
            raise Violation(w.bad[0], w.bad[1])
        w.old = None
        out.log.append([st[0], w.seen[-2:]])
    mix.count_faults(out, s.fired)
    out.steps = s.lines
    out.stats["model:" + plan["spec"]["model"]] += 1
    out.nontrivial = reread > 0
    out.sig = digest([plan["spec"], plan["ops"], plan["faults"]])
    if plan["index"] < 3:
        out.sample = dict(spec=plan["spec"], ops=plan["ops"],
                          faults=plan["faults"], draws=len(w.seen))
