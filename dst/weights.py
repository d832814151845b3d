"""Weight-model zoo: specifications, operation generator, interpreter."""
import numpy as np

from . import core
from .core import Arena, interrupt_at, sim_rng

ALPHAS = [0.3, 0.7, 1, 1.0, 2.5, 6]
INFINITE = ["DirichletProcess", "PitmanYorProcess", "GeometricProcess",
            "BetaInBeta", "BetaInDirichlet", "BetaBernoulli", "BetaBinomial"]
FINITE = ["DirichletDistribution", "EqualWeighting", "FrequencyWeighting"]
ALL = INFINITE + FINITE
VARIATIONAL = ["DirichletDistribution", "DirichletProcess", "PitmanYorProcess",
               "GeometricProcess", "EqualWeighting", "FrequencyWeighting"]


def gen_spec(r, models=ALL):
    m = r.choice(models)
    if m == "DirichletProcess":
        kw = dict(alpha=r.choice(ALPHAS))
    elif m == "PitmanYorProcess":
        d = r.choice([0, 0.1, 0.25, 0.4])
        kw = dict(pyd=d, alpha=r.choice(ALPHAS + ([-0.05] if d > .05 else [])))
    elif m == "GeometricProcess":
        kw = dict(a=r.choice([0.8, 1, 2.0, 4]), b=r.choice([0.8, 1, 3.0]))
    elif m == "BetaInBeta":
        kw = dict(x=r.choice([0, 0.3, 0.6, 1]), alpha=r.choice(ALPHAS),
                  a=r.choice([1, 2.0]), b=r.choice([1, 3.0]),
                  p_method=r.choice(["geometric", "static", "independent",
                                     "max-likelihood", "inverse-sampling"]))
        if r.random() < .5:
            kw["p"] = r.choice([0.2, 0.5])
        elif kw["x"] == 1:
            kw["p"] = 0.4
    elif m == "BetaInDirichlet":
        kw = dict(alpha=r.choice(ALPHAS), a=r.choice([0, 0.2, 1, 3.0]))
    elif m == "BetaBernoulli":
        kw = dict(p=r.choice([0, 0.3, 0.7, 1]), alpha=r.choice(ALPHAS))
    elif m == "BetaBinomial":
        kw = dict(n=r.choice([0, 1, 5, 20]), alpha=r.choice(ALPHAS))
    elif m == "DirichletDistribution":
        n = r.choice([1, 2, 3, 5, 9])
        kw = dict(n=n, alpha=r.choice([0.5, 1, 3.0]))
        if r.random() < .3:
            kw["alpha"] = [r.choice([0.5, 1.0, 2.0, 4.0]) for _ in range(n)]
    elif m == "EqualWeighting":
        kw = dict(n=r.choice([1, 2, 3, 7, 10, 49]))
    else:
        kw = dict(n=r.choice([1, 2, 3, 7, 10, 49]))
    return dict(model=m, kw=kw)


def widen(r, spec, scale=1):
    """parameters far from the usual ones, still in their domain"""
    m, kw = spec["model"], spec["kw"]
    small, large = [0.01, 0.05], [100 * scale, 200.0 * scale]
    if m == "BetaInDirichlet":
        large = [20 * scale]         # (long chains of sticks are slow)
    if "alpha" in kw:
        kw["alpha"] = r.choice(small + large)
        if m == "DirichletDistribution" and r.random() < .5:
            kw["alpha"] = [r.choice(small + [1.0] + large)
                           for _ in range(kw["n"])]
    if m == "PitmanYorProcess":
        kw.update(r.choice([dict(pyd=.01, alpha=30), dict(pyd=.6, alpha=.01),
                            dict(pyd=.85, alpha=1), dict(pyd=.01, alpha=.01)]))
    elif m == "GeometricProcess":
        # (a below 0.8 makes ratios so close to one that no memory holds a tail)
        kw.update(a=r.choice([0.8, 1, 30.0]), b=r.choice([0.2, 1, 30.0]))
    elif m == "BetaInBeta":
        kw.update(x=r.choice([0.01, 0.5, 0.95]), a=r.choice([0.3, 1, 20.0]))
    elif m == "BetaInDirichlet":
        kw["a"] = r.choice([0.01, 25.0])
    elif m == "BetaBernoulli":
        kw["p"] = r.choice([0.02, 0.98])
    elif m == "BetaBinomial":
        kw["n"] = r.choice([2, 60])
    return spec


def gen_big(r):
    """specification and operations reaching hundreds of weights and labels"""
    spec = gen_spec(r, [x for x in ALL if x != "FrequencyWeighting"])
    m, kw = spec["model"], spec["kw"]
    n = r.choice([130, 260, 400])
    if m in FINITE:
        kw["n"] = n
        if isinstance(kw.get("alpha"), list):
            kw["alpha"] = 1
    elif "alpha" in kw:
        kw["alpha"] = r.choice([20, 150, 400.0])
    if m == "GeometricProcess":
        kw.update(a=1, b=r.choice([30, 300.0]))
    ops = []
    for _ in range(r.choice([2, 3, 4])):
        ops.append(r.choice([
            ["random", n], ["complete", n], ["complete", n + 7],
            ["fit", [r.randrange(n) for _ in range(r.choice([3, 40, 300]))]],
            ["loglik", [r.randrange(n) for _ in range(5)]],
            ["tail", r.choice([.5, .9])]]))
        ops.append(["assign", 60])
    ops.insert(0, ["random", r.choice([n, 3])])
    return spec, ops


def build(spec, rng):
    from pyrichlet import weight_models as wm
    return getattr(wm, spec["model"])(rng=rng, **spec["kw"])


def is_finite(spec):
    return spec["model"] in FINITE


def max_label(spec):
    """Exclusive bound on the labels this model accepts (None: unbounded)."""
    if spec["model"] in ("DirichletDistribution", "EqualWeighting"):
        return spec["kw"]["n"]
    return None


def is_geometric(spec):
    m, kw = spec["model"], spec["kw"]
    return (m == "GeometricProcess" or (m == "BetaInBeta" and kw["x"] == 1)
            or (m == "BetaInDirichlet" and kw["a"] == 0)
            or (m == "BetaBernoulli" and kw["p"] == 0))


def has_chain_state(spec):
    """Posterior drawn through a chain whose state legitimately persists from
    one draw to the next, or with a documented approximation that keeps p."""
    m, kw = spec["model"], spec["kw"]
    return ((m == "BetaInDirichlet" and kw["a"] != 0)
            or (m == "BetaBernoulli" and 0 < kw["p"] < 1)
            or (m == "BetaBinomial" and kw["n"] > 0)
            or (m == "BetaInBeta" and 0 < kw["x"] < 1
                and kw["p_method"] != "independent"
                and kw["p_method"] != "geometric"))


def gen_labels(r, spec, nmax=14):
    top = max_label(spec)
    n = r.choice([1, 2, 3, 5, 8, nmax])
    k = r.choice([1, 2, 3, 5, 7])
    if top is not None:
        k = min(k, top)
    style = r.random()
    if style < .2:
        d = [r.randrange(k)] * n
    elif style < .35 and k > 2:                        # gaps
        d = [r.choice([0, k - 1]) for _ in range(n)]
    elif style < .5:
        d = [k - 1] * n
    else:
        d = [min(r.randrange(k), r.randrange(k)) for _ in range(n)]
    return d


TAILS = [0, 0.0, 0.3, 0.6, 0.9, 0.99, 0.999, 1 - 1e-6, 1 - 1e-9, 1 - 1e-12]


def gen_op(r, spec, fitted):
    k = r.random()
    if k < .22:
        return ["random", r.choice([1, 2, 3, 5, 8, 12] +
                                   ([None] * 4 if fitted else []))]
    if k < .40:
        return ["complete", r.choice([1, 2, 3, 4, 6, 9, 15])]
    if k < .55:
        x = r.choice(TAILS)
        if spec["model"] == "PitmanYorProcess" and x > .9:
            x = .9
        return ["tail", x]
    if k < .60:
        return ["badtail", r.choice([1, 1.5, -0.1, -1e-9, 2])]
    if k < .74:
        return ["fit", gen_labels(r, spec)]
    if k < .79:
        return ["reset"]
    if k < .87:
        return ["loglik", gen_labels(r, spec) if r.random() < .7 or not fitted
                else None]
    return ["assign", r.choice([None, 1, 5, 20])]


def gen_ops(r, spec, n):
    ops, fitted = [], False
    for _ in range(n):
        op = gen_op(r, spec, fitted)
        if op[0] == "fit":
            fitted = True
        elif op[0] == "reset":
            fitted = False
        ops.append(op)
    return ops


def apply(w, op):
    """Perform one operation on the real model; returns its result."""
    o = op[0]
    if o == "random":
        return w.random(op[1]) if op[1] is not None else w.random()
    if o == "complete":
        return w.complete(op[1])
    if o == "badsize":
        return getattr(w, op[1])(op[2])
    if o in ("tail", "badtail"):
        return w.tail(op[1])
    if o == "fit":
        return w.fit(list(op[1]))
    if o == "reset":
        return w.reset()
    if o == "loglik":
        return w.assignation_log_likelihood(
            None if op[1] is None else np.array(op[1]))
    if o == "assign":
        return w.random_assignment(op[1]) if op[1] is not None \
            else w.random_assignment()
    if o == "varfit":
        return w.fit_variational(np.array(op[1], dtype=float))
    raise core.HarnessError("unknown op %r" % (op,))


# legal but rare 64-bit words: u close to 0, close to 1, and plain repeats
EXTREMES = [0, 1 << 11, (1 << 64) - 1, (1 << 64) - (1 << 11), 1 << 44,
            ((1 << 64) - 1) ^ ((1 << 44) - 1), 1 << 63, (1 << 63) - 1]
MILD = [1 << 48, (1 << 64) - (1 << 48), 1 << 54, (1 << 64) - (1 << 54)]


def zero_ok(spec):
    """numpy's Dirichlet variates are 0/0 when every gamma variate is exactly
    zero, which a word of zeros can give"""
    return spec["model"] != "DirichletDistribution"


def gen_extremes(r, words=400, zero=True, ks=(1, 1, 2, 4, 8)):
    k = r.choice(ks)
    pool = r.choice([EXTREMES, MILD, EXTREMES + MILD])
    if not zero:
        pool = [x for x in pool if x]
    return {str(r.randrange(words) if r.random() < .5 else r.randrange(24)):
            r.choice(pool) for _ in range(k)}


def gen_faults(r, n_ops):
    """[op index, kind, where, fraction]: where = line|call."""
    out = []
    for _ in range(r.choice([1, 1, 2, 3])):
        i = r.randrange(n_ops)
        if r.random() < .6:
            out.append([i, "interrupt", interrupt_at(r),
                        round(r.random(), 4)])
        else:
            out.append([i, "memory", "call", round(r.random(), 4)])
    return out


class Runner:
    """Applies ops to a real model under the instruction clock, injecting the
    plan's faults. A fault's position is a fraction of the op's own length,
    measured on a twin model that is replayed up to that op."""

    def __init__(self, spec, seed, extremes=None, faults=(), budget=200000):
        self.spec, self.seed, self.ext = spec, seed, extremes or {}
        self.faults = {}
        for f in faults:
            self.faults.setdefault(f[0], f)
        self.rng, self.bits = sim_rng(seed, self.ext)
        with Arena(budget=budget):
            self.w = build(spec, self.rng)
        self.history = []           # (op, resolved fault)
        self.budget = budget
        self.lines = 0
        self.fired = []

    def _measure(self, op, where):
        g, b = sim_rng(self.seed, self.ext)
        w = build(self.spec, g)
        for o, res in self.history:
            try:
                with Arena(budget=self.budget, **res):
                    apply(w, o)
            except (Exception, KeyboardInterrupt, core.SimBudget):
                pass
        a = Arena(budget=self.budget)
        try:
            with a:
                apply(w, op)
        except (Exception, core.SimBudget):
            pass
        return a.lines if where == "line" else a.calls

    def step(self, i, op):
        """-> (status, value): status ok | exc | fault | budget"""
        res = {}
        f = self.faults.get(i)
        if f is not None:
            n = self._measure(op, f[2])
            if n:
                k = 1 + int(f[3] * n)
                if k <= n:
                    res = {"at_line" if f[2] == "line" else "at_call":
                           {k: f[1]}}
        a = Arena(budget=self.budget, **{k: dict(v) for k, v in res.items()})
        try:
            with a:
                v = apply(self.w, op)
            st = ("ok", v)
        except core.INJECTED as e:
            st = ("fault", e)
        except core.SimBudget as e:
            st = ("budget", e)
        except Exception as e:
            st = ("exc", e)
        self.lines += a.lines
        self.fired += a.fired
        self.history.append((op, res))
        return st
