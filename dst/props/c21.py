"""C21: progress reporting never influences the sampling."""
import contextlib
import errno
import io
import random as pyrandom
import sys

import numpy as np

from .. import core, mix
from ..core import digest, freeze
from ..runner import Violation
from .c11 import report

ID = "C21"
COUNT = {"quick": 1600, "thorough": 30000}
TECHNIQUE = ("seeded search over clock behaviours, terminal behaviours, failing "
             "writes and interrupts of fits that show progress")
RULE = ("a run performs the same fits and queries on two models with the same "
        "random words, one showing progress on a simulated terminal (short or "
        "slow writes, any encoding, failing writes and flushes) with a "
        "simulated clock (stalls, jumps forwards and backwards), possibly in "
        "two threads; state, words and answers must agree bit for bit, and "
        "after a failed fit a cold fit must equal that of a new model; "
        "non-trivial when progress was written; distinct by (operations, "
        "clock, terminal, faults)")
REAL = ["pyrichlet.mixture_models", "pyrichlet.weight_models", "tqdm", "numpy",
        "scipy", "sklearn"]
STUB = ["clock of tqdm", "sys.stdout and sys.stderr", "bit generator",
        "tqdm's monitor thread (off)"]
ASSUMPTIONS = ["the terminal and the clock are reached through sys.stdout, "
               "sys.stderr and tqdm"]


def gen_term(r, fail):
    o = dict(tty=r.random() < .5, enc=r.choice(["utf-8", "ascii", None]),
             fail=None, seed=r.randrange(10 ** 6), cols=r.choice([0, 10, 80]))
    if fail:
        o["fail"] = [r.choice(["out", "err", "err"]),
                     r.choice(["write", "write", "flush"]),
                     r.choice([1, 1, 2, 3, 4, 6, 10, 20]),
                     r.choice(["EPIPE", "EIO", "ENOSPC", "closed", "unicode"]),
                     r.random() < .5]
    return o


def gen_clock(r):
    return dict(kind=r.choice(["normal", "stall", "fast", "jumps", "back"]),
                seed=r.randrange(10 ** 6))


def gen(r, i, tier):
    spec = mix.gen_model(r, [mix.ALL[i % len(mix.ALL)]])
    data = mix.gen_data(r)
    dim = len(data[0])
    spec["priors"] = mix.gen_priors(r, dim)
    ops, terms = [], []
    var = spec["model"] in mix.VAR and r.random() < .35
    g = v = False
    for k in range(r.choice([1, 2, 3])):
        if var:
            op = mix.gen_varfit(r, spec, warm=v and r.random() < .5)
            v = True
        else:
            op = mix.gen_fit(r, spec, 0, warm=g and r.random() < .6)
            g = True
        op[2]["show_progress"] = True if k == 0 else r.choice(
            [True, True, None, False])
        ops.append(op)
        if spec["model"] in mix.VAR and r.random() < .15:
            var = not var
        for _ in range(r.choice([0, 1])):
            ops.append(mix.gen_query(r, (mix.GQ if g else [])
                                     + (mix.VQ if v else []), dim))
    fits = [k for k, o in enumerate(ops) if o[0] != "q"]
    fails = [r.choice(fits)] if r.random() < .4 else []
    faults = [[r.choice(fits)] + mix.gen_fault(r)] \
        if not fails and r.random() < .15 else []
    return dict(spec=spec, data=[data], ops=ops, faults=faults,
                fails=[[k, gen_term(r, True)] for k in fails],
                term=gen_term(r, False), clock=gen_clock(r),
                again=mix.gen_fit(r, spec, 0) if not v or r.random() < .5
                else mix.gen_varfit(r, spec),
                again_shows=r.random() < .5)


class Clock:
    def __init__(self, plan):
        self.r = pyrandom.Random(plan["seed"])
        self.kind, self.t, self.n = plan["kind"], 1.6e9, 0

    def __call__(self):
        k, r = self.kind, self.r
        self.n += 1
        if k == "normal":
            self.t += r.expovariate(20)
        elif k == "fast":
            self.t += r.expovariate(1 / 50)
        elif k == "jumps":
            self.t += r.choice([0, .01, 3600, 86400 * 30, -3600, -.5])
        elif k == "back":
            self.t -= r.expovariate(1)
        return self.t


class Term(io.TextIOBase):
    def __init__(self, plan, which, stats):
        self.p, self.which, self.stats = plan, which, stats
        self.n = dict(write=0, flush=0)
        self.text = []

    encoding = property(lambda self: self.p["enc"])

    def isatty(self):
        return self.p["tty"]

    def _maybe(self, what):
        f = self.p["fail"]
        self.n[what] += 1
        if not f or f[0] != self.which or f[1] != what:
            return
        if self.n[what] == f[2] or (f[4] and self.n[what] > f[2]):
            self.stats["fault:%s %s" % (what, f[3])] += 1
            if f[3] == "closed":
                raise ValueError("I/O operation on closed file.")
            if f[3] == "unicode":
                raise UnicodeEncodeError("ascii", "x", 0, 1, "injected")
            raise core.InjectedOSError(getattr(errno, f[3]), "injected")

    def write(self, s):
        self._maybe("write")
        self.text.append(s)
        return len(s)

    def flush(self):
        self._maybe("flush")


@contextlib.contextmanager
def shown(term, clock, stats):
    from tqdm import std
    old = sys.stdout, sys.stderr, std.time, std.tqdm.monitor_interval, \
        sys.unraisablehook
    o, e = Term(term, "out", stats), Term(term, "err", stats)
    std.tqdm._instances.clear()
    sys.stdout, sys.stderr = o, e
    std.time = clock
    std.tqdm.monitor_interval = 0
    sys.unraisablehook = lambda *a: None
    try:
        yield o, e
    finally:
        (sys.stdout, sys.stderr, std.time, std.tqdm.monitor_interval,
         sys.unraisablehook) = old
        # bars that nobody holds any more close without harm
        o.p = e.p = dict(term, fail=None)


def quiet(op):
    if op[0] == "q":
        return op
    return [op[0], op[1], dict(op[2], show_progress=False)]


def run(plan, out):
    seed, spec = plan["seed"], plan["spec"]
    s = mix.Session(spec, plan["data"], seed)
    t = mix.Session(spec, plan["data"], seed)
    clock = Clock(plan["clock"])
    fails = {f[0]: f[1] for f in plan["fails"]}
    faults = {f[0]: f[1:] for f in plan["faults"]}
    name = "%s %s" % (spec["model"], spec["kw"])
    written = 0
    for k, op in enumerate(plan["ops"]):
        if faults.get(k):
            with shown(plan["term"], Clock(plan["clock"]), out.stats.__class__()):
                s.length(op, faults[k][1])
        with shown(fails.get(k, plan["term"]), clock, out.stats) as (o, e):
            a = s.step(op, faults.get(k))
        n = len(o.text) + len(e.text)
        written += n
        if op[0] != "q" and op[2].get("show_progress") is False and n:
            raise Violation("shows", "%s: %s writes %r although progress is "
                            "off" % (name, op, (o.text + e.text)[:3]))
        if a[0] == "budget":
            return
        if a[0] == "exc" and k in fails and sum(
                out.stats["fault:%s %s" % (x, fails[k]["fail"][3])]
                for x in ("write", "flush")):
            a = ("fault", a[1])
        if a[0] == "fault":
            out.stats["probe:fits stopped by a fault"] += 1
            break
        b = t.step(quiet(op))
        if b[0] == "budget":
            return
        if a[0] != b[0]:
            raise Violation("outcome", "%s: %s with progress %s, without it %s"
                            % (name, op, mix.say(a), mix.say(b)))
        if a[0] == "exc":
            if type(a[1]) is not type(b[1]):
                raise Violation("outcome", "%s: %s with progress %s, without "
                                "it %s" % (name, op, mix.say(a), mix.say(b)))
        elif op[0] == "q" and freeze(a[1]) != freeze(b[1]):
            raise Violation("answer", "%s: %s answers differently after a fit "
                            "that showed progress" % (name, op))
        p, q = mix.state(s.m), mix.state(t.m)
        if p != q:
            raise Violation("state", "%s: %s (operation %d) showing progress "
                            "differs from the same without: %s" % (
                                name, op, k, mix.first_diff(q, p)))
        if s.bits.n != t.bits.n:
            raise Violation("words", "%s: %s used %d random words showing "
                            "progress and %d without" % (name, op, s.bits.n,
                                                         t.bits.n))
        out.stats["probe:twins compared"] += 1
        out.log.append([p, n])
    # a later cold fit equals that of a new model
    u = mix.Session(spec, plan["data"], seed + 7)
    s.bits.set(seed + 1)
    u.bits.set(seed + 1)
    op = plan["again"]
    op = [op[0], op[1], dict(op[2], show_progress=plan["again_shows"])]
    with shown(plan["term"], clock, out.stats) as (o, e):
        a = s.step(op)
    b = u.step(quiet(op))
    if "budget" in (a[0], b[0]):
        return
    if a[0] != b[0]:
        raise Violation("outcome", "%s: a later cold fit %s, that of a new "
                        "model %s" % (name, mix.say(a), mix.say(b)))
    if a[0] == "ok":
        x, y = report(s, op[0], []), report(u, op[0], [])
        if x != y or s.bits.n != u.bits.n:
            raise Violation("later", "%s: after fits that showed progress a "
                            "cold fit differs from that of a new model: %s"
                            % (name, mix.first_diff(y, x)))
    out.log.append(a[0])
    mix.count_faults(out, s.fired)
    out.stats["fault:clock " + plan["clock"]["kind"]] += clock.n
    out.stats["probe:texts written"] += written
    out.stats["model:" + spec["model"]] += 1
    out.steps = s.lines + t.lines
    out.nontrivial = written > 0
    out.sig = digest([spec, plan["ops"], plan["faults"], plan["fails"],
                      plan["clock"], plan["term"]])
    if plan["index"] < 3:
        out.sample = dict(spec=spec, ops=plan["ops"], clock=plan["clock"],
                          fails=plan["fails"])
