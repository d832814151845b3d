"""C09: results depend only on data, settings and the supplied generator."""
import contextlib
import gc
import json
import os
import random as pyrandom
import subprocess
import sys
import threading
import time

import numpy as np

from .. import core, mix
from .. import weights as W
from ..core import digest, freeze
from ..runner import Violation
from .c08 import wspec
from .c11 import gen_past

ID = "C09"
COUNT = {"quick": 200, "thorough": 5000}
WALL = 300
TECHNIQUE = ("seeded search over call histories executed in two separately "
             "booted processes with different hash seeds, clocks, global random "
             "states and earlier work")
RULE = ("a run executes several call histories (fits by both methods, queries, "
        "weight-model calls, data-set loads; numpy Generators of four kinds or "
        "an integer seed) in this process and in a freshly booted one that has "
        "another hash seed, clock, global random state, locale, working "
        "directory, heap layout, thread and order of work; every step's digest "
        "must agree; distinct by the histories")
REAL = ["pyrichlet.mixture_models", "pyrichlet.weight_models",
        "pyrichlet.utils", "numpy bit generators", "scipy", "sklearn"]
STUB = ["clock (shifted, jumping) and environment of the second process"]
ASSUMPTIONS = ["one machine, one BLAS thread: the same floating-point kernels "
               "in both processes"]
KINDS = ["PCG64", "MT19937", "Philox", "SFC64", "int"]


def gen_job(r):
    u = r.random()
    kind = r.choice(KINDS)
    seed = r.randrange(2 ** 32)
    if u < .12:
        spec = W.gen_spec(r)
        return dict(type="w", spec=spec, kind=kind, seed=seed,
                    ops=[W.gen_op(r, spec, True)
                         for _ in range(r.choice([2, 4, 8]))])
    if u < .17:
        return dict(type="load", name=r.choice(["load_chaetocnema",
                                                "load_penguins"]))
    spec = mix.gen_model(r)
    data = [mix.gen_data(r)]
    dim = len(data[0][0])
    if r.random() < .3:
        data.append(mix.gen_data(r, dim=dim))
    spec["priors"] = mix.gen_priors(r, dim)
    var = spec["model"] in mix.VAR and r.random() < .35
    ops = [mix.gen_varfit(r, spec) if var else mix.gen_fit(r, spec, 0)]
    ops += gen_past(r, spec, data, r.choice([0, 1, 2, 4]))
    ops += [mix.gen_query(r, mix.VQ if var else mix.GQ, dim)
            for _ in range(r.choice([1, 2, 3]))]
    return dict(type="m", spec=spec, data=data, kind=kind, seed=seed, ops=ops)


def gen(r, i, tier):
    jobs = [gen_job(r) for _ in range(r.choice([2, 3, 4, 5]))]
    order = list(range(len(jobs)))
    r.shuffle(order)
    env = dict(hash=r.randrange(1, 4294967295), shift=r.choice(
        [0, -1e9, 1e6, 86400.0 * 400]), jump=r.choice([0, 1, -1, 3600.0]),
        tz=r.choice(["UTC", "Asia/Tokyo", "America/Lima"]),
        npseed=r.randrange(2 ** 32), junk=r.randrange(200),
        thread=r.random() < .3, gc=r.choice(["on", "off", "often"]),
        cwd=r.random() < .5, stdio=r.choice(["utf-8", "latin-1"]),
        before=[gen_job(r) for _ in range(r.choice([0, 1, 2]))])
    return dict(parts=jobs, order=order, env=env)


def make_rng(kind, seed):
    if kind == "int":
        return seed
    return np.random.Generator(getattr(np.random, kind)(seed))


def do_job(job):
    """[[what, digest], ...] of one job."""
    log = []
    if job["type"] == "load":
        from pyrichlet import utils
        x, y = getattr(utils, job["name"])()
        return [[job["name"], digest([list(map(str, x.columns)),
                                      np.asarray(x).tolist(),
                                      list(map(str, y))])]]
    g = make_rng(job["kind"], job["seed"])
    if job["type"] == "w":
        m = W.build(job["spec"], g)
        run_one = W.apply
        args = ()
    else:
        m = mix.build(job["spec"], g)
        args = ([np.array(d, dtype=float) for d in job["data"]],)
        run_one = mix.apply
    for k, op in enumerate(job["ops"]):
        a = core.Arena(budget=250_000)
        try:
            with a:
                r = ("ok", freeze(run_one(m, op, *args)))
        except core.SimBudget:
            log.append(["budget", ""])
            break
        except Exception as e:
            r = ("exc", type(e).__name__)
        st = freeze(m.get_weights()) if job["type"] == "w" else mix.state(m)
        log.append(["%d: %s" % (k, json.dumps(op)[:200]),
                    digest([r, st])])
    if job["kind"] != "int":
        log.append(["random words left", digest(repr(g.random(3).tolist()))])
    return log


@contextlib.contextmanager
def disturbed(env):
    """Everything results must not depend on."""
    np.random.seed(env["npseed"])
    pyrandom.seed(env["npseed"] + 1)
    junk = [bytearray(8 + 17 * k) for k in range(env["junk"] * 40)]
    junk = junk[::3]
    if env["gc"] == "off":
        gc.disable()
    elif env["gc"] == "often":
        gc.set_threshold(50, 2, 2)
    real = {k: getattr(time, k) for k in ("time", "monotonic", "perf_counter",
                                          "time_ns", "perf_counter_ns",
                                          "monotonic_ns", "process_time")}
    n = [0]

    def fake(f, unit):
        def g():
            n[0] += 1
            v = f() + (env["shift"] + env["jump"] * n[0]) * unit
            return int(v) if unit != 1 else v
        return g
    for k, f in real.items():
        setattr(time, k, fake(f, 10 ** 9 if k.endswith("_ns") else 1))
    np.set_printoptions(precision=env["junk"] % 7 + 1)
    try:
        yield
    finally:
        for k, f in real.items():
            setattr(time, k, f)
    del junk


def child(plan):
    """In the other process."""
    env = plan["env"]
    res = {}

    def work():
        with np.errstate(all="ignore"):
            for j in env["before"]:
                do_job(j)
            for i in plan["order"]:
                if i < len(plan["parts"]):
                    res[i] = do_job(plan["parts"][i])
    with disturbed(env):
        if env["thread"]:
            t = threading.Thread(target=work)
            t.start()
            t.join()
        else:
            work()
    return {str(k): v for k, v in res.items()}


def boot(plan):
    env = plan["env"]
    here = os.path.dirname(os.path.dirname(os.path.dirname(
        os.path.abspath(__file__))))
    e = dict(os.environ, PYTHONPATH=here, PYTHONHASHSEED=str(env["hash"]),
             TZ=env["tz"], PYTHONIOENCODING=env["stdio"],
             DST_REPO=core.REPO)
    p = subprocess.run([sys.executable, "-B", "-m", "dst.c09child"],
                       input=json.dumps(plan), env=e, text=True,
                       cwd="/" if env["cwd"] else here, timeout=300,
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if p.returncode != 0:
        raise core.HarnessError("second process: %s" % p.stderr[-1500:])
    return json.loads(p.stdout)


def run(plan, out):
    here = [do_job(j) for j in plan["parts"]]
    plan = dict(plan, order=[i for i in plan["order"]
                             if i < len(plan["parts"])])
    there = boot(plan)
    for i, a in enumerate(here):
        b = there[str(i)]
        j = plan["parts"][i]
        for x, y in zip(a, b):
            if x != y:
                raise Violation("differs", "%s: step '%s' gives another result "
                                "in a process with another hash seed, clock, "
                                "global state and order of work" % (
                                    json.dumps(j.get("spec", j))[:300], x[0]))
        out.stats["probe:steps compared"] += len(a)
        out.stats["probe:%s histories" % j["type"]] += 1
        out.stats["generator:%s" % j.get("kind")] += 1
    # once more here, after the others
    again = [do_job(j) for j in plan["parts"]]
    for i, (a, b) in enumerate(zip(here, again)):
        for x, y in zip(a, b):
            if x != y:
                raise Violation("differs again", "%s: step '%s' gives another "
                                "result when repeated in the same process" % (
                                    json.dumps(plan["parts"][i].get(
                                        "spec", {}))[:300], x[0]))
    env = plan["env"]
    for k in ("shift", "jump"):
        if env[k]:
            out.stats["fault:clock %s" % k] += 1
    out.stats["fault:process restart"] += 1
    out.stats["fault:earlier work"] += len(env["before"]) > 0
    out.log.append(here)
    out.steps = sum(len(x) for x in here)
    out.nontrivial = True
    out.sig = digest(plan["parts"])
    if plan["index"] < 2:
        out.sample = dict(parts=plan["parts"], env={k: v for k, v in
                                                    env.items()
                                                    if k != "before"})
