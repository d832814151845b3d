"""Seeded search driver: generate plans, run them over worker processes,
minimise a failing plan, write and re-verify the replay file, write evidence.

A property module provides
    ID, RULE, LEVEL_NOTE, REAL, STUB
    COUNT   {"quick": n, "thorough": n}
    gen(rng, i, tier) -> plan            (JSON-able dict; pure function of rng)
    run(plan) -> Outcome                 (pure function of plan and library)
    shrink(plan) -> iterable of plans    (optional, property-specific)
"""
import concurrent.futures as cf
import copy
import importlib
import json
import multiprocessing as mp
import os
import random
import subprocess
import sys
import time
import traceback
from collections import Counter

from . import core

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPLAYS = os.path.join(HERE, "replays")


class Violation(Exception):
    """Raised inside run() by oracles."""

    def __init__(self, kind, msg, key=None):
        super().__init__(msg)
        self.kind, self.msg, self.key = kind, msg, key


class Outcome:
    def __init__(self):
        self.viol = None            # dict(kind, msg, key)
        self.findings = []          # further violations carrying a finding key
        self.stats = Counter()      # probes and fault counts ("fault:...")
        self.sig = None             # what makes this run distinct
        self.nontrivial = False
        self.steps = 0              # library lines executed
        self.log = []               # event log (determinism self-check)
        self.sample = None

    def to_dict(self):
        return dict(viol=self.viol, findings=self.findings,
                    stats=dict(self.stats), sig=self.sig,
                    nontrivial=self.nontrivial, steps=self.steps,
                    digest=core.digest(self.log), sample=self.sample)


def report(out, pid, kind, msg, key):
    """A violation that may be a listed known finding: recorded if it is, raised
    otherwise."""
    if key in load_known(pid):
        out.findings.append(dict(kind=kind, msg=str(msg)[:2000], key=key))
        out.stats["known:" + key] += 1
        return
    raise Violation(kind, msg, key)


def prop(pid):
    return importlib.import_module("dst.props.%s" % pid.lower())


MALFORMED = (TypeError, ValueError, KeyError, IndexError, AttributeError,
             ArithmeticError)


class Stalled(BaseException):
    pass


class CpuLimit:
    """Safety net for calls made outside the instruction clock: a run that
    needs far more processor time than any run does has not returned."""
    def __init__(self, plan):
        self.s = 200 if plan.get("tier", "quick") == "quick" else 3000

    def __enter__(self):
        import signal

        def stop(*a):
            raise Stalled("no end after %d s of processor time" % self.s)
        signal.signal(signal.SIGPROF, stop)
        signal.setitimer(signal.ITIMER_PROF, self.s)

    def __exit__(self, *a):
        import signal
        signal.setitimer(signal.ITIMER_PROF, 0)


def execute(pid, plan):
    """Run one plan; library violations are data, harness failures raise."""
    import numpy as np
    import warnings
    mod = prop(pid)
    core.lib()
    out = Outcome()
    np.random.seed(plan.get("seed", 0) % 2 ** 32)
    random.seed(plan.get("seed", 0))
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            with np.errstate(all="ignore"), CpuLimit(plan):
                mod.run(plan, out)
        except Violation as v:
            out.viol = dict(kind=v.kind, msg=str(v.msg)[:2000], key=v.key)
        except core.SimBudget as e:
            out.viol = dict(kind="no-return", msg=str(e), key=None)
        except Stalled as e:
            out.viol = dict(kind="stalled", msg=str(e), key=None)
        except core.INJECTED + (core.HarnessError,):
            raise
        except Exception as e:
            # an exception that came out of the library where the plan
            # injected nothing that could explain it
            at = _library_frame(e)
            if at is None:
                if not isinstance(e, MALFORMED):
                    raise
                # never seen on a sound library: an oracle was handed something
                # it cannot even read (wrong shape, missing key, ...)
                out.viol = dict(kind="malformed", key=None, msg=
                                "the oracle cannot read what the library "
                                "reports: %s: %s\n%s" % (
                                    type(e).__name__, e,
                                    traceback.format_exc()[-700:]))
            else:
                out.viol = dict(kind="raises", key=None, msg="%s: %s (at %s)"
                                % (type(e).__name__, e, at))
    return out.to_dict()


def _library_frame(e):
    tb, at = e.__traceback__, None
    while tb is not None:
        f = tb.tb_frame.f_code
        if f.co_filename.startswith(core.LIBDIR):
            at = "%s:%s" % (f.co_filename[len(core.LIBDIR):], f.co_name)
        tb = tb.tb_next
    return at


def _job(pid, plan):
    try:
        return ("ok", execute(pid, plan))
    except BaseException:                     # noqa: B902
        return ("err", traceback.format_exc())


def limit_memory(gb=3):
    """A rare random word may make the library ask for an enormous array; it
    gets a MemoryError instead of the machine."""
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (gb << 30, gb << 30))


def _init_worker():
    limit_memory()
    try:
        import ctypes
        ctypes.CDLL(None).prctl(1, 9)      # die with the check
    except Exception:
        pass
    try:
        import faulthandler
        faulthandler.enable()
    except Exception:
        pass
    core.lib()


def make_plan(pid, seed, i, tier):
    r = random.Random(core.seed_of("plan", pid, seed, i))
    r.tier = tier
    plan = prop(pid).gen(r, i, tier)
    plan["seed"] = core.seed_of("run", pid, seed, i)
    plan["index"] = i
    plan["tier"] = tier
    return plan


def load_known(pid):
    p = os.path.join(HERE, "known_findings.json")
    with open(p) as f:
        k = json.load(f)
    return {e["key"]: e for e in k["findings"]
            if e["property"] == pid and e["status"] == "open"}


# -------------------------------------------------------------- minimisation
def _list_fields(plan):
    return [k for k in ("faults", "preempts", "ops", "past", "parts")
            if isinstance(plan.get(k), list) and plan[k]]


def _candidates(pid, plan):
    for k in _list_fields(plan):
        n = len(plan[k])
        size = n
        while size >= 1:
            for s in range(0, n, size):
                c = copy.deepcopy(plan)
                del c[k][s:s + size]
                yield c
            size //= 2
    mod = prop(pid)
    if hasattr(mod, "shrink"):
        for c in mod.shrink(copy.deepcopy(plan)):
            yield c


def minimise(pid, plan, viol, wall=60):
    t0 = time.time()
    best, bestv = plan, viol
    seen = {core.digest(json.dumps(plan, sort_keys=True))}
    progress = True
    tried = 0
    while progress and time.time() - t0 < wall:
        progress = False
        for c in _candidates(pid, best):
            if time.time() - t0 > wall:
                break
            d = core.digest(json.dumps(c, sort_keys=True))
            if d in seen:
                continue
            seen.add(d)
            tried += 1
            try:
                r = execute(pid, c)
            except Exception:
                continue
            v = r["viol"]
            if v and v["kind"] == viol["kind"] and v["key"] == viol["key"]:
                best, bestv = c, v
                progress = True
                break
    return best, bestv, tried


def _min_job(pid, plan, viol, wall):
    try:
        return ("ok", minimise(pid, plan, viol, wall))
    except BaseException:                     # noqa: B902
        return ("err", traceback.format_exc())


def write_replay(pid, seed, plan, viol, digest):
    os.makedirs(REPLAYS, exist_ok=True)
    name = "%s-%d-%d.json" % (pid, seed, plan.get("index", 0))
    path = os.path.join(REPLAYS, name)
    with open(path, "w") as f:
        json.dump(dict(property=pid, verif_seed=seed, plan=plan,
                       violation=viol, digest=digest), f, indent=1,
                  sort_keys=True)
    return path


def replay_fresh(path):
    """Replay in a fresh interpreter; (reproduced?, output)."""
    env = dict(os.environ, PYTHONPATH=HERE)
    p = subprocess.run([sys.executable, "-B", "-m", "dst.replay", path],
                       cwd=HERE, env=env, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True, timeout=600)
    return p.returncode == 1 and "VIOLATION property=" in p.stdout, p.stdout


# --------------------------------------------------------------------- check
def check(pid, tier, seed, count=None, workers=None, wall=None):
    mod = prop(pid)
    t0 = time.time()
    n = count or mod.COUNT[tier]
    wall = wall or {"quick": getattr(mod, "WALL", 240),
                    "thorough": 1500}[tier]
    hard = wall + 420
    workers = workers or min(8, max(2, os.cpu_count() or 2))
    known = load_known(pid)
    core.lib()
    ctx = mp.get_context("fork")
    stats, sigs, samples = Counter(), set(), []
    runs = steps = nontriv = 0
    found = {}
    viol = None
    chain = core.seed_of("chain")
    ex = cf.ProcessPoolExecutor(workers, mp_context=ctx,
                                initializer=_init_worker)
    pend = {}
    nxt = 0
    capped = False
    results = {}
    try:
        while True:
            while nxt < n and len(pend) < workers * 2 and viol is None:
                if time.time() - t0 > wall and runs > 0:
                    capped = True
                    break
                plan = make_plan(pid, seed, nxt, tier)
                pend[ex.submit(_job, pid, plan)] = plan
                nxt += 1
            if not pend:
                break
            done, _ = cf.wait(pend, timeout=5,
                              return_when=cf.FIRST_COMPLETED)
            if time.time() - t0 > hard:
                raise core.HarnessError("hard wall limit: a run did not end")
            for f in done:
                plan = pend.pop(f)
                tag, r = f.result()
                if tag == "err":
                    raise core.HarnessError("run %d failed in the harness:\n%s"
                                            % (plan["index"], r))
                runs += 1
                steps += r["steps"]
                stats.update(r["stats"])
                results[plan["index"]] = r["digest"]
                if r["nontrivial"]:
                    nontriv += 1
                    sigs.add(r["sig"])
                if r["sample"] is not None and len(samples) < 3:
                    samples.append(r["sample"])
                for v in r["findings"] + ([r["viol"]] if r["viol"] else []):
                    if v["key"] in known:
                        found.setdefault(v["key"], v)
                    elif viol is None or plan["index"] < viol[0]["index"]:
                        viol = (plan, v)
            if viol is not None and viol[1]["kind"] == "stalled":
                break
        path = None
        if viol is not None:
            plan, v = viol
            tag, r = ("ok", (plan, v, 0)) if v["kind"] == "stalled" else \
                ex.submit(_min_job, pid, plan, v,
                               40 if tier == "quick" else 180).result(
                                   timeout=400)
            if tag == "err":
                raise core.HarnessError("minimiser:\n%s" % r)
            mplan, mv, tried = r
            if v["kind"] == "stalled":
                path = write_replay(pid, seed, plan, v, None)
            else:
                rr = ex.submit(_job, pid, mplan).result(timeout=300)[1]
                path = write_replay(pid, seed, mplan, mv, rr["digest"])
            ok, txt = replay_fresh(path)
            if not ok:
                # fall back on the unminimised plan before giving up
                rr = ex.submit(_job, pid, plan).result(timeout=300)[1]
                path = write_replay(pid, seed, plan, v, rr["digest"])
                ok, txt = replay_fresh(path)
            if not ok:
                raise core.HarnessError(
                    "violation did not reproduce in a fresh process: %s\n%s"
                    % (v, txt))
            viol = (mplan, mv, tried)
    finally:
        ex.shutdown(wait=False, cancel_futures=True)
    el = time.time() - t0
    faults = {k[6:]: v for k, v in sorted(stats.items())
              if k.startswith("fault:")}
    probes = {k: v for k, v in sorted(stats.items())
              if not k.startswith("fault:")}
    order = core.digest([results[i] for i in sorted(results)])
    ev = dict(
        property=pid, tier=tier, seed=seed, level="exploration",
        coverage=dict(
            evaluations=runs, distinct_nontrivial=len(sigs),
            rule=mod.RULE, samples=samples or ["(no sample)"],
            nontrivial_runs=nontriv,
            runs_per_hour=int(runs / el * 3600) if el > 0 else 0,
            seeds_per_hour=int(runs / el * 3600) if el > 0 else 0,
            simulated_time_library_lines=steps,
            faults_fired=faults, probes=probes,
            real_components=mod.REAL, stubbed_components=mod.STUB,
            planned_runs=n, capped_by_wall=capped,
            history_digest=order,
            known_findings_seen=sorted(found)),
        assumptions=getattr(mod, "ASSUMPTIONS", []),
        wall_s=round(el, 2), violations=1 if viol else 0)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", "%s.json" % pid), "w") as f:
        json.dump(ev, f, indent=1, sort_keys=True, default=str)
    print("%s tier=%s seed=%d runs=%d distinct=%d steps=%d faults=%s wall=%.1fs"
          % (pid, tier, seed, runs, len(sigs), steps, faults, el))
    for k in sorted(found):
        print("KNOWN-FINDING: property=%s %s" % (pid, known[k]["what"]))
    if viol:
        mplan, mv, tried = viol
        print("minimised in %d trials: %s" % (tried, json.dumps(mplan)[:1500]))
        print("%s: %s" % (mv["kind"], mv["msg"]))
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    return 0


def main(argv):
    pid = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    kw = {}
    for a in argv[1:]:
        k, v = a.lstrip("-").split("=")
        if k == "tier":
            tier = v
        elif k == "seed":
            seed = int(v)
        else:
            kw[k] = int(v)
    try:
        rc = check(pid, tier, seed, **kw)
    except BaseException:                     # noqa: B902
        traceback.print_exc()
        sys.stdout.flush()
        print("ERROR: the check for %s could not be completed" % pid)
        rc = 2
    sys.stdout.flush()
    # no worker may outlive the check: it would hold its output open
    for p in mp.active_children():
        p.kill()
    os._exit(rc)


