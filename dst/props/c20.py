"""C20: bundled data sets load completely or not at all."""
import builtins
import contextlib
import csv
import errno
import io
import os
import random as pyrandom

import numpy as np

from .. import core
from ..core import digest
from ..runner import Violation

ID = "C20"
COUNT = {"quick": 2400, "thorough": 60000}
TECHNIQUE = ("seeded search over read splits, read failures and thread "
             "interleavings of the data-set loaders")
RULE = ("a run loads bundled data sets several times, in one thread or in "
        "several under the scheduler; every open of a shipped file goes "
        "through a simulated file whose reads are split, delayed, interrupted "
        "and retried, and may fail with an I/O error, as may opening, calls "
        "into pandas and the thread itself; results are compared with an "
        "independent parse of the shipped file, and earlier results are "
        "overwritten in between; non-trivial when some simulated read was "
        "served; distinct by (loads, read plan, faults, switches)")
REAL = ["pyrichlet.utils._loaders", "pandas csv reader", "io buffering"]
STUB = ["raw file reads (simulated splits, delays and errors)",
        "thread scheduler"]
ASSUMPTIONS = ["the shipped files are intact"]
NAMES = ["load_chaetocnema", "load_penguins"]
FEATURES = {"load_chaetocnema": ["X10", "X12", "X14", "X18", "X40", "X48"],
            "load_penguins": ["bill_length_mm", "bill_depth_mm",
                              "flipper_length_mm", "body_mass_g"]}
FILES = {"load_chaetocnema": "chaetocnema.csv",
         "load_penguins": "penguins.csv"}


def gen_reads(r):
    """How one opened file behaves."""
    o = dict(chunk=r.choice([1, 2, 7, 64, 1000, 4096, 10 ** 6]),
             jitter=r.random() < .5, eintr=r.random() < .3,
             seed=r.randrange(10 ** 6))
    u = r.random()
    if u < .25:
        o["fail_read"] = r.choice([1, 2, 3, 5, 9, 20, 60])
        o["errno"] = r.choice([errno.EIO, errno.ENODEV, errno.ESTALE,
                               errno.EACCES])
    elif u < .32:
        o["fail_open"] = r.choice([errno.ENOENT, errno.EACCES, errno.EMFILE])
    elif u < .36:
        o["fail_close"] = errno.EIO
    return o


def gen(r, i, tier):
    n = 1 if r.random() < .55 else r.choice([2, 3])
    parts = []
    for _ in range(n):
        parts.append([[r.choice(NAMES), r.choice(
            ["keep", "numbers", "labels", "columns", "drop", "all"])]
            for _ in range(r.choice([1, 2, 3]))])
    pre, at = [], 0
    for _ in range(r.choice([2, 6, 20])):
        at += r.choice([1, 1, 2, 3])
        pre.append([at, r.randrange(3)])
    faults = []
    if r.random() < .3:
        faults.append([r.randrange(n), "call", r.randrange(1, 12),
                       r.choice(["interrupt", "memory"])])
    return dict(parts=parts, preempts=pre, faults=faults,
                reads=[gen_reads(r) for _ in range(10)])


class SimRaw(io.RawIOBase):
    """An opened shipped file: its bytes arrive as the plan says."""

    def __init__(self, path, plan, stats):
        with _real_open(path, "rb") as f:
            self.b = f.read()
        self.pos = 0
        self.plan, self.stats = plan, stats
        self.n = 0
        self.r = pyrandom.Random(plan["seed"])
        self.name = path
        self.mode = "rb"
        self.failed = False

    def readable(self):
        return True

    def seekable(self):
        return True

    def seek(self, off, whence=0):
        self.pos = off + (0, self.pos, len(self.b))[whence]
        return self.pos

    def tell(self):
        return self.pos

    def readinto(self, buf):
        self.n += 1
        p = self.plan
        if p.get("fail_read") == self.n:
            self.stats["fault:read error"] += 1
            self.failed = True
            raise core.InjectedOSError(p["errno"], "injected", self.name)
        if p["eintr"] and self.r.random() < .3:
            self.stats["fault:read interrupted (EINTR)"] += 1
            raise InterruptedError(errno.EINTR, "injected")
        k = p["chunk"]
        if p["jitter"]:
            k = self.r.randint(1, k)
        d = self.b[self.pos:self.pos + min(k, len(buf))]
        if len(d) < min(len(buf), len(self.b) - self.pos):
            self.stats["fault:short read"] += 1
        buf[:len(d)] = d
        self.pos += len(d)
        self.stats["probe:simulated reads"] += 1
        return len(d)

    def close(self):
        if not self.closed:
            super().close()
            if self.plan.get("fail_close"):
                self.stats["fault:close error"] += 1
                self.failed = True
                raise core.InjectedOSError(self.plan["fail_close"],
                                           "injected", self.name)


_real_open = io.open


class Files:
    """Serves every open of a shipped file while active."""

    def __init__(self, reads, stats):
        self.reads, self.stats, self.k = reads, stats, 0
        self.bad = 0
        self.raws = []
        self.data = os.path.join(core.LIBDIR, "utils", "_data") + os.sep

    def open(self, file, mode="r", buffering=-1, encoding=None, errors=None,
             newline=None, closefd=True, opener=None):
        try:
            path = os.path.realpath(os.fspath(file))
        except TypeError:
            path = ""
        if not isinstance(path, str) or not path.startswith(self.data) or \
                not path.endswith(".csv") or "w" in mode or "a" in mode:
            return _real_open(file, mode, buffering, encoding, errors,
                              newline, closefd, opener)
        p = self.reads[self.k % len(self.reads)]
        self.k += 1
        if p.get("fail_open"):
            self.stats["fault:open error"] += 1
            self.bad += 1
            raise core.InjectedOSError(p["fail_open"], "injected", path)
        raw = SimRaw(path, p, self.stats)
        self.raws.append(raw)
        if buffering == 0:
            return raw
        b = io.BufferedReader(raw, buffering if buffering > 1 else 8192)
        if "b" in mode:
            return b
        return io.TextIOWrapper(b, encoding, errors, newline)

    def failures(self):
        return self.bad + sum(x.failed for x in self.raws)

    def __enter__(self):
        builtins.open, io.open = self.open, self.open
        return self

    def __exit__(self, *a):
        builtins.open, io.open = _real_open, _real_open


_ref = {}


def truth(name):
    """[(features...), label] of every complete record of the shipped file."""
    if name not in _ref:
        p = os.path.join(core.LIBDIR, "utils", "_data", FILES[name])
        with _real_open(p, newline="") as f:
            rows = list(csv.reader(f))
        head = rows[0]
        ix = [head.index(c) for c in FEATURES[name]]
        il = head.index("species")
        recs = []
        for row in rows[1:]:
            if not row:
                continue
            v = [row[k].strip() for k in ix] + [row[il].strip()]
            if any(x in ("", "NA", "NaN", "nan") for x in v):
                continue
            recs.append(tuple(float(x) for x in v[:-1]) + (v[-1],))
        _ref[name] = recs
    return _ref[name]


def records(name, res):
    x, y = res
    if not hasattr(x, "columns"):
        raise Violation("shape", "%s: features are %s" % (name, type(x)))
    cols = [str(c) for c in x.columns]
    if cols != FEATURES[name]:
        raise Violation("columns", "%s: columns %s, the file's features are %s"
                        % (name, cols, FEATURES[name]))
    v = np.asarray(x, dtype=float)
    y = list(np.asarray(y))
    if len(v) != len(y):
        raise Violation("aligned", "%s: %d rows of features and %d labels"
                        % (name, len(v), len(y)))
    return [tuple(a) + (str(b).strip(),) for a, b in zip(v.tolist(), y)]


def judge(name, res, what):
    got, ref = records(name, res), truth(name)
    if got != ref:
        if len(got) != len(ref):
            d = "%d records instead of %d" % (len(got), len(ref))
        else:
            k = next(k for k in range(len(ref)) if got[k] != ref[k])
            d = "record %d is %s instead of %s" % (k, got[k], ref[k])
        raise Violation("content", "%s (%s): %s" % (name, what, d))


def overwrite(res, how):
    x, y = res
    with contextlib.suppress(ValueError, TypeError):
        if how in ("numbers", "all"):
            x.iloc[:, :] = -1
        if how in ("labels", "all") and y.flags.writeable:
            y[...] = "changed"
        if how in ("columns", "all"):
            x.columns = ["c%d" % k for k in range(x.shape[1])]
        if how in ("drop", "all"):
            x.drop(x.index[:5], inplace=True)
        if how == "numbers":
            v = x.to_numpy()
            if v.flags.writeable:
                v[...] = -2
        if how == "all":
            y.sort()


def run(plan, out):
    from pyrichlet import utils
    if not plan["parts"]:
        return
    files = Files(plan["reads"], out.stats)
    done = []

    def worker(i):
        def go():
            for name, how in plan["parts"][i]:
                k = files.failures()
                try:
                    res = getattr(utils, name)()
                except core.INJECTED:
                    raise
                except Exception as e:
                    if files.failures() == k:
                        raise
                    done.append((name, "raised", type(e).__name__))
                    continue
                judge(name, res, "thread %d" % i)
                # what was loaded before is what it was
                for n2, r2, st in list(done):
                    if st == "keep":
                        judge(n2, r2, "loaded before")
                for n2, r2, st in list(done):
                    if st not in ("raised", "keep") and not isinstance(
                            r2, str) and (r2[0] is res[0] or r2[1] is res[1]):
                        raise Violation("shared", "%s returned an object it "
                                        "returned before" % name)
                done.append((name, res, how))
                overwrite(res, how)
                out.stats["probe:loads compared"] += 1
        return go

    n = len(plan["parts"])
    inj = {}
    with files:
        if n == 1:
            f = [x for x in plan["faults"] if x[0] == 0]
            kw = {}
            if f:
                kw["at_line" if f[0][1] == "line" else "at_call"] = {
                    f[0][2]: f[0][3]}
            for _ in range(len(plan["parts"][0]) + 1):
                a = core.Arena(budget=100_000, **kw)
                try:
                    with a:
                        worker(0)()
                    break
                except core.INJECTED as e:
                    # tries again, with whatever is left of the plan
                    kw = {}
                    out.stats["probe:%s" % type(e).__name__] += 1
            for x in a.fired:
                out.stats["fault:%s@%s" % (x[-1], x[0])] += 1
            sw = []
        else:
            at = {f[0]: {f[2]: f[3]} for f in plan["faults"]}
            s = core.Sched([worker(i) for i in range(n)], plan["preempts"],
                           budget=100_000, at_call=at).run()
            sw = s.switches
            for e in s.exc:
                if isinstance(e, core.INJECTED):
                    out.stats["probe:%s" % type(e).__name__] += 1
                elif e is not None:
                    raise e
            out.stats["fault:preemption"] += len(sw)
    for name, res, how in done:
        if how == "keep":
            judge(name, res, "at the end")
    # and everything still loads
    for name in NAMES:
        judge(name, getattr(utils, name)(), "afterwards")
    out.log.append([[d[0] for d in done], files.k, sw])
    out.steps = files.k + sum(x.n for x in files.raws)
    out.nontrivial = len(files.raws) > 0
    out.sig = digest([plan["parts"], plan["reads"][:files.k], plan["faults"],
                      sw])
    if plan["index"] < 3:
        out.sample = dict(parts=plan["parts"], reads=plan["reads"][:2],
                          opened=files.k, switches=sw[:10])
