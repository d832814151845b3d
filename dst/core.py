"""Simulation kernel: the seams (random bits, instruction clock, call faults,
thread scheduler) and the library import.

Everything nondeterministic that pyrichlet touches goes through one of these:

  * random bits      -> SimBits, a BitGenerator whose every 64-bit word is
                        chosen by the simulator (real numpy Generators sit on it)
  * instruction time -> Arena, driven by sys.monitoring LINE events of files
                        under <repo>/pyrichlet: interrupts, caller actions,
                        preemptions and budgets are expressed in this clock
  * failing calls    -> Arena, driven by sys.monitoring CALL events (calls the
                        library makes into numpy/scipy/sklearn/pandas/Generator)
  * threads          -> Sched, real threads parked and released one at a time

No hook in the library is needed for any of them.
"""
import ctypes
import hashlib
import json
import os
import sys
import threading

REPO = os.path.realpath(os.environ.get("DST_REPO", "/repo"))
LIBDIR = os.path.join(REPO, "pyrichlet") + os.sep
for _v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ[_v] = "1"
os.environ.setdefault("MPLBACKEND", "Agg")
sys.dont_write_bytecode = True
if REPO not in sys.path:
    sys.path.insert(0, REPO)

import numpy as np  # noqa: E402


class HarnessError(Exception):
    """The check itself is broken (never reported as a violation)."""


class SimBudget(BaseException):
    """The library executed more instructions than the run allows."""


class InjectedMemoryError(MemoryError):
    pass


class InjectedInterrupt(KeyboardInterrupt):
    pass


class InjectedOSError(OSError):
    pass


INJECTED = (InjectedMemoryError, InjectedInterrupt, InjectedOSError)
EXC = {"interrupt": InjectedInterrupt, "memory": InjectedMemoryError,
       "oserror": InjectedOSError}


def seed_of(*parts):
    h = hashlib.sha256(json.dumps(parts, sort_keys=True).encode()).digest()
    return int.from_bytes(h[:6], "little")


# --------------------------------------------------------------------------
# random bits
# --------------------------------------------------------------------------
class _bitgen_t(ctypes.Structure):
    _fields_ = [("state", ctypes.c_void_p), ("next_uint64", ctypes.c_void_p),
                ("next_uint32", ctypes.c_void_p),
                ("next_double", ctypes.c_void_p),
                ("next_raw", ctypes.c_void_p)]


_U64 = ctypes.CFUNCTYPE(ctypes.c_uint64, ctypes.c_void_p)
_U32 = ctypes.CFUNCTYPE(ctypes.c_uint32, ctypes.c_void_p)
_DBL = ctypes.CFUNCTYPE(ctypes.c_double, ctypes.c_void_p)
_cap_new = ctypes.pythonapi.PyCapsule_New
_cap_new.restype = ctypes.py_object
_cap_new.argtypes = [ctypes.c_void_p, ctypes.c_void_p, ctypes.c_void_p]
# the capsule keeps this pointer: the buffer lives as long as the process
_NAME = ctypes.create_string_buffer(b"BitGenerator")
_M53 = 2.0 ** -53
_BLOCK = 1024


class SimBits:
    """A numpy-compatible BitGenerator owned by the simulator.

    The word stream is a pure function of `seed`; `extremes` maps a word index
    to a 64-bit word to deliver instead (a legal but rare outcome of a real
    generator).
    """

    def __init__(self, seed, extremes=None):
        self.lock = threading.RLock()

        def u64(_):
            i = self.n
            self.n = i + 1
            if self.ext:
                w = self.ext.get(i)
                if w is not None:
                    self.fired += 1
                    return w
            b, o = divmod(i, _BLOCK)
            if b != self._b:
                self._fill(b)
            return self._buf[o]

        self._cb = (_U64(u64), _U32(lambda s: u64(s) >> 32),
                    _DBL(lambda s: (u64(s) >> 11) * _M53))
        ad = [ctypes.cast(f, ctypes.c_void_p).value for f in self._cb]
        self._st = _bitgen_t(None, ad[0], ad[1], ad[2], ad[0])
        self.capsule = _cap_new(ctypes.addressof(self._st),
                                ctypes.addressof(_NAME), None)
        self.set(seed, extremes)

    def _fill(self, b):
        if b != self._b + 1:
            self._src = np.random.PCG64(self.seed)
            if b:
                self._src.advance(b * _BLOCK)
        self._buf = self._src.random_raw(_BLOCK).tolist()
        self._b = b

    def set(self, seed, extremes=None):
        """Rewind to the start of stream `seed`."""
        self.seed = int(seed)
        self.ext = {int(k): int(v) for k, v in (extremes or {}).items()}
        self.n = 0
        self.fired = 0
        self._b = -1
        self._src = np.random.PCG64(self.seed)
        self._buf = None
        return self


_KEEP = []


def sim_rng(seed, extremes=None):
    """(numpy Generator, SimBits) pair. The SimBits is kept alive: numpy holds
    only a raw pointer into it once RandomState copies the struct."""
    b = SimBits(seed, extremes)
    if len(_KEEP) > 256:
        del _KEEP[:128]
    _KEEP.append(b)
    return np.random.Generator(b), b


# --------------------------------------------------------------------------
# instruction clock
# --------------------------------------------------------------------------
_mon = sys.monitoring
_TOOL = 4
_tls = threading.local()
_ALLOC_MODS = ("numpy", "scipy", "sklearn", "pandas")


def _is_library_call(fn):
    """Is this callee outside the library and able to fail (allocate)?"""
    if isinstance(fn, np.ufunc):
        return True
    m = getattr(fn, "__module__", None)
    if m is None:
        o = getattr(fn, "__objclass__", None)
        return o is not None and o.__module__.split(".")[0] == "numpy"
    if not isinstance(m, str):
        return False
    if m.split(".")[0] not in _ALLOC_MODS:
        return False
    q = getattr(fn, "__qualname__", None) or getattr(fn, "__name__", "")
    return "errstate" not in q and q != "finfo"


class Arena:
    """One stretch of library execution under the simulator's control, on the
    current thread.

    budget       max library lines (SimBudget beyond)
    at_line      {line_no: action}; action is "interrupt"/"memory"/... (raise)
                 or a callable run at that instant
    at_call      {call_no: exc name}: that outgoing call fails
    """

    def __init__(self, budget=None, at_line=None, at_call=None, log=False):
        self.budget = budget or 3_000_000
        self.at_line = dict(at_line or {})
        self.at_call = dict(at_call or {})
        self.lines = 0
        self.calls = 0
        self.fired = []
        self.sched = None
        self.tid = None
        self.where = [] if log else None
        self._prev = None

    def __enter__(self):
        install()
        self._prev = getattr(_tls, "arena", None)
        _tls.arena = self
        return self

    def __exit__(self, *a):
        _tls.arena = self._prev
        return False


def _on_line(code, line):
    fn = code.co_filename
    if not fn.startswith(LIBDIR):
        return _mon.DISABLE
    a = getattr(_tls, "arena", None)
    if a is None:
        return
    a.lines += 1
    if a.lines > a.budget:
        raise SimBudget("library executed more than %d lines" % a.budget)
    if a.at_line:
        act = a.at_line.pop(a.lines, None)
        if act is not None:
            a.fired.append(("line", a.lines, fn[len(LIBDIR):], line,
                            act if isinstance(act, str) else "action"))
            if isinstance(act, str):
                raise EXC[act]("injected at %s:%d" % (fn[len(LIBDIR):], line))
            _tls.arena = None
            try:
                act()
            finally:
                _tls.arena = a
    if a.sched is not None:
        a.sched._tick(a, fn, line)


def _on_call(code, off, fn, arg0):
    if not code.co_filename.startswith(LIBDIR):
        return _mon.DISABLE
    a = getattr(_tls, "arena", None)
    if a is None:
        return
    if not _is_library_call(fn):
        return
    a.calls += 1
    if a.at_call:
        act = a.at_call.pop(a.calls, None)
        if act is not None:
            a.fired.append(("call", a.calls, code.co_filename[len(LIBDIR):],
                            getattr(fn, "__name__", str(fn)), act))
            raise EXC[act]("injected in call to %s"
                           % getattr(fn, "__name__", fn))


def interrupt_at(r):
    """Where an interrupt lands: on an outgoing call of the library, as for
    any failing call; in the thorough tier also between any two of its lines.

    A statement boundary is not something behaviour-preserving edits keep, a
    call is (most of the run time is spent in calls); so the quick tier, run
    on every change, leaves the boundaries out."""
    return "line" if getattr(r, "tier", "quick") == "thorough" \
        and r.random() < .6 else "call"


_installed = False


def install():
    global _installed
    if _installed:
        return
    _mon.use_tool_id(_TOOL, "dst")
    _mon.register_callback(_TOOL, _mon.events.LINE, _on_line)
    _mon.register_callback(_TOOL, _mon.events.CALL, _on_call)
    _mon.set_events(_TOOL, _mon.events.LINE | _mon.events.CALL)
    _installed = True


# --------------------------------------------------------------------------
# thread scheduler
# --------------------------------------------------------------------------
class Sched:
    """Runs n functions on n real threads, exactly one released at a time.

    `preempts` is a list of [step, choice]: after `step` library lines (counted
    over all threads) control moves to another runnable thread, picked by
    `choice`. When a thread finishes, the lowest-numbered runnable one goes on.
    """

    def __init__(self, fns, preempts, budget=None, at_line=None,
                 at_call=None):
        self.fns = fns
        self.n = len(fns)
        self.pre = {int(s): int(c) for s, c in preempts}
        self.sem = [threading.Semaphore(0) for _ in fns]
        self.done = [False] * self.n
        self.res = [None] * self.n
        self.exc = [None] * self.n
        self.step = 0
        self.cur = 0
        self.switches = []
        self.fin = threading.Semaphore(0)
        self.blocked = 0
        self.arenas = [Arena(budget=budget, at_line=(at_line or {}).get(i),
                             at_call=(at_call or {}).get(i))
                       for i in range(self.n)]

    def _alive(self):
        return [i for i in range(self.n) if not self.done[i]]

    def _tick(self, arena, fn, line):
        if self.cur != arena.tid:
            # it was taken for blocked (on a lock) and control moved on
            self.sem[arena.tid].acquire()
        self.step += 1
        c = self.pre.get(self.step)
        if c is None:
            return
        others = [i for i in self._alive() if i != arena.tid]
        if not others:
            return
        t = others[c % len(others)]
        self.switches.append((arena.tid, t, fn[len(LIBDIR):], line))
        self.cur = t
        self.sem[t].release()
        self.sem[arena.tid].acquire()

    def _body(self, i):
        self.sem[i].acquire()
        a = self.arenas[i]
        a.sched, a.tid = self, i
        try:
            with a:
                self.res[i] = self.fns[i]()
        except BaseException as e:     # noqa: B902 - recorded, judged later
            self.exc[i] = e
        self.done[i] = True
        al = self._alive()
        if al:
            self.cur = al[0]
            self.sem[al[0]].release()
        else:
            self.fin.release()

    def run(self):
        install()
        ts = [threading.Thread(target=self._body, args=(i,), daemon=True)
              for i in range(self.n)]
        for t in ts:
            t.start()
        self.sem[0].release()
        last = -1
        while not self.fin.acquire(timeout=4):
            # no library line for seconds: the running thread waits for a lock
            # that a parked one holds
            al = self._alive()
            if self.step == last and len(al) > 1:
                t = al[(al.index(self.cur) + 1) % len(al)] \
                    if self.cur in al else al[0]
                self.blocked += 1
                self.cur = t
                self.sem[t].release()
            last = self.step
        for t in ts:
            t.join()
        return self


# --------------------------------------------------------------------------
# values
# --------------------------------------------------------------------------
def freeze(x):
    """Hashable, exact (bitwise) rendering of a library result."""
    if x is None or isinstance(x, (bool, str)):
        return x
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            return ("ndo", x.shape, tuple(freeze(v) for v in x.ravel()))
        b = np.ascontiguousarray(x).tobytes()
        if len(b) > 4096:
            b = hashlib.sha1(b).digest()
        return ("nd", x.shape, x.dtype.str, b)
    if isinstance(x, (np.integer, int)):
        return ("i", int(x))
    if isinstance(x, (float, np.floating)):
        return ("f", float(x).hex())
    if isinstance(x, dict):
        return ("d", tuple((freeze(k), freeze(x[k]))
                           for k in sorted(x, key=lambda k: (str(type(k)), k))))
    if isinstance(x, (list, tuple)):
        return ("l", tuple(freeze(v) for v in x))
    if isinstance(x, BaseException):
        return ("exc", type(x).__name__, str(x))
    if hasattr(x, "to_numpy"):
        return ("pd", freeze(np.asarray(x.to_numpy(), dtype=object).tolist()))
    return ("r", repr(x))


def digest(x):
    return hashlib.sha1(repr(freeze(x)).encode()).hexdigest()[:16]


def lib():
    import pyrichlet
    f = os.path.realpath(pyrichlet.__file__)
    if not f.startswith(LIBDIR):
        raise HarnessError("pyrichlet imported from %s" % f)
    return pyrichlet
