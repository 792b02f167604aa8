"""Fault injector: cuts a call short at a chosen instant.

Instants are counted while the call runs alone on an equally built world, then one of them is replayed as
a failure on a fresh world:
  line   the chosen package source line is about to run (asynchronous interrupt)
  call   the chosen call made by package code fails (allocation, system call, interrupt inside the callee)
  rng    the chosen draw from the caller's random generator fails
  user   the chosen call of a user-written function (callback, density, source) fails"""
import dis
import sys

import numpy as np

from sim import zoo
from sim.core import PKG_DIR, Prng
from sim.sched import store_lines


class SimFault(RuntimeError):
    """A user-code or device error."""


EXCS = {"kbd": KeyboardInterrupt, "mem": MemoryError, "os": OSError, "user": SimFault}


_WITH = {}


def leaving_with(frame):
    """Whether this line event is the exit of a with block: the interpreter lets no interrupt in between the end of the body and
    the call of __exit__, so a failure there could not happen outside the simulator."""
    code = frame.f_code
    spans = _WITH.get(code)
    if spans is None:
        spans, line = {}, None
        for ins in dis.get_instructions(code):
            line = ins.positions.lineno if ins.positions is not None and ins.positions.lineno else line
            if ins.opname in ("BEFORE_WITH", "LOAD_SPECIAL"):
                spans.setdefault(line, ins.offset)
        _WITH[code] = spans
    at = spans.get(frame.f_lineno)
    return at is not None and frame.f_lasti > at


class Instants:
    """Counts the instants of one kind; raises at number `at` (1-based)."""

    def __init__(self, kind, at=None, exc="kbd"):
        self.kind, self.at, self.exc = kind, at, exc
        self.n = 0
        self.fired = None
        self.after_store = []      # instants that directly follow a write
        self._stored = False
        self.stop = False

    def hit(self, where):
        self.n += 1
        if self._stored:
            self.after_store.append(self.n)
        if self.at is not None and self.n == self.at and self.fired is None:
            self.fired = where
            raise EXCS[self.exc](f"injected at {self.kind} {self.at}")

    # -- line
    def _trace(self, frame, event, arg):
        if self.fired is None and event == "call" and frame.f_code.co_filename.startswith(PKG_DIR):
            return self._local
        return None

    def _local(self, frame, event, arg):
        if event == "line" and self.fired is None and not leaving_with(frame):
            self.hit((frame.f_code.co_filename[len(PKG_DIR):], frame.f_lineno))
            self._stored = frame.f_lineno in store_lines(frame.f_code)
        return self._local

    # -- call
    def _profile(self, frame, event, arg):
        if self.fired is not None:
            return
        if event == "c_call":
            f = frame
            # enter/leave a with block and building blocks of exception handling are not failure points
            if not f.f_code.co_filename.startswith(PKG_DIR):
                return
            if getattr(arg, "__name__", "") in ("isinstance", "len", "hasattr", "getattr", "callable", "type", "__exit__", "super", "setattr", "append", "add", "pop", "discard", "items", "keys", "values", "get"):
                return
        elif event == "call":
            f = frame.f_back
            if f is None or not f.f_code.co_filename.startswith(PKG_DIR):
                return
        else:
            return
        self.hit((f.f_code.co_filename[len(PKG_DIR):], f.f_lineno))
        self._stored = f.f_lineno in store_lines(f.f_code)

    # -- user
    def _user(self):
        if self.fired is None:
            self.hit(("user", 0))

    def run(self, fn):
        """Outcome of fn under this injector: (value or None, exception or None)."""
        try:
            if self.kind == "line":
                sys.settrace(self._trace)
            elif self.kind == "call":
                sys.setprofile(self._profile)
            elif self.kind == "user":
                zoo.USER_HOOK = self._user
            try:
                return fn(), None
            finally:
                sys.settrace(None)
                sys.setprofile(None)
                zoo.USER_HOOK = None
        except (KeyboardInterrupt, Exception) as e:  # noqa: BLE001
            return None, e


DRAWS = ["random", "uniform", "normal", "integers", "choice", "standard_normal", "exponential", "beta", "permutation", "shuffle",
         "multivariate_normal", "poisson", "binomial", "gamma", "lognormal", "bytes"]


class FaultyGenerator(np.random.Generator):
    """The caller's random source, one of whose draws fails."""

    inst = None


def _wrap(name):
    real = getattr(np.random.Generator, name)

    def draw(self, *a, **k):
        inst = self.inst
        if inst is not None and inst.fired is None:
            inst.hit(("rng", name))
        return real(self, *a, **k)

    draw.__name__ = name
    return draw


for _n in DRAWS:
    setattr(FaultyGenerator, _n, _wrap(_n))


def generator(seed, inst=None):
    g = FaultyGenerator(np.random.PCG64(seed))
    g.inst = inst
    return g


def pick(p, inst, where):
    """An instant number among the counted ones."""
    if inst.n == 0:
        return None
    if where == "early":
        return p.int(1, min(inst.n, 120))
    if where == "late":
        return p.int(max(1, inst.n - 60), inst.n)
    if where == "store" and inst.after_store:
        return p.choice(inst.after_store)
    return p.int(1, inst.n)
