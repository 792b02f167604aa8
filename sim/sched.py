"""Seeded thread scheduler: real caller threads, exactly one of which runs at a time.

Every package source line a thread is about to execute is a scheduling point (sys.settrace). At a point
the scheduler either lets the thread go on or parks it and releases another one. Locks created by package
code are replaced by simulated ones, so that a parked holder blocks others under the scheduler's eye.
The switches made are recorded as [thread, point number within that thread, next thread]: given back as an
explicit schedule they reproduce the run exactly."""
import dis
import sys
import threading
import time

from sim.core import PKG_DIR, HarnessError, Prng

_RealLock = threading.Lock
_RealRLock = threading.RLock
STALL_S = 30.0
ACTIVE = None


class SimLock:
    """Lock / RLock made by package code."""

    def __init__(self, reentrant):
        self.reentrant = reentrant
        self.owner = None
        self.count = 0

    def acquire(self, blocking=True, timeout=-1):
        me = threading.get_ident()
        while True:
            if self.owner is None or (self.reentrant and self.owner == me):
                self.owner = me
                self.count += 1
                return True
            s = ACTIVE
            if not blocking:
                return False
            if s is None or me not in s.by_ident or s.free:
                time.sleep(0.0005)  # a thread the package made itself, or a degraded run
                continue
            if timeout is not None and timeout >= 0:
                return False  # a bounded wait may time out at any moment
            s.block(self)

    def release(self):
        if self.owner is None or (self.reentrant and self.owner != threading.get_ident()):
            raise RuntimeError("release unlocked lock")
        self.count -= 1
        if self.count == 0:
            self.owner = None

    def locked(self):
        return self.owner is not None

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()

    # copy and pickle like nothing is held
    def __reduce__(self):
        return (SimLock, (self.reentrant,))

    def _is_owned(self):
        return self.owner == threading.get_ident()


def install_locks():
    """Call before the package is imported."""
    def factory(real, reentrant):
        def make():
            f = sys._getframe(1)
            if f.f_code.co_filename.startswith(PKG_DIR):
                return SimLock(reentrant)
            return real()
        return make

    threading.Lock = factory(_RealLock, False)
    threading.RLock = factory(_RealRLock, True)


# --------------------------------------------------------------------------------------------------
_STORES = {}
_STORE_OPS = {"STORE_ATTR", "STORE_SUBSCR", "STORE_GLOBAL", "DELETE_ATTR", "DELETE_SUBSCR", "STORE_SLICE"}


def store_lines(code):
    """Lines of a code object that write to something other than a local variable."""
    if code not in _STORES:
        s, line = set(), None
        for ins in dis.get_instructions(code):
            if ins.starts_line is not None:
                line = ins.starts_line
            if ins.opname in _STORE_OPS:
                s.add(line)
            elif ins.opname in ("LOAD_ATTR", "LOAD_METHOD") and ins.argval in (
                    "append", "update", "pop", "clear", "add", "set", "extend", "setdefault", "remove", "insert", "sort", "setflags", "fill"):
                s.add(line)
        _STORES[code] = s
    return _STORES[code]


_ATTRS = {}
_MUTATORS = ("append", "update", "pop", "clear", "add", "extend", "setdefault", "remove", "insert", "sort", "fill")


def attr_lines(code):
    """Per line of a code object, the attribute names it mentions and the ones it (or what it holds) is written to."""
    if code not in _ATTRS:
        use, put, line, loaded = {}, {}, None, []
        for ins in dis.get_instructions(code):
            if ins.starts_line is not None and ins.starts_line != line:
                line, loaded = ins.starts_line, []
            if ins.opname in ("STORE_ATTR", "DELETE_ATTR"):
                use.setdefault(line, set()).add(ins.argval)
                put.setdefault(line, set()).add(ins.argval)
            elif ins.opname in ("LOAD_ATTR", "LOAD_METHOD"):
                if ins.argval in _MUTATORS:
                    put.setdefault(line, set()).update(loaded[-1:])
                else:
                    use.setdefault(line, set()).add(ins.argval)
                    loaded.append(ins.argval)
            elif ins.opname in ("STORE_SUBSCR", "DELETE_SUBSCR", "STORE_SLICE"):
                put.setdefault(line, set()).update(loaded)
        _ATTRS[code] = (use, put)
    return _ATTRS[code]


class _T:
    def __init__(self, tid, fn):
        self.tid, self.fn = tid, fn
        self.gate = _RealLock()
        self.gate.acquire()
        self.points = 0
        self.after_store = False
        self.done = False
        self.blocked_on = None
        self.result = None
        self.exc = None
        self.thread = None


class Scheduler:
    """modes: {"kind": "explicit", "switches": [[tid, point, next], ...]}
              {"kind": "few", "seed", "at": [[tid, point], ...]}     a few preemptions at given points
              {"kind": "random", "seed", "p"}                        every point
              {"kind": "store", "seed", "p", "q"}                    after writes with p, elsewhere with q
              {"kind": "race", "seed", "p", "attr"}                  around uses of one attribute: another thread runs until it wrote it
              {"kind": "serial"}"""

    def __init__(self, mode, max_points=2_000_000):
        self.mode = mode
        self.prng = Prng("sched", mode.get("seed", 0))
        self.explicit = {}
        for t, k, nx in mode.get("switches", []):
            self.explicit.setdefault(t, {})[k] = nx
        self.few = {}
        for t, k in mode.get("at", []):
            self.few.setdefault(t, set()).add(k)
        self.threads = []
        self.by_ident = {}
        self.switches = []
        self.current = None
        self.finished = _RealLock()
        self.finished.acquire()
        self.max_points = max_points
        self.total = 0
        self.sites = set()
        self.deadlock = False
        self.blocks = 0
        self.waiter = None
        self.stored = {}  # attribute names written while running serially, with the number of times
        self.free = False  # degraded: the running thread blocked outside the scheduler's control

    def add(self, fn):
        self.threads.append(_T(len(self.threads), fn))

    # -- tracing
    def _global_trace(self, t):
        def trace(frame, event, arg):
            if event == "call" and frame.f_code.co_filename.startswith(PKG_DIR):
                last = None

                def local(frame, event, arg):
                    nonlocal last
                    if event == "line":
                        self.point(t, frame, last)
                        last = frame.f_lineno
                    return local
                return local
            return None
        return trace

    def point(self, t, frame, last):
        t.points += 1
        self.total += 1
        if self.free:
            return
        if self.total > self.max_points:
            raise HarnessError("too many scheduling points")
        k = self.mode["kind"]
        nxt = None
        if k == "explicit":
            nxt = self.explicit.get(t.tid, {}).get(t.points)
            if nxt is not None and (nxt >= len(self.threads) or not self._ready(self.threads[nxt])):
                nxt = None
        else:
            go = False
            if k == "race":
                self.race(t, frame, last)
                return
            if k == "serial":
                own = type(frame.f_locals.get("self")).__name__ in ("GraphState", "DependencyGraph")  # made by the call itself
                for a in attr_lines(frame.f_code)[1].get(frame.f_lineno, ()) if frame.f_code.co_name != "__init__" and not own else ():
                    self.stored[a] = self.stored.get(a, 0) + 1
            if k == "few":
                go = t.points in self.few.get(t.tid, ())
            elif k == "random":
                go = self.prng.chance(self.mode["p"])
            elif k == "store":
                go = self.prng.chance(self.mode["p"] if t.after_store or last in store_lines(frame.f_code) else self.mode["q"])
            if go:
                others = [o.tid for o in self.threads if o is not t and self._ready(o)]
                if others:
                    nxt = self.prng.choice(others)
        t.after_store = frame.f_lineno in store_lines(frame.f_code)
        if nxt is not None and nxt != t.tid:
            self.switches.append([t.tid, t.points, nxt])
            self.sites.add((frame.f_code.co_filename[len(PKG_DIR):], frame.f_lineno))
            self._switch(t, self.threads[nxt])

    def race(self, t, frame, last):
        use, put = attr_lines(frame.f_code)
        attr, back = self.mode["attr"], None
        if self.waiter is t:
            self.waiter = None
        if self.waiter is not None:
            if attr in put.get(last, ()) and self._ready(self.waiter) and self.prng.chance(0.8):
                back, self.waiter = self.waiter, None
        elif (attr in use.get(frame.f_lineno, ()) or attr in put.get(last, ())) and self.prng.chance(self.mode["p"]):
            others = [o for o in self.threads if o is not t and self._ready(o)]
            if others:
                self.waiter, back = t, self.prng.choice(others)
        if back is not None:
            self.switches.append([t.tid, t.points, back.tid])
            self.sites.add((frame.f_code.co_filename[len(PKG_DIR):], frame.f_lineno))
            self._switch(t, back)

    @staticmethod
    def _ready(o):
        return not o.done and (o.blocked_on is None or not o.blocked_on.locked())

    def _switch(self, t, other):
        self.current = other
        other.gate.release()
        t.gate.acquire()

    def block(self, lock):
        t = self.by_ident[threading.get_ident()]
        t.blocked_on = lock
        self.blocks += 1
        ready = [o for o in self.threads if o is not t and self._ready(o)]
        if not ready:
            self.deadlock = True
        if not self.deadlock:
            self._switch(t, ready[0])
        t.blocked_on = None
        if self.deadlock and lock.locked():
            raise RuntimeError("deadlock: every caller thread waits for a lock")

    def _body(self, t):
        t.gate.acquire()
        self.by_ident[threading.get_ident()] = t
        try:
            sys.settrace(self._global_trace(t))
            try:
                t.result = t.fn()
            finally:
                sys.settrace(None)
        except BaseException as e:  # noqa: BLE001
            t.exc = e
        t.done = True
        if self.free:
            if all(o.done for o in self.threads):
                self._finish()
            return
        ready = [o for o in self.threads if self._ready(o)]
        if not ready and not all(o.done for o in self.threads):
            self.deadlock = True
            ready = [o for o in self.threads if not o.done]
        if ready:
            nxt = ready[0] if self.mode["kind"] in ("explicit", "serial") else self.prng.choice(ready)
            if self.mode["kind"] == "explicit":
                e = self.explicit.get(t.tid, {}).get(-1)
                nxt = next((o for o in ready if o.tid == e), nxt)
            self.switches.append([t.tid, -1, nxt.tid])
            self.current = nxt
            nxt.gate.release()
        else:
            self._finish()

    def _finish(self):
        try:
            self.finished.release()
        except RuntimeError:
            pass

    def run(self):
        global ACTIVE
        if not self.threads:
            return
        ACTIVE = self
        for t in self.threads:
            t.thread = threading.Thread(target=self._body, args=(t,), daemon=True)
            t.thread.start()
        first = self.threads[self.mode.get("first", 0) % len(self.threads)]
        self.current = first
        first.gate.release()
        last = -1
        while not self.finished.acquire(timeout=STALL_S):
            if self.total == last and not self.free:
                self.free = True
                for t in self.threads:
                    if t.gate.locked():
                        try:
                            t.gate.release()
                        except RuntimeError:
                            pass
            elif self.total == last:
                raise HarnessError("scheduler stalled: the running thread blocks outside its control")
            last = self.total
        ACTIVE = None
        for t in self.threads:
            t.thread.join()
            if isinstance(t.exc, HarnessError):
                raise t.exc
