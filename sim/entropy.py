"""Seam for every ambient source of randomness and time.

install(seed, clock) makes OS entropy, the process-wide generators and the clocks pure functions of
`seed`; every run starts with it, so a run that *does* consult them still replays, and P01 varies the
seed to see whether a result depends on them."""
import os
import random
import sys
import time

import numpy as np

from sim.core import Prng

_real_urandom = os.urandom
_real = {n: getattr(time, n) for n in ("time", "time_ns", "perf_counter", "perf_counter_ns", "monotonic", "monotonic_ns")}


class Ambient:
    def __init__(self):
        self.stream = Prng("ambient", 0)
        self.now = 0.0
        self.os_reads = 0
        self.clock_reads = 0

    def urandom(self, n):
        self.os_reads += 1
        return self.stream.bytes(n)

    def clock(self):
        self.clock_reads += 1
        self.now += 1e-6
        return self.now


AMB = Ambient()


def _fake_urandom(n):
    return AMB.urandom(n)


def install(seed, start=1.7e9):
    """Route OS entropy, global generators and wall clocks through the simulator."""
    AMB.stream = Prng("ambient", seed)
    AMB.now = float(start)
    AMB.os_reads = AMB.clock_reads = 0
    os.urandom = _fake_urandom
    random._urandom = _fake_urandom
    for name, mod in list(sys.modules.items()):
        if name.startswith("lightcurvelynx") and mod is not None:
            for attr, val in list(vars(mod).items()):
                if val is _real_urandom:
                    setattr(mod, attr, _fake_urandom)
    r = Prng("ambient-global", seed)
    np.random.seed(r.seed32())
    random.seed(r.seed32())
    time.time = AMB.clock
    time.time_ns = lambda: int(AMB.clock() * 1e9)
    time.perf_counter = AMB.clock
    time.monotonic = AMB.clock
    try:
        from bilby.core.utils import random as brandom

        brandom.seed(r.seed32())
    except Exception:  # bilby not loaded
        pass


def uninstall():
    os.urandom = _real_urandom
    random._urandom = _real_urandom
    for n, f in _real.items():
        setattr(time, n, f)
