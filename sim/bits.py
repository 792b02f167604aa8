"""Simulated randomness: a numpy Generator whose raw outputs can be replaced at chosen positions (see bits.c)."""
import ctypes
import os
import signal

import numpy as np

LIB = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "build", "bits.so")
ONES = 2**64 - 1
EXTREMES = {"zero": 0, "ones": ONES, "half": 2**63, "below-half": 2**63 - 1, "tiny": 2**11, "almost-one": ONES - 2**11, "quarter": 2**62, "low-bits": 2**11 - 1}


class _Bitgen(ctypes.Structure):
    _fields_ = [("state", ctypes.c_void_p)] + [(n, ctypes.c_void_p) for n in ("u64", "u32", "dbl", "raw")]


class _Patch(ctypes.Structure):
    _fields_ = [("start", ctypes.c_uint64), ("len", ctypes.c_uint64), ("value", ctypes.c_uint64)]


class _Source(ctypes.Structure):
    _fields_ = [("orig", _Bitgen)] + [(n, ctypes.c_uint64) for n in ("count", "limit", "over", "fired", "n")] + [("plan", _Patch * 64)]


class NoEnd(BaseException):
    """More random numbers were taken than any finishing call needs."""


_lib = None
_keep = []  # the memory behind generators that may outlive their Stream


class Stream:
    """The ordinary stream of `seed` with the outputs of `plan` ([position, length, value]) replaced."""

    def __init__(self, seed, plan=(), limit=0):
        global _lib
        if _lib is None:
            _lib = ctypes.CDLL(LIB)
        self.src = _Source()
        self.src.limit = limit
        self.src.n = len(plan)
        for k, (start, length, value) in enumerate(plan[:64]):
            self.src.plan[k] = _Patch(start, length, value)
        bg = np.random.PCG64(seed)
        _lib.bits_patch(ctypes.c_void_p(bg.ctypes.bit_generator if isinstance(bg.ctypes.bit_generator, int) else bg.ctypes.bit_generator.value), ctypes.byref(self.src))
        _keep.append((self.src, bg))
        self.rng = np.random.Generator(bg)

    @property
    def count(self):
        return self.src.count

    @property
    def fired(self):
        return self.src.fired


def guard():
    def stop(*_):
        raise NoEnd()

    signal.signal(signal.SIGINT, stop)


