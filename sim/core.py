"""Core of the simulator: the seeded PRNG, structural comparison, digests, results."""
import hashlib
import json
import math
import os
import random
import sys
import traceback

import numpy as np

REPO = os.environ.get("VERIF_REPO", "/repo")
REPO_SRC = os.path.join(REPO, "src")
PKG_DIR = os.path.join(REPO_SRC, "lightcurvelynx") + os.sep
DATA = os.path.join(REPO, "tests", "lightcurvelynx", "data")


class HarnessError(Exception):
    """The machinery itself failed (never a verdict about the code under test)."""


class Violation(Exception):
    """The property does not hold on this execution."""

    def __init__(self, kind, detail="", sig=None):
        super().__init__(f"{kind}: {detail}")
        self.kind = kind
        self.detail = str(detail)[:2000]
        self.sig = sig or kind


def _seed_of(*path):
    h = hashlib.sha256("/".join(str(p) for p in path).encode()).digest()
    return int.from_bytes(h[:8], "big")


class Prng:
    """All choices of a run come from one of these; `sub(name)` derives independent streams so that
    dropping one part of a scenario (minimisation) never changes the draws of another part."""

    def __init__(self, *path):
        self.path = tuple(str(p) for p in path)
        self._r = random.Random(_seed_of(*self.path))

    def sub(self, *name):
        return Prng(*self.path, *name)

    @property
    def seed(self):
        return _seed_of(*self.path)

    def random(self):
        return self._r.random()

    def chance(self, p):
        return self._r.random() < p

    def int(self, lo, hi):  # inclusive
        return self._r.randint(lo, hi)

    def uniform(self, lo, hi):
        return self._r.uniform(lo, hi)

    def choice(self, seq):
        return seq[self._r.randrange(len(seq))]

    def wchoice(self, pairs):
        tot = sum(w for _, w in pairs)
        x = self._r.random() * tot
        for v, w in pairs:
            x -= w
            if x < 0:
                return v
        return pairs[-1][0]

    def sample(self, seq, k):
        return self._r.sample(list(seq), k)

    def shuffle(self, seq):
        seq = list(seq)
        self._r.shuffle(seq)
        return seq

    def bytes(self, n):
        return self._r.getrandbits(8 * n).to_bytes(n, "big") if n else b""

    def seed32(self):
        return self._r.getrandbits(31)


# --------------------------------------------------------------------------------------------------
# Structural values
def plain(x):
    """Turn any returned value into nested lists/dicts of numbers, strings and arrays."""
    mod = type(x).__module__ or ""
    if isinstance(x, np.generic):
        return x.item()
    if x is None or isinstance(x, (bool, int, float, str, bytes)):
        return x
    if isinstance(x, np.ndarray):
        if x.dtype == object or x.dtype.kind in "OUS":
            return [plain(v) for v in x.tolist()]
        return x
    if isinstance(x, dict):
        return {str(k): plain(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [plain(v) for v in x]
    if isinstance(x, (set, frozenset)):
        return sorted((plain(v) for v in x), key=repr)
    if hasattr(x, "states") and hasattr(x, "num_samples"):  # GraphState
        return {"num_samples": x.num_samples, "states": {n: plain(d) for n, d in x.states.items()}}
    if mod.startswith("nested_pandas") or mod.startswith("pandas"):
        return frame(x)
    if mod.startswith("astropy.table"):
        return {c: plain(np.asarray(x[c])) for c in x.colnames}
    if mod.startswith("jax"):
        return np.asarray(x)
    if hasattr(x, "unit") and hasattr(x, "value"):
        return plain(np.asarray(x.value))
    if hasattr(x, "__array__"):
        return plain(np.asarray(x))
    return repr(type(x))


def frame(df):
    import pandas as pd

    out = {}
    if isinstance(df, pd.Series):
        return {"index": plain(df.index.to_numpy()), "values": plain(df.to_numpy())}
    out["__index__"] = plain(df.index.to_numpy())
    nested = list(getattr(df, "nested_columns", []) or [])
    for c in df.columns:
        if c in nested:
            flat = df[c].nest.to_flat()
            out["__nested__" + c] = frame(flat)
        elif isinstance(df[c].dtype, pd.CategoricalDtype):
            out[str(c)] = plain(np.asarray(df[c]))
        else:
            out[str(c)] = plain(df[c].to_numpy())
    return out


def diff(a, b, rtol=1e-9, path="", atol=0.0):
    """None when a and b are the same value, else a short description of the first difference."""
    a, b = plain(a), plain(b)
    return _diff(a, b, rtol, path, atol)


def _num(x):
    return isinstance(x, (int, float)) and not isinstance(x, bool)


def _diff(a, b, rtol, path, atol=0.0):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        try:
            aa, bb = np.asarray(a), np.asarray(b)
        except Exception:
            return f"{path}: kinds differ"
        if aa.shape != bb.shape:
            return f"{path}: shape {aa.shape} vs {bb.shape}"
        if aa.dtype.kind not in "fiubc" or bb.dtype.kind not in "fiubc":
            if np.array_equal(aa, bb):
                return None
            return f"{path}: {aa.tolist()!r:.120} vs {bb.tolist()!r:.120}"
        if aa.size == 0:
            return None
        af, bf = aa.astype(complex), bb.astype(complex)
        with np.errstate(all="ignore"):
            ok = (af == bf) | (np.isnan(af) & np.isnan(bf))
            ok |= np.abs(af - bf) <= rtol * np.maximum(np.abs(af), np.abs(bf)) + atol
        if ok.all():
            return None
        i = tuple(int(v[0]) for v in np.nonzero(~ok)) if ok.ndim else ()
        return f"{path}{list(i)}: {aa[i]!r} vs {bb[i]!r} ({int((~ok).sum())} of {ok.size} entries differ)"
    if isinstance(a, dict) and isinstance(b, dict):
        if set(a) != set(b):
            return f"{path}: keys {sorted(set(a) ^ set(b))[:6]} only on one side"
        for k in a:
            d = _diff(a[k], b[k], rtol, f"{path}.{k}", atol)
            if d:
                return d
        return None
    if isinstance(a, list) and isinstance(b, list):
        if len(a) != len(b):
            return f"{path}: length {len(a)} vs {len(b)}"
        for i, (u, v) in enumerate(zip(a, b)):
            d = _diff(u, v, rtol, f"{path}[{i}]", atol)
            if d:
                return d
        return None
    if _num(a) and _num(b):
        if a == b or (a != a and b != b):
            return None
        if math.isfinite(a) and math.isfinite(b) and abs(a - b) <= rtol * max(abs(a), abs(b)) + atol:
            return None
        return f"{path}: {a!r} vs {b!r}"
    if isinstance(a, bool) or isinstance(b, bool):
        if bool(a) == bool(b) and type(a) in (bool, int, float) and type(b) in (bool, int, float):
            return None
        return f"{path}: {a!r} vs {b!r}"
    if type(a) is type(b) and a == b:
        return None
    return f"{path}: {a!r:.100} vs {b!r:.100}"


def canon(x):
    """JSON-able canonical form with floats rounded to 10 significant digits (for digests)."""
    x = plain(x)
    if isinstance(x, np.ndarray):
        return ["arr", list(x.shape), [canon(v) for v in x.ravel().tolist()]]
    if isinstance(x, dict):
        return {k: canon(v) for k, v in sorted(x.items())}
    if isinstance(x, list):
        return [canon(v) for v in x]
    if isinstance(x, bool) or x is None or isinstance(x, (int, str)):
        return x
    if isinstance(x, float):
        return "%.10g" % x
    if isinstance(x, complex):
        return "%.10g%+.10gj" % (x.real, x.imag)
    return repr(x)


def digest(x):
    return hashlib.sha256(json.dumps(canon(x), sort_keys=True, default=repr).encode()).hexdigest()[:16]


def fhash(*xs):
    return hashlib.sha256(repr(xs).encode()).hexdigest()[:12]


def freeze(x):
    """A deep private copy of a value through `plain`, safe from later in-place edits."""
    x = plain(x)
    if isinstance(x, np.ndarray):
        return x.copy()
    if isinstance(x, dict):
        return {k: freeze(v) for k, v in x.items()}
    if isinstance(x, list):
        return [freeze(v) for v in x]
    return x


def to_json(x):
    """Exact JSON form of a value (floats survive unchanged), readable by from_json."""
    x = plain(x)
    if isinstance(x, np.ndarray):
        if x.dtype.kind in "fiub":
            return {"__nd__": x.tolist(), "kind": x.dtype.kind, "shape": list(x.shape)}
        return [to_json(v) for v in x.tolist()]
    if isinstance(x, dict):
        return {k: to_json(v) for k, v in x.items()}
    if isinstance(x, list):
        return [to_json(v) for v in x]
    if isinstance(x, (bytes, complex)):
        return repr(x)
    return x


def from_json(x):
    if isinstance(x, dict):
        if "__nd__" in x:
            dt = {"f": float, "i": np.int64, "u": np.uint64, "b": bool}[x["kind"]]
            return np.array(x["__nd__"], dtype=dt).reshape(x["shape"])
        return {k: from_json(v) for k, v in x.items()}
    if isinstance(x, list):
        return [from_json(v) for v in x]
    return x


# --------------------------------------------------------------------------------------------------
def short_tb(exc):
    """Exception text with the package frames it passed through (stable across machines)."""
    frames = [f for f in traceback.extract_tb(exc.__traceback__) if f.filename.startswith(PKG_DIR)]
    where = " < ".join(f"{os.path.basename(f.filename)}:{f.name}" for f in reversed(frames[-4:]))
    return f"{type(exc).__name__}: {str(exc)[:300]} @ {where}"


class Outcome:
    """Value or exception of one operation; `same` compares two outcomes."""

    def __init__(self, value=None, exc=None):
        self.value, self.exc = value, exc

    @classmethod
    def of(cls, fn):
        try:
            return cls(value=freeze(fn()))
        except Violation:
            raise
        except HarnessError:
            raise
        except Exception as e:  # noqa: BLE001
            return cls(exc=short_tb(e) if True else e)

    def diff(self, other, rtol=1e-9):
        if (self.exc is None) != (other.exc is None):
            return f"{self.exc or 'returned'} vs {other.exc or 'returned'}"
        if self.exc is not None:
            a, b = self.exc.split(":")[0], other.exc.split(":")[0]
            return None if a == b else f"{self.exc} vs {other.exc}"
        return diff(self.value, other.value, rtol)


class Run:
    """Statistics of one simulated run, filled in by the check's `execute`."""

    def __init__(self):
        self.faults = {}
        self.probes = {}
        self.states = set()
        self.nontrivial = False
        self.simtime = 0.0
        self.ops = 0
        self.log = []
        self.refined = None

    def fault(self, kind, n=1):
        self.faults[kind] = self.faults.get(kind, 0) + n

    def probe(self, name, n=1):
        self.probes[name] = self.probes.get(name, 0) + n

    def state(self, *xs):
        self.states.add(fhash(*xs))

    def event(self, *xs):
        self.log.append(xs)


def tier():
    return os.environ.get("VERIF_TIER", "quick")


def eprint(*a):
    print(*a, file=sys.stderr, flush=True)
