"""P04: saved parameter states survive crashes and disk errors.

A run is a history of saves and loads of parameter states (made up, or sampled from a model) on a simulated disk
(sim/files.py). At the end a state sampled from a model is loaded by an equally built model and must drive it to the same
outputs."""
import os
import warnings
from pathlib import Path

import numpy as np

from sim import warmup, zoo
from sim.core import Outcome, Violation, diff
from sim.files import FileCheck

SUBS = ["", "", "nested dir"]
TEXTS = ["a", "", "nan", "None", "--", "1.5", "True", "two words", "comma,here", 'quote"d', "hash#", "#c", " lead", "trail ", "# two", "é✓", "a'b", "x" * 50, "back\\slash", "tab\there", "[1,2]", "{}", "null", "inf", "1e5"]
NAMES = ["p", "x_1", "two words", "p,q", "é", "#h", "quo\"te", "time", "1"]
NODES = ["m", "NumpyRandomFunc:uniform_1", "node 2", "c,d", "e'f", "obj#3"]
KINDS = ["f8", "f8", "f8", "f4", "i8", "i4", "bool", "text", "text", "none", "object", "vec", "ivec", "tvec"]
DETERMINISTIC = [k for k in zoo.SED_KINDS + zoo.BAND_KINDS + zoo.MULTI_KINDS if k not in ("bayesn", "salt2")]


def plain(x):
    """Without cosmology objects: a state holding one is rejected by the file format."""
    if isinstance(x, dict):
        return {k: False if k == "cosmo" else plain(v) for k, v in x.items()}
    return [plain(v) for v in x] if isinstance(x, list) else x


def column(q, kind, n):
    """n values of a kind, as the state holds them (an array, or a single value for n = 1)."""
    if kind in ("f8", "f4"):
        x = q.standard_normal(n) * 10.0 ** q.randint(-300, 300, size=n) if kind == "f8" else q.standard_normal(n)
        for v in (np.nan, np.inf, -np.inf, -0.0, 0.0):
            if q.rand() < 0.08:
                x[q.randint(n)] = v
        x = x.astype(kind)
    elif kind in ("i8", "i4"):
        x = q.randint(-(2**31), 2**31 - 1, size=n).astype(kind)
        if kind == "i8":
            x = x * 2**31 + q.randint(0, 2**31 - 1, size=n)
    elif kind == "bool":
        x = q.rand(n) > 0.5
    elif kind == "text":
        x = np.array([TEXTS[q.randint(len(TEXTS))] for _ in range(n)])
    elif kind == "none":
        x = np.full(n, None)
    elif kind == "object":
        pool = [None, 1, 2.5, "a", True, "", "b c"]
        x = np.empty(n, dtype=object)
        for j in range(n):
            x[j] = pool[q.randint(len(pool))]
    elif kind == "vec":
        x = q.standard_normal((n, q.randint(2, 4)))
        if q.rand() < 0.2:
            x[0, 0] = np.nan
    elif kind == "ivec":
        x = q.randint(-5, 9, size=(n, 2))
    else:
        x = np.array([[TEXTS[q.randint(len(TEXTS))] for _ in range(2)] for _ in range(n)])
    return x if n > 1 else x[0]


def flat(state):
    return {f"{a}.{b}": v for a, d in state.states.items() for b, v in d.items()}


def same_value(w, g, n):
    w, g = np.asarray(w), np.asarray(g)
    if w.shape != g.shape:
        return f"shape {g.shape}, not {w.shape}"
    if w.dtype.kind in "fiub" and (g.dtype.kind != w.dtype.kind or g.dtype.itemsize != w.dtype.itemsize):
        return f"type {g.dtype}, not {w.dtype}"
    if np.ma.isMaskedArray(g):
        return "a masked value"
    if w.dtype.kind == "f":
        if np.array_equal(w, g, equal_nan=True) and np.array_equal(np.signbit(w[~np.isnan(w)]), np.signbit(g[~np.isnan(g)])):
            return None
    else:
        a, b = w.ravel().tolist(), g.ravel().tolist()
        if all(type(x) is type(y) and (x == y or x != x and y != y) for x, y in zip(a, b)):
            return None
    return f"{g!r:.120}, not {w!r:.120}"


class P04(FileCheck):
    ID = "P04"
    MEASURE = "distinct (kind of state, one or many samples, outcome of the save, kind of crash, operation it hits, torn or not, what is loaded afterwards) combinations"
    REAL = ["GraphState.save_to_file, from_file, to_table, from_table; sampling and evaluation of the models; astropy's ECSV writer and reader; the C library's streams"]
    ASSUMPTIONS = ["text values carry no surrounding white space or line ends (ECSV drops them)", "values held as objects are what JSON can express",
                   "a power cut keeps a prefix of the name changes and any part of what was not synced"]
    RUNS = {"quick": 900, "thorough": 40000}
    CAN_REFUSE = True
    PROBES = FileCheck.PROBES + ["model-state", "drives-model", "one-sample", "many-samples"]

    def warm(self):
        warmup.full()

    def kind(self, scn, s):
        k = scn["kinds"][s]
        return "model" if "model" in k else "made-up"

    def gen_case(self, p, tier):
        kinds = []
        for j in range(p.int(1, 2)):
            q = p.sub("slot", j)
            kinds.append(plain(zoo.gen_world(q.sub("w"), {"kinds": DETERMINISTIC, "noise": False, "sources": [s for s in zoo.SOURCES if s not in ("pzflow", "snia")]}, surveys=1))
                         if q.chance(0.5 if j == 0 else 0.0) else {})
        return {"slots": [p.choice(["state", "spé c", "a.b"]) + f"{j}{p.choice(['.ecsv', '', '.txt', '.npz'])}" for j in range(len(kinds))], "kinds": kinds, "sub": p.choice(SUBS), "path": p.chance(0.5)}

    def layout(self, root, scn):
        self.worlds = {}
        if scn["sub"]:
            os.makedirs(os.path.join(root, scn["sub"]))

    def path(self, root, scn, s):
        f = os.path.join(root, scn["sub"], scn["slots"][s])
        return Path(f) if scn["path"] else f

    def gen_value(self, p, scn, slot):
        n = p.choice([1, 1, 2, 3, 10])
        if "model" in scn["kinds"][slot]:
            return {"n": n, "rng": p.seed32()}
        names = p.sample(NAMES, p.int(1, 4))
        nodes = p.sample(NODES, p.int(1, 3))
        return {"n": n if p.chance(0.95) else 300, "cols": [[p.choice(nodes), a, p.choice(KINDS), p.seed32()] for a in names]}

    def make(self, scn, s, v):
        from lightcurvelynx.graph_state import GraphState

        if "model" in scn["kinds"][s]:
            if s not in self.worlds:
                self.worlds[s] = zoo.World(scn["kinds"][s], "ambient")
            return self.worlds[s].model.sample_parameters(num_samples=v["n"], rng_info=np.random.default_rng(v["rng"]))
        st = GraphState(v["n"])
        for node, name, kind, seed in v["cols"]:
            st.set(node, name, column(np.random.RandomState(seed), kind, v["n"]))
        return st

    def save(self, root, scn, s, value, over):
        value.save_to_file(self.path(root, scn, s), overwrite=over)

    def load(self, root, scn, s):
        from lightcurvelynx.graph_state import GraphState

        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            return GraphState.from_file(self.path(root, scn, s))

    def same(self, scn, s, want, got):
        if got.num_samples != want.num_samples:
            return f"{got.num_samples} samples, not {want.num_samples}"
        a, b = flat(want), flat(got)
        if list(a) != list(b):
            return f"parameters {list(b)}, not {list(a)}"
        if got.num_parameters != want.num_parameters:
            return f"num_parameters {got.num_parameters}, not {want.num_parameters}"
        for k in a:
            d = same_value(a[k], b[k], want.num_samples)
            if d:
                return f"{k}: {d}"
        return None

    def final(self, S, scn, run):
        for s in S.may:
            want = S.may[s][0]
            run.probe("one-sample" if want.num_samples == 1 else "many-samples")
            if "model" not in scn["kinds"][s]:
                continue
            run.probe("model-state")
            W = zoo.World(scn["kinds"][s], "ambient")
            if len(scn["steps"]) % 2:  # the other model was used before
                W.model.sample_parameters(num_samples=2, rng_info=np.random.default_rng(5))
            else:
                W.model.set_graph_positions()
            a = self.outputs(self.worlds[s], want, scn["kinds"][s])
            b = self.outputs(W, self.load(S.root, scn, s), scn["kinds"][s])
            # a single value computed with jax is a single-precision jax scalar in memory, a number when loaded
            d = a.diff(b, rtol=1e-9)
            if d:
                raise Violation("outputs", f"the state loaded from {scn['slots'][s]!r} drives the model to other outputs: {d}", "outputs")
            if a.exc is None:
                run.probe("drives-model")

    def outputs(self, W, state, spec):
        times = np.array([5.0, 25.0, 41.5, 60.0, 77.0])
        if any(c in zoo.BAND_KINDS for c in zoo.kinds_in(spec["model"])):
            return Outcome.of(lambda: W.model.evaluate_bandfluxes(W.passbands, times, ["g", "r", "i", "g", "r"], state, rng_info=np.random.default_rng(1)))
        return Outcome.of(lambda: W.model.evaluate_sed(times, np.linspace(3500.0, 9000.0, 12), state, rng_info=np.random.default_rng(1)))

    def shrink(self, scn):
        import copy

        yield from super().shrink(scn)
        if scn["sub"]:
            yield {**scn, "sub": ""}
        if len(scn["slots"]) > 1:
            for keep in range(len(scn["slots"])):
                c = copy.deepcopy(scn)
                c["slots"], c["kinds"] = [c["slots"][keep]], [c["kinds"][keep]]
                c["steps"] = [{**st, "slot": 0} for st in c["steps"] if st["slot"] == keep]
                yield c
        for s, k in enumerate(scn["kinds"]):
            if "model" in k:
                for w in zoo.shrink_world(k):
                    yield {**scn, "kinds": scn["kinds"][:s] + [w] + scn["kinds"][s + 1:]}

    def shrink_value(self, v):
        for n in (1, 2):
            if v["n"] > n:
                yield {**v, "n": n}
        for j in range(len(v.get("cols", []))):
            if len(v["cols"]) > 1:
                yield {**v, "cols": v["cols"][:j] + v["cols"][j + 1:]}


CHECK = P04()
