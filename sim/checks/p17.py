"""P17: light-curve post-processing columns agree with the fluxes, whatever was done to the results before.

One run is a seeded history over a results frame (simulated by the package, or with hand-made extreme rows): objects are
dropped, selected, reordered, repeated, relabelled, joined, copied, reloaded; columns are changed; augmentations are cut short
at seeded instants and repeated. A plain-Python list of objects and rows goes through the same history and recomputes every
derived value by itself after each step."""
import copy
import math
import os
import pickle
import shutil
import tempfile

import numpy as np

from sim import inject, warmup, zoo
from sim.core import Prng, Violation
from sim.runner import CheckBase

FLUX = [1.0, 3.5, 1e4, 0.02, 1e-30, -2.0, 0.0, float("nan"), float("inf"), 250.0, 40.0, 7.0]
ERR = [0.1, 1.0, 5.0, 0.5, 2.0, 0.0, -1.0, float("nan"), 40.0, 1e-12]
DERIVED = ["snr", "detection", "mag", "magerr"]


def num(v):
    """A cell as a float, or None when it is missing."""
    import pandas as pd

    if v is None or v is pd.NA or v is np.ma.masked:
        return None
    v = float(v)
    return None if v != v else v


def derive(row, t0, snr_min):
    """The reference's derived columns of one row."""
    f, e = row["flux"], row["fluxerr"]
    out = {"snr": None, "detection": False, "mag": None, "magerr": None}
    if f is not None and e is not None and f > 0 and e > 0:
        if not (math.isinf(f) and math.isinf(e)):
            out["snr"] = f / e
            out["magerr"] = 2.5 / math.log(10) * (e / f)
            out["detection"] = out["snr"] >= snr_min
        out["mag"] = 31.4 - 2.5 * math.log10(f)
    if t0 is not None:
        out["time_rel"] = None if row["mjd"] is None else row["mjd"] - t0
    return out


def same(a, b):
    if a is None or b is None:
        return a is None and b is None
    if math.isinf(a) or math.isinf(b):
        return a == b
    return abs(a - b) <= 1e-9 * max(1e-300, abs(a), abs(b)) + 1e-300


class P17(CheckBase):
    ID = "P17"
    RULE = "a run is non-trivial when derived columns of at least one light curve were compared after a step that preceded or followed the augmentation"
    MEASURE = "distinct (source of the frame, previous step, step, outcome, objects without visits, kind of labels, reference times) combinations checked"
    REAL = ["simulate_lightcurves (a third of the runs), the post-processing functions, nested_pandas, pandas, pyarrow"]
    STUB = ["hand-made rows (negative, zero, missing, infinite fluxes and uncertainties) in the other runs"]
    ASSUMPTIONS = ["augmentations are cut at the calls the package makes", "a value the formula cannot give counts as missing, however it is stored (masked, null, NaN)",
                   "objects without a reference time: no object gets a relative time"]
    PROBES = ["augment", "single", "cut", "empty-objects", "all-empty", "reordered", "repeated", "joined", "relabelled", "reloaded", "simulated", "rejected", "arrays", "zero-t0", "missing-t0", "twice"]
    RUNS = {"quick": 1500, "thorough": 40000}

    def warm(self):
        warmup.full()

    # ------------------------------------------------------------------------------------------------
    def generate(self, p, i, tier):
        src = p.wchoice([("made", 2), ("sim", 1)])
        scn = {"src": src, "seed": p.seed32(), "n": p.int(1, 6), "labels": p.choice(["range", "offset", "text", "float"]),
               "t0": p.wchoice([("all", 5), ("zero", 1), ("none", 0.7), ("some", 0.7)]), "empty": p.choice([0.0, 0.3, 0.3, 1.0]) if p.chance(0.9) else 1.0,
               "nice": p.chance(0.2)}
        if src == "sim":
            kinds = [k for k in zoo.SED_KINDS + zoo.BAND_KINDS if k not in ("bayesn", "salt2", "agn")]
            scn["world"] = zoo.gen_world(p.sub("w"), {"kinds": kinds}, surveys=p.int(1, 2))
        ops = []
        for j in range(p.int(2, 8)):
            o = p.sub("op", j)
            k = o.wchoice([("aug", 5), ("drop", 1.5), ("select", 1), ("order", 1), ("repeat", 0.7), ("join", 0.7), ("label", 1), ("copy", 0.7), ("reload", 0.5),
                           ("scale", 0.8), ("shift", 0.5), ("single", 1), ("arrays", 0.5), ("bad", 0.3)])
            op = {"k": k, "seed": o.seed32()}
            if k in ("aug", "single"):
                op["snr"] = o.choice([0.0, 5.0, 5.0, 3.0, 50.0])
                if k == "aug" and o.chance(0.3):
                    op["fault"] = {"kind": o.choice(["call", "line"]), "exc": o.choice(["kbd", "mem"]), "seed": o.seed32()}
            ops.append(op)
        ops.append({"k": "aug", "seed": p.seed32(), "snr": 5.0})
        return {**scn, "ops": ops}

    # ------------------------------------------------------------------------------------------------
    def made(self, scn):
        import pandas as pd
        from nested_pandas import NestedFrame

        p = Prng("rows", scn["seed"])
        n = scn["n"]
        t0 = [p.uniform(10.0, 60.0) for _ in range(n)]
        if scn["t0"] == "zero":
            t0[p.int(0, n - 1)] = 0.0
        if scn["t0"] == "some":
            t0[p.int(0, n - 1)] = None
        labels = list(range(n))
        obj = {"id": labels, "ra": [p.uniform(0, 360) for _ in labels], "nobs": [0] * n}
        if scn["t0"] != "none":
            obj["t0"] = np.array(t0, dtype=float) if scn["t0"] != "some" or p.chance(0.5) else np.array(t0, dtype=object)
        rows, idx = [], []
        for j in range(n):
            if p.chance(scn["empty"]):
                continue
            for _ in range(p.int(1, 5)):
                pool = (FLUX[:4], ERR[:4]) if scn["nice"] else (FLUX, ERR)
                rows.append([p.uniform(0, 90), p.choice("gri"), p.choice(pool[0]), p.choice(pool[1]), p.int(0, 9)])
                idx.append(j)
                obj["nobs"][j] += 1
        lc = pd.DataFrame(rows, columns=["mjd", "filter", "flux", "fluxerr", "tag"], index=idx)
        lc = lc.astype({"mjd": float, "flux": float, "fluxerr": float, "tag": int, "filter": str})
        return NestedFrame(obj, index=labels).add_nested(lc, "lightcurve")

    def frame(self, scn, run):
        if scn["src"] == "sim":
            import lightcurvelynx.simulate as S

            W = zoo.World(scn["world"])
            run.probe("simulated")
            r = S.simulate_lightcurves(W.model, scn["n"], W.surveys, [W.passbands] * len(W.surveys), rng=np.random.default_rng(scn["seed"])) \
                if len(W.surveys) > 1 and not any(k in zoo.BAND_KINDS for k in zoo.kinds_in(scn["world"]["model"])) \
                else S.simulate_lightcurves(W.model, scn["n"], W.surveys[0], W.passbands, rng=np.random.default_rng(scn["seed"]))
        else:
            r = self.made(scn)
        return self.relabel(r, scn["labels"], scn["seed"])

    def relabel(self, r, kind, seed):
        n = len(r)
        if kind == "range":
            return r.reset_index(drop=True)
        if kind == "offset":
            order = Prng("label", seed).sample(range(n), n)
            lab = [int(x) + 3 for x in order]
        elif kind == "text":
            lab = [f"obj{x}" for x in range(n)]
        else:
            lab = [0.5 * x - 1.0 for x in range(n)]
        r = r.copy()
        r.index = lab
        return r

    def read(self, r):
        """The frame as plain objects and rows."""
        import pandas as pd

        out = []
        has = "lightcurve" in r.columns
        for j in range(len(r)):
            lc = r["lightcurve"].iloc[j] if has else None
            rows = []
            if isinstance(lc, pd.DataFrame):
                cols = {c: list(lc[c]) for c in lc.columns}
                for i in range(len(lc)):
                    row = {c: v[i] for c, v in cols.items()}
                    rows.append({c: (v if c == "filter" else bool(v) if c == "detection" and v is not None and v == v else num(v) if not isinstance(v, str) else v)
                                 for c, v in row.items()})
            out.append({"label": r.index[j], "cols": {c: r[c].iloc[j] for c in r.columns if c not in ("lightcurve", "params")}, "rows": rows})
        return out

    def verify(self, r, ref, what):
        got = self.read(r)
        if len(got) != len(ref):
            raise Violation("objects-changed", f"{what}: {len(got)} objects, expected {len(ref)}")
        for j, (a, b) in enumerate(zip(got, ref)):
            where = f"{what}, object {j}"
            if a["label"] != b["label"]:
                raise Violation("label-changed", f"{where}: label {a['label']!r}, expected {b['label']!r}")
            if set(a["cols"]) != set(b["cols"]):
                raise Violation("object-columns", f"{where}: columns {sorted(a['cols'])}, expected {sorted(b['cols'])}")
            for c, v in b["cols"].items():
                x = a["cols"][c]
                if not (x is v or x == v or (num_or(x) is None and num_or(v) is None)):
                    raise Violation("object-changed", f"{where}: {c} is {x!r}, was {v!r}", f"object-changed:{c}")
            if len(a["rows"]) != len(b["rows"]):
                raise Violation("rows-changed", f"{where}: {len(a['rows'])} rows, expected {len(b['rows'])}")
            for i, (x, y) in enumerate(zip(a["rows"], b["rows"])):
                der = b.get("derived")
                allow = set(y) | (set(der[i][0]) if der else set())
                if der and not b.get("torn") and not set(der[i][0]) <= set(x):
                    raise Violation("column-missing", f"{where} row {i}: columns {sorted(x)} lack {sorted(set(der[i][0]) - set(x))}", "column-missing")
                if set(x) - allow or set(y) - set(x):
                    raise Violation("row-columns", f"{where} row {i}: columns {sorted(x)}, expected {sorted(allow)}", "row-columns")
                for c, v in y.items():
                    if x[c] != v and not (isinstance(v, float) and isinstance(x[c], float) and same(v, x[c])):
                        raise Violation("row-changed", f"{where} row {i}: {c} is {x[c]!r}, was {v!r}", f"row-changed:{c}")
                for c in (set(x) & set(der[i][0]) if der else ()):
                    for cand in der[i]:
                        if c in cand and (same(x[c], cand[c]) if c != "detection" else x[c] == cand[c]):
                            break
                    else:
                        raise Violation("derived-value", f"{where} row {i} (flux {y['flux']!r} +- {y['fluxerr']!r}): {c} is {x[c]!r}, expected {[d.get(c) for d in der[i]]}",
                                        f"derived-value:{c}")

    # ------------------------------------------------------------------------------------------------
    def execute(self, scn, run):
        tmp = tempfile.mkdtemp(prefix="p17-", dir=os.environ.get("VERIF_SCRATCH"))
        try:
            with np.errstate(all="ignore"):
                self.history(scn, run, tmp)
        finally:
            shutil.rmtree(tmp, ignore_errors=True)

    def history(self, scn, run, tmp):
        import pandas as pd

        import lightcurvelynx.utils.post_process_results as PP

        r = self.frame(scn, run)
        ref = self.read(r)
        last = "start"
        augmented = False
        for step, op in enumerate(scn["ops"]):
            run.ops += 1
            k = op["k"]
            p = Prng("step", op["seed"])
            what = f"step {step} {k}"
            outcome = "done"
            n = len(r)
            empty = [not o["rows"] for o in ref]
            run.probe("empty-objects", int(any(empty)))
            run.probe("all-empty", int(all(empty)))
            if k == "drop":
                r = PP.results_drop_empty(r)
                ref = [o for o in ref if o["rows"]]
            elif k == "select":
                keep = [p.chance(0.6) for _ in range(n)]
                r = r[np.array(keep, dtype=bool)] if p.chance(0.5) else r.iloc[[j for j in range(n) if keep[j]]]
                ref = [o for o, y in zip(ref, keep) if y]
                r = r.copy()
            elif k == "order":
                order = p.sample(range(n), n)
                r = r.iloc[order].copy()
                ref = [ref[j] for j in order]
                run.probe("reordered")
            elif k == "repeat" and n:
                order = [p.int(0, n - 1) for _ in range(p.int(1, n + 1))]
                r = r.iloc[order].copy()
                ref = [copy.deepcopy(ref[j]) for j in order]
                run.probe("repeated")
            elif k == "join" and n:
                cut = p.int(0, n)
                first = p.chance(0.5)
                parts = [r.iloc[:cut], r.iloc[cut:]] if first else [r.iloc[cut:], r.iloc[:cut], r.iloc[:1]]
                refs = [ref[:cut], ref[cut:]] if first else [ref[cut:], ref[:cut], copy.deepcopy(ref[:1])]
                keep = [(a, b) for a, b in zip(parts, refs) if len(a)]
                r = pd.concat([a for a, _ in keep])
                ref = [o for _, b in keep for o in b]
                run.probe("joined")
            elif k == "label":
                r = self.relabel(r, p.choice(["range", "offset", "text", "float"]), op["seed"])
                ref = [{**o, "label": lab} for o, lab in zip(ref, r.index)]
                run.probe("relabelled")
            elif k == "copy":
                r = r.copy() if p.chance(0.5) else copy.deepcopy(r)
            elif k == "reload":
                r = pickle.loads(pickle.dumps(r))
                run.probe("reloaded")
            elif k in ("scale", "shift"):
                if any(o["rows"] for o in ref):
                    if k == "scale":
                        f = p.choice([-1.0, 0.5, 10.0])
                        r["lightcurve.flux"] = r["lightcurve.flux"] * f
                        change = [("flux", lambda v: None if v is None else v * f)]
                    else:
                        d = p.choice([100.0, -7.25])
                        r["lightcurve.mjd"] = r["lightcurve.mjd"] + d
                        change = [("mjd", lambda v: None if v is None else v + d)]
                    for o in ref:
                        for row in o["rows"]:
                            for c, g in change:
                                row[c] = g(row[c])
                                if c == "flux" and row[c] == 0:
                                    row[c] = 0.0
            elif k == "bad":
                self.bad(r, p, PP, what)
                run.probe("rejected")
            elif k == "arrays":
                self.arrays(p, PP, what, run)
            elif k == "single" and any(o["rows"] for o in ref):
                j = p.choice([j for j, o in enumerate(ref) if o["rows"]])
                self.single(r, ref, j, op, p, PP, what, run)
            elif k == "aug":
                outcome = self.augment(r, ref, op, PP, run, what)
                run.probe("twice", int(augmented))
                augmented = True
            self.verify(r, ref, what)
            if augmented and any(o["rows"] for o in ref):
                run.nontrivial = True
            run.event(k, outcome, [[repr(o["label"]), len(o["rows"])] for o in ref])
            run.state(scn["src"], last, k, outcome, bool(any(empty)), bool(all(empty)), type(r.index[0]).__name__ if len(r) else "none", scn["t0"])
            last = k

    def times(self, ref):
        """The reference time of each object, or None when the frame has no complete column of them."""
        t0 = [num(o["cols"].get("t0")) for o in ref]
        return None if any(t is None for t in t0) else t0

    def expect(self, ref, snr):
        t0 = self.times(ref)
        return [[derive(row, None if t0 is None else t0[j], snr) for row in o["rows"]] for j, o in enumerate(ref)]

    def augment(self, r, ref, op, PP, run, what):
        snr = self.threshold([x for o in ref for x in o["rows"]], op, Prng("snr", op["seed"]))
        new = self.expect(ref, snr)
        t0 = self.times(ref)
        run.probe("missing-t0", int(t0 is None))
        run.probe("zero-t0", int(t0 is not None and 0.0 in t0))
        f = op.get("fault")
        exc, fired = None, None

        def action():
            PP.results_augment_lightcurves(r, min_snr=snr)

        if f:
            q = Prng("at", f["seed"])
            at = f.get("at") or (q.int(1, 40) if f["kind"] == "line" else q.int(1, 60))
            inst = inject.Instants(f["kind"], at, f["exc"])
            _, exc = inst.run(action)
            fired = inst.fired
        else:
            try:
                action()
            except Exception as e:
                exc = e
        if exc is not None and fired is None:
            raise Violation("unexpected-exception", f"{what}: {type(exc).__name__}: {exc}", f"unexpected-exception:{type(exc).__name__}")
        if fired is not None:
            run.fault(f"{f['kind']}-{f['exc']}")
            run.probe("cut")
        run.probe("augment", int(exc is None))
        for o, rows in zip(ref, new):
            old = o.pop("derived", None)
            # columns that were there before stay in the rows' own columns; derived ones are compared with the candidates
            for row in o["rows"]:
                for c in DERIVED + ["time_rel"]:
                    row.pop(c, None)
            if exc is None:
                o["derived"] = [self.keep_time(d, old[i] if old else None) for i, d in enumerate(rows)]
                o["torn"] = False
            else:
                o["derived"] = [[d] + (old[i] if old else []) for i, d in enumerate(rows)]
                o["torn"] = True
        return "done" if exc is None else "cut"

    def keep_time(self, d, old):
        """Without reference times, relative times that were there already stay."""
        if "time_rel" in d or not old:
            return [d]
        cands = [{**d, "time_rel": c["time_rel"]} for c in old if "time_rel" in c]
        return [d] + cands if cands else [d]

    def threshold(self, rows, op, p):
        """The smallest ratio of a detection: sometimes exactly that of a row."""
        d = [derive(x, None, 0.0)["snr"] for x in rows]
        d = [x for x in d if x is not None and math.isfinite(x)]
        return p.choice(d) if d and p.chance(0.3) else op["snr"]

    def single(self, r, ref, j, op, p, PP, what, run):
        lc = r["lightcurve"].iloc[j].copy()
        lc.index = p.sample(range(len(lc) + 50), len(lc))
        t0 = p.choice([None, 0.0, 12.5])
        cols = list(lc.columns)
        labels = list(lc.index)
        keep = ref[j]["rows"]
        snr = self.threshold(keep, op, p)
        PP.augment_single_lightcurve(lc, min_snr=snr, t0=t0)
        run.probe("single")
        if list(lc.index) != labels or not set(cols) <= set(lc.columns) or len(lc) != len(keep):
            raise Violation("single-rows", f"{what}: rows or columns changed")
        for i, row in enumerate(keep):
            want = derive(row, t0, snr)
            for c in ("mjd", "flux", "fluxerr"):
                if not same(num(lc[c].iloc[i]), row[c]):
                    raise Violation("single-changed", f"{what} row {i}: {c} is {lc[c].iloc[i]!r}, was {row[c]!r}")
            for c, v in want.items():
                if c not in lc.columns:
                    raise Violation("single-missing", f"{what}: column {c} is missing", f"single-missing:{c}")
                x = lc[c].iloc[i]
                if not (bool(x) == v if c == "detection" else same(num(x), v)):
                    raise Violation("single-value", f"{what} row {i} (flux {row['flux']!r} +- {row['fluxerr']!r}): {c} is {x!r}, expected {v!r}", f"single-value:{c}")

    def arrays(self, p, PP, what, run):
        n = p.int(0, 8)
        f = np.array([p.choice(FLUX) for _ in range(n)])
        e = np.array([p.choice(ERR) for _ in range(n)])
        f0, e0 = f.copy(), e.copy()
        snr = PP.lightcurve_compute_snr(f, e)
        mag, magerr = PP.lightcurve_compute_mag(f, e)
        run.probe("arrays")
        if not (np.array_equal(f, f0, equal_nan=True) and np.array_equal(e, e0, equal_nan=True)):
            raise Violation("input-changed", f"{what}: the caller's arrays changed")
        for i in range(n):
            want = derive({"flux": num(f[i]), "fluxerr": num(e[i]), "mjd": None}, None, 0.0)
            for c, got in (("snr", snr), ("mag", mag), ("magerr", magerr)):
                if len(got) != n or not same(num(got[i]), want[c]):
                    raise Violation("array-value", f"{what} entry {i} ({f[i]!r} +- {e[i]!r}): {c} is {got[i]!r}, expected {want[c]!r}", f"array-value:{c}")

    def bad(self, r, p, PP, what):
        """Frames that cannot be augmented are rejected and left as they were."""
        x = r.copy()
        if p.chance(0.5):
            x = x.drop(columns=["lightcurve"])
        else:
            x = x.copy()
            x["lightcurve"] = x["lightcurve"].nest.without_field(p.choice(["flux", "fluxerr"]))
        cols = list(x.columns)
        try:
            PP.results_augment_lightcurves(x, min_snr=1.0)
        except ValueError:
            pass
        else:
            raise Violation("not-rejected", f"{what}: a frame without the needed columns was accepted")
        if list(x.columns) != cols or len(x) != len(r):
            raise Violation("rejected-changed", f"{what}: a rejected call changed the frame")

    # ------------------------------------------------------------------------------------------------
    def shrink(self, scn):
        for j in range(len(scn["ops"])):
            if len(scn["ops"]) > 1:
                c = copy.deepcopy(scn)
                del c["ops"][j]
                yield c
            if scn["ops"][j].get("fault"):
                c = copy.deepcopy(scn)
                del c["ops"][j]["fault"]
                yield c
        for key, small in (("n", 1), ("labels", "range"), ("t0", "all"), ("nice", True), ("empty", 0.0)):
            if scn[key] != small:
                yield {**copy.deepcopy(scn), key: small}
        if scn["n"] > 2:
            yield {**copy.deepcopy(scn), "n": scn["n"] - 1}
        if "world" in scn:
            for w in zoo.shrink_world(scn["world"]):
                yield {**copy.deepcopy(scn), "world": w}


def num_or(v):
    try:
        return num(v)
    except (TypeError, ValueError):
        return v


CHECK = P17()
