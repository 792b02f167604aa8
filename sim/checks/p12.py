"""P12: survey queries return exactly the matching visits.

One run is a history over one survey table: edits (row filtering, new and overwritten columns, radius, footprint removal,
saving and reloading, copies), rejected edits, edits and queries cut short by an injected failure, and queries. The
reference keeps plain column arrays and answers every query by a full scan with its own spherical geometry and its own
footprint projection."""
import copy
import os
import pickle
import shutil
import tempfile

import numpy as np

from sim import inject, warmup
from sim.zoo import roman_class
from sim.core import Prng, Violation, short_tb
from sim.runner import CheckBase

EDGE = 1e-9      # rad: visits this close to the edge of the radius may fall on either side
FP_EDGE = 1e-6   # degrees, the same for the edge of a footprint
KINDS = ["base", "fake", "fakec", "opsim", "ztf", "roman"]


def unit(ra, dec):
    r, d = np.radians(np.asarray(ra, dtype=float)), np.radians(np.asarray(dec, dtype=float))
    return np.array([np.cos(d) * np.cos(r), np.cos(d) * np.sin(r), np.sin(d)]).T


def separation(ra1, dec1, ra2, dec2):
    a = unit(ra1, dec1) - unit(ra2, dec2)
    return 2 * np.arcsin(np.clip(0.5 * np.sqrt((a * a).sum(axis=-1)), 0.0, 1.0))


def tangent(ra, dec, ra0, dec0, rot):
    """Tangent-plane offsets (degrees) of a point from each pointing, in the detector's own (rotated) axes; behind: False."""
    p, c = unit(ra, dec), unit(ra0, dec0)
    a0, d0 = np.radians(ra0), np.radians(dec0)
    east = np.array([-np.sin(a0), np.cos(a0), np.zeros_like(a0)]).T
    north = np.array([-np.sin(d0) * np.cos(a0), -np.sin(d0) * np.sin(a0), np.cos(d0)]).T
    w = (p * c).sum(axis=-1)
    with np.errstate(all="ignore"):
        xi, eta = np.degrees((p * east).sum(axis=-1) / w), np.degrees((p * north).sum(axis=-1) / w)
    t = np.radians(rot)
    return xi * np.cos(t) - eta * np.sin(t), xi * np.sin(t) + eta * np.cos(t), w > 0


class Shape:
    """The reference's footprint: signed distance to the edge (positive inside), in degrees of the tangent plane."""

    def __init__(self, spec):
        self.spec = spec

    def build(self):
        import astropy.units as u
        from astropy.coordinates import SkyCoord
        from lightcurvelynx.astro_utils.detector_footprint import DetectorFootprint
        from regions import CircleSkyRegion

        s = self.spec
        if s["kind"] == "rect":
            return DetectorFootprint.from_rect(s["w"], s["h"], pixel_scale=s["px"])
        region = CircleSkyRegion(center=SkyCoord(ra=0.0, dec=0.0, unit="deg", frame="icrs"), radius=0.5 * s["w"] * u.deg)
        return region if s["raw"] else DetectorFootprint(region, pixel_scale=s["px"])

    def margin(self, ra, dec, ra0, dec0, rot):
        x, y, front = tangent(ra, dec, ra0, dec0, rot)
        if self.spec["kind"] == "rect":
            m = np.minimum(0.5 * self.spec["w"] - np.abs(x), 0.5 * self.spec["h"] - np.abs(y))
        else:
            m = 0.5 * self.spec["w"] - np.hypot(x, y)
        return np.where(front, m, -np.inf)


class Table:
    """Builds the survey and the reference's own copy of it."""

    def __init__(self, spec):
        import pandas as pd
        from lightcurvelynx.obstable.fake_obs_table import FakeObsTable
        from lightcurvelynx.obstable.obs_table import ObsTable
        from lightcurvelynx.obstable.opsim import OpSim
        from lightcurvelynx.obstable.ztf_obstable import ZTFObsTable

        p = Prng("visits", spec["seed"])
        n = spec["n"]
        spots = {"wrap": [(0.0, 0.0), (359.7, 0.4), (0.6, -0.3)], "pole": [(10.0, 89.9), (200.0, 90.0), (310.0, 89.2)], "south": [(0.0, -90.0), (123.0, -89.6)],
                 "field": [(150.0, -10.0), (151.3, -9.2)], "all": None, "same": [(42.0, 7.0)]}[spec["sky"]]
        ra, dec = [], []
        for _ in range(n):
            if spots is None:
                a, d = p.uniform(0, 360), float(np.degrees(np.arcsin(p.uniform(-1, 1))))
            else:
                a0, d0 = p.choice(spots)
                s = 0.0 if spec["sky"] == "same" or p.chance(0.15) else p.choice([0.3, 1.5])
                d = max(-90.0, min(90.0, d0 + p.uniform(-s, s)))
                a = (a0 + p.uniform(-s, s) / max(np.cos(np.radians(d)), 0.02)) % 360.0
            if spec["negative"] and a > 180:
                a -= 360.0
            ra.append(a)
            dec.append(d)
        t = [float(p.int(0, 30)) if p.chance(0.5) else p.uniform(0, 30) for _ in range(n)]
        self.kind = spec["kind"]
        filt = [p.choice("gri") for _ in range(n)]
        d = {"ra": np.array(ra), "dec": np.array(dec), "time": np.array(t), "filter": np.array(filt, dtype=object), "visit": np.arange(n) * 7 + 1000}
        if spec["shape"]:
            if spec["rot"]:
                d["rotation"] = np.array([p.choice([0.0, 30.0, 90.0, -45.0, 200.0]) for _ in range(n)])
        cmap, cls, kw = None, None, {}
        if self.kind == "base":
            cls = ObsTable
            if spec["colmap"]:
                cmap = {"ra": "fieldRA", "dec": "fieldDec", "time": "mjd"}
        elif self.kind in ("fake", "fakec"):
            cls = FakeObsTable
            kw = {"zp_per_band": {"g": 1.0, "r": 2.0, "i": 3.0}}
            kw.update({"const_flux_error": {"g": 1.0, "r": 2.0, "i": 3.0}} if self.kind == "fakec" else {"sky": 5.0, "fwhm_px": 2.5, "read_noise": 4.0})
        elif self.kind == "opsim":
            cls = OpSim
            cmap = {"ra": "fieldRA", "dec": "fieldDec", "time": "observationStartMJD", "exptime": "visitExposureTime", "airmass": "airmass", "filter": "filter"}
            d.update({"airmass": np.array([p.uniform(1, 2) for _ in range(n)]), "exptime": np.full(n, 30.0)})
            v = Prng("visits", spec["seed"], "more")
            d.update({"skybrightness": np.array([v.choice([20.0, 21.5, v.uniform(18, 22)]) for _ in range(n)]), "observationId": np.array(v.shuffle(range(5000, 5000 + n))),
                      "seeing": np.array([v.uniform(0.5, 2) for _ in range(n)])})
            cmap.update({"skybrightness": "skyBrightness", "seeing": "seeingFwhmEff"})
        elif self.kind == "roman":
            cls = roman_class()
            cmap = {"ra": "RA", "dec": "DEC", "filter": "BANDPASS"}
            d.update({"MA_TABLE_NUMBER": np.array([1001 + p.int(0, 3) for _ in range(n)]), "PASS": np.array([p.int(1, 6) for _ in range(n)])})
        else:
            cls = ZTFObsTable
            cmap = {"time": "obsmjd", "sky": "scibckgnd"}
            d.update({"maglim": np.full(n, 20.0), "sky": np.full(n, 150.0), "fwhm": np.full(n, 2.0), "exptime": np.full(n, 30.0)})
        if spec["radius"] is not None:
            kw["radius"] = spec["radius"]
        self.shape = Shape(spec["shape"]) if spec["shape"] else None
        if self.shape:
            kw["detector_footprint"] = self.shape.build()
            if spec["shape"].get("raw"):
                kw["pixel_scale"] = spec["shape"]["px"]
        raw = {(cmap or {}).get(c, c): v.copy() for c, v in d.items()}
        form = raw
        if self.kind == "roman":
            del raw["time"]  # follows from the pass
        if spec["frame"] != "dict" or self.kind == "ztf":
            form = pd.DataFrame(raw)
            if spec["frame"] == "labels":
                form.index = p.shuffle(range(100, 100 + n))
            elif spec["frame"] == "dups":
                form.index = [p.int(0, 3) for _ in range(n)]
        if self.kind == "opsim" and spec["colmap"]:
            kw["colmap"] = {**cmap, "zp": "zp_nJy"}
        elif self.kind == "base" and cmap:
            kw["colmap"] = cmap
        self.alias = {v: k for k, v in (cmap or {}).items() if v != k}
        self.obj = cls(form, **kw)
        self.cls = cls
        if self.kind == "roman":
            passes = sorted(set(d["PASS"].tolist()))
            t = np.array([61304.0 + 5.0 * passes.index(x) for x in d["PASS"].tolist()])
            if list(self.obj["time"]) != list(t):
                raise Violation("derived-times", f"passes {d['PASS'].tolist()[:6]} give times {list(self.obj['time'])[:6]}, expected {t.tolist()[:6]}")
            self.obj.add_column("time", d["time"].copy(), overwrite=True)
        self.cols = {c: np.array(v) for c, v in d.items()}
        for c in self.obj.columns:  # columns the table derives at construction (zero points etc.) are not the subject
            if c not in self.cols:
                self.cols[c] = np.array(self.obj[c].to_numpy())
        default = cls._default_survey_values.get("radius")
        self.radius = spec["radius"] if spec["radius"] is not None else default
        self.asked = self.mapped = None
        self.first = {c: self.cols[c] for c in ("ra", "dec")}

    def n(self):
        return len(self.cols["ra"])


def parts(W):
    """State of the reference that an edit may change."""
    return {c: v.copy() for c, v in W.cols.items()}, W.radius, W.shape


class P12(CheckBase):
    ID = "P12"
    RULE = "a run is non-trivial when a query that matched at least one visit was compared with the full scan after an edit or a fault"
    MEASURE = "distinct (survey kind, sky region, labels, footprint, preceding step, its outcome, query form, matches or not) combinations"
    REAL = ["ObsTable, FakeObsTable, OpSim, ZTFObsTable, RomanObsTable, DetectorFootprint; scipy KDTree, mocpy, pandas, pyarrow, sqlite on a scratch directory"]
    STUB = ["the four instrument tables RomanObsTable downloads"]
    ASSUMPTIONS = ["visits within 1e-9 rad of the edge of the radius (1e-6 degrees of a footprint's edge) may be in or out",
                   "footprint regions are rectangles and circles centred on the pointing, on a tangent plane",
                   "sky coverage is approximated on HEALPix cells: points within the radius must be covered, points further than the radius plus two cells must not"]
    PROBES = ["query", "matched", "empty", "vector-query", "time-window", "scalar-window-vector", "wrap", "pole", "footprint", "rotated", "edit", "overwrite-position", "rejected", "cut",
              "reload-db", "reload-parquet", "copy", "observations", "observed", "moc", "bounds", "no-rows", "asked-again", "oversampled"]
    RUNS = {"quick": 3000, "thorough": 90000}

    def warm(self):
        warmup.full()

    # ----------------------------------------------------------------------------------------------
    def generate(self, p, i, tier):
        q = p.sub("table")
        spec = {"seed": q.seed32(), "kind": q.choice(KINDS), "n": q.choice([1, 2, 5, 12, 12, 30, 30]), "sky": q.choice(["wrap", "pole", "south", "field", "all", "same", "wrap"]),
                "radius": q.choice([None, 0.5, 1.75, 5.0]), "frame": q.choice(["dict", "frame", "labels", "dups"]), "colmap": q.chance(0.5), "negative": q.chance(0.1), "shape": None, "rot": False}
        if spec["kind"] == "ztf" and spec["frame"] == "dict":
            spec["frame"] = "frame"
        if q.chance(0.4):
            spec["shape"] = {"kind": q.choice(["rect", "circle"]), "w": q.choice([0.5, 1.5, 3.0]), "h": q.choice([0.4, 1.0, 4.0]), "px": q.choice([0.01, 0.1, 0.2]), "raw": q.chance(0.4)}
            spec["rot"] = q.chance(0.6)
        ops = []
        for j in range(p.int(3, 9 if tier == "quick" else 16)):
            o = p.sub("op", j)
            k = o.wchoice([("query", 6), ("filter", 2), ("col", 1), ("move", 1), ("radius", 1), ("clear", 0.3), ("save", 0.8), ("copy", 0.4), ("bad", 1), ("moc", 0.8), ("bounds", 0.5)] + ([("over", 1.2)] if spec["kind"] == "opsim" else []))
            op = {"k": k, "seed": o.seed32()}
            if k in ("filter", "col", "move", "radius", "query") and o.chance(0.15):
                op["fault"] = {"exc": o.choice(["kbd", "mem"]), "where": o.choice(["uniform", "store", "late"]), "seed": o.seed32()}
            ops.append(op)
        ops.append({"k": "query", "seed": p.seed32()})
        return {"table": spec, "ops": ops}

    def execute(self, scn, run):
        W = Table(scn["table"])
        tmp = tempfile.mkdtemp(prefix="p12-", dir=os.environ.get("VERIF_SCRATCH"))
        try:
            last, disturbed = "start", False
            for j, op in enumerate(scn["ops"]):
                run.ops += 1
                k = op["k"]
                what = f"after {[o['k'] for o in scn['ops'][:j]]}"
                if k == "query":
                    hit = self.query(W, op, run, scn, last, what, op.get("fault"))
                    if hit and disturbed:
                        run.nontrivial = True
                elif k == "moc":
                    self.moc(W, op, run, what)
                elif k == "bounds":
                    self.bounds(W, run, what)
                elif k == "over":
                    self.oversample(W, op, run, what)
                else:
                    last = k + self.edit(W, op, run, tmp, what)
                    disturbed = True
                self.same_table(W, f"{what} and {k}")
        finally:
            shutil.rmtree(tmp, ignore_errors=True)

    # ----------------------------------------------------------------------------------------------
    def oversample(self, W, op, run, what):
        """A survey oversampled at a pointing: its grid of times, the bands in turn, everything else from real visits there."""
        from lightcurvelynx.obstable.opsim import oversample_opsim

        q, n = Prng("over", op["seed"]), W.n()
        if n == 0:
            return
        j = q.int(0, n - 1)
        ra, dec = float(W.cols["ra"][j]), float(W.cols["dec"][j])
        if q.chance(0.3):
            dec = max(-90.0, min(90.0, dec + q.uniform(-1.0, 1.0)))
        radius = q.choice([0.5, 1.75, 5.0])
        sep = separation(ra, dec, W.cols["ra"], W.cols["dec"])
        if W.shape is not None or np.any(np.abs(sep - np.radians(radius)) < EDGE):
            return
        near = np.nonzero(sep < np.radians(radius))[0]
        filt = np.asarray(W.cols["filter"]).astype(str)
        have = sorted(set(filt[near]))
        lo, hi = q.choice([None, 3.0]), q.choice([None, 11.0])
        delta = q.choice([0.5, 0.37, 2.0])
        bands = q.choice([None, None, q.sample(["g", "r", "i"], q.int(1, 3)), have[:2]])
        strategy = q.choice(["darkest_sky", "random"])
        try:
            new, failed = oversample_opsim(W.obj, pointing=(ra, dec), search_radius=radius, delta_t=delta, time_range=(lo, hi), bands=bands, strategy=strategy), None
        except Exception as e:  # noqa: BLE001
            new, failed = None, short_tb(e)
        t = np.asarray(W.cols["time"], dtype=float)[near]
        use = have if bands is None else list(bands)
        start, end = (lo if lo is not None else t.min() if len(t) else 0.0), (hi if hi is not None else t.max() if len(t) else 0.0)
        times = np.arange(start, end, delta) if end > start else np.zeros(0)
        if len(near) == 0 or not set(use) <= set(have) or len(times) < max(len(use), 1):
            if failed is None:
                raise Violation("oversample-accepted", f"{what}: oversampling at ({ra}, {dec}) radius {radius} bands {bands} from {start} to {end} was accepted")
            return
        if failed is not None:
            raise Violation("oversample-failed", f"{what}: oversampling {len(times)} times in bands {use} failed: {failed}", "oversample-failed")
        run.probe("oversampled")
        if len(new) != len(times) or not np.allclose(np.asarray(new["time"], dtype=float), times, rtol=0, atol=1e-9):
            raise Violation("oversample-times", f"{what}: {len(new)} rows for {len(times)} times from {start} to {end} every {delta}")
        if not (np.all(new["ra"] == ra) and np.all(new["dec"] == dec)):
            raise Violation("oversample-position", f"{what}: positions differ from ({ra}, {dec})")
        got = np.asarray(new["filter"]).astype(str)
        if list(got) != [use[x % len(use)] for x in range(len(times))]:
            raise Violation("oversample-bands", f"{what}: bands {list(got)[:8]}, expected {use} in turn")
        rest = [c for c in W.cols if c not in ("ra", "dec", "time", "filter", "observationId") and W.cols[c].dtype.kind in "if"]
        sky = np.asarray(W.cols["skybrightness"], dtype=float)
        vals = {c: np.asarray(new[c], dtype=float) for c in rest}
        for b in use:
            cand = [x for x in near if filt[x] == b]
            if strategy == "darkest_sky":
                top = max(sky[x] for x in cand)
                cand = [x for x in cand if sky[x] == top]
            ok = {tuple(float(W.cols[c][x]) for c in rest) for x in cand}
            for x in np.nonzero(got == b)[0]:
                row = tuple(float(vals[c][x]) for c in rest)
                if row not in ok:
                    raise Violation("oversample-visit", f"{what}: row {x} (band {b}, {strategy}) {dict(zip(rest, row))} is no visit of that band at the pointing",
                                    f"oversample-visit:{strategy}")
        hits = new.range_search(ra, dec)
        if len(hits) != len(new) or new.radius != W.obj.radius:
            raise Violation("oversample-query", f"{what}: {len(hits)} of {len(new)} oversampled visits found at their own pointing, radius {new.radius} vs {W.obj.radius}")
        run.event("over", len(new), b)

    def same_table(self, W, what):
        o = W.obj
        if len(o) != W.n():
            raise Violation("rows-differ", f"{what}: the table has {len(o)} rows, expected {W.n()}")
        if sorted(map(str, o.filters)) != sorted(set(map(str, W.cols["filter"]))):
            raise Violation("filters-differ", f"{what}: the list of filters is {list(o.filters)}, the visits use {sorted(set(map(str, W.cols['filter'])))}")
        for c, v in W.cols.items():
            got = o[c].to_numpy()
            if len(got) != len(v) or not all(a == b or (a != a and b != b) for a, b in zip(got.tolist(), v.tolist())):
                raise Violation("rows-differ", f"{what}: column {c} is {got.tolist()[:6]}, expected {v.tolist()[:6]}", "rows-differ:column")

    def edit(self, W, op, run, tmp, what):
        """Makes one edit on both sides. Returns a tag for what happened."""
        from sim.core import Outcome

        o, q, n = W.obj, Prng("edit", op["seed"]), W.n()
        k = op["k"]
        run.probe("edit")
        before = parts(W)
        call = None
        if k == "filter":
            keep = np.array([q.chance(0.75) for _ in range(n)], dtype=bool)
            if q.chance(0.05):
                keep[:] = False
            form = q.choice(["mask", "list", "index", "negative"])
            idx = np.nonzero(keep)[0]
            arg = {"mask": keep, "list": [bool(x) for x in keep], "index": idx, "negative": np.where(np.arange(len(idx)) % 2 == 0, idx, idx - n)}[form]
            if len(idx) == 0:
                arg = keep
                run.probe("no-rows")
            if n == 0:
                return ":none"
            call = lambda: o.filter_rows(arg)  # noqa: E731
            after = ({c: v[keep] for c, v in W.cols.items()}, W.radius, W.shape)
        elif k == "col":
            name = q.choice(["extra", "extra2", "visit"])
            v = np.array([q.uniform(0, 1) for _ in range(n)]) if q.chance(0.7) else 3.5
            call = lambda: o.add_column(name, v.copy() if isinstance(v, np.ndarray) else v, overwrite=True)  # noqa: E731
            after = ({**W.cols, name: v if isinstance(v, np.ndarray) else np.full(n, v)}, W.radius, W.shape)
        elif k == "move":
            name = q.choice(["ra", "dec", "time", "ra", "dec", "filter"])
            v = W.cols[name][::-1].copy() if q.chance(0.5) else np.array([q.uniform(0, 30) for _ in range(n)])
            if name == "filter":
                v = np.array([q.choice("gr") for _ in range(n)], dtype=object)
            run.probe("overwrite-position")
            call = lambda: o.add_column(name, v.copy(), overwrite=True)  # noqa: E731
            after = ({**W.cols, name: v}, W.radius, W.shape)
        elif k == "radius":
            r = q.choice([0.1, 0.75, 2.0, 20.0])
            call = lambda: setattr(o, "radius", r)  # noqa: E731
            after = (W.cols, r, W.shape)
        elif k == "clear":
            o.clear_detector_footprint()
            W.shape = None
            return ""
        elif k == "copy":
            run.probe("copy")
            old = W.obj
            W.obj = copy.deepcopy(old) if q.chance(0.5) else pickle.loads(pickle.dumps(old))
            if q.chance(0.5) and n:  # edits of the original must not reach the copy
                old.filter_rows(np.arange(n) == 0)
                old.add_column("time", -5.0, overwrite=True)
                old.radius = 77.0
            return ""
        elif k == "save":
            self.reload(W, q, run, tmp, what)
            return ""
        else:
            run.probe("rejected")
            bad = [lambda: o.filter_rows(np.ones(n + 1, dtype=bool)), lambda: o.filter_rows(np.array([0, n + 2])), lambda: o.add_column("ra", np.zeros(n)),
                   lambda: o.add_column("extra9", np.zeros(n + 2)), lambda: o.add_column("dec", np.zeros(n + 2), overwrite=True), lambda: setattr(o, "radius", -1.0),
                   lambda: setattr(o, "radius", 0), lambda: o.range_search(np.array([1.0, 2.0]), np.array([1.0])), lambda: o.range_search(None, 3.0),
                   lambda: o.add_column("dec", np.array(["x"] * n), overwrite=True), lambda: o.add_column("ra", ["north"] * n, overwrite=True),
                   lambda: o.get_observations(1.0, 2.0, cols="nope"), lambda: o.range_search(np.array([1.0, 2.0]), np.array([1.0, 2.0]), t_min=np.array([1.0, 2.0, 3.0]))]
            j = q.int(0, len(bad) - 1)
            if j in (3, 4, 9, 10) and n == 0:
                return ":none"
            out = Outcome.of(bad[j])
            run.event("bad", j, out.exc)
            if out.exc is None:
                raise Violation("not-rejected", f"{what}: unusable call {j} was accepted", f"not-rejected:{j}")
            return f":{j}"
        f = op.get("fault")
        if f is None:
            call()
            W.cols, W.radius, W.shape = after
            return ""
        return self.cut(W, call, f, before, after, run, what + " and a cut-short " + k)

    def cut(self, W, call, f, before, after, run, what):
        """The edit fails at a call it makes; the table is then as before or as after it."""
        probe = copy.deepcopy(W.obj)
        real, W.obj = W.obj, probe
        # the instants are counted on a copy
        inst = inject.Instants("call")
        inst.run(lambda: _rebind(call, real, probe))
        W.obj = real
        at = inject.pick(Prng("instant", f["seed"]), inst, f["where"])
        if at is None:
            call()
            W.cols, W.radius, W.shape = after
            return ":whole"
        inst = inject.Instants("call", at, f["exc"])
        _, exc = inst.run(call)
        run.fault("edit-" + f["exc"])
        run.probe("cut")
        run.event("cut", at, inst.fired, type(exc).__name__)
        if exc is None:
            W.cols, W.radius, W.shape = after
            return ":completed"
        errs = []
        for form in (before, after):
            W.cols, W.radius, W.shape = {c: v for c, v in form[0].items()}, form[1], form[2]
            try:
                self.same_table(W, what)
                if W.obj.radius != W.radius:
                    raise Violation("radius-differs", f"{what}: radius {W.obj.radius}")
                self.full_scan(W, what)
                return ":before" if form is before else ":after"
            except Violation as e:
                errs.append(e)
        raise Violation("half-edited", f"{what} at {inst.fired}: neither as before ({errs[0].detail[:200]}) nor as after ({errs[1].detail[:200]})", "half-edited")

    def full_scan(self, W, what):
        """Every visit's own position, with its own time as window, must be found."""
        if W.n() == 0:
            return
        got = W.obj.range_search(W.cols["ra"].astype(float), W.cols["dec"].astype(float), radius=0.01)
        self.judge(W, what, W.cols["ra"], W.cols["dec"], 0.01, None, None, [list(map(int, g)) for g in got])

    def reload(self, W, q, run, tmp, what):
        o = W.obj
        path = os.path.join(tmp, f"t{q.int(0, 1)}")
        kw = {} if W.radius is None else {"radius": W.radius}
        db = q.chance(0.5)
        had_shape = W.shape
        if db and W.kind in ("base", "opsim", "roman") and W.n() > 0:
            run.probe("reload-db")
            o.write_db(path + ".db", overwrite=True)
            W.obj = W.cls.from_db(path + ".db", **kw)
        elif W.n() > 0:
            run.probe("reload-parquet")
            o.write_parquet(path + ".parquet", overwrite=True)
            W.obj = W.cls.from_parquet(path + ".parquet")
            if W.obj.radius != W.radius:
                raise Violation("radius-differs", f"{what}: the reloaded table has radius {W.obj.radius}, the saved one {W.radius}")
            if W.kind == "fake" and W.obj.survey_values.get("read_noise") != 4.0 or W.kind == "fakec" and set(W.obj.bandflux_error_point_source(np.ones(W.n()), np.arange(W.n()))) - {1.0, 2.0, 3.0}:
                raise Violation("settings-differ", f"{what}: the reloaded {W.kind} table has read noise {W.obj.survey_values.get('read_noise')}, flux errors {W.obj.const_flux_error}")
        else:
            return
        W.shape = None if had_shape else W.shape  # footprints are not stored in files
        W.alias = {}

    # ----------------------------------------------------------------------------------------------
    def query(self, W, op, run, scn, last, what, fault):
        q, o, n = Prng("query", op["seed"]), W.obj, W.n()
        form = q.choice(["scalar", "vector", "vector", "one", "many"])
        m = {"scalar": 1, "one": 1, "vector": q.int(2, 5), "many": q.int(0, 12)}[form]
        ra, dec = [], []
        for _ in range(m):
            if n and q.chance(0.75):
                j = q.int(0, n - 1)
                a, d = float(W.cols["ra"][j]), float(W.cols["dec"][j])
                s = q.choice([0.0, 0.2, 1.0])
                d = max(-90.0, min(90.0, d + q.uniform(-s, s)))
                a = a + q.uniform(-s, s) / max(np.cos(np.radians(d)), 0.01)
                a = a % 360.0 if q.chance(0.8) else a
            else:
                a, d = q.choice([0.0, 360.0, 359.999, q.uniform(0, 360)]), q.choice([90.0, -90.0, 0.0, q.uniform(-90, 90)])
            ra.append(a)
            dec.append(d)
        if W.asked is not None and q.chance(0.35):  # the same points again, with another window or radius or after an edit
            run.probe("asked-again")
            form, ra, dec = W.asked
            m = len(ra)
        W.asked = (form, ra, dec)
        radius = q.choice([None, None, None, 0.3, 2.0, 30.0, 90.0, 0.0, 180.0])
        if radius is None and W.radius is None:
            radius = 1.0
        tmin = tmax = None
        win = q.choice(["none", "none", "scalar", "array", "lo", "hi", "empty", "exact"])
        many = form not in ("scalar",)
        scal = form in ("scalar",) or q.chance(0.4)
        if win != "none":
            base = [float(W.cols["time"][q.int(0, n - 1)]) if n and q.chance(0.6) else q.uniform(0, 30) for _ in range(m)]
            if scal:
                base = [base[0] if base else 1.0] * m
            w0, w1 = q.choice([0.0, 3.0, 10.0]), q.choice([0.0, 4.0, 50.0])
            if win == "empty":
                w0, w1 = -1.0, -1.0
            if win == "exact":
                w0 = w1 = 0.0
            lo, hi = np.array(base) - w0, np.array(base) + w1
            if win != "hi":
                tmin = lo
            if win != "lo":
                tmax = hi
            run.probe("time-window")
        args = {}
        if radius is not None:
            args["radius"] = radius
        for name, v in (("t_min", tmin), ("t_max", tmax)):
            if v is not None:
                if scal:
                    args[name] = float(v[0]) if len(v) else 1.0
                    if many and m > 1:
                        run.probe("scalar-window-vector")
                else:
                    args[name] = v
        r = radius if radius is not None else W.radius
        if form == "scalar":
            qa, qd = (ra[0], dec[0]) if q.chance(0.7) else (np.float64(ra[0]), np.float64(dec[0]))
        else:
            qa, qd = np.array(ra, dtype=float), np.array(dec, dtype=float)
            if q.chance(0.2) and m:
                qa, qd = list(ra), list(dec)
            run.probe("vector-query", int(m > 1))
        if fault is not None:
            inst = inject.Instants("call")
            inst.run(lambda: o.range_search(qa, qd, **args))
            at = inject.pick(Prng("instant", fault["seed"]), inst, fault["where"])
            if at is not None:
                inject.Instants("call", at, fault["exc"]).run(lambda: o.range_search(qa, qd, **args))
                run.fault("query-" + fault["exc"])
        got = o.range_search(qa, qd, **args)
        res = [got] if form == "scalar" else list(got)
        if len(res) != m:
            raise Violation("query-shape", f"{what}: {len(res)} answers for {m} query points")
        res = [self.positions(g, n, what) for g in res]
        hit = self.judge(W, f"{what}: range_search({qa!r}, {qd!r}, {args})", ra, dec, r, tmin, tmax, res)
        run.probe("query")
        run.probe("matched" if hit else "empty")
        if any(a < 2 or a > 358 for a in ra):
            run.probe("wrap")
        if any(abs(d) > 88 for d in dec):
            run.probe("pole")
        if W.shape:
            run.probe("footprint")
            run.probe("rotated", int("rotation" in W.cols))
        run.state(W.kind, scn["table"]["sky"], scn["table"]["frame"], bool(W.shape), last, form, win, bool(hit))
        run.event(res)
        # ---- observed / not observed
        obs = o.is_observed(qa, qd, **args)
        run.probe("observed")
        if form == "scalar":
            obs = [obs]
        if form == "one":  # one coordinate as a number, the other as an array
            for a, d in ((float(ra[0]), qd), (qa, float(dec[0]))):
                mixed = o.is_observed(a, d, **args)
                if np.shape(mixed) != (1,) or bool(mixed[0]) != (len(res[0]) > 0):
                    raise Violation("observed-differs", f"{what}: is_observed({a!r}, {d!r}, {args}) is {mixed}, matching visits {res}")
        if [bool(x) for x in obs] != [len(g) > 0 for g in res]:
            raise Violation("observed-differs", f"{what}: is_observed({qa!r}, {qd!r}, {args}) is {obs}, matching visits {res}")
        # ---- extracted columns
        if form == "scalar":
            names = list(W.cols)
            cols = q.choice([None, "time", q.sample(names, min(3, len(names))), [a for a in W.alias][:2] or ["ra"]])
            run.probe("observations")
            out = o.get_observations(qa, qd, cols=cols, **args)
            want = list(o.columns) if cols is None else [cols] if isinstance(cols, str) else cols
            if sorted(out) != sorted(want):
                raise Violation("columns-differ", f"{what}: get_observations(cols={cols}) returned {sorted(out)}")
            for c in want:
                v = W.cols.get(W.alias.get(c, c))
                if v is None:
                    continue
                w = v[np.array(res[0], dtype=int)]
                if list(out[c]) != list(w):
                    raise Violation("observations-differ", f"{what}: get_observations({qa}, {qd}, {args})[{c}] is {list(out[c])[:5]}, the matching visits {res[0][:5]} have {list(w)[:5]}")
        return hit

    def positions(self, g, n, what):
        out = []
        for x in g:
            if int(x) != x or not 0 <= int(x) < n:
                raise Violation("not-a-position", f"{what}: {x!r} is no position in a table of {n} rows")
            out.append(int(x))
        if len(set(out)) != len(out):
            raise Violation("repeated-visit", f"{what}: visits {sorted(out)} returned more than once")
        return out

    def judge(self, W, what, ra, dec, r, tmin, tmax, res):
        hit = False
        n = W.n()
        t = W.cols["time"].astype(float)
        va, vd = W.cols["ra"].astype(float), W.cols["dec"].astype(float)
        for j in range(len(ra)):
            got = set(res[j])
            sep = separation(np.full(n, ra[j]), np.full(n, dec[j]), va, vd)
            rr = np.radians(r)
            sure, maybe = sep < rr - EDGE, sep <= rr + EDGE
            tm = np.ones(n, dtype=bool)
            if tmin is not None:
                tm &= t >= tmin[j]
            if tmax is not None:
                tm &= t <= tmax[j]
            sure, maybe = sure & tm, maybe & tm
            if W.shape is not None and n:
                rot = W.cols["rotation"].astype(float) if "rotation" in W.cols else np.zeros(n)
                mg = W.shape.margin(np.full(n, ra[j]), np.full(n, dec[j]), va, vd, rot)
                sure, maybe = sure & (mg > FP_EDGE), maybe & (mg > -FP_EDGE)
            miss, extra = sorted(set(np.nonzero(sure)[0].tolist()) - got), sorted(got - set(np.nonzero(maybe)[0].tolist()))
            if miss:
                raise Violation("visit-missing", f"{what} point {j}: visits {miss[:6]} match but are not returned (returned {sorted(got)[:8]}; first: separation {np.degrees(sep[miss[0]]):.6g} of {r}, time {t[miss[0]]})")
            if extra:
                raise Violation("visit-extra", f"{what} point {j}: visits {extra[:6]} do not match (first: separation {np.degrees(sep[extra[0]]):.6g} of {r}, time {t[extra[0]]})")
            hit = hit or bool(got)
        return hit

    def bounds(self, W, run, what):
        if W.n() == 0:
            return
        run.probe("bounds")
        lo, hi = W.obj.time_bounds()
        if (float(lo), float(hi)) != (float(W.cols["time"].min()), float(W.cols["time"].max())):
            raise Violation("bounds-differ", f"{what}: time_bounds() is {(lo, hi)}, times {W.cols['time'].tolist()[:8]}")

    def moc(self, W, op, run, what):
        import astropy.units as u
        from astropy.coordinates import SkyCoord

        q, n = Prng("moc", op["seed"]), W.n()
        radius = q.choice([None, 0.6, 2.0])
        if n == 0 or (radius is None and W.radius is None):
            return
        run.probe("moc")
        depth = q.choice([6, 8])
        if W.mapped is not None and q.chance(0.5):
            radius, depth = W.mapped
            if radius is None and W.radius is None:
                radius = 1.0
        W.mapped = (radius, depth)
        moc = W.obj.build_moc(radius=radius, max_depth=depth)
        r = radius if radius is not None else W.radius
        cell = 58.6 / 2**depth
        pts = []
        for _ in range(12):
            src = W.cols if q.chance(0.7) else W.first  # some of the first visits may be gone or have moved
            j = q.int(0, len(src["ra"]) - 1)
            s = q.choice([0.3, 0.9, 1.0]) * r if q.chance(0.7) else 4 * (r + cell)
            d = max(-90.0, min(90.0, float(src["dec"][j]) + q.uniform(-s, s)))
            pts.append(((float(src["ra"][j]) + q.uniform(-s, s) / max(np.cos(np.radians(d)), 0.01)) % 360.0, d))
        c = SkyCoord([a for a, _ in pts], [d for _, d in pts], unit="deg", frame="icrs")
        inside = moc.contains_lonlat(c.ra, c.dec)
        for (a, d), got in zip(pts, inside):
            sep = np.degrees(separation(np.full(n, a), np.full(n, d), W.cols["ra"].astype(float), W.cols["dec"].astype(float)).min())
            if sep < r - 1e-6 and not got:
                raise Violation("coverage-missing", f"{what}: ({a}, {d}) is {sep:.6g} degrees from a visit, radius {r}, but not in the survey's coverage (depth {depth})")
            if sep > r + 2 * cell and got:
                raise Violation("coverage-extra", f"{what}: ({a}, {d}) is {sep:.6g} degrees from the nearest visit, radius {r}, cell {cell:.3g}, but in the survey's coverage")

    def shrink(self, scn):
        for j in range(len(scn["ops"]) - 1):
            c = copy.deepcopy(scn)
            del c["ops"][j]
            yield c
        t = scn["table"]
        for k, v in (("n", 1), ("n", 2), ("n", 5), ("frame", "frame" if t["kind"] == "ztf" else "dict"), ("colmap", False), ("negative", False), ("shape", None), ("rot", False), ("sky", "field")):
            if t[k] != v and not (k == "n" and t["n"] <= v):
                yield {**scn, "table": {**t, k: v}}
        for j, op in enumerate(scn["ops"]):
            if op.get("fault"):
                c = copy.deepcopy(scn)
                del c["ops"][j]["fault"]
                yield c


def _rebind(call, real, probe):
    """Runs the edit on a copy of the table."""
    cells = call.__closure__
    for c in cells:
        if c.cell_contents is real:
            c.cell_contents = probe
            try:
                return call()
            finally:
                c.cell_contents = real
    raise RuntimeError("the edit does not refer to the table")


CHECK = P12()
