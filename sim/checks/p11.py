"""P11: a passband group always agrees with its member passbands.

One run is a history over a pool of passbands that several groups share: groups are built (from objects, files, a
directory, parameter dictionaries, subsets of other groups), extended, copied; members and groups are reprocessed; any
step may be rejected or cut short by an injected failure. After every step every live group and passband is compared
with a reference that keeps only the raw transmission tables and integrates by itself."""
import copy
import os
import pickle
import shutil
import tempfile

import numpy as np

from sim import inject, warmup, zoo
from sim.core import Prng, Violation
from sim.runner import CheckBase

NAMES = ["u", "g", "r", "i", "z", "gp"]  # one name is the beginning of another
MERGE = 1e-5  # the group may merge grid points that are closer than this


def raw_table(spec):
    """The caller's transmission table in Angstrom (strictly increasing, transmissions >= 0)."""
    p = Prng("table", spec["seed"])
    lo = spec["lo"]
    kind = spec["kind"]
    if kind == "regular":
        w = lo + spec["step"] * np.arange(spec["n"])
    elif kind == "jitter":  # close to a neighbour's regular grid, but not on it
        w = lo + spec["step"] * np.arange(spec["n"]) + np.array([p.choice([0.0, 0.0, 3e-6, -4e-6, 8e-6, 2e-5, 1e-3]) for _ in range(spec["n"])])
    elif kind == "widening":  # regular at first
        w = lo + spec["step"] * np.cumsum([0.0] + [1.0 if j < 2 * spec["n"] // 3 else 2.0 for j in range(spec["n"] - 1)])
    else:
        w = lo + np.cumsum([p.choice([0.5, 3.0, 10.0, 25.0, 60.0]) * p.uniform(0.5, 1.5) for _ in range(spec["n"])])
    x = np.linspace(-1.0, 1.0, len(w))
    if spec["shape"] == "tri":
        t = np.clip(1.0 - np.abs(x), 0, None)
    elif spec["shape"] == "hat":
        t = (np.abs(x) < 0.8).astype(float)
    elif spec["shape"] == "bump":
        t = np.exp(-8 * x**2)
    elif spec["shape"] == "zero":
        t = np.zeros(len(w))
    else:
        t = np.array([p.uniform(0.05, 1.0) for _ in w])
    return np.column_stack([w, t])


def trapz(y, x):
    return float(np.sum(0.5 * (y[1:] + y[:-1]) * np.diff(x)))


def near(grid, w):
    """Index of the grid point nearest to each w."""
    j = np.clip(np.searchsorted(grid, w), 1, max(len(grid) - 1, 1))
    if len(grid) == 1:
        return np.zeros(len(w), dtype=int)
    return np.where(np.abs(grid[j - 1] - w) <= np.abs(grid[j] - w), j - 1, j)


class Ref:
    """What the reference knows of one passband object."""

    def __init__(self, raw, forms):
        self.raw, self.forms = raw, forms  # forms: the (delta_wave, trim_quantile) settings it may be in

    def fork(self):
        return Ref(self.raw, list(self.forms))


class P11(CheckBase):
    ID = "P11"
    RULE = "a run is non-trivial when at least one group evaluation was compared with its members after a step that followed the group's construction"
    MEASURE = "distinct (step, way of building, rejected / cut / completed, number of live groups, shared members, grid kind) combinations checked"
    REAL = ["PassbandGroup and Passband: loading, subsetting, reprocessing, merging, integration; scipy, astropy votable, numpy text reader"]
    STUB = ["files live in a scratch directory; no download happens (C: see P07)"]
    ASSUMPTIONS = ["calls that change a group or a passband are cut at the calls they make, constructions at any line", "grid points closer than 1e-5 Angstrom may be merged; spectra are compared to 1e-6 of their scale",
                   "a cut-short reprocessing leaves each passband in its old or its new form"]
    PROBES = ["group-eval", "member-reprocessed", "shared-member", "ambiguous-name", "files", "directory", "preset", "votable", "subset", "copied", "rejected",
              "cut", "merged-points", "duplicates", "model-eval", "same-filter-twice"]
    RUNS = {"quick": 3600, "thorough": 80000}

    def warm(self):
        warmup.full()

    # ------------------------------------------------------------------------------------------------
    def gen_table(self, p):
        kind = p.wchoice([("regular", 4), ("jitter", 2), ("irregular", 2), ("widening", 1)])
        step = p.choice([5.0, 10.0, 10.0, 20.0, 50.0, 7.0])
        return {"seed": p.seed32(), "kind": kind, "step": step, "n": p.int(4, 40), "lo": p.choice([3000.0, 3000.0, 3100.0, 4000.0, 4003.0, 5000.0, 9000.0]),
                "shape": p.wchoice([("tri", 2), ("hat", 1), ("bump", 2), ("noisy", 3), ("zero", 0.1)]), "units": p.choice(["A", "A", "nm"]),
                "dups": p.choice([0, 0, 0, 1, 2]), "survey": p.choice(["A", "A", "B"]), "filter": p.choice(NAMES)}

    def gen_form(self, p, bad=0.15):
        if p.chance(bad):
            return p.choice([[20.0, 0.7], [20.0, -0.1], [1e7, 0.001], [-1.0, None], [10.0, 0.5]])
        return [p.choice([None, 5.0, 10.0, 10.0, 20.0, 7.0, 33.0]), p.choice([None, None, 0.0, 0.001, 0.01, 0.1])]

    def generate(self, p, i, tier):
        q = p.sub("pool")
        tables = [self.gen_table(q.sub(j)) for j in range(q.int(2, 5))]
        for t in tables:
            t["form"] = self.gen_form(q, 0.0)
            t["via"] = q.wchoice([("object", 4), ("dat", 1), ("csv", 1), ("xml", 1), ("sncosmo", 0.5)])
        ops = []
        for j in range(p.int(2, 9 if tier == "quick" else 14)):
            o = p.sub("op", j)
            k = "new" if j == 0 else o.wchoice([("new", 1.5), ("sub", 1), ("add", 2), ("gproc", 2), ("pproc", 3), ("copy", 0.7), ("model", 0.7), ("extra", 0.7)])
            op = {"k": k, "seed": o.seed32(), "g": o.int(0, 9), "pb": o.int(0, 9)}
            if k == "new":
                op["members"] = o.sample(range(len(tables)), o.int(1, len(tables)))
                op["via"] = o.wchoice([("objects", 6), ("dicts", 1), ("dir", 1), ("one", 0.5), ("lsst", 0.4), ("roman", 0.4), ("svo", 0.4)])
                op["form"] = self.gen_form(o, 0.0)
                op["filters"] = o.chance(0.25)
            if k in ("gproc", "pproc"):
                op["form"] = self.gen_form(o)
            if k == "copy":
                op["how"] = o.choice(["pickle", "deepcopy", "copy"])
            if k != "model" and o.chance(0.3):
                op["fault"] = {"kind": o.choice(["line", "call"]) if k in ("new", "sub", "copy", "extra") else "call", "exc": o.choice(["kbd", "mem"]),
                               "where": o.choice(["uniform", "store", "late", "early"]), "seed": o.seed32()}
            ops.append(op)
        return {"tables": tables, "ops": ops}

    # ------------------------------------------------------------------------------------------------
    def execute(self, scn, run):
        import logging

        logging.getLogger("lightcurvelynx").setLevel(logging.ERROR)
        logging.getLogger("lightcurvelynx.astro_utils.passbands").setLevel(logging.ERROR)
        tmp = tempfile.mkdtemp(prefix="p11-", dir=os.environ.get("VERIF_SCRATCH"))
        try:
            self.history(scn, run, tmp)
        finally:
            shutil.rmtree(tmp, ignore_errors=True)

    def given(self, spec):
        """(table handed to the code, expected table in Angstrom)."""
        raw = raw_table(spec)
        p = Prng("dups", spec["seed"])
        table = raw.copy()
        for _ in range(spec["dups"]):
            j = p.int(1, len(raw) - 2)
            if np.count_nonzero(table[:, 0] == raw[j, 0]) > 1:
                continue
            d = p.uniform(0.0, raw[j, 1])
            at = int(np.searchsorted(table[:, 0], raw[j, 0]))
            row = table[at].copy()
            table[at, 1] = row[1] - d
            table = np.insert(table, at + 1, [row[0], row[1] + d], axis=0)
        if spec["units"] == "nm":
            table = np.column_stack([table[:, 0] / 10.0, table[:, 1]])
            raw = np.column_stack([raw[:, 0] / 10.0 * 10.0, raw[:, 1]])
            if np.any(np.diff(raw[:, 0]) <= 0):
                raw = None
        return table, raw

    def write(self, path, table, units, comma=False):
        if path.endswith(".xml"):
            from astropy.io.votable import from_table, writeto
            from astropy.table import Table
            import astropy.units as u

            t = Table({"Wavelength": table[:, 0] * (u.nm if units == "nm" else u.AA), "Transmission": table[:, 1]})
            writeto(from_table(t), path)
            return
        sep = "," if comma else " "
        with open(path, "w") as f:
            for w, t in table:
                f.write(f"{float(w)!r}{sep}{float(t)!r}\n")

    def load(self, spec, j, tmp, run):
        """A passband object built from the spec, with its reference."""
        from lightcurvelynx.astro_utils.passbands import Passband

        table, raw = self.given(spec)
        dw, tq = spec["form"]
        survey, filt, via = spec["survey"], spec["filter"], spec["via"]
        if len(table) != len(raw):
            run.probe("duplicates")
        if via == "sncosmo" and spec["shape"] != "zero":
            import sncosmo

            band = sncosmo.Bandpass(raw[:, 0], raw[:, 1], name="x")
            grid = np.column_stack([np.asarray(band.wave), np.asarray(band.trans)])
            pb = Passband.from_sncosmo(survey, filt, band)
            return pb, Ref(grid, [[5.0, None]])
        if via in ("dat", "csv", "xml"):
            run.probe("files")
            run.probe("votable", int(via == "xml"))
            path = os.path.join(tmp, f"t{j}.{via}")
            self.write(path, table, spec["units"], via == "csv")
            kw = {} if via == "xml" else {"units": spec["units"]}
            pb = Passband.from_file(survey, filt, dw, tq, table_path=path, **kw)
        else:
            keep = table.copy()
            pb = Passband(table, survey, filt, delta_wave=dw, trim_quantile=tq, units=spec["units"])
            if not np.array_equal(keep, table):
                raise Violation("input-changed", "building a passband changed the caller's transmission table")
        return pb, Ref(raw, [[dw, tq]])

    def history(self, scn, run, tmp):
        from lightcurvelynx.astro_utils.passbands import PassbandGroup

        self.refs = {}   # id(passband) -> Ref
        self.keep = []   # keeps those ids alive
        pool, groups = [], []
        for j, spec in enumerate(scn["tables"]):
            try:
                pb, ref = self.load(spec, j, tmp, run)
            except ValueError:
                if self.buildable(spec):
                    raise
                run.probe("rejected")
                continue
            self.know(pb, ref)
            pool.append(pb)
            self.check_passband(pb, run, f"passband {j} after loading")
        if not pool:
            return
        for step, op in enumerate(scn["ops"]):
            run.ops += 1
            before = {n: (list(g), sorted(g.passbands)) for n, g in enumerate(groups)}
            what, outcome = self.step(scn, op, step, pool, groups, tmp, run)
            shared = any(sum(any(m is pb for m in g) for g in groups) > 1 for pb in pool)
            run.probe("shared-member", int(shared))
            run.event(op["k"], outcome, [[n, len(g.waves)] for n, g in enumerate(groups)])
            run.state(op["k"], op.get("via"), outcome, min(len(groups), 4), shared, scn["tables"][0]["kind"])
            for pb in pool:
                self.check_passband(pb, run, what)
            for n, g in enumerate(groups):
                self.check_group(g, Prng("spectrum", op["seed"], n), run, f"{what}, group {n}")
                if step and n in before:
                    run.nontrivial = True
        _ = PassbandGroup

    def buildable(self, spec):
        """Whether the requested form of a table has at least two rows and some area (by the reference)."""
        if spec["shape"] == "zero":
            return False
        raw = raw_table(spec)
        dw, tq = spec["form"]
        n = len(raw) if dw is None else int((raw[-1, 0] - raw[0, 0]) / dw) + 1
        return n >= 4 and not tq

    def know(self, pb, ref):
        if id(pb) not in self.refs:
            self.refs[id(pb)] = ref
            self.keep.append(pb)

    # ------------------------------------------------------------------------------------------------
    def step(self, scn, op, step, pool, groups, tmp, run):
        """Execute one step (possibly cut short); returns its description and outcome."""
        k = op["k"]
        what = f"step {step} {k}"
        g = groups[op["g"] % len(groups)] if groups else None
        pb = pool[op["pb"] % len(pool)]
        made = []
        if k != "new" and g is None:
            return what, "skipped"
        if k == "new":
            action = self.new(scn, op, step, pool, tmp, run, made)
        elif k == "sub":
            names = sorted(x.full_name for x in g)
            pick = Prng("sub", op["seed"]).sample(names, max(1, len(names) - 1))

            def action():
                from lightcurvelynx.astro_utils.passbands import PassbandGroup

                made.append((PassbandGroup(list(g), filters=pick), pick))
            run.probe("subset")
        elif k == "add":
            def action():
                g.add_passband(pb)
        elif k == "gproc":
            def action():
                g.process_transmission_tables(*op["form"])
        elif k == "pproc":
            def action():
                pb.process_transmission_table(*op["form"])
            run.probe("member-reprocessed")
        elif k == "copy":
            def action():
                f = {"pickle": lambda x: pickle.loads(pickle.dumps(x)), "deepcopy": copy.deepcopy, "copy": copy.copy}[op["how"]]
                made.append((f(g), None))
            run.probe("copied")
        elif k == "extra":  # a mutation of a plain list made from the group must not reach it
            def action():
                lst = list(g)
                lst.clear()
                g.filters.clear()
        else:
            self.model(scn, op, g, run, what)
            return what, "done"
        old = {id(m): self.refs[id(m)].fork() for m in list(pool) + [m for x in groups for m in x] if id(m) in self.refs}
        target = list(g) if k == "gproc" else [pb] if k == "pproc" else []
        names_before = sorted(g.passbands) if g is not None else []
        members_before = {n: m for n, m in g.passbands.items()} if g is not None else {}
        exc, fired = None, None
        f = op.get("fault")
        if f:
            # count the instants on a copy of everything, then cut the real step
            at = f.get("at")
            if at is None:
                at = Prng("at", f["seed"]).choice(self.span(f, op))
            inst = inject.Instants(f["kind"], at, f["exc"])
            _, exc = inst.run(action)
            fired = inst.fired
            if fired is not None:
                run.fault(f"{f['kind']}-{f['exc']}")
                run.probe("cut")
        else:
            try:
                action()
            except Exception as e:
                exc = e
        if exc is not None and fired is None:
            if k in ("gproc", "pproc", "new") and isinstance(exc, ValueError):
                run.probe("rejected")
            else:
                raise Violation("unexpected-exception", f"{what}: {type(exc).__name__}: {exc}", f"unexpected-exception:{type(exc).__name__}")
        # what the passbands may be now
        done = exc is None
        for m in target:
            ref = self.refs.get(id(m))
            if ref is None:
                continue
            base = old[id(m)].forms
            ref.forms = [list(op["form"])] if done else base + [list(op["form"])] if fired is not None else base
        if k == "add" and g is not None:
            now = g.passbands
            want = {**members_before, pb.full_name: pb}
            if done and sorted(now) != sorted(want):
                raise Violation("membership", f"{what}: adding {pb.full_name} to {names_before} gives {sorted(now)}")
            if not done and sorted(now) not in (names_before, sorted(want)):
                raise Violation("membership", f"{what}: interrupted adding of {pb.full_name} to {names_before} gives {sorted(now)}")
        for new, names in made:
            if done:
                if names is not None and sorted(new.passbands) != sorted(names):
                    raise Violation("membership", f"{what}: asked for {sorted(names)}, got {sorted(new.passbands)}")
                groups.append(new)
                src = {m.full_name: m for m in (g if g is not None else [])}
                for m in new:
                    if id(m) not in self.refs and m.full_name in src:  # copies
                        self.know(m, self.refs[id(src[m.full_name])].fork())
        del groups[:-5]
        return f"{what} ({'completed' if done else 'cut at %s' % (fired,) if fired else 'rejected'})", "done" if done else "cut" if fired else "rejected"

    def span(self, f, op):
        """Instants at which a step can be cut (bounded by what such steps take)."""
        top = {"line": {"new": 160, "sub": 60, "add": 50, "gproc": 150, "pproc": 40, "copy": 10, "extra": 6},
               "call": {"new": 120, "sub": 40, "add": 40, "gproc": 120, "pproc": 30, "copy": 6, "extra": 4}}[f["kind"]][op["k"]]
        p = Prng("span", f["seed"])
        return [p.int(1, top), p.int(1, max(2, top // 3)), p.int(1, 12)]

    def new(self, scn, op, step, pool, tmp, run, made):
        from lightcurvelynx.astro_utils.passbands import PassbandGroup

        q = Prng("new", op["seed"])
        via = op["via"]
        ids = [j % len(pool) for j in op["members"]]
        ids = list(dict.fromkeys(ids))
        if via in ("objects", "one"):
            objs = [pool[j] for j in ids]
            by = {}
            for o in objs:
                by[o.full_name] = o
            names = list(by)
            kw = {}
            if op["filters"]:
                pick = q.sample(names, q.int(1, len(names)))
                if q.chance(0.5):
                    filt = [by[n].filter_name for n in pick]
                    names = [n for n in names if by[n].filter_name in filt]
                    kw["filters"] = filt
                else:
                    names = pick
                    kw["filters"] = pick
                run.probe("subset")
            if via == "one":
                objs, kw, names = objs[0], {}, [objs[0].full_name]
            run.probe("same-filter-twice", int(len({n.split("_")[1] for n in names}) < len(names)))
            return lambda: made.append((PassbandGroup(objs, **kw), names))
        if via in ("lsst", "roman", "svo"):
            return self.preset(scn, op, step, tmp, run, made)
        specs = [s for s in scn["tables"] if s["shape"] != "zero"] or [dict(scn["tables"][0], shape="tri")]
        specs = [dict(s, form=op["form"]) for s in specs]
        specs = [s for s in specs if self.buildable(s)]
        if not specs:
            specs = [dict(scn["tables"][0], shape="tri", kind="regular", n=20, step=10.0, form=[10.0, None], dups=0)]
        form = specs[0]["form"]
        specs = list({s["filter"]: s for s in specs}.values())
        d = os.path.join(tmp, f"dir{step}")
        os.makedirs(d)
        refs = {}
        units = specs[0]["units"]
        for s in specs:
            s["units"] = units
            table, raw = self.given(s)
            ext = q.choice(["dat", "txt", "csv"])
            s["path"] = os.path.join(d, f"{s['filter']}.{ext}")
            self.write(s["path"], table, units, ext == "csv")
            name = f"{os.path.basename(d)}_{s['filter']}" if via == "dir" else f"{s['survey']}_{s['filter']}"
            refs[name] = Ref(raw, [list(form)])
        run.probe("directory" if via == "dir" else "files")
        want = list(refs)

        def action():
            if via == "dir":
                filters = sorted(s["filter"] for s in specs)
                filters = filters[:max(1, len(filters) - 1)] if op["filters"] else None
                g = PassbandGroup.from_dir(d, filters=filters, delta_wave=form[0], trim_quantile=form[1], units=units)
                names = [n for n in want if filters is None or n.split("_")[1] in filters]
            else:
                dicts = [{"survey": s["survey"], "filter_name": s["filter"], "table_path": s["path"]} for s in specs]
                g = PassbandGroup(dicts, delta_wave=form[0], trim_quantile=form[1], units=units)
                names = want
            for m in g:
                if m.full_name in refs:
                    self.know(m, refs[m.full_name])
            made.append((g, names))
        return action

    def preset(self, scn, op, step, tmp, run, made):
        """The predefined sets, loaded from tables that are already in the data directory."""
        from pathlib import Path

        from lightcurvelynx.astro_utils.passbands import PassbandGroup

        via, form, seed = op["via"], op["form"], op["seed"]
        q = Prng("preset", seed)
        base = os.path.join(tmp, f"data{step}")
        refs = {}
        names = {"lsst": list("ugrizy"), "roman": ["F062", "F087", "F106", "F129", "F146", "F158", "F184", "F213"], "svo": q.sample("griz", 2)}[via]
        grid = None
        cols = {}
        for j, f in enumerate(names):
            spec = {"seed": seed + j, "lo": 3000.0 + 500 * j, "kind": "regular", "step": 10.0, "n": 20, "shape": "noisy", "dups": 0, "units": "A"}
            raw = raw_table(spec)
            if via == "lsst":
                raw[:, 0] = np.round(raw[:, 0] / 10.0, 3) * 10.0
                os.makedirs(os.path.join(base, "LSST"), exist_ok=True)
                self.write(os.path.join(base, "LSST", f"{f}.dat"), np.column_stack([np.round(raw[:, 0] / 10.0, 3), raw[:, 1]]), "nm")
                refs[f"LSST_{f}"] = Ref(np.column_stack([np.round(raw[:, 0] / 10.0, 3) * 10.0, raw[:, 1]]), [list(form)])
            elif via == "svo":
                os.makedirs(os.path.join(base, "CTIO", "DECam"), exist_ok=True)
                nm = q.chance(0.5)
                t = np.column_stack([raw[:, 0] / 10.0, raw[:, 1]]) if nm else raw
                self.write(os.path.join(base, "CTIO", "DECam", f"{f}.xml"), t, "nm" if nm else "A")
                refs[f"CTIO/DECam_{f}"] = Ref(np.column_stack([t[:, 0] * 10.0, t[:, 1]]) if nm else raw, [list(form)])
            else:
                grid = raw[:, 0] / 10000.0 if grid is None else grid
                cols[f] = raw[:, 1]
                refs[f"Roman_{f}"] = Ref(np.column_stack([grid * 10000, raw[:, 1]]), [list(form)])
        if via == "roman":
            os.makedirs(os.path.join(base, "Roman"), exist_ok=True)
            with open(os.path.join(base, "Roman", "roman_wfi_filters.ecsv"), "w") as out:
                out.write("# %ECSV 1.0\n# ---\nWave," + ",".join(names) + "\n")
                for r in range(len(grid)):
                    out.write(",".join([repr(float(grid[r]))] + [repr(float(cols[f][r])) for f in names]) + "\n")
        pick = q.sample(names, q.int(1, len(names))) if op["filters"] and via != "svo" else None
        want = [n for n in refs if pick is None or n.split("_")[-1] in pick]
        run.probe("preset")

        def action():
            kw = {"delta_wave": form[0], "trim_quantile": form[1], "table_dir": Path(base) if q.chance(0.5) else base}
            if via == "svo":
                g = PassbandGroup.from_svo([f"CTIO/DECam.{f}" for f in names], **kw)
            else:
                g = PassbandGroup.from_preset(via.upper() if q.chance(0.3) else via, filters=pick, **kw)
            for m in g:
                if m.full_name in refs:
                    self.know(m, refs[m.full_name])
            made.append((g, want))
        return action

    # ------------------------------------------------------------------------------------------------
    def oracle(self, pb, f):
        """Band flux of the spectrum f on the passband's own grid, from the raw table."""
        ref = self.refs[id(pb)]
        w = np.asarray(pb.waves)
        t = np.interp(w, ref.raw[:, 0], ref.raw[:, 1])
        return trapz(f * t / w, w) / trapz(t / w, w)

    def check_passband(self, pb, run, what):
        from lightcurvelynx.astro_utils.passbands import Passband

        ref = self.refs.get(id(pb))
        w = np.asarray(pb.waves)
        name = pb.full_name
        if len(w) < 2 or not np.all(np.diff(w) > 0):
            raise Violation("member-grid", f"{what}: {name} grid is not increasing: {w[:4]}")
        flat = float(pb.fluxes_to_bandflux(np.full((1, len(w)), 7.25))[0])
        if not abs(flat - 7.25) <= 3e-5 * 7.25:
            raise Violation("not-normalised", f"{what}: {name} (delta_wave {pb.delta_wave}) maps a flat spectrum 7.25 to {flat!r}")
        a, b = np.cos(w / 170.0), (w / 5000.0) ** 2
        fa, fb, fab = (float(x) for x in pb.fluxes_to_bandflux(np.array([a, b, 2.0 * a - 3.0 * b])))
        if not abs(fab - (2 * fa - 3 * fb)) <= 1e-9 * (abs(fa) + abs(fb)):
            raise Violation("not-linear", f"{what}: {name}: {fab!r} vs {2 * fa - 3 * fb!r}")
        cube = pb.fluxes_to_bandflux(np.array([[a, b], [b, a]]))
        if not np.allclose(cube, [[fa, fb], [fb, fa]], rtol=1e-12, atol=1e-12):
            raise Violation("not-linear", f"{what}: {name}: samples x times matrix gives {cube.tolist()}, expected {[[fa, fb], [fb, fa]]}", "cube")
        if ref is None or ref.raw is None:
            return
        lo, hi = ref.raw[0, 0], ref.raw[-1, 0]
        if w[0] < lo - 1e-9 * lo or w[-1] > hi + 1e-9 * hi:
            raise Violation("member-grid", f"{what}: {name} grid {w[0]}..{w[-1]} leaves the table's range {lo}..{hi}")
        want = self.oracle(pb, b + a)
        got = fa + fb
        if not abs(want - got) <= 3e-5 * (abs(want) + abs(fa) + abs(fb)):
            raise Violation("member-flux", f"{what}: {name} gives {got!r}, integrating its transmission table gives {want!r}")
        # history independence: as if freshly built in one of the allowed forms
        why = []
        for dw, tq in ref.forms:
            try:
                fresh = Passband(ref.raw.copy(), pb.survey, pb.filter_name, delta_wave=dw, trim_quantile=tq)
            except ValueError as e:
                why.append(str(e))
                continue
            if len(fresh.waves) == len(w) and np.allclose(fresh.waves, w, rtol=1e-13, atol=0) and np.allclose(
                    fresh.processed_transmission_table, pb.processed_transmission_table, rtol=1e-9, atol=1e-14):
                if (fresh.delta_wave is None) != (pb.delta_wave is None):
                    why.append(f"delta_wave {pb.delta_wave}")
                    continue
                self.check_grid(pb, ref, dw, tq, what)
                return
            why.append(f"{len(fresh.waves)} rows from {fresh.waves[0]} expected")
        raise Violation("member-form", f"{what}: {name} has {len(w)} rows {w[0]}..{w[-1]}, which is none of the forms {ref.forms}: {why}")

    def check_grid(self, pb, ref, dw, tq, what):
        w, raw = np.asarray(pb.waves), ref.raw
        if not tq and (abs(w[0] - raw[0, 0]) > 1e-6 or abs(w[-1] - raw[-1, 0]) > 1e-6):
            raise Violation("member-grid", f"{what}: untrimmed {pb.full_name} covers {w[0]}..{w[-1]} of {raw[0, 0]}..{raw[-1, 0]}")
        if dw is None and not np.all(np.abs(raw[near(raw[:, 0], w), 0] - w) <= 1e-9 * w):
            raise Violation("member-grid", f"{what}: {pb.full_name} without delta_wave has points that are not in its table")
        if dw is not None:
            s = np.diff(w)
            if not (np.all(np.abs(s - s[0]) <= 1e-3 * s[0]) and 0.45 * dw <= s[0] <= 2.2 * dw):
                raise Violation("member-grid", f"{what}: {pb.full_name} with delta_wave {dw} has steps {s.min()}..{s.max()}")

    def check_group(self, g, p, run, what):
        waves = np.asarray(g.waves)
        members = list(g)
        if not np.all(np.diff(waves) > 0):
            raise Violation("group-grid", f"{what}: the group's wavelength grid is not increasing")
        lo, hi = g.wave_bounds()
        first, last = min(m.waves[0] for m in members), max(m.waves[-1] for m in members)
        tol = MERGE * (len(members) + 1)
        if abs(lo - first) > tol or abs(hi - last) > tol:
            raise Violation("group-grid", f"{what}: wave_bounds {lo}..{hi}, members span {first}..{last}")
        for m in members:
            w = np.asarray(m.waves)
            d = np.abs(waves[near(waves, w)] - w)
            if d.max() > tol:
                raise Violation("group-grid", f"{what}: point {w[d.argmax()]} of {m.full_name} is {d.max()} away from the group's grid")
            run.probe("merged-points", int(d.max() > 0))
        smooth = np.array([1.0 + 0.5 * np.sin(waves / p.uniform(150, 400) + p.uniform(0, 6)) + (waves / 9000.0) ** 2 for _ in range(2)])
        rough = np.array([p.uniform(-1, 1) for _ in range(len(waves))])
        flux = np.vstack([smooth, rough[None, :], np.full((1, len(waves)), 2.5)])
        out = g.fluxes_to_bandfluxes(flux)
        if sorted(out) != sorted(g.passbands):
            raise Violation("group-filters", f"{what}: band fluxes for {sorted(out)}, members {sorted(g.passbands)}")
        counts = {}
        for m in members:
            counts[m.filter_name] = counts.get(m.filter_name, 0) + 1
        if sorted(g.filters) != sorted(counts):
            raise Violation("group-filters", f"{what}: filters {g.filters}, members {sorted(g.passbands)}")
        for f, n in counts.items():
            if n > 1 and f not in g.passbands:
                run.probe("ambiguous-name")
                try:
                    got = g.fluxes_to_bandflux(flux, f)
                except (KeyError, ValueError):
                    continue
                raise Violation("ambiguous-filter", f"{what}: {n} members have filter {f}; looking it up picks one of them and gives {got.tolist()}")
        for m in members:
            name = m.full_name
            w = np.asarray(m.waves)
            j = near(waves, w)
            exact = bool(np.all(np.abs(waves[j] - w) <= 1e-9))
            own = flux[:, j]
            want = np.asarray(m.fluxes_to_bandflux(own), dtype=float)
            results = [(name, out[name]), (name, g.fluxes_to_bandflux(flux, name))]
            if counts[m.filter_name] == 1 and m.filter_name not in g.passbands:
                results.append((m.filter_name, g.fluxes_to_bandflux(flux, m.filter_name)))
            for label, got in results:
                got = np.asarray(got, dtype=float)
                scale = np.max(np.abs(flux), axis=1)
                rows = [0, 1, 3] + ([2] if exact else [])
                if got.shape != want.shape or not np.all(np.abs(got - want)[rows] <= 1e-7 * scale[rows]):
                    raise Violation("group-disagrees", f"{what}: {label} in the group gives {got.tolist()}, the passband alone {want.tolist()}")
            if g[name] is not m or (counts[m.filter_name] == 1 and g[m.filter_name] is not m):
                raise Violation("group-filters", f"{what}: looking up {name} gives another passband")
            self.check_passband(m, run, what)
            run.probe("group-eval")

    def model(self, scn, op, g, run, what):
        """Band fluxes of a model through the group and through each member alone."""
        W = zoo.World({"seed": op["seed"], "passbands": {"kind": "tri", "seed": 1}, "surveys": [],
                       "model": zoo.gen_kind(Prng("m", op["seed"]), Prng("k", op["seed"]).choice(["const", "linwave", "spline", "sncosmo"]), noise=False)})
        q = Prng("times", op["seed"])
        st = W.model.sample_parameters(num_samples=1, rng_info=np.random.default_rng(op["seed"]))
        members = [m for m in g if list(g.passbands)[0] is not None]
        filt = [q.choice(members).full_name for _ in range(6)]
        t = np.array(sorted(q.uniform(0, 60) for _ in range(6)))
        got = np.asarray(W.model.evaluate_bandfluxes(g, t, np.array(filt), st), dtype=float)
        for i, f in enumerate(filt):
            m = g[f]
            sed = np.asarray(W.model.evaluate_sed(t[i:i + 1], np.asarray(m.waves), st), dtype=float)
            want = float(m.fluxes_to_bandflux(sed.reshape(1, -1))[0])
            alone = float(np.asarray(W.model.evaluate_bandfluxes(m, t[i:i + 1], None, st)).ravel()[0])
            scale = 1e-6 * max(np.max(np.abs(sed)), 1e-300)
            if not (abs(got[i] - want) <= scale and abs(alone - want) <= scale):
                raise Violation("model-flux", f"{what}: filter {f}: {got[i]!r} through the group, {alone!r} through the passband, {want!r} from its own spectrum")
        run.probe("model-eval")

    # ------------------------------------------------------------------------------------------------
    def shrink(self, scn):
        for j in range(len(scn["ops"])):
            if len(scn["ops"]) > 1:
                c = copy.deepcopy(scn)
                del c["ops"][j]
                yield c
        for j, op in enumerate(scn["ops"]):
            if op.get("fault"):
                c = copy.deepcopy(scn)
                del c["ops"][j]["fault"]
                yield c
            if len(op.get("members", [])) > 1:
                for x in op["members"]:
                    c = copy.deepcopy(scn)
                    c["ops"][j]["members"].remove(x)
                    yield c
            if op.get("filters"):
                c = copy.deepcopy(scn)
                c["ops"][j]["filters"] = False
                yield c
        for j, t in enumerate(scn["tables"]):
            if len(scn["tables"]) > 1:
                c = copy.deepcopy(scn)
                del c["tables"][j]
                yield c
            for key, small in (("dups", 0), ("units", "A"), ("kind", "regular"), ("shape", "tri"), ("via", "object"), ("n", 6), ("step", 10.0)):
                if t[key] != small:
                    c = copy.deepcopy(scn)
                    c["tables"][j][key] = small
                    yield c


CHECK = P11()
