"""P06: numeric data files are never half-written or half-read.

Two kinds of runs: histories of array writes and reads on a simulated disk (sim/files.py), and reads of table, grid and
light-curve library files that were cut off, or whose read fails or comes in short pieces."""
import gzip
import os
import warnings

import numpy as np

from sim import disk, warmup
from sim.core import Prng, Violation
from sim.files import FileCheck

SUFFIXES = [".npy", ".npz", ".csv", ".ecsv", ".txt", ".dat"]
TEXT = {".csv", ".ecsv", ".txt", ".dat"}


class P06(FileCheck):
    ID = "P06"
    MEASURE = "distinct (format, outcome of the save, kind of crash, operation it hits, torn or not, what is loaded afterwards) and (reader, kind of damage, outcome) combinations"
    REAL = ["write_numpy_data, read_numpy_data, read_grid_data, read_lclib_data, Passband.from_file; numpy, astropy, gzip, the C library's streams"]
    ASSUMPTIONS = ["text formats keep float64 values in one or two dimensions; a single row or column reads back as one dimension", "a text file cut inside its last number cannot be told from a complete one when the rest is a whole row",
                   "a power cut keeps a prefix of the name changes and any part of what was not synced"]
    RUNS = {"quick": 5000, "thorough": 60000}
    CAN_REFUSE = False
    PROBES = [p for p in FileCheck.PROBES if p != "refused"] + ["cut-file", "cut-raised", "cut-prefix", "cut-whole", "read-error", "short-reads", "gzip", "through-link"]

    def warm(self):
        warmup.full()

    def kind(self, scn, s):
        return os.path.splitext(scn["slots"][s])[1]

    def generate(self, p, i, tier):
        if p.chance(0.35):
            q = p.sub("reader")
            return {"reader": q.choice(["passband", "grid", "lclib", "lclib", "array"]), "seed": q.seed32(), "damage": q.wchoice([("cut", 4), ("error", 2), ("short", 1), ("none", 0.5)]), "at": q.int(0, 1000),
                    "gz": q.chance(0.4), "rows": q.int(1, 6), "suffix": q.choice(SUFFIXES), "edge": q.choice(["", "", "line", "line", "field"]), "steps": [], "slots": []}
        return super().generate(p, i, tier)

    def gen_case(self, p, tier):
        names = ["a", "data 1", "spéc", "table.v2"]
        return {"slots": [p.choice(names) + str(j) + p.choice(SUFFIXES) for j in range(p.int(1, 2))], "sub": p.choice(["", "", "nested dir"]), "path": p.chance(0.5), "link": p.chance(0.15)}

    def layout(self, root, scn):
        if scn["sub"]:
            os.makedirs(os.path.join(root, scn["sub"]))
        if scn["link"]:  # the file is reached through a link to another directory
            os.makedirs(os.path.join(root, "real"))
            os.symlink(os.path.join(os.pardir if scn["sub"] else "", "real", "x" + scn["slots"][0]), self.path(root, scn, 0))
            self.run_.probe("through-link")

    def path(self, root, scn, s):
        return os.path.join(root, scn["sub"], scn["slots"][s])

    def gen_value(self, p, scn, slot):
        return {"seed": p.seed32(), "shape": p.choice([[3], [1], [0], [40], [2, 3], [1, 4], [5, 1], [6, 2], [600, 3], [30000]] if p.chance(0.9) else [[]]), "dtype": p.choice(["f8", "f8", "f4", "i8", "bool", "c16", "U3"]),
                "special": p.chance(0.3)}

    def make(self, scn, s, v):
        q = np.random.RandomState(v["seed"])
        return np.asarray(self._value(v, s, scn, q))

    def _value(self, v, s, scn, q):
        suffix, dt, shape = self.kind(scn, s), v["dtype"], tuple(v["shape"])
        if suffix in TEXT:
            if dt in ("c16", "bool", "U3"):
                dt = "f8"
            if len(shape) == 0:
                shape = (2,)
            if shape and shape[0] > 1000:
                shape = (1500,)
        if dt == "i8":
            return q.randint(-(2**50), 2**50, size=shape)
        if dt == "bool":
            return q.rand(*shape) > 0.5
        if dt == "U3":
            return np.array(q.randint(0, 999, size=shape), dtype="U3")
        x = np.asarray(q.standard_normal(shape) * 10.0 ** q.randint(-200, 200))
        if v["special"] and x.size > 1:
            x = x.copy()
            x.flat[0], x.flat[-1] = np.nan, np.inf
        if dt == "c16":
            x = x + 1j * np.asarray(q.standard_normal(shape))
        with np.errstate(all="ignore"):
            return x.astype(dt)

    def save(self, root, scn, s, value, over):
        from pathlib import Path

        from lightcurvelynx.utils.io_utils import write_numpy_data

        p = self.path(root, scn, s)
        write_numpy_data(Path(p) if scn["path"] else p, value)

    def load(self, root, scn, s):
        from lightcurvelynx.utils.io_utils import read_numpy_data

        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            return read_numpy_data(self.path(root, scn, s))

    def same(self, scn, s, want, got):
        if self.kind(scn, s) in TEXT:
            want, got = np.atleast_1d(np.squeeze(np.asarray(want, dtype=float))), np.atleast_1d(np.squeeze(np.asarray(got)))
            if want.size == 0 and got.size == 0:
                return None
        elif got.dtype != want.dtype:
            return f"type {got.dtype}, not {want.dtype}"
        if got.shape != want.shape:
            return f"shape {got.shape}, not {want.shape}"
        if not np.array_equal(got, want, equal_nan=got.dtype.kind in "fc"):
            return f"{got.ravel()[:4]}..., not {want.ravel()[:4]}..."
        return None

    def shrink_value(self, v):
        for shape in ([1], [3]):
            if v["shape"] != shape and len(v["shape"]) >= 1 and np.prod(v["shape"]) > np.prod(shape):
                yield {**v, "shape": shape}
        if v["special"]:
            yield {**v, "special": False}

    def shrink(self, scn):
        if "reader" not in scn:
            yield from super().shrink(scn)
            return
        for k, v in (("rows", 1), ("rows", 2), ("gz", False), ("at", 500), ("edge", False)):
            if scn[k] != v and not (k == "rows" and scn[k] < v):
                yield {**scn, k: v}

    # ---------------------------------------------------------------------------------------------- damaged input files
    def execute(self, scn, run):
        self.run_ = run
        if "reader" not in scn:
            return super().execute(scn, run)
        import tempfile
        import shutil

        run.ops += 1
        base = os.path.realpath(tempfile.mkdtemp(prefix="files-", dir=os.environ.get("VERIF_SCRATCH")))
        try:
            self.read_damaged(base, scn, run)
        finally:
            shutil.rmtree(base, ignore_errors=True)

    def text_of(self, scn, q):
        """-> (file name, bytes, records the file holds, function reading it back as records)"""
        r = scn["reader"]
        if r == "lclib":
            events, lines = [], ["DOCUMENTATION:", "  PURPOSE: test", "DOCUMENTATION_END:", "SURVEY: LSST", "FILTERS: gri", "MODEL_PARNAMES: p1,p2", "# a comment", ""]
            for e in range(scn["rows"]):
                eid = str(q.int(0, 5000))
                n = q.int(1, 5)
                ev = {"id": eid, "rows": [], "par": [f"{q.uniform(0, 9):.3f}", f"{q.uniform(0, 9):.4f}"] if q.chance(0.7) else None, "extra": q.chance(0.4)}
                lines += ["#----", f"START_EVENT: {eid}", f"NROW: {n}"]
                if ev["par"]:
                    lines.append("PARVAL: " + ",".join(ev["par"]))
                if ev["extra"]:
                    lines.append(f"ANGLEMATCH_b: {e + 1}.5")
                for k in range(n):
                    vals = [f"{k * 2.5 + q.uniform(0, 1):.4f}"] + [f"{q.uniform(15, 25):.3f}" for _ in range(3)]
                    kind = "S" if q.chance(0.8) or k else "T"
                    ev["rows"].append([kind] + [float(x) for x in vals])
                    lines.append(f"{kind}: " + " ".join(vals) + ("  # note" if q.chance(0.2) else ""))
                lines.append(f"END_EVENT: {eid}")
                lines.append("")
                events.append(ev)
            data = "\n".join(lines).encode()
            name = "lib.dat.gz" if scn["gz"] else q.choice(["lib.dat", "lib.txt", "lib.TEXT"])

            def read(path):
                from lightcurvelynx.utils.io_utils import read_lclib_data

                out = []
                for t in read_lclib_data(path):
                    rows = [[t["type"][k]] + [float(t[c][k]) for c in ("time", "g", "r", "i")] for k in range(len(t))]
                    par = t.meta.get("PARVAL")
                    out.append({"id": t.meta["id"], "rows": rows, "par": None if par is None else [str(par["p1"]), str(par["p2"])], "extra": "ANGLEMATCH_b" in t.meta})
                return out

            return name, data, events, read, None
        if r == "passband":
            w = np.cumsum([4000.0] + [5.0 + j for j in range(scn["rows"] + 3)])
            rows = [[f"{x:.2f}", f"{q.uniform(0.1, 1):.6f}"] for x in w]
            data = ("# wave trans\n" + "".join(" ".join(x) + "\n" for x in rows)).encode()

            def read(path):
                from lightcurvelynx.astro_utils.passbands import Passband

                p = Passband.from_file("TOY", "g", table_path=path, trim_quantile=None, delta_wave=None, units="A")
                return [[float(a), float(b)] for a, b in np.asarray(p._loaded_table)]

            return "band.dat", data, [[float(a), float(b)] for a, b in rows], read, None
        if r == "grid":
            nx, ny = scn["rows"], q.int(1, 4)
            recs = [[float(a), float(b), round(q.uniform(-5, 5), 4)] for a in range(nx) for b in range(ny)]
            data = ("# x0 x1 v\n" + "".join(f"{a} {b} {c}\n" for a, b, c in recs)).encode()

            def read(path):
                from lightcurvelynx.utils.io_utils import read_grid_data

                x0, x1, v = read_grid_data(path, validate=bool(scn["seed"] % 2))
                return [[float(a), float(b), float(v[i, j])] for i, a in enumerate(x0) for j, b in enumerate(x1)]

            return "grid.dat", data, recs, read, None
        from lightcurvelynx.utils.io_utils import read_numpy_data, write_numpy_data

        rows = np.array([[q.uniform(-1, 1), q.uniform(-1, 1)] for _ in range(scn["rows"] + 1)])
        path = "arr" + scn["suffix"]
        import tempfile

        with tempfile.TemporaryDirectory() as d:
            write_numpy_data(os.path.join(d, path), rows)
            with open(os.path.join(d, path), "rb") as f:
                data = f.read()

        def read(p):
            x = read_numpy_data(p)
            return [[float(v) for v in row] for row in (x if x.ndim == 2 else x.reshape(-1, 2) if x.size % 2 == 0 else [x])]

        return path, data, rows.tolist(), read, None

    @staticmethod
    def literal(data):
        """The number at the end of the file, if it still is one."""
        try:
            return float(data.replace(b",", b" ").split()[-1])
        except ValueError:
            return None

    def read_damaged(self, base, scn, run):
        q = Prng("damaged", scn["seed"])
        name, data, records, read, _ = self.text_of(scn, q)
        damage = scn["damage"]
        if scn["reader"] == "lclib" and scn["gz"]:
            data = gzip.compress(data, mtime=0)
            run.probe("gzip")
        path = os.path.join(base, name)
        torn_number = False
        if damage == "cut":
            k = len(data) * scn["at"] // 1001
            if scn["edge"] == "line" and b"\n" in data[:k]:
                k = data[:k].rindex(b"\n") + q.choice([0, 1, 1])
            elif scn["edge"] == "field":
                k = max([k if not len(data[:k]) else 0] + [j + 1 for j in range(k) if data[j:j + 1] in (b",", b" ", b"e", b"-", b".")])
            tail = data[k - 1:k + 1]
            torn_number = len(tail) == 2 and not any(c in b" ,\n" for c in tail)
            data = data[:k]
            run.probe("cut-file")
            run.fault("cut-file")
        with open(path, "wb") as f:
            f.write(data)
        faults = []
        if damage in ("error", "short"):
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                _, _, rec = disk.recorded(base, lambda: read(path), seed=1)
            pool = [o for o in rec.ops if o.op in (disk.READ, disk.OPENR)]
            if damage == "error":
                o = q.choice(pool)
                faults = [(o.index, disk.F_ERROR, q.choice(disk.ERRS[o.op]), 0)]
                run.probe("read-error")
            else:
                faults = [(j, disk.F_SHORT, 0, q.int(0, 999)) for j in range(len(pool) + 40) if q.chance(0.6)][:60]
                run.probe("short-reads")
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            got, exc, rec = disk.recorded(base, lambda: read(path), faults, seed=1)
        fired = [o for o in rec.ops if o.fault]
        for o in fired:
            run.fault("read-" + ("short" if o.fault == disk.F_SHORT else "error"))
        what = f"{scn['reader']} file {name} of {len(data)} bytes" + (" cut off" if damage == "cut" else f" with {damage}") + (f" {rec.ops}" if fired else "")
        if exc is not None and not isinstance(exc, Exception):
            raise exc
        run.event(scn["reader"], damage, type(exc).__name__, rec.roles())
        if exc is not None:
            run.probe("cut-raised")
            if damage in ("none", "short"):
                raise Violation("unreadable", f"{what}: reading fails with {exc!r}", "unreadable:" + scn["reader"])
            run.state(scn["reader"], damage, "raised")
            run.nontrivial = True
            return
        if damage == "error" and fired:
            # the error was noticed or the data complete
            damage_ok = got == records
            if not damage_ok and got != records[:len(got)]:
                raise Violation("altered-records", f"{what}: returned {got[:3]}..., the file holds {records[:3]}...", "altered-records:" + scn["reader"])
        run.nontrivial = True
        run.probe("cut-whole" if len(got) == len(records) else "cut-prefix")
        run.state(scn["reader"], damage, scn["gz"], len(got) == len(records), len(got) == 0, torn_number)
        if damage != "cut":
            if got != records:
                raise Violation("altered-records", f"{what}: returned {len(got)} records {got[:3]}..., the file holds {len(records)}: {records[:3]}...", "altered-records:" + scn["reader"])
            return
        for j, (a, b) in enumerate(zip(got, records)):
            if a == b:
                continue
            if j == len(got) - 1 and torn_number and scn["reader"] in ("passband", "grid", "array") and a[:-1] == b[:-1] and a[-1] == self.literal(data):
                continue  # the last number lost digits and the row looks complete
            raise Violation("altered-records", f"{what} ({data[-40:]!r}): record {j} is {a}, the file holds {b}", "altered-records:" + scn["reader"])
        if len(got) > len(records):
            raise Violation("altered-records", f"{what}: returned {len(got)} records, the file held {len(records)}", "altered-records:" + scn["reader"])


CHECK = P06()
