"""P05: saved survey tables survive crashes and disk errors.

A run is a history of writes and reads of survey tables on a simulated disk (sim/files.py): tables of a database file (several
of them may share one file) and parquet files."""
import os
import warnings
from pathlib import Path

import numpy as np

from sim import warmup, zoo
from sim.core import diff
from sim.files import FileCheck

TABLES = ["observations", "exposures", "my table", 'quo"te', "select", "ünï", "obs;--", "t.1", "%s?"]
KINDS = ["base", "base", "fake", "fakec", "opsim", "ztf", "roman"]


class P05(FileCheck):
    ID = "P05"
    MEASURE = "distinct (format, outcome of the save, kind of crash, operation it hits, torn or not, what is loaded afterwards) combinations"
    REAL = ["ObsTable.write_db, from_db, write_parquet, from_parquet of all survey kinds; pandas, SQLite (journal, locks, recovery), pyarrow"]
    ASSUMPTIONS = ["a database keeps numbers, text and missing values (booleans come back as integers) and no survey settings; a parquet file keeps both",
                   "a power cut keeps a prefix of the name changes and any part of what was not synced"]
    RUNS = {"quick": 1200, "thorough": 25000}
    CAN_REFUSE = True
    PROBES = FileCheck.PROBES + ["shared-file", "sqlite-recovery", "other-table-kept", "database", "parquet", "filtered"]

    def warm(self):
        warmup.full()

    def kind(self, scn, s):
        return scn["info"][s]["fmt"]

    def gen_case(self, p, tier):
        fmt = p.choice(["db", "db", "parquet", "mixed"])
        shared = p.choice(["s.db", "odd name?#%.db", "ü.sqlite"])
        info, used = [], set()
        for j in range(p.int(1, 3) if fmt != "parquet" else p.int(1, 2)):
            q = p.sub("slot", j)
            f = fmt if fmt != "mixed" else q.choice(["db", "parquet"])
            e = {"fmt": f, "kind": q.choice(KINDS), "seed": q.seed32()}
            if f == "db":
                e["file"] = shared if q.chance(0.7) else f"own{j}.db"
                e["table"] = q.choice([t for t in TABLES if (e["file"], t) not in used])
                used.add((e["file"], e["table"]))
            else:
                e["file"], e["table"] = f"p {j}.parquet", None
            info.append(e)
        return {"slots": [f"{e['file']}:{e['table']}" if e["table"] else e["file"] for e in info], "info": info, "sub": p.choice(["", "nested dir"]), "path": p.chance(0.5)}

    def layout(self, root, scn):
        if scn["sub"]:
            os.makedirs(os.path.join(root, scn["sub"]))

    def path(self, root, scn, s):
        f = os.path.join(root, scn["sub"], scn["info"][s]["file"])
        return Path(f) if scn["path"] else f

    def gen_value(self, p, scn, slot):
        return {"seed": p.seed32(), "n": p.choice([1, 2, 5, 20, 60]) if p.chance(0.93) else 800, "filtered": p.chance(0.3), "radius": p.choice([None, 0.5, 1.75, 3]), "extra": p.chance(0.6)}

    def make(self, scn, s, v):
        from lightcurvelynx.obstable.obs_table import ObsTable

        k = scn["info"][s]["kind"]
        n = v["n"] + (2 if v["filtered"] else 0)
        q = np.random.RandomState(v["seed"])
        if k == "base":
            t = zoo.survey_table({"seed": v["seed"], "n": n})
            # ready-made settings so that the saved file carries something
            kw = {"survey_name": f"S{v['seed'] % 7}", "pixel_scale": 0.25, "radius": v["radius"], "ext_coeff": {"g": -0.2, "r": -0.1}, "custom": [1, 2, "x"], "flag": bool(v["seed"] % 2)}
            o = ObsTable(t, **kw)
        else:
            o = zoo.survey({"kind": k, "seed": v["seed"], "n": n, "radius": v["radius"] or 1.5})
        if v["extra"]:
            x = q.standard_normal(n) * 10.0 ** q.randint(-100, 100, size=n)
            if n > 1:
                x[q.randint(n)] = np.nan
            o.add_column("odd col", x)
            o.add_column("note", np.array([["a", "", "b c", "ü", "1"][q.randint(5)] for _ in range(n)], dtype=object))
            o.add_column("ok", q.rand(n) > 0.5)
            o.add_column("big", q.randint(-(2**60), 2**60, size=n))
        if v["filtered"]:
            keep = np.full(n, True)
            keep[q.permutation(n)[:2]] = False
            o.filter_rows(keep)
            if self.run_ is not None:
                self.run_.probe("filtered")
        return o

    def execute(self, scn, run):
        self.run_ = run
        run.probe("database", int(any(e["fmt"] == "db" for e in scn["info"])))
        run.probe("parquet", int(any(e["fmt"] == "parquet" for e in scn["info"])))
        f = [e["file"] for e in scn["info"] if e["fmt"] == "db"]
        self.shared = {x for x in f if f.count(x) > 1}
        run.probe("shared-file", int(bool(self.shared)))
        super().execute(scn, run)

    def save(self, root, scn, s, value, over):
        e = scn["info"][s]
        if e["fmt"] == "parquet":
            value.write_parquet(self.path(root, scn, s), overwrite=over)
        elif e["table"] == "observations":
            value.write_db(self.path(root, scn, s), overwrite=over)
        else:
            value.write_db(self.path(root, scn, s), tablename=e["table"], overwrite=over)

    def load(self, root, scn, s):
        from lightcurvelynx.obstable.fake_obs_table import FakeObsTable
        from lightcurvelynx.obstable.obs_table import ObsTable
        from lightcurvelynx.obstable.opsim import OpSim
        from lightcurvelynx.obstable.ztf_obstable import ZTFObsTable

        e = scn["info"][s]
        cls = {"base": ObsTable, "fake": FakeObsTable, "fakec": FakeObsTable, "opsim": OpSim, "ztf": ZTFObsTable, "roman": zoo.roman_class()}[e["kind"]]
        p = self.path(root, scn, s)
        if os.path.exists(f"{p}-journal"):
            self.run_.probe("sqlite-recovery")
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            if e["fmt"] == "parquet":
                return cls.from_parquet(p)
            if e["kind"] in ("fake", "fakec"):
                cls = ObsTable
            if e["table"] == ("exposures" if cls is ZTFObsTable else "observations"):
                return cls.from_db(p)
            return cls.from_db(p, sql_query='SELECT * FROM "' + e["table"].replace('"', '""') + '"')

    def same(self, scn, s, want, got):
        db = scn["info"][s]["fmt"] == "db"
        a, b = want._table, got._table
        if list(a.columns) != list(b.columns):
            return f"columns {list(b.columns)}, not {list(a.columns)}"
        if len(a) != len(b):
            return f"{len(b)} rows, not {len(a)}"
        for c in a.columns:
            x, y = a[c].to_numpy(), b[c].to_numpy()
            if x.dtype.kind == "f":
                try:
                    ok = np.array_equal(x.astype(float), y.astype(float), equal_nan=True) and (db or x.dtype == y.dtype)
                except (TypeError, ValueError):
                    ok = False
            elif x.dtype.kind in "iub":
                ok = y.dtype.kind in ("iub" if db else x.dtype.kind) and np.array_equal(x, y)
            else:
                ok = [str(v) for v in x.tolist()] == [str(v) for v in y.tolist()]
            if not ok:
                return f"column {c}: {y[:5]}..., not {x[:5]}..."
        if not db:
            d = diff(_norm(want.survey_values), _norm(got.survey_values), 0.0)
            if d:
                return f"settings: {d}"
        return None

    def load_may_write(self, before):
        """SQLite undoes an interrupted write when the file is next opened."""
        return any(n.endswith("-journal") for n in before)

    def settle(self, S, scn, s, got, exc, what, just_saved):
        t = super().settle(S, scn, s, got, exc, what, just_saved)
        if not just_saved and t == "previous" and scn["info"][s]["file"] in self.shared:
            self.run_.probe("other-table-kept")
        return t

    def shrink(self, scn):
        import copy

        yield from super().shrink(scn)
        if scn["sub"]:
            yield {**scn, "sub": ""}
        for drop in range(len(scn["slots"])):
            if len(scn["slots"]) > 1 and not any(st["slot"] == drop for st in scn["steps"]):
                c = copy.deepcopy(scn)
                del c["slots"][drop], c["info"][drop]
                for st in c["steps"]:
                    st["slot"] -= st["slot"] > drop
                yield c

    def shrink_value(self, v):
        for k, x in (("n", 1), ("n", 5), ("filtered", False), ("extra", False), ("radius", None)):
            if v[k] != x and not (k == "n" and v[k] < x):
                yield {**v, k: x}


def _norm(d):
    import json

    return json.loads(json.dumps(d, sort_keys=True, default=lambda x: x.tolist() if hasattr(x, "tolist") else repr(x)))


CHECK = P05()
