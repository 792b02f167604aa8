"""P07: the download cache holds a complete file or none.

A run is a history of calls that need a data file (plain, transmission table, SVO filter, survey database, presets of several
files) against a simulated server whose contents change, with the real requests/urllib3/pooch stack on simulated sockets
(sim/net.py) and a simulated disk (sim/disk.py). The reference knows which files must be fetched by which call, and which
contents each cache file may have afterwards."""
import copy
import os
import shutil
import sqlite3
import sys
import tempfile
import warnings
from pathlib import Path

import numpy as np

from sim import disk, inject, net, warmup
from sim.core import Prng, Violation
from sim.runner import CheckBase

USERS = ["file", "file", "dat", "csv", "svo", "svogroup", "opsim", "lsst", "roman"]
ROMAN = ["F062", "F087", "F106", "F129", "F146", "F158", "F184", "F213"]


def curve(seed, version, k):
    q = np.random.RandomState((seed + 1000003 * version + 7919 * k) % 2**32)
    x = 4000.0 + 10.0 * np.arange(25) + 500.0 * q.randint(4)
    return x, np.round(q.uniform(0.2, 1.0, 25), 6)


class P07(CheckBase):
    ID = "P07"
    PRELOAD = staticmethod(disk.preload)
    RULE = "a run is non-trivial when a network fault, disk fault, interrupt or process death hit a call that had to download"
    MEASURE = "distinct (user of the cache, forced or not, file there or not, network mode and framing or disk fault or crash operation, outcome, what the cache holds) combinations"
    REAL = ["download_data_file_if_needed, Passband.from_file/from_svo, PassbandGroup.from_svo/from_preset (LSST, Roman), OpSim.from_url; pooch, requests, urllib3, http.client; shutil, tempfile"]
    STUB = ["sockets and name resolution (simulated server; TLS is skipped)", "the disk below the scratch directory (recorded, disturbed, crash images rebuilt)", "time (connection timeouts pass at once)"]
    ASSUMPTIONS = ["a body cut short is only recognisable when its length or chunks were announced (and the connection lasted beyond the status line of the reply's head, or failed with an error)", "power loss is not part of this property (the downloader does not sync)",
                   "a rename that fails on its own and a further fault or crash inside the downloader's copying fallback are not combined"]
    PROBES = ["fetched", "cached", "forced", "forced-kept", "net-failed", "disk-failed", "interrupted", "kill", "torn-write", "recovered", "old-kept", "new-there", "many-files", "redirect", "gzip", "timeout"]
    RUNS = {"quick": 900, "thorough": 40000}
    IMAGES = 5

    def warm(self):
        warmup.full()
        import requests  # noqa: F401
        import pooch.downloaders  # noqa: F401

    def generate(self, p, i, tier):
        slots = []
        for j in range(p.int(1, 2)):
            q = p.sub("slot", j)
            slots.append({"user": q.choice(USERS), "seed": q.seed32(), "size": q.choice([0, 1, 10, 1000, 9000, 40000]), "scheme": q.choice(["http", "https"]), "query": q.chance(0.3), "deep": q.chance(0.5), "j": j})
        steps = []
        for j in range(p.int(2, 5 if tier == "quick" else 9)):
            o = p.sub("step", j)
            steps.append({"slot": o.int(0, len(slots) - 1), "force": o.chance(0.4), "new": o.chance(0.5), "seed": o.seed32(),
                          "how": o.wchoice([("well", 2), ("net", 4), ("disk", 2), ("crash", 2), ("crash-net", 1), ("cut", 1)])})
        return {"slots": slots, "steps": steps}

    # ---------------------------------------------------------------------------------------------- users of the cache
    def files(self, s):
        """[(path below the root, url)] in the order they are needed."""
        u, j = s["user"], s["j"]
        d = f"d{j}/deep er" if s["deep"] else ""
        base = f"{s['scheme']}://data.example.org/s{j}"
        tail = "?raw=true&v=1" if s["query"] else ""
        if u == "file":
            return [(os.path.join(d, f"f{j}.bin"), f"{base}/f.bin{tail}")]
        if u in ("dat", "csv"):
            return [(os.path.join(d, f"band{j}.{u}"), f"{base}/band.{u}{tail}")]
        if u == "svo":
            return [(os.path.join(d, f"Sur{j}", "g.xml"), f"https://svo2.cab.inta-csic.es/svo/theory/fps3/fps.php?ID=Sur{j}.g")]
        if u == "svogroup":
            return [(os.path.join(d, f"Sur{j}", f"{b}.xml"), f"https://svo2.cab.inta-csic.es/svo/theory/fps3/fps.php?ID=Sur{j}.{b}") for b in "gri"]
        if u == "opsim":
            return [(os.path.join("data", "opsim", f"run{j}.db"), f"{base}/run{j}.db")]
        if u == "lsst":
            return [(os.path.join(f"p{j}", "LSST", f"{b}.dat"), f"https://github.com/lsst/throughputs/blob/main/baseline/total_{b}.dat?raw=true") for b in "ugrizy"]
        return [(os.path.join(f"p{j}", "Roman", "roman_wfi_filters.ecsv"), "https://github.com/RomanSpaceTelescope/roman-technical-information/blob/main/data/WideFieldInstrument/Imaging/EffectiveAreas/Roman_effarea_v8_SCA01_20240301.ecsv?raw=true")]

    def content(self, s, k, version):
        u, seed = s["user"], s["seed"]
        if u == "file":
            return Prng("file", seed, version).bytes(s["size"] + version % 3)
        if u == "opsim":
            q = np.random.RandomState((seed + version) % 2**32)
            f = os.path.join(self.side, "x.db")
            with open(f, "wb"):
                pass
            con = sqlite3.connect(f)
            con.execute("CREATE TABLE observations (observationStartMJD REAL, fieldRA REAL, fieldDec REAL, filter TEXT, airmass REAL, visitExposureTime REAL, seeingFwhmEff REAL, skyBrightness REAL, numExposures INTEGER, observationId INTEGER)")
            con.executemany("INSERT INTO observations VALUES (?,?,?,?,?,?,?,?,?,?)", [(60000.0 + r, q.uniform(0, 360), q.uniform(-60, 60), "gri"[r % 3], 1.2, 30.0, 0.9, 21.0, 1, 1000 * version + r) for r in range(10 + version)])
            con.commit()
            con.close()
            with open(f, "rb") as h:
                data = h.read()
            os.remove(f)
            return data
        x, y = curve(seed, version, k)
        if u in ("svo", "svogroup"):
            rows = "".join(f"<TR><TD>{a!r}</TD><TD>{b!r}</TD></TR>" for a, b in zip(x.tolist(), y.tolist()))
            return (f'<?xml version="1.0"?><VOTABLE version="1.1" xmlns="http://www.ivoa.net/xml/VOTable/v1.1"><RESOURCE type="results"><TABLE utype="photDM:PhotometryFilter.transmissionCurve.spectrum"><FIELD name="Wavelength" unit="AA" datatype="double"/>'
                    f'<FIELD name="Transmission" unit="" datatype="double"/><DATA><TABLEDATA>{rows}</TABLEDATA></DATA></TABLE></RESOURCE></VOTABLE>').encode()
        if u == "roman":
            ys = [curve(seed, version, 10 + b)[1] for b in range(len(ROMAN))]
            return ("# a comment\nWave," + ",".join(ROMAN) + "\n" + "".join(",".join(repr(float(v)) for v in [x[r] / 1e4] + [y_[r] for y_ in ys]) + "\n" for r in range(len(x)))).encode()
        sep = "," if u == "csv" else " "
        scale = 0.1 if u == "lsst" else 1.0  # LSST tables are in nm
        return "".join(f"{a * scale!r}{sep}{b!r}\n" for a, b in zip(x.tolist(), y.tolist())).encode()

    def call(self, root, s, force):
        from lightcurvelynx.astro_utils.passbands import Passband, PassbandGroup
        from lightcurvelynx.obstable.opsim import OpSim
        from lightcurvelynx.utils.data_download import download_data_file_if_needed

        for m in list(sys.modules.values()):
            if getattr(m, "__name__", "").startswith("lightcurvelynx") and hasattr(m, "_LIGHTCURVELYNX_BASE_DATA_DIR"):
                m._LIGHTCURVELYNX_BASE_DATA_DIR = Path(root) / "data"
        u, j = s["user"], s["j"]
        (path, url) = self.files(s)[0]
        path = os.path.join(root, path)
        d = Path(root) / (f"d{j}/deep er" if s["deep"] else "")
        kw = {"force_download": True} if force else {}
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            if u == "file":
                return download_data_file_if_needed(Path(path) if s["seed"] % 2 else path, url, **kw)
            if u in ("dat", "csv"):
                return [Passband.from_file("S", "g", table_path=path, table_url=url, delta_wave=None, trim_quantile=None, **kw)]
            if u == "svo":
                return [Passband.from_svo(f"Sur{j}.g", table_dir=d, delta_wave=None, trim_quantile=None, **kw)]
            if u == "svogroup":
                g = PassbandGroup.from_svo([f"Sur{j}.{b}" for b in "gri"], table_dir=str(d), delta_wave=None, trim_quantile=None, **kw)
                return [g[f"Sur{j}_{b}"] for b in "gri"]
            if u == "opsim":
                return OpSim.from_url(url, **kw)
            g = PassbandGroup.from_preset("LSST" if u == "lsst" else "Roman", table_dir=Path(root) / f"p{j}", delta_wave=None, trim_quantile=None, **kw)
            return [g[f"LSST_{b}"] for b in "ugrizy"] if u == "lsst" else [g[f"Roman_{b}"] for b in ROMAN]

    def check_result(self, s, res, versions, what):
        """The call's result belongs to the cache files' contents."""
        u = s["user"]
        if u == "file":
            if res is not True:
                raise Violation("result", f"{what}: returned {res!r}", "result")
        elif u == "opsim":
            ids = res["observationId"].tolist()
            if ids != [1000 * versions[0] + r for r in range(10 + versions[0])]:
                raise Violation("result", f"{what}: the table holds visits {ids[:4]}...", "result")
        else:
            for k, pb in enumerate(res):
                x, y = curve(s["seed"], versions[0 if u == "roman" else k], 10 + k if u == "roman" else k)
                if u == "roman":
                    x = curve(s["seed"], versions[0], 0)[0]
                got = np.interp(x, pb.waves, pb.processed_transmission_table[:, 1])
                if len(pb.waves) != len(x) or not np.allclose(pb.waves, x, rtol=1e-9) or not np.allclose(got * y[0], y * got[0], rtol=1e-6):
                    # normalisation multiplies by 1/wavelength
                    r = got * x / y
                    if len(pb.waves) != len(x) or not np.allclose(r, r[0], rtol=1e-6):
                        raise Violation("result", f"{what}: passband {pb.full_name} is not that of the cached file", "result")

    # ---------------------------------------------------------------------------------------------- the run
    def execute(self, scn, run):
        self.server = srv = net.Server()
        net.install(srv)
        base = tempfile.mkdtemp(prefix="files-", dir=os.environ.get("VERIF_SCRATCH"))
        self.side = os.path.join(base, "side")
        os.makedirs(self.side)
        self.base, self.n = base, 0
        root = os.path.join(base, "d0")
        os.makedirs(root)
        state = [[None] * len(self.files(s)) for s in scn["slots"]]  # version held by every cache file (None: absent)
        self.version = [[1] * len(self.files(s)) for s in scn["slots"]]
        self.memo = {}
        run.probe("many-files", int(any(len(x) > 1 for x in state)))
        try:
            for j, st in enumerate(scn["steps"]):
                run.ops += 1
                root = self.step(scn, st, run, root, state, f"step {j} ({scn['slots'][st['slot']]['user']}{', forced' if st['force'] else ''}, {st['how']})")
            for k, s in enumerate(scn["slots"]):  # the network and the disk work again
                st = {"slot": k, "force": False, "new": True, "seed": 1 + k, "how": "well"}
                root = self.step(scn, st, run, root, state, f"final call for {s['user']}")
                run.probe("recovered")
            run.simtime += srv.now
        finally:
            shutil.rmtree(base, ignore_errors=True)

    def bytes_of(self, scn, k, f, v):
        key = (k, f, v)
        if key not in self.memo:
            self.memo[key] = self.content(scn["slots"][k], f, v)
        return self.memo[key]

    def observe(self, scn, root, state, may, what):
        """Every cache file's bytes must be among what it may hold; -> the versions there."""
        out = []
        for k, s in enumerate(scn["slots"]):
            row = []
            for f, (path, _) in enumerate(self.files(s)):
                allowed = may.get((k, f), [state[k][f]])
                p = os.path.join(root, path)
                if not os.path.lexists(p):
                    if None not in allowed:
                        raise Violation("lost", f"{what}: the cached file {path} is gone; it must hold version {allowed}", "lost")
                    row.append(None)
                    continue
                with open(p, "rb") as h:
                    data = h.read()
                for v in allowed:
                    if v is not None and data == self.bytes_of(scn, k, f, v):
                        row.append(v)
                        break
                else:
                    raise Violation("partial", f"{what}: the cache path {path} holds {len(data)} bytes that are neither what was there nor what the server serves ({[(v, len(self.bytes_of(scn, k, f, v))) for v in allowed if v is not None]})", "partial")
            out.append(row)
        return out

    def fresh(self):
        self.n += 1
        return os.path.join(self.base, f"d{self.n}")

    def step(self, scn, st, run, root, state, what):
        srv, k, q = self.server, st["slot"], Prng("step", st["seed"])
        s = scn["slots"][k]
        # the force flag of presets reaches every file
        force = st["force"]
        files = self.files(s)
        if st["new"]:
            self.version[k] = [v + 1 for v in self.version[k]]
        for f, (_, url) in enumerate(files):
            srv.pages[url] = self.bytes_of(scn, k, f, self.version[k][f])
        needed = [f for f in range(len(files)) if force or state[k][f] is None]
        urls = [files[f][1] for f in needed]
        script, bad = net.plan(q.sub("net"), len(needed), st["how"] in ("net", "crash-net"))
        if st["how"] == "well":
            script, bad = net.plan(q.sub("net"), len(needed), False)

        def call(where):
            srv.script, srv.requests, srv.failed, srv.following = copy.deepcopy(script), [], [], False
            return self.call(where, s, force)

        faults, tags, inst = [], [], None
        if st["how"] == "disk" and needed:
            side = self.fresh()
            disk.materialize(disk.snapshot(root), side)
            _, _, rec = disk.recorded(side, lambda: call(side), seed=st["seed"])
            shutil.rmtree(side)
            faults, tags = disk.plan(q.sub("disk"), rec.ops, reads=q.chance(0.1))
            if len(faults) > 1 and any(rec.ops[f[0]].op == disk.RENAME for f in faults):
                faults, tags = faults[:0], []
        if st["how"] == "cut":
            side = self.fresh()
            disk.materialize(disk.snapshot(root), side)
            inst = inject.Instants("line")
            inst.run(lambda: call(side))
            shutil.rmtree(side)
            at = inject.pick(q, inst, q.choice(["uniform", "store", "late"]))
            inst = inject.Instants("line", at, q.choice(["kbd", "mem"])) if at is not None else None
        if inst is not None:
            (res, exc), crash, rec = disk.recorded(root, lambda: inst.run(lambda: call(root)), seed=st["seed"])
            if inst.fired:
                run.fault("interrupt")
                run.probe("interrupted")
        else:
            res, exc, rec = disk.recorded(root, lambda: call(root), faults, seed=st["seed"])
        disk.verify(rec)
        fired = [o for o in rec.ops if o.fault]
        for t in tags if fired else []:
            run.fault(t)
        hit = next((f for f, x in enumerate(srv.failed) if x), None)
        for r in range(len(srv.requests)):
            if srv.failed[r]:
                run.fault("net-" + script[r]["mode"])
            run.probe("redirect", int(script[r]["mode"].startswith("redirect")))
            run.probe("gzip", int("gzip" in script[r]["mode"]))
            run.probe("timeout", int("stall" in script[r]["mode"] or "timeout" in script[r]["mode"]))
        disturbed = bool(fired) or bool(inst is not None and inst.fired)
        modes = [x["mode"] for x in script[:len(srv.requests)]]
        what = f"{what} {tags or ''} network {modes}{f' (request {hit} fails)' if hit is not None else ''}"
        run.event(what, rec.roles(), type(exc).__name__, srv.requests)
        if exc is not None and not isinstance(exc, Exception | KeyboardInterrupt):
            raise exc
        failed = exc is not None or res is False
        # ---- requests
        asked = [u if r != "?" else "?" for u, r in zip(urls, srv.requests)]
        if len(srv.requests) > len(urls) or any(a != r for a, r in zip(asked, srv.requests)):
            raise Violation("requests", f"{what}: asked the network for {srv.requests}; needed was {urls} (cached: {state[k]}, forced: {force})", "requests")
        if (disturbed or hit is not None) and needed:
            run.nontrivial = True
        # ---- outcome
        may = {}
        if not failed:
            if hit is not None:
                raise Violation("not-raised", f"{what}: the download failed but the call returned normally", "not-raised")
            if len(srv.requests) != len(urls):
                raise Violation("not-fetched", f"{what}: returned normally having asked for {srv.requests} of {urls}", "not-fetched")
            for f in needed:
                may[k, f] = [self.version[k][f]]
            run.probe("fetched", int(bool(needed)))
            run.probe("cached", int(not needed))
            run.probe("forced", int(force and any(v is not None for v in state[k])))
        elif hit is not None and not disturbed:
            for g in range(hit):
                may[k, needed[g]] = [self.version[k][needed[g]]]
            if len(srv.requests) > hit + 1:
                raise Violation("requests", f"{what}: went on asking after the failure: {srv.requests}", "requests")
            run.probe("net-failed")
            run.probe("forced-kept", int(force and state[k][needed[hit]] is not None))
        elif disturbed:
            for f in needed:
                may[k, f] = [state[k][f], self.version[k][f]]
            run.probe("disk-failed" if fired else "interrupted")
        else:
            raise Violation("no-recovery", f"{what}: with a working network and disk the call fails: {exc!r}", "no-recovery")
        crash = st["how"].startswith("crash")
        if not crash:
            old = [list(x) for x in state]
            state[:] = self.observe(scn, root, state, may, what)
            for f in needed:
                run.probe("new-there" if state[k][f] == self.version[k][f] else "old-kept")
            if not failed:
                self.check_result(s, res, state[k], what)
            run.state(s["user"], force, old[k][0] is None, tuple(sorted(set(modes))), tuple(tags) if fired else "", type(exc).__name__, [v == w for v, w in zip(state[k], self.version[k])])
            return root
        # ---- the process dies somewhere in the call
        for c in range(self.IMAGES):
            _, upto, torn = disk.crash_point(q.sub("crash", c), rec)
            img = disk.crash_image(rec, "kill", upto, torn, q.sub("image", c))
            run.fault("kill")
            run.probe("kill")
            run.probe("torn-write", int(torn is not None))
            where = f"{what}, process death before operation {upto} of {rec.ops}" + (f" (torn at {torn}/1000)" if torn is not None else "")
            new = self.fresh()
            disk.materialize(img, new)
            m = {(k, f): [state[k][f], self.version[k][f]] for f in needed}
            got = self.observe(scn, new, state, m, where)
            run.nontrivial = run.nontrivial or bool(needed)
            run.state(s["user"], force, state[k][0] is None, disk.NAMES[rec.ops[upto].op] if upto < len(rec.ops) else "end", torn is not None, [v == w for v, w in zip(got[k], self.version[k])])
            for f in needed:
                run.probe("new-there" if got[k][f] == self.version[k][f] else "old-kept")
            if c == self.IMAGES - 1:
                shutil.rmtree(root, ignore_errors=True)
                state[:] = got
                return new
            shutil.rmtree(new, ignore_errors=True)

    def shrink(self, scn):
        for j in range(len(scn["steps"])):
            c = copy.deepcopy(scn)
            del c["steps"][j]
            yield c
        for j, st in enumerate(scn["steps"]):
            for key, v in (("how", "well"), ("force", False), ("new", False)):
                if st[key] != v:
                    c = copy.deepcopy(scn)
                    c["steps"][j][key] = v
                    yield c
        for drop in range(len(scn["slots"])):
            if len(scn["slots"]) > 1 and not any(st["slot"] == drop for st in scn["steps"]):
                c = copy.deepcopy(scn)
                del c["slots"][drop]
                for st in c["steps"]:
                    st["slot"] -= st["slot"] > drop
                yield c
        for k, s in enumerate(scn["slots"]):
            for key, v in (("user", "file"), ("size", 10), ("deep", False), ("query", False), ("scheme", "http")):
                if s[key] != v:
                    c = copy.deepcopy(scn)
                    c["slots"][k][key] = v
                    yield c


CHECK = P07()
