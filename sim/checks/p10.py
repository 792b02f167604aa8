"""P10: simulated light curves are exactly the survey's view of the model.

One run builds a world twice. On one copy it executes a seeded history of survey edits and simulations with a recording
random source; on the other, a row-by-row reference model recomputes every light curve: a full scan with its own
spherical geometry decides the rows, single-visit evaluations of the equally built model decide the noise-free fluxes,
single-visit uncertainties decide the errors, and every noise value is attributed to its own recorded Gaussian draw."""
import copy
import heapq

import numpy as np

from sim import ops as simops
from sim import warmup, zoo
from sim.checks.p09 import Recorder, recorder
from sim.core import Prng, Violation, diff
from sim.runner import CheckBase

OFFSETS = [None, None, [10.0, 20.0], [None, 25.0], [15.0, None], [0.0, 0.0], [200.0, 200.0]]
HEAVY = ("bayesn", "salt2")
EDGE = 1e-9  # rad: visits this close to the edge of the radius may fall on either side


def separation(ra1, dec1, ra2, dec2):
    """Angle between directions in radians, from the chord (well conditioned for small and large angles)."""
    r = np.radians
    a = np.sin(r(dec2 - dec1) / 2) ** 2 + np.cos(r(dec1)) * np.cos(r(dec2)) * np.sin(r(ra2 - ra1) / 2) ** 2
    return 2 * np.arcsin(np.sqrt(np.clip(a, 0.0, 1.0)))


class P10(CheckBase):
    ID = "P10"
    RULE = "a run is non-trivial when at least one light curve with a visit was compared row by row with the reference model"
    MEASURE = ("distinct (model kind, position kind, survey kind, window, mask, extra columns, samples, preceding edit, empty or not) "
               "combinations compared")
    REAL = ["simulate_lightcurves, compute_noise_free_lightcurves, all models and effects, survey tables, passbands"]
    STUB = ["the caller's random generator (records every draw)", "redback (stand-in source)"]
    ASSUMPTIONS = ["visits within 1e-9 rad of the edge of the query radius may be in or out",
                   "noise-free fluxes of models that draw random numbers while being evaluated (white noise, AGN) are not recomputed",
                   "the uncertainty formula itself is not the subject (P14); its wiring to visits is"]
    PROBES = ["rows-checked", "objects-without-visits", "mask", "window", "several-surveys", "edit", "noise-draws-matched", "noise-free", "saved-columns", "param-columns", "single-object"]
    RUNS = {"quick": 420, "thorough": 12000}

    def warm(self):
        warmup.full()

    def generate(self, p, i, tier):
        kinds = [k for k in zoo.SED_KINDS + zoo.BAND_KINDS + zoo.MULTI_KINDS if k not in HEAVY] + ["sncosmo", "sncosmo", "random", "additive"]
        if p.chance(0.02):
            kinds = list(HEAVY)
        w = zoo.gen_world(p.sub("w"), {"kinds": kinds}, surveys=p.wchoice([(1, 3), (2, 2), (3, 1)]))
        heavy = any(k in HEAVY for k in zoo.kinds_in(w["model"]))
        ops = []
        for j in range(p.int(1, 2 if heavy else 4)):
            q = p.sub("op", j)
            k = q.wchoice([("sim", 5), ("filter", 1), ("radius", 1), ("col", 1), ("nf", 0.7), ("draw", 0.8)])
            sv = q.int(0, len(w["surveys"]) - 1)
            op = {"k": k, "sv": sv, "seed": q.seed32()}
            if k == "radius":
                op["r"] = q.choice([0.3, 1.0, 2.5, 10.0])
            ops.append(op)
        ops.append({"k": "sim", "sv": 0, "seed": p.seed32()})
        for op in ops:
            q = Prng("simop", op["seed"])
            if op["k"] in ("sim", "nf"):
                op["n"] = q.choice([1, 1, 2, 3, 5, 9])
                if heavy:
                    op["n"] = min(op["n"], 2)
                op["win"] = q.choice(OFFSETS)
                op["mask"] = q.chance(0.4)
                op["cols"] = q.sample(["visit", "extra", "zp", "airmass", "ra"], q.int(0, 3))
                op["pars"] = q.int(0, 3)
                op["one"] = q.chance(0.5)
                if not heavy and op["k"] == "sim" and q.chance(0.02):
                    op["n"] = 80
        if p.chance(0.25):  # windows whose ends fall exactly on visits
            for s in w["surveys"]:
                s["grid"] = True
            for m in [w["model"]] + w["model"].get("children", []):
                if m.get("t0") is not None:
                    m["t0"] = "whole"
            for op in ops:
                q = Prng("exact", op["seed"])
                if op.get("win") and q.chance(0.8):
                    op["win"] = [q.choice([None, 0.25 * q.int(0, 80)]), q.choice([None, 0.25 * q.int(0, 80)])]
        return {"world": w, "ops": ops}

    # ----------------------------------------------------------------------------------------------
    def groups(self, W):
        """One passband group per survey, different for each, so that a mix-up shows."""
        spec = W.spec.get("passbands", {})
        return [zoo.passbands({**spec, "seed": spec.get("seed", 0) + 10 * s}) for s in range(len(W.surveys))]

    def raw(self, sv):
        """The reference's own copy of a survey's visits."""
        return {c: np.array(sv[c].to_numpy()) for c in list(sv.columns)}

    def execute(self, scn, run):
        W, R = zoo.World(scn["world"]), zoo.World(scn["world"])
        groups, rgroups = self.groups(W), self.groups(R)
        raws = [self.raw(sv) for sv in R.surveys]
        radii = [s["radius"] for s in scn["world"]["surveys"]]
        last = "start"
        for op in scn["ops"]:
            run.ops += 1
            k = op["k"]
            if k in ("filter", "radius", "col"):
                run.probe("edit")
                s = op["sv"] % len(W.surveys)
                q = Prng("edit", op["seed"])
                n = len(raws[s]["ra"])
                if k == "filter":
                    keep = np.array([q.chance(0.7) for _ in range(n)])
                    if not keep.any():
                        keep[0] = True
                    arg = keep if q.chance(0.5) else np.nonzero(keep)[0]
                    for V in (W, R):
                        V.surveys[s].filter_rows(arg)
                    raws[s] = {c: v[keep] for c, v in raws[s].items()}
                elif k == "radius":
                    radii[s] = op["r"]
                    W.surveys[s].radius = op["r"]
                    R.surveys[s].radius = op["r"]
                else:
                    vals = np.array([q.uniform(0, 1) for _ in range(n)])
                    for V in (W, R):
                        V.surveys[s].add_column("extra", vals.copy(), overwrite=True)
                    raws[s]["extra"] = vals
            elif k == "draw":
                self.draw(scn, W, op, raws, run)
            elif k == "nf":
                if not simops.eval_random(scn["world"]["model"]):
                    self.noise_free(W, R, op, groups, rgroups, run)
            else:
                self.simulate(W, R, scn, op, groups, rgroups, raws, radii, run, last)
            last = k

    def simulate(self, W, R, scn, op, groups, rgroups, raws, radii, run, last):
        import lightcurvelynx.simulate as S
        from lightcurvelynx.graph_state import GraphState

        m, n = W.model, op["n"]
        cols = [c for c in op["cols"] if any(c in r for r in raws)]
        rng = recorder(op["seed"])
        kw = {}
        if op["win"] is not None:
            kw["time_window_offset"] = tuple(op["win"])
            run.probe("window")
        if op["mask"]:
            kw["apply_obs_mask"] = True
            run.probe("mask")
        if cols:
            kw["obstable_save_cols"] = cols
            run.probe("saved-columns")
        if m.node_pos is None:
            m.set_graph_positions()
        R.model.set_graph_positions()
        names = [f"{m}.{x}" for x in ("ra", "t0", "dec")][:op["pars"]]
        q = Prng("columns", op["seed"])
        if op["pars"] and q.chance(0.7):  # any parameter of any node can be a column
            probe = R.model.sample_parameters(num_samples=1, rng_info=np.random.default_rng(1))
            names += [x for x in q.sample(sorted(probe.get_all_params_names()), 2) if x not in names and isinstance(probe[x], int | float | str | np.number | np.bool_)]
        if names:
            kw["param_cols"] = names
            run.probe("param-columns")
        many = len(W.surveys) > 1
        if many:
            run.probe("several-surveys")
        sv = W.surveys if many or not op["one"] else W.surveys[0]
        pb = groups if many or not op["one"] else groups[0]
        out = S.simulate_lightcurves(m, n, sv, pb, rng=rng, **kw)

        # ---- object table
        if len(out) != n or list(out.index) != list(range(n)) or list(out["id"]) != list(range(n)):
            raise Violation("object-table", f"{len(out)} rows, index {list(out.index)[:5]}, id {list(out['id'])[:5]} for {n} samples")
        missing = [c for c in ["ra", "dec", "t0", "z", "nobs", "params", *(x.replace(".", "_") for x in names)] if c not in out.columns]
        if missing:
            raise Violation("object-table", f"the object table has no column {missing}: {list(out.columns)}")
        lab = str(m)
        flat = out["lightcurve"].nest.to_flat() if out["lightcurve"].notna().any() else None
        noise, drawn = [], []
        random_eval = simops.eval_random(scn["world"]["model"])
        for i in range(n):
            par = out["params"].iloc[i]
            for col, name in (("ra", "ra"), ("dec", "dec"), ("t0", "t0"), ("z", "redshift")):
                d = diff(out[col].iloc[i], scalar(par[f"{lab}.{name}"]), rtol=0)
                none = pandas_missing(out[col].iloc[i])
                if d and not (none and par[f"{lab}.{name}"] is None):
                    raise Violation("object-column", f"object {i} column {col}: {d}", f"object-column:{col}")
            for full in names:
                c = full.replace(".", "_")
                d = diff(out[c].iloc[i], scalar(par[full]), rtol=0)
                none = pandas_missing(out[c].iloc[i])
                if d and not (none and par[full] is None):
                    raise Violation("object-column", f"object {i} column {c}: {d}", "object-column:param")
            st = GraphState.from_dict({a: b for a, b in par.items()}, num_samples=1)
            rows = flat[flat.index == i] if flat is not None else None
            got = len(rows) if rows is not None else 0
            if int(out["nobs"].iloc[i]) != got:
                raise Violation("row-count", f"object {i}: nobs {out['nobs'].iloc[i]} but {got} rows")
            want = self.expected_rows(R, par, lab, raws, radii, op, st)
            run.state(scn["world"]["model"]["kind"], scn["world"]["model"]["pos"], scn["world"]["surveys"][0]["kind"], repr(op["win"]), op["mask"],
                      len(cols), min(n, 2), last, bool(want))
            if not want:
                run.probe("objects-without-visits")
            self.compare(R, rgroups, st, rows, want, raws, cols, i, noise, run, random_eval)
            run.event(i, got, [list(map(number, rows["flux"])), list(map(float, rows["mjd"]))] if got else [])
            if got:
                run.nontrivial = True
        self.match_noise(rng, noise, run)

    def expected_rows(self, R, par, lab, raws, radii, op, st):
        """{(survey, visit position): must be there?} by a full scan."""
        ra, dec, t0 = (scalar(par[f"{lab}.{x}"]) for x in ("ra", "dec", "t0"))
        out = {}
        for s, raw in enumerate(raws):
            sep = separation(ra, dec, raw["ra"], raw["dec"])
            r = np.radians(radii[s])
            t = np.asarray(raw["time"], dtype=float)
            ok = np.ones(len(t), dtype=bool)
            if op["win"] is not None and t0 is not None:
                before, after = op["win"]
                if before is not None:
                    ok &= t >= t0 - before
                if after is not None:
                    ok &= t <= t0 + after
            for j in np.nonzero(ok & (sep <= r + EDGE))[0]:
                if op["mask"] and not bool(np.asarray(R.model.mask_by_time(np.array([t[j]]), st)).ravel()[0]):
                    continue
                out[(s, int(j))] = bool(sep[j] < r - EDGE)
        return out

    def compare(self, R, rgroups, st, rows, want, raws, cols, i, noise, run, random_eval):
        left = dict(want)
        nrows = len(rows) if rows is not None else 0
        for x in range(nrows):
            row = rows.iloc[x]
            s = int(row["survey_idx"])
            if not 0 <= s < len(raws):
                raise Violation("survey-index", f"object {i} row {x}: survey {s} of {len(raws)}")
            cand = [k for k in left if k[0] == s and float(raws[s]["time"][k[1]]) == float(row["mjd"])]
            if not cand:
                raise Violation("unexpected-row", f"object {i}: row at mjd {row['mjd']} survey {s} is no (further) visit of this object")
            key = cand[0]
            must = left.pop(key)
            j = key[1]
            if str(row["filter"]) != str(raws[s]["filter"][j]):
                raise Violation("row-filter", f"object {i} mjd {row['mjd']}: filter {row['filter']} but the visit used {raws[s]['filter'][j]}")
            for c in cols:
                v = row[c]
                if c in raws[s]:
                    if pandas_missing(v) or not float(v) == float(raws[s][c][j]):
                        raise Violation("row-column", f"object {i} mjd {row['mjd']} survey {s}: {c} = {v}, the visit has {raws[s][c][j]}")
                elif not pandas_missing(v):
                    raise Violation("row-column", f"object {i} mjd {row['mjd']} survey {s}: {c} = {v}, the survey has no such column")
            fp = number(row["flux_perfect"])
            if not random_eval:
                want_fp = float(np.asarray(R.model.evaluate_bandfluxes(rgroups[s], np.array([float(row["mjd"])]), np.array([str(row["filter"])]), st)).ravel()[0])
                if not close(fp, want_fp, 1e-7):
                    raise Violation("row-flux", f"object {i} mjd {row['mjd']} survey {s} filter {row['filter']}: noise-free flux {fp!r}, the model gives {want_fp!r}")
            err = number(row["fluxerr"])
            want_err = float(np.asarray(R.surveys[s].bandflux_error_point_source(np.array([fp]), np.array([j]))).ravel()[0])
            if not close(err, want_err, 1e-9):
                raise Violation("row-error", f"object {i} mjd {row['mjd']} survey {s}: uncertainty {err!r}, the survey gives {want_err!r}")
            cfe = R.spec["surveys"][s]["kind"] == "fakec"
            if cfe and not close(err, R.surveys[s].const_flux_error[str(row["filter"])], 1e-12):
                raise Violation("row-error", f"object {i} mjd {row['mjd']}: uncertainty {err!r} in filter {row['filter']}")
            noise.append((number(row["flux"]), fp, err, i, float(row["mjd"])))
            run.probe("rows-checked")
            del must
        for key, must in left.items():
            if must:
                raise Violation("missing-row", f"object {i}: visit {key} at mjd {raws[key[0]]['time'][key[1]]} covers it and is not in its light curve")

    def match_noise(self, rng, noise, run):
        """Every noisy flux is one Gaussian draw of its own."""
        raw = []
        for rec in rng.log:
            if rec["m"] in ("normal", "standard_normal"):
                g = np.random.Generator(np.random.PCG64())
                g.bit_generator.state = rec["before"]
                raw.append(np.atleast_1d(g.standard_normal(rec["out"].size)))
        pool = np.sort(np.concatenate(raw)) if raw else np.zeros(0)
        need = []
        for flux, fp, err, i, t in noise:
            if not (np.isfinite(flux) and np.isfinite(err) and np.isfinite(fp)):
                if np.isfinite(err) and np.isfinite(fp):
                    raise Violation("noise", f"object {i} mjd {t}: flux {flux} for noise-free {fp} +- {err}")
                continue
            if err == 0.0:
                if flux != fp:
                    raise Violation("noise", f"object {i} mjd {t}: flux {flux} for noise-free {fp} without uncertainty")
                continue
            z = (flux - fp) / err
            tol = 1e-9 + 4e-16 * (abs(fp) + abs(flux)) / err
            a, b = np.searchsorted(pool, z - tol), np.searchsorted(pool, z + tol, side="right")
            need.append((int(a), int(b), i, t, z))
        # A largest matching of intervals to points: every draw serves the open interval that ends first.
        need.sort(key=lambda v: v[0])
        open_, k, x = [], 0, 0
        while k < len(need) or open_:
            if not open_:
                x = max(x, need[k][0])
            while k < len(need) and need[k][0] <= x:
                a, b, i, t, z = need[k]
                heapq.heappush(open_, (b, a, i, t, z))
                k += 1
            b, a, i, t, z = heapq.heappop(open_)
            if b <= x:
                raise Violation("noise", f"object {i} mjd {t}: (flux - noise-free)/uncertainty = {z!r} is no Gaussian draw of this simulation "
                                f"that is not used already ({b - a} used, {len(pool)} draws)", "noise-without-draw")
            x += 1
            run.probe("noise-draws-matched")

    def draw(self, scn, W, op, raws, run):
        """The supernova example's own simulation of one object against one survey."""
        from lightcurvelynx.astro_utils.passbands import PassbandGroup
        from lightcurvelynx.example_runs.simulate_snia import draw_single_random_sn

        spec = scn["world"]["model"]
        if spec.get("z") is None or any(k in zoo.BAND_KINDS + list(HEAVY) for k in zoo.kinds_in(spec)) or simops.eval_random(spec):
            return
        q = Prng("draw", op["seed"])
        s = op["sv"] % len(W.surveys)
        sv, raw = W.surveys[s], raws[s]
        model = zoo.World({**scn["world"], "surveys": []}).model
        model.node_label = "source"
        model.set_graph_positions()
        group = PassbandGroup([zoo.passband(3, b, survey="LSST") for b in zoo.BANDS])
        if scalar(model.get_param(model.sample_parameters(rng_info=np.random.default_rng(op["seed"])), "redshift")) is None:
            return
        rng = recorder(op["seed"])
        state = model.sample_parameters(rng_info=np.random.default_rng(op["seed"])) if q.chance(0.5) else None
        res = draw_single_random_sn(model, sv, group, state=state, rng_info=rng)
        st = res["state"]
        par = {x: scalar(model.get_param(st, x)) for x in ("ra", "dec", "t0", "redshift")}
        t = np.asarray(raw["time"], dtype=float)
        sep = separation(par["ra"], par["dec"], raw["ra"], raw["dec"])
        z1 = 1.0 + par["redshift"]
        inside = (t - par["t0"] > -20 * z1) & (t - par["t0"] < 50 * z1)
        if np.any(np.abs(sep - np.radians(1.75)) < EDGE) or np.any(np.abs(np.abs(t - par["t0"] - 15 * z1) - 35 * z1) < 1e-9):
            return
        want = [int(j) for j in np.nonzero(inside & (sep < np.radians(1.75)))[0]]
        run.probe("single-object")
        run.event("draw", len(want))
        times, filts = np.asarray(res["times"], dtype=float), [str(f) for f in res["filters"]]
        if sorted(times.tolist()) != sorted(t[want].tolist()):
            raise Violation("draw-rows", f"single object at ({par['ra']}, {par['dec']}) t0 {par['t0']}: {len(times)} rows at {times[:5].tolist()}, "
                            f"the survey has {len(want)} visits at {t[want][:5].tolist()}")
        noise = []
        for x in range(len(times)):
            j = [k for k in want if t[k] == times[x]][0]
            if filts[x] != f"LSST_{raw['filter'][j]}":
                raise Violation("draw-filter", f"single object, row at {times[x]}: filter {filts[x]}, the visit used {raw['filter'][j]}")
            fp = float(res["bandfluxes_perfect"][x])
            w = float(np.asarray(model.evaluate_bandfluxes(group, times[x:x + 1], np.array(filts[x:x + 1]), st)).ravel()[0])
            if not close(fp, w, 1e-7):
                raise Violation("draw-flux", f"single object, row at {times[x]}: noise-free flux {fp!r}, the model gives {w!r}")
            err = float(np.asarray(res["bandfluxes_error"])[x])
            w = float(np.asarray(sv.bandflux_error_point_source(np.array([fp]), np.array([j]))).ravel()[0])
            if not close(err, w, 1e-9):
                raise Violation("draw-error", f"single object, row at {times[x]}: uncertainty {err!r}, the survey gives {w!r}")
            noise.append((float(res["bandfluxes"][x]), fp, err, 0, float(times[x])))
        self.match_noise(rng, noise, run)
        if noise:
            run.nontrivial = True

    def noise_free(self, W, R, op, groups, rgroups, run):
        import lightcurvelynx.simulate as S

        m, n = W.model, min(op["n"], 3)
        m.set_graph_positions()
        R.model.set_graph_positions()
        st = m.sample_parameters(num_samples=n, rng_info=np.random.default_rng(op["seed"]))
        q = Prng("nf", op["seed"])
        lo, hi, step = q.choice([-20.0, -5.0]), q.choice([10.0, 31.0]), q.choice([4.0, 10.0])
        per = q.chance(0.4)
        a = [lo - k if per else lo for k in range(n)]
        b = [hi + 2 * k if per else hi for k in range(n)]
        out = S.compute_noise_free_lightcurves(m, st, groups[0], rest_frame_phase_min=np.array(a) if per else lo,
                                               rest_frame_phase_max=np.array(b) if per else hi, rest_frame_phase_step=step)
        flat = out["lightcurve"].nest.to_flat()
        for i, s in enumerate(st):
            z, t0 = m.get_param(s, "redshift"), m.get_param(s, "t0")
            ph = np.arange(a[i], b[i], step)
            times = ph * (1.0 + (z if z is not None and z > 0 else 0.0)) + (t0 if t0 is not None else 0.0)
            rows = flat[flat.index == i]
            for col, want in (("times", times), ("rest_phase", ph)):
                d = diff(np.asarray(rows[col], dtype=float), want, rtol=1e-12, atol=1e-9)
                if d:
                    raise Violation("noise-free-grid", f"object {i} {col}: {d}")
            for f in groups[0].filters:
                want = [float(np.asarray(R.model.evaluate_bandfluxes(rgroups[0], np.array([t]), np.array([f]), s)).ravel()[0]) for t in np.asarray(rows["times"])]
                got = np.asarray(rows[f], dtype=float)
                if len(got) != len(want) or not all(close(x, y, 1e-7) for x, y in zip(got, want)):
                    raise Violation("noise-free-flux", f"object {i} filter {f}: {got[:4]} vs {want[:4]}")
            for col, name in (("ra", "ra"), ("dec", "dec"), ("z", "redshift")):
                v, w = out[col].iloc[i], scalar(m.get_param(s, name))
                if w is not None and not close(float(v), float(w), 0.0):
                    raise Violation("object-column", f"noise-free object {i} column {col}: {v} vs {w}", f"object-column:{col}")
        run.probe("noise-free")
        run.nontrivial = True

    # ----------------------------------------------------------------------------------------------
    def shrink(self, scn):
        for j in range(len(scn["ops"])):
            if len(scn["ops"]) > 1:
                c = copy.deepcopy(scn)
                del c["ops"][j]
                yield c
        for w in zoo.shrink_world(scn["world"]):
            yield {**copy.deepcopy(scn), "world": w}
        for j, op in enumerate(scn["ops"]):
            for key, small in (("n", 1), ("win", None), ("mask", False), ("cols", []), ("pars", 0)):
                if key in op and op[key] != small:
                    c = copy.deepcopy(scn)
                    c["ops"][j][key] = small
                    yield c


def pandas_missing(v):
    import pandas as pd

    return v is None or v is pd.NA or v != v


def number(v):
    return float("nan") if pandas_missing(v) else float(v)


def scalar(x):
    if x is None:
        return None
    a = np.asarray(x)
    return a.ravel()[0].item() if a.size == 1 else x


def close(a, b, rtol):
    if a == b or (a != a and b != b):
        return True
    return abs(a - b) <= rtol * max(abs(a), abs(b))


CHECK = P10()
_ = Recorder
