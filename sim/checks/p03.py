"""P03: a failed or interrupted call leaves objects and inputs unharmed.

Part "read": a sampling / evaluation / query / simulation call is cut short at a chosen instant, then the
same call and others are made; every one must return what it returns on an equally built world that was
never disturbed. Part "config": a configuration or construction call is rejected (bad argument) or fails in
the middle; the object must behave as before the call, and a corrected retry must succeed."""
import copy

import numpy as np

from sim import entropy, inject, ops, warmup, zoo
from sim.core import Outcome, Prng, Violation, diff, freeze
from sim.runner import CheckBase

NOT_HERE = ("salt2", "bayesn")
READ = [("sample", 4), ("given", 1), ("sed", 4), ("band", 4), ("sim", 3), ("nf", 1), ("query", 2), ("observed", 1), ("getobs", 1),
        ("moc", 1), ("group", 2), ("err", 1), ("dag", 1), ("mask", 1), ("roundtrip", 1), ("tools", 1.5)]
CONFIG = ["add_parameter", "set_parameter", "add_effect", "set_label_param", "filter_rows", "add_column", "radius", "footprint",
          "pb_process", "group_process", "add_passband", "set_seed", "make_group", "make_multi", "make_random", "make_survey",
          "make_template", "make_node", "make_effect_model", "make_state", "make_passband", "make_table_node", "make_opsim", "make_ztf",
          "make_dist", "use_arrays"]


class TwoParamEffect:
    """Builds an effect with several parameters, one of which may be unusable."""

    @staticmethod
    def make(bad, frame_rest):
        from lightcurvelynx.effects.effect_model import EffectModel
        from lightcurvelynx.math_nodes.np_random import NumpyRandomFunc

        class Eff(EffectModel):
            def __init__(self):
                super().__init__(rest_frame=frame_rest)
                self.add_effect_parameter("sim_gain", 1.5)
                if bad == 1:
                    self.add_effect_parameter("sample_parameters", 2.0)  # clashes with a method of the model
                elif bad == 2:
                    self.add_effect_parameter("sim_off", NumpyRandomFunc("uniform", low=1.0, high=2.0).set_seed)
                elif bad == 3:
                    self.add_effect_parameter("list_params", 2.0)
                else:
                    self.add_effect_parameter("sim_off", 0.25)

            def apply(self, flux_density, times=None, wavelengths=None, sim_gain=None, sim_off=None, rng_info=None, **kwargs):
                return flux_density * sim_gain + sim_off

            def apply_bandflux(self, bandfluxes, *, times=None, filters=None, sim_gain=None, sim_off=None, rng_info=None, **kwargs):
                return bandfluxes * sim_gain + sim_off

        return Eff()


def configure(W, c, bad):
    """One configuration call. bad=0 is the corrected form."""
    import pandas as pd
    from astropy.table import Table

    from lightcurvelynx.astro_utils.mag_flux import flux2mag, mag2flux
    from lightcurvelynx.astro_utils.noise_model import apply_noise
    from lightcurvelynx.astro_utils.passbands import Passband, PassbandGroup
    from lightcurvelynx.math_nodes.given_sampler import TableSampler
    from lightcurvelynx.math_nodes.distribution_sampler import DistributionSampler
    from lightcurvelynx.obstable.ztf_obstable import ZTFObsTable
    from lightcurvelynx.simulate import get_time_windows
    from lightcurvelynx.base_models import FunctionNode
    from lightcurvelynx.graph_state import GraphState
    from lightcurvelynx.math_nodes.given_sampler import GivenValueSampler
    from lightcurvelynx.math_nodes.np_random import NumpyRandomFunc
    from lightcurvelynx.models.lightcurve_template_model import LightcurveData, LightcurveTemplateModel
    from lightcurvelynx.models.multi_object_model import AdditiveMultiObjectModel, RandomMultiObjectModel
    from lightcurvelynx.obstable.fake_obs_table import FakeObsTable
    from lightcurvelynx.obstable.opsim import OpSim

    k, seed = c["k"], c["seed"]
    p = Prng("config", seed)
    m = W.model
    sv = W.surveys[p.int(0, len(W.surveys) - 1)]
    n = len(sv)
    other = c.setdefault("_node", None) or NumpyRandomFunc("uniform", low=1.0, high=2.0, node_label="simother")
    if k == "add_parameter":
        if bad == 1:
            return m.add_parameter("sample_parameters", 3.0)
        if bad == 2:
            return m.add_parameter("sim_new", other.set_seed)
        if bad == 3:
            return m.add_parameter("t0", 3.0)
        return m.add_parameter("sim_new", other)
    if k == "set_parameter":
        if bad == 1:
            return m.set_parameter("sim_unknown", 3.0)
        if bad == 2:
            return m.set_parameter("t0", other.set_seed)
        if bad == 3:
            return m.set_parameter("t0", m)
        return m.set_parameter("t0", other)
    if k == "set_label_param":
        if bad:
            return m.set_parameter("ra", GivenParamless())
        return m.set_parameter("ra", 151.25)
    if k == "add_effect":
        return m.add_effect(TwoParamEffect.make(bad, p.chance(0.5) and not ops.isband(W.spec)))
    if k == "filter_rows":
        if bad == 1:
            return sv.filter_rows(np.ones(n + 1, dtype=bool))
        if bad == 2:
            return sv.filter_rows(np.array([0, n + 3]))
        if bad == 3:
            return sv.filter_rows(np.array(["a", "b"]))
        keep = W.ctx.own("rows", np.array([p.chance(0.6) or j == 0 for j in range(n)]))
        return sv.filter_rows(keep) and None
    if k == "add_column":
        if bad == 1:
            return sv.add_column("time", np.zeros(n))
        if bad == 2:
            return sv.add_column("sim_col", np.zeros(n + 2))
        if bad == 3:
            return sv.add_column("time", np.zeros(n + 2), overwrite=True)
        return sv.add_column("sim_col", W.ctx.own("column", np.arange(n) * 1.5))
    if k == "radius":
        sv.radius = {1: -1.0, 2: 0, 3: "x"}.get(bad, 2.25)
        return None
    if k == "footprint":
        return sv.clear_detector_footprint()
    if k == "pb_process":
        pb = list(W.passbands)[p.int(0, 2)]
        if bad:
            return pb.process_transmission_table(*{1: (20.0, 0.7), 2: (1e7, 0.001), 3: (20.0, -1)}[bad])
        return pb.process_transmission_table(20.0, 0.01)
    if k == "group_process":
        if bad:
            return W.passbands.process_transmission_tables(*{1: (20.0, 0.7), 2: (1550.0, 0.001), 3: (1e7, None)}[bad])
        return W.passbands.process_transmission_tables(20.0, 0.01)
    if k == "add_passband":
        if bad:
            return W.passbands.add_passband({1: None, 2: "g", 3: np.zeros((3, 2))}[bad])
        return W.passbands.add_passband(zoo.passband(5, "g", survey="OTHER"))
    if k == "set_seed":
        nodes = [x for _, x in W.ctx.nodes if hasattr(x, "set_seed")]
        if not nodes:
            return None
        return nodes[p.int(0, len(nodes) - 1)].set_seed({1: "x", 2: -5, 3: 1.5}.get(bad, 77))
    if k == "make_group":
        pbs = W.ctx.own("passband list", list(W.passbands))
        return PassbandGroup(pbs, filters=W.ctx.own("filters", ["g", "zz"] if bad else ["g", "r"])) and None
    if k == "make_multi":
        kw = {"ra": m.ra, "dec": m.dec, "t0": m.t0, "redshift": m.redshift}
        objs = [m, m] if bad == 1 else [m, "x"] if bad == 2 else [m]
        return AdditiveMultiObjectModel(objs, weights=W.ctx.own("weights", [1.0, 2.0, 3.0] if bad else [2.0]), **kw) and None
    if k == "make_random":
        kw = {"ra": m.ra, "dec": m.dec, "t0": m.t0, "redshift": m.redshift}
        return RandomMultiObjectModel([m], weights=W.ctx.own("weights", np.array([3.0, 1.0] if bad else [4.0])), object_names=["only"], **kw) and None
    if k == "make_survey":
        t = {"ra": np.array([1.0, 2.0]), "dec": np.array([0.0, 1.0]), "time": np.array([3.0, 4.0]), "filter": np.array(["g", "r"])}
        if bad == 1:
            del t["time"]
        zp = {"g": 1.0} if bad == 2 else {"g": 1.0, "r": 2.0}
        t, zp = W.ctx.own("table", t), W.ctx.own("zp", zp)
        if bad == 3:
            return OpSim(sv._table, radius=-3) and None
        return FakeObsTable(t, zp_per_band=zp, fwhm_px=W.ctx.own("fwhm", {"g": 2.0, "r": 3.0}), sky=0.5, radius=1.0) and None
    if k == "make_template":
        base = W.ctx.own("baseline", {"g": 1.0, "r": 2.0, "i": 3.0} if bad != 1 else {"g": 1.0})
        t = np.linspace(0.0, 10.0, 6)
        lc = {b: np.column_stack([t, 20.0 + np.sin(t)]) for b in "gri"}
        if bad == 2:
            lc["g"] = np.zeros((4, 3))
        lc = W.ctx.own("light curves", lc)
        d = LightcurveData(lc, 0.0, baseline=base, magnitudes_in=True, periodic=False)
        return LightcurveTemplateModel(d, W.passbands if bad != 3 else None, lc_data_t0=0.0, t0=5.0) and None
    if k == "make_node":
        if bad:
            return FunctionNode(zoo.affine, node_label="simfn", x=other, scale=2.0, shift={1: other.set_seed, 2: m.sample_parameters, 3: other.set_seed}[bad]) and None
        return FunctionNode(zoo.affine, node_label="simfn", x=m.t0, scale=2.0, shift=1.0) and None
    if k == "make_effect_model":
        v = W.ctx.own("values", [1.0, 2.0])
        w = W.ctx.own("weights", [1, 2, 3] if bad else [1, 3])
        return GivenValueSampler(v, weights=w) and None
    if k == "make_state":
        st = GraphState(3)
        d = W.ctx.own("state dict", {"a": {"x": np.arange(3.0), "y": np.arange(3 + (bad == 1)) * 1.0}, "b.z" if bad == 2 else "b": {"z": [1.0, 2.0, 3.0]}})
        st.update(d)
        return [st, GraphState.from_list([st.extract_single_sample(j) for j in range(3)] + (["x"] if bad == 3 else []))]
    if k == "make_passband":
        w = np.arange(400.0, 420.0, 1.0 + p.int(0, 2))
        if p.chance(0.3):
            w[3] = w[2]
        if bad == 1:
            w = w[::-1].copy()
        t = W.ctx.own("transmission", np.column_stack([w, 0.2 + np.exp(-(((w - 410.0) / 5.0) ** 2))]))
        pb = Passband(t, "OWN", "q", units="furlong" if bad == 2 else p.choice(["nm", "nm", "A"]), trim_quantile=0.7 if bad == 3 else p.choice([None, 0.01]),
                      delta_wave=p.choice([None, 1.0, 5.0]) if not bad else 1.0)
        return [pb.fluxes_to_bandflux(np.ones((1, len(pb.waves)))), pb.waves]
    if k == "make_table_node":
        d = {"x": np.arange(4.0), "y": np.arange(4.0) ** 2 if bad != 1 else np.arange(3.0)}
        form = p.int(0, 2)
        d = W.ctx.own("table", d if form == 0 or bad == 1 else Table(d) if form == 1 else pd.DataFrame(d))
        node = TableSampler(d if bad != 2 else [1, 2], in_order=p.chance(0.5))
        return node.generate(num_samples=9 if bad == 3 else 3, rng_info=np.random.default_rng(1))
    if k in ("make_opsim", "make_ztf"):
        n = 4
        base = {"ra": np.arange(n) * 1.0, "dec": np.arange(n) * 0.5, "filter": np.array(["g", "r", "g", "r"])}
        if k == "make_opsim":
            t = {"observationStartMJD": np.arange(n) + 1.0, "fieldRA": base["ra"], "fieldDec": base["dec"], "airmass": np.full(n, 1.2), "filter": base["filter"],
                 "visitExposureTime": np.full(n, 30.0), "numExposures": np.full(n, 1), "seeingFwhmEff": np.full(n, 0.9), "skyBrightness": np.full(n, 20.5)}
            drop = {1: "airmass", 2: "fieldRA", 3: "filter"}
        else:
            t = {**base, "obsdate": ["2018-03-25 06:04:40.000"] * n, "maglim": np.full(n, 20.0), "scibckgnd": np.full(n, 150.0), "fwhm": np.array([1.5, 2.0, np.nan, 1.0]),
                 "exptime": np.full(n, 30.0)}
            drop = {1: "maglim", 2: "ra", 3: "exptime"}
        if bad:
            del t[drop[bad]]
        t = W.ctx.own("table", t if p.chance(0.5) else pd.DataFrame(t))
        cm = W.ctx.own("colmap", dict((OpSim if k == "make_opsim" else ZTFObsTable)._default_colnames)) if p.chance(0.5) else None
        o = (OpSim if k == "make_opsim" else ZTFObsTable)(t, colmap=cm)
        o.add_column("extra", 1.0)
        o.filter_rows([0, 2])
        return [o.bandflux_error_point_source(W.ctx.own("fluxes", np.array([5.0, 6.0])), np.array([0, 1]))]
    if k == "make_dist":
        x, y = W.ctx.own("xs", np.array([0.0, 1.0, 2.0, 4.0])), W.ctx.own("ys", np.array([1.0, 2.0, 3.0, 0.5]) * (-1 if bad == 2 else 1))
        if bad == 1:
            y = y[:2]
        if bad == 3:
            x = x[::-1]
        node = DistributionSampler(x, y) if p.chance(0.5) else GivenValueSampler(x, weights=y)
        return node.generate(num_samples=3, rng_info=np.random.default_rng(2))
    if k == "use_arrays":
        a = W.ctx.own("fluxes", np.array([1.0, 2.0, 0.5]))
        e = W.ctx.own("errors", np.array([0.1, 0.0, 0.2]) * (-1 if bad == 1 else 1))
        w = W.ctx.own("waves", np.array([4000.0, 5000.0, 6000.0]))
        out = [apply_noise(a, e, rng=np.random.default_rng(3)), mag2flux(a), flux2mag(a), get_time_windows(a, (1.0,) if bad == 2 else W.ctx.own("offsets", (1.0, None)))]
        m2 = W.ctx.own("matrix", np.array([[1.0, 2.0, 3.0], [2.0, 1.0, 4.0]]))
        g = W.passbands
        f = W.ctx.own("spectra", np.ones((2, len(g.waves) - (bad == 3))))
        return out + [g.fluxes_to_bandfluxes(f), FlatEx().apply(m2, wavelengths=w)]
    raise KeyError(k)


def FlatEx():
    from lightcurvelynx.effects.extinction import ExtinctionEffect

    class E:
        def apply(self, m, wavelengths):
            return ExtinctionEffect("F99", ebv=0.1, frame="rest").apply(m, wavelengths=wavelengths, ebv=0.1)

    return E()


class GivenParamless:
    """Not a parameter value: every attribute access of it fails."""

    def __array__(self, *a, **k):
        raise inject.SimFault("not a value")

    def __call__(self):
        raise inject.SimFault("not a value")

    def __dir__(self):
        raise inject.SimFault("no directory")


def gen_order(p):
    n = p.int(1, 9)
    return {"part": "order", "cls": p.choice(["list", "table", "model", "survey"]), "len": n, "requests": [p.choice([1, 1, 2, 3, 4, n, n + 1, 12, 0]) for _ in range(p.int(2, 9))]}


class Ordered:
    """One in-order sampler, asked directly or through a model parameter."""

    def __init__(self, scn):
        from lightcurvelynx.math_nodes.given_sampler import GivenValueList, TableSampler
        from lightcurvelynx.math_nodes.ra_dec_sampler import ObsTableRADECSampler
        from lightcurvelynx.models.basic_models import ConstantSEDModel
        from lightcurvelynx.obstable.fake_obs_table import FakeObsTable

        k, n = scn["cls"], scn["len"]
        self.values = np.arange(n) * 1.5 + 0.25
        if k == "list":
            self.node = GivenValueList(self.values)
            self.ask = lambda m: self.node.generate(num_samples=m)
        elif k == "table":
            self.node = TableSampler({"x": self.values, "y": self.values * 2}, in_order=True)
            self.ask = lambda m: self.node.generate(num_samples=m, rng_info=np.random.default_rng(1))[0]
        elif k == "survey":
            t = FakeObsTable({"ra": self.values, "dec": self.values * 0, "time": self.values, "filter": ["g"] * n}, zp_per_band={"g": 1.0}, const_flux_error={"g": 1.0}, radius=0.5)
            self.node = ObsTableRADECSampler(t, radius=0.0, in_order=True)
            self.ask = lambda m: self.node.generate(num_samples=m, rng_info=np.random.default_rng(1))[0]
        else:
            self.node = GivenValueList(self.values)
            model = ConstantSEDModel(brightness=self.node, t0=0.0, ra=1.0, dec=2.0, redshift=0.0, node_label="m")
            self.ask = lambda m: model.sample_parameters(num_samples=m, rng_info=np.random.default_rng(1))["m"]["brightness"]

    def reset(self):
        self.node.reset()


class P03(CheckBase):
    ID = "P03"
    RULE = ("a run is non-trivial when a fault was really injected into a call (or a call was really rejected) and at least one later "
            "call on the same objects succeeded and was compared")
    MEASURE = "distinct (part, operation, fault kind, package source line of the fault) combinations"
    REAL = ["lightcurvelynx: models, samplers, effects, passbands, survey tables, simulation", "numpy, scipy, pandas, sncosmo, mocpy"]
    STUB = ["fault injection through trace/profile events, a failing Generator subclass and failing user callbacks",
            "redback (stand-in source)", "salt2 and bayesn models are left out (JAX compilation dominates)"]
    ASSUMPTIONS = ["one fault per call; read-type calls are cut at any package line, call, draw or callback; configuration calls at any call "
                   "they make; time spent inside third-party code is one instant"]
    PROBES = ["fault-line", "fault-call", "fault-rng", "fault-user", "first-use", "rejected", "config-fault-before",
              "retry-after-reject"]
    RUNS = {"quick": 1500, "thorough": 40000}

    def warm(self):
        warmup.full()

    # ------------------------------------------------------------------------------------------------
    def generate(self, p, i, tier):
        kinds = [k for k in zoo.SED_KINDS + zoo.BAND_KINDS + zoo.MULTI_KINDS if k not in NOT_HERE] + ["sncosmo", "additive", "random", "callback", "redback"]
        w = zoo.gen_world(p.sub("w"), {"kinds": kinds, "sources": [s for s in zoo.SOURCES if s != "mathj"], "no_random": NOT_HERE}, surveys=p.int(1, 2))
        for s in w["surveys"]:
            s["n"] = min(s["n"], 12)
        q = p.sub("ops")
        if p.chance(0.08):
            return gen_order(p.sub("order"))
        follow = [ops.gen_op(q, w, READ) for _ in range(q.int(1, 2))]
        if p.chance(0.6):
            kind = p.wchoice([("line", 5), ("call", 4), ("rng", 2), ("user", 2)])
            f = {"kind": kind, "exc": p.choice(["kbd", "mem", "os", "user"] if kind != "line" else ["kbd", "mem"]),
                 "where": p.choice(["early", "uniform", "store", "store", "late"]), "seed": p.seed32()}
            return {"part": "read", "world": w, "prior": [ops.gen_op(q, w, READ)] if p.chance(0.4) else [], "op": ops.gen_op(q, w, READ),
                    "follow": follow, "fault": f}
        c = {"k": p.choice(CONFIG), "seed": p.seed32()}
        f = None
        if p.chance(0.5):
            f = {"kind": "call", "exc": p.choice(["kbd", "mem"]), "where": p.choice(["uniform", "store", "late"]), "seed": p.seed32()}
        return {"part": "config", "world": w, "prior": [ops.gen_op(q, w, READ)] if p.chance(0.5) else [], "config": c, "bad": p.int(1, 3),
                "follow": [{"k": "sample", "n": 2, "seed": p.seed32()}] + follow, "fault": f}

    # ------------------------------------------------------------------------------------------------
    def ops(self, W, lst, rngs=None):
        return [Outcome.of(lambda op=op: ops.run_op(W, op)) for op in lst]

    def compare(self, what, lst, want, got, tag):
        for op, a, b in zip(lst, want, got):
            d = a.diff(b)
            if d:
                raise Violation("not-unharmed", f"{what}: later call {op}: undisturbed vs disturbed: {d}", f"not-unharmed:{tag}:{op['k']}")

    def inputs(self, W, what):
        c = W.ctx.changed_input()
        if c:
            raise Violation("input-changed", f"{what}: caller's {c}", "input-changed:" + c.split(":")[0])

    def execute(self, scn, run):
        entropy.install(5)
        {"read": self.read, "config": self.config, "order": self.order}[scn["part"]](scn, run)

    def order(self, scn, run):
        """In-order samplers: a rejected request (more samples than are left) takes nothing from the list."""
        src = Ordered(scn)
        pos = 0
        for j, n in enumerate(scn["requests"]):
            if n == 0:
                src.reset()
                pos = 0
                continue
            out = Outcome.of(lambda: src.ask(n))
            run.event("order", n, out.exc)
            run.ops += 1
            if pos + n > scn["len"]:
                run.fault("rejected-request")
                run.probe("rejected")
                run.state("order", scn["cls"], pos, n, scn["len"])
                if out.exc is None:
                    raise Violation("overdrawn", f"{scn['cls']} of {scn['len']} values at position {pos} delivered {n}: {out.value}", "overdrawn:" + scn["cls"])
                run.nontrivial = True
                continue
            want = [float(v) for v in src.values[pos : pos + n]]
            pos += n
            if out.exc is not None or diff(want, [float(v) for v in np.atleast_1d(out.value)]):
                raise Violation("not-unharmed", f"{scn['cls']}: requests {scn['requests'][: j + 1]} of {scn['len']} values: the last one gave {out.exc or out.value}, expected {want}",
                                "not-unharmed:order:" + scn["cls"])

    def read(self, scn, run):
        op, f = scn["op"], scn["fault"]
        lst = [op] + scn["follow"]
        W0 = zoo.World(scn["world"])
        self.inputs(W0, "building the world")
        self.ops(W0, scn["prior"])
        want = self.ops(W0, lst)
        self.inputs(W0, f"completed calls {[o['k'] for o in scn['prior'] + lst]}")
        at = f.get("at")
        if at is None:
            W1 = zoo.World(scn["world"])
            self.ops(W1, scn["prior"])
            inst = inject.Instants(f["kind"])
            inst.run(lambda: ops.run_op(W1, op, rng=inject.generator(op["seed"], inst if f["kind"] == "rng" else None)))
            at = inject.pick(Prng("instant", f["seed"]), inst, f["where"])
        if at is None:
            return
        run.refined = {**scn, "fault": {**f, "at": at}}
        W2 = zoo.World(scn["world"])
        self.ops(W2, scn["prior"])
        state = None
        if op["k"] in ("sed", "band") and op.get("v") == 3:
            state = W2.model.sample_parameters(num_samples=op["n"], rng_info=np.random.default_rng(op["seed"]))
            frozen = freeze(state)
        inst = inject.Instants(f["kind"], at, f["exc"])
        _, exc = inst.run(lambda: ops.run_op(W2, op, state, rng=inject.generator(op["seed"], inst if f["kind"] == "rng" else None)))
        run.event(scn["part"], op["k"], f["kind"], at, inst.fired, type(exc).__name__)
        if inst.fired is None:
            return
        run.fault(f"{f['kind']}-{f['exc']}")
        run.probe("fault-" + f["kind"])
        run.probe("first-use", int(not scn["prior"]))
        run.state("read", op["k"], f["kind"], inst.fired)
        what = f"{op} cut short by {f['exc']} at {inst.fired}"
        if state is not None:
            d = diff(frozen, state)
            if d:
                raise Violation("input-changed", f"{what}: the given parameter state: {d}", "input-changed:state")
        got = self.ops(W2, lst)
        self.compare(what, lst, want, got, f["kind"])
        self.inputs(W2, what)
        run.ops += 3 * len(lst)
        run.nontrivial = any(o.exc is None for o in got)

    # ------------------------------------------------------------------------------------------------
    def probes(self, W, lst):
        """Behaviour of everything a configuration call may touch."""
        out = self.ops(W, lst)
        out.append(Outcome.of(lambda: self.shape(W)))
        return out

    def shape(self, W):
        m = W.model
        st = m.sample_parameters(num_samples=1, rng_info=np.random.default_rng(9))
        g = W.passbands
        f = np.sin(np.arange(2 * len(g.waves)).reshape(2, -1) * 0.01) + 2.0
        return {"params": m.list_params(), "effects": [str(e) for e in m.list_effects()], "names": st.get_all_params_names(), "waves": g.waves,
                "filters": list(g.filters), "flux": [g.fluxes_to_bandflux(f, n) for n in [p.full_name for p in g]],
                "own": [p.fluxes_to_bandflux(np.ones((1, len(p.waves)))) for p in g],
                "surveys": [[s.radius, list(s.columns), len(s), s.range_search(150.0, -10.0, radius=2.0), s["time"].to_numpy()] for s in W.surveys],
                "tree": sorted(m.build_pytree(st))}

    def config(self, scn, run):
        c, f = dict(scn["config"]), scn["fault"]
        lst = scn["follow"]
        names = lst + [{"k": "shape"}]

        def world():
            W = zoo.World(scn["world"])
            self.ops(W, scn["prior"])
            return W

        W = world()
        untouched = self.probes(W, lst)
        W = world()
        good = Outcome.of(lambda: configure(W, dict(c), 0))
        self.inputs(W, f"completed call {c['k']}")
        if good.exc is not None:
            # the corrected call is not available on this object (e.g. an effect a composite cannot take)
            run.probe("config-unavailable")
            return
        done = self.probes(W, lst)
        self.inputs(W, f"calls after {c['k']}")
        run.event("config", c["k"], scn["bad"], good.exc)
        if f is None:
            W = world()
            rej = Outcome.of(lambda: configure(W, dict(c), scn["bad"]))
            if rej.exc is None:
                run.probe("not-rejected")
                return
            run.probe("rejected")
            run.fault("rejected-" + c["k"])
            run.state("reject", c["k"], scn["bad"], rej.exc.split("@")[0][:60])
            what = f"rejected call {c['k']} (form {scn['bad']}: {rej.exc[:160]})"
            self.inputs(W, what)
            self.compare(what, names, untouched, self.probes(W, lst), "reject:" + c["k"])
            W = world()
            Outcome.of(lambda: configure(W, dict(c), scn["bad"]))
            again = Outcome.of(lambda: configure(W, dict(c), 0))
            if again.exc is not None:
                raise Violation("retry-fails", f"{what}: the corrected call then fails: {again.exc}", "retry-fails:" + c["k"])
            self.compare(what + " and corrected", names, done, self.probes(W, lst), "retry:" + c["k"])
            run.probe("retry-after-reject")
            run.nontrivial = True
            return
        at = f.get("at")
        if at is None:
            W = world()
            inst = inject.Instants("call")
            inst.run(lambda: configure(W, dict(c), 0))
            at = inject.pick(Prng("instant", f["seed"]), inst, f["where"])
        if at is None:
            return
        run.refined = {**scn, "fault": {**f, "at": at}}
        W = world()
        inst = inject.Instants("call", at, f["exc"])
        _, exc = inst.run(lambda: configure(W, dict(c), 0))
        run.event(at, inst.fired, type(exc).__name__)
        if inst.fired is None or exc is None:
            return
        run.fault("config-" + f["exc"])
        run.state("config", c["k"], inst.fired)
        what = f"call {c['k']} cut short by {f['exc']} at {inst.fired}"
        self.inputs(W, what)
        got = self.probes(W, lst)
        same = all(a.diff(b) is None for a, b in zip(untouched, got))
        after = all(a.diff(b) is None for a, b in zip(done, got))
        if not same and not after:
            self.compare(what, names, untouched, got, "fault:" + c["k"])
        run.probe("config-fault-before" if same else "config-fault-after")
        if same:
            W = world()
            inst = inject.Instants("call", at, f["exc"])
            inst.run(lambda: configure(W, dict(c), 0))
            again = Outcome.of(lambda: configure(W, dict(c), 0))
            if again.exc is not None:
                raise Violation("retry-fails", f"{what}: the same call then fails: {again.exc}", "retry-fails:" + c["k"])
            self.compare(what + " and repeated", names, done, self.probes(W, lst), "repeat:" + c["k"])
        run.ops += 3 * len(lst)
        run.nontrivial = True

    def shrink(self, scn):
        if scn["part"] == "order":
            for j in range(len(scn["requests"])):
                if len(scn["requests"]) > 1:
                    yield {**scn, "requests": scn["requests"][:j] + scn["requests"][j + 1 :]}
            return
        if scn["prior"]:
            yield {**scn, "prior": []}
        for j in range(len(scn["follow"])):
            if len(scn["follow"]) > 1 or scn["part"] == "read":
                c = copy.deepcopy(scn)
                del c["follow"][j]
                yield c
        for w in zoo.shrink_world(scn["world"]):
            yield {**scn, "world": w}
        f = scn["fault"]
        if f and f.get("at"):
            for a in (1, f["at"] // 2, f["at"] - 1):
                if 0 < a < f["at"]:
                    yield {**scn, "fault": {**f, "at": a}}
        if scn["part"] == "read" and scn["op"].get("n", 1) > 1:
            yield {**scn, "op": {**scn["op"], "n": 1}}


CHECK = P03()
