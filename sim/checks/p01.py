"""P01: seeded runs are reproducible and use no ambient randomness.

One run executes the same seeded program in several simulated environments that differ in everything the
result must not depend on: OS entropy, numpy/random/bilby global state, clocks, work done earlier in the
process, and (through a second interpreter) the hash seed."""
import copy

import numpy as np

from sim import entropy, hashserver, warmup, zoo
from sim.core import Outcome, Prng, Violation, diff, from_json, to_json
from sim.runner import CheckBase

HASHSEEDS = [1, 4242]
NS = [1, 2, 5, 17]
EXPENSIVE = ("bayesn", "salt2")


def waves():
    return np.linspace(3500.0, 9000.0, 12)


class P01(CheckBase):
    ID = "P01"
    RULE = ("a run is non-trivial when at least one random component was evaluated and the environments it was "
            "compared across really differed (entropy, global state, clock, history; hash seed in a second interpreter)")
    MEASURE = "distinct (mode, model kind, parameter source, position kind, effect, operation) combinations executed"
    REAL = ["all samplers, models, effects, survey tables, passbands, simulate_lightcurves", "numpy generators", "bilby", "sncosmo", "jax"]
    STUB = ["os.urandom, time.*, numpy/random/bilby global seeds (seeded simulator values)", "redback (stand-in source)"]
    ASSUMPTIONS = ["equality is judged to a relative 1e-9 (bitwise in practice)"]
    PROBES = ["mode-rng", "mode-explicit", "reseed", "hash-seed-compare", "random-survey", "os-entropy-read"]
    RUNS = {"quick": 260, "thorough": 6000}

    def warm(self):
        warmup.full()

    def prepare(self):
        self.socks, self.procs = hashserver.start(self.ID, HASHSEEDS)

    def ready(self):
        hashserver.wait(self.socks, self.procs)

    def generate(self, p, i, tier):
        mode = "explicit" if p.chance(0.35) else "rng"
        kinds = [k for k in zoo.SED_KINDS + zoo.BAND_KINDS + zoo.MULTI_KINDS if k not in EXPENSIVE]
        kinds += ["agn", "random", "additive"]
        if p.chance(0.03 if tier == "quick" else 0.05):
            kinds = list(EXPENSIVE)
        srcs = [s for s in zoo.SOURCES if s != "const"] + (["snia"] * 4 if p.chance(0.06) else []) + (["pzflow"] * 4 if p.chance(0.05) and mode == "rng" else [])
        w = zoo.gen_world(p.sub("w"), {"kinds": kinds, "sources": srcs}, surveys=p.int(1, 2))
        exp = any(k in EXPENSIVE for k in zoo.kinds_in(w["model"]))
        if exp:
            for s in w["surveys"]:
                s["n"] = 4
        ops = []
        for _ in range(p.int(2, 4)):
            n = p.choice(NS[:2] if exp else NS)
            if mode == "explicit":
                ops.append(["sample", n])
            else:
                k = p.wchoice([("sample", 3), ("sed", 2), ("sed0", 1), ("band", 2), ("band0", 1), ("sim", 4), ("draw", 0.7)])
                if k == "sample" and not exp and p.chance(0.1):
                    n = p.choice([100, 300])
                ops.append([k, n])
        if mode == "explicit":
            ops.insert(p.int(1, len(ops)), ["reseed"])
        if p.chance(0.15):
            ops.append([p.choice(["opsim", "ztf"]), p.int(1, 30)])
        amb = lambda q: {"seed": q.seed32(), "start": q.uniform(0, 4e9), "prior": q.sample(["np", "world", "same", "py"], q.int(0, 3))}  # noqa: E731
        return {"world": w, "mode": mode, "ops": ops, "rng": p.seed32(),
                "amb": [amb(p.sub("amb", k)) for k in range(2)], "hash": p.int(0, len(HASHSEEDS)) if p.chance(0.7) else None}

    # ----------------------------------------------------------------------------------------------
    def remote(self, scn, amb):
        return self.program(scn, amb)[0]

    def program(self, scn, amb):
        import random

        entropy.install(amb["seed"], amb["start"])
        for k in amb["prior"]:
            if k == "np":
                np.random.random(amb["seed"] % 50 + 1)
            elif k == "py":
                random.random()
            elif k == "world":
                other = zoo.order({"seed": amb["seed"], "surveys": [{"kind": "fake", "seed": 1, "n": 5}],
                                   "model": zoo.gen_kind(Prng("prior", amb["seed"]), "step")})
                Outcome.of(lambda other=other: zoo.World(other).model.sample_parameters(num_samples=3))
            elif k == "same" and not any(x in EXPENSIVE for x in zoo.kinds_in(scn["world"]["model"])):
                w2 = zoo.World(scn["world"], "ambient")
                Outcome.of(lambda w2=w2: w2.model.sample_parameters(num_samples=2, rng_info=np.random.default_rng(amb["seed"])))
                Outcome.of(lambda w2=w2: w2.model.evaluate_sed(np.array([20.0]), waves(), rng_info=np.random.default_rng(1)))
        W = zoo.World(scn["world"], "explicit" if scn["mode"] == "explicit" else "ambient")
        before = entropy.AMB.os_reads
        rng = np.random.default_rng(scn["rng"]) if scn["mode"] == "rng" else None
        out = []
        for op in scn["ops"]:
            out.append(self.op(W, op, rng, scn))
        reads = entropy.AMB.os_reads - before
        entropy.uninstall()
        return [to_json({"v": o.value, "e": o.exc}) for o in out], reads, W

    def op(self, W, op, rng, scn):
        import lightcurvelynx.simulate as S
        from lightcurvelynx.obstable.opsim import create_random_opsim
        from lightcurvelynx.obstable.ztf_obstable import create_random_ztf_obs_data

        m, k = W.model, op[0]
        times = np.array([5.0, 25.0, 41.5, 60.0, 77.0])
        band = ["g", "r", "i", "g", "r"]
        isband = any(c in zoo.BAND_KINDS for c in zoo.kinds_in(scn["world"]["model"]))
        if k == "sample":
            return Outcome.of(lambda: m.sample_parameters(num_samples=op[1], rng_info=rng))
        if k in ("sed", "sed0") and not isband:
            return Outcome.of(lambda: m.evaluate_sed(
                times, waves(), m.sample_parameters(num_samples=op[1], rng_info=rng) if k == "sed" else None, rng_info=rng))
        if k in ("band", "band0", "sed", "sed0"):
            return Outcome.of(lambda: m.evaluate_bandfluxes(
                W.passbands, times, band, m.sample_parameters(num_samples=op[1], rng_info=rng) if k[-1] != "0" else None, rng_info=rng))
        if k == "sim":
            return Outcome.of(lambda: S.simulate_lightcurves(
                m, op[1], W.surveys if len(W.surveys) > 1 else W.surveys[0],
                [W.passbands] * len(W.surveys) if len(W.surveys) > 1 else W.passbands, rng=rng, obstable_save_cols=["visit"]))
        if k == "draw":
            def one():
                from lightcurvelynx.astro_utils.passbands import PassbandGroup
                from lightcurvelynx.example_runs.simulate_snia import draw_single_random_sn

                W2 = zoo.World({**scn["world"], "surveys": []})
                W2.model.node_label = "source"
                W2.model.set_graph_positions()
                group = PassbandGroup([zoo.passband(3, b, survey="LSST") for b in zoo.BANDS])
                res = draw_single_random_sn(W2.model, W.surveys[0], group, rng_info=rng)
                return {x: np.asarray(y) if x != "state" else y for x, y in res.items()}
            return Outcome.of(one)
        if k == "reseed":
            def again():
                a = m.sample_parameters(num_samples=3)
                for name, node in W.ctx.nodes:
                    if hasattr(node, "set_seed"):
                        node.set_seed(W.ctx.seed(name))
                b = m.sample_parameters(num_samples=3)
                W2 = zoo.World(scn["world"], "explicit")
                return [a, b, W2.model.sample_parameters(num_samples=3)]
            return Outcome.of(again)
        if k == "opsim":
            return Outcome.of(lambda: create_random_opsim(op[1], seed=scn["rng"])._table)
        if k == "ztf":
            return Outcome.of(lambda: create_random_ztf_obs_data(op[1], seed=scn["rng"]))
        raise KeyError(k)

    def execute(self, scn, run):
        run.probe("mode-" + scn["mode"])
        a, reads, W = self.program(scn, scn["amb"][0])
        if reads:
            run.probe("os-entropy-read", reads)
        outs = [("same process, other entropy/clock/history", self.program(scn, scn["amb"][1])[0])]
        run.fault("entropy-change")
        run.fault("global-rng-change")
        run.fault("clock-jump")
        run.fault("prior-work", len(scn["amb"][0]["prior"]) + len(scn["amb"][1]["prior"]) + 1)
        if scn["hash"] is not None:
            outs.append(("other hash seed", hashserver.ask(self.socks[scn["hash"] % len(self.socks)], scn, scn["amb"][1])))
            run.fault("hash-seed-change")
            run.probe("hash-seed-compare")
        ok = 0
        for j, op in enumerate(scn["ops"]):
            x = from_json(a[j])
            ok += x["e"] is None
            for label, o in outs:
                y = from_json(o[j])
                d = diff(x, y) if (x["e"] is None) == (y["e"] is None) else f"{x['e']} vs {y['e']}"
                if x["e"] is not None and y["e"] is not None:
                    d = None
                if d:
                    raise Violation("not-reproducible", f"{scn['mode']} mode, op {op}, {label}: {d}", f"not-reproducible:{op[0]}")
            if op[0] == "reseed" and x["e"] is None:
                run.probe("reseed")
                d = diff(x["v"][1], x["v"][2])
                if d:
                    raise Violation("reseed-does-not-restart", d)
            if op[0] in ("opsim", "ztf"):
                run.probe("random-survey")
            m = scn["world"]["model"]
            run.state(scn["mode"], m["kind"], m["src"], op[0])
            run.state(scn["mode"], m["kind"], m["pos"], op[0], x["e"] is None)
            for e in m["effects"]:
                run.state(scn["mode"], m["kind"], e["kind"], e["frame"], op[0])
        run.ops += len(scn["ops"]) * (1 + len(outs))
        run.nontrivial = ok > 0 and bool(W.ctx.nodes)
        run.event([from_json(v) for v in a])

    def shrink(self, scn):
        for j in range(len(scn["ops"])):
            if len(scn["ops"]) > 1:
                c = copy.deepcopy(scn)
                del c["ops"][j]
                yield c
        for w in zoo.shrink_world(scn["world"]):
            yield {**scn, "world": w}
        if scn["hash"] is not None:
            yield {**scn, "hash": None}
        for k in range(2):
            if scn["amb"][k]["prior"]:
                c = copy.deepcopy(scn)
                c["amb"][k]["prior"] = []
                yield c
        for j, op in enumerate(scn["ops"]):
            if len(op) > 1 and op[1] > 1:
                c = copy.deepcopy(scn)
                c["ops"][j][1] = 1
                yield c


CHECK = P01()
