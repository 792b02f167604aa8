"""P19: a flux is what the model's own spectrum function and the configured steps make of it, however it is asked for.

One run builds a model (a leaf, a composite, a composite of composites) and executes a seeded history of configuration steps
(effects added to the model or to one of its members, some rejected, some cut short by a fault in the middle; redshift handling
switched) and evaluations (some interrupted). A reference description of the model tree is kept beside it: which effects are in
force where, in which order, and whether redshift applies. Every evaluation is asked for in several seeded pieces and forms, and
every number of every answer is compared with the value composed from the leaf's own spectrum function alone."""
import copy

import numpy as np

from sim import entropy, inject, warmup, zoo
from sim.core import Outcome, Prng, Violation
from sim.runner import CheckBase

LEAVES = [k for k in zoo.SED_KINDS if k not in ("salt2", "bayesn", "agn")] + ["ranged", "ranged", "linwave"]
TIMES = np.array([-12.0, 5.0, 18.25, 25.0, 25.0 + 1e-9, 33.0, 41.5, 52.0, 60.0, 77.0, 140.0])
WHOLE = np.array([-12.0, 5.0, 18.0, 25.0, 33.0, 41.0, 52.0, 60.0, 77.0, 140.0])
WAVES = np.array([2600.0, 3000.0, 3500.0, 4100.5, 4800.0, 5600.0, 6200.0, 7000.0, 7600.0, 8400.0, 9000.0, 10500.0])


def ranged_class():
    from lightcurvelynx.models.physical_model import SEDModel

    class RangedSED(SEDModel):
        """A user model that is defined on a range of wavelengths and takes an evaluation argument of its own."""

        def __init__(self, amp, lo, hi, **kwargs):
            super().__init__(**kwargs)
            self.add_parameter("amp", amp)
            self.lo, self.hi = lo, hi

        def minwave(self, graph_state=None):
            return self.lo

        def maxwave(self, graph_state=None):
            return self.hi

        def compute_sed(self, times, wavelengths, graph_state, gain=1.0, **kwargs):
            zoo._user()
            a = self.get_param(graph_state, "amp")
            if (self.lo is not None and np.min(wavelengths) < self.lo) or (self.hi is not None and np.max(wavelengths) > self.hi):
                raise ValueError("asked outside the declared range")
            return gain * a * (2.0 + np.sin(np.asarray(times)[:, None] / 9.0) + 1e-4 * np.asarray(wavelengths)[None, :])

    return RangedSED


def affine_effect(tag, gain, off, rest, bad=0):
    from lightcurvelynx.effects.effect_model import EffectModel

    class Affine(EffectModel):
        """Order matters: the flux is scaled, then shifted."""

        def __init__(self):
            super().__init__(rest_frame=rest)
            self.add_effect_parameter("gain" + tag, gain)
            if bad == 1:
                self.add_effect_parameter("sample_parameters", 2.0)
            elif bad == 2:
                self.add_effect_parameter("list_params", 2.0)
            elif bad:
                self.add_effect_parameter(bad, 2.0)
            self.add_effect_parameter("off" + tag, off)

        def apply(self, flux_density, times=None, wavelengths=None, rng_info=None, **kwargs):
            return flux_density * kwargs["gain" + tag] + kwargs["off" + tag]

        def apply_bandflux(self, bandfluxes, *, times=None, filters=None, rng_info=None, **kwargs):
            return bandfluxes * kwargs["gain" + tag] + kwargs["off" + tag]

    return Affine()


class Ref:
    """One model of the tree and what is known to be configured on it."""

    def __init__(self, m, spec, kids=(), weights=None):
        self.m, self.spec, self.kids, self.weights = m, spec, list(kids), weights
        self.rest, self.obs = [], []
        self.kind = spec["kind"]
        self.band = self.kind in zoo.BAND_KINDS
        self.apply = bool(spec.get("z")) and not self.band and self.kind != "redback"
        self.hasz = self.apply

    def leaves(self):
        return [self] if not self.kids else [x for k in self.kids for x in k.leaves()]

    def anyband(self):
        return any(x.band for x in self.leaves())

    def add(self, eff):
        if self.band:
            self.obs.append(eff)
        elif self.kids and eff.rest_frame:
            for k in self.kids:
                k.add(eff)
        else:
            (self.rest if eff.rest_frame else self.obs).append(eff)

    def switch(self, on):
        for x in self.leaves():
            x.apply = on

    def chosen(self, s):
        name = str(self.m.get_param(s, "selected_object"))
        if name.startswith("obj") and name[3:].isdigit():
            return self.kids[int(name[3:])]
        return [k for k in self.kids if k.m is self.m.object_map[name]][0]

    def sed(self, s, t, w, gain=None):
        if self.kind == "additive":
            f = sum(wt * k.sed(s, t, w, gain) for wt, k in zip(self.weights, self.kids, strict=True))
        elif self.kind == "random":
            f = self.chosen(s).sed(s, t, w, gain)
        else:
            z = self.m.get_param(s, "redshift") if self.apply else None
            rt, rw = t, w
            if z:
                t0 = self.m.get_param(s, "t0")
                rt, rw = (t - t0) / (1.0 + z) + t0, w / (1.0 + z)
            f = self.spectrum(s, rt, rw, gain)
            for e in self.rest:
                f = e.apply(f, times=rt, wavelengths=rw, **self.m.get_local_params(s))
            if z:
                f = f * (1.0 + z)
        for e in self.obs:
            f = e.apply(f, times=t, wavelengths=w, **self.m.get_local_params(s))
        return f

    def spectrum(self, s, t, w, gain):
        """The leaf's own function inside its range, the declared extrapolation outside."""
        kw = {} if gain is None else {"gain": gain}
        lo, hi = self.m.minwave(graph_state=s), self.m.maxwave(graph_state=s)
        lo, hi = -np.inf if lo is None else lo, np.inf if hi is None else hi
        ex = self.m.wave_extrapolation
        f = np.zeros((len(t), len(w)))
        ok = (w >= lo) & (w <= hi)
        if ok.any():
            f[:, ok] = self.m.compute_sed(t, w[ok], s, **kw)
        for mask, edge in ((w < lo, lo), (w > hi, hi)):
            if mask.any() and ex is not None:
                f[:, mask] = ex(edge, self.m.compute_sed(t, np.array([edge]), s, **kw)[:, 0], w[mask])
        return f

    def bandflux(self, s, group, t, filt):
        if not self.anyband():
            f = np.empty(len(t))
            for b in sorted(set(filt.tolist())):
                k = filt == b
                f[k] = group[b].fluxes_to_bandflux(self.sed(s, t[k], group[b].waves))
            return f
        if self.kind == "additive":
            f = sum(wt * k.bandflux(s, group, t, filt) for wt, k in zip(self.weights, self.kids, strict=True))
        elif self.kind == "random":
            f = self.chosen(s).bandflux(s, group, t, filt)
        else:
            f = self.m.compute_bandflux(t, filt, s)
        for e in self.obs:
            f = e.apply_bandflux(f, times=t, filters=filt, **self.m.get_local_params(s))
        return f


def build(ctx, spec, name="m", host=None):
    """The model and its reference description. Effects are added by the history, never here."""
    from lightcurvelynx.models.multi_object_model import AdditiveMultiObjectModel, RandomMultiObjectModel
    from lightcurvelynx.utils import wave_extrapolate as we

    spec = {**spec, "effects": []}
    p = ctx.p.sub("ref", name)
    if spec["kind"] == "ranged":
        ra, dec = (host.ra, host.dec) if host is not None else zoo.position(ctx, name + ".pos", "const")
        kw = {"ra": ra, "dec": dec, "t0": zoo.source(ctx, name + ".t0", spec.get("t0", "const"), 10.0, 60.0)}
        if spec.get("z"):
            kw["redshift"] = zoo.source(ctx, name + ".z", spec["z"], 0.05, 0.6)
        lo, hi = p.choice([(4000.0, 7000.0), (None, 6200.0), (3500.0, None), (4800.0, 4800.5)])
        ex = p.choice([None, we.LastValueExtrapolation(), we.ConstantExtrapolation(2.5), we.ExponentialDecay(0.001), we.LinearDecay(800.0)])
        m = ranged_class()(zoo.source(ctx, name + ".amp", spec["src"], 1.0, 5.0), lo, hi, wave_extrapolation=ex, **kw)
        return Ref(m, spec)
    if spec["kind"] not in zoo.MULTI_KINDS:
        return Ref(zoo.model(ctx, spec, name, host=host), spec)
    kids = []
    for j, c in enumerate(spec["children"]):
        kids.append(build(ctx, c, f"{name}.{j}", host=kids[0].m if spec.get("share") and kids and not kids[0].kids else None))
    k0 = kids[0].m
    base = {"ra": k0.ra, "dec": k0.dec, "t0": k0.t0, "redshift": k0.redshift}
    ms = [k.m for k in kids]
    w = [round(p.uniform(0.3, 2.0), 3) for _ in kids]
    if spec["kind"] == "additive":
        if p.chance(0.2):
            return Ref(AdditiveMultiObjectModel(ms, **base), spec, kids, [1.0] * len(kids))
        if p.chance(0.3):
            w[p.int(0, len(w) - 1)] *= p.choice([-1.0, 0.0])
        return Ref(AdditiveMultiObjectModel(ms, weights=p.choice([list, tuple, np.array])(w), **base), spec, kids, w)
    names = None if p.chance(0.3) else [f"obj{j}" for j in range(len(kids))]
    return Ref(RandomMultiObjectModel(ms, weights=p.choice([None, w]), object_names=names, **base), spec, kids)


class P19(CheckBase):
    ID = "P19"
    RULE = ("a run is non-trivial when, after at least one completed configuration step or injected fault, an evaluation asked for in "
            "pieces was compared with the composed reference")
    MEASURE = "distinct (kinds in the model tree, configuration in force, form of the request) combinations"
    REAL = ["lightcurvelynx: models, composites, effects, extrapolation, passbands, sampling", "numpy, scipy, sncosmo, VBMicrolensing, dust_extinction"]
    STUB = ["fault injection through trace/profile events", "redback (stand-in source)",
            "salt2, bayesn (JAX compilation dominates) and AGN and white noise (they draw during evaluation) are left out"]
    ASSUMPTIONS = ["each leaf model's compute_sed / compute_bandflux and each effect's apply are taken as given (P18); their composition, "
                   "batching and configuration history is what is checked", "one fault per call"]
    PROBES = ["cut-effect", "rejected", "cut-eval", "pieces", "extrapolated", "nested", "member-config", "kwargs", "no-state", "all-members", "redshift-switched"]
    RUNS = {"quick": 1500, "thorough": 40000}

    def warm(self):
        warmup.full()

    def generate(self, p, i, tier):
        q = p.sub("model")

        def gen(depth):
            if depth < 2 and q.chance(0.45 if depth == 0 else 0.2):
                n = q.int(2, 3)
                return {"kind": q.choice(zoo.MULTI_KINDS), "children": [gen(depth + 1) for _ in range(n)], "share": q.chance(0.5)}
            kind = q.choice(LEAVES + (zoo.BAND_KINDS if q.chance(0.3) else []))
            band = kind in zoo.BAND_KINDS
            return {"kind": kind, "src": q.choice(zoo.CHEAP), "pos": q.choice(["const", "box"]), "t0": q.choice(["const", "uniform", "given", "whole"]),
                    "z": None if band else q.choice([None, "const", "uniform"]), "cosmo": q.chance(0.3)}

        spec = gen(0)
        for s in ([spec] if not spec.get("children") else spec["children"]):
            s.setdefault("z", None)
        steps = []
        for j in range(p.int(2, 7)):
            k = p.wchoice([("effect", 5), ("reject", 1.5), ("cut_effect", 2), ("redshift", 2), ("eval", 5), ("cut_eval", 1.5)])
            steps.append({"k": k, "id": j, "seed": p.seed32()})
        steps.append({"k": "eval", "id": len(steps), "seed": p.seed32()})
        return {"seed": p.seed32(), "model": spec, "steps": steps, "bands": p.choice(["tri", "gauss"])}

    # ------------------------------------------------------------------------------------------------
    def target(self, root, p):
        r = root
        while r.kids and p.chance(0.4):
            r = p.choice(r.kids)
        return r

    def new_effect(self, ctx, r, st, p, bad=0):
        """An effect the target can take, as (description, effect)."""
        band = r.anyband()
        kinds = ["affine", "affine", "dim", "lens"] + ([] if band else ["ext"])
        k = "affine" if bad else p.choice(kinds)
        rest = p.chance(0.5)
        tag = f"_h{st['id']}"
        if k == "affine":
            src = p.choice(["const", "uniform", "given"])
            return affine_effect(tag, zoo.source(ctx, "g" + tag, src, 0.5, 2.0), zoo.source(ctx, "o" + tag, src, 1.0, 9.0), rest or isinstance(bad, str), bad)
        return zoo.effect(ctx, "e" + tag, {"kind": k, "frame": "rest" if rest else "obs", "src": p.choice(["const", "uniform", "given"])})

    def execute(self, scn, run):
        entropy.install(5)
        ctx = zoo.Ctx(scn["seed"])
        root = build(ctx, scn["model"])
        group = zoo.passbands({"kind": scn["bands"]})
        self.changed = False
        self.bands = list(zoo.BANDS)
        if not root.anyband() and scn["seed"] % 3 == 0:  # a name that begins like another
            self.bands += ["gp"]
            group.add_passband(zoo.passband(3, "gp", scn["bands"]))
        self.members(root, scn, run)
        if any(k.kids for k in root.kids):
            run.probe("nested")
        for st in scn["steps"]:
            p = Prng("p19", st["seed"])
            k = st["k"]
            r = self.target(root, p)
            if k in ("effect", "reject", "cut_effect"):
                self.effect_step(ctx, root, r, st, p, run)
            elif k == "redshift":
                self.redshift_step(r, st, p, run)
            elif k == "cut_eval":
                self.cut_eval(root, group, p, run)
            else:
                self.eval_step(root, group, st, p, run)

    def members(self, root, scn, run):
        """Every member of a random composite can be selected, named or not."""
        for r in [root, *root.kids]:
            if r.kind != "random":
                continue
            st = r.m.sample_parameters(num_samples=300, rng_info=np.random.default_rng(scn["seed"]))
            seen = {id(r.chosen(s).m) for s in st}
            if len(seen) != len(r.kids):
                raise Violation("member-unreachable", f"{len(r.kids)} members, of which 300 samples reach {len(seen)}: {sorted(set(map(str, r.m.get_param(st, 'selected_object'))))}")
            run.probe("all-members")

    def effect_step(self, ctx, root, r, st, p, run):
        bad = 0
        if st["k"] == "reject":
            # A name that no model can take, or one that only a later member of the composite cannot take.
            bad = self.later_name(r, p) or p.int(1, 2)
        eff = self.new_effect(ctx, r, st, p, bad)
        if not bad and st["k"] == "cut_effect":
            inst = inject.Instants("call", st.get("at") or p.int(1, 14), p.choice(["kbd", "mem"]))
            _, exc = inst.run(lambda: r.m.add_effect(eff))
            if exc is not None:
                if inst.fired is None:
                    raise exc
                run.fault("cut-add_effect")
                run.probe("cut-effect")
                run.event("cut_effect", inst.at, inst.fired)
                self.changed = True
                if not p.chance(0.5):
                    return
                r.m.add_effect(eff)
        else:
            out = Outcome.of(lambda: r.m.add_effect(eff))
            if bad:
                if out.exc is None:
                    raise Violation("not-rejected", f"an effect with parameter { {1: 'sample_parameters', 2: 'list_params'}.get(bad, bad)} was accepted by {r.kind}")
                run.fault("rejected-add_effect")
                run.probe("rejected")
                self.changed = True
                return
            if out.exc is not None:
                raise Violation("effect-refused", f"{type(eff).__name__} on {r.kind}: {out.exc}")
        r.add(eff)
        run.event("effect", st["id"], type(eff).__name__)
        run.probe("member-config", int(r is not root))
        self.changed = True

    def later_name(self, r, p):
        """The name of a plain attribute that a later SED member has and the first member does not have."""
        if not r.kids or r.anyband() or not p.chance(0.7):
            return None
        first, last = r.leaves()[0].m, r.leaves()[-1].m
        names = sorted(a for a in vars(last) if not a.startswith("_") and not hasattr(first, a) and a not in first.setters and a not in last.setters)
        return p.choice(names) if names else None

    def redshift_step(self, r, st, p, run):
        on = p.chance(0.5)
        if on and not all(x.hasz for x in r.leaves()):
            on = False
        if r.anyband():
            out = Outcome.of(lambda: r.m.set_apply_redshift(on))
            if out.exc is None:
                raise Violation("not-rejected", f"set_apply_redshift was accepted by {r.kind} with a band-flux member")
            run.fault("rejected-redshift")
            run.probe("rejected")
        else:
            r.m.set_apply_redshift(on)
            r.switch(on)
            run.probe("redshift-switched")
        self.changed = True

    # ------------------------------------------------------------------------------------------------
    def cut_eval(self, root, group, p, run):
        inst = inject.Instants("line", p.choice([p.int(1, 60), p.int(1, 600)]), p.choice(["kbd", "mem"]))
        rng = np.random.default_rng(p.seed32())

        def call():
            if root.anyband():
                root.m.evaluate_bandfluxes(group, TIMES, np.resize(zoo.BANDS, len(TIMES)), None, rng_info=rng)
            else:
                root.m.evaluate_sed(TIMES, WAVES, None, rng_info=rng)

        _, exc = inst.run(call)
        if inst.fired is not None:
            run.fault("cut-evaluation")
            run.probe("cut-eval")
            run.event("cut_eval", inst.at, inst.fired)
            self.changed = True
        elif exc is not None:
            raise exc

    def eval_step(self, root, group, st, p, run):
        m = root.m
        n = p.choice([1, 1, 2, 3])
        grid = WHOLE if p.chance(0.4) else TIMES
        leafkinds = {x.kind for x in root.leaves()}
        kept = bool(leafkinds & set(zoo.SORTED_KINDS))
        gain = p.choice([2.0, 0.5, 3]) if "ranged" in leafkinds and "static" not in leafkinds and p.chance(0.5) else None
        state = m.sample_parameters(num_samples=n, rng_info=np.random.default_rng(p.seed32()))
        singles = [state] if n == 1 else [state.extract_single_sample(j) for j in range(n)]
        filt = np.array([p.choice(self.bands) for _ in grid])
        sed = None
        if not root.anyband():
            sed = np.array([root.sed(s, grid, WAVES, gain) for s in singles])
            run.probe("extrapolated", int(any(x.m.minwave(graph_state=singles[0]) is not None for x in root.leaves())))
            run.probe("kwargs", int(gain is not None))
        band = np.array([root.bandflux(s, group, grid, filt) for s in singles])
        run.event("eval", n, None if sed is None else sed.round(9), band.round(9))
        for _ in range(p.int(3, 5)):
            what = p.choice(["sed", "sed", "band"]) if sed is not None else "band"
            it = p.sample(range(len(grid)), p.int(1, len(grid)))
            iw = p.sample(range(len(WAVES)), p.int(1, len(WAVES)))
            if p.chance(0.3) and not kept:
                it, iw = it + it[:2], iw + iw[:1]
            if kept or p.chance(0.3):
                it, iw = sorted(it), sorted(iw)
            t, w, f = grid[it], WAVES[iw], filt[it]
            form = p.choice(["array", "list", "int", "strided"])
            if form == "list":
                t, w, f = t.tolist(), w.tolist(), f.tolist()
            elif form == "int" and grid is WHOLE:
                t = t.astype(int)
            elif form == "strided":
                t, w = np.repeat(t, 2)[::2], np.repeat(w, 2)[::2]
            got_state, ss = state, list(range(n))
            if n > 1 and p.chance(0.4):
                ss = [p.int(0, n - 1)]
                got_state = singles[ss[0]]
            run.probe("pieces")
            run.ops += 1
            if what == "sed":
                got = m.evaluate_sed(t, w, got_state, **({} if gain is None else {"gain": gain}))
                want = sed[np.ix_(ss, it, iw)]
            else:
                one = p.chance(0.2)
                if one:
                    b = f[0]
                    k = [j for j, x in enumerate(f) if x == b]
                    it = [it[j] for j in k]
                    t = [t[j] for j in k] if form == "list" else t[k]
                    got = m.evaluate_bandfluxes(group[b] if not root.anyband() else group, t, None if not root.anyband() else [b] * len(k), got_state)
                else:
                    got = m.evaluate_bandfluxes(group, t, f, got_state)
                want = band[np.ix_(ss, it)]
            self.compare(root, st, what, form, got, want[0] if len(ss) == 1 else want, it, iw)
            run.state(sorted(leafkinds), root.kind, [type(e).__name__ for x in root.leaves() for e in x.rest + x.obs], what, form, len(it) == 1, n)
        if sed is not None and p.chance(0.4):
            s = p.seed32()
            given = None
            if p.chance(0.4):
                given = {str(m): {"t0": 31.5}}
            a = m.sample_parameters(given_args=given, num_samples=1, rng_info=np.random.default_rng(s))
            got = m.evaluate_sed(grid, WAVES, given_args=given, rng_info=np.random.default_rng(s))
            self.compare(root, st, "sed without a state", "array", got, root.sed(a, grid, WAVES), list(range(len(grid))), list(range(len(WAVES))))
            run.probe("no-state")
        run.nontrivial = run.nontrivial or self.changed

    def compare(self, root, st, what, form, got, want, it, iw):
        got = np.asarray(got)
        tag = f"{what}:{root.kind}"
        if got.shape != want.shape:
            raise Violation("wrong-shape", f"step {st['id']} {what} ({form}) of {root.kind}: {got.shape}, expected {want.shape}", "wrong-shape:" + tag)
        tol = 1e-9 * (np.abs(want) + 1e-3 * np.max(np.abs(want), initial=0.0)) + 1e-300
        bad = ~(np.abs(got - want) <= tol) & ~(np.isnan(got) & np.isnan(want)) & ~(got == want)
        if bad.any():
            k = tuple(int(x) for x in np.argwhere(bad)[0])
            conf = [(x.kind, x.apply, [type(e).__name__ for e in x.rest], [type(e).__name__ for e in x.obs]) for x in [root, *root.leaves()]]
            raise Violation("not-composed", f"step {st['id']} {what} ({form}) time indices {it} wavelength indices {iw if what != 'band' else '-'}: entry {k} is {got[k]!r}, "
                            f"composed from the parts {want[k]!r}; {int(bad.sum())} of {bad.size} entries differ; configured {conf}", "not-composed:" + tag)

    def shrink(self, scn):
        for j in range(len(scn["steps"])):
            if len(scn["steps"]) > 1:
                c = copy.deepcopy(scn)
                del c["steps"][j]
                yield c
        for w in zoo.shrink_world({"model": scn["model"]}):
            yield {**scn, "model": w["model"]}


CHECK = P19()
