"""P09: every sampled parameter set is jointly consistent.

One run builds a dependency graph of real nodes and models next to a reference description of it, and executes a
seeded history: sampling from several roots that share nodes, values given by the caller, links changed, parameters
and effects added, nodes added, sampling cut short by a failing random source. After every sampling the whole state is
compared with the reference description: links sample by sample, functions recomputed from the recorded inputs, random
draws attributed one to one to the draws the recording generator saw (or to a shadow of the component's own
generator)."""
import copy
import functools

import numpy as np

from sim import zoo
from sim.core import Run, Violation
from sim.runner import CheckBase

SHAPES = {"normal": ("loc", "scale"), "logistic": ("loc", "scale"), "laplace": ("loc", "scale"), "gumbel": ("loc", "scale"),
          "uniform": ("low", "high"), "exponential": ("scale",)}
LOC = ["normal", "logistic", "laplace", "gumbel"]
RECORDED = ["random", "uniform", "normal", "integers", "choice", "exponential", "logistic", "laplace", "gumbel", "permutation",
            "standard_normal", "beta", "shuffle", "binomial", "poisson"]
NODE_KINDS = [("val", 3), ("rand", 5), ("vec", 1), ("func", 4), ("func2", 2), ("math", 2), ("gvs", 1), ("sel", 1),
              ("table", 2), ("bin", 1), ("list", 1), ("model", 5), ("multi", 3), ("rnd", 2),
              ("dist", 0.7), ("bilby", 0.7), ("sep", 0.8), ("dmod", 0.7), ("x0", 0.7), ("hx1", 0.25), ("agn", 0.8), ("gal", 0.6), ("flow", 0.8)]
MODELS = ("model", "agn", "gal", "multi", "rnd")
AGN_OUT = ["blackhole_mass_gram", "critical_accretion_rate", "blackhole_accretion_rate", "bolometric_luminosity", "mag_i",
           "sf_inf_4000aa", "tau_4000aa", "inclination_rad"]
DRAWS = {"hx1": (0, 2), "bilby": (0, 4), "dist": (1, 1), "sep": (1, 1), "agn": (1, 1), "flow": (0, 2)}  # draws per sampling of one node
MODEL_PARAMS = ["ra", "dec", "t0", "brightness"]


class SourceFailed(RuntimeError):
    pass


class Recorder(np.random.Generator):
    """The caller's generator: every draw is recorded, and one may fail."""

    log = None
    fail_at = None
    inside = False


def _rec(name):
    real = getattr(np.random.Generator, name)

    def draw(self, *a, **k):
        if self.inside:
            return real(self, *a, **k)
        if self.fail_at is not None and len(self.log) + 1 >= self.fail_at:
            self.fail_at = None
            raise SourceFailed("random source failed")
        before = self.bit_generator.state
        self.inside = True
        try:
            out = real(self, *a, **k)
        finally:
            self.inside = False
        self.log.append({"m": name, "before": before, "out": np.copy(out), "used": False})
        return out

    draw.__name__ = name
    return draw


for _n in RECORDED:
    setattr(Recorder, _n, _rec(_n))


def recorder(seed, fail_at=None):
    g = Recorder(np.random.PCG64(seed))
    g.log, g.fail_at = [], fail_at
    return g


def mix(x, y, c=1.0):
    return c * np.sin(x) + 0.5 * np.cos(y) + 0.125 * x


def split(x, y, c=1.0):
    return c * np.sin(x + 1.0), np.cos(y) - c, np.sin(x) * np.cos(2.0 * y) + 2.0 * c


def expr(a, b):
    a, b = np.asarray(a), np.asarray(b)
    return np.sin(a) + 0.5 * b - 0.25 * a


class Flow:
    """A stand-in for a trained flow: column j is j + 1 times a draw of the row, plus the sum of its conditions."""

    def __init__(self, columns, conditions):
        self.data_columns = tuple(columns)
        self.conditional_columns = tuple(conditions) or None

    def sample(self, nsamples=1, conditions=None, seed=None):
        import pandas as pd

        if (conditions is None) != (self.conditional_columns is None):
            raise ValueError("conditions do not fit")
        n = nsamples if conditions is None else nsamples * len(conditions)
        base = np.random.default_rng(seed).random(n)
        extra = 0.0 if conditions is None else np.repeat(conditions[list(self.conditional_columns)].to_numpy(dtype=float).sum(axis=1), nsamples)
        return pd.DataFrame({c: (j + 1) * base + extra for j, c in enumerate(self.data_columns)})


class Graph:
    """The real nodes and, next to them, what the property says about them."""

    def __init__(self, run):
        self.nodes = {}   # id -> {"kind", "obj", "params": {name: src}, "outs": [...], ...}
        self.run = run

    # -- building
    def real(self, src, name):
        """The setter handed to the package for a source description."""
        if src[0] == "c":
            return src[1], {}
        if src[0] == "l":
            n = self.nodes[src[1]]
            if src[3] == "whole":
                return n["obj"], {}
            return getattr(n["obj"], src[2]), {}
        if src[0] == "f":
            c = src[1]

            def plain_fn(u, v):
                return mix(u, v, c)

            a, _ = self.real(src[2][0], "u")
            b, _ = self.real(src[2][1], "v")
            return plain_fn, {"u": a, "v": b}
        raise KeyError(src)

    def add(self, nid, spec):
        from lightcurvelynx.base_models import FunctionNode, ParameterizedNode
        from lightcurvelynx.math_nodes.basic_math_node import BasicMathNode
        from lightcurvelynx.math_nodes.given_sampler import (
            BinarySampler, GivenValueList, GivenValueSampler, GivenValueSelector, TableSampler)
        from lightcurvelynx.math_nodes.np_random import NumpyRandomFunc
        from lightcurvelynx.math_nodes.single_value_node import SingleVariableNode
        from lightcurvelynx.models.basic_models import ConstantSEDModel
        from lightcurvelynx.models.multi_object_model import AdditiveMultiObjectModel, RandomMultiObjectModel

        k = spec["kind"]
        n = {"kind": k, "params": {}, "outs": [], "spec": spec, "next": 0, "shadow": None, "children": []}
        ins = {name: self.real(src, name)[0] for name, src in spec.get("in", {}).items()}
        lab = {"node_label": spec["label"]} if spec.get("label") else {}
        seed = spec["seed"]
        if k == "val":
            n["params"] = dict(spec["in"])
            first = next(iter(spec["in"]))
            if len(ins) == 1 and not lab and spec["in"][first][0] != "f":
                n["obj"] = SingleVariableNode(first, ins[first])
            else:
                n["obj"] = ParameterizedNode(**lab)
                for name, src in spec["in"].items():
                    v, kw = self.real(src, name)
                    n["obj"].add_parameter(name, v, **kw)
        elif k in ("rand", "vec"):
            n["params"] = dict(spec["in"])
            n["obj"] = NumpyRandomFunc(spec["func"], seed=seed, **({"size": 3} if k == "vec" else {}), **ins, **lab)
            n["outs"] = ["function_node_result"]
        elif k in ("func", "func2"):
            n["params"] = dict(spec["in"])
            n["outs"] = ["function_node_result"] if k == "func" else ["p", "q", "r"]
            kw = dict(ins)
            n["obj"] = FunctionNode(mix if k == "func" else split, outputs=None if k == "func" else ["p", "q", "r"],
                                    fixed_params={"c": spec["c"]}, **lab, **kw)
        elif k == "math":
            n["params"] = dict(spec["in"])
            n["outs"] = ["function_node_result"]
            n["obj"] = BasicMathNode("sin(a) + 0.5 * b - 0.25 * a", **ins, **lab)
        elif k == "gvs":
            n["outs"] = ["function_node_result"]
            n["obj"] = GivenValueSampler(np.array(spec["values"]), seed=seed, **lab)
        elif k == "sel":
            n["outs"] = ["function_node_result"]
            idx = GivenValueSampler(len(spec["values"]), seed=seed)
            n["idx"] = idx
            n["obj"] = GivenValueSelector(np.array(spec["values"]), idx, **lab)
        elif k == "table":
            n["outs"] = ["u", "v"]
            n["obj"] = TableSampler({"u": np.array(spec["values"]), "v": np.array(spec["values"]) * 2.0 + 1.0},
                                    in_order=spec["in_order"], seed=seed, **lab)
        elif k == "flow":
            from lightcurvelynx.astro_utils.pzflow_node import PZFlowNode

            n["params"] = dict(spec["in"])
            n["outs"] = spec["cols"]
            n["obj"] = PZFlowNode(Flow(spec["cols"], list(spec["in"])), **ins, **lab)
        elif k == "bin":
            n["outs"] = ["function_node_result"]
            n["obj"] = BinarySampler(0.5, seed=seed, **lab)
        elif k == "list":
            n["outs"] = ["function_node_result"]
            n["obj"] = GivenValueList(np.array(spec["values"]), **lab)
        elif k == "model":
            kw = {}
            if spec.get("cosmo"):
                kw["cosmology"] = cosmology()
            n["params"] = dict(spec["in"])
            n["obj"] = ConstantSEDModel(**ins, **kw, **lab)
            n["cosmo"] = bool(spec.get("cosmo"))
        elif k == "agn":
            n["params"] = dict(spec["in"])
            n["outs"] = list(AGN_OUT)
            from lightcurvelynx.models.agn import AGN

            n["obj"] = AGN(cosmology=cosmology(), seed=seed, **ins, **lab)
            n["cosmo"] = True
        elif k == "gal":
            from lightcurvelynx.models.galaxy_models import GaussianGalaxy

            n["params"] = {("galaxy_radius_std" if x == "radius" else x): v for x, v in spec["in"].items()}
            n["obj"] = GaussianGalaxy(**ins, **lab)
            n["cosmo"] = False
        elif k == "dist":
            from lightcurvelynx.math_nodes.distribution_sampler import DistributionSampler

            n["outs"] = ["function_node_result"]
            n["obj"] = DistributionSampler(np.linspace(0.5, 1.5, 5), np.array([1.0, 2.0, 3.0, 2.0, 1.0]), seed=seed, **lab)
        elif k == "bilby":
            from bilby.core.prior import PriorDict, Uniform
            from lightcurvelynx.math_nodes.bilby_priors import BilbyPriorNode

            n["outs"] = ["u", "v"]
            n["obj"] = BilbyPriorNode(PriorDict({"u": Uniform(0.0, 1.0, "u"), "v": Uniform(2.0, 3.0, "v")}), seed=seed, **lab)
        elif k in ("sep", "dmod", "x0", "hx1"):
            from lightcurvelynx.astro_utils import snia_utils

            n["params"] = dict(spec["in"])
            n["outs"] = ["ra", "dec"] if k == "sep" else ["function_node_result"]
            if k == "sep":
                n["obj"] = snia_utils.SNCoordGivenPhysicalSep(seed=seed, **ins, **lab)
            elif k == "dmod":
                n["obj"] = snia_utils.DistModFromRedshift(ins["redshift"], **lab)
            elif k == "x0":
                n["obj"] = snia_utils.X0FromDistMod(**ins, **lab)
            else:
                n["obj"] = snia_utils.HostmassX1Func(ins["hostmass"], seed=seed, **lab)
        elif k in ("multi", "rnd"):
            objs = [self.nodes[c]["obj"] for c in spec["children"]]
            n["children"] = list(spec["children"])
            n["params"] = dict(spec["in"])
            if k == "multi":
                n["obj"] = AdditiveMultiObjectModel(objs, **ins, **lab)
            else:
                n["names"] = [f"object{c}" for c in spec["children"]]
                n["obj"] = RandomMultiObjectModel(objs, object_names=n["names"], **ins, **lab)
                zoo.inner_sampler(n["obj"]).set_seed(seed)
        if k in ("rand", "vec", "gvs", "bin", "table"):
            n["shadow"] = np.random.default_rng(seed)
        self.nodes[nid] = n
        return n

    # -- structure
    def deps(self, nid):
        out = []

        def walk(src):
            if src[0] == "l":
                out.append(src[1])
            elif src[0] == "f":
                for s in src[2]:
                    walk(s)

        n = self.nodes[nid]
        for src in n["params"].values():
            walk(src)
        return out + n["children"]

    def reach(self, root):
        seen, todo = [], [root]
        while todo:
            x = todo.pop()
            if x in seen:
                continue
            seen.append(x)
            todo.extend(self.deps(x))
        return sorted(seen)

    def names(self, nid):
        n = self.nodes[nid]
        return list(n["params"]) + n["outs"]

    # -- the oracle
    def expected(self, src, st, n):
        if src[0] == "c":
            return np.full(n, src[1]) if n > 1 else src[1]
        if src[0] == "l":
            return self.value(st, src[1], src[2])
        return mix(self.expected(src[2][0], st, n), self.expected(src[2][1], st, n), src[1])

    def value(self, st, nid, name):
        v = self.nodes[nid]["obj"].get_param(st, name)
        if v is None:
            raise Violation("parameter-missing", f"node {nid} ({self.nodes[nid]['obj']}) has no value for '{name}'",
                            f"parameter-missing:{self.nodes[nid]['kind']}")
        return v

    def check(self, root, st, n, given, log, advance):
        """Compare a complete sampled state with the reference description."""
        reach = self.reach(root)
        labels = {}
        for nid in reach:
            lab = str(self.nodes[nid]["obj"])
            if lab in labels:
                raise Violation("shared-label", f"nodes {labels[lab]} and {nid} are both called {lab}")
            labels[lab] = nid
        if st.num_samples != n:
            raise Violation("sample-count", f"{st.num_samples} vs {n}")
        singles = [st.extract_single_sample(i) for i in range(n)] if n > 1 else [st]
        draws = 0
        free_draws = 0
        for nid in reach:
            node = self.nodes[nid]
            kind = node["kind"]
            for name in self.names(nid):
                v = self.value(st, nid, name)
                if n > 1 and (np.ndim(v) < 1 or len(v) != n):
                    raise Violation("entry-count", f"node {nid}.{name} has shape {np.shape(v)} for {n} samples", f"entry-count:{kind}")
                if n == 1 and kind != "vec" and np.size(v) != 1 and not self.linked_vec(nid, name):
                    raise Violation("entry-count", f"node {nid}.{name} has shape {np.shape(v)} for one sample", f"entry-count:{kind}")
                for i, s in enumerate(singles):
                    x = v[i] if n > 1 else v
                    if not same(self.nodes[nid]["obj"].get_param(s, name), x):
                        raise Violation("slice-differs", f"sample {i} of node {nid}.{name}")
                if (nid, name) in given:
                    if not same(v, given[(nid, name)]):
                        raise Violation("given-value-changed", f"node {nid}.{name}: given {given[(nid, name)]!r:.80}, sampled {v!r:.80}",
                                        f"given-value-changed:{kind}")
                elif name in node["params"]:
                    want = self.expected(node["params"][name], st, n)
                    if not same(v, want):
                        raise Violation("link-differs", f"node {nid} ({node['obj']}).{name} = {v!r:.120}, its source "
                                        f"{node['params'][name][:3]} = {want!r:.120}", f"link-differs:{node['params'][name][0]}")
            free = [o for o in node["outs"] if (nid, o) not in given]
            got = {o: self.value(st, nid, o) for o in node["outs"]}
            if kind in ("func", "math"):
                if free:
                    a = [self.value(st, nid, x) for x in node["params"]]
                    want = mix(a[0], a[1], node["spec"]["c"]) if kind == "func" else expr(*a)
                    if not same(got[free[0]], want, 1e-12):
                        raise Violation("function-differs", f"node {nid} ({node['obj']}) = {got[free[0]]!r:.100}, of its inputs {want!r:.100}",
                                        f"function-differs:{kind}")
            elif kind == "func2":
                a = [self.value(st, nid, x) for x in node["params"]]
                want = dict(zip(["p", "q", "r"], split(*a, node["spec"]["c"])))
                for o in free:
                    if not same(got[o], want[o], 1e-12):
                        raise Violation("function-differs", f"node {nid}.{o} = {got[o]!r:.100}, of its inputs {want[o]!r:.100}", "function-differs:func2")
            elif kind in ("rand", "vec", "gvs", "bin", "table", "sel"):
                drawn = not (kind == "table" and node["spec"]["in_order"])
                draws += drawn
                free_draws += drawn and len(free) == len(node["outs"])
                self.check_random(nid, node, got, free, st, n, log, advance)
            elif kind == "list":
                if free:
                    want = np.array(node["spec"]["values"])[node["next"]:node["next"] + n]
                    if not same(np.atleast_1d(got[free[0]]), want):
                        raise Violation("list-out-of-order", f"node {nid}: {got[free[0]]!r:.100} vs {want!r:.100}")
                if advance:
                    node["next"] += n
            elif kind in ("model", "agn", "gal") and node["cosmo"] and (nid, "distance") not in given:
                if kind == "agn":
                    self.check_agn(nid, node, got, free, st)
                z = self.value(st, nid, "redshift")
                d = self.value(st, nid, "distance")
                want = cosmo_distance(z)
                if not same(d, want, 1e-9):
                    raise Violation("link-differs", f"node {nid} distance {d!r:.80} for redshift {z!r:.80}, expected {want!r:.80}", "link-differs:distance")
            elif kind in DRAWS and kind != "agn":
                self.check_special(nid, node, got, free, st, n)
            elif kind in ("dmod", "x0"):
                a = {x: self.value(st, nid, x) for x in node["params"]}
                if free:
                    want = distmod(a["redshift"]) if kind == "dmod" else 10.0 ** (-0.4 * (
                        a["distmod"] - a["alpha"] * a["x1"] + a["beta"] * a["c"] + a["m_abs"] - 10.635))
                    if not same(got[free[0]], want, 1e-9):
                        raise Violation("function-differs", f"node {nid} ({node['obj']}) = {got[free[0]]!r:.100}, of its inputs {want!r:.100}",
                                        f"function-differs:{kind}")
            elif kind == "rnd":
                sel = np.atleast_1d(self.value(st, nid, "selected_object"))
                if len(sel) != n or any(str(x) not in node["names"] for x in sel):
                    raise Violation("selected-object", f"{sel!r:.100} not among {node['names']}")
                draws += 1
                free_draws += 1
        for nid in reach:
            lo, hi = DRAWS.get(self.nodes[nid]["kind"], (0, 0))
            draws += hi
            free_draws += lo if not any((nid, o) in given for o in self.nodes[nid]["outs"]) else 0
        if log is not None and not free_draws <= len(log) <= draws:
            raise Violation("draw-count", f"{len(log)} draws for {draws} random components reachable from node {root} "
                            f"({free_draws} without given values): {[r['m'] for r in log]}")
        # components of a shared draw: every record explains at most one component
        self.run.probe("states-checked")
        self.run.probe("parameters-checked", sum(len(self.names(x)) for x in reach))
        return reach

    def check_special(self, nid, node, got, free, st, n):
        kind = node["kind"]
        bounds = {"dist": {"function_node_result": (0.5, 1.5)}, "bilby": {"u": (0.0, 1.0), "v": (2.0, 3.0)},
                  "hx1": {"function_node_result": (-np.inf, np.inf)}, "sep": {"ra": (0.0, 360.0), "dec": (-90.0, 90.0)}}.get(kind)
        for o in free if bounds else []:
            v = np.asarray(got[o], dtype=float)
            if not ((v >= bounds[o][0]) & (v <= bounds[o][1])).all():
                raise Violation("outside-support", f"node {nid} ({node['obj']}).{o} = {v!r:.100}", f"outside-support:{kind}")
        if kind == "flow" and free:
            extra = sum(np.asarray(self.value(st, nid, x), dtype=float) for x in node["params"])
            base = [(np.asarray(got[o], dtype=float) - extra) / (j + 1) for j, o in enumerate(node["outs"]) if o in free]
            if any(not ((b > -1e-6) & (b < 1.0 + 1e-6)).all() or not np.allclose(b, base[0], atol=1e-6) for b in base):
                raise Violation("function-differs", f"node {nid} ({node['obj']}) = {got!r:.100}, with conditions adding up to {extra!r:.100}", "function-differs:flow")
            if n > 2 and len(np.unique(base[0])) == 1:
                raise Violation("function-differs", f"node {nid}: one draw for all samples", "function-differs:flow-repeat")
        if kind == "hx1" and free:
            m = np.asarray(self.value(st, nid, "hostmass"), dtype=float)
            if (np.abs(np.atleast_1d(v)[np.atleast_1d(m) < 10.0]) > 5.0).any():
                raise Violation("function-differs", f"node {nid}: x1 {v!r:.80} for host mass {m!r:.80}", "function-differs:hx1")
        if kind == "sep" and len(free) == 2:
            from astropy.coordinates import angular_separation

            a = {x: np.asarray(self.value(st, nid, x), dtype=float) for x in node["params"]}
            r = np.radians
            d = angular_separation(r(a["host_ra"]), r(a["host_dec"]), r(np.asarray(got["ra"])), r(np.asarray(got["dec"])))
            want = a["physical_sep_kpc"] / (cosmology(73.0).angular_diameter_distance(a["redshift"]).to("kpc").value)
            if not np.allclose(d, want, rtol=1e-4, atol=1e-9):
                raise Violation("function-differs", f"node {nid}: separation {d!r:.80} rad, of its inputs {want!r:.80}", "function-differs:sep")

    def check_agn(self, nid, node, got, free, st):
        from lightcurvelynx.consts import M_SUN_G
        from lightcurvelynx.models.agn import AGN

        mass, edd = self.value(st, nid, "blackhole_mass"), self.value(st, nid, "edd_ratio")
        with np.errstate(all="ignore"):
            gram = np.asarray(got["blackhole_mass_gram"])
            want = {"blackhole_mass_gram": np.asarray(mass) * M_SUN_G,
                    "critical_accretion_rate": AGN.compute_critical_accretion_rate(gram),
                    "blackhole_accretion_rate": AGN.compute_blackhole_accretion_rate(got["critical_accretion_rate"], edd),
                    "bolometric_luminosity": AGN.compute_bolometric_luminosity(edd, gram),
                    "mag_i": AGN.compute_mag_i(got["bolometric_luminosity"]),
                    "sf_inf_4000aa": AGN.compute_sf_inf_4000aa(got["mag_i"], gram),
                    "tau_4000aa": AGN.compute_tau_4000aa(got["mag_i"], gram)}
        for o in free:
            if o in want:
                w, g = np.asarray(want[o], dtype=float), np.asarray(got[o], dtype=float)
                if not same(g / np.where(np.abs(w) > 0, np.abs(w), 1.0), w / np.where(np.abs(w) > 0, np.abs(w), 1.0), 1e-9):
                    raise Violation("function-differs", f"node {nid}.{o} = {g!r:.80}, of its inputs {w!r:.80}", f"function-differs:agn.{o}")

    def linked_vec(self, nid, name):
        src = self.nodes[nid]["params"].get(name)
        while src is not None and src[0] == "l":
            if self.nodes[src[1]]["kind"] == "vec":
                return True
            nid, name = src[1], src[2]
            src = self.nodes[nid]["params"].get(name)
        return False

    def check_random(self, nid, node, got, free, st, n, log, advance):
        kind = node["kind"]
        if kind in ("rand", "vec"):
            inputs = {x: self.value(st, nid, x) for x in node["params"]}
            size = (n, 3) if kind == "vec" else (None if n == 1 else n)
            if kind == "vec":
                inputs = {x: (np.asarray(v)[:, None] if n > 1 else v) for x, v in inputs.items()}
            out = "function_node_result"
            if log is None:
                if advance:
                    want = getattr(node["shadow"], node["spec"]["func"])(**inputs, size=size)
                    if free and not same(got[out], want):
                        raise Violation("own-stream", f"node {nid} ({node['obj']}) drew {got[out]!r:.100}, its own generator gives {want!r:.100}")
                return
            if not free:
                return
            for rec in log:
                if not rec["used"] and same(rec["out"], got[out]):
                    rec["used"] = True
                    g = np.random.Generator(np.random.PCG64())
                    g.bit_generator.state = rec["before"]
                    want = getattr(g, node["spec"]["func"])(**inputs, size=size)
                    if rec["m"] == node["spec"]["func"] and not same(got[out], want):
                        raise Violation("draw-differs", f"node {nid} ({node['obj']}) = {got[out]!r:.100}, with its sampled inputs the draw gives {want!r:.100}")
                    return
            raise Violation("draw-differs", f"node {nid} ({node['obj']}) = {got[out]!r:.100} is no draw of this sampling "
                            f"({len(log)} draws)", "value-without-draw")
        if kind in ("gvs", "sel"):
            vals = np.array(node["spec"]["values"])
            if free:
                if not np.isin(np.atleast_1d(got["function_node_result"]), vals).all():
                    raise Violation("not-a-given-value", f"node {nid}: {got['function_node_result']!r:.100}")
                if kind == "sel":
                    i = node["idx"].get_param(st, "function_node_result")
                    if i is None or not same(vals[i], got["function_node_result"]):
                        raise Violation("selector-differs", f"node {nid}: index {i!r:.60}, value {got['function_node_result']!r:.60}")
        elif kind == "table":
            if len(free) == 2 and not same(np.asarray(got["u"]) * 2.0 + 1.0, got["v"]):
                raise Violation("table-rows-mixed", f"node {nid}: u {got['u']!r:.80} v {got['v']!r:.80}")
            if node["spec"]["in_order"]:
                want = np.array(node["spec"]["values"])[node["next"]:node["next"] + n]
                if "u" in free and not same(np.atleast_1d(got["u"]), want):
                    raise Violation("list-out-of-order", f"node {nid}: {got['u']!r:.100} vs {want!r:.100}")
                if advance:
                    node["next"] += n
        elif kind == "bin" and free:
            if not np.isin(np.atleast_1d(got["function_node_result"]).astype(float), [0.0, 1.0]).all():
                raise Violation("not-a-given-value", f"node {nid}: {got['function_node_result']!r:.100}")


@functools.cache
def cosmology(h0=70.0):
    from astropy.cosmology import FlatLambdaCDM

    return FlatLambdaCDM(H0=h0, Om0=0.3)


def distmod(z):
    return cosmology(73.0).distmod(z).value


def cosmo_distance(z):
    return cosmology().luminosity_distance(z).to("pc").value


def same(a, b, rtol=0.0):
    a, b = np.asarray(a), np.asarray(b)
    if a.dtype.kind in "OUS" or b.dtype.kind in "OUS":
        return a.shape == b.shape and bool((a == b).all())
    if a.size != b.size:
        return False
    a, b = a.ravel().astype(float), b.ravel().astype(float)
    with np.errstate(all="ignore"):
        return bool(((a == b) | (np.isnan(a) & np.isnan(b)) | (np.abs(a - b) <= rtol * np.maximum(1.0, np.abs(b)))).all())


# --------------------------------------------------------------------------------------------------
class Plan:
    """Generates node specs and ops over the ids known so far (mirrors the reference graph only)."""

    def __init__(self, p):
        self.p = p
        self.kinds = {}      # id -> kind
        self.params = {}     # id -> [names that may be (re)linked]
        self.outs = {}       # id -> readable names
        self.edges = {}      # id -> {slot: set(ids)}
        self.roots = []
        self.labels = 0

    def reaches(self, a, b):
        seen, todo = set(), [a]
        while todo:
            x = todo.pop()
            if x == b:
                return True
            if x in seen:
                continue
            seen.add(x)
            for s in self.edges.get(x, {}).values():
                todo.extend(s)
        return False

    def src(self, p, name, nid=None, depth=0, frm=None):
        """A source for parameter `name` of node nid (None: being built)."""
        ids = [i for i in self.kinds if (self.outs[i]) and (nid is None or not self.reaches(i, nid))]
        r = p.random()
        if not ids or r < 0.25:
            return ["c", round(p.uniform(0.1, 2.0), 4)], set()
        if r > 0.88 and depth == 0 and frm == "any":
            a, da = self.src(p.sub("u"), "u", nid, 1)
            b, db = self.src(p.sub("v"), "v", nid, 1)
            return ["f", round(p.uniform(0.3, 1.5), 4), [a, b]], da | db
        ids = p.shuffle(ids)
        scal = [i for i in ids if self.kinds[i] != "vec"]
        if not scal:
            return ["c", round(p.uniform(0.1, 2.0), 4)], set()
        i = max(scal[:2]) if p.chance(0.5) else scal[0]
        out = p.choice(self.outs[i])
        fn = self.kinds[i] not in ("val", *MODELS)
        computed = {"func2": ["p", "q", "r"], "table": ["u", "v"], "bilby": ["u", "v"], "sep": ["ra", "dec"], "flow": self.outs[i]}.get(self.kinds[i], ["function_node_result"])
        whole = [o for o in self.outs[i] if o == name and (not fn or o in computed) or o == "function_node_result"]
        if whole and p.chance(0.5):
            return ["l", i, whole[0], "whole"], {i}
        return ["l", i, out, "getter"], {i}

    def redshift(self, p, spec, edges):
        spec["in"]["redshift"] = ["c", 0.3]
        zs = [i for i in self.kinds if self.kinds[i] in MODELS or self.kinds[i] == "rand" and i in self.pos]
        if zs and p.chance(0.8):
            i = p.choice(zs)
            o = "redshift" if self.kinds[i] in MODELS else "function_node_result"
            spec["in"]["redshift"] = ["l", i, o, "getter"]
            edges["redshift"] = {i}

    def node(self, p, nid, kind=None):
        k = kind or p.wchoice(NODE_KINDS)
        models = [i for i in self.kinds if self.kinds[i] in MODELS]
        if k in ("multi", "rnd") and len(models) < 2:
            k = "model"
        if k == "vec" and p.chance(0.5):
            k = "rand"
        spec = {"kind": k, "seed": p.seed32(), "in": {}}
        if p.chance(0.12):
            self.labels += 1
            spec["label"] = f"mine{self.labels}"
        edges = {}
        names, outs = [], []

        def inp(name, frm="any"):
            s, d = self.src(p.sub("in", name), name, frm=frm)
            spec["in"][name] = s
            edges[name] = d
            names.append(name)

        if k == "val":
            for name in p.sample(["a", "b", "p", "u", "redshift", "ra"], p.int(1, 3)):
                inp(name)
            outs = list(names)
        elif k in ("rand", "vec"):
            f = p.choice(LOC) if p.chance(0.6) else p.choice(["uniform", "exponential"])
            spec["func"] = f
            if f in LOC:
                inp("loc", None)
                spec["in"]["scale"] = ["c", round(p.uniform(0.1, 1.0), 4)]
                names[:] = ["loc"]
                outs = ["function_node_result"]
            elif f == "uniform":
                spec["in"] = {"low": ["c", 0.0], "high": ["c", round(p.uniform(1.0, 3.0), 4)]}
                outs = ["function_node_result"]
            else:
                spec["in"] = {"scale": ["c", round(p.uniform(0.5, 1.5), 4)]}
                outs = ["function_node_result"]
        elif k in ("func", "func2"):
            spec["c"] = round(p.uniform(0.3, 2.0), 4)
            inp("x", None)
            inp("y", None)
            outs = ["x", "y"] + (["function_node_result"] if k == "func" else ["p", "q", "r"])
        elif k == "math":
            inp("a", None)
            inp("b", None)
            outs = ["function_node_result", "a"]
        elif k in ("gvs", "sel"):
            spec["values"] = [round(p.uniform(0.0, 3.0), 5) for _ in range(p.int(2, 7))]
            outs = ["function_node_result"]
        elif k == "table":
            spec["in_order"] = p.chance(0.4)
            spec["values"] = [round(p.uniform(0.0, 3.0), 6) for _ in range(200 if spec["in_order"] else p.int(2, 7))]
            outs = ["u", "v"]
        elif k == "flow":
            for name in p.sample(["first", "second"], p.int(0, 2)):
                inp(name, None)
            spec["cols"] = p.choice([["u", "v"], ["v", "u"], ["u"]])
            outs = list(spec["cols"])
        elif k == "bin":
            outs = ["function_node_result"]
        elif k == "list":
            spec["values"] = [round(p.uniform(0.0, 3.0), 6) for _ in range(200)]
            outs = ["function_node_result"]
        elif k == "dist":
            outs = ["function_node_result"]
        elif k == "bilby":
            outs = ["u", "v"]
        elif k == "sep":
            inp("host_ra", None)
            if spec["in"]["host_ra"][0] == "l" and (spec["in"]["host_ra"][2] not in ("q", "p", "u", "v") or self.kinds[spec["in"]["host_ra"][1]] == "val"):
                spec["in"]["host_ra"], edges["host_ra"] = ["c", 40.0], set()  # other sources may be far outside the sky
            names.remove("host_ra")
            spec["in"]["host_dec"] = ["c", round(p.uniform(-60.0, 60.0), 3)]
            spec["in"]["physical_sep_kpc"] = ["c", round(p.uniform(1.0, 30.0), 3)]
            self.redshift(p, spec, edges)
            outs = ["ra", "dec", "host_ra"]
        elif k == "dmod":
            self.redshift(p, spec, edges)
            outs = ["function_node_result"]
        elif k == "x0":
            for name in ("distmod", "x1", "c"):
                inp(name, None)
            spec["in"].update({"alpha": ["c", 0.14], "beta": ["c", 3.1], "m_abs": ["c", -19.3]})
            outs = ["x1", "c"]
        elif k == "hx1":
            inp("hostmass", None)
            if spec["in"]["hostmass"][0] == "c":
                spec["in"]["hostmass"] = ["c", p.choice([9.0, 11.0])]
            outs = ["function_node_result"]
        elif k in MODELS:
            own = {"model": ["brightness"], "agn": ["blackhole_mass", "edd_ratio"], "gal": ["brightness", "radius"]}.get(k, [])
            for name in MODEL_PARAMS[:3] + own:
                inp(name, None)
            if "radius" in names:
                names[names.index("radius")] = "galaxy_radius_std"
                edges["galaxy_radius_std"] = edges.pop("radius")
            spec["in"].setdefault("redshift", ["c", 0.3])
            if k == "agn" or k == "model" and p.chance(0.35):
                spec["cosmo"] = True
                self.redshift(p, spec, edges)
            outs = [o for o in spec["in"] if o != "radius"] + (["distance"] if spec.get("cosmo") else []) + (["mag_i", "inclination_rad"] if k == "agn" else [])
            if k in ("multi", "rnd"):
                free = [m for m in models]
                spec["children"] = sorted(p.sample(free, p.int(2, min(3, len(free)))))
                edges["children"] = set(spec["children"])
            self.roots.append(nid)
        if k in ("rand",) and spec["func"] == "uniform":
            self.pos.add(nid)
        self.kinds[nid], self.params[nid], self.outs[nid], self.edges[nid] = k, names, outs, edges
        return spec

    pos = None


class P09(CheckBase):
    ID = "P09"
    RULE = ("a run is non-trivial when at least one sampled state of a graph with a random component and a link was compared with the "
            "reference description")
    MEASURE = "distinct (kind of node, kind of source, form of link, operation that preceded the sampling, samples) combinations checked"
    REAL = ["parameterized nodes, function nodes, samplers, models, multi-object models, effects, graph states, dependency graphs"]
    STUB = ["the caller's random generator (records every draw; one draw may fail)", "the normalizing flow behind PZFlowNode (pzflow is not installed)"]
    ASSUMPTIONS = ["functions are recomputed with numpy to a relative 1e-12; everything else must be equal bit for bit"]
    PROBES = ["relink", "add-parameter", "effect", "new-node", "given-values", "given-argument", "given-state", "fault", "own-generators", "shared-roots", "multi",
              "nested-multi", "dag"]
    RUNS = {"quick": 5000, "thorough": 120000}

    def warm(self):
        import lightcurvelynx.models.multi_object_model  # noqa: F401
        import lightcurvelynx.simulate  # noqa: F401

        from sim.runner import scenario

        cosmo_distance(0.3)
        for i in range(12):
            try:
                self.execute(scenario(self, 0, i, "quick"), Run())
            except Exception:  # noqa: BLE001
                pass

    def generate(self, p, i, tier):
        plan = Plan(p)
        plan.pos = set()
        nodes = {}
        nid = 0
        for _ in range(p.int(2, 9)):
            nodes[nid] = plan.node(p.sub("node", nid), nid)
            nid += 1
        mode = p.wchoice([("rng", 4), ("own", 1)])
        ops = []
        last = None
        for j in range(p.int(2, 9)):
            q = p.sub("op", j)
            ids = list(plan.kinds)
            pool = plan.roots * 2 + ids
            k = q.wchoice([("sample", 6), ("relink", 3), ("addp", 1), ("effect", 1.5), ("node", 1.5), ("fault", 1), ("dag", 0.7), ("pos", 0.7)])
            if j == 0:
                k = "sample"
            if k == "sample":
                root = last if last is not None and last in ids and q.chance(0.4) else q.choice(pool)
                last = root
                op = {"k": k, "root": root, "n": q.choice([1, 2, 3, 7]), "seed": q.seed32(), "given": []}
                if q.chance(0.35):
                    for _ in range(q.int(1, 3)):
                        g = q.choice(ids)
                        if plan.kinds[g] == "vec" or not plan.outs[g] + plan.params[g]:
                            continue
                        name = q.choice(plan.outs[g] + plan.params[g])
                        op["given"].append([g, name, 0.0 if plan.kinds[g] in ("val", "func", "func2", "math") and q.chance(0.2) else round(q.uniform(0.1, 1.5), 4), q.choice(["scalar", "array", "array"])])
                op["again"] = q.chance(0.15)
            elif k == "relink":
                c = [x for x in ids if plan.params[x]]
                if not c:
                    continue
                x = q.choice(c)
                name = q.choice(plan.params[x])
                s, d = plan.src(q.sub("src"), name, nid=x, frm="any" if plan.kinds[x] in ("val", *MODELS) else None)
                plan.edges[x][name] = d
                op = {"k": k, "node": x, "name": name, "src": s}
            elif k in ("addp", "effect"):
                c = [x for x in ids if plan.kinds[x] in (("val", "model", "agn", "gal") if k == "addp" else MODELS)]
                if not c:
                    continue
                x = q.choice(c)
                name = f"extra{j}" if k == "addp" else "flux_fraction"
                op = {"k": k, "node": x, "name": name, "rest": q.chance(0.5)}
                targets = self.effect_targets(plan, nodes, x, op["rest"]) if k == "effect" else [x]
                if not targets or any(name in plan.params[t] for t in targets):
                    continue
                ok = plan.src(q.sub("src"), name, nid=x, frm=None)
                s, d = ok
                if any(plan.reaches(y, t) for y in d for t in targets):
                    s, d = ["c", 0.5], set()
                if s[0] == "l":
                    s[3] = "getter"
                op["src"] = s
                for t in targets:
                    plan.edges[t][name] = d
                    plan.params[t].append(name)
                    plan.outs[t].append(name)
            elif k == "node":
                op = {"k": k, "id": nid, "spec": plan.node(q.sub("new"), nid)}
                nid += 1
            elif k == "fault":
                op = {"k": k, "root": q.choice(pool), "n": q.choice([1, 3]), "seed": q.seed32(), "at": q.int(1, 4)}
            else:
                op = {"k": k, "root": q.choice(pool)}
            ops.append(op)
        if plan.kinds:
            ops.append({"k": "sample", "root": p.choice(plan.roots * 2 + list(plan.kinds)), "n": p.choice([1, 2, 5]), "seed": p.seed32(), "given": [], "again": False})
        return {"mode": mode, "nodes": [[k, v] for k, v in nodes.items()], "ops": ops}

    def effect_targets(self, plan, nodes, x, rest):
        """The models that receive an effect's parameters."""
        if plan.kinds[x] not in ("multi", "rnd") or not rest:
            return [x]
        out = []
        for c in sorted(plan.edges[x].get("children", ())):
            out += [t for t in self.effect_targets(plan, nodes, c, rest) if t not in out]
        return out

    # ----------------------------------------------------------------------------------------------
    def execute(self, scn, run):
        from lightcurvelynx.effects.basic_effects import ConstantDimming

        G = Graph(run)
        for nid, spec in scn["nodes"]:
            G.add(nid, spec)
        done = "start"
        sampled_roots = set()
        for op in scn["ops"]:
            k = op["k"]
            if k == "node":
                G.add(op["id"], op["spec"])
                run.probe("new-node")
            elif k == "relink":
                n = G.nodes[op["node"]]
                v, kw = G.real(op["src"], op["name"])
                n["obj"].set_parameter(op["name"], v, **kw)
                n["params"][op["name"]] = op["src"]
                run.probe("relink")
            elif k == "addp":
                n = G.nodes[op["node"]]
                v, kw = G.real(op["src"], op["name"])
                n["obj"].add_parameter(op["name"], v, **kw)
                n["params"][op["name"]] = op["src"]
                run.probe("add-parameter")
            elif k == "effect":
                v, _ = G.real(op["src"], op["name"])
                G.nodes[op["node"]]["obj"].add_effect(ConstantDimming(flux_fraction=v, rest_frame=op["rest"]))
                for t in self.targets(G, op["node"], op["rest"]):
                    G.nodes[t]["params"][op["name"]] = op["src"]
                run.probe("effect")
            elif k == "pos":
                G.nodes[op["root"]]["obj"].set_graph_positions()
            elif k == "dag":
                self.dag(G, op["root"])
                run.probe("dag")
            elif k == "fault":
                self.fault(G, op, run)
            elif k == "sample":
                self.sample(G, op, scn, run, done)
                if sampled_roots and op["root"] not in sampled_roots and any(
                        set(G.reach(op["root"])) & set(G.reach(r)) for r in sampled_roots):
                    run.probe("shared-roots")
                sampled_roots.add(op["root"])
            run.ops += 1
            done = k

    def targets(self, G, x, rest):
        if G.nodes[x]["kind"] not in ("multi", "rnd") or not rest:
            return [x]
        out = []
        for c in G.nodes[x]["children"]:
            out += [t for t in self.targets(G, c, rest) if t not in out]
        return out

    def sample(self, G, op, scn, run, done):
        root, n = op["root"], op["n"]
        obj = G.nodes[root]["obj"]
        given, arg = {}, None
        reach = G.reach(root)
        if op["given"]:
            obj.set_graph_positions()
            arg = {}
            for g, name, base, form in op["given"]:
                if g not in G.nodes or name not in G.names(g) or g not in reach:
                    continue
                if n == 1 or form == "scalar":
                    v = base
                    full = base if n == 1 else np.full(n, base)
                else:
                    v = base + 0.1 * np.arange(n)
                    full = v.copy()
                arg.setdefault(str(G.nodes[g]["obj"]), {})[name] = v
                given[(g, name)] = full
            if arg:
                run.probe("given-values", len(given))
        rng = recorder(op["seed"]) if scn["mode"] == "rng" else None
        if rng is None:
            run.probe("own-generators")
        st = obj.sample_parameters(given_args=arg or None, num_samples=n, rng_info=rng)
        G.check(root, st, n, given, rng.log if rng is not None else None, True)
        deep = any(G.nodes[x]["kind"] not in ("val",) for x in reach)
        linked = any(s[0] != "c" for x in reach for s in G.nodes[x]["params"].values()) or any(G.nodes[x]["children"] for x in reach)
        run.nontrivial = run.nontrivial or (deep and linked)
        for x in reach:
            node = G.nodes[x]
            if node["kind"] in ("multi", "rnd"):
                run.probe("multi")
                if any(G.nodes[c]["kind"] in ("multi", "rnd") for c in node["children"]):
                    run.probe("nested-multi")
            for name, s in node["params"].items():
                run.state(node["kind"], s[0], s[3] if s[0] == "l" else "", G.nodes[s[1]]["kind"] if s[0] == "l" else "", done, min(n, 2))
        for x in reach:
            node = G.nodes[x]
            if node["kind"] == "func" and n == 1 and op["seed"] % 3 == 0 and (x, "function_node_result") not in given:
                x0 = [0.0, 0.75, -1.5][op["seed"] // 3 % 3]
                st3 = st.copy()
                want = mix(x0, G.value(st, x, "y"), node["spec"]["c"])
                got = node["obj"].compute(st3, x=x0)
                if not same(got, want) or not same(G.value(st3, x, "function_node_result"), want):
                    raise Violation("given-value-changed", f"node {x} computed with x={x0}: {got!r:.100}, expected {want!r:.100}", "given-value-changed:compute")
                run.probe("given-argument")
        run.event({str(G.nodes[x]["obj"]): {m: G.value(st, x, m) for m in G.names(x)} for x in reach})
        if op["again"] and not any(G.nodes[x]["kind"] in ("list", "table") for x in reach):
            run.probe("given-state")
            st2 = obj.sample_parameters(given_args=st, num_samples=n, rng_info=recorder(op["seed"] + 1))
            for x in reach:
                for m in G.names(x):
                    if not same(G.value(st, x, m), G.value(st2, x, m)):
                        raise Violation("given-value-changed", f"node {x}.{m} of a state given back: {G.value(st2, x, m)!r:.100}", "given-state-changed")

    def fault(self, G, op, run):
        rng = recorder(op["seed"], fail_at=op["at"])
        reach = G.reach(op["root"])
        try:
            G.nodes[op["root"]]["obj"].sample_parameters(num_samples=op["n"], rng_info=rng)
            cut = False
        except SourceFailed:
            cut = True
            run.probe("fault")
            run.fault("random-source-failure")
        for x in reach:
            n = G.nodes[x]
            if n["kind"] == "list" or n["kind"] == "table" and n["spec"]["in_order"]:
                n["obj"].reset()
                n["next"] = 0
        return cut

    def dag(self, G, root):
        obj = G.nodes[root]["obj"]
        d = obj.build_dependency_graph()
        own = [x for x in G.reach(root)]
        # the dependency graph follows parameter links (children of a multi-object model hold their own graphs)
        todo, seen = [root], set()
        while todo:
            x = todo.pop()
            if x in seen:
                continue
            seen.add(x)
            todo += [y for s in G.nodes[x]["params"].values() for y in self.direct(s)]
        for x in own:
            if x not in seen:
                continue
            node = G.nodes[x]
            for name, s in node["params"].items():
                full = f"{node['obj']}.{name}"
                if full not in d:
                    raise Violation("dag-missing", f"{full} not in the dependency graph of node {root}")
                inc = d.incoming[full]
                if s[0] == "l":
                    want = f"{G.nodes[s[1]]['obj']}.{s[2]}"
                    if inc != [want]:
                        raise Violation("dag-edge", f"{full}: incoming {inc}, linked to {want}")
                elif s[0] == "c" and (len(inc) != 1 or not inc[0].endswith(f"={s[1]}")):
                    raise Violation("dag-edge", f"{full}: incoming {inc}, constant {s[1]}")

    def direct(self, s):
        if s[0] == "l":
            return [s[1]]
        if s[0] == "f":
            return [y for t in s[2] for y in self.direct(t)]
        return []

    # ----------------------------------------------------------------------------------------------
    def valid(self, scn):
        known = set()
        for nid, spec in scn["nodes"]:
            if not self.uses(spec) <= known:
                return False
            known.add(nid)
        for op in scn["ops"]:
            if op["k"] == "node":
                if not self.uses(op["spec"]) <= known:
                    return False
                known.add(op["id"])
            elif op["k"] in ("relink", "addp", "effect"):
                if op["node"] not in known or not set(self.direct(op["src"])) <= known:
                    return False
            elif op.get("root") not in known:
                return False
        return True

    def uses(self, spec):
        out = set(spec.get("children", []))
        for s in spec.get("in", {}).values():
            out |= set(self.direct(s))
        return out

    def shrink(self, scn):
        for j in range(len(scn["ops"])):
            c = copy.deepcopy(scn)
            del c["ops"][j]
            if self.valid(c) and c["ops"]:
                yield c
        for j in range(len(scn["nodes"])):
            c = copy.deepcopy(scn)
            nid = c["nodes"][j][0]
            del c["nodes"][j]
            for op in c["ops"]:
                if op.get("given"):
                    op["given"] = [g for g in op["given"] if g[0] != nid]
            if self.valid(c):
                yield c
        where = [("nodes", j, 1) for j in range(len(scn["nodes"]))] + [("ops", j, "spec") for j, o in enumerate(scn["ops"]) if o["k"] == "node"]
        for a, j, b in where:
            spec = scn[a][j][b]
            for name, s in spec["in"].items():
                if s[0] != "c":
                    c = copy.deepcopy(scn)
                    c[a][j][b]["in"][name] = ["c", 0.5]
                    yield c
            if len(spec.get("children", [])) > 1:
                for x in spec["children"]:
                    c = copy.deepcopy(scn)
                    c[a][j][b]["children"].remove(x)
                    yield c
            for key in ("label", "cosmo"):
                if spec.get(key):
                    c = copy.deepcopy(scn)
                    del c[a][j][b][key]
                    yield c
        for j, op in enumerate(scn["ops"]):
            for key, small in (("n", 1), ("given", []), ("again", False)):
                if key in op and op[key] != small:
                    c = copy.deepcopy(scn)
                    c["ops"][j][key] = small
                    yield c
            if op["k"] == "relink" and op["src"][0] != "c":
                c = copy.deepcopy(scn)
                c["ops"][j]["src"] = ["c", 0.75]
                yield c


CHECK = P09()
