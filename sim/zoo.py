"""World builder: JSON specs -> models, random components, effects, passbands and survey tables.

Every number is derived from the spec's own seed by name, so removing one feature from a spec leaves
everything else unchanged (what minimisation needs), and two builds of one spec are equally built."""
import os

import numpy as np

from sim.core import DATA, Prng, diff, freeze

BANDS = ["g", "r", "i"]
CENT = {"g": 4800.0, "r": 6200.0, "i": 7600.0, "gp": 5300.0}


class Ctx:
    """seeds: 'explicit' gives every random component its own seed, 'ambient' gives none."""

    def __init__(self, seed, seeds="ambient", surveys=None):
        self.p = Prng("world", seed)
        self.seeds = seeds
        self.nodes = []          # (name, random component)
        self.owned = []          # (name, caller-owned input, frozen copy)
        self.surveys = surveys or []
        self.seedof = {}
        self.noseed = False      # some component cannot be given a seed of its own

    def seed(self, name):
        if self.seeds == "ambient":
            return None
        if name not in self.seedof:
            q = self.p.sub("seed", name)
            s = q.seed32()
            if 0 not in self.seedof.values() and q.chance(0.1):  # 0 is a seed like any other
                s = 0
            self.seedof[name] = s
        return self.seedof[name]

    def own(self, name, x):
        """Hand a caller-owned input to the package, remembering what it looked like."""
        self.owned.append((name, x, freeze(x)))
        return x

    def changed_input(self):
        """Description of the first caller-owned input that no longer looks as it did."""
        for name, x, was in self.owned:
            d = diff(was, x, rtol=0)
            if d:
                return f"{name}: {d}"
        return None

    def reg(self, name, node):
        self.nodes.append((name, node))
        return node


# --------------------------------------------------------------------------------------------------
# Parameter sources: everything a model parameter can be linked to
class _Bump:
    """A smooth bounded density for the inverse-polynomial samplers."""

    def __init__(self, mid=0.5, lo=0.0, hi=1.0):
        self.mid, self.lo, self.hi = mid, lo, hi

    def support(self):
        return self.lo, self.hi

    def pdf(self, x):
        _user()
        s = (self.hi - self.lo) / 4.0
        return np.exp(-0.5 * ((x - self.mid) / s) ** 2)


class _LogBump:
    def __init__(self, mid, lo, hi):
        self.mid, self.lo, self.hi = mid, lo, hi

    def support(self):
        return self.lo, self.hi

    def logpdf(self, x):
        s = (self.hi - self.lo) / 4.0
        return -0.5 * ((x - self.mid) / s) ** 2

    def dlogpdf(self, x):
        s = (self.hi - self.lo) / 4.0
        return -(x - self.mid) / s**2


def _flow(name):
    from pzflow import Flow

    return Flow(file=os.path.join(DATA, name))


USER_HOOK = None  # called from every user-written function, so that a check can make one fail


def _user():
    if USER_HOOK is not None:
        USER_HOOK()


def affine(x, scale, shift):
    _user()
    return x * scale + shift


def two_out(x):
    _user()
    return x * 2.0, x + 1.0


SOURCES = ["const", "uniform", "normal", "given", "givenw", "dist", "pdf", "logpdf", "table", "math",
           "mathj", "func", "select", "binary", "single", "multi", "beta", "expo", "chain", "invcls", "bilby"]
RARE = ["snia", "pzflow"]  # slow to build
CHEAP = ["const", "uniform", "normal", "given", "givenw", "dist", "table", "math", "func", "select",
         "binary", "single", "multi", "chain"]
LINKABLE = [s for s in SOURCES if s != "const"]


def source(ctx, name, kind, lo, hi):
    """A setter whose sampled values lie (essentially) in [lo, hi]."""
    from lightcurvelynx.base_models import FunctionNode
    from lightcurvelynx.math_nodes.basic_math_node import BasicMathNode
    from lightcurvelynx.math_nodes.distribution_sampler import DistributionSampler
    from lightcurvelynx.math_nodes.given_sampler import (
        BinarySampler, GivenValueList, GivenValueSampler, GivenValueSelector, TableSampler)
    from lightcurvelynx.math_nodes.np_random import NumpyRandomFunc
    from lightcurvelynx.math_nodes.scipy_random import NumericalInversePolynomialFunc, SampleLogPDF, SamplePDF
    from lightcurvelynx.math_nodes.single_value_node import SingleVariableNode

    p = ctx.p.sub("src", name)
    s = ctx.seed(name)
    w = hi - lo
    vals = [lo + w * p.random() for _ in range(6)]
    if kind == "const":
        return vals[0]
    if kind == "whole":
        return float(round(vals[0]))
    if kind == "uniform":
        return ctx.reg(name, NumpyRandomFunc("uniform", low=lo, high=hi, seed=s))
    if kind == "normal":
        return ctx.reg(name, NumpyRandomFunc("normal", loc=lo + w / 2, scale=w / 24, seed=s))
    if kind == "beta":
        n = ctx.reg(name, NumpyRandomFunc("beta", a=2.0, b=3.0, seed=s))
        return BasicMathNode("lo + w * b", lo=lo, w=w, b=n)
    if kind == "expo":
        n = ctx.reg(name, NumpyRandomFunc("exponential", scale=1.0, seed=s))
        return BasicMathNode("lo + w * exp(-1.0 * b)", lo=lo, w=w, b=n)
    if kind == "given":
        return ctx.reg(name, GivenValueSampler(ctx.own("values", np.array(vals)), seed=s))
    if kind == "givenw":
        wt = ctx.own("weights", np.array([p.random() + 0.01 for _ in vals]))
        return ctx.reg(name, GivenValueSampler(ctx.own("values", vals), weights=wt, seed=s))
    if kind == "dist":
        x = np.linspace(lo, hi, 12)
        y = np.array([p.random() + 0.05 for _ in x])
        return ctx.reg(name, DistributionSampler(ctx.own("x", x), ctx.own("y", y), seed=s))
    if kind == "pdf":
        return ctx.reg(name, SamplePDF(_Bump(lo + w / 2, lo, hi), seed=s))
    if kind == "logpdf":
        return ctx.reg(name, SampleLogPDF(_LogBump(lo + w / 2, lo, hi), seed=s))
    if kind == "invcls":
        mid = ctx.reg(name + ".mid", NumpyRandomFunc("uniform", low=lo + w / 3, high=hi - w / 3, seed=ctx.seed(name + ".mid")))
        return ctx.reg(name, NumericalInversePolynomialFunc(_Bump, seed=s, mid=mid, lo=lo, hi=hi))
    if kind == "table":
        n = ctx.reg(name, TableSampler(ctx.own("table", {"v": np.array(vals), "k": list(range(len(vals)))}), seed=s))
        return n.v
    if kind in ("math", "mathj"):
        n = ctx.reg(name, NumpyRandomFunc("uniform", low=0.0, high=1.0, seed=s))
        return BasicMathNode("lo + w * sqrt(u)", backend="jax" if kind == "mathj" else "numpy", lo=lo, w=w, u=n)
    if kind == "func":
        n = ctx.reg(name, NumpyRandomFunc("uniform", low=0.0, high=1.0, seed=s))
        return FunctionNode(affine, x=n, scale=w, shift=lo)
    if kind == "select":
        n = ctx.reg(name, GivenValueSampler(len(vals), seed=s))
        if p.chance(0.5):
            return GivenValueSelector(ctx.own("values", [float(v) for v in vals]), n)
        return GivenValueSelector(ctx.own("values", np.array(vals)), n)
    if kind == "binary":
        n = ctx.reg(name, BinarySampler(0.25 + 0.5 * p.random(), seed=s))
        return BasicMathNode("lo + w * b", lo=lo, w=w, b=n)
    if kind == "single":
        n = ctx.reg(name, NumpyRandomFunc("uniform", low=lo, high=hi, seed=s))
        return SingleVariableNode("v", n).v
    if kind == "multi":
        n = ctx.reg(name, NumpyRandomFunc("uniform", low=lo, high=hi, seed=s))
        f = FunctionNode(two_out, outputs=["twice", "plus"], x=n)
        return BasicMathNode("0.5 * t + 0.0 * q", t=f.twice, q=f.plus)
    if kind == "chain":
        n = ctx.reg(name, NumpyRandomFunc("uniform", low=lo, high=lo + w / 2, seed=s))
        return ctx.reg(name + ".2", NumpyRandomFunc("uniform", low=n, high=hi, seed=ctx.seed(name + ".2")))
    if kind == "bilby":
        from bilby.core.prior import PriorDict, Uniform
        from lightcurvelynx.math_nodes.bilby_priors import BilbyPriorNode

        n = ctx.reg(name, BilbyPriorNode(PriorDict({"v": Uniform(lo, hi, "v"), "w": Uniform(0, 1, "w")}), seed=s))
        return n.v
    if kind == "pzflow":
        from lightcurvelynx.astro_utils.pzflow_node import PZFlowNode

        flow = cached("flow", lambda: _flow("test_flow.pkl"))
        n = PZFlowNode(flow)
        ctx.noseed = True
        return BasicMathNode("lo + w * 0.5 * (1.0 + sin(z))", lo=lo, w=w, z=n.redshift)
    if kind == "snia":
        from lightcurvelynx.astro_utils.snia_utils import DistModFromRedshift, HostmassX1Func, X0FromDistMod

        hm = ctx.reg(name + ".hm", NumpyRandomFunc("uniform", low=8.0, high=12.0, seed=ctx.seed(name + ".hm")))
        z = ctx.reg(name + ".hz", NumpyRandomFunc("uniform", low=0.05, high=0.5, seed=ctx.seed(name + ".hz")))
        x1 = ctx.reg(name, HostmassX1Func(hm, seed=s))
        x0 = X0FromDistMod(distmod=DistModFromRedshift(z), x1=x1, c=0.1, alpha=0.14, beta=3.1, m_abs=-19.3)
        return BasicMathNode("lo + w * 0.5 * (1.0 + sin(log10(x0) + x1))", lo=lo, w=w, x0=x0, x1=x1)
    if kind == "list":
        return ctx.reg(name, GivenValueList(ctx.own("list", np.array([lo + w * p.random() for _ in range(256)]))))
    raise KeyError(kind)


POSITIONS = ["const", "const", "box", "box", "obs", "obs", "obs0", "sep", "radec", "obsuni", "moc"]
SORTED_KINDS = ["spline", "sncosmo", "agn"]  # these models require visits in time order


def position(ctx, name, kind, ra0=150.0, dec0=-10.0):
    """(ra, dec) setters."""
    from lightcurvelynx.astro_utils.snia_utils import SNCoordGivenPhysicalSep
    from lightcurvelynx.math_nodes.np_random import NumpyRandomFunc
    from lightcurvelynx.math_nodes.ra_dec_sampler import (
        ApproximateMOCSampler, ObsTableRADECSampler, ObsTableUniformRADECSampler, UniformRADEC)

    p = ctx.p.sub("pos", name)
    s = ctx.seed(name)
    if kind == "const":
        return (ra0 + p.uniform(-0.4, 0.4)) % 360.0, dec0 + p.uniform(-0.4, 0.4)
    if kind == "box":
        a = ctx.reg(name + ".ra", NumpyRandomFunc("uniform", low=ra0 - 1.0, high=ra0 + 1.0, seed=ctx.seed(name + ".ra")))
        d = ctx.reg(name + ".dec", NumpyRandomFunc("uniform", low=dec0 - 1.0, high=dec0 + 1.0, seed=ctx.seed(name + ".dec")))
        return a, d
    if kind == "sep":
        n = ctx.reg(name, SNCoordGivenPhysicalSep(
            host_ra=(ra0 + 0.1) % 360.0, host_dec=dec0, redshift=0.2,
            physical_sep_kpc=source(ctx, name + ".sep", "uniform", 1.0, 20.0), seed=s))
        return n.ra, n.dec
    if kind == "radec" or not ctx.surveys:
        n = ctx.reg(name, UniformRADEC(seed=s))
    elif kind == "obs":
        n = ctx.reg(name, ObsTableRADECSampler(ctx.surveys[0], radius=0.5, seed=s))
    elif kind == "obs0":
        n = ctx.reg(name, ObsTableRADECSampler(ctx.surveys[0], radius=0.0, seed=s))
    elif kind == "obsuni":
        n = ctx.reg(name, ObsTableUniformRADECSampler(ctx.surveys[0], radius=40.0, seed=s))
    elif kind == "moc":
        n = ctx.reg(name, ApproximateMOCSampler(ctx.surveys[0].build_moc(radius=2.0, max_depth=8), depth=8, seed=s))
    else:
        raise KeyError(kind)
    return n.ra, n.dec


# --------------------------------------------------------------------------------------------------
def passband(seed, band, kind="tri", survey="TOY", delta=None, shift=0.0):
    from lightcurvelynx.astro_utils.passbands import Passband

    p = Prng("pb", seed, band)
    c = CENT[band] + shift
    if kind == "tri":
        waves = np.arange(c - 800.0, c + 800.1, 100.0)
        tr = np.clip(1.0 - np.abs(waves - c) / 820.0, 0.0, None) + 0.02 * p.random()
        return Passband(np.column_stack([waves, tr]), survey, band, delta_wave=delta or 50.0, trim_quantile=None)
    waves = np.arange(c - 700.0, c + 700.1, 20.0)
    tr = np.exp(-0.5 * ((waves - c) / 250.0) ** 2) * (1.0 + 0.1 * np.sin(waves / (40.0 + 30 * p.random())))
    return Passband(np.column_stack([waves, tr]), survey, band, delta_wave=delta, trim_quantile=0.005)


def passbands(spec):
    from lightcurvelynx.astro_utils.passbands import PassbandGroup

    seed = spec.get("seed", 0)
    kind = spec.get("kind", "tri")
    bands = spec.get("bands", BANDS)
    return PassbandGroup([passband(seed, b, kind) for b in bands])


SURVEYS = ["fake", "fakec", "opsim", "ztf", "roman"]


def roman_tables(exptimes=(1001, 1002, 1003)):
    """Stand-ins for the four characterization tables RomanObsTable downloads, for the bands used here."""
    import pandas as pd

    return {"psf_table": pd.DataFrame({"Filter": BANDS, "N_Eff_Pix": [7.35, 9.35, 16.2]}),
            "zp_table": pd.DataFrame({"element": BANDS, "ABMag": [26.5, 26.1, 25.7]}),
            "thermal_table": pd.DataFrame({"filter": BANDS, "rate": [0.003, 0.01, 0.17]}),
            "zodiacal_min_table": pd.DataFrame({"filter": BANDS, "rate": [0.3, 0.25, 0.2]})}


def roman_class():
    from lightcurvelynx.obstable import roman_obstable

    roman_obstable._get_roman_char = roman_tables
    return roman_obstable.RomanObsTable


def survey_table(spec):
    """The raw columns of a survey: visits clustered on a few pointings so that most queries match some."""
    p = Prng("survey", spec.get("seed", 0))
    n = spec.get("n", 40)
    ra0, dec0 = spec.get("ra0", 150.0), spec.get("dec0", -10.0)
    spread = spec.get("spread", 1.5)
    n_points = spec.get("points") or max(1, n // 5)
    points = [((ra0 + p.uniform(-spread, spread)) % 360.0, max(-90.0, min(90.0, dec0 + p.uniform(-spread, spread)))) for _ in range(n_points)]
    idx = [p.int(0, len(points) - 1) for _ in range(n)]
    t = np.array(sorted(p.uniform(0.0, 100.0) for _ in range(n)))
    if spec.get("grid"):  # distinct times that floating-point sums hit exactly
        t = np.sort(0.25 * np.array(p.shuffle(range(400))[:n]))
    if spec.get("shuffle"):
        t = np.array(p.shuffle(t))
    bands = spec.get("bands", BANDS)
    return {
        "ra": np.array([points[k][0] for k in idx]),
        "dec": np.array([points[k][1] for k in idx]),
        "time": t,
        "filter": np.array([p.choice(bands) for _ in range(n)]),
        "seeing": np.array([p.uniform(0.6, 1.4) for _ in range(n)]),
        "sky": np.array([p.uniform(19.0, 22.0) for _ in range(n)]),
        "airmass": np.array([p.uniform(1.0, 1.8) for _ in range(n)]),
        "visit": np.arange(1000, 1000 + n) * 7,
    }


def survey(spec, own=lambda name, x: x):
    from lightcurvelynx.obstable.fake_obs_table import FakeObsTable
    from lightcurvelynx.obstable.opsim import OpSim
    from lightcurvelynx.obstable.ztf_obstable import ZTFObsTable

    t = survey_table(spec)
    kind = spec.get("kind", "fake")
    n = len(t["ra"])
    radius = spec.get("radius", 1.5)
    common = {"visit": t["visit"]}
    if kind in ("fake", "fakec"):
        d = {"ra": t["ra"], "dec": t["dec"], "time": t["time"], "filter": t["filter"], **common}
        zp = {b: 10.0 + 5.0 * k for k, b in enumerate(sorted(set(t["filter"])))}
        if kind == "fakec":
            return FakeObsTable(own("table", d), zp_per_band=own("zp", zp), const_flux_error=own("const_flux_error", {b: 0.5 + 0.5 * k for k, b in enumerate(sorted(set(t["filter"])))}), radius=radius)
        d["sky"] = 10.0 ** (0.3 * (23.0 - t["sky"]))
        return FakeObsTable(own("table", d), zp_per_band=own("zp", zp), fwhm_px=3.0, read_noise=5.0, dark_current=0.1, radius=radius)
    if kind == "opsim":
        d = {"observationStartMJD": t["time"], "fieldRA": t["ra"], "fieldDec": t["dec"], "airmass": t["airmass"],
             "filter": t["filter"], "visitExposureTime": 29.0 + np.zeros(n), "seeingFwhmEff": t["seeing"],
             "skyBrightness": t["sky"], "numExposures": np.ones(n, dtype=int) * 2, **common}
        return OpSim(own("table", d), radius=radius)
    if kind == "ztf":
        import pandas as pd

        d = pd.DataFrame({"obsmjd": t["time"], "ra": t["ra"], "dec": t["dec"], "maglim": t["sky"] - 1.0,
                          "scibckgnd": 100.0 + 50.0 * t["airmass"], "fwhm": 1.0 + t["seeing"], "filter": t["filter"],
                          "exptime": 30.0 + np.zeros(n), **common})
        return ZTFObsTable(own("table", d), radius=radius)
    if kind == "roman":
        import pandas as pd

        d = pd.DataFrame({"RA": t["ra"], "DEC": t["dec"], "BANDPASS": t["filter"], "MA_TABLE_NUMBER": 1001 + t["visit"] % 3, "PASS": 1 + np.arange(n) // 4, **common})
        o = roman_class()(own("table", d), radius=radius)
        o.add_column("time", t["time"], overwrite=True)  # the derived dates start in 2026, outside every model here
        return o
    raise KeyError(kind)


# --------------------------------------------------------------------------------------------------
class RbSource:
    """Stand-in for redback's return value: an object with a flux method and wavelength bounds."""

    def __init__(self, times, amp, tau):
        self.amp, self.tau = amp, tau

    def minwave(self):
        return 1000.0

    def maxwave(self):
        return 20000.0

    def get_flux_density(self, times, waves):
        _user()
        t = np.asarray(times)[:, None]
        return self.amp * 1e-17 * np.exp(-0.5 * (t / self.tau) ** 2) * (5000.0 / np.asarray(waves)[None, :])


def rb_source(times, amp=1.0, tau=10.0, output_format="sncosmo_source", **kwargs):
    return RbSource(times, amp, tau)


_CACHE = {}


def cached(key, fn):
    if key not in _CACHE:
        _CACHE[key] = fn()
    return _CACHE[key]


def sncosmo_source(seed=0):
    import sncosmo

    p = Prng("sncosmo", seed)
    phase = np.linspace(-20.0, 60.0, 17)
    wave = np.linspace(2000.0, 11000.0, 46)
    flux = (np.exp(-0.5 * ((phase[:, None] - 3.0) / 14.0) ** 2) * (1.5 + np.sin(wave[None, :] / (700.0 + 200 * p.random())))) * 1e-16
    return sncosmo.TimeSeriesSource(phase, wave, flux, name="simsrc")


SED_KINDS = ["const", "step", "sin", "linwave", "spline", "static", "galaxy", "binary", "salt2", "sncosmo",
             "bayesn", "agn", "redback", "host", "callback"]
BAND_KINDS = ["sband", "lct", "mlct"]
MULTI_KINDS = ["additive", "random"]
EFFECTS = ["dim", "noise", "ext", "lens", "lensp"]


def make_callback_model(valid=None):
    from lightcurvelynx.models.physical_model import SEDModel

    class CallbackSED(SEDModel):
        """A user model: spectrum from a plain function of its parameters."""

        def __init__(self, amp, **kwargs):
            super().__init__(**kwargs)
            self.add_parameter("amp", amp)

        def mask_by_time(self, times, graph_state=None):
            if valid is None:
                return super().mask_by_time(times, graph_state)
            t0 = self.get_param(graph_state, "t0")
            return (np.asarray(times) >= t0 + valid[0]) & (np.asarray(times) <= t0 + valid[1])

        def compute_sed(self, times, wavelengths, graph_state, **kwargs):
            _user()
            params = self.get_local_params(graph_state)
            return params["amp"] * (1.0 + 0.01 * np.asarray(times)[:, None] + 1e-4 * np.asarray(wavelengths)[None, :])

    return CallbackSED


def dust(ctx, name, spec):
    from lightcurvelynx.astro_utils.dustmap import ConstantHemisphereDustMap, DustmapWrapper

    ra, dec = position(ctx, name + ".dust", "box", 150.0, 0.0)
    return DustmapWrapper(ConstantHemisphereDustMap(0.1, 0.3), ra=ra, dec=dec)


def effect(ctx, name, spec):
    from lightcurvelynx.effects.basic_effects import ConstantDimming
    from lightcurvelynx.effects.extinction import ExtinctionEffect
    from lightcurvelynx.effects.microlensing import Microlensing
    from lightcurvelynx.effects.white_noise import WhiteNoise

    k, frame, src = spec["kind"], spec.get("frame", "rest"), spec.get("src", "const")
    if k == "dim":
        return ConstantDimming(flux_fraction=source(ctx, name + ".frac", src, 0.2, 0.9), rest_frame=frame == "rest")
    if k == "noise":
        return WhiteNoise(white_noise_sigma=source(ctx, name + ".sig", src, 0.01, 0.5), rest_frame=frame == "rest")
    if k == "ext":
        return ExtinctionEffect("CCM89", ebv=dust(ctx, name, spec) if spec.get("dust") else source(ctx, name + ".ebv", src, 0.01, 0.4), frame="rest" if frame == "rest" else "observer")
    if k in ("lens", "lensp"):
        eff = Microlensing(microlensing_t0=source(ctx, name + ".lt0", src, 20.0, 80.0), u_0=0.3, t_E=25.0,
                           probability=0.5 if k == "lensp" else 1.0)
        if k == "lensp":
            node = eff.parameters["apply_microlensing"]
            if ctx.seeds == "explicit":
                node.set_seed(ctx.seed(name + ".apply"))
            ctx.reg(name + ".apply", node)
        return eff
    raise KeyError(k)


def model(ctx, spec, name="m", host=None):
    """Build a model from its spec: {"kind", "pos", "z", "t0", "src", "effects", "children", "label"}."""
    from lightcurvelynx.math_nodes.np_random import NumpyRandomFunc
    from lightcurvelynx.models import basic_models, multi_object_model
    from lightcurvelynx.utils import wave_extrapolate as we

    kind, src = spec["kind"], spec.get("src", "uniform")
    p = ctx.p.sub("model", name)
    kw = {}
    if host is not None:
        ra, dec = host.ra, host.dec
    else:
        ra, dec = position(ctx, name + ".pos", spec.get("pos", "const"), spec.get("ra0", 150.0), spec.get("dec0", -10.0))
    kw["ra"], kw["dec"] = ra, dec
    if spec.get("t0", "const") is not None:
        kw["t0"] = source(ctx, name + ".t0", spec.get("t0", "const"), 10.0, 60.0)
    if spec.get("z") and kind not in BAND_KINDS:
        kw["redshift"] = source(ctx, name + ".z", spec["z"], 0.05, 0.6) if host is None or not host.has_valid_param("redshift") else host.redshift
        if spec.get("cosmo"):
            from astropy.cosmology import Planck18

            kw["cosmology"] = Planck18
    if spec.get("label"):
        kw["node_label"] = spec["label"]
    ms = ctx.seed(name)
    if ms is not None and kind not in ("agn",):
        kw["seed"] = ms

    def par(n, lo, hi, k=None):
        return source(ctx, f"{name}.{n}", k or src, lo, hi)

    if kind == "const":
        m = basic_models.ConstantSEDModel(brightness=par("b", 10.0, 50.0), **kw)
    elif kind == "step":
        m = basic_models.StepModel(brightness=par("b", 10.0, 50.0), t1=par("t1", 65.0, 90.0), **kw)
    elif kind == "sin":
        m = basic_models.SinWaveModel(brightness=par("b", 100.0, 150.0), amplitude=par("a", 1.0, 20.0), frequency=par("f", 0.05, 0.3), **kw)
    elif kind == "linwave":
        m = basic_models.LinearWavelengthModel(linear_base=par("lb", 10.0, 20.0), linear_scale=par("ls", 0.001, 0.01),
                                               min_wave=3000.0, max_wave=7000.0,
                                               wave_extrapolation=p.choice([None, we.LastValueExtrapolation(), we.ConstantExtrapolation(2.5), we.ExponentialDecay(0.001), we.LinearDecay(500.0)]), **kw)
    elif kind == "spline":
        from lightcurvelynx.models.spline_model import SplineModel

        t, w = np.linspace(-60.0, 120.0, 13), np.linspace(2500.0, 9500.0, 9)
        fl = 50.0 + 10 * np.sin(t[:, None] / 20.0) + 0.001 * w[None, :]
        m = SplineModel(ctx.own("times", t), ctx.own("waves", w), ctx.own("flux", fl), amplitude=par("amp", 0.5, 2.0),
                        wave_extrapolation=we.LastValueExtrapolation(), **kw)
    elif kind == "static":
        from lightcurvelynx.models.static_sed_model import StaticSEDModel

        seds = [np.vstack([np.linspace(2000.0 + 100 * j, 10000.0, 20), 10.0 + 5.0 * j + np.linspace(0, 3, 20)]) for j in range(4)]
        m = StaticSEDModel(ctx.own("seds", seds), weights=ctx.own("weights", np.array([1.0, 2.0, 3.0, 1.0])), **kw)
        _seed_inner(ctx, name, inner_sampler(m))
    elif kind == "galaxy":
        from lightcurvelynx.models.galaxy_models import GaussianGalaxy

        m = GaussianGalaxy(brightness=par("b", 10.0, 50.0), radius=par("rad", 0.001, 0.01), **kw)
    elif kind == "binary":
        from lightcurvelynx.models.periodic_variable_star import EclipsingBinaryStar

        kw.pop("cosmology", None)
        m = EclipsingBinaryStar(distance=par("d", 5.0, 50.0), period=par("per", 2.0, 30.0), major_semiaxis=6e11,
                                inclination=par("inc", 80.0, 90.0), primary_radius=7e10, secondary_radius=5e10,
                                primary_temperature=par("tp", 5000.0, 8000.0), secondary_temperature=4000.0, **kw)
    elif kind == "salt2":
        from lightcurvelynx.models.salt2_jax import SALT2JaxModel

        m = SALT2JaxModel(x0=par("x0", 0.1, 0.5), x1=par("x1", -1.0, 1.0), c=par("c", -0.2, 0.2),
                          model_dir=os.path.join(DATA, "truncated-salt2-h17"), **kw)
    elif kind == "sncosmo":
        from lightcurvelynx.models.sncomso_models import SncosmoWrapperModel

        m = SncosmoWrapperModel(sncosmo_source(spec.get("srcseed", 0)), amplitude=par("amp", 0.5, 3.0),
                                wave_extrapolation=we.LastValueExtrapolation(), **kw)
    elif kind == "bayesn":
        from pathlib import Path

        from lightcurvelynx.models.bayesn import BayesnModel

        kw.setdefault("t0", 40.0)
        m = BayesnModel(theta=par("theta", -1.0, 1.0), Av=par("av", 0.0, 0.5), Rv=3.1, Amplitude=1e8,
                        _M20_model_path=Path(DATA) / "BAYESN.M20", hsiao_model_path=Path(DATA) / "hsiao.h5", **kw)
    elif kind == "agn":
        from astropy.cosmology import Planck18

        from lightcurvelynx.models.agn import AGN

        kw.pop("cosmology", None)
        kw.setdefault("redshift", 0.3)
        t0 = 0.0
        kw.pop("t0", None)
        m = AGN(t0=t0, blackhole_mass=par("bh", 1e7, 1e9), edd_ratio=par("edd", 0.1, 0.9), seed=ms, cosmology=Planck18, **kw)
        _seed_inner(ctx, name, m.setters["inclination_rad"].dependency)
    elif kind == "redback":
        from lightcurvelynx.models.redback_models import RedbackWrapperModel

        kw.pop("redshift", None), kw.pop("cosmology", None)
        m = RedbackWrapperModel(rb_source, parameters={"amp": par("amp", 0.5, 3.0), "tau": par("tau", 5.0, 20.0)}, **kw)
    elif kind == "host":
        from lightcurvelynx.models.snia_host import SNIaHost

        class Host(SNIaHost):
            def compute_sed(self, times, wavelengths, graph_state, **kwargs):
                return np.full((len(times), len(wavelengths)), self.get_param(graph_state, "hostmass"))

        m = Host(hostmass=par("hm", 8.0, 12.0), **kw)
    elif kind == "callback":
        m = make_callback_model(p.choice([None, (-10.0, 20.0), (0.0, 5.0), (500.0, 600.0)]) if kw.get("t0") is not None else None)(amp=par("amp", 1.0, 20.0), **kw)
    elif kind == "sband":
        from lightcurvelynx.models.static_sed_model import StaticBandfluxModel

        m = StaticBandfluxModel(ctx.own("bandfluxes", [{b: 10.0 * (j + 1) + i for i, b in enumerate(BANDS)} for j in range(3)]),
                                weights=ctx.own("weights", np.array([1.0, 2.0, 1.0])), **kw)
        _seed_inner(ctx, name, inner_sampler(m))
    elif kind in ("lct", "mlct"):
        from lightcurvelynx.models import lightcurve_template_model as lt

        pb = passbands({"kind": "tri"})
        t = np.linspace(0.0, 40.0, 12)
        kw.setdefault("t0", 20.0)

        def curves(j):
            return {b: np.column_stack([t, 20.0 + 10.0 * j + 5.0 * i + 10.0 * np.exp(-0.5 * ((t - 15.0) / 6.0) ** 2)]) for i, b in enumerate(BANDS)}

        if kind == "lct" and ctx.p.sub("periodic", name).chance(0.35):
            per = {b: np.column_stack([t + 3.0, 20.0 + 4.0 * i + 10.0 * np.sin(2 * np.pi * t / 40.0 + i)]) for i, b in enumerate(BANDS)}
            m = lt.LightcurveTemplateModel(ctx.own("curves", per), pb, lc_data_t0=3.0, periodic=True, **kw)
        elif kind == "lct":
            m = lt.LightcurveTemplateModel(ctx.own("curves", curves(0)), pb, lc_data_t0=0.0, baseline=ctx.own("baseline", {b: 1.0 for b in BANDS}), **kw)
        elif ctx.p.sub("lclib", name).chance(0.4):
            import tempfile

            text = "FILTERS: " + "".join(BANDS) + "\n"
            for j in range(3):
                text += f"START_EVENT: {j}\nRECUR_CLASS: NON-RECUR\nT: -5.0 " + " ".join(f"{24.0 - 0.2 * j - 0.1 * i}" for i in range(len(BANDS))) + "\n"
                for a in t:
                    text += f"S: {a:.3f} " + " ".join(f"{22.0 - 0.3 * j - 0.1 * i - 2.0 * np.exp(-0.5 * ((a - 15.0) / 6.0) ** 2):.4f}" for i in range(len(BANDS))) + "\n"
                text += f"END_EVENT: {j}\n"
            with tempfile.NamedTemporaryFile("w", suffix=".dat") as f:
                f.write(text)
                f.flush()
                m = lt.MultiLightcurveTemplateModel.from_lclib_file(f.name, pb, filters=ctx.own("filters", BANDS[::-1]), weights=ctx.own("weights", np.array([1.0, 2.0, 1.0])), **kw)
            _seed_inner(ctx, name, inner_sampler(m))
        else:
            m = lt.MultiLightcurveTemplateModel(ctx.own("list of light curves", [lt.LightcurveData(ctx.own("curves", curves(j)), 0.0, baseline=ctx.own("baseline", {b: 1.0 + j + 0.1 * k for k, b in enumerate(BANDS)})) for j in range(3)]),
                                                pb, weights=ctx.own("weights", np.array([1.0, 2.0, 1.0])), **kw)
            _seed_inner(ctx, name, inner_sampler(m))
    elif kind in MULTI_KINDS:
        kids = []
        for j, c in enumerate(spec["children"]):
            c = dict(c)
            kid = model(ctx, c, f"{name}.{j}", host=kids[0] if spec.get("share") and kids and not hasattr(kids[0], "objects") else None)
            kids.append(kid)
        lab = {"node_label": spec["label"]} if spec.get("label") else {}
        if ms is not None:
            lab["seed"] = ms
        base = {"ra": kids[0].ra, "dec": kids[0].dec, "t0": kids[0].t0, "redshift": kids[0].redshift}
        if kind == "additive":
            m = multi_object_model.AdditiveMultiObjectModel(kids, weights=ctx.own("weights", [1.0 + 0.5 * j for j in range(len(kids))]), **base, **lab)
        else:
            m = multi_object_model.RandomMultiObjectModel(kids, weights=ctx.own("weights", np.array([1.0 + j for j in range(len(kids))])),
                                                          object_names=ctx.own("names", [f"obj{j}" for j in range(len(kids))]), **base, **lab)
            _seed_inner(ctx, name, m.setters["selected_object"].dependency)
    else:
        raise KeyError(kind)
    for j, e in enumerate(spec.get("effects", [])):
        m.add_effect(effect(ctx, f"{name}.e{j}", e))
    return m


def inner_sampler(m):
    """The sampler a model has made for itself to select one of its own values."""
    from lightcurvelynx.math_nodes.given_sampler import GivenValueSampler

    own = [x.dependency for n, x in m.setters.items() if n not in ("ra", "dec", "t0", "redshift", "distance") and isinstance(x.dependency, GivenValueSampler)]
    return own[0] if own else None


def _seed_inner(ctx, name, node):
    if node is None:
        return
    if ctx.seeds == "explicit":
        node.set_seed(ctx.seed(name + ".inner"))
    ctx.reg(name + ".inner", node)


class World:
    def __init__(self, spec, seeds="ambient"):
        self.spec = spec
        self.ctx = Ctx(spec["seed"], seeds)
        self.surveys = self.ctx.surveys = [survey(s, self.ctx.own) for s in spec.get("surveys", [])]
        self.passbands = passbands(spec.get("passbands", {}))
        self.model = model(self.ctx, spec["model"]) if spec.get("model") else None


# --------------------------------------------------------------------------------------------------
# Random specs
def gen_effects(p, kind, noise=True, maxn=2):
    allowed = ["dim", "lens", "lensp"] + (["noise"] if noise else [])
    if kind not in BAND_KINDS:
        allowed.append("ext")
    out = []
    for e in p.sample(allowed, p.int(0, min(maxn, len(allowed)))):
        if e in ("lens", "lensp") and any(o["kind"] in ("lens", "lensp") for o in out):
            continue
        out.append({"kind": e, "frame": p.choice(["rest", "obs"]), "src": p.choice(["const", "uniform", "given"]), "dust": e == "ext" and p.chance(0.3)})
    return out


def below(spec):
    """All models below this one."""
    return [x for c in spec.get("children", []) for x in (c, *below(c))]


def gen_model(p, kinds=None, noise=True, sources=None, positions=None, depth=0, no_random=()):
    kinds = kinds or (SED_KINDS + BAND_KINDS + MULTI_KINDS)
    kinds = [k for k in kinds if k not in no_random]
    kind = p.choice(kinds)
    return gen_kind(p, kind, noise, sources, positions, depth, no_random)


def gen_kind(p, kind, noise=True, sources=None, positions=None, depth=0, no_random=()):
    sources = sources or CHEAP
    positions = positions or POSITIONS
    spec = {"kind": kind, "src": p.choice(sources), "pos": p.choice(positions), "t0": p.choice(["const", "uniform", "given", "func"])}
    if kind in BAND_KINDS:
        spec["z"] = None
    else:
        spec["z"] = p.choice([None, "const", "uniform", "pdf"])
        spec["cosmo"] = bool(spec["z"]) and p.chance(0.5)
    if kind in MULTI_KINDS:
        n = p.int(2, 3)
        kk = [k for k in (SED_KINDS + (["sband", "lct"] if p.chance(0.3) else [])) if k not in no_random and k not in ("agn",)]
        cheap = [k for k in kk if k not in ("bayesn", "salt2")]
        nest = [k for k in MULTI_KINDS if k not in no_random]

        def child():
            if not depth and nest and p.chance(0.12):
                return p.choice(nest)
            return p.choice(kk if not depth and p.chance(0.02) else cheap)

        spec["children"] = [gen_kind(p, child(), noise, sources, positions, depth + 1, no_random) for _ in range(n)]
        anyband = any(k in BAND_KINDS for k in kinds_in(spec))
        for c in below(spec):
            # effects of the parent must not collide with those of a child
            drop = ("lens", "lensp", "ext") if anyband else ("lens", "lensp")
            c["effects"] = [e for e in c.get("effects", []) if e["kind"] not in drop]
        spec["share"] = p.chance(0.5)
        spec["effects"] = [e for e in gen_effects(p, "sband" if anyband else kind, noise, 1)]
        for e in spec["effects"]:
            e["frame"] = "obs" if anyband or e["kind"] == "noise" or p.chance(0.7) else e["frame"]
    else:
        spec["effects"] = gen_effects(p, kind, noise)
    return spec


def gen_survey(p, kinds=SURVEYS, n=None):
    s = {"kind": p.choice(list(kinds)), "seed": p.seed32(), "n": n or p.int(4, 40), "radius": p.choice([0.5, 1.5, 3.0]),
         "shuffle": p.chance(0.3)}
    if n is None and p.chance(0.05):
        s["n"], s["points"] = p.choice([120, 240]), 2  # many visits to one object
    return s


def gen_world(p, model_kw=None, surveys=1):
    w = {"seed": p.seed32(), "passbands": {"kind": p.choice(["tri", "gauss"]), "seed": p.int(0, 5)}}
    w["surveys"] = [gen_survey(p) for _ in range(surveys)]
    w["model"] = gen_model(p, **(model_kw or {}))
    return order(w)


def kinds_in(m):
    return [m["kind"]] + [k for c in m.get("children", []) for k in kinds_in(c)]


def order(w):
    kk = kinds_in(w["model"]) if w.get("model") else []
    if any(k in BAND_KINDS for k in kk):
        w["surveys"] = w["surveys"][:1]  # band-flux models are defined for a single survey's filters
    for s in w["surveys"]:
        if any(k in SORTED_KINDS for k in kk):
            s["shuffle"] = False
        if any(k in ("bayesn", "salt2") for k in kk):
            s["n"] = min(s["n"], 8)
        if s.get("points") and set(kk) & {"agn", "host", "binary", "redback"}:
            s["n"] = min(s["n"], 120)
    return w


def shrink_world(w):
    """Simpler worlds: drop effects, replace sources by constants, flatten composites, fewer visits."""
    import copy

    def variants(m):
        for j in range(len(m.get("effects", []))):
            c = copy.deepcopy(m)
            del c["effects"][j]
            yield c
        for k, v in (("pos", "const"), ("t0", "const"), ("src", "const"), ("src", "uniform"), ("z", None), ("cosmo", False)):
            if m.get(k) not in (v, None) and (k != "src" or m.get("src") != "const"):
                c = copy.deepcopy(m)
                c[k] = v
                if k == "z":
                    c["cosmo"] = False
                yield c
        for j, ch in enumerate(m.get("children", [])):
            yield copy.deepcopy(ch)
            for v in variants(ch):
                c = copy.deepcopy(m)
                c["children"][j] = v
                yield c
        if len(m.get("children", [])) > 2:
            for j in range(len(m["children"])):
                c = copy.deepcopy(m)
                del c["children"][j]
                yield c

    if w.get("model"):
        for m in variants(w["model"]):
            c = copy.deepcopy(w)
            c["model"] = m
            yield c
    for j, s in enumerate(w.get("surveys", [])):
        if len(w["surveys"]) > 1:
            c = copy.deepcopy(w)
            del c["surveys"][j]
            yield c
        if s.get("n", 0) > 4:
            c = copy.deepcopy(w)
            c["surveys"][j]["n"] = max(4, s["n"] // 2)
            yield c
    if w.get("passbands", {}).get("kind") == "gauss":
        c = copy.deepcopy(w)
        c["passbands"]["kind"] = "tri"
        yield c
