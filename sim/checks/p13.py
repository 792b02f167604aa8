"""P13: samplers stay in their support and finish on any random stream.

One run is a history of draws from one sampler (alone, as the parameter of another node, or through a model) fed by a
simulated source of randomness: a seeded ordinary stream in which chosen raw outputs are replaced by extremes (zeros, ones,
stuck values) at any position, either handed in by the caller or standing behind the sampler's own generator. Every value is
checked against the sampler's declared support; ordinary streams are then checked for the declared frequencies."""
import warnings

import numpy as np

from sim import bits, warmup
from sim.core import Prng, Violation, short_tb
from sim.runner import CheckBase

FREQ_P = 1e-9


def fail(kind, detail):
    raise Violation(kind, detail, kind)


def sep(ra1, dec1, ra2, dec2):
    a, b, c, d = (np.radians(np.asarray(v, dtype=float)) for v in (ra1, dec1, ra2, dec2))
    h = np.sin((d - b) / 2) ** 2 + np.cos(b) * np.cos(d) * np.sin((c - a) / 2) ** 2
    return np.degrees(2 * np.arcsin(np.sqrt(np.clip(h, 0, 1))))


def valid_sky(ra, dec, turns=0):
    ra, dec = np.asarray(ra, dtype=float), np.asarray(dec, dtype=float)
    if not np.all(np.isfinite(ra) & np.isfinite(dec)):
        fail("sky", f"ra {ra}, dec {dec}")
    if np.any(np.abs(dec) > 90) or np.any((ra < -1e-9 - 360 * turns) | (ra > 360 + 1e-9 + 360 * turns)):
        fail("sky", f"not a position on the sky: ra {np.ravel(ra)[:5]}, dec {np.ravel(dec)[:5]}")


def ks(u, what):
    """u: values that should be uniform on [0, 1]."""
    from scipy.stats import kstest

    r = kstest(np.clip(np.asarray(u, dtype=float), 0, 1), "uniform")
    if r.pvalue < FREQ_P:
        fail("frequency", f"{what}: {len(u)} values do not follow the declared distribution (KS {r.statistic:.4f}, p {r.pvalue:.1g})")


def counts(obs, prob, what):
    from scipy.stats import binom, chisquare

    obs, prob = np.asarray(obs, dtype=float), np.asarray(prob, dtype=float)
    prob = prob / prob.sum()
    n = obs.sum()
    if np.any(obs[prob == 0] > 0):
        fail("support", f"{what}: an outcome of probability zero was drawn: {obs} for {prob}")
    big = prob * n >= 5
    if big.sum() > 1:
        o, e = np.append(obs[big], obs[~big].sum()), np.append(prob[big], prob[~big].sum()) * n
        if e[-1] < 5:
            o, e = o[:-1], e[:-1] * o[:-1].sum() / e[:-1].sum()
        if len(o) > 1 and chisquare(o, e).pvalue < FREQ_P:
            fail("frequency", f"{what}: counts {o.tolist()} for expected {np.round(e, 1).tolist()}")
    for k in np.nonzero(~big)[0]:
        if binom.sf(obs[k] - 1, int(n), prob[k]) < FREQ_P:
            fail("frequency", f"{what}: outcome {k} of probability {prob[k]:.3g} drawn {int(obs[k])} times of {int(n)}")


# ---------------------------------------------------------------------------------------------------- the samplers
class Kind:
    """One sampler: `build` makes the node, `check` judges the drawn values of one call, `law` the ordinary frequencies."""

    outputs = ["function_node_result"]
    cost = 1        # how slow one draw is
    tries = None

    def __init__(self, spec):
        self.s = spec
        self.p = Prng("kind", spec["seed"])

    entry = ()

    def check(self, vals, n, at):
        pass

    def law(self, vals):
        pass

    def room(self):
        """How many samples may still be drawn (None: any number)."""
        return None

    def took(self, n):
        pass

    def reset(self):
        pass


class Np(Kind):
    ONE = {  # name -> (parameters, support given the parameters, the law)
        "uniform": (lambda p: {"low": p.choice([0.0, -3.0, 1e6]), "high": None}, lambda v, a: (v >= a["low"]) & (v <= a["high"]), lambda st, a: st.uniform(a["low"], a["high"] - a["low"])),
        "normal": (lambda p: {"loc": p.uniform(-9, 9), "scale": p.uniform(0.1, 3)}, lambda v, a: np.isfinite(v), lambda st, a: st.norm(a["loc"], a["scale"])),
        "exponential": (lambda p: {"scale": p.uniform(0.1, 9)}, lambda v, a: (v >= 0) & np.isfinite(v), lambda st, a: st.expon(scale=a["scale"])),
        "beta": (lambda p: {"a": p.uniform(1.1, 4), "b": p.uniform(1.1, 4)}, lambda v, a: (v >= 0) & (v <= 1), lambda st, a: st.beta(a["a"], a["b"])),
        "gamma": (lambda p: {"shape": p.uniform(1.1, 4), "scale": p.uniform(0.1, 4)}, lambda v, a: (v >= 0) & np.isfinite(v), lambda st, a: st.gamma(a["shape"], scale=a["scale"])),
        "lognormal": (lambda p: {"mean": p.uniform(-1, 1), "sigma": p.uniform(0.1, 1)}, lambda v, a: (v >= 0) & np.isfinite(v), lambda st, a: st.lognorm(a["sigma"], scale=np.exp(a["mean"]))),
        "triangular": (lambda p: {"left": -2.0, "mode": p.uniform(-2, 3), "right": 3.0}, lambda v, a: (v >= a["left"]) & (v <= a["right"]), lambda st, a: st.triang((a["mode"] - a["left"]) / (a["right"] - a["left"]), a["left"], a["right"] - a["left"])),
        "integers": (lambda p: {"low": p.choice([0, -7]), "high": p.choice([1, 2, 10, 2**40])}, lambda v, a: (v >= a["low"]) & (v < a["high"]) & (v == np.floor(v)), None),
        "binomial": (lambda p: {"n": p.choice([1, 5, 100]), "p": p.choice([0.0, 0.3, 1.0])}, lambda v, a: (v >= 0) & (v <= a["n"]) & ((a["p"] > 0) | (v == 0)) & ((a["p"] < 1) | (v == a["n"])), None),
        "random": (lambda p: {}, lambda v, a: (v >= 0) & (v < 1), lambda st, a: st.uniform()),
    }

    def build(self):
        from lightcurvelynx.math_nodes.given_sampler import GivenValueList
        from lightcurvelynx.math_nodes.np_random import NumpyRandomFunc

        f = self.s["func"]
        gen, self.sup, self.dist = self.ONE[f]
        self.args = gen(self.p)
        if f == "uniform":
            self.args["high"] = self.args["low"] + self.p.choice([1.0, 1e-6, 50.0])
        self.used = 0
        self.per = None
        kw = dict(self.args)
        key = next(iter(self.args), None)
        if key and self.s["vary"]:
            base = self.args[key]
            step = 1 if f in ("integers", "binomial") else 0.1
            self.per = base + step * (np.arange(12000) % 7) * (0.01 if f == "triangular" else 1)
            if f == "uniform":
                self.per = np.minimum(self.per, self.args["high"])
            if f == "integers":
                self.per = np.minimum(self.per, self.args["high"] - 1)
            self.key = key
            kw[key] = GivenValueList(self.per)
        size = {"none": None, "one": 1, "two": 2, "grid": (2, 3)}[self.s["size"]]
        self.entry = {"none": (), "one": (), "two": (2,), "grid": (2, 3)}[self.s["size"]]
        return NumpyRandomFunc(f, size=size, seed=self.s["rng"], **kw)

    def params(self, n):
        a = dict(self.args)
        if self.per is not None:
            x = self.per[self.used:self.used + n]
            a[self.key] = x[0] if n == 1 else x.reshape((n,) + (1,) * len(self.entry))
        return a

    def took(self, n):
        self.used += n

    def check(self, vals, n, at):
        v = np.asarray(vals[0])
        a = self.params(n)
        ok = self.sup(v, a)
        if not np.all(ok):
            fail("support", f"{at}: {self.s['func']}({a}) gave {np.asarray(v)[~np.asarray(ok)].ravel()[:3] if np.ndim(v) else v}")
        if self.per is not None:
            self.pit = getattr(self, "pit", [])
            self.pit.append((v, a))

    def law(self, vals):
        import scipy.stats as st

        if self.dist is None:
            return
        if self.per is None:
            ks(self.dist(st, self.args).cdf(np.ravel(vals[0])), self.s["func"])
        elif self.s["func"] != "uniform" or np.all(self.per < self.args["high"]):
            ks(np.concatenate([np.ravel(self.dist(st, a).cdf(v)) for v, a in self.pit]), f"{self.s['func']} with varying {self.key}")


class Binary(Kind):
    def build(self):
        from lightcurvelynx.math_nodes.given_sampler import BinarySampler

        self.q = self.p.choice([0.0, 1.0, 0.5, 0.01, 0.99, 2.0**-53])
        return BinarySampler(self.q, seed=self.s["rng"])

    def check(self, vals, n, at):
        v = np.asarray(vals[0])
        if not np.all((v == 0) | (v == 1)):
            fail("support", f"{at}: {v.ravel()[:4]}")
        if (self.q == 0 and np.any(v)) or (self.q == 1 and not np.all(v)):
            fail("support", f"{at}: probability {self.q} gave {np.unique(v)}")

    def law(self, vals):
        v = np.asarray(vals[0]).astype(bool)
        counts([v.sum(), (~v).sum()], [self.q, 1 - self.q], f"BinarySampler({self.q})")


class InOrder(Kind):
    def room(self):
        return self.left

    def took(self, n):
        self.pos += n
        self.left -= n

    def reset(self):
        self.pos, self.left = 0, self.total


class GivenList(InOrder):
    def build(self):
        from lightcurvelynx.math_nodes.given_sampler import GivenValueList

        n = self.total = self.left = self.p.int(1, 14)
        self.pos = 0
        form = self.s["form"]
        if form == "float":
            v = [self.p.choice([0.5, 0.5, -1.25, float(k)]) for k in range(n)]
        elif form == "int":
            v = [self.p.int(-3, 3) for _ in range(n)]
        elif form == "text":
            v = [self.p.choice(["a", "b", "longer"]) for _ in range(n)]
        else:
            v = [[float(k), 0.5] for k in range(n)]
        self.vals = np.array(v)
        self.entry = self.vals.shape[1:]
        return GivenValueList(v if self.p.chance(0.5) else np.array(v))

    def check(self, vals, n, at):
        want = self.vals[self.pos] if n == 1 else self.vals[self.pos:self.pos + n]
        if not np.array_equal(np.asarray(vals[0]), want):
            fail("order", f"{at}: {np.asarray(vals[0]).tolist()}, not {np.asarray(want).tolist()}")


class Given(Kind):
    def build(self):
        from lightcurvelynx.math_nodes.given_sampler import GivenValueSampler

        k = self.p.choice([1, 2, 3, 5, 9])
        form = self.s["form"]
        self.vals = np.array({"float": [0.5 * j for j in range(k)], "int": list(range(k)), "text": [f"v{j}" for j in range(k)], "vector": [[float(j), 0.5] for j in range(k)]}[form])
        self.entry = self.vals.shape[1:]
        self.w = np.ones(k)
        w = None
        if self.s["weights"]:
            w = [self.p.choice([0.0, 1.0, 2.5, 1e-300, 1e5]) for _ in range(k)]
            if self.s["weights"] == "ends" and k > 2:
                w[0] = w[-1] = 0.0
            if not sum(w) > 1e-200:
                w[self.p.int(0, k - 1)] = 1.0
            self.w = np.array(w)
            w = w if self.p.chance(0.5) else np.array(w)
        if form == "int" and self.p.chance(0.5):
            return GivenValueSampler(k, weights=w, seed=self.s["rng"])
        return GivenValueSampler(self.vals.tolist() if self.p.chance(0.5) else self.vals, weights=w, seed=self.s["rng"])

    def where(self, v, n, at):
        rows = np.asarray(v).reshape((n,) + self.entry)
        out = []
        for r in rows:
            hit = [j for j in range(len(self.vals)) if np.array_equal(self.vals[j], r)]
            if not hit:
                fail("support", f"{at}: {r!r} is not among the given values")
            out.append(hit[0])
        return np.array(out)

    def check(self, vals, n, at):
        j = self.where(vals[0], n, at)
        if np.any(self.w[j] == 0):
            fail("support", f"{at}: value {j[self.w[j] == 0][0]} has weight zero (weights {self.w.tolist()})")

    def law(self, vals):
        v = np.asarray(vals[0])
        counts(np.bincount(self.where(v, len(v), "law"), minlength=len(self.vals)), self.w, "GivenValueSampler")


class Selector(InOrder):
    def build(self):
        from lightcurvelynx.math_nodes.given_sampler import GivenValueList, GivenValueSelector

        k = self.p.int(1, 6)
        self.vals = np.arange(k) * 1.5 if self.p.chance(0.5) else np.array([f"s{j}" for j in range(k)])
        self.total = self.left = 14
        self.pos = 0
        self.ind = np.array([self.p.int(0, k - 1) for _ in range(14)])
        self.bad = None
        if self.s["form"] == "bad":
            self.bad = self.p.int(0, 13)
            self.ind[self.bad] = self.p.choice([-1, k, k + 3])
        self.up = GivenValueList(self.ind)
        return GivenValueSelector(self.vals, self.up)

    def refuses(self, n):
        return self.bad is not None and self.pos <= self.bad < self.pos + n

    def check(self, vals, n, at):
        want = self.vals[self.ind[self.pos]] if n == 1 else self.vals[self.ind[self.pos:self.pos + n]]
        if not np.array_equal(np.asarray(vals[0]), want):
            fail("order", f"{at}: {np.asarray(vals[0]).tolist()}, not {np.asarray(want).tolist()}")


class Rows(InOrder):
    outputs = ["x", "name", "k"]

    def build(self):
        import pandas as pd
        from astropy.table import Table
        from lightcurvelynx.math_nodes.given_sampler import TableSampler

        n = self.total = self.left = self.p.int(1, 12)
        self.pos = 0
        d = {"x": np.array([self.p.uniform(0, 1) for _ in range(n)]), "name": np.array([f"row{j}" for j in range(n)]), "k": np.arange(n) + 100}
        form = self.s["form"]
        t = dict(d) if form == "float" else Table(d) if form == "int" else pd.DataFrame(d)
        if form == "text":
            t.index = self.p.shuffle(range(50, 50 + n))
        self.d = d
        self.ordered = self.s["ordered"]
        return TableSampler(t, in_order=self.ordered, seed=self.s["rng"])

    def room(self):
        return self.left if self.ordered else None

    def check(self, vals, n, at):
        x, name, k = (np.atleast_1d(np.asarray(v)) for v in vals)
        j = k - 100
        if np.any((j < 0) | (j >= self.total)):
            fail("support", f"{at}: rows {k}")
        if not np.array_equal(self.d["x"][j], x) or not np.array_equal(self.d["name"][j], name):
            fail("support", f"{at}: the values {x.tolist()}, {name.tolist()}, {k.tolist()} do not belong to the same rows")
        if self.ordered and not np.array_equal(j, np.arange(self.pos, self.pos + n)):
            fail("order", f"{at}: rows {j.tolist()}; the next ones are {self.pos}...")

    def law(self, vals):
        if not self.ordered:
            counts(np.bincount(np.asarray(vals[2]) - 100, minlength=self.total), np.ones(self.total), "TableSampler")


class Dist(Kind):
    def build(self):
        from lightcurvelynx.math_nodes.distribution_sampler import DistributionSampler

        k = self.p.int(2, 8)
        x = np.cumsum([self.p.choice([1.0, 0.1, 5.0]) if self.s["uneven"] else 1.0 for _ in range(k)]) + self.p.uniform(-3, 3)
        y = np.array([self.p.choice([0.0, 1.0, 1.0, 3.0, 0.2]) for _ in range(k)])
        if self.s["form"] == "int":
            y[0] = y[-1] = 0.0
        mass = 0.5 * (y[1:] + y[:-1]) * np.diff(x)
        if mass.sum() == 0:
            y = np.ones(k)
            mass = np.diff(x)
        self.x, self.y, self.mass = x, y, mass
        return DistributionSampler(x, y, seed=self.s["rng"])

    def check(self, vals, n, at):
        v = np.asarray(vals[0], dtype=float)
        if not np.all((v >= self.x[0]) & (v <= self.x[-1])):
            fail("support", f"{at}: {v} outside [{self.x[0]}, {self.x[-1]}]")
        k = np.clip(np.searchsorted(self.x, v, side="right") - 1, 0, len(self.x) - 2)
        width = np.diff(self.x)[k]
        inner = (v > self.x[k] + 1e-9 * width) & (v < self.x[k + 1] - 1e-9 * width)
        if np.any(inner & (self.mass[k] == 0)):
            fail("support", f"{at}: {v} where the density is zero (x {self.x.tolist()}, y {self.y.tolist()})")

    def law(self, vals):
        k = np.clip(np.searchsorted(self.x, vals[0], side="right") - 1, 0, len(self.x) - 2)
        counts(np.bincount(k, minlength=len(self.mass)), self.mass, f"DistributionSampler(x={self.x.tolist()}, y={self.y.tolist()})")


class Bell:
    def __init__(self, mu=0.0, sigma=1.0):
        self.mu, self.sigma = mu, sigma

    def pdf(self, x):
        return np.exp(-0.5 * ((x - self.mu) / self.sigma) ** 2) / self.sigma

    def logpdf(self, x):
        return -0.5 * ((x - self.mu) / self.sigma) ** 2 - np.log(self.sigma)

    def cdf(self, x):
        import scipy.stats as st

        return st.norm(self.mu, self.sigma).cdf(x)


class Ramp:
    """Density proportional to x on [1, 3]."""

    def pdf(self, x):
        return x / 4.0

    def support(self):
        return (1.0, 3.0)

    def cdf(self, x):
        return (np.asarray(x) ** 2 - 1) / 8


class Nip(Kind):
    cost = 3

    def build(self):
        from lightcurvelynx.math_nodes.given_sampler import GivenValueList
        from lightcurvelynx.math_nodes.scipy_random import NumericalInversePolynomialFunc, SampleLogPDF, SamplePDF

        f = self.s["func"]
        mu, sg = self.p.uniform(-2, 2), self.p.uniform(0.5, 3)
        self.d, self.lo, self.hi = Bell(mu, sg), -np.inf, np.inf
        self.mus = None
        self.used = 0
        kw = {"seed": self.s["rng"]}
        if f == "object":
            return NumericalInversePolynomialFunc(self.d, **kw)
        if f == "ramp":
            self.d, self.lo, self.hi = Ramp(), 1.0, 3.0
            return NumericalInversePolynomialFunc(self.d, **kw)
        if f == "pdf":
            return SamplePDF(self.d.pdf if self.p.chance(0.5) else self.d, **kw)
        if f == "logpdf":
            return SampleLogPDF(self.d.logpdf if self.p.chance(0.5) else self.d, **kw)
        self.cost = 60
        self.mus = mu + 1.0 * (np.arange(3000) % 5)
        self.d = Bell(0.0, sg)
        return NumericalInversePolynomialFunc(Bell, mu=GivenValueList(self.mus), sigma=sg, **kw)

    def took(self, n):
        self.used += n

    def check(self, vals, n, at):
        v = np.asarray(vals[0], dtype=float)
        if self.mus is not None:
            v = v - (self.mus[self.used] if n == 1 else self.mus[self.used:self.used + n])
            self.all = getattr(self, "all", [])
            self.all.append(np.ravel(v))
            if not np.all(np.abs(v) < 40 * self.d.sigma):
                fail("support", f"{at}: {v} from the mean of its own sample")
        if not np.all(np.isfinite(v) & (v >= self.lo - 1e-9) & (v <= self.hi + 1e-9)):
            fail("support", f"{at}: {v}")

    def law(self, vals):
        v = np.ravel(vals[0]) if self.mus is None else np.concatenate(self.all)
        ks(self.d.cdf(v), f"inverse polynomial ({self.s['func']})")


class HostMass(Kind):
    cost = 2

    def build(self):
        from lightcurvelynx.astro_utils.snia_utils import HostmassX1Func
        from lightcurvelynx.math_nodes.given_sampler import GivenValueList

        if self.s["vary"]:
            self.m = 9.0 + (np.arange(12000) * 7 % 3)
        else:
            self.m = np.full(12000, self.p.choice([8.0, 10.0, 11.5]))
        self.used = 0
        self.got = []
        return HostmassX1Func(hostmass=GivenValueList(self.m) if self.s["vary"] else float(self.m[0]), seed=self.s["rng"])

    def took(self, n):
        self.used += n

    def check(self, vals, n, at):
        v = np.ravel(np.asarray(vals[0], dtype=float))
        m = self.m[self.used:self.used + n]
        if not np.all(np.isfinite(v)) or np.any((m < 10) & (np.abs(v) > 5.0 + 1e-6)):
            fail("support", f"{at}: x1 {v} for host masses {m}")
        self.got += list(zip(m.tolist(), v.tolist()))

    def law(self, vals):
        import scipy.stats as st

        g = np.array(self.got)
        hi = g[g[:, 0] >= 10, 1]
        if len(hi) > 50:
            ks(st.norm.cdf(hi), "x1 of massive hosts")
        lo = g[g[:, 0] < 10, 1]
        if len(lo) > 50:
            x = np.linspace(-5, 5, 20001)
            y = np.exp(-np.minimum(0, x) ** 2) * st.norm.pdf(x)
            c = np.concatenate([[0], np.cumsum(0.5 * (y[1:] + y[:-1]))])
            ks(np.interp(lo, x, c / c[-1]), "x1 of light hosts")


class Sphere(Kind):
    outputs = ["ra", "dec"]

    def build(self):
        from lightcurvelynx.math_nodes.ra_dec_sampler import UniformRADEC

        self.deg = not self.s["vary"]
        return UniformRADEC(seed=self.s["rng"], use_degrees=self.deg)

    def degrees(self, vals):
        return [np.asarray(v, dtype=float) if self.deg else np.degrees(np.asarray(v, dtype=float)) for v in vals]

    def check(self, vals, n, at):
        valid_sky(*self.degrees(vals))

    def law(self, vals):
        ra, dec = self.degrees(vals)
        ks(ra / 360, "right ascension")
        ks((np.sin(np.radians(dec)) + 1) / 2, "sine of the declination")
        ks((ra / 360 + (np.sin(np.radians(dec)) + 1) / 2) % 1.0, "right ascension and declination together")


def survey(spec, p, n=None):
    from lightcurvelynx.obstable.fake_obs_table import FakeObsTable

    n = n or p.int(1, 9)
    where = spec["sky"]
    ra, dec = [], []
    for _ in range(n):
        if where == "pole":
            a, d = p.uniform(0, 360), p.choice([90.0, 89.9, 89.0, -90.0, -89.5])
        elif where == "wrap":
            a, d = p.choice([0.0, 359.9, 0.2, 360.0 - 1e-9]), p.uniform(-30, 30)
        else:
            a, d = p.uniform(0, 360), float(np.degrees(np.arcsin(p.uniform(-1, 1))))
        ra.append(a)
        dec.append(d)
    d = {"ra": np.array(ra), "dec": np.array(dec), "time": 60000.0 + 3.0 * np.arange(n), "filter": np.array([p.choice("gr") for _ in range(n)])}
    return FakeObsTable(d, zp_per_band={"g": 25.0, "r": 25.0}, const_flux_error={"g": 1.0, "r": 1.0}, **({"radius": spec["radius"]} if spec["own_radius"] else {})), d


class ObsRows(InOrder):
    outputs = ["ra", "dec", "time"]

    def build(self):
        from lightcurvelynx.math_nodes.ra_dec_sampler import ObsTableRADECSampler

        obs, self.d = survey(self.s, self.p)
        self.total = self.left = len(self.d["ra"])
        self.pos = 0
        self.ordered = self.s["ordered"]
        self.r = self.s["radius"]
        return ObsTableRADECSampler(obs, in_order=self.ordered, seed=self.s["rng"], **({} if self.s["own_radius"] else {"radius": self.r}))

    def room(self):
        return self.left if self.ordered else None

    def check(self, vals, n, at):
        ra, dec, t = (np.ravel(np.asarray(v, dtype=float)) for v in vals)
        valid_sky(ra, dec, 1)  # not wrapped around (the existing tests expect so)
        j = np.round((t - 60000.0) / 3.0).astype(int)
        if np.any((j < 0) | (j >= self.total)) or not np.array_equal(60000.0 + 3.0 * j, t):
            fail("support", f"{at}: times {t}")
        s = sep(ra, dec, self.d["ra"][j], self.d["dec"][j])
        if np.any(s > self.r * (1 + 1e-3) + 1e-6):
            fail("coverage", f"{at}: position ({ra[np.argmax(s)]}, {dec[np.argmax(s)]}) lies {s.max()} degrees from its pointing ({self.d['ra'][j][np.argmax(s)]}, {self.d['dec'][j][np.argmax(s)]}); the radius is {self.r}")
        if self.ordered and not np.array_equal(j, np.arange(self.pos, self.pos + n)):
            fail("order", f"{at}: visits {j.tolist()}; the next ones are {self.pos}...")

    def law(self, vals):
        if not self.ordered:
            j = np.round((np.asarray(vals[2]) - 60000.0) / 3.0).astype(int)
            counts(np.bincount(j, minlength=self.total), np.ones(self.total), "ObsTableRADECSampler")
        if self.r > 0:
            ra, dec, t = (np.asarray(v, dtype=float) for v in vals)
            j = np.round((t - 60000.0) / 3.0).astype(int)
            far = np.abs(self.d["dec"][j]) < 89.5
            ra, dec, ra0, dec0 = ra[far], dec[far], self.d["ra"][j][far], self.d["dec"][j][far]
            if len(ra) > 100:
                a, d, a0, d0 = np.radians(ra), np.radians(dec), np.radians(ra0), np.radians(dec0)
                u = (np.sin(np.radians(sep(ra, dec, ra0, dec0)) / 2) / np.sin(np.radians(self.r) / 2)) ** 2
                turn = np.arctan2(np.sin(a - a0) * np.cos(d), np.cos(d0) * np.sin(d) - np.sin(d0) * np.cos(d) * np.cos(a - a0)) / (2 * np.pi) % 1.0
                ks(u, "area within the distance from the pointing")
                ks(turn, "direction from the pointing")
                ks((u + turn) % 1.0, "distance and direction from the pointing together")


class ObsArea(Kind):
    outputs = ["ra", "dec"]
    cost = 8

    def build(self):
        from lightcurvelynx.math_nodes.ra_dec_sampler import ObsTableUniformRADECSampler

        self.one = self.s["form"] == "float"
        self.s = {**self.s, "radius": self.p.choice([40.0, 70.0, 20.0]) if self.s["radius"] < 20 else self.s["radius"]}
        obs, self.d = survey(self.s, self.p, 1 if self.one else None)
        self.r = self.s["radius"]
        self.most = self.p.choice([1, 3, 50, 1000])
        return ObsTableUniformRADECSampler(obs, max_iterations=self.most, seed=self.s["rng"], **({} if self.s["own_radius"] else {"radius": self.r}))

    def inside(self, ra, dec):
        return np.min([sep(ra, dec, a, d) for a, d in zip(self.d["ra"], self.d["dec"])], axis=0) <= self.r + 1e-6

    def check(self, vals, n, at, drawn=None):
        ra, dec = (np.ravel(np.asarray(v, dtype=float)) for v in vals)
        valid_sky(ra, dec)
        ok = self.inside(ra, dec)
        if not np.all(ok) and drawn is not None and drawn < 2 * self.most:
            fail("coverage", f"{at}: position ({ra[~ok][0]}, {dec[~ok][0]}) lies outside the survey, after {drawn} of {2 * self.most} allowed random numbers")

    def law(self, vals):
        ra, dec = np.asarray(vals[0]), np.asarray(vals[1])
        ok = self.inside(ra, dec)
        if self.most == 1000 and not np.all(ok):
            fail("coverage", f"{(~ok).sum()} of {len(ok)} positions lie outside a survey covering more than {100 * (1 - np.cos(np.radians(self.r))) / 2:.0f} % of the sky")
        if self.one and ok.sum() > 100:
            c = np.cos(np.radians(sep(ra[ok], dec[ok], self.d["ra"][0], self.d["dec"][0])))
            ks((1 - c) / (1 - np.cos(np.radians(self.r))), "distance from the only pointing")


class Moc(Kind):
    outputs = ["ra", "dec"]
    cost = 2

    def build(self):
        import astropy.units as u
        from lightcurvelynx.math_nodes.ra_dec_sampler import ApproximateMOCSampler
        from mocpy import MOC

        self.order = self.p.choice([2, 3, 5, 8])
        self.depth = self.p.choice([2, 3, 5, 8, 12] if self.order < 8 else [5, 8])
        if self.depth > self.order + 4:
            self.depth = self.order + 4
        n = 12 * 4**self.order
        cells = sorted({self.p.choice([0, n - 1, self.p.int(0, n - 1)]) for _ in range(self.p.int(1, 5))})
        moc = MOC.from_healpix_cells(np.array(cells, dtype=np.uint64), np.full(len(cells), self.order, dtype=np.uint8), self.order)
        if self.depth < self.order:
            self.cells = np.unique(np.array(cells, dtype=np.int64) >> (2 * (self.order - self.depth)))
            self.at = self.depth
        else:
            self.cells, self.at = np.array(cells, dtype=np.int64), self.order
        return ApproximateMOCSampler(moc, depth=self.depth, seed=self.s["rng"])

    def cell(self, vals):
        import astropy.units as u
        from astropy.coordinates import Latitude, Longitude
        from cdshealpix.nested import lonlat_to_healpix

        ra, dec = (np.ravel(np.asarray(v, dtype=float)) for v in vals)
        valid_sky(ra, dec)
        return lonlat_to_healpix(Longitude(ra * u.deg), Latitude(dec * u.deg), self.at).astype(np.int64)

    def check(self, vals, n, at):
        c = self.cell(vals)
        if not np.all(np.isin(c, self.cells)):
            fail("coverage", f"{at}: cells {c.tolist()[:5]} are not in the map {self.cells.tolist()} of order {self.at}")

    def law(self, vals):
        c = self.cell(vals)
        counts([int((c == k).sum()) for k in self.cells], np.ones(len(self.cells)), "ApproximateMOCSampler")


class Offset(Kind):
    outputs = ["ra", "dec"]
    cost = 3

    def build(self):
        from lightcurvelynx.astro_utils.snia_utils import SNCoordGivenPhysicalSep
        from lightcurvelynx.math_nodes.given_sampler import GivenValueList

        n = 4000
        k = np.arange(n)
        self.ra, self.dec = (k * 37.0) % 360, np.array([0.0, 90.0, -90.0, 45.0, 89.9999])[k % 5]
        self.kpc, self.z = np.where(k % 4 == 0, 0.0, 10.0 * (1 + k % 7)), 0.05 + 0.1 * (k % 3)
        if not self.s["vary"]:
            self.ra, self.dec, self.kpc, self.z = (np.full(n, v) for v in (self.p.choice([0.0, 359.999, 200.0]), self.p.choice([-30.0, 12.0]), 25.0, 0.2))
            src = [float(v[0]) for v in (self.ra, self.dec, self.kpc, self.z)]
        else:
            src = [GivenValueList(v) for v in (self.ra, self.dec, self.kpc, self.z)]
        self.used, self.n = 0, n
        return SNCoordGivenPhysicalSep(*src, seed=self.s["rng"])

    def took(self, n):
        self.used += n

    def check(self, vals, n, at):
        from astropy.cosmology import FlatLambdaCDM

        ra, dec = (np.ravel(np.asarray(v, dtype=float)) for v in vals)
        valid_sky(ra, dec)
        i = slice(self.used, self.used + n)
        zs, inv = np.unique(self.z[i], return_inverse=True)
        da = FlatLambdaCDM(H0=73.0, Om0=0.3).angular_diameter_distance(zs).to_value("kpc")[inv]
        want = np.degrees(self.kpc[i] / da)
        got = sep(self.ra[i], self.dec[i], ra, dec)
        if np.any(np.abs(got - want) > 1e-6 * want + 2e-7):
            fail("support", f"{at}: separations {got[:4]} from the hosts, not {want[:4]} degrees")

    def law(self, vals):
        if not self.s["vary"]:
            dra = (np.asarray(vals[0]) - self.ra[0] + 180) % 360 - 180
            pa = np.arctan2(dra * np.cos(np.radians(self.dec[0])), np.asarray(vals[1]) - self.dec[0])
            ks((pa % (2 * np.pi)) / (2 * np.pi), "position angle")


class Pick(Kind):
    """RandomMultiObjectModel and MultiLightcurveTemplateModel: which of the sub-models a sample is evaluated with."""

    cost = 1
    model = True

    def build(self):
        from lightcurvelynx.models.basic_models import ConstantSEDModel, StepModel
        from lightcurvelynx.models.lightcurve_template_model import LightcurveData, MultiLightcurveTemplateModel
        from lightcurvelynx.models.multi_object_model import RandomMultiObjectModel

        k = self.p.choice([1, 2, 3, 4])
        self.w = np.array([self.p.choice([0.0, 1.0, 3.0]) for _ in range(k)])
        if self.w.sum() == 0:
            self.w[self.p.int(0, k - 1)] = 1.0
        w = self.w.tolist() if self.s["weights"] else None
        if w is None:
            self.w = np.ones(k)
        self.k = k
        form = self.s["form"]
        if form == "text":
            import sim.zoo as zoo

            lcs = [LightcurveData({"g": np.array([[0.0, 10.0 ** j], [100.0, 10.0 ** j]])}, 0.0, baseline={"g": 0.5 + j}) for j in range(k)]
            self.outputs = ["selected_lightcurve", "baseline_g"]
            self.names = list(range(k))
            return MultiLightcurveTemplateModel(lcs, zoo.passbands({"kind": "tri", "seed": 1}) if hasattr(zoo, "passbands") else None, weights=w, t0=0.0, node_label="m")
        self.outputs = ["selected_object"]
        label = {"float": lambda j: None, "int": lambda j: f"obj{j}", "vector": lambda j: None}[form]
        kids = [ConstantSEDModel(brightness=10.0 ** j, t0=0.0, **({"node_label": label(j)} if label(j) else {})) for j in range(k)]
        self.names = [f"n{j}" for j in range(k)] if form == "vector" else None
        return RandomMultiObjectModel(kids, weights=w, node_label="m", **({"object_names": self.names} if self.names else {}), **({"ra": 0.0, "dec": 0.0} if self.p.chance(0.5) else {}))

    def chosen(self, node, state, n):
        """The index of the sub-model every sample is evaluated with."""
        if self.outputs[0] == "selected_lightcurve":
            j = np.ravel(np.asarray(node.get_param(state, "selected_lightcurve")))
            b = np.ravel(np.asarray(node.get_param(state, "baseline_g")))
            if not np.array_equal(b, 0.5 + j):
                fail("support", f"baselines {b} for light curves {j}")
            flux = np.array([node.compute_bandflux(np.array([50.0]), np.array(["g"]), s)[0] for s in ([state] if n == 1 else state)])
        else:
            flux = np.ravel(np.asarray(node.evaluate_sed(np.array([1.0]), np.array([5000.0]), state)))
            for s in [state] if n == 1 else list(state)[:2]:
                for f in (node.minwave, node.maxwave):
                    f(graph_state=s)
        j = np.round(np.log10(flux)).astype(int)
        if np.any((j < 0) | (j >= self.k)) or not np.allclose(10.0 ** j, flux):
            fail("support", f"fluxes {flux}")
        return j

    def look(self, node, state, n):
        self.last = self.chosen(node, state, n)

    def check(self, vals, n, at):
        if np.any(self.w[self.last] == 0):
            fail("support", f"{at}: sub-models {self.last} for weights {self.w}")
        if self.names:
            want = np.array(self.names)[self.last]
            if not np.array_equal(np.ravel(np.asarray(vals[0])).astype(str), want.astype(str)):
                fail("support", f"{at}: reported {vals[0]}, evaluated {want}")
        self.all = getattr(self, "all", [])
        self.all.append(self.last)

    def law(self, vals):
        counts(np.bincount(np.concatenate(self.all), minlength=self.k), self.w, f"choice of the sub-model ({self.s['form']})")


class Bilby(Kind):
    outputs = ["a", "b", "c", "d"]
    cost = 4

    def build(self):
        from bilby.core.prior import Cosine, DeltaFunction, PowerLaw, PriorDict, Uniform
        from lightcurvelynx.math_nodes.bilby_priors import BilbyPriorNode

        pr = {"a": Uniform(2.0, 5.0), "b": Cosine(), "c": PowerLaw(2.0, 1.0, 4.0), "d": DeltaFunction(7.0)}
        return BilbyPriorNode(pr if self.p.chance(0.5) else PriorDict(pr), seed=self.s["rng"])

    def check(self, vals, n, at):
        for v, lo, hi, k in zip(vals, (2.0, -np.pi / 2, 1.0, 7.0), (5.0, np.pi / 2, 4.0, 7.0), "abcd"):
            v = np.asarray(v, dtype=float)
            if not np.all((v >= lo - 1e-9) & (v <= hi + 1e-9)):
                fail("support", f"{at}: {k} = {v}, not in [{lo}, {hi}]")

    def law(self, vals):
        a, b, c, _ = (np.asarray(v, dtype=float) for v in vals)
        ks((a - 2) / 3, "bilby Uniform")
        ks((np.sin(b) + 1) / 2, "bilby Cosine")
        ks((c**3 - 1) / 63, "bilby PowerLaw")


KINDS = {"np": Np, "binary": Binary, "list": GivenList, "given": Given, "selector": Selector, "rows": Rows, "dist": Dist, "nip": Nip, "hostmass": HostMass, "sphere": Sphere,
         "obsrows": ObsRows, "obsarea": ObsArea, "moc": Moc, "offset": Offset, "pick": Pick, "bilby": Bilby}


class P13(CheckBase):
    ID = "P13"
    RULE = "a run is non-trivial when at least one replaced output of the random source was consumed"
    MEASURE = "distinct (sampler, form of its parameters, generator behind it, kind of replaced output, burst or single, third of the history, sample-count class) combinations"
    REAL = ["every sampler of the package, numpy's and scipy's samplers, astropy, cdshealpix, bilby, the graph that carries the values"]
    STUB = ["the raw outputs of the random bit generator (PCG64 with replaced outputs)"]
    ASSUMPTIONS = ["numpy, scipy and bilby samplers used by the package are themselves correct", "frequencies are tested at p < 1e-9 on fixed seeds"]
    PROBES = ["zero", "ones", "stuck", "own-stream", "as-parameter", "exhausted", "reset", "singles", "law", "law-singles", "tries-used-up"] + [f"kind-{k}" for k in KINDS]
    RUNS = {"quick": 2200, "thorough": 60000}

    def warm(self):
        warmup.full()

    def generate(self, p, i, tier):
        kind = list(KINDS)[i % len(KINDS)]
        s = {"kind": kind, "seed": p.seed32(), "rng": p.seed32(), "form": p.choice(["float", "int", "text", "vector"]), "weights": p.choice([None, "some", "some", "ends"]), "vary": p.chance(0.4), "ordered": p.chance(0.5),
             "uneven": p.chance(0.6), "sky": p.choice(["all", "pole", "wrap"]), "radius": p.choice([0.0, 0.5, 1.75, 3.0, 20.0]), "own_radius": p.chance(0.5), "size": p.choice(["none", "none", "one", "two", "grid"])}
        if kind == "np":
            s["func"] = p.choice(list(Np.ONE))
        if kind == "nip":
            s["func"] = p.choice(["object", "ramp", "pdf", "logpdf", "class"])
        if kind == "selector":
            s["form"] = p.choice(["good", "bad"])
        calls = []
        for _ in range(p.int(1, 6)):
            calls.append({"n": p.choice([1, 1, 2, 3, 5, 17]), "how": p.choice(["sample", "generate", "parameter"]), "reset": p.chance(0.15)})
        plan = []
        for _ in range(p.choice([0, 1, 1, 2, 4, 8])):
            plan.append({"at": p.choice([0.0, p.random(), p.random(), 1.0 - 1e-9]), "len": p.choice([1, 1, 1, 2, 3, 10, 400]), "what": p.choice(list(bits.EXTREMES) + ["zero", "ones", "ones", "random"]), "value": p.int(0, bits.ONES)})
        return {"spec": s, "calls": calls, "plan": plan, "own": p.chance(0.3), "rng": p.seed32(), "law": p.chance(0.35), "lawsingles": p.chance(0.3), "lawseed": p.seed32()}

    # ---------------------------------------------------------------------------------------------- one history
    def history(self, scn, run, plan, limit):
        """-> how many random numbers the history took"""
        from lightcurvelynx.base_models import ParameterizedNode

        k = KINDS[scn["spec"]["kind"]](scn["spec"])
        streams = []

        def make(seed=None, *a, **kw):
            streams.append(bits.Stream(scn["rng"] + len(streams), plan, limit))
            return streams[-1].rng

        if scn["own"]:
            old = np.random.default_rng
            np.random.default_rng = make
            try:
                node = k.build()
            finally:
                np.random.default_rng = old
            rng = None
            if not streams:
                make()
        else:
            node = k.build()
            rng = make()
        user = ParameterizedNode(node_label="user")
        for o in k.outputs:
            if not hasattr(k, "model"):
                for u in "xy":
                    user.add_parameter(f"{o}_{u}", value=node if len(k.outputs) == 1 else getattr(node, o))
        total = lambda: sum(s.count for s in streams)
        for j, c in enumerate(scn["calls"]):
            n, how = c["n"], c["how"]
            if hasattr(k, "model") and how != "parameter":
                how = "sample"
            if how == "parameter" and hasattr(k, "model"):
                how = "sample"
            if c["reset"] and hasattr(node, "reset"):
                node.reset()
                k.reset()
                run.probe("reset")
            if c["reset"] and scn["spec"]["kind"] == "selector":
                k.up.reset()
                k.reset()
            at = f"call {j} ({scn['spec']['kind']} {scn['spec'].get('func', scn['spec']['form'])}, n={n}, {how})"
            before = total()
            room = k.room()
            refuse = room is not None and n > room
            bad = hasattr(k, "refuses") and not refuse and k.refuses(n)
            try:
                if how == "parameter":
                    st = user.sample_parameters(num_samples=n, rng_info=rng)
                    vals = [user.get_param(st, f"{o}_x") for o in k.outputs]
                    other = [user.get_param(st, f"{o}_y") for o in k.outputs]
                    if any(not np.array_equal(np.asarray(a), np.asarray(b)) for a, b in zip(vals, other)):
                        fail("twice", f"{at}: two parameters fed by the same sampler differ: {vals}, {other}")
                    run.probe("as-parameter")
                elif how == "generate":
                    vals = node.generate(num_samples=n, rng_info=rng)
                    vals = list(vals) if len(k.outputs) > 1 else [vals]
                else:
                    st = node.sample_parameters(num_samples=n, rng_info=rng)
                    vals = [node.get_param(st, o) for o in k.outputs]
                    if hasattr(k, "look"):
                        k.look(node, st, n)
            except Violation:
                raise
            except Exception as e:  # noqa: BLE001
                if refuse and isinstance(e, IndexError):
                    run.probe("exhausted")
                    run.fault("exhausted")
                    continue
                if bad and isinstance(e, IndexError):
                    k.took(n)
                    continue
                fail("error", f"{at}: {short_tb(e)}")
            if refuse:
                fail("order", f"{at}: {room} values are left, but {np.asarray(vals[0]).tolist()} were returned")
            if bad:
                fail("support", f"{at}: an index out of bounds gave {vals}")
            if len(vals) != len(k.outputs):
                fail("shape", f"{at}: {len(vals)} outputs, not {len(k.outputs)}")
            for o, v in zip(k.outputs, vals):
                want = k.entry if n == 1 else (n,) + tuple(k.entry)
                if n == 1 and np.shape(v) == (1,) + tuple(k.entry) and scn["spec"]["kind"] in ("np", "offset"):
                    continue  # documented as (num_samples, *size); the existing tests expect arrays
                if np.shape(v) != tuple(want):
                    fail("shape", f"{at}: output {o} has shape {np.shape(v)}, not {tuple(want)}")
            if isinstance(k, ObsArea):
                k.check(vals, n, at, total() - before)
                run.probe("tries-used-up", int(total() - before >= 2 * k.most))
            else:
                k.check(vals, n, at)
            k.took(n)
            run.ops += 1
            run.probe("singles", int(n == 1))
            run.event(at, np.asarray(vals[0]), total() - before)
        return total(), sum(s.fired for s in streams)

    def execute(self, scn, run):
        bits.guard()
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            try:
                self.runit(scn, run)
            except bits.NoEnd:
                fail("no-end", f"{scn['spec']['kind']} {scn['spec'].get('func', '')}: the draws did not finish within the allowed random numbers")

    def runit(self, scn, run):
        kind = scn["spec"]["kind"]
        run.probe(f"kind-{kind}")
        run.probe("own-stream", int(scn["own"]))
        drawn, _ = self.history(scn, run, [], 50_000_000)
        plan = []
        for x in scn["plan"]:
            v = x["value"] if x["what"] == "random" else bits.EXTREMES[x["what"]]
            plan.append((int(x["at"] * drawn), x["len"], v))
        if plan and drawn:
            tries = 2 * 1000 * 20 if kind == "obsarea" else 0
            _, fired = self.history(scn, run, plan, 50 * drawn + 100 * sum(x["len"] for x in scn["plan"]) + 20000 + 100 * tries)
            if fired:
                run.nontrivial = True
                for x in scn["plan"]:
                    run.fault(f"random-{x['what']}")
                    run.probe("zero", int(x["what"] == "zero"))
                    run.probe("ones", int(x["what"] == "ones"))
                    run.probe("stuck", int(x["len"] > 1))
                    run.state(kind, scn["spec"].get("func", scn["spec"]["form"]), scn["own"], x["what"], x["len"] > 1, int(3 * x["at"]), min(3, max(c["n"] for c in scn["calls"])))
        if scn["law"]:
            self.laws(scn, run)

    def laws(self, scn, run):
        s = scn["spec"]
        k = KINDS[s["kind"]](s)
        node = k.build()
        if k.room() is not None:
            return
        singles = scn["lawsingles"]
        total = (150 if singles else 3000) // (1 if k.cost < 8 else 2 if k.cost < 50 else 10)
        sizes = [1] * total if singles else [total // 2, total - total // 2]
        rng = np.random.default_rng(scn["lawseed"])
        got = []
        for n in sizes:
            st = node.sample_parameters(num_samples=n, rng_info=rng)
            vals = [np.asarray(node.get_param(st, o)).reshape((n,) + tuple(k.entry)) for o in k.outputs]
            if hasattr(k, "look"):
                k.look(node, st, n)
            k.check([v[0] if n == 1 else v for v in vals], n, "ordinary stream")
            k.took(n)
            got.append(vals)
        vals = [np.concatenate([g[o] for g in got]) for o in range(len(k.outputs))]
        k.law(vals)
        run.probe("law-singles" if singles else "law")

    def shrink(self, scn):
        for j in range(len(scn["plan"])):
            yield {**scn, "plan": scn["plan"][:j] + scn["plan"][j + 1:]}
        for j in range(len(scn["calls"])):
            if len(scn["calls"]) > 1:
                yield {**scn, "calls": scn["calls"][:j] + scn["calls"][j + 1:]}
        for key in ("law", "own", "lawsingles"):
            if scn[key]:
                yield {**scn, key: False}
        for j, c in enumerate(scn["calls"]):
            for c2 in ({**c, "how": "sample"}, {**c, "n": 1}, {**c, "n": 2}, {**c, "reset": False}):
                if c2 != c and (c2["n"] <= c["n"]):
                    yield {**scn, "calls": scn["calls"][:j] + [c2] + scn["calls"][j + 1:]}
        for j, x in enumerate(scn["plan"]):
            for x2 in ({**x, "len": 1}, {**x, "at": 0.0}, {**x, "what": "zero"}):
                if x2 != x:
                    yield {**scn, "plan": scn["plan"][:j] + [x2] + scn["plan"][j + 1:]}
        for key, v in (("vary", False), ("weights", None), ("size", "none"), ("uneven", False), ("sky", "all")):
            if scn["spec"][key] != v:
                yield {**scn, "spec": {**scn["spec"], key: v}}


CHECK = P13()
