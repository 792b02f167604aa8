"""Exercise first-use paths once in the parent so that forked runs start warm (no JAX: it starts threads)."""
import numpy as np


def full():
    import warnings

    warnings.simplefilter("ignore")
    import bilby.core.prior  # noqa: F401
    import sncosmo  # noqa: F401
    import VBMicrolensing  # noqa: F401

    import lightcurvelynx.simulate as S
    from sim import zoo

    zoo.sncosmo_source(0)
    for k, kind in enumerate(["const", "step", "sncosmo", "sband", "lct", "agn", "spline", "static", "binary"]):
        m = {"kind": kind, "src": ["uniform", "bilby", "pdf", "table", "snia", "given", "invcls", "math", "func"][k], "t0": "uniform",
             "pos": ["obs", "sep", "moc", "radec", "obsuni", "box", "obs0", "const", "box"][k], "z": None if kind in zoo.BAND_KINDS else "uniform",
             "cosmo": kind not in zoo.BAND_KINDS,
             "effects": [{"kind": "lensp"}] + ([{"kind": "ext", "dust": True}] if kind in ("const", "step") else [])}
        w = zoo.order({"seed": 1, "passbands": {"kind": ["tri", "gauss"][k % 2]}, "model": m,
                       "surveys": [{"kind": s, "seed": 2, "n": 20, "radius": 1.5} for s in zoo.SURVEYS]})
        W = zoo.World(w)
        S.simulate_lightcurves(W.model, 2, W.surveys, [W.passbands] * len(W.surveys), rng=np.random.default_rng(0))
