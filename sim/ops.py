"""Read-type calls on a world, shared by the checks (threads, interruption, clusters)."""
import numpy as np

from sim import zoo
from sim.core import Prng

TIMES = [5.0, 18.25, 25.0, 41.5, 60.0, 77.0]
WAVES = np.linspace(3500.0, 9000.0, 12)
FILT = ["g", "r", "i", "g", "r", "i"]


def isband(world_spec):
    return any(c in zoo.BAND_KINDS for c in zoo.kinds_in(world_spec["model"]))


def eval_random(m):
    """Whether evaluating the model draws random numbers beyond its sampled parameters."""
    return m["kind"] == "agn" or any(e["kind"] == "noise" for e in m.get("effects", [])) or any(eval_random(c) for c in m.get("children", []))


def gen_op(p, spec, kinds=None, ns=(1, 2, 3, 5)):
    kinds = kinds or [("sample", 3), ("sed", 4), ("band", 4), ("sim", 4), ("nf", 1), ("query", 2), ("observed", 1), ("getobs", 1),
                      ("moc", 1), ("group", 2), ("err", 1), ("dag", 1), ("mask", 1), ("bounds", 1), ("roundtrip", 1), ("tools", 1)]
    k = p.wchoice(kinds)
    if k == "sed" and isband(spec):
        k = "band"
    if k == "nf" and eval_random(spec["model"]):
        k = "band"  # compute_noise_free_lightcurves takes no generator
    op = {"k": k, "n": p.choice(list(ns)), "seed": p.seed32()}
    if k in ("sed", "band", "sim", "query", "getobs", "observed"):
        op["v"] = p.int(0, 3)
    return op


def run_op(W, op, state=None, rng=None):
    """Execute one call; everything random comes from the op's own generator."""
    import lightcurvelynx.simulate as S
    from lightcurvelynx.graph_state import GraphState

    m, k, n, v = W.model, op["k"], op["n"], op.get("v", 0)
    rng = np.random.default_rng(op["seed"]) if rng is None else rng
    p = Prng("op", op["seed"])
    own = W.ctx.own
    t = own("times", np.array(TIMES))
    waves = own("wavelengths", WAVES.copy())
    filt = own("filters", np.array(FILT))
    sv = W.surveys[op["seed"] % len(W.surveys)] if W.surveys else None
    if k == "sample":
        return m.sample_parameters(num_samples=n, rng_info=rng)
    if k == "given":
        if m.node_pos is None:
            m.set_graph_positions()
        given = own("given_args", {str(m): {"t0": np.linspace(20.0, 40.0, n) if n > 1 else 33.0}})
        return m.sample_parameters(given_args=given, num_samples=n, rng_info=rng)
    if k == "sed":
        st = state if state is not None else (m.sample_parameters(num_samples=n, rng_info=rng) if v else None)
        return m.evaluate_sed(t, waves, st, rng_info=rng)
    if k == "band":
        st = state if state is not None else (m.sample_parameters(num_samples=n, rng_info=rng) if v else None)
        return m.evaluate_bandfluxes(W.passbands, t, filt, st, rng_info=rng)
    if k == "sim":
        kw = {}
        if v == 1:
            kw["time_window_offset"] = (30.0, 40.0)
        elif v == 2:
            kw["apply_obs_mask"] = True
        elif v == 3:
            kw["obstable_save_cols"] = own("save columns", ["visit"])
        if len(W.surveys) > 1:
            return S.simulate_lightcurves(m, n, W.surveys, [W.passbands] * len(W.surveys), rng=rng, **kw)
        return S.simulate_lightcurves(m, n, W.surveys[0], W.passbands, rng=rng, **kw)
    if k == "nf":
        st = m.sample_parameters(num_samples=min(n, 2), rng_info=rng)
        return S.compute_noise_free_lightcurves(m, st, W.passbands, rest_frame_phase_min=-10.0, rest_frame_phase_max=20.0,
                                                rest_frame_phase_step=10.0)
    if k in ("query", "getobs", "observed"):
        near = p.int(0, len(sv) - 1)
        ra = [float(sv["ra"].iloc[near]), 150.0 + p.uniform(-2, 2)]
        dec = [float(sv["dec"].iloc[near]), -10.0 + p.uniform(-2, 2)]
        ra = [a + p.choice([0.0, 0.0, -360.0, 360.0]) for a in ra]  # the same directions
        kw = {"t_min": 10.0, "t_max": 80.0} if v & 1 else {}
        if v & 1 and k != "getobs" and p.chance(0.3):
            kw = {"t_min": own("window starts", np.array([10.0, 20.0])), "t_max": own("window ends", np.array([80.0, 60.0]))}
        if v & 2:
            kw["radius"] = 2.5
        if k == "query":
            return [sorted(int(x) for x in r) for r in sv.range_search(own("ra", np.array(ra)), own("dec", np.array(dec)), **kw)]
        if k == "observed":
            return sv.is_observed(own("ra", np.array(ra)), own("dec", np.array(dec)), **kw)
        return sv.get_observations(ra[0], dec[0], cols=["time", "filter", "visit"], **kw)
    if k == "moc":
        moc = sv.build_moc(radius=1.0, max_depth=6)
        return [moc.sky_fraction, len(moc.flatten())]
    if k == "group":
        g = W.passbands
        f = own("flux matrix", np.cos(np.arange(3 * len(g.waves)).reshape(3, -1) * 0.01) + p.random())
        return [g.fluxes_to_bandfluxes(f), g.fluxes_to_bandflux(f, p.choice(g.filters)), g.wave_bounds()]
    if k == "err":
        idx = np.array([p.int(0, len(sv) - 1) for _ in range(3)])
        return sv.bandflux_error_point_source(np.array([10.0, 20.0, 5.0]), idx)
    if k == "dag":
        g = m.build_dependency_graph()
        return [sorted(g.all_params), {a: sorted(b) for a, b in g.incoming.items()}]
    if k == "mask":
        return m.mask_by_time(t, m.sample_parameters(num_samples=1, rng_info=rng))
    if k == "bounds":
        return [sv.time_bounds(), list(sv.columns), len(sv)]
    if k == "tools":
        return tools(W, rng, own, p)
    if k == "roundtrip":
        st = m.sample_parameters(num_samples=n, rng_info=rng)
        return [st.copy(), [s for s in st], GraphState.from_dict(st.to_dict(), num_samples=n)]
    raise KeyError(k)


def tools(W, rng, own, p):
    """Calls a user makes on effects, passbands and helper functions with arrays of their own."""
    import astropy.units as u

    from lightcurvelynx.astro_utils.mag_flux import flux2mag, mag2flux
    from lightcurvelynx.astro_utils.noise_model import apply_noise, poisson_bandflux_std
    from lightcurvelynx.astro_utils.redshift import obs_to_rest_times_waves, rest_to_obs_flux
    from lightcurvelynx.astro_utils.unit_utils import flam_to_fnu, fnu_to_flam
    from lightcurvelynx.utils.post_process_results import lightcurve_compute_mag, lightcurve_compute_snr

    t = own("times", np.array(TIMES))
    waves = own("wavelengths", WAVES.copy())
    sed = own("flux density", np.abs(np.cos(np.arange(len(t) * len(waves)).reshape(len(t), -1))) + 1.0 + p.random())
    f = own("fluxes", np.array([10.0, 20.0, 5.0, 7.5]) + p.random())
    e = own("uncertainties", np.array([1.0, 2.0, 0.5, 1.5]))
    out = []
    m = W.model
    if hasattr(m, "rest_frame_effects"):
        st = m.sample_parameters(num_samples=1, rng_info=rng)
        par = m.get_local_params(st)
        for eff in m.rest_frame_effects + m.obs_frame_effects:
            try:
                out.append(eff.apply(sed, times=t, wavelengths=waves, rng_info=rng, **par))
                out.append(eff.apply_bandflux(f, times=t[:4], filters=np.array(FILT)[:4], rng_info=rng, **par))
            except NotImplementedError:
                out.append("not implemented")
    out.append(apply_noise(f, e, rng=rng))
    out.append(poisson_bandflux_std(f, total_exposure_time=own("exposures", np.array([30.0, 15.0, 30.0, 30.0])), exposure_count=1, psf_footprint=own("footprints", np.array([20.0, 21.0, 22.0, 23.0])),
                                    sky=own("sky", np.array([1.0, 2.0, 3.0, 4.0])), zp=own("zero points", np.array([0.5, 0.6, 0.7, 0.8])), readout_noise=5.0, dark_current=0.1)
               if p.chance(0.5) else 0)
    out += [obs_to_rest_times_waves(t, waves, 0.3, 10.0), rest_to_obs_flux(sed, 0.3), mag2flux(own("magnitudes", np.array([20.0, 21.0]))), flux2mag(f)]
    units = {"wave_unit": u.AA, "flam_unit": u.erg / u.second / u.cm**2 / u.AA, "fnu_unit": u.nJy}
    out += [fnu_to_flam(sed, waves, **units), flam_to_fnu(sed * 1e-20, waves, **units)]
    out += [np.ma.filled(lightcurve_compute_snr(f, e), -1.0), [np.ma.filled(x, -1.0) for x in lightcurve_compute_mag(f, e)]]
    return out
