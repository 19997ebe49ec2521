"""C23..C25, C33: image quality equations, edge metrics, NIIRS end to end, monotone degradation."""
import copy

import numpy as np

from checks.atmos import scenario_expected
from checks.rad import check_snr
from vlib import gen, ref
from vlib import overlay as ov


def C23(ctx):
    import pybsm.metrics as m

    ctx.rule = "distinct (equation, arguments)"
    ctx.required = ["giqe3", "giqe4", "giqe4-projected-gsd", "giqe5", "giqe5-weighted-gsd", "giqe5-rer", "monotone-gsd", "monotone-snr", "monotone-gain", "monotone-overshoot", "coefficient-switch"]
    rng = ctx.rng
    for i in range(ctx.n(1800, 25000)):
        rer = float(rng.choice([0.9, 0.9 - 1e-12, 0.9 + 1e-12, 1.0, float(rng.uniform(0.05, 1.3)), float(rng.uniform(0.3, 1.0)), gen.lu(rng, 1e-5, 0.1), float(rng.uniform(1.3, 4))]))
        r2 = rer if rng.random() < 0.15 else float(rng.uniform(0.05, 1.3)) if rng.random() < 0.8 else gen.lu(rng, 1e-5, 3)
        gsd, eho, ng, snr = gen.nice(rng, 0.005, 300), float(rng.uniform(0.8, 1.9)), gen.nice(rng, 0.01, 30), gen.nice(rng, 0.05, 1e5)
        if rng.random() < 0.15:
            gsd, eho, ng, snr = gen.lu(rng, 1e-4, 1e4), gen.lu(rng, 0.2, 8), gen.lu(rng, 1e-4, 1e3), gen.lu(rng, 1e-3, 1e8)
        el = float(rng.choice([np.pi / 2, np.pi / 6, float(rng.uniform(0.02, np.pi / 2)), gen.lu(rng, 1e-4, 0.1)]))
        ctx.case((rer, r2, gsd, eho, ng, snr, el), {"rer": [rer, r2], "gsd": gsd, "eho": eho, "ng": ng, "snr": snr, "elevation": el})
        T = lambda x: np.float64(x) if rng.random() < 0.3 else gen.maybe_int(rng, x)
        a = float(ctx.call(m.giqe3, T(rer), T(gsd), T(eho), T(ng), T(snr)))
        ctx.close(a, ref.giqe3(rer, gsd, eho, ng, snr), "giqe3", rtol=1e-9, atol=1e-9)
        b, gp = ctx.call(m.giqe4, T(rer), T(gsd), T(eho), T(ng), T(snr), T(el))
        w, wg = ref.giqe4(rer, gsd, eho, ng, snr, el)
        ctx.close(b, w, "giqe4", rtol=1e-9, atol=1e-9, rer=rer)
        ctx.close(gp, wg, "giqe4-projected-gsd", rtol=1e-9)
        c, gw, rr = ctx.call(m.giqe5, T(rer), T(r2), T(gsd), T(snr), T(el))
        w, ww, wr = ref.giqe5(rer, r2, gsd, snr, el)
        ctx.close(c, w, "giqe5", rtol=1e-9, atol=1e-9)
        ctx.close(gw, ww, "giqe5-weighted-gsd", rtol=1e-9)
        ctx.close(rr, wr, "giqe5-rer", rtol=1e-9)
        c2, _, rr2 = ctx.call(m.giqe5, r2, rer, gsd, snr, el)
        ctx.close([c2, rr2], [c, rr], "giqe5-rer", rtol=1e-12)
        k = 1 + gen.lu(rng, 1e-3, 5)
        e = 1e-9 * (1 + ng / snr)
        for nm, fn in (("3", lambda g, h, n, s: float(ctx.call(m.giqe3, rer, g, h, n, s))), ("4", lambda g, h, n, s: float(ctx.call(m.giqe4, rer, g, h, n, s, el)[0]))):
            base = fn(gsd, eho, ng, snr)
            ctx.check(fn(gsd / k, eho, ng, snr) >= base - e, "monotone-gsd", "GIQE %s falls when GSD shrinks" % nm)
            ctx.check(fn(gsd, eho, ng, snr * k) >= base - e, "monotone-snr", "GIQE %s falls when SNR grows" % nm)
            ctx.check(fn(gsd, eho, ng / k, snr) >= base - e, "monotone-gain", "GIQE %s falls when gain falls" % nm)
            ctx.check(fn(gsd, eho / k, ng, snr) >= base - e, "monotone-overshoot", "GIQE %s falls when overshoot falls" % nm)
        ctx.check(float(ctx.call(m.giqe5, rer, r2, gsd / k, snr, el)[0]) >= c - e, "monotone-gsd", "GIQE 5 falls when GSD shrinks")
        # (a combined edge response above 1.9 makes the equation itself fall with SNR)
        ctx.check(np.cbrt(max(rer, r2) * min(rer, r2) ** 2) > 1.8 or float(ctx.call(m.giqe5, rer, r2, gsd, snr * k, el)[0]) >= c - e, "monotone-snr", "GIQE 5 falls when SNR grows")
        lo, hi = float(ctx.call(m.giqe4, 0.9 - 1e-9, gsd, eho, ng, snr, el)[0]), float(ctx.call(m.giqe4, 0.9, gsd, eho, ng, snr, el)[0])
        ctx.close([lo, hi], [ref.giqe4(0.9 - 1e-9, gsd, eho, ng, snr, el)[0], ref.giqe4(0.9, gsd, eho, ng, snr, el)[0]], "coefficient-switch", rtol=1e-9, atol=1e-9)


def ref_slices(ctx, mtf):
    """u and v slices by the reference, with as many samples as the code's slices have."""
    import pybsm.otf as otf

    out = []
    c = mtf.shape[0] // 2
    for ang in (0.0, np.pi / 2):
        q = np.asarray(otf.slice_otf(mtf, ang)).size
        s = ref.slice2d(mtf, ang)
        if q > s.size and mtf.shape[0] % 2:
            s = mtf[c, c:] if ang == 0 else mtf[c::-1, c]
        ctx.check(abs(q - s.size) <= 1, "slice-length", "%d samples, expected %d" % (q, s.size))
        out.append(s[:q])
    return out


def eho_options(mtf, df, ifov):
    e = np.array([ref.edge(1 + 0.25 * k, mtf, df, ifov) for k in range(9)])
    d = np.diff(e)
    if np.all(d > 1e-9):
        return [e[1]]
    if np.any(d < -1e-9):
        return [e.max()]
    return [e[1], e.max()]


def close_any(ctx, got, options, monitor, tol, **d):
    ctx.monitors[monitor] += 1
    g = float(got)
    if not any(abs(g - o) <= tol * (1 + abs(o)) or (np.isnan(g) and np.isnan(o)) for o in options):
        ctx.fail(monitor, "got %r, expected %s" % (g, options), **d)


def C24(ctx):
    import pybsm.metrics as m
    import pybsm.otf as otf

    ctx.rule = "distinct (MTF, spacing, pixel size, position)"
    ctx.required = ["edge-response", "relative-edge-response", "overshoot", "overshoot-monotone", "overshoot-ringing", "geometric-mean-rer", "geometric-mean-overshoot", "directional-rer", "ground-resolved-distance", "grd-pixel-limited", "grd-mtf-limited"]
    rng = ctx.rng
    for i in range(ctx.n(500, 4000)):
        n = int(rng.choice([2, 11, 50, 51, 101, 400]))
        cut = gen.lu(rng, 1e2, 1e7)
        df = cut / (n - 1)
        ifov = gen.lu(rng, 0.15, 2.0) / cut
        x = np.linspace(0, 1, n)
        k = int(rng.integers(5))
        if k == 0:
            s = np.clip(1 - x, 0, 1) ** rng.uniform(0.5, 3)
        elif k == 1:
            s = np.exp(-rng.uniform(0.5, 8) * x * x)
        elif k == 2:  # sharpened
            s = (1 - x) * (1 + rng.uniform(0.5, 6) * np.sin(np.pi * np.minimum(x * rng.uniform(0.7, 1.4), 1)) ** 2)
        elif k == 3:
            s = rng.uniform(0, 1, n)
        else:
            s = np.abs(np.sinc(x * rng.uniform(0.8, 2.5))) * (1 - x)
        pos = float(rng.choice([0.0, 0.5, -0.5, 1.25, 3.0, float(rng.uniform(-4, 4)), float(rng.uniform(-60, 60))]))
        ctx.case((s, df, ifov, pos), {"n": n, "df": df, "ifov*cutoff": ifov * cut, "kind": k, "position": pos})
        tol = 1e-7 + 2e-6 / df
        e = ctx.call(m.edge_response, gen.maybe_int(rng, pos), gen.layout(rng, s), df, ifov)
        ctx.close(e, ref.edge(pos, s, df, ifov), "edge-response", rtol=tol, atol=tol + 2e-5 * np.pi * ifov * abs(pos), pos=pos)
        r = ctx.call(m.relative_edge_response, gen.layout(rng, s), df, ifov)
        ctx.close(r, ref.rer(s, df, ifov), "relative-edge-response", rtol=tol, atol=tol)
        h = ctx.call(m.edge_height_overshoot, s, df, ifov)
        opts = eho_options(s, df, ifov)
        close_any(ctx, h, opts, "overshoot", tol, kind=k, df=df, ifov=ifov)
        if len(opts) == 1:
            ctx.monitors["overshoot-monotone" if abs(opts[0] - ref.edge(1.25, s, df, ifov)) < 1e-12 else "overshoot-ringing"] += 1
        # directional terms on an anisotropic 2-D MTF, rows running down in v
        n2 = int(rng.choice([21, 51, 101]))
        t = np.linspace(-1, 1, n2)
        U, V = np.meshgrid(t, -t)
        p, q = rng.uniform(0.3, 6, 2)
        M = np.exp(-p * np.abs(U) ** rng.uniform(0.8, 2.2) - q * np.abs(V) ** rng.uniform(0.8, 2.2)) * (np.hypot(U, V) < 1)
        if rng.random() < 0.3:
            M = M * (1 + rng.uniform(0.2, 3) * np.sin(np.pi * np.minimum(np.hypot(U, V * rng.uniform(0.5, 1.5)), 1)) ** 2)
        if rng.random() < 0.2:  # not point symmetric
            M = M * (1 + 0.3 * U + 0.2 * V)
        d2 = 2 * cut / (n2 - 1)
        ix, iy = gen.pair(rng, lambda: gen.lu(rng, 0.15, 1.0) / cut)
        su, sv = ref_slices(ctx, M)
        ctx.case((M, d2, ix, iy), {"n": n2, "ifov*cutoff": [ix * cut, iy * cut]})
        a, b = ctx.call(m.giqe5_RER, gen.layout(rng, M), d2, ix, iy)
        wx, wy = ref.rer(su, d2, ix), ref.rer(sv, d2, iy)
        ctx.close([a, b], [wx, wy], "directional-rer", rtol=1e-6, atol=1e-7)
        g, o = ctx.call(m.giqe_edge_terms, gen.layout(rng, M), d2, ix, iy)
        if wx * wy > 0:
            ctx.close(g, np.sqrt(wx * wy), "geometric-mean-rer", rtol=1e-6, atol=1e-7)
        close_any(ctx, o, [np.sqrt(A * B) for A in eho_options(su, d2, ix) for B in eho_options(sv, d2, iy) if A * B >= 0] or [float(o)], "geometric-mean-overshoot", 1e-6)
        # ground resolved distance on a falling MTF
        mono = np.sort(rng.uniform(0, 1, n))[::-1] if k == 3 else np.exp(-rng.uniform(1, 6) * x) - 1e-9 * x
        mono = mono / mono[0]
        mono = np.minimum.accumulate(mono - 1e-12 * np.arange(n))
        snr, R = gen.lu(rng, 1.5, 3000), gen.lu(rng, 10, 1e6)
        ctx.case(("grd", mono, df, snr, ifov, R), {"snr": snr, "range": R})
        gd = ctx.call(m.ground_resolved_distance, gen.layout(rng, mono), df, snr, ifov, R)
        w = ref.grd(mono, df, snr, ifov, R)
        ctx.close(gd, w, "ground-resolved-distance", rtol=1e-7, snr=snr)
        ctx.monitors["grd-pixel-limited" if w <= 2 * ifov * R * (1 + 1e-9) else "grd-mtf-limited"] += 1


# ---------------------------------------------------------------------------
def nm_reference(ctx, s, sc, interp):
    """Atmosphere the models must use, on the wavelength values the package itself reports."""
    from pybsm import utils

    exp = scenario_expected(interp, sc.altitude, sc.ground_range, sc.ihaze)
    f = utils.load_database_atmosphere if interp else utils.load_database_atmosphere_no_interp
    wl = np.asarray(f(sc.altitude, sc.ground_range, sc.ihaze))[:, 0]
    t = exp.copy()
    t[:, 0] = wl
    return ref.in_band(t, s.opt_trans_wavelengths[0], s.opt_trans_wavelengths[-1])


def audit_niirs(ctx, which, nm, s, sc, atm, before):
    d = dict(sensor=s, scenario=sc, model=which)
    R = 2e-6
    em = s.opt_trans_wavelengths[0] >= 2.9e-6
    true = ref.slant(0, sc.altitude, sc.ground_range)
    ctx.close(nm.slant_range, true, "slant-range", rtol=1e-9, atol=ref.slant_tol(0, sc.altitude, true), **d)
    ctx.close(nm.radiance_wavelengths, atm[:, 0], "in-band-atmosphere", rtol=1e-12, **d)
    ctx.close(nm.atm, atm, "in-band-atmosphere", rtol=R, atol=R * np.abs(atm).max(axis=0), **d)
    wl = atm[:, 0]
    tg, bg = ref.scene(atm, 0.0 if em else 0.15, 282.0), ref.scene(atm, 0.0 if em else 0.07, 280.0)
    ctx.close(nm.tgt_radiance, tg, "scene-radiances", rtol=R, **d)
    ctx.close(nm.bkg_radiance, bg, "scene-radiances", rtol=R, **d)
    ctx.monitors["emissive" if em else "reflective"] += 1
    # SNR from the reported radiances (so that single-precision table rounding does not accumulate)
    w = ref.snr(s, np.asarray(nm.radiance_wavelengths), np.asarray(nm.tgt_radiance), np.asarray(nm.bkg_radiance))
    check_snr(ctx, nm.snr, w, **d)
    q = nm.snr
    lam = np.asarray(nm.radiance_wavelengths)
    path = np.asarray(nm.atm)[:, 2] + np.asarray(nm.atm)[:, 4]
    T = w["int_time"] * s.n_tdi
    pn = ref.trapz(ref.rate_spectrum(w["opt_trans"] * ref.cone(s.D, s.f) * path, s.w_x, s.w_y, lam, w["qe"]), lam) * T
    ctx.close(q.path_noise**2, pn, "path-noise", rtol=1e-7, **d)
    top = max(w["tgt_n"], w["bkg_n"])
    parts = q.scene_noise**2 + q.path_noise**2 + q.self_emission_noise**2 + q.dark_current_noise**2
    ctx.close(parts, top, "variance-bookkeeping", rtol=1e-7, **d)
    keep = w["weights"] > 0
    ctx.close(nm.mtf_wavelengths, lam[keep], "band-weights", rtol=0, **d)
    ctx.close(nm.mtf_weights, w["weights"][keep], "band-weights", rtol=1e-8, **d)
    cut = s.D / lam[keep].min()
    ctx.close(nm.cutoff_frequency, cut, "cutoff", rtol=1e-10, **d)
    uu, vv = np.asarray(nm.uu), np.asarray(nm.vv)
    n0, n1 = uu.shape
    gu, gv = np.meshgrid(np.linspace(-1, 1, n1) * cut, np.linspace(1, -1, n0) * cut)
    ctx.check(n0 >= 51 and n0 == n1 and n0 % 2 == 1, "frequency-grid", "grid %s" % (uu.shape,), **d)
    ctx.close(uu, gu, "frequency-grid", rtol=1e-9, atol=1e-9 * cut, **d)
    ctx.close(vv, gv, "frequency-grid", rtol=1e-9, atol=1e-9 * cut, **d)
    ctx.close(nm.df, 2 * cut / (n1 - 1), "frequency-grid", rtol=1e-9, **d)
    plain = copy.deepcopy(s)
    if which == "niirs5":
        plain.filter_kernel = np.array([1])
    # sub-sample the grid for the reference OTF
    iu, iv = np.unique(np.r_[0, n0 // 2, n0 - 1, ctx.rng.integers(0, n0, 18)]), np.unique(np.r_[0, n1 // 2, n1 - 1, ctx.rng.integers(0, n1, 18)])
    ix = np.ix_(iu, iv)
    r = ref.common(plain, sc, uu[ix], vv[ix], lam[keep], w["weights"][keep], float(nm.slant_range), w["int_time"])
    o = nm.otf
    slop = 1e-6 + 4 * min(1.0, ref.slant_tol(0, sc.altitude, true) / 50.0) if sc.cn2_at_1m > 0 else 0
    for k, rt, at in (("ap_OTF", 0, 2e-8), ("turb_OTF", slop, 2 * slop), ("det_OTF", 1e-9, 1e-11), ("jit_OTF", 1e-9, 1e-280), ("drft_OTF", 1e-8, 1e-10), ("wav_OTF", 1e-8, 0)):
        ctx.close(np.asarray(getattr(o, k))[ix], r[k], "otf-terms", rtol=rt, atol=at, term=k, **d)
    if plain.filter_kernel.size > 1:
        kk = np.atleast_2d(np.asarray(plain.filter_kernel, float))
        rr, cc = np.indices(kk.shape)
        ex = ref.kernel_dft(uu[ix], vv[ix], kk, s.p_x / s.f)
        res = 0.0125 * 4 * np.pi * float(np.sum(np.abs(kk) * np.maximum(np.abs(rr - kk.shape[0] // 2), np.abs(cc - kk.shape[1] // 2)))) + 1e-9
        per = 1 / (s.p_x / s.f)
        edge = np.minimum(np.abs((uu[ix] / per) % 1 - 0.5), np.abs((vv[ix] / per) % 1 - 0.5))
        ok = edge > 1e-9
        ctx.close(np.asarray(o.filter_OTF)[ix][ok], ex[ok], "otf-terms", rtol=0, atol=res, term="filter_OTF", **d)
    else:
        ctx.close(np.asarray(o.filter_OTF), np.ones(uu.shape), "sharpening-excluded" if which == "niirs5" else "otf-terms", rtol=0, **d)
        if which == "niirs5" and np.size(s.filter_kernel) > 1:
            ctx.monitors["sharpening-excluded"] += 1
    prod = o.ap_OTF * o.turb_OTF * o.det_OTF * o.jit_OTF * o.drft_OTF * o.wav_OTF * o.filter_OTF
    ctx.close(o.system_OTF, prod, "otf-product", rtol=1e-11, atol=1e-290, **d)
    ctx.close([nm.ifov_x, nm.ifov_y, nm.gsd_x], [s.p_x / s.f, s.p_y / s.f, s.p_x / s.f * nm.slant_range], "pixel-sizes", rtol=1e-10, **d)
    M = np.abs(np.asarray(o.system_OTF))
    su, sv = ref_slices(ctx, M)
    rx, ry = ref.rer(su, nm.df, nm.ifov_x), ref.rer(sv, nm.df, nm.ifov_y)
    with np.errstate(all="ignore"):
        el = np.pi / 2 - float(np.arccos(min(max(float(ref.cosnadir(0.0, sc.altitude, nm.slant_range)), -1), 1)))
    tol_el = np.sqrt(2 * 64 * 2.3e-16 * (ref.RE + sc.altitude) / nm.slant_range) + 1e-7
    ctx.close(nm.elev_angle, el, "elevation", rtol=0, atol=tol_el, **d)
    snr = np.sqrt(s.frame_stacks) * q.snr
    with np.errstate(all="ignore"):
        if which == "niirs":
            ctx.close([nm.gsd_y, nm.gsd_gm], [s.p_y / s.f * nm.slant_range, np.sqrt(s.p_x * s.p_y) / s.f * nm.slant_range], "pixel-sizes", rtol=1e-10, **d)
            if rx * ry > 1e-8:
                ctx.close(nm.rer_gm, np.sqrt(rx * ry), "edge-terms", rtol=1e-6, atol=1e-7, **d)
            close_any(ctx, nm.eho_gm, [np.sqrt(A * B) for A in eho_options(su, nm.df, nm.ifov_x) for B in eho_options(sv, nm.df, nm.ifov_y)], "edge-terms", 1e-6, **d)
            ng = np.sqrt(np.sum(np.square(np.asarray(s.filter_kernel, float))))
            ctx.close(nm.ng, ng, "noise-gain", rtol=1e-10, **d)
            ctx.close(nm.niirs, ref.giqe3(nm.rer_gm, nm.gsd_gm, nm.eho_gm, ng, snr), "rating", rtol=1e-9, atol=1e-9, **d)
            n4, gp = ref.giqe4(nm.rer_gm, nm.gsd_gm, nm.eho_gm, ng, snr, nm.elev_angle)
            ctx.close([nm.niirs_4, nm.gsd_gp], [n4, gp], "rating", rtol=1e-9, atol=1e-9, **d)
        else:
            ctx.close([nm.rer_0, nm.rer_90], [rx, ry], "edge-terms", rtol=1e-6, atol=1e-7, **d)
            n5, gw, rr = ref.giqe5(nm.rer_0, nm.rer_90, nm.gsd_x, snr, nm.elev_angle)
            ctx.close([nm.niirs, nm.gsd_w], [n5, gw], "rating", rtol=1e-9, atol=1e-9, **d)
            if min(nm.rer_0, nm.rer_90) > 0:
                ctx.close(nm.rer, rr, "rating", rtol=1e-9, **d)
    if s.frame_stacks > 1:
        ctx.monitors["stacked"] += 1
    # scenario fields after the run
    want = dict(before)
    want.update(dict(target_reflectance=0.0, background_reflectance=0.0, target_temperature=282.0, background_temperature=280.0) if em else dict(target_reflectance=0.15, background_reflectance=0.07))
    for k, v in want.items():
        ctx.check(getattr(sc, k) == v, "scenario-fields", "scenario.%s is %r, expected %r" % (k, getattr(sc, k), v), **d)
    ctx.check(nm.sensor is s or nm.sensor.__dict__.keys() == s.__dict__.keys(), "reported-objects", "result does not carry the sensor")
    ctx.check(nm.scenario is sc or nm.scenario.altitude == sc.altitude, "reported-objects", "result does not carry the scenario")


SC_FIELDS = ["name", "ihaze", "altitude", "ground_range", "aircraft_speed", "target_reflectance", "target_temperature", "background_reflectance",
             "background_temperature", "ha_wind_speed", "cn2_at_1m"]


def C25(ctx):
    import pybsm.metrics as m
    from pybsm.simulation import Scenario, Sensor
    from vlib.core import digest

    ctx.rule = "distinct (sensor, scenario, model) evaluated; every reported intermediate audited"
    ctx.required = ["slant-range", "in-band-atmosphere", "scene-radiances", "path-noise", "variance-bookkeeping", "band-weights", "cutoff", "frequency-grid", "otf-terms", "otf-product",
                    "pixel-sizes", "edge-terms", "noise-gain", "rating", "elevation", "scenario-fields", "sensor-unchanged", "emissive", "reflective", "sharpening-excluded", "stacked", "repeatable", "one-field-changed"]
    rng = ctx.rng
    kinds = ["vis", "nir", "swir", "mwir", "lwir", "odd"]
    for i in range(ctx.n(24, 200)):
        kind = kinds[i % 6]
        if i % 6 == 5 and rng.random() < 0.7:
            lo = float(rng.choice([2.75, 2.89, 2.9, 2.91, 3.05])) * 1e-6
            s = gen.sensor(rng, Sensor, bandlim=(lo, lo + float(rng.uniform(0.05, 0.5)) * 1e-6))
            lo_, hi_ = s.opt_trans_wavelengths[[0, -1]]
            s.qe_wavelengths = np.array([lo_, hi_])
            s.qe = np.ones(2)
        else:
            s = gen.sensor(rng, Sensor, kind=kind)
            if rng.random() < 0.3:  # band limits on round numbers, as people type them
                lo = np.round(s.opt_trans_wavelengths[0] * 1e8) * 1e-8
                s.opt_trans_wavelengths = np.array([lo, lo + float(rng.choice([5, 20, 30])) * 1e-8])
                s.optics_transmission = np.array([1.0, 0.8])
                s.qe_wavelengths = s.opt_trans_wavelengths
                s.qe = np.array([0.5, 0.9])
        if rng.random() < 0.2:  # a band with feeble ends
            lo, hi = s.opt_trans_wavelengths[[0, -1]]
            s.qe_wavelengths = np.linspace(lo, hi, 6)
            s.qe = np.array([1, 2, 30, 100, 3, 1]) * gen.lu(rng, 1e-4, 9e-3)
        sc = gen.scenario(rng, Scenario, ov)
        interp = bool(sc.verif_interp)
        if scenario_expected(interp, sc.altitude, sc.ground_range, sc.ihaze) is None:
            continue
        if rng.random() < 0.5:
            sc.target_temperature, sc.background_temperature = 305.0, 290.5
            sc.target_reflectance, sc.background_reflectance = 0.4, 0.2
        atm = nm_reference(ctx, s, sc, interp)
        if atm.shape[0] < 2 or not np.any(ref.sensor_response(s, atm[:, 0])[1] > 0):
            continue
        order = ["niirs", "niirs5"]
        rng.shuffle(order)
        if rng.random() < 0.3:
            order.append(order[0])
        out = {}
        for which in order:
            ctx.case((s, sc, which, interp), {"model": which, "sensor": s, "scenario": sc, "interp": interp})
            before = {k: getattr(sc, k) for k in SC_FIELDS}
            ds = digest(s)
            fn = getattr(m, which)
            args = (s, sc) if not interp and rng.random() < 0.5 else (s, sc, interp)
            nm = ctx.call(fn, *args, pure=False)
            ctx.check(digest(s) == ds, "sensor-unchanged", "the sensor was modified by %s" % which, sensor=s)
            audit_niirs(ctx, which, nm, s, sc, atm, before)
            if which in out:
                ctx.close(nm.niirs, out[which].niirs, "repeatable", rtol=1e-12)
            elif len(out) == 1 and rng.random() < 0.5:
                nm2 = ctx.call(fn, s, sc, interp, pure=False)
                ctx.close(nm2.niirs, nm.niirs, "repeatable", rtol=1e-12)
            out[which] = nm
    # -------------------------------------------------------------- one field changed, one after the other
    ones = {}
    for kind in (["vis", "lwir", "mwir"][ctx.shard % 3],) if ctx.tier == "quick" else ("vis", "mwir", "lwir"):
        while True:
            s, sc = gen.sensor(rng, Sensor, kind=kind, filt=False), gen.scenario(rng, Scenario, ov, minalt=30)
            if not np.any(ref.in_band(ov.atm_record(1), *s.opt_trans_wavelengths[[0, -1]])[:, 0]):
                continue
            s.qe_wavelengths, s.qe = np.array(s.opt_trans_wavelengths)[[0, -1]], np.array([0.6, 0.8])
            atm = nm_reference(ctx, s, sc, bool(sc.verif_interp))
            if scenario_expected(bool(sc.verif_interp), sc.altitude, sc.ground_range, sc.ihaze) is not None and atm.shape[0] >= 3 and np.any(ref.sensor_response(s, atm[:, 0])[1] > 0):
                break
        gen.live_base(rng, s, sc)
        ch = gen.field_changes(rng, sc)
        rng.shuffle(ch)
        for what, how in [("first", None)] + ch:
            if how is not None:
                how(s, sc)
            if what == "opt_trans_wavelengths":
                s.qe_wavelengths = np.array(s.opt_trans_wavelengths)[[0, -1]]
            ones[what] = ones.get(what, 0) + 1
            atm = nm_reference(ctx, s, sc, bool(sc.verif_interp))
            if atm.shape[0] < 2:
                break
            for which in ("niirs", "niirs5"):
                ctx.case((s, sc, which, what), {"changed": what, "model": which, "sensor": s, "scenario": sc})
                before = {k: getattr(sc, k) for k in SC_FIELDS}
                nm = ctx.call(getattr(m, which), s, sc, bool(sc.verif_interp), pure=False)
                if what != "first":
                    ctx.monitors["one-field-changed"] += 1
                audit_niirs(ctx, which, nm, s, sc, atm, before)
    ctx.extra["single_field_changes"] = ones


# ---------------------------------------------------------------------------
def C33(ctx):
    import pybsm.metrics as m
    import pybsm.otf as otf
    import pybsm.radiance as r
    from pybsm.simulation import Scenario, Sensor

    ctx.rule = "distinct ordered pairs of systems differing in one degradation"
    ctx.required = ["component", "edge-response", "snr", "snr-ladder", "component-ladder", "niirs", "stacks"]
    rng = ctx.rng
    names = {"jitter": ("jit_OTF",), "drift": ("drft_OTF",), "wavefront": ("wav_OTF",), "turbulence": ("turb_OTF",), "detector": ("det_OTF",)}
    for i in range(ctx.n(60, 500)):
        s = gen.sensor(rng, Sensor, filt=False)
        lo, hi = s.opt_trans_wavelengths[[0, -1]]
        # cutoff not beyond the sampling frequency, detector and drift inside their first zero
        need = max(s.D / lo * max(s.p_x, s.p_y) / s.f, 1e-9)
        if need > 1:
            k = 0.999 / need
            for a in ("p_x", "p_y", "w_x", "w_y"):
                setattr(s, a, getattr(s, a) * k)
        if rng.random() < 0.3:  # badly degraded to start with
            s.pv = gen.lu(rng, 0.3, 12)
            s.s_x, s.s_y = (gen.lu(rng, 0.1, 3) * s.p_x / s.f for _ in range(2))
        cut = s.D / lo
        t = s.int_time * s.n_tdi
        s.da_x, s.da_y = min(s.da_x, 0.9 / cut / t), min(s.da_y, 0.9 / cut / t)
        sc = Scenario("x", 1, gen.lu(rng, 30, 6e5), 0.0, aircraft_speed=gen.amp(rng, 1, 300, 0.3), ha_wind_speed=gen.amp(rng, 5, 40), cn2_at_1m=gen.nice(rng, 1e-17, 5e-14))
        wl = np.sort(rng.uniform(lo, hi, int(rng.integers(1, 4))))
        wt = rng.uniform(0.1, 1, wl.size)
        n = 41
        uu, vv = np.meshgrid(np.linspace(-1, 1, n) * s.D / wl.min(), np.linspace(1, -1, n) * s.D / wl.min())
        base = ctx.call(otf.common_OTFs, s, sc, uu, vv, wl, wt, sc.altitude, s.int_time)
        inside = np.hypot(uu, vv) <= s.D / wl.max()
        df = uu[0, 1] - uu[0, 0]
        e0 = ctx.call(m.giqe5_RER, np.abs(base.system_OTF), df, s.p_x / s.f, s.p_y / s.f)
        for what in names:
            s2, sc2 = copy.deepcopy(s), copy.deepcopy(sc)
            k = 1 + gen.lu(rng, 0.05, 3 if rng.random() < 0.6 else 60)
            ax = str(rng.choice(["x", "y"]))
            if what == "jitter":
                a = "s_" + ax
                setattr(s2, a, getattr(s, a) * k + 0.1 * s.p_x / s.f * (getattr(s, a) == 0))
            elif what == "drift":
                a = "da_" + ax
                setattr(s2, a, min(getattr(s, a) * k + 0.2 / cut / t, 1.0 / cut / t))
            elif what == "wavefront":
                s2.pv = s.pv * k + 0.05
            elif what == "turbulence":
                sc2.cn2_at_1m = sc.cn2_at_1m * k
            else:
                a = "w_" + ax
                p = getattr(s, "p_" + ax)
                setattr(s2, a, min(getattr(s, a) * k, max(p, getattr(s, a))))
            ctx.case((what, s, s2, sc2.cn2_at_1m, wl), {"degradation": what, "factor": k, "axis": ax})
            o = ctx.call(otf.common_OTFs, s2, sc2, uu, vv, wl, wt, sc.altitude, s.int_time)
            for c in names[what]:
                a, b = np.abs(getattr(base, c))[inside], np.abs(getattr(o, c))[inside]
                ctx.check(np.all(b <= a + 1e-9), "component", "%s grew when %s was increased (by %g)" % (c, what, np.max(b - a)), sensor=s, worse=s2)
            e = ctx.call(m.giqe5_RER, np.abs(o.system_OTF), df, s.p_x / s.f, s.p_y / s.f)
            if s.D / wl.min() * max(s.p_x, s.p_y) / s.f <= 1.0 and not (what == "turbulence" and np.any(~inside & (np.abs(o.turb_OTF) > np.abs(base.turb_OTF) + 1e-12) & (np.abs(base.ap_OTF) > 0))):
                ctx.check(e[0] <= e0[0] + 1e-9 and e[1] <= e0[1] + 1e-9, "edge-response", "edge response grew when %s was increased: %r -> %r" % (what, e0, e), sensor=s, worse=s2)
        # SNR against noise sources
        rec = ref.in_band(ov.atm_record(int(rng.integers(1, 3431))), lo, hi)
        if rec.shape[0] >= 2:
            tg, bg = ref.scene(rec, float(rng.uniform(0, 1)), 290.0), ref.scene(rec, float(rng.uniform(0, 1)), 285.0)
            q0 = ctx.call(r.photon_detector_SNR, s, rec[:, 0], tg, bg)
            for a in ("read_noise", "dark_current", "optics_emissivity", "cold_shield_temperature", "cold_filter_emissivity", "other_noise", "optics_temperature", "cold_filter_temperature"):
                s2 = copy.deepcopy(s)
                if a == "other_noise":
                    s2.other_noise = np.append(np.asarray(s.other_noise, float), gen.lu(rng, 1, 1e3) if rng.random() < 0.7 else gen.lu(rng, 1e3, 1e9))
                elif "emissivity" in a:
                    setattr(s2, a, min(1.0, getattr(s, a) + float(rng.uniform(0.01, 0.5))))
                elif "temperature" in a:
                    setattr(s2, a, getattr(s, a) + float(rng.uniform(1, 100)))
                else:
                    setattr(s2, a, getattr(s, a) * 2 + gen.lu(rng, 1, 1e5))
                ctx.case((a, s, getattr(s2, a)), {"noise": a})
                q = ctx.call(r.photon_detector_SNR, s2, rec[:, 0], tg, bg)
                ctx.check(abs(q.snr) <= abs(q0.snr) * (1 + 1e-8) + 1e-12, "snr", "SNR grew when %s was increased: %r -> %r" % (a, q0.snr, q.snr), sensor=s, worse=s2)
            # ladders: one noise source raised step by step over many decades
            a = ("read_noise", "dark_current", "other_noise", "optics_emissivity", "optics_temperature", "cold_shield_temperature")[i % 6]
            if "emissivity" in a:
                steps = np.linspace(1e-4, 1, 40)
            elif "temperature" in a:
                steps = np.geomspace(20, 1500, 40)
            else:
                steps = np.geomspace(gen.lu(rng, 1e-3, 1e-1), 1e13 if a == "dark_current" else gen.lu(rng, 1e7, 1e9), 110)
            last, kept = None, copy.deepcopy(s)
            for x in steps:
                setattr(kept, a, np.array([x]) if a == "other_noise" else float(x))
                q = ctx.call(r.photon_detector_SNR, kept, rec[:, 0], tg, bg, pure=False)
                if last is not None and np.isfinite(q.snr):
                    ctx.case(("ladder", a, s, x), {"noise": a, "value": float(x)})
                    if a in ("read_noise", "other_noise") and x > 1e3 * q0.total_noise:
                        # there the raised source is the whole noise
                        ctx.close(abs(q.snr) * x, abs(q.tgt_n - q.bkg_n), "snr-ladder", rtol=1e-4, atol=1e-6 * max(q.tgt_n, q.bkg_n), sensor=kept)
                    ctx.check(abs(q.snr) <= abs(last[1]) * (1 + 1e-8) + 1e-12, "snr-ladder", "SNR grew from %r to %r as %s rose from %r to %r" % (last[1], q.snr, a, last[0], float(x)), sensor=kept)
                if np.isfinite(q.snr):
                    last = (float(x), q.snr)
            # the same for one degradation of the image chain
            what = ("jitter", "wavefront", "turbulence", "drift", "detector")[i % 5]
            kept, sck = copy.deepcopy(s), copy.deepcopy(sc)
            last = None
            ax = str(rng.choice(["x", "y"]))
            pit = getattr(s, "p_" + ax)
            steps = {"jitter": np.geomspace(1e-3, 30, 24) * s.p_x / s.f, "wavefront": np.geomspace(1e-3, 40, 24), "turbulence": np.geomspace(1e-18, 1e-11, 24),
                     "drift": np.linspace(0, 1, 24) / cut / t, "detector": np.geomspace(0.02, 1, 24) * pit}[what]
            for x in steps:
                if what == "turbulence":
                    sck.cn2_at_1m = float(x)
                else:
                    setattr(kept, {"jitter": "s_" + ax, "drift": "da_" + ax, "wavefront": "pv", "detector": "w_" + ax}[what], float(x))
                o = ctx.call(otf.common_OTFs, kept, sck, uu, vv, wl, wt, sc.altitude, s.int_time, pure=False)
                h = np.abs(getattr(o, names[what][0]))[inside]
                ctx.case(("rung", what, s, x), {"degradation": what, "value": float(x)})
                if last is not None:
                    ctx.check(np.all(h <= last[1] + 1e-9), "component-ladder", "%s grew by %g as the %s amplitude rose from %r to %r" % (names[what][0], np.max(h - last[1]), what, last[0], float(x)), sensor=kept)
                last = (float(x), h)
    # end to end ratings
    for i in range(ctx.n(8, 60)):
        s = gen.sensor(rng, Sensor, filt=False, kind=str(rng.choice(["vis", "nir", "mwir", "lwir"])))
        lo, hi = s.opt_trans_wavelengths[[0, -1]]
        need = s.D / lo * max(s.p_x, s.p_y) / s.f
        if need > 1:
            for a in ("p_x", "p_y", "w_x", "w_y"):
                setattr(s, a, getattr(s, a) * 0.99 / need)
        cut, t = s.D / lo, s.int_time * s.n_tdi
        s.da_x, s.da_y = min(s.da_x, 0.9 / cut / t), min(s.da_y, 0.9 / cut / t)
        sc = gen.scenario(rng, Scenario, ov, interp=False, minalt=30)
        if sc.cn2_at_1m == 0:
            sc.cn2_at_1m = 1e-17
        b3, b5 = ctx.call(m.niirs, s, sc, pure=False), ctx.call(m.niirs5, s, sc, pure=False)
        if not (b3.snr.snr > 0 and np.isfinite(b5.niirs) and max(b5.rer_0, b5.rer_90) <= 1 and min(b5.rer_0, b5.rer_90) > 0):
            continue
        for what in ("jitter", "wavefront", "turbulence", "read", "other", "stack"):
            s2, sc2 = copy.deepcopy(s), copy.deepcopy(sc)
            if what == "jitter":
                a = str(rng.choice(["s_x", "s_y"]))
                setattr(s2, a, getattr(s, a) * 1.4 + 0.1 * s.p_x / s.f)
            elif what == "wavefront":
                s2.pv = s.pv * 1.5 + 0.1
            elif what == "turbulence":
                sc2.cn2_at_1m = sc.cn2_at_1m * gen.lu(rng, 1.1, 100)
            elif what == "read":
                s2.read_noise = s.read_noise * 2 + gen.lu(rng, 1, 1e3)
            elif what == "other":
                s2.other_noise = np.append(np.asarray(s.other_noise, float), gen.lu(rng, 1, 1e3))
            else:
                s2.frame_stacks = s.frame_stacks + int(rng.integers(1, 9))
            ctx.case((what, s, sc2), {"degradation": what, "sensor": s, "scenario": sc2})
            n5 = ctx.call(m.niirs5, s2, sc2, pure=False).niirs
            if what == "stack":
                n3 = ctx.call(m.niirs, s2, sc2, pure=False)
                ctx.check(n5 >= b5.niirs - 1e-9 and n3.niirs >= b3.niirs - 1e-9 and n3.niirs_4 >= b3.niirs_4 - 1e-9, "stacks", "stacking frames lowered a rating", sensor=s)
                continue
            # wavelengths other than the shortest have a smaller cutoff; the product vanishes there
            ctx.check(not n5 > b5.niirs + 1e-7, "niirs", "GIQE 5 rating grew when %s was increased: %r -> %r" % (what, b5.niirs, n5), sensor=s, worse=s2)
            if what in ("read", "other"):
                n3 = ctx.call(m.niirs, s2, sc2, pure=False)
                ctx.check(n3.niirs <= b3.niirs + 1e-9 and n3.niirs_4 <= b3.niirs_4 + 1e-9, "niirs", "rating grew when %s noise was increased" % what, sensor=s)
