"""C18..C22: radiometry, signal chain, SNR budget, reflectance curve."""
import numpy as np

from vlib import gen, ref
from vlib import overlay as ov


def spectrum(rng, n=None):
    """A wavelength grid: database-like, uneven, single-element or reversed-free arbitrary."""
    k = int(rng.integers(5))
    if k == 0:
        lo = int(rng.integers(0, 1300))
        hi = int(rng.integers(lo + 2, 1371))
        return ov.wavelengths()[lo:hi]
    if k == 1:
        return np.array([gen.lu(rng, 3e-7, 1.4e-5)])
    m = n or int(rng.choice([2, 3, 10, 200]))
    return np.unique(rng.uniform(3e-7, 1.4e-5, m))


def table(rng, sub=True):
    """An atmosphere table: a database record or a scrambled one, possibly trimmed to a band."""
    t = ov.atm_record(int(rng.integers(1, 3431))).copy()
    if rng.random() < 0.3:
        t[:, 1:] *= rng.uniform(0.2, 1.5, (1, 5))
    if rng.random() < 0.2:
        # no relation between columns at all
        t[:, 1] = rng.uniform(0, 1, ov.NW)
        t[:, 2:] = rng.uniform(0, 1e8, (ov.NW, 4))
    if sub and rng.random() < 0.7:
        a = int(rng.integers(0, 1360))
        b = int(rng.integers(a + 2, 1371))
        t = t[a:b]
    return t


def C18(ctx):
    import pybsm.radiance as r

    ctx.rule = "distinct (function, parameters, wavelength set)"
    ctx.required = ["planck", "increasing-in-temperature", "wien", "focal-plane", "cold-shield", "cold-stop", "optics", "integrated", "enclosure"]
    rng = ctx.rng
    for i in range(ctx.n(900, 6000)):
        wl = spectrum(rng)
        T = float(rng.choice([77.0, 280.0, 282.0, 300.0, 5778.0, gen.lu(rng, 30, 6000)]))
        ctx.case(("bb", wl, T), {"T": T, "n": int(wl.size), "first": float(wl[0])})
        L = ctx.call(r.blackbody_radiance, gen.layout(rng, wl), gen.maybe_int(rng, T))
        want = ref.planck(wl, T)
        ctx.close(L, want, "planck", rtol=1e-8, atol=1e-290, T=T)
        T2 = T * (1 + gen.lu(rng, 1e-4, 1.0))
        L2 = ctx.call(r.blackbody_radiance, wl, T2)
        ctx.check(np.all((L2 > L) | (want < 1e-280)), "increasing-in-temperature", "radiance does not grow with temperature", T=T, T2=T2)
        g = np.linspace(0.8, 1.2, 401) * 2.897771955e-3 / T
        pk = g[np.argmax(ctx.call(r.blackbody_radiance, g, T))]
        ctx.check(abs(pk * T / 2.897771955e-3 - 1) < 2.5e-3, "wien", "peak at %g" % pk, T=T)
        D, f = gen.nice(rng, 0.005, 5), gen.nice(rng, 0.005, 40)
        rad = rng.uniform(0, 1e8, wl.shape) if rng.random() < 0.8 else rng.uniform(0, 1, (3, 4))
        ctx.case(("fp", D, f, rad), {"D": D, "f": f})
        A = (gen.maybe_int(rng, D), gen.maybe_int(rng, f))
        if rng.random() < 0.1:  # whole numbers
            A = (int(rng.integers(1, 9)), int(rng.integers(1, 40)))
            if rng.random() < 0.3:
                A = tuple(np.int64(x) for x in A)
            D, f = float(A[0]), float(A[1])
        ctx.close(ctx.call(r.at_focal_plane_irradiance, A[0], A[1], gen.layout(rng, rad)), rad * ref.cone(D, f), "focal-plane", rtol=1e-10, D=D, f=f)
        e, t = float(rng.uniform(0, 1)), float(rng.uniform(0, 1))
        if rng.random() < 0.2:
            e = float(rng.choice([0, 1]))
        c = ref.cone(D, f)
        ctx.case(("em", wl, T, D, f, e, t), {"T": T, "D": D, "f": f, "e": e, "t": t})
        cs = ctx.call(r.cold_shield_self_emission, wl, T, *A)
        ctx.close(cs, (np.pi - c) * want, "cold-shield", rtol=1e-8, atol=1e-280, D=D, f=f)
        cf = ctx.call(r.cold_stop_self_emission, wl, T, e, *A)
        ctx.close(cf, c * e * want, "cold-stop", rtol=1e-8, atol=1e-280, e=e)
        op = ctx.call(r.optics_self_emission, wl, T, e, t, *A)
        ctx.close(op, c * e * t * want, "optics", rtol=1e-8, atol=1e-280, e=e, t=t)
        box = cs + ctx.call(r.cold_stop_self_emission, wl, T, 1.0, D, f)
        ctx.close(box, np.pi * want, "enclosure", rtol=1e-8, atol=1e-280)
        box = cs + ctx.call(r.optics_self_emission, wl, T, 1.0, t, D, f) + ctx.call(r.cold_stop_self_emission, wl, T, 1 - t, D, f)
        ctx.close(box, np.pi * want, "enclosure", rtol=1e-8, atol=1e-280)
        dl, Ls = gen.lu(rng, 1e-9, 1e-7), gen.amp(rng, 1e-3, 10)
        Lb = rng.uniform(0, 10, wl.shape)
        ctx.case(("in", Lb, Ls, t, e, wl, dl, T, D, f))
        got = ctx.call(r.focal_plane_integrated_irradiance, Lb, Ls, t, e, wl, dl, T, *A)
        ctx.close(got, (t * Lb + e * want * dl + Ls) * c, "integrated", rtol=1e-8)


def C19(ctx):
    import pybsm.radiance as r

    ctx.rule = "distinct (spectra, grid, detector)"
    ctx.required = ["photon-rate", "signal-rate", "spectral-irradiance", "spectral-rate", "interpolated-response", "zero-outside", "dark-current-once"]
    rng = ctx.rng
    for i in range(ctx.n(1300, 9000)):
        wl = spectrum(rng)
        n = wl.size
        L, t, q, o = rng.uniform(0, 1e8, n), rng.uniform(0, 1, n), rng.uniform(0, 1, n), rng.uniform(0, 1e4, n)
        if rng.random() < 0.2:
            o = np.zeros(n)
        if rng.random() < 0.2:
            q[rng.random(n) < 0.5] = 0
        D, f = gen.nice(rng, 0.01, 3), gen.nice(rng, 0.01, 30)
        wx, wy = gen.pair(rng, lambda: gen.nice(rng, 1e-6, 1e-4))
        dc = gen.amp(rng, 1e-2, 1e9, 0.2)
        ctx.case((wl, L, t, q, o, D, f, wx, wy, dc), {"n": int(n), "w": [wx, wy], "D": D, "f": f, "dark": dc})
        E = L * 1e-3
        dn = ctx.call(r.photon_detection_rate, gen.layout(rng, E), wx, wy, gen.layout(rng, wl), q)
        ctx.close(dn, ref.rate_spectrum(E, wx, wy, wl, q), "photon-rate", rtol=1e-9)
        rate, irr, spec = ctx.call(r.signal_rate, wl, gen.layout(rng, L), t, D, f, wx, wy, gen.layout(rng, q), o, gen.maybe_int(rng, dc))
        wi = t * L * ref.cone(D, f) + o
        ws = ref.rate_spectrum(wi, wx, wy, wl, q)
        ctx.close(irr, wi, "spectral-irradiance", rtol=1e-9)
        ctx.close(spec, ws, "spectral-rate", rtol=1e-9)
        want = ref.trapz(ws, wl) + dc
        ctx.close(rate, want, "signal-rate", rtol=1e-9, dark=dc)
        r0, _, _ = ctx.call(r.signal_rate, wl, L, t, D, f, wx, wy, q, o, 0.0)
        ctx.close(rate - r0, dc, "dark-current-once", rtol=1e-9, atol=1e-11 * (abs(rate) + 1e-300))
        # scalar stray term of one element broadcast over the band
        r1, i1, _ = ctx.call(r.signal_rate, wl, L, t, D, f, wx, wy, q, np.zeros(1), dc)
        ctx.close(i1, t * L * ref.cone(D, f), "spectral-irradiance", rtol=1e-9)
        x = np.unique(rng.uniform(3e-7, 1.4e-5, int(rng.choice([2, 3, 7, 40]))))
        y = rng.uniform(-1, 2, x.size)
        pts = np.concatenate([rng.uniform(2e-7, 1.5e-5, 30), x, [x[0] * (1 - 1e-9), x[-1] * (1 + 1e-9), x[0], x[-1]]])
        if rng.random() < 0.5:
            pts = np.sort(pts)
        ctx.case(("rs", x, y, pts))
        got = ctx.call(r.resample_by_wavelength, gen.layout(rng, x), y, gen.layout(rng, pts))
        w = ref.lininterp(pts, x, y)
        ctx.close(got, w, "interpolated-response", rtol=1e-9, atol=1e-9)
        out = (pts < x[0]) | (pts > x[-1])
        ctx.check(np.all(np.asarray(got)[out] == 0), "zero-outside", "non-zero outside the given wavelengths")


SNR_FIELDS = ["tgt_n", "tgt_n_rate", "tgt_FPA_irradiance", "bkg_n", "bkg_n_rate", "bkg_FPA_irradiance", "int_time", "opt_trans", "qe", "other_irradiance", "weights",
              "well_fraction", "contrast_signal", "signal_noise", "dark_current_noise", "quantization_noise", "self_emission_noise", "total_noise", "snr"]


def check_snr(ctx, o, w, rtol=1e-8, **d):
    for k in SNR_FIELDS:
        ctx.check(hasattr(o, k), "field-" + k, "result has no field %s" % k)
        got = getattr(o, k)
        at = 0.0
        if k == "contrast_signal":
            at = 1e-9 * max(abs(w["tgt_n"]), abs(w["bkg_n"]))
        if k == "snr":
            at = 1e-9 * max(abs(w["tgt_n"]), abs(w["bkg_n"])) / w["total_noise"] if w["total_noise"] > 0 else np.inf
        if k in ("opt_trans", "qe"):
            at = 1e-9
        if k in ("weights",):
            at = 1e-9 * np.max(np.abs(w[k]))
        if k.endswith("irradiance"):
            at = 1e-9 * np.max(np.abs(w[k]))
        ctx.close(got, w[k], "field-" + k, rtol=rtol, atol=at, **d)


def C20(ctx):
    import pybsm.noise as noise
    import pybsm.radiance as r
    from pybsm.simulation import Sensor

    ctx.rule = "distinct (sensor, target and background radiances); budget fields compared, saturated and unsaturated, brighter target or background"
    ctx.required = ["field-" + k for k in SNR_FIELDS] + ["well-limit", "saturated", "unsaturated", "background-brighter", "well-fill-factor", "quantisation"]
    rng = ctx.rng
    for i in range(ctx.n(600, 5000)):
        s = gen.sensor(rng, Sensor, filt=False)
        lo, hi = s.opt_trans_wavelengths[[0, -1]]
        a = ref.in_band(ov.atm_record(int(rng.integers(1, 3431))), lo, hi)
        if a.shape[0] < 2:
            continue
        wl = a[:, 0]
        k = int(rng.integers(5))
        if k < 3:
            tgt, bkg = ref.scene(a, float(rng.uniform(0, 1)), float(rng.uniform(200, 340))), ref.scene(a, float(rng.uniform(0, 1)), float(rng.uniform(200, 340)))
        else:
            tgt, bkg = rng.uniform(0, 1e8, wl.size), rng.uniform(0, 1e8, wl.size)
        if k == 4:
            bkg = tgt.copy()
        elif rng.random() < 0.15:  # one of them (nearly) black, or outshining the other by far
            z = float(rng.choice([0.0, gen.lu(rng, 1e-9, 1e-1)]))
            tgt, bkg = (tgt, bkg * z) if rng.random() < 0.5 else (tgt * z, bkg)
        if rng.random() < 0.5:
            # place the brighter scene near or far beyond the well limit
            w = ref.snr(s, wl, tgt, bkg)
            top = max(w["tgt_n_rate"], w["bkg_n_rate"]) * s.n_tdi
            if top > 0 and np.isfinite(top):
                s.int_time = float(rng.choice([0.2, 0.999, 1.001, 1.7, 10, 1e4])) * s.max_well_fill * s.max_n / top
        if rng.random() < 0.15:  # one source of noise far beyond (or below) all others
            x = ref.snr(s, wl, tgt, bkg)["total_noise"] * float(rng.choice([1e-3, 1e2, 1e4, 1e6]))
            if np.isfinite(x) and x > 0:
                if rng.random() < 0.5:
                    s.other_noise = np.array([x, 0.5 * x, 3.0])[: int(rng.integers(1, 4))]
                else:
                    s.read_noise = x
        ctx.case((s, tgt, bkg), {"sensor": s, "target": tgt, "background": bkg})
        w = ref.snr(s, wl, tgt, bkg)
        o = ctx.call(r.photon_detector_SNR, s, gen.layout(rng, wl), gen.layout(rng, tgt), gen.layout(rng, bkg))
        check_snr(ctx, o, w, sensor=s)
        ctx.check(o.well_fraction <= s.max_well_fill * (1 + 1e-9), "well-limit", "well fraction %r above allowed %r" % (o.well_fraction, s.max_well_fill), sensor=s)
        if w["int_time"] < s.int_time:
            ctx.monitors["saturated"] += 1
            ctx.close(max(o.tgt_n, o.bkg_n), s.max_well_fill * s.max_n, "well-limit", rtol=1e-9)
        else:
            ctx.monitors["unsaturated"] += 1
            ctx.check(o.int_time == s.int_time, "well-limit", "integration time changed without need")
        if w["bkg_n"] > w["tgt_n"]:
            ctx.monitors["background-brighter"] += 1
        # the TDI/time product, not either factor alone, sets the electrons
        ctx.close([o.tgt_n, o.bkg_n], [o.tgt_n_rate * o.int_time * s.n_tdi, o.bkg_n_rate * o.int_time * s.n_tdi], "field-tgt_n", rtol=1e-9)
        ctx.close(o.total_noise**2, o.signal_noise**2 + o.quantization_noise**2 + s.read_noise**2 + np.sum(np.asarray(s.other_noise, float) ** 2), "field-total_noise", rtol=1e-9)
        x, m = gen.lu(rng, 1e-3, 1e9), gen.lu(rng, 1e-3, 1e9)
        if rng.random() < 0.2:
            m = x
        ctx.case(("wf", x, m))
        k = float(ctx.call(r.check_well_fill, gen.maybe_int(rng, x), m))
        ctx.close(k, m / x if x > m else 1.0, "well-fill-factor", rtol=1e-10)
        pe, b = gen.nice(rng, 1, 1e9), float(rng.choice([1, 8, 10, 11.9, 12, 16, 24, 100, float(rng.uniform(1, 20))]))
        ctx.case(("qn", pe, b))
        ctx.close(ctx.call(noise.quantization_noise, gen.maybe_int(rng, pe), gen.maybe_int(rng, b)), pe / (np.sqrt(12.0) * (2.0**b - 1)), "quantisation", rtol=1e-9)


def C21(ctx):
    import pybsm.radiance as r
    from pybsm.simulation import Sensor

    ctx.rule = "distinct (sensor, atmosphere, integration time, target temperature)"
    ctx.required = ["reflectance-grid", "electrons", "affine", "well", "spectral-weights", "saturated", "unsaturated"]
    rng = ctx.rng
    for i in range(ctx.n(150, 1200)):
        s = gen.sensor(rng, Sensor, filt=False)
        atm = ov.atm_record(int(rng.integers(1, 3431)))
        if rng.random() < 0.2:
            # band edges exactly on grid wavelengths
            a = int(rng.integers(5, 1200))
            b = a + int(rng.integers(1, 30))
            s.opt_trans_wavelengths = ov.wavelengths()[[a, b]].copy()
            s.optics_transmission = rng.uniform(0.3, 1, 2)
            s.qe_wavelengths = s.opt_trans_wavelengths * np.array([0.99, 1.01])
            s.qe = np.ones(2)
        if ref.in_band(atm, s.opt_trans_wavelengths[0], s.opt_trans_wavelengths[-1]).shape[0] < 2:
            continue
        if rng.random() < 0.15:  # a very dim or very bright scene
            atm = atm.copy()
            atm[:, 1:] *= float(rng.choice([1e-12, 1e-8, 1e-4, 1e4]))
        td = s.int_time * float(rng.choice([1.0, 1.0, 0.1, 3.0]))
        T = float(rng.choice([300.0, 250.0, 282.0, 340.0, float(rng.uniform(200, 400))]))
        _, pe1, _ = ref.refl_to_pe(atm, s, td, T)
        if rng.random() < 0.5:
            big = dict(max_n=1e300)
            save = s.max_n
            s.max_n = big["max_n"]
            top = ref.refl_to_pe(atm, s, td, T)[1].max()
            s.max_n = max(1, int(top * float(rng.choice([0.01, 0.5, 0.95, 1.05, 2.0])))) if rng.random() < 0.7 else save
            td = td if np.isfinite(top) else s.int_time
        full = rng.random() < 0.8
        ctx.case((s, atm[:, 2:4], td, T), {"sensor": s, "t": td, "T": T})
        A = [gen.layout(rng, atm), s, td]
        use_default = T == 300.0 and rng.random() < 0.7
        if use_default:
            ref_, pe, sw = ctx.call(r.reflectance_to_photoelectrons, *A)
        elif full:
            ref_, pe, sw = ctx.call(r.reflectance_to_photoelectrons, *A, gen.maybe_int(rng, T))
        else:
            ref_, pe, sw = ctx.call(r.reflectance_to_photoelectrons, *A, target_temp=T)
        wr, wp, ww = ref.refl_to_pe(atm, s, td, T)
        ctx.close(ref_, wr, "reflectance-grid", rtol=1e-12, atol=1e-14)
        ctx.close(pe, wp, "electrons", rtol=1e-8, sensor=s, t=td, T=T)
        d = np.diff(np.asarray(pe))
        ctx.check(np.ptp(d) <= 1e-8 * (np.max(np.abs(pe)) + 1e-300), "affine", "steps differ: %r..%r" % (d.min(), d.max()))
        ctx.check(np.max(pe) <= s.max_n * (1 + 1e-9), "well", "exceeds well capacity: %r > %r" % (np.max(pe), s.max_n))
        ctx.monitors["saturated" if np.isclose(np.max(wp), s.max_n, rtol=1e-9) else "unsaturated"] += 1
        if not np.isfinite(ww[1]).all():  # the response is zero throughout: relative weights mean nothing
            continue
        ctx.close(sw, ww, "spectral-weights", rtol=1e-8, atol=1e-10)
        ctx.check(abs(np.max(sw[1]) - 1) < 1e-12, "spectral-weights", "largest weight %r" % np.max(sw[1]))


def C22(ctx):
    import pybsm.radiance as r

    ctx.rule = "distinct (atmosphere table, reflectance, temperature)"
    ctx.required = ["scene-radiance", "affine-in-reflectance", "giqe-reflective", "giqe-emissive"]
    rng = ctx.rng
    for i in range(ctx.n(2000, 15000)):
        a = table(rng)
        rho = float(rng.choice([0.0, 1.0, 0.15, 0.07, float(rng.uniform(0, 1))]))
        T = float(rng.choice([280.0, 282.0, 300.0, 220.0, float(rng.uniform(180, 500)), gen.lu(rng, 40, 6500)]))
        ctx.case((a[:, :4], rho, T), {"reflectance": rho, "T": T, "rows": int(a.shape[0]), "first": float(a[0, 0])})
        got = ctx.call(r.total_radiance, gen.layout(rng, a), gen.maybe_int(rng, rho), gen.maybe_int(rng, T))
        ctx.close(got, ref.scene(a, rho, T), "scene-radiance", rtol=1e-8, reflectance=rho, T=T)
        l0, l1 = ctx.call(r.total_radiance, a, 0.0, T), ctx.call(r.total_radiance, a, 1.0, T)
        ctx.close(got, l0 + rho * (l1 - l0), "affine-in-reflectance", rtol=1e-9, atol=1e-10 * np.max(np.abs(l1) + np.abs(l0)))
        if i % 3 == 0:
            for em in (0, 1, False, True):
                t, b = ctx.call(r.giqe_radiance, a, em)
                wt = ref.scene(a, 0.0 if em else 0.15, 282.0)
                wb = ref.scene(a, 0.0 if em else 0.07, 280.0)
                m = "giqe-emissive" if em else "giqe-reflective"
                ctx.close(t, wt, m, rtol=1e-8)
                ctx.close(b, wb, m, rtol=1e-8)
