"""C37 (values at a point do not depend on the other points), C38 (results do not depend on the choice of units)."""
import numpy as np

from vlib import battery, gen

POINTS = {
    "hufnagel_valley_turbulence_profile": (0,), "blackbody_radiance": (0,), "cold_shield_self_emission": (0,), "cold_stop_self_emission": (0,),
    "optics_self_emission": (0,), "at_focal_plane_irradiance": (2,), "photon_detection_rate": (0, 3, 4), "resample_by_wavelength": (2,),
    "total_radiance": (0,), "giqe_radiance": (0,), "img_to_reflectance": (0,), "wiener_filter": (0,), "tdi_OTF": (0,), "common_OTFs": (2, 3),
}
for _n in ("circular_aperture_OTF circular_aperture_OTF_with_defocus cte_OTF defocus_OTF detector_OTF detector_OTF_with_aggregation diffusion_OTF drift_OTF filter_OTF "
           "gaussian_OTF jitter_OTF turbulence_OTF wavefront_OTF wavefront_OTF_2 wind_speed_turbulence_OTF polychromatic_turbulence_OTF").split():
    POINTS[_n] = (0, 1)
ROWS = ("total_radiance", "giqe_radiance")  # a table: its points are rows
TERMS = ("ap_OTF", "turb_OTF", "det_OTF", "jit_OTF", "drft_OTF", "wav_OTF", "filter_OTF", "system_OTF")


def values(name, out, n):
    """Arrays of a result that have one entry per point, flattened."""
    if name == "common_OTFs":
        return [(k, np.ravel(getattr(out, k))) for k in TERMS]
    if name == "polychromatic_turbulence_OTF":
        out = out[0]
    return [(str(i), np.ravel(x)) for i, x in enumerate(out if isinstance(out, tuple) else (out,))]


def C37(ctx):
    ctx.rule = "distinct (function, arguments) whose values were compared with those obtained among other points"
    names = sorted(POINTS)
    ctx.required = ["point-alone", "subset", "reordered", "among-others"] + ["pointwise:" + n for n in names]
    rng = ctx.rng
    for i in range(ctx.n(450, 9000)):
        if ctx.late(500):
            break
        name = names[i % len(names)]
        _, mod, args = battery.make(rng, ctx.overlay, kinds=name)
        fn = battery.resolve(mod, name)
        idx = POINTS[name]
        args = list(args)
        if name == "common_OTFs":
            lim = float(np.abs(np.asarray(args[2])).max()) or 1.0
            m = gen.shape(rng)
            args[2], args[3] = rng.uniform(-lim, lim, m), rng.uniform(-lim, lim, m)
        pts = [np.array(args[k]) for k in idx]
        if pts[0].ndim == 0 or pts[0].size == 0:
            continue
        if name in ROWS:
            flat = pts
        else:
            if name in ("hufnagel_valley_turbulence_profile", "img_to_reflectance", "resample_by_wavelength") and rng.random() < 0.3:
                pts = [np.resize(p, int(rng.integers(2, 200))) for p in pts]
            if idx == (0, 1) and rng.random() < 0.3:  # points on an axis, at zero and repeated
                for p in pts:
                    p.reshape(-1)[rng.random(p.size) < 0.3] = 0.0
            if idx == (0, 1) and rng.random() < 0.3:  # points far outside the others
                far = rng.random(pts[0].shape) < 0.2
                for p in pts:
                    p[far] *= gen.lu(rng, 2, 100)
            flat = [p.reshape(-1) for p in pts]
        n = flat[0].shape[0]
        ctx.case((name, tuple(args)), {"function": name, "points": n})

        def at(sel, shape=None):
            a = list(args)
            for k, p in zip(idx, flat):
                q = p[sel]
                a[k] = q.reshape(shape) if shape and name not in ROWS else q
            return values(name, ctx.call(fn, *a), len(sel))

        for k, p in zip(idx, pts):
            args[k] = p
        whole = values(name, ctx.call(fn, *args), n)
        ctx.monitors["pointwise:" + name] += 1

        def compare(got, sel, what):
            for (k, g), (_, w) in zip(got, whole):
                if w.size != n:
                    if g.size != len(sel):
                        ctx.fail("output-size", "%s: %d values for %d points" % (name, w.size, n))
                    ctx.fail("output-size", "%s: %d values for %d points, but one per point for others" % (name, w.size, n))
                top = float(np.max(np.abs(w[np.isfinite(w)]))) if np.isfinite(w).any() else 0.0
                ctx.close(g, w[sel], what, rtol=1e-9, atol=1e-13 * top, shape=False, function=name, term=k, points=n)

        few = rng.choice(n, min(n, 2 if name == "common_OTFs" else 3), replace=False)
        for j in few:
            compare(at(np.array([j])), np.array([j]), "point-alone")
        if n > 2:
            sel = np.flatnonzero(rng.random(n) < rng.choice([0.1, 0.5, 0.9]))
            if sel.size:
                compare(at(sel), sel, "subset")
        sel = rng.permutation(n)
        shape = None
        if name not in ROWS:
            shape = [(n,), (n, 1), (1, n), (1, n, 1)][int(rng.integers(4))]
        compare(at(sel, shape), sel, "reordered")
        # many more points around: copies of the same ones, so that all values are known
        m = int(gen.lu(rng, 2, 40)) if rng.random() < 0.9 else int(gen.lu(rng, 40, 400))
        if n * m > 200000 or (name in ("common_OTFs", "polychromatic_turbulence_OTF") and n * m > 20000):
            m = 2
        sel = rng.permutation(np.repeat(np.arange(n), m))
        compare(at(sel), sel, "among-others")
        ctx.monitors["points-compared"] += int(sel.size)


# ---------------------------------------------------------------------------
def factor(rng):
    k = rng.random()
    if k < 0.3:
        return float(2.0 ** rng.integers(-12, 13))
    if k < 0.6:
        return float(10.0 ** rng.integers(-4, 5))
    if k < 0.8:
        return gen.lu(rng, 1e-6, 1e6)
    return gen.lu(rng, 0.2, 5)


def C38(ctx):
    import pybsm.geospatial as geo
    import pybsm.metrics as met
    import pybsm.noise as noi
    import pybsm.otf as otf
    import pybsm.radiance as rad
    import pybsm.simulation as sim

    laws = "aperture defocused-aperture transfer defocus detector aggregation diffusion drift filter gaussian jitter tdi turbulence wind-turbulence wavefront wavefront-2 coherence path-strength defocus-radii dark-current psf blackbody focal-plane well photon-rate signal noise-gain quantization edge ground-resolution sample-distance giqe fov wiener resample weighting profile contrast-stretch integrated-irradiance self-emission".split()
    ctx.required = laws
    ctx.rule = "distinct (function, arguments, change of units)"
    rng = ctx.rng
    def law(name, fn, a, b, scale=1.0, rtol=1e-9, atol=0.0, pick=None):
        """fn(*b) must be scale * fn(*a)."""
        ctx.case((name, tuple(x if not callable(x) else None for x in b)), {"law": name, "function": getattr(fn, "__name__", "?")})
        g, w = ctx.call(fn, *b), ctx.call(fn, *a)
        if pick is None:
            g, w = (g if isinstance(g, tuple) else (g,)), (w if isinstance(w, tuple) else (w,))
        else:
            g, w = (g[pick],), (w[pick],)
        for p, (x, y) in enumerate(zip(g, w)):
            s = scale[p] if isinstance(scale, tuple) else scale
            y = np.asarray(y) * s
            top = float(np.max(np.abs(y))) if y.size else 0.0
            ctx.close(x, y, name, rtol=rtol, atol=atol + 1e-12 * top, shape=True)

    def pair(lo, hi):
        return gen.pair(rng, lambda: gen.amp(rng, lo, hi))

    for i in range(ctx.n(100, 3000)):
        if ctx.late(500):
            break
        lam, D = gen.nice(rng, 0.3e-6, 14e-6), gen.nice(rng, 0.01, 3.0)
        f = D * gen.nice(rng, 1.0, 30)
        p = gen.nice(rng, 1e-6, 5e-5)
        ang = p / f
        cut = D / lam
        eta = float(rng.choice([0.0, 0.2, float(rng.uniform(0, 0.9))]))
        u, v = battery.small_freqs(rng, cut * float(rng.choice([0.3, 1.0, 1.1])))
        n2, k = u.size, factor(rng)
        if n2 > 1200:
            u, v = u.reshape(-1)[:1200], v.reshape(-1)[:1200]
        near = 2e-8  # a frequency may fall on the other side of a cutoff by rounding; steep near region boundaries of thin rings
        # ---- transfer functions: units of angle, then of length
        law("aperture", otf.circular_aperture_OTF, (u, v, lam, D, eta), (u * k, v * k, lam, D * k, eta), atol=near)
        law("aperture", otf.circular_aperture_OTF, (u, v, lam, D, eta), (u, v, lam * k, D * k, eta), atol=near)
        dz = gen.lu(rng, 0.1, 20) * 2 * lam * (f / D) ** 2
        law("defocused-aperture", otf.circular_aperture_OTF_with_defocus, (u, v, lam, D, f, dz), (u, v, lam * k, D * k, f * k, dz * k), atol=1e-6)
        law("transfer", otf.cte_OTF, (u, v, p, p * 1.1, 100.0, 250.0, 3, 0.9995, f), (u * k, v * k, p / k, p * 1.1 / k, 100.0, 250.0, 3, 0.9995, f))
        law("transfer", otf.cte_OTF, (u, v, p, p * 1.1, 100.0, 250.0, 3, 0.9995, f), (u, v, p * k, p * 1.1 * k, 100.0, 250.0, 3, 0.9995, f * k))
        w = pair(0.1 * ang, 2 * ang)
        law("drift", otf.drift_OTF, (u, v, *w), (u * k, v * k, w[0] / k, w[1] / k), atol=1e-11)
        law("jitter", otf.jitter_OTF, (u, v, *w), (u * k, v * k, w[0] / k, w[1] / k), atol=1e-300)
        w = gen.pair(rng, lambda: gen.nice(rng, 0.1 * ang, 2 * ang))
        law("gaussian", otf.gaussian_OTF, (u, v, *w), (u * k, v * k, w[0] / k, w[1] / k), atol=1e-300)
        law("defocus", otf.defocus_OTF, (u, v, D, *w), (u * k, v * k, D, w[0] / k, w[1] / k), atol=1e-300)
        wx, wy = p * float(rng.uniform(0.5, 1.2)), p * float(rng.uniform(0.5, 1.2))
        law("detector", otf.detector_OTF, (u, v, wx, wy, f), (u * k, v * k, wx / k, wy / k, f), atol=1e-11)
        law("detector", otf.detector_OTF, (u, v, wx, wy, f), (u, v, wx * k, wy * k, f * k), atol=1e-11)
        ag = int(rng.integers(1, 6))
        law("aggregation", otf.detector_OTF_with_aggregation, (u, v, wx, wy, p, 1.2 * p, f, ag), (u, v, wx * k, wy * k, p * k, 1.2 * p * k, f * k, ag), atol=1e-10)
        al, ald, al0 = gen.lu(rng, 1e4, 1e6), gen.lu(rng, 1e-6, 1e-4), gen.lu(rng, 1e-6, 1e-4)
        law("diffusion", otf.diffusion_OTF, (u, v, al, ald, al0, f), (u, v, al / k, ald * k, al0 * k, f * k), atol=1e-9)
        kern = gen.kernel(rng)
        f8 = slice(0, 60)
        u8, v8 = u.reshape(-1)[f8], v.reshape(-1)[f8]
        k2 = float(2.0 ** rng.integers(-12, 13))  # exact: the kernel's spectrum is looked up cell by cell
        if i % 8 == 1:  # slow
            law("filter", otf.filter_OTF, (u8, v8, kern, ang), (u8 * k2, v8 * k2, kern, ang / k2), atol=1e-9 * np.abs(kern).sum())
            law("filter", otf.filter_OTF, (u8, v8, kern, ang), (u8, v8, kern * k, ang), scale=k, atol=1e-12 * k)
        law("tdi", otf.tdi_OTF, (u, p, 16.0, 4, 1.02, f), (u, p * k, 16.0, 4, 1.02, f * k), atol=1e-9)
        r0 = gen.lu(rng, 0.01, 3) * D
        a_ = float(rng.choice([0, 0.5, 1.0]))
        if float(np.max(np.hypot(u, v))) <= cut * 1.2:
            law("turbulence", otf.turbulence_OTF, (u, v, lam, D, r0, a_), (u, v, lam * k, D * k, r0 * k, a_), rtol=1e-7, atol=1e-280)
            td, vel = gen.lu(rng, 1e-5, 0.1), gen.lu(rng, 0.1, 300)
            law("wind-turbulence", otf.wind_speed_turbulence_OTF, (u, v, lam, D, r0, td, vel), (u, v, lam * k, D * k, r0 * k, td, vel * k), rtol=1e-7, atol=1e-280)
            law("wind-turbulence", otf.wind_speed_turbulence_OTF, (u, v, lam, D, r0, td, vel), (u, v, lam, D, r0, td * k, vel / k), rtol=1e-7, atol=1e-280)
        L = gen.pair(rng, lambda: D * float(rng.uniform(0.05, 1.5)))
        pv = gen.amp(rng, 0.01, 1.5)
        law("wavefront", otf.wavefront_OTF, (u, v, lam, pv, *L), (u, v, lam * k, pv, L[0] * k, L[1] * k))
        law("wavefront", otf.wavefront_OTF, (u, v, lam, pv, *L), (u * k, v * k, lam / k, pv, *L))
        wr = gen.nice(rng, 0.01, 0.3)
        law("wavefront-2", otf.wavefront_OTF_2, (u, v, cut, wr), (u * k, v * k, cut * k, wr), atol=1e-7)
        # ---- turbulence along a path
        m = int(rng.integers(20, 400))
        z = np.linspace(0, gen.lu(rng, 50, 1e5), m)
        c = gen.lu(rng, 1e-17, 1e-13) * np.exp(-np.linspace(0, float(rng.uniform(0.1, 8)), m))
        law("coherence", otf.coherence_diameter, (lam, z, c), (lam * k, z * k, c * k ** (-2 / 3)), scale=k)
        law("path-strength", otf.coherence_diameter, (lam, z, c), (lam, z, c * k), scale=k**-0.6)
        h, wd = rng.uniform(0, 2.5e4, 20), gen.nice(rng, 5, 40)
        c1 = gen.lu(rng, 1e-16, 1e-13)
        law("profile", lambda cc, h=h, wd=wd: otf.hufnagel_valley_turbulence_profile(h, wd, cc) - otf.hufnagel_valley_turbulence_profile(h, wd, 0.0), (c1,), (c1 * k,), scale=k, atol=1e-14 * (1 + k) * float(np.max(ctx.call(otf.hufnagel_valley_turbulence_profile, h, wd, 0.0))))
        # ---- blur sizes, currents, spreads
        R0 = gen.lu(rng, 100, 1e6)
        R = R0 * float(rng.choice([0.5, 0.9, 1.1, 2.0]))
        law("defocus-radii", otf.object_domain_defocus_radii, (D, R, R0), (D * k, R, R0), scale=k)
        law("defocus-radii", otf.object_domain_defocus_radii, (D, R, R0), (D * k, R * k, R0 * k))
        law("defocus-radii", otf.image_domain_defocus_radii, (D, dz, f), (D * k, dz * k, f * k))
        law("defocus-radii", otf.image_domain_defocus_radii, (D, dz, f), (D, dz * k, f), scale=k)
        jd = gen.lu(rng, 1e-9, 1e-1)
        law("dark-current", otf.dark_current_from_density, (jd, wx, wy), (jd * k, wx, wy), scale=k)
        law("dark-current", otf.dark_current_from_density, (jd, wx, wy), (jd, wx * k, wy), scale=k)
        law("dark-current", otf.dark_current_from_density, (jd, wx, wy), (jd, wx * k, wy / k))
        # ---- radiometry
        q = int(rng.integers(2, 40))
        wl = np.sort(rng.uniform(0.4e-6, 14e-6, q))
        T = float(rng.uniform(100, 1500))
        kk = gen.lu(rng, 0.2, 5)
        law("blackbody", rad.blackbody_radiance, (wl, T), (wl / kk, T * kk), scale=kk**5, rtol=1e-7)
        s1, s2, qe = gen.lu(rng, 1e8, 1e26) * rng.uniform(0.1, 1, q), gen.lu(rng, 1e8, 1e26) * rng.uniform(0, 1, q), rng.uniform(0.01, 1, q)
        law("focal-plane", rad.at_focal_plane_irradiance, (D, f, s1), (D * k, f * k, s1))
        law("focal-plane", rad.at_focal_plane_irradiance, (D, f, s1), (D, f, s1 * k), scale=k)
        for fn, extra in ((rad.cold_shield_self_emission, (T,)), (rad.cold_stop_self_emission, (T, 0.3)), (rad.optics_self_emission, (T, 0.2, 0.8))):
            law("self-emission", fn, (wl, *extra, D, f), (wl, *extra, D * k, f * k), rtol=1e-7)
        law("self-emission", rad.optics_self_emission, (wl, T, 0.2, 0.8, D, f), (wl, T, 0.2, 0.8 * 0.25, D, f), scale=0.25)
        law("self-emission", rad.cold_stop_self_emission, (wl, T, 0.8, D, f), (wl, T, 0.2, D, f), scale=0.25)
        dl = gen.lu(rng, 1e-9, 1e-7)
        to, eo = float(rng.uniform(0.2, 1)), float(rng.uniform(0, 0.5))
        law("integrated-irradiance", rad.focal_plane_integrated_irradiance, (s1, s2, to, eo, wl, dl, T, D, f), (s1, s2, to, eo, wl, dl, T, D * k, f * k), rtol=1e-7)
        law("integrated-irradiance", rad.focal_plane_integrated_irradiance, (s1, s2, to, eo, wl, dl, T, D, f), (s1 * k, s2 * k, to, eo, wl, dl * k, T, D, f), scale=k, rtol=1e-7)
        N, top = gen.lu(rng, 1, 1e9), gen.lu(rng, 1, 1e9)
        law("well", rad.check_well_fill, (N, top), (N * k, top * k))
        law("photon-rate", rad.photon_detection_rate, (s1, wx, wy, wl, qe), (s1 * k, wx, wy, wl, qe), scale=k)
        law("photon-rate", rad.photon_detection_rate, (s1, wx, wy, wl, qe), (s1, wx * k, wy / k, wl, qe))
        law("photon-rate", rad.photon_detection_rate, (s1, wx, wy, wl, qe), (s1, wx, wy, wl, qe * kk), scale=kk)
        ot, oi, dc = rng.uniform(0.1, 1, q), s2 * 1e-3, gen.lu(rng, 1e-2, 1e8)
        law("signal", rad.signal_rate, (wl, s1, ot, D, f, wx, wy, qe, oi, dc), (wl, s1 * k, ot, D, f, wx, wy, qe, oi * k, dc * k), scale=k, rtol=1e-7)
        law("signal", rad.signal_rate, (wl, s1, ot, D, f, wx, wy, qe, oi, dc), (wl, s1, ot, D * k, f * k, wx, wy, qe, oi, dc), rtol=1e-7)
        law("signal", rad.signal_rate, (wl, s1, ot, D, f, wx, wy, qe, oi, dc), (wl, s1 / k**2, ot, D, f, wx * k, wy * k, qe, oi / k**2, dc), scale=(1.0,), pick=0, rtol=1e-7)
        x0, x1 = np.sort(rng.uniform(0.3e-6, 14e-6, 12)), rng.uniform(0, 1, q)
        law("resample", rad.resample_by_wavelength, (wl, x1, x0), (wl * k, x1, x0 * k), rtol=1e-7, atol=1e-9)
        law("resample", rad.resample_by_wavelength, (wl, x1, x0), (wl, x1 * k, x0), scale=k)
        wg = rng.uniform(0.01, 1, q)
        law("weighting", lambda ww, wl=wl: otf.weighted_by_wavelength(wl, ww, lambda x: np.array([np.cos(x * 1e6), x * 1e6])), (wg,), (wg * k,))
        # ---- noise
        law("noise-gain", noi.noise_gain, (kern,), (kern.T.copy(),))
        pe = gen.lu(rng, 1, 1e9)
        law("quantization", noi.quantization_noise, (pe, 12.0), (pe * k, 12.0), scale=k)
        # ---- sharpness measures
        sl = np.sort(rng.uniform(0, 1, int(rng.integers(12, 120))))[::-1].copy()
        sl[0] = 1.0
        df = gen.nice(rng, 0.2, 2.0) / ang / sl.size
        ke = k if df * k > 30 else 1 / k if df / k > 30 else 4.0  # the integral starts at 1e-6 cycles/rad whatever the unit
        law("edge", met.relative_edge_response, (sl, df, ang), (sl, df * ke, ang / ke), atol=1e-6)
        er = [ctx.call(met.edge_response, x, sl, df, ang) for x in np.arange(1.0, 3.25, 0.25)]
        if np.min(np.abs(np.diff(er))) > 5e-6:  # clearly rising or not
            law("edge", met.edge_height_overshoot, (sl, df, ang), (sl, df * ke, ang / ke), atol=1e-6)
        pos = float(rng.uniform(-3, 3))
        law("edge", met.edge_response, (pos, sl, df, ang), (pos, sl, df * ke, ang / ke), atol=1e-6)
        rng_, snr = gen.lu(rng, 10, 1e6), gen.lu(rng, 3, 300)
        law("ground-resolution", met.ground_resolved_distance, (sl, df, snr, ang, rng_), (sl, df, snr, ang, rng_ * k), scale=k)
        law("ground-resolution", met.ground_resolved_distance, (sl, df, snr, ang, rng_), (sl, df * k, snr, ang / k, rng_), scale=1 / k, rtol=1e-6)
        th = gen.lu(rng, 1e-7, 1e-3)
        law("sample-distance", geo.ground_sample_distance, (th, rng_), (th, rng_ * k), scale=k)
        rer, gsd, eh, ng = float(rng.uniform(0.1, 1.2)), gen.lu(rng, 0.01, 10), float(rng.uniform(0.8, 1.6)), float(rng.uniform(1, 10))
        sn, kq = gen.lu(rng, 2, 300), gen.lu(rng, 0.1, 10)
        g = lambda *a: np.atleast_1d(met.giqe3(*a))  # the rating itself is offset by a multiple of log10(GSD)
        ctx.case(("giqe", rer, gsd, eh, ng, sn, kq))
        a = float(ctx.call(met.giqe3, rer, gsd, eh, ng, sn)) - float(ctx.call(met.giqe3, rer, gsd * kq, eh, ng, sn))
        ctx.close(a, 3.32 * np.log10(kq), "giqe", rtol=0, atol=1e-9)
        el = float(rng.uniform(0.2, 1.5))
        a = float(ctx.call(met.giqe4, rer, gsd, eh, ng, sn, 90.0)[0]) - float(ctx.call(met.giqe4, rer, gsd * kq, eh, ng, sn, 90.0)[0])
        ctx.close(a, (3.32 if rer >= 0.9 else 3.16) * np.log10(kq), "giqe", rtol=0, atol=1e-9)
        a = float(ctx.call(met.giqe5, rer, rer * 0.9, gsd, sn, el)[0]) - float(ctx.call(met.giqe5, rer, rer * 0.9, gsd * kq, sn, el)[0])
        ctx.close(a, 3.32 * np.log10(kq), "giqe", rtol=0, atol=1e-9)
        law("fov", sim.instantaneous_FOV, (p, f), (p * k, f * k))
        ot2, ns = battery.mtf2(rng, 11), gen.lu(rng, 1e-4, 10)
        law("wiener", sim.wiener_filter, (ot2, ns), (ot2 * k, ns * k * k), scale=1 / k)
        if i % 2 == 0:
            im = rng.uniform(0, 1, (int(rng.integers(4, 40)), int(rng.integers(4, 40))))
            kp = float(2.0 ** rng.integers(-10, 11))
            law("contrast-stretch", sim.stretch_contrast_convert_8bit, (im,), (im * kp,))
            hh = battery.mtf2(rng)
            d = 1.0 / (hh.shape[0] * ang)
            dx = ang * float(rng.choice([1.0, 0.5, 2.0, gen.lu(rng, 0.4, 3)]))
            fr = abs((hh.shape[0] * (1 / (hh.shape[0] * d)) / dx) % 1 - 0.5)
            k2 = float(2.0 ** rng.integers(-12, 13))
            if fr > 1e-9:
                law("psf", otf.otf_to_psf, (hh, d, dx), (hh, d * k2, dx / k2), atol=1e-7)
