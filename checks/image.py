"""C15, C16, C26..C29: kernels, resampling, image simulation, image conversions."""
import copy

import numpy as np

from checks.atmos import scenario_expected
from vlib import gen, ref
from vlib import overlay as ov


def close_options(ctx, got, options, monitor, atol, **d):
    got = np.asarray(got)
    best = None
    for o in options:
        if o.shape == got.shape:
            e = np.max(np.abs(got - o)) if o.size else 0.0
            if e <= atol:
                ctx.monitors[monitor] += 1
                return o
            best = o
    ctx.close(got, best if best is not None else options[0], monitor, rtol=0, atol=atol, **d)


def random_otf(rng, n=None):
    """(otf, name): physically shaped, real symmetric mostly, sometimes complex (shifted)"""
    n = n or int(rng.choice([11, 12, 20, 21, 50, 51, 64, 100, 101, 151]))
    m = n if rng.random() < 0.75 else int(rng.choice([15, 16, 30, 41, 101]))
    # frequencies exactly as an FFT lays them out (zero at index n//2)
    fy = (np.arange(m) - m // 2) / (m / 2.0)
    fx = (np.arange(n) - n // 2) / (n / 2.0)
    if n % 2 and rng.random() < 0.5:
        fx = np.linspace(-1, 1, n)
    if m % 2 and rng.random() < 0.5:
        fy = np.linspace(1, -1, m)
    U, V = np.meshgrid(fx, fy)
    k = int(rng.integers(6))
    if k == 0:
        a, b = rng.uniform(0.3, 8, 2)
        h, name = np.exp(-a * U * U - b * V * V), "gaussian"
    elif k == 1:
        c, s = np.cos(1.1 * rng.uniform(0, 6)), np.sin(rng.uniform(0, 6))
        a, b = rng.uniform(0.3, 8, 2)
        h, name = np.exp(-a * (c * U + s * V) ** 2 - b * (s * U - c * V) ** 2), "rotated gaussian"
    elif k == 2:
        h, name = ref.aperture(U, V, 1.0, float(rng.uniform(0.3, 1.0)), float(rng.choice([0, 0.4]))), "aperture"
    elif k == 3:
        h, name = np.ones((m, n)), "all-pass"
    elif k == 4:
        a = rng.uniform(2, 8)
        x0, y0 = rng.uniform(-3, 3, 2)
        h, name = np.exp(-a * (U * U + V * V)) * np.exp(-1j * np.pi * (U * x0 + V * y0)), "shifted"
    else:
        h, name = np.abs(np.sinc(U * rng.uniform(0.3, 2)) * np.sinc(V * rng.uniform(0.3, 2))), "detector"
    return h, name


def C15(ctx):
    import pybsm.otf as otf

    ctx.rule = "distinct (OTF, frequency spacing, output spacing)"
    ctx.required = ["inverse-transform", "unit-sum", "point-symmetric", "energy-kept", "broader-not-wider", "centred", "small-kernel", "peak-position"]
    rng = ctx.rng
    f = otf.otf_to_psf
    for i in range(ctx.n(500, 4000)):
        h, name = random_otf(rng)
        m, n = h.shape
        df = gen.lu(rng, 1e-3, 1e5)
        step = 1.0 / (m * df)
        ratio = float(rng.choice([1.0, 1.0, 0.5, 2.0, 3.0, gen.lu(rng, 0.25, 8), gen.lu(rng, 0.5, 2), gen.lu(rng, 0.08, 20)]))
        dx = step * ratio
        ctx.case((h, df, dx), {"otf": name, "shape": [m, n], "df": df, "spacing ratio": ratio})
        full = ref.psf_full(h, df, dx)
        if not np.isfinite(full).all() or abs(ref.resize(np.real(np.fft.fftshift(np.fft.ifft2(np.fft.ifftshift(h)))), *full.shape).sum()) < 0.02:
            continue  # output spacing far too coarse: kernel falls between samples
        sc = max(np.abs(full).max(), np.abs(ref.psf(h, df, dx)).max())
        p = np.asarray(ctx.call(f, gen.layout(rng, h), df, dx))
        opts = ref.psf_options(h, df, dx)
        close_options(ctx, p, opts, "inverse-transform", 2e-5 * sc, otf=name, shape=[m, n], ratio=ratio)
        ctx.close(p.sum(), 1.0, "unit-sum", rtol=1e-9)
        if full.shape[0] < 10 or full.shape[1] < 10:
            ctx.monitors["small-kernel"] += 1
        # energy kept, judged on the uncropped kernel
        k = p.shape
        sl = tuple(slice(max(0, (a - b + 1) // 2), max(0, (a - b + 1) // 2) + b) for a, b in zip(full.shape, k))
        if min(h.shape) > 15 and all(b <= a for a, b in zip(full.shape, k)):
            e = full[sl].sum()
            ctx.check(e > 0.95 - 0.02 or max(k) >= 5 * ((min(h.shape) - 1) // 5) - 5 or name == "shifted", "energy-kept", "crop keeps %g of the kernel" % e, shape=list(k), otf=name)
        # point symmetry: odd OTFs sampled without resampling have an exact centre pixel
        if name not in ("shifted",) and m % 2 and n % 2 and ratio == 1.0:
            hs = 0.5 * (h + h[::-1, ::-1])
            q = np.asarray(ctx.call(f, hs, df, step))
            if min(m, n) <= 10 or q.shape[0] % 2 and q.shape[1] % 2:
                ctx.close(q, q[::-1, ::-1], "point-symmetric", rtol=0, atol=1e-5 * sc)
        if name not in ("shifted",):
            # centroid-like: the brightest pixel is the middle one for low-pass kernels
            if name in ("gaussian", "aperture", "all-pass") and ratio in (1.0,):
                y, x = np.unravel_index(np.argmax(p), p.shape)
                # the middle pixel of the uncropped kernel is n//2
                oy, ox = [s.start for s in sl]
                ctx.check(abs(y + oy - m // 2) <= 1 and abs(x + ox - n // 2) <= 1, "peak-position", "peak at %s of %s" % ((y, x), p.shape), otf=name)
                ctx.check(abs(y - (p.shape[0] - 1) / 2) <= 1 and abs(x - (p.shape[1] - 1) / 2) <= 1, "centred", "peak at %s of %s" % ((y, x), p.shape), otf=name)
    for i in range(ctx.n(60, 500)):
        n = int(rng.choice([31, 51, 64, 101]))
        x = (np.arange(n) - n // 2) / (n / 2.0)
        U, V = np.meshgrid(x, x)
        a = gen.lu(rng, 1, 40)
        b = a * rng.uniform(1.2, 4)
        df = gen.lu(rng, 1e-2, 1e3)
        dx = float(rng.choice([1.0, 0.7, 0.5])) / (n * df)
        ctx.case(("pair", n, a, b, df, dx), {"n": n, "narrowing": b / a})
        p = np.asarray(ctx.call(f, np.exp(-a * (U * U + V * V)), df, dx))
        q = np.asarray(ctx.call(f, np.exp(-b * (U * U + V * V)), df, dx))
        ctx.check(p.shape[0] <= q.shape[0] and p.shape[1] <= q.shape[1], "broader-not-wider", "kernel %s for the broader OTF, %s for the narrower" % (p.shape, q.shape))

        def width(k):
            c = np.arange(k.shape[0]) - (k.shape[0] - 1) / 2.0
            return np.sum(k.sum(axis=1) * c * c)

        ctx.check(width(p) <= width(q) * (1 + 1e-6) + 1e-9, "broader-not-wider", "second moment %g for the broader OTF, %g for the narrower" % (width(p), width(q)))


# ---------------------------------------------------------------------------
def test_image(rng, shape=None):
    r, c = shape or (int(rng.integers(8, 90)), int(rng.integers(8, 90)))
    k = int(rng.integers(5))
    y, x = np.mgrid[0:r, 0:c]
    if k == 0:
        im = rng.uniform(0, 1, (r, c))
    elif k == 1:
        im = 0.5 + 0.4 * np.sin(x * rng.uniform(0.05, 1)) * np.cos(y * rng.uniform(0.05, 1))
    elif k == 2:
        im = np.zeros((r, c))
        im[int(rng.integers(r)), int(rng.integers(c))] = 1.0
    elif k == 3:
        im = (x > c // 3).astype(float) * 0.7 + (y > r // 2) * 0.2
    else:
        im = x / c + 0.5 * y / r
    return im


def C16(ctx):
    import pybsm.otf as otf

    ctx.rule = "distinct (image, sampling, OTF, camera pixel)"
    ctx.required = ["blurred-image", "resampled-kernel", "output-size", "uniform-stays-uniform", "linear", "position", "all-pass", "resample", "integer-image", "mean-kept"]
    rng = ctx.rng
    f = otf.apply_otf_to_image
    for i in range(ctx.n(350, 2500)):
        im = test_image(rng)
        R = gen.lu(rng, 100, 1e6)
        h, name = random_otf(rng)
        if name == "shifted":
            h, name = np.abs(h), "gaussian"
        m = h.shape[0]
        dx = gen.lu(rng, 1e-7, 1e-2)  # reference pixel angle
        gsd = 2 * R * np.tan(dx / 2)
        df = 1.0 / (m * dx) * float(rng.choice([1.0, 0.5, gen.lu(rng, 0.3, 2.5)]))
        ifov = dx * float(rng.choice([1.0, 2.0, 0.5, gen.lu(rng, 0.4, 4.0), gen.lu(rng, 3, 12)]))
        if rng.random() < 0.1:
            gsd, R = gsd, gsd / dx * 1.0
        full = ref.psf_full(h, df, 2 * np.arctan(gsd / 2 / R))
        if not np.isfinite(full).all() or np.abs(full).sum() > 30:
            continue
        amp = gen.lu(rng, 1, 1e5)
        im = im * amp
        want_shape = tuple(int(np.round(k * (gsd / R) / ifov)) for k in im.shape)
        frac = [abs((k * (gsd / R) / ifov) % 1 - 0.5) for k in im.shape]
        if min(want_shape) < 1 or min(frac) < 1e-9 or max(want_shape) > 400:
            continue
        ps = ref.psf_options(h, df, 2 * np.arctan(gsd / 2 / R))[0]
        pfrac = [abs((k * (gsd / R) / ifov) % 1 - 0.5) for k in ps.shape]
        if min(int(np.round(k * (gsd / R) / ifov)) for k in ps.shape) < 1:
            continue
        ctx.case((im, gsd, R, h, df, ifov), {"image": list(im.shape), "otf": name, "otf shape": list(h.shape), "pixel ratio": ifov / dx, "out": list(want_shape)})
        im = gen.layout(rng, im)
        hh = gen.layout(rng, h)
        if i % 6 == 3:
            hh = hh.astype(complex)
        out, kern = ctx.call(f, im, gsd, R, hh, df, ifov)
        out = np.asarray(out)
        ctx.check(out.shape == want_shape, "output-size", "output %s, expected %s" % (out.shape, want_shape))
        opts = ref.apply_options(im, gsd, R, h, df, ifov)
        ab = np.abs(ps).sum()
        o = close_options(ctx, out, [a for a, _ in opts], "blurred-image", 1e-4 * amp * ab, otf=name)
        if min(pfrac) > 1e-9:
            close_options(ctx, kern, [b for _, b in opts], "resampled-kernel", 1e-4 * np.abs(ps).max())
        lev = float(rng.uniform(0, 1)) * amp
        u, _ = ctx.call(f, np.full(im.shape, lev), gsd, R, h, df, ifov)
        ctx.close(u, np.full(want_shape, lev), "uniform-stays-uniform", rtol=1e-5 * ab, atol=1e-9)
        b = test_image(rng, im.shape) * amp
        ca, cb = rng.uniform(-2, 2, 2)
        ob, _ = ctx.call(f, b, gsd, R, h, df, ifov)
        oc, _ = ctx.call(f, ca * im + cb * b, gsd, R, h, df, ifov)
        ctx.close(oc, ca * out + cb * np.asarray(ob), "linear", rtol=0, atol=1e-5 * amp * ab)
        if i % 3 == 0:
            # a blob well inside stays put (in scene coordinates)
            r, c = int(rng.integers(60, 90)), int(rng.integers(60, 90))
            y, x = np.mgrid[0:r, 0:c]
            cy, cx = float(rng.uniform(25, r - 25)), float(rng.uniform(25, c - 25))
            blob = np.exp(-((y - cy) ** 2 + (x - cx) ** 2) / (2 * 2.5**2)) * amp
            n = 61
            t = (np.arange(n) - n // 2) / (n / 2.0)
            U, V = np.meshgrid(t, t)
            g = np.exp(-gen.lu(rng, 1, 6) * (U * U + V * V))
            d1 = 1.0 / (n * dx)
            ct = dx * float(rng.choice([1.0, 1.5, 0.7]))
            q, _ = ctx.call(f, blob, gsd, R, g, d1, ct)
            q = np.asarray(q)
            Y, X = np.mgrid[0 : q.shape[0], 0 : q.shape[1]]
            sy, sx = r / q.shape[0], c / q.shape[1]
            gy, gx = ((Y + 0.5) * sy - 0.5) * q, ((X + 0.5) * sx - 0.5) * q
            ctx.check(abs(gy.sum() / q.sum() - cy) < 0.75 and abs(gx.sum() / q.sum() - cx) < 0.75, "position",
                      "blob moved from %s to %s" % ((cy, cx), (gy.sum() / q.sum(), gx.sum() / q.sum())))
            ctx.close(q.sum() * sy * sx, blob.sum(), "mean-kept", rtol=0.02)
            one, _ = ctx.call(f, im, gsd, R, np.ones((n, n)), (1 - 1e-9) / (n * 2 * np.arctan(gsd / 2 / R)), gsd / R)
            ctx.close(one, np.asarray(im, float), "all-pass", rtol=0, atol=1e-4 * amp)
        if i % 5 == 0:
            dt, top = [(np.uint8, 255), (np.uint8, 255), (np.uint16, 65535), (np.int16, 32767)][int(rng.integers(4))]
            low = -top - 1 if dt is np.int16 else 0
            u8 = np.clip(np.round(im / amp * 0.8 * top), low, top).astype(dt)
            p0 = ps.copy()
            q, _ = ctx.call(f, u8, gsd, R, h, df, ifov)
            w = ref.apply_options(u8, gsd, R, h, df, ifov)
            clip = [np.clip(ref.resample(np.clip(ref.filter2d(u8, k), low, top), gsd / R, ifov), low, top) for k in ref.psf_options(h, df, 2 * np.arctan(gsd / 2 / R))]
            close_options(ctx, np.asarray(q, float), clip + [a for a, _ in w], "integer-image", 2.01 + 2e-5 * top * ab)
            del p0
        # plain resampling
        a = float(gen.lu(rng, 0.3, 3)) if rng.random() < 0.6 else 1 / float(gen.lu(rng, 2, 40)) if rng.random() < 0.7 else float(gen.lu(rng, 3, 9))
        base = gen.lu(rng, 1e-6, 1)
        sh = tuple(int(np.round(k * base * a / base)) for k in im.shape)
        if min(sh) >= 1 and min(abs((k * (base * a) / base) % 1 - 0.5) for k in im.shape) > 1e-9:
            ctx.case(("rs", im, a))
            q = ctx.call(otf.resample_2D, im, base * a, base)
            ctx.close(q, ref.resize(im, *sh), "resample", rtol=0, atol=1e-5 * amp)
            if i % 4 == 1:
                dt, top = [(np.uint8, 255), (np.uint16, 65535), (np.int16, 32767), (np.float32, 1e4)][int(rng.integers(4))]
                di = np.clip(np.round(im / amp * 0.8 * top), 0, top).astype(dt)
                q = ctx.call(otf.resample_2D, di, base * a, base)
                ctx.close(np.asarray(q, float), ref.resize(di.astype(float), *sh), "resample", rtol=0, atol=1.01 + 2e-5 * top, dtype=str(di.dtype))


# ---------------------------------------------------------------------------
def sim_setup(rng, Sensor, Scenario, RefImage, uniform=None, shape=None, filt=None, plain=False, kind=None):
    """A sensor/scenario/image triple whose sampling keeps the kernel and output a sensible size."""
    lo = float(rng.choice([0.45, 0.55, 0.65, 0.9, 1.6, float(rng.uniform(0.4, 2.2))])) * 1e-6 + float(rng.uniform(0, 1)) * 1e-8
    s = gen.sensor(rng, Sensor, bandlim=(lo, lo + float(rng.uniform(0.021, 0.035)) * 1e-6), filt=filt, plain=plain)
    s.qe_wavelengths = s.opt_trans_wavelengths[[0, -1]]
    s.qe = rng.uniform(0.3, 1, 2)
    lam = lo
    sc = gen.scenario(rng, Scenario, ov, minalt=1000 if kind else 100, kind=kind)
    sl = float(np.hypot(sc.altitude, sc.ground_range))
    dx = lam / s.D * float(rng.uniform(0.3, 0.9))
    gsd = dx * sl
    sh = shape or (int(rng.integers(30, 100)), int(rng.integers(30, 100)))
    k = int(rng.integers(4))
    img = test_image(rng, sh)
    if uniform is not None:
        img = np.full(sh, uniform)
    top = [255, 255, 4095, 1.0][k]
    img = img * 0.7 * top + 0.1 * top
    dt = [np.uint8, np.int64, np.uint16, np.float64][k]
    img = img.astype(dt)
    j = int(rng.integers(4))
    if j == 0 and np.ptp(np.percentile(img, [0.2, 99.8])) > 0.05 * top:
        r = RefImage(img, gsd)
    elif j == 1:
        r = RefImage(img, gsd, np.array([0.0, top]), np.array([0.0, 1.0]), "im")
    elif j == 2:  # descending and with an interior point
        r = RefImage(img, gsd, pix_values=np.array([top, 0.4 * top, 0.0]), refl_values=np.array([0.8, 0.5, 0.05]))
    else:  # clips at both ends
        r = RefImage(img, gsd, pix_values=np.array([0.2, 0.6]) * top, refl_values=np.array([0.02, 0.97]))
    return r, s, sc


def expected_true(ctx, r, s, sc):
    import pybsm.radiance as rad

    atm = scenario_expected(bool(getattr(sc, "verif_interp", False)), sc.altitude, sc.ground_range, sc.ihaze)
    t = atm.copy()
    t[:, 0] = np.asarray(sc.atm)[:, 0]
    ref_, pe, sw = ref.refl_to_pe(t, s, s.int_time, 300.0)
    x, y = np.asarray(r.pix_values, float), np.asarray(r.refl_values, float)
    o = np.argsort(x)
    x, y = x[o], y[o]
    im = np.asarray(r.img, float)
    j = np.clip(np.searchsorted(x, im, side="right") - 1, 0, x.size - 2)
    refl = np.clip(y[j] + (im - x[j]) * (y[j + 1] - y[j]) / (x[j + 1] - x[j]), 0, 1)
    return pe[0] + (pe[-1] - pe[0]) * refl, sw, pe


def audit_sim(ctx, out, r, s, sc, seed):
    import pybsm.otf as otf

    d = dict(sensor=s, scenario=sc, image=np.asarray(r.img))
    t, b, n = [np.asarray(a) for a in out]
    wt, sw, pe = expected_true(ctx, r, s, sc)
    span = max(np.ptp(wt), 1e-3 * np.abs(wt).max(), 1e-12)
    ctx.close(t, wt, "true-image", rtol=3e-6, atol=1e-5 * (pe[-1] - pe[0]), **d)
    keep = sw[1] > 0
    wl, w = sw[0][keep], sw[1][keep]
    cut = s.D / wl.min()
    uu, vv = np.meshgrid(np.linspace(-1, 1, 1501) * cut, np.linspace(1, -1, 1501) * cut)
    sl = float(np.hypot(sc.altitude, sc.ground_range))
    o = otf.common_OTFs(s, sc, uu, vv, wl, w, sl, s.int_time)
    ix = np.ix_(np.unique(np.r_[750, ctx.rng.integers(0, 1501, 14)]), np.unique(np.r_[750, ctx.rng.integers(0, 1501, 14)]))
    rr = ref.common(s, sc, uu[ix], vv[ix], wl, w, sl, s.int_time)
    slop = 1e-6 + 4 * min(1.0, ref.slant_tol(0, sc.altitude, sl) / 50.0) if sc.cn2_at_1m > 0 else 0
    for k, rt, at in (("ap_OTF", 0, 2e-8), ("turb_OTF", slop, 2 * slop), ("det_OTF", 1e-9, 1e-11), ("jit_OTF", 1e-9, 1e-280), ("drft_OTF", 1e-8, 1e-10), ("wav_OTF", 1e-8, 0)):
        ctx.close(np.asarray(getattr(o, k))[ix], rr[k], "system-otf", rtol=rt, atol=at, term=k, **d)
    df = 2 * cut / 1500
    ifov = (s.p_x + s.p_y) / 2 / s.f
    opts = ref.apply_options(t, r.gsd, sl, o.system_OTF, df, ifov)
    ctx.check(min(b.shape) > 0 and n.shape == b.shape, "shapes", "blurred %s, noisy %s" % (b.shape, n.shape), **d)
    ctx.check(t.shape == np.shape(r.img), "shapes", "true image %s for reference %s" % (t.shape, np.shape(r.img)), **d)
    if min(abs((k * (r.gsd / sl) / ifov) % 1 - 0.5) for k in t.shape) > 1e-9:
        close_options(ctx, b, [a for a, _ in opts], "blurred-image", 2e-4 * np.abs(t).max() + 1e-9, **d)
    ctx.check(np.isfinite(t).all() and np.isfinite(b).all() and np.isfinite(n).all(), "finite", "non-finite pixels", **d)
    return t, b, n


def C26(ctx):
    import pybsm.simulation as sim
    from pybsm.simulation import RefImage, Scenario, Sensor
    from vlib.core import digest

    ctx.rule = "distinct (reference image, sensor, scenario) simulated, including re-simulations after one change"
    ctx.required = ["true-image", "system-otf", "blurred-image", "shapes", "finite", "uniform", "re-simulated", "inputs-unchanged", "one-field-changed"]
    rng = ctx.rng
    changes = {}
    for i in range(ctx.shard, ctx.shard + ctx.n(2, 22)):
        uni = 0.5 if i % 3 == 2 else None
        shape = None
        if rng.random() < 0.35:  # long and narrow
            shape = (int(rng.integers(12, 24)), int(rng.integers(100, 260)))
            shape = shape[::-1] if rng.random() < 0.5 else shape
        steep = None
        if i == ctx.shard + 1:  # so many columns that the size of the result shows the slant range used
            shape, steep = (int(rng.integers(4, 8)), int(rng.integers(2000, 5000))), "steep"
        r, s, sc = sim_setup(rng, Sensor, Scenario, RefImage, uniform=uni, shape=shape, filt=True if i % 4 == 1 else False, kind=steep)
        dim = i == (0 if ctx.tier == "quick" else ctx.shard)
        if dim:  # many wavelengths of little weight each, which together count
            lo = float(s.opt_trans_wavelengths[0])
            s.opt_trans_wavelengths, s.optics_transmission = np.array([lo, lo + float(rng.uniform(0.15, 0.25)) * 1e-6]), np.ones(2)
            hi = s.opt_trans_wavelengths[1]
            s.qe_wavelengths, s.qe = np.array([lo, hi - 0.021e-6, hi - 0.0105e-6, hi]), np.array([1.0, 1.4, 100.0, 100.0]) * gen.lu(rng, 1e-4, 9e-3)
            s.eta, s.pv, s.s_x, s.s_y = 0.0, 0.0, 0.0, 0.0
        for step in range(2 if i % 3 != 2 and not dim else 1):
            ctx.case((s, sc, np.asarray(r.img), r.gsd, r.pix_values, step), {"sensor": s, "scenario": sc, "image": np.asarray(r.img), "gsd": r.gsd, "step": step})
            np.random.seed(int(rng.integers(2**31)))
            before = digest((r, s, sc))
            out = ctx.call(sim.simulate_image, r, s, sc, pure=False)
            ctx.check(digest((r, s, sc)) == before, "inputs-unchanged", "simulation modified its image, sensor or scenario")
            t, b, n = audit_sim(ctx, out, r, s, sc, 0)
            if uni is not None:
                ctx.check(np.ptp(t) <= 1e-9 * abs(t.max()), "uniform", "true image of a uniform scene varies")
                ctx.check(np.ptp(b) <= 1e-4 * abs(t.max()) and abs(b.mean() / t.mean() - 1) < 1e-4, "uniform", "uniform scene not uniform after blur: %r..%r from %r" % (b.min(), b.max(), t.max()))
            if step:
                ctx.monitors["re-simulated"] += 1
            what = str(rng.choice(["image", "calibration", "kernel", "time", "aperture", "haze", "altitude", "jitter", "well", "cn2", "emissivity"]))
            changes[what] = changes.get(what, 0) + 1
            if what == "image":
                r.img = np.ascontiguousarray(r.img[::-1]) if rng.random() < 0.5 else (r.img * 0.8).astype(r.img.dtype)
            elif what == "calibration":
                r.refl_values = np.asarray(r.refl_values) * 0.7
            elif what == "kernel":
                s.filter_kernel = gen.kernel(rng)
            elif what == "time":
                s.int_time = s.int_time * 0.37
            elif what == "aperture":
                s.eta = 0.35
            elif what == "haze":
                sc.ihaze = 3 - sc.ihaze
            elif what == "altitude" and not getattr(sc, "verif_interp", False):
                sc.altitude, sc.ground_range = (4000.0, 0.0) if sc.altitude != 4000.0 else (3000.0, 0.0)
                r.gsd = r.gsd * sc.altitude / float(np.hypot(sc.altitude, sc.ground_range))
                r.gsd = s.D and s.opt_trans_wavelengths[0] / s.D * 0.6 * sc.altitude
            elif what == "jitter":
                s.s_x = s.s_x + 0.3 * s.p_x / s.f
            elif what == "well":
                s.max_n = max(10, int(s.max_n / 30))
            elif what == "cn2":
                sc.cn2_at_1m = 0.0 if sc.cn2_at_1m > 0 else 1e-14
            else:
                s.optics_emissivity, s.optics_temperature = 0.3, 330.0
    # -------------------------------------------------------------- one field changed, one after the other
    # Results that depend on a remembered simulation show here, whichever field was forgotten.
    ones = {}
    r, s, sc = sim_setup(rng, Sensor, Scenario, RefImage, shape=(int(rng.integers(24, 40)), int(rng.integers(24, 40))), filt=False)
    gen.live_base(rng, s, sc)
    ch = [("image", None), ("image[...]", None), ("gsd", None), ("refl_values", None), ("pix_values", None)] + gen.field_changes(rng, sc)
    every = [c for j, c in enumerate(ch) if j % ctx.shards == ctx.shard] if ctx.tier == "quick" else [ch[j] for j in rng.permutation(len(ch))]
    for what, how in [("first", None)] + every:
        if what == "image":
            r.img = np.ascontiguousarray(np.asarray(r.img)[:, ::-1])
        elif what == "image[...]":
            r.img = np.array(r.img)
            r.img[3:9, 5:15] = r.img.max()
        elif what == "gsd":
            r.gsd = r.gsd * 0.93
        elif what == "refl_values":
            r.refl_values = np.asarray(r.refl_values) * 0.8
        elif what == "pix_values":
            r.pix_values = np.asarray(r.pix_values) * 1.07
        elif how is not None:
            how(s, sc)
        ones[what] = ones.get(what, 0) + 1
        ctx.case((s, sc, np.asarray(r.img), r.gsd, r.pix_values, r.refl_values, what), {"changed": what, "sensor": s, "scenario": sc, "gsd": r.gsd})
        np.random.seed(int(rng.integers(2**31)))
        if what != "first":
            ctx.monitors["one-field-changed"] += 1
        audit_sim(ctx, ctx.call(sim.simulate_image, r, s, sc, pure=False), r, s, sc, 0)
    ctx.extra["changes_between_simulations"] = changes
    ctx.extra["single_field_changes"] = ones


def C27(ctx):
    import pybsm.simulation as sim
    from pybsm.simulation import RefImage, Scenario, Sensor
    from scipy import stats

    ctx.rule = "distinct (signal level, Gaussian noise, seed) scenes; statistics over all their pixels"
    ctx.required = ["mean", "variance", "uncorrelated", "same-seed", "other-seed", "noise-free-images-seed-independent", "photon-counts", "gaussian-part", "chi-square", "level-dependence"]
    rng = ctx.rng
    pix = 0
    lo = 0.55e-6
    levels = []
    for j in range(ctx.n(2, 25)):
        i = ctx.shard + 7 * j if ctx.tier == "quick" else ctx.shard + 8 * j
        # a plain, quickly simulated camera whose level is set by its well
        D, fno = 0.1, 4.0
        Q = 1.0
        p = lo * fno / Q
        s = Sensor("n", D, D * fno, p, np.array([lo, lo + 0.021e-6]), int_time=0.5)
        kind = (i + i // 5) % 5 if ctx.tier == 'quick' else (i + j) % 5
        dark = kind == 0 and i % 3 == 0 and j % 2 == 0
        lev = float(rng.choice([3.0, 7.5, 20.0]) if not dark else 0.6) if kind == 0 else gen.lu(rng, 30, 5e5)
        if i % 4 == 3:  # bright: shot noise of many photoelectrons
            kind = (1, 3)[(i // 4) % 2]
            lev = gen.lu(rng, 1e6, 1e10)
            s.int_time = 1e5
        bright = i % 4 == 3
        s.max_n = max(1, int(lev / 0.6))
        s.bit_depth = 100.0
        if kind in (1, 2, 4):
            s.read_noise = gen.nice(rng, 0.3, 60) if kind != 2 else 0.0
            s.bit_depth = float(rng.choice([2.0, 4.0, 6.0, 12.0])) if kind != 1 else 100.0
            if bright:  # Gaussian noise that counts beside the photon noise
                s.read_noise = float(np.sqrt(lev) * rng.uniform(0.3, 3))
            elif (i // 2 + j) % 3 == 0:  # very quiet electronics
                s.read_noise, s.bit_depth = gen.lu(rng, 1e-3, 0.3), 100.0
        if kind == 4:
            s.other_noise = np.array([5.0])
        sc = Scenario("x", 1 + i % 2, 3000.0, 0.0, cn2_at_1m=0.0)
        dx = p / s.f
        sh = (int(rng.integers(170, 230)), int(rng.integers(170, 230)))
        img = np.full(sh, float(rng.uniform(0.1, 0.6)) if dark else 0.6) if kind != 3 else np.tile(np.linspace(0.05, 0.95, sh[1]), (sh[0], 1))
        if i % 2:
            img = img * 200.0
            r = RefImage(img, dx * 3000.0, np.array([0.0, 200.0]), np.array([0.0, 1.0]))
        else:
            r = RefImage(img, dx * 3000.0, np.array([0.0, 1.0]), np.array([0.0, 1.0]))
        seed = int(rng.integers(2**31))
        ctx.case((kind, lev, s.read_noise, s.bit_depth, seed), {"kind": kind, "level": lev, "read": s.read_noise, "bits": s.bit_depth, "seed": seed})
        np.random.seed(seed)
        t, b, n = [np.asarray(a, float) for a in ctx.call(sim.simulate_image, r, s, sc, pure=False)]
        q = s.max_n / (np.sqrt(12.0) * (2.0**s.bit_depth - 1))
        g2 = q * q + s.read_noise**2
        N = n.size
        pix += N
        levels.append(float(b.mean()))
        ctx.check(N > 5000 and b.min() >= 0, "mean", "unusable scene: %d pixels, min %g" % (N, b.min()))
        var = b + g2
        z = (n - b) / np.sqrt(var)
        d = dict(level=float(b.mean()), gaussian_variance=g2, seed=seed, pixels=N)
        ctx.check(abs(z.mean()) * np.sqrt(N) < 6, "mean", "mean of noise is %g standard errors from zero" % (z.mean() * np.sqrt(N)), **d)
        kurt = np.mean(3 + (b / var**2))  # fourth standardised moment of Poisson plus Gaussian
        se = np.sqrt((kurt - 1) / N)
        ctx.check(abs(np.mean(z * z) - 1) < 6 * se, "variance", "noise variance is %g of the model (standard error %g)" % (np.mean(z * z), se), **d)
        for a, c in ((z[:, 1:], z[:, :-1]), (z[1:], z[:-1]), (z[1:, 1:], z[:-1, :-1]), (z[:, 5:], z[:, :-5]), (z[:-1, 1:], z[1:, :-1])):
            ctx.check(abs(np.mean(a * c)) * np.sqrt(a.size) < 6.5, "uncorrelated", "neighbouring pixels correlate: %g" % np.mean(a * c), **d)
        # dependence of the noise power on the level within one image
        if kind == 3:
            half = b > np.median(b)
            for h in (half, ~half):
                kk = np.mean(3 + (b[h] / var[h] ** 2))
                ctx.check(abs(np.mean(z[h] ** 2) - 1) < 6 * np.sqrt((kk - 1) / h.sum()), "level-dependence", "noise power does not follow the level: %g" % np.mean(z[h] ** 2), **d)
        if g2 < 1e-12:
            ctx.check(np.max(np.abs(n - np.round(n))) < 1e-4, "photon-counts", "photon noise without Gaussian noise is not a whole number of electrons", **d)
        if g2 >= 1e-8 and b.max() < 1e6:
            fr = n - np.round(n)
            ctx.check(np.mean(fr == 0) < 0.01, "gaussian-part", "%.0f%% of the noisy values are whole electrons although Gaussian noise of %g is configured" % (100 * np.mean(fr == 0), np.sqrt(g2)), **d)
            if g2 < 0.0064:
                ctx.check(abs(np.mean(fr * fr) / g2 - 1) < 6 * np.sqrt(2.0 / N), "gaussian-part", "Gaussian part has a variance of %g, expected %g" % (np.mean(fr * fr), g2), **d)
        if kind == 0 and g2 < 1e-12:
            L = float(b.mean())
            ks = np.arange(0, int(L + 8 * np.sqrt(L) + 10))
            pm = stats.poisson.pmf(ks, L)
            use = pm * N >= 8
            obs = np.array([np.sum(np.round(n) == k) for k in ks[use]], float)
            ex = pm[use] * N
            o2, e2 = np.append(obs, N - obs.sum()), np.append(ex, max(N - ex.sum(), 1e-9))
            if e2[-1] < 5:
                o2, e2 = o2[:-1], e2[:-1]
            chi = np.sum((o2 - e2) ** 2 / e2)
            ctx.check(stats.chi2.sf(chi, len(e2) - 1) > 1e-9, "chi-square", "counts are not Poisson: chi2 %g with %d cells" % (chi, len(e2)), **d)
        if kind in (1, 4) and g2 > 0:
            # third moment comes from the photon part alone
            sk = np.mean(z**3)
            want = np.mean(b / var**1.5)
            ctx.check(abs(sk - want) < 6 * np.sqrt(15.0 / N) * 1.5, "gaussian-part", "skewness %g, expected %g" % (sk, want), **d)
        np.random.seed(seed)
        t2, b2, n2 = ctx.call(sim.simulate_image, r, s, sc, pure=False)
        ctx.check(np.array_equal(n2, n), "same-seed", "same seed gave a different noisy image", **d)
        np.random.seed(seed + 1)
        t3, b3, n3 = ctx.call(sim.simulate_image, r, s, sc, pure=False)
        ctx.check(np.mean(np.asarray(n3) != n) > 0.2, "other-seed", "another seed gave the same noise", **d)
        zz = np.mean((np.asarray(n3) - b) / np.sqrt(var) * z)
        ctx.check(abs(zz) * np.sqrt(N) < 6.5, "other-seed", "noise of two seeds correlates: %g" % zz, **d)
        ctx.check(np.array_equal(t2, t) and np.array_equal(b2, b) and np.array_equal(t3, t) and np.array_equal(b3, b), "noise-free-images-seed-independent", "true or blurred image depends on the seed", **d)
        # continuing without reseeding draws fresh noise
        n4 = np.asarray(ctx.call(sim.simulate_image, r, s, sc, pure=False)[2])
        ctx.check(np.mean(n4 != np.asarray(n3)) > 0.2, "other-seed", "a second simulation without reseeding repeats the noise", **d)
    ctx.extra["sum_pixels"] = int(pix)
    ctx.extra["signal_levels"] = sorted(round(x, 2) for x in levels)[:20]


# ---------------------------------------------------------------------------
def C28(ctx):
    import pybsm.simulation as sim

    ctx.rule = "distinct (image, calibration / percentiles / OTF)"
    ctx.required = ["reflectance", "reflectance-bounds", "stretch", "stretch-order", "stretch-ends", "wiener", "ifov"]
    rng = ctx.rng
    dts = [np.uint8, np.uint16, np.int64, np.float32, np.float64, np.float64, np.bool_, np.int16, np.uint32, np.int8]
    for i in range(ctx.n(1200, 9000)):
        dt = dts[int(rng.integers(len(dts)))]
        sh = [(1,), (7,), (3, 5), (20, 31), (4, 5, 3), (64, 48)][int(rng.integers(6))]
        top = {np.uint8: 255, np.uint16: 65535, np.bool_: 1.0, np.int8: 127.0}.get(dt, float(rng.choice([1.0, 255.0, 4095.0])))
        im = (rng.uniform(-0.3 if dt in (np.int16, np.int8) else 0, 1, sh) * top).astype(dt) if dt is not np.bool_ else rng.random(sh) < 0.5
        n = int(rng.choice([2, 2, 3, 5, 9]))
        x = np.sort(rng.uniform(-0.1, 1.1, n)) * top
        if rng.random() < 0.4:
            x = np.unique(np.round(x))
            n = x.size
        if n < 2 or np.min(np.diff(x)) < 1e-6 * top:
            continue
        y = np.sort(rng.uniform(-0.05, 1.1, n)) if rng.random() < 0.7 else rng.uniform(0, 1, n)
        o = rng.permutation(n)
        ctx.case((im, x, y, o), {"dtype": str(np.dtype(dt)), "shape": list(sh), "calibration": [x, y]})
        got = ctx.call(sim.img_to_reflectance, gen.layout(rng, im), x[o], y[o])
        f = im.astype(float)
        j = np.clip(np.searchsorted(x, f, side="right") - 1, 0, n - 2)
        sl = (y[j + 1] - y[j]) / (x[j + 1] - x[j])
        w = np.clip(y[j] + (f - x[j]) * sl, 0, 1)
        ctx.close(got, w, "reflectance", rtol=1e-9, atol=1e-9 + 1e-7 * (dt is np.float32) * (1 + np.max(np.abs(sl)) * top))
        got = np.asarray(got)
        ctx.check(got.min() >= 0 and got.max() <= 1, "reflectance-bounds", "reflectance outside 0..1: %r..%r" % (got.min(), got.max()))
        # contrast stretch
        sh2 = [(50,), (20, 30), (16, 16, 3), (101, 7), (int(rng.integers(1, 7)), int(rng.integers(2, 7))), (int(rng.integers(2, 300)), int(rng.integers(1, 80)))][int(rng.integers(6))]
        im = (rng.uniform(-0.3 if dt in (np.int16, np.int8) else 0, 1, sh2) ** 2 * top * float(rng.uniform(0.1, 1))).astype(dt) if dt is not np.bool_ else rng.random(sh2) < 0.3
        if dt in (np.float64, np.float32) and rng.random() < 0.4:
            im = im * float(rng.choice([1e-3, 1e4])) - float(rng.choice([0, 500.0]))
        if im.dtype.kind == "f" and rng.random() < 0.15:  # a few pixels far outside the rest
            im.reshape(-1)[rng.integers(0, im.size, 2)] = float(rng.choice([1e7, 1e12, -1e9])) * top
        pc = [None, [0.1, 99.9], [2, 98], [0, 100], (5.0, 90.0), np.array([1.0, 50.0])][int(rng.integers(6))]
        lo, hi = (0.1, 99.9) if pc is None else (float(pc[0]), float(pc[1]))
        fl = im.astype(float)
        p0, p1 = np.percentile(fl, lo), np.percentile(fl, hi)
        if p1 - p0 < 1e-9 * (abs(p0) + 1):
            continue
        ctx.case(("st", im, lo, hi), {"dtype": str(im.dtype), "shape": list(sh2), "percentiles": [lo, hi]})
        if pc is None:
            k = int(rng.integers(2))
            s8 = ctx.call(sim.stretch_contrast_convert_8bit, im) if k else ctx.call(sim.stretch_contrast_convert_8bit, im, None)
        else:
            s8 = ctx.call(sim.stretch_contrast_convert_8bit, gen.layout(rng, im), pc)
        s8 = np.asarray(s8)
        ctx.check(s8.dtype == np.uint8 and s8.shape == im.shape, "stretch", "result %s %s" % (s8.dtype, s8.shape))
        v = np.clip((fl - p0) / (p1 - p0) * 255, 0, 255)
        ctx.check(np.all(np.abs(s8 - v) <= 0.5 + 1e-6), "stretch", "worst difference %g" % np.max(np.abs(s8 - v)), percentiles=[lo, hi], at=[p0, p1])
        q = np.argsort(fl.ravel(), kind="stable")
        ctx.check(np.all(np.diff(s8.ravel()[q].astype(int)) >= 0), "stretch-order", "order not preserved")
        ctx.check(np.all(s8[fl <= p0 - 1e-9 * abs(p0)] == 0) and np.all(s8[fl >= p1 + 1e-9 * abs(p1)] == 255), "stretch-ends", "values beyond the percentiles do not clip")
        h = rng.normal(size=(int(rng.integers(1, 20)), int(rng.integers(1, 20))))
        if rng.random() < 0.7:
            h = h + 1j * rng.normal(size=h.shape)
        if rng.random() < 0.3:
            h[0, 0] = 0
        ns = gen.lu(rng, 1e-6, 10) if rng.random() < 0.7 else rng.uniform(0.01, 1, h.shape)
        ctx.case(("w", h, ns))
        ctx.close(ctx.call(sim.wiener_filter, gen.layout(rng, h), ns), (np.real(h) - 1j * np.imag(h)) / (np.real(h) ** 2 + np.imag(h) ** 2 + ns), "wiener", rtol=1e-10, atol=1e-14)
        a, b = gen.nice(rng, 1e-7, 1e-2), gen.nice(rng, 1e-3, 100)
        ctx.close(ctx.call(sim.instantaneous_FOV, gen.maybe_int(rng, a), gen.maybe_int(rng, b)), a / b, "ifov", rtol=1e-12)


# ---------------------------------------------------------------------------
def C29(ctx):
    import pybsm.simulation as sim
    from pybsm.simulation import RefImage

    ctx.rule = "distinct (image, sampling distance, altitude); a few are simulated end to end"
    ctx.required = ["footprint", "straight-down-clean", "cutoff-beyond-nyquist", "band-in-database", "default-calibration", "expected-exception", "baseline-shape", "baseline-content", "stored"]
    rng = ctx.rng
    alts = [float(a) for a in gen.GRID_ALTS if a >= 100] + [24500.0, 550e3]
    for i in range(ctx.n(300, 2500)):
        sh = (int(rng.integers(5, 120)), int(rng.integers(5, 120)))
        if rng.random() < 0.2:
            sh += (int(rng.integers(1, 5)),)  # colour
        k = int(rng.integers(3))
        dt = [np.uint8, np.uint16, np.float64][k]
        img = (rng.uniform(0, 1, sh) * [255, 4000, 1.0][k]).astype(dt)
        gsd, alt = gen.nice(rng, 0.001, 50), float(rng.choice(alts + [gen.lu(rng, 1, 4e7)] * 9))
        ctx.case((img, gsd, alt), {"shape": list(sh), "gsd": gsd, "altitude": alt})
        keep = img.copy()
        r = ctx.call(RefImage, gen.layout(rng, img), gsd) if rng.random() < 0.5 else ctx.call(RefImage, img, gsd, name="q")
        srt = np.sort(keep.astype(float).ravel())

        def pct(p):
            x = p / 100 * (srt.size - 1)
            j = int(np.floor(x))
            return srt[j] if j + 1 >= srt.size else srt[j] + (x - j) * (srt[j + 1] - srt[j])

        ctx.close(r.pix_values, [pct(0.2), pct(99.8)], "default-calibration", rtol=1e-9, atol=1e-9)
        ctx.close(r.refl_values, [0.05, 0.95], "default-calibration", rtol=1e-12)
        ctx.check(np.array_equal(r.img, keep) and r.gsd == gsd, "stored", "image or gsd not stored unchanged")
        pv, rv = np.array([1.0, 9.0]), np.array([0.1, 0.7])
        r2 = ctx.call(RefImage, img, gsd, pv, rv, "nm")
        ctx.check(np.array_equal(r2.pix_values, [1, 9]) and np.array_equal(r2.refl_values, [0.1, 0.7]) and r2.name == "nm", "stored", "calibration not stored")
        ctx.call(RefImage, img, gsd, pv, raises=ValueError)
        ctx.call(RefImage, img, gsd, pix_values=pv, refl_values=None, raises=ValueError)
        s, sc = ctx.call(r.estimate_capture_parameters, gen.maybe_int(rng, alt))
        ctx.close(sc.altitude, alt, "footprint", rtol=1e-12)
        ctx.close([s.p_x / s.f * alt, s.p_y / s.f * alt], [gsd, gsd], "footprint", rtol=1e-9, gsd=gsd, altitude=alt)
        ctx.check(sc.ground_range == 0 and sc.cn2_at_1m == 0 and sc.aircraft_speed == 0, "straight-down-clean", "scenario is not a clean nadir view")
        ctx.check(s.s_x == 0 and s.s_y == 0 and s.da_x == 0 and s.da_y == 0 and s.pv == 0, "straight-down-clean", "sensor moves or aberrates")
        ctx.check(0.3e-6 <= np.min(s.opt_trans_wavelengths) < np.max(s.opt_trans_wavelengths) <= 14e-6, "band-in-database", "band %s outside the database's" % (s.opt_trans_wavelengths,))
        ifov = s.p_x / s.f
        ctx.check(s.D / s.opt_trans_wavelengths[-1] > 0.5 / ifov, "cutoff-beyond-nyquist", "cutoff %g below Nyquist %g" % (s.D / s.opt_trans_wavelengths[-1], 0.5 / ifov))
    for i in range(ctx.n(2, 8)):
        r0, c0 = int(rng.integers(40, 80)), int(rng.integers(40, 80))
        y, x = np.mgrid[0:r0, 0:c0]
        img = 120 + 70 * np.sin(x * float(rng.uniform(0.1, 0.35)) + 1) * np.cos(y * float(rng.uniform(0.1, 0.35)))
        img = img.astype(np.uint8) if i % 2 else img
        gsd, alt = gen.nice(rng, 0.05, 2), float(rng.choice(alts))
        r = RefImage(img, gsd)
        ctx.case(("sim", img, gsd, alt), {"simulated": list(img.shape), "gsd": gsd, "altitude": alt})
        s, sc = r.estimate_capture_parameters(alt)
        # the short end of the band (it sets the kernel's sampling): fewer wavelengths to integrate
        if ctx.tier == "quick":
            w0, w1 = s.opt_trans_wavelengths[0], s.opt_trans_wavelengths[-1]
            s.opt_trans_wavelengths = np.array([w0, w0 + 0.16 * (w1 - w0)])
            s.qe_wavelengths = s.opt_trans_wavelengths
        np.random.seed(int(rng.integers(2**31)))
        t, b, n = ctx.call(sim.simulate_image, r, s, sc, pure=False)
        b = np.asarray(b)
        ctx.check(b.shape == img.shape and np.shape(n) == img.shape and np.shape(t) == img.shape, "baseline-shape", "%s became %s" % (img.shape, b.shape))
        a, w = np.asarray(img, float)[4:-4, 4:-4].ravel(), b[4:-4, 4:-4].ravel()
        lo, hi = r.pix_values
        ok = (a > lo) & (a < hi)
        a, w = a[ok], w[ok]
        A = np.vstack([a, np.ones_like(a)]).T
        co, *_ = np.linalg.lstsq(A, w, rcond=None)
        res = w - A @ co
        ctx.check(co[0] > 0 and np.sqrt(np.mean(res**2)) <= 0.02 * np.std(w), "baseline-content", "baseline differs from the image: relative residual %g" % (np.sqrt(np.mean(res**2)) / np.std(w)), gsd=gsd, altitude=alt)
    # the default altitude
    r = RefImage(np.arange(100.0).reshape(10, 10), 0.5)
    s, sc = r.estimate_capture_parameters()
    ctx.case(("default-altitude",))
    try:
        sc.atm
        ctx.monitors["default-altitude-usable"] += 1
    except IndexError as e:
        if not ctx.known("default-altitude", "estimate_capture_parameters() without an altitude returns a scenario at 2000 km, for which the atmosphere database has no record (simulating with it raises IndexError)"):
            ctx.fail("default-altitude", "the default capture parameters cannot be simulated: %s" % e, altitude=sc.altitude)
