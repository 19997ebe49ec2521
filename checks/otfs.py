"""C06..C14, C17: transfer-function models against the reference model."""
import math

import numpy as np
from scipy.special import jv

from vlib import gen, ref


def _f(ctx):
    import pybsm.otf as otf

    return otf


def _scalars(rng, *xs):
    return tuple(gen.maybe_int(rng, x) for x in xs)


def unit_at_zero(ctx, fn, *args, tol=1e-12):
    z = np.zeros(int(ctx.rng.integers(1, 4)))
    got = ctx.call(fn, z, z.copy(), *args)
    ctx.close(got, np.ones(z.shape), "unity-at-zero-frequency", rtol=0, atol=tol)


def bounded(ctx, h, lo, hi, monitor="bounded", tol=1e-9):
    h = np.asarray(h)
    if h.size == 0:
        return
    ctx.check(np.all(np.isfinite(h)), "finite", "transfer function has non-finite values", h=h)
    m = np.abs(h) if np.iscomplexobj(h) else h
    ctx.check(m.min() >= lo - tol and m.max() <= hi + tol, monitor, "transfer function outside [%g, %g]: %r..%r" % (lo, hi, m.min(), m.max()))


# ---------------------------------------------------------------------------
def C06(ctx):
    ctx.rule = "distinct (wavelength, diameter, obscuration, frequency set) evaluated against the pupil autocorrelation"
    ctx.required = ["autocorrelation", "boundary-continuity", "zero-beyond-cutoff", "radial-only"]
    f = _f(ctx).circular_aperture_OTF
    rng = ctx.rng
    for i in range(ctx.n(500, 2500)):
        lam, D = gen.nice(rng, 2e-7, 2e-5), gen.nice(rng, 1e-3, 8)
        k = rng.random()
        eta = 0.0 if k < 0.3 else float(rng.choice([float(rng.uniform(0, 1)), 0.1, 0.2, 0.25, 0.3, 0.4, 0.5, 0.75, 0.9, 1e-3, 0.99]))
        c = D / lam
        edges = [c, (1 - eta) * c / 2, (1 + eta) * c / 2, eta * c, c / 2]
        u, v = gen.freqs(rng, c, special=edges, big=(i % 125 == 7))
        a = _scalars(rng, lam, D, eta)
        ctx.case(("ap", lam, D, eta, u, v), {"lambda": lam, "D": D, "eta": eta, "n": int(u.size), "shape": list(u.shape)})
        h = ctx.call(f, u, v, *a)
        tol = 1e-9 + 5e-9 / (1 - eta)
        ctx.close(h, ref.aperture(u, v, lam, D, eta), "autocorrelation", rtol=0, atol=tol, lam=lam, D=D, eta=eta)
        bounded(ctx, h, 0, 1, tol=tol)
        rho = np.hypot(u, v)
        out = np.asarray(h)[rho > c * (1 + 1e-12)]
        ctx.check(out.size == 0 or np.abs(out).max() == 0 or np.abs(out).max() <= tol, "zero-beyond-cutoff", "nonzero beyond D/lambda", eta=eta)
        # both sides of every region boundary, and exactly on it
        for e in edges:
            if e <= 0:
                continue
            t = float(rng.choice([0.0, np.pi / 2, float(rng.uniform(0, 6.3))]))
            r = e * (1 + np.array([-1e-7, -1e-10, -1e-13, -2.3e-16, 0, 2.3e-16, 1e-13, 1e-10, 1e-7]))
            b = ctx.call(f, r * np.cos(t), r * np.sin(t), lam, D, eta)
            ctx.check(np.ptp(b) <= 4e-6 + 2 * tol, "boundary-continuity", "jump of %g across region boundary" % np.ptp(b), eta=eta, edge=e / c, values=b)
        t = rng.uniform(0, 6.3, 16)
        r = float(rng.uniform(0, 1.1)) * c
        b = ctx.call(f, r * np.cos(t), r * np.sin(t), lam, D, eta)
        ctx.check(np.ptp(b) <= 1e-7 + 2 * tol, "radial-only", "value depends on direction", eta=eta, r=r / c, values=b)
        unit_at_zero(ctx, f, lam, D, eta, tol=1e-9 + tol)


# ---------------------------------------------------------------------------
def _hopkins(u, v, lam, D, f, dz):
    """Hopkins' series to the order the docstring cites, independent evaluation."""
    rho = np.hypot(u, v)
    s = 2 * rho * lam / D
    w = 0.5 * dz / (1 + 4 * (f / D) ** 2)
    a = 4 * np.pi * w / lam * s
    with np.errstate(all="ignore"):
        b = np.arccos(0.5 * s)
        x = 4 / (np.pi * a)
        even = b * jv(1, a) + sum((-1) ** (k + 1) / (2 * k) * np.sin(2 * k * b) * (jv(2 * k - 1, a) - jv(2 * k + 1, a)) for k in (1, 2, 3))
        odd = sum((-1) ** k / (2 * k + 1) * np.sin((2 * k + 1) * b) * (jv(2 * k, a) - jv(2 * k + 2, a)) for k in (0, 1, 2, 3))
        h = x * np.cos(0.5 * a * s) * even - x * np.sin(0.5 * a * s) * odd
    h = np.where(rho == 0, 1.0, h)
    return np.where(s >= 2, 0.0, np.nan_to_num(h)), a


def C07(ctx):
    ctx.rule = "distinct (function, parameters, frequency set)"
    ctx.required = ["defocused-pupil", "even-in-defocus", "gaussian-defocus", "blur-radii", "in-focus-limit"]
    m = _f(ctx)
    rng = ctx.rng
    f0 = m.circular_aperture_OTF_with_defocus
    for i in range(ctx.n(160, 1000)):
        lam, D = gen.nice(rng, 3e-7, 1.4e-5), gen.nice(rng, 0.005, 2)
        foc = D * gen.nice(rng, 0.8, 25)
        c = D / lam
        waves = float(rng.choice([0.0, 1e-9, 1e-4, 0.01, 0.1, 0.25, 0.5, 1.0, float(rng.uniform(0, 2.5))]))
        dz = waves * lam * 2 * (1 + 4 * (foc / D) ** 2) * float(rng.choice([-1, 1]))
        u, v = gen.freqs(rng, c, special=[c, c / 2])
        if u.size > 400:
            u, v = u.reshape(-1)[:400], v.reshape(-1)[:400]
        ctx.case(("def", lam, D, foc, dz, u, v), {"lambda": lam, "D": D, "f": foc, "defocus": dz, "waves": waves, "n": int(u.size)})
        h = ctx.call(f0, u, v, lam, D, foc, dz)
        rho = np.hypot(u, v)
        if dz == 0:
            ctx.close(h, ref.aperture(u, v, lam, D, 0), "defocused-pupil", rtol=0, atol=1e-9)
        else:
            ser, a = _hopkins(u, v, lam, D, foc, dz)
            ex = ref.defocus_exact(rho, lam, D, foc, dz)
            near = np.abs(rho - c) <= 1e-12 * c
            ser = np.where(near, 0, ser)
            # at least as accurate as the published series at its published order
            tol = 2e-7 + 1.0000001 * np.abs(ser - ex) + 1e-13 / np.maximum(np.abs(a), 1e-13)
            ctx.close(h, ex, "defocused-pupil", rtol=0, atol=tol, lam=lam, D=D, f=foc, dz=dz)
            ctx.close(ctx.call(f0, u, v, lam, D, foc, -dz), h, "even-in-defocus", rtol=1e-9, atol=1e-9)
        ctx.check(np.all(np.abs(np.asarray(h)[rho > c * (1 + 1e-12)]) <= 1e-12), "zero-beyond-cutoff", "nonzero beyond cutoff")
        tiny = 1e-5 * lam * 2 * (1 + 4 * (foc / D) ** 2)
        ctx.close(ctx.call(f0, u, v, lam, D, foc, tiny), ref.aperture(u, v, lam, D, 0), "in-focus-limit", rtol=0, atol=2e-6)
        unit_at_zero(ctx, f0, lam, D, foc, dz, tol=1e-9)
        # Gaussian approximation
        wx, wy = gen.pair(rng, lambda: gen.amp(rng, 1e-8, 1e-3))
        u, v = gen.freqs(rng, 1.5 / max(wx, wy, 1e-9))
        ctx.case(("g", wx, wy, u, v), {"w": [wx, wy], "shape": list(u.shape)})
        g = ctx.call(m.defocus_OTF, u, v, D, wx, wy)
        ctx.close(g, ref.gauss_defocus(np.asarray(u, float), np.asarray(v, float), wx, wy), "gaussian-defocus", rtol=1e-11, atol=1e-300)
        unit_at_zero(ctx, m.defocus_OTF, D, wx, wy)
        R, R0, z = gen.lu(rng, 1, 1e6), gen.lu(rng, 1, 1e6), gen.lu(rng, 1e-7, 1e-2) * float(rng.choice([-1, 1]))
        k = rng.random()
        if k < 0.1:
            R0 = R
        elif k < 0.5:  # nearly in focus, or focused (almost) at infinity
            R0 = R * (1 + gen.lu(rng, 1e-6, 1) * float(rng.choice([-0.9, 1]))) if k < 0.25 else R * gen.lu(rng, 1e2, 1e9) ** float(rng.choice([-1, 1]))
        elif k < 0.55:
            R0 = math.inf
        ctx.case(("r", D, R, R0, z, foc), nontrivial=R != R0)
        Di, Ri, R0i = _scalars(rng, D, R, R0) if math.isfinite(R0) else (D, R, R0)
        ctx.close(ctx.call(m.object_domain_defocus_radii, Di, Ri, R0i), 0.62 * D * (1 / R - 1 / R0), "blur-radii", rtol=1e-12, atol=2e-15 * D / min(R, R0), R=R, R0=R0)
        ctx.close(ctx.call(m.image_domain_defocus_radii, D, z, foc), 0.62 * D * z / foc / foc, "blur-radii", rtol=1e-11)


# ---------------------------------------------------------------------------
def C08(ctx):
    ctx.rule = "distinct (model, parameters, frequency set)"
    ctx.required = ["wavefront-model", "wavefront-floor", "shannon-model", "gaussian-model", "axis-swap"]
    m = _f(ctx)
    rng = ctx.rng
    for i in range(ctx.n(700, 5000)):
        lam, D = gen.nice(rng, 2e-7, 2e-5), gen.nice(rng, 1e-3, 8)
        c = D / lam
        pv = gen.amp(rng, 1e-4, 50)
        lx, ly = gen.pair(rng, lambda: D * gen.nice(rng, 0.01, 3))
        u, v = gen.freqs(rng, c, special=[c, c / 2], big=i % 150 == 3, grids=True)
        uf, vf = np.asarray(u, float), np.asarray(v, float)
        ctx.case(("w", lam, pv, lx, ly, u, v), {"lambda": lam, "pv": pv, "L": [lx, ly], "shape": list(u.shape)})
        h = ctx.call(m.wavefront_OTF, u, v, *_scalars(rng, lam, pv, lx, ly))
        ctx.close(h, ref.wavefront(uf, vf, lam, pv, lx, ly), "wavefront-model", rtol=1e-9 + 1e-14 * pv, atol=1e-300, lam=lam, pv=pv, L=(lx, ly))
        bounded(ctx, h, np.exp(-pv), 1, "wavefront-floor", 1e-12)
        ctx.close(ctx.call(m.wavefront_OTF, v, u, lam, pv, ly, lx), h, "axis-swap", rtol=1e-9)
        far = np.array([1e3 * lx / lam])
        ctx.close(ctx.call(m.wavefront_OTF, far, 0 * far, lam, pv, lx, ly), [np.exp(-pv)], "wavefront-floor", rtol=1e-9)
        unit_at_zero(ctx, m.wavefront_OTF, lam, pv, lx, ly)

        w = gen.amp(rng, 1e-3, 0.5)
        ctx.case(("s", c, w, u, v))
        h = ctx.call(m.wavefront_OTF_2, u, v, c, w)
        x = np.hypot(uf, vf) / c
        ctx.close(h, ref.wavefront2(uf, vf, c, w), "shannon-model", rtol=1e-10, atol=1e-11 * (1 + (w / 0.18) ** 2 * (1 + 4 * x * x)), cutoff=c, w=w)
        unit_at_zero(ctx, m.wavefront_OTF_2, c, w)

        bx, by = gen.pair(rng, lambda: gen.nice(rng, 1e-8, 1e-2))
        u2, v2 = gen.freqs(rng, 1.5 / min(bx, by), grids=True)
        ctx.case(("b", bx, by, u2, v2), {"blur": [bx, by], "shape": list(u2.shape)})
        h = ctx.call(m.gaussian_OTF, u2, v2, *_scalars(rng, bx, by))
        ctx.close(h, ref.gaussian(np.asarray(u2, float), np.asarray(v2, float), bx, by), "gaussian-model", rtol=1e-10, atol=1e-280, blur=(bx, by))
        ctx.close(ctx.call(m.gaussian_OTF, v2, u2, by, bx), h, "axis-swap", rtol=1e-9, atol=1e-280)
        unit_at_zero(ctx, m.gaussian_OTF, bx, by)


# ---------------------------------------------------------------------------
def C09(ctx):
    ctx.rule = "distinct (model, parameters, frequency set)"
    ctx.required = ["detector", "aggregation", "aggregation-n1", "cte", "tdi", "diffusion", "dark-current-density", "axis-swap"]
    m = _f(ctx)
    rng = ctx.rng
    for i in range(ctx.n(350, 2500)):
        f = gen.nice(rng, 0.01, 30)
        px, py = gen.pair(rng, lambda: gen.nice(rng, 1e-6, 1e-4))
        wx, wy = px * float(rng.choice([1.0, rng.uniform(0.3, 1)])), py * float(rng.choice([1.0, rng.uniform(0.3, 1)]))
        sc = 2.2 * f / min(wx, wy)
        u, v = gen.freqs(rng, sc, special=[f / px, f / py, 0.5 * f / px, f / wx], big=i % 170 == 5)
        uf, vf = np.asarray(u, float), np.asarray(v, float)
        ctx.case(("d", wx, wy, f, u, v), {"w": [wx, wy], "f": f, "shape": list(u.shape)})
        h = ctx.call(m.detector_OTF, u, v, wx, wy, f)
        ctx.close(h, ref.detector(uf, vf, wx, wy, f), "detector", rtol=1e-9, atol=1e-12, w=(wx, wy), f=f)
        ctx.close(ctx.call(m.detector_OTF, v, u, wy, wx, f), h, "axis-swap", rtol=1e-9, atol=1e-12)
        bounded(ctx, np.abs(h), 0, 1)
        unit_at_zero(ctx, m.detector_OTF, wx, wy, f)

        n = int(rng.choice([1, 2, 3, 4, 5, 8, 16])) if rng.random() < 0.8 else int(rng.integers(6, 70 if u.size < 2000 else 24))
        if u.size < 20000:
            ctx.case(("a", wx, wy, px, py, f, n, u, v), {"n": n, "p": [px, py], "w": [wx, wy]})
            a = ctx.call(m.detector_OTF_with_aggregation, u, v, wx, wy, px, py, f, n)
            ctx.close(a, ref.aggregate(uf, vf, wx, wy, px, py, f, n), "aggregation", rtol=1e-9, atol=1e-11 * n, n=n)
            bounded(ctx, np.abs(a), 0, 1, tol=1e-9)
            ctx.close(ctx.call(m.detector_OTF_with_aggregation, v, u, wy, wx, py, px, f, n), a, "axis-swap", rtol=1e-9, atol=1e-11 * n)
            one = ctx.call(m.detector_OTF_with_aggregation, u, v, wx, wy, px, py, f) if rng.random() < 0.5 else ctx.call(m.detector_OTF_with_aggregation, u, v, wx, wy, px, py, f, n=1)
            ctx.close(one, h, "aggregation-n1", rtol=1e-9, atol=1e-12)
            unit_at_zero(ctx, m.detector_OTF_with_aggregation, wx, wy, px, py, f, n)

        nx, ny = gen.pair(rng, lambda: gen.maybe_int(rng, float(rng.integers(0, 4000))))
        ph = int(rng.integers(1, 5))
        eff = float(rng.choice([1.0, 0.99999, 0.9995, 0.99, float(rng.uniform(0.9, 1))]))
        ctx.case(("c", px, py, nx, ny, ph, eff, f, u, v), {"transfers": [float(nx), float(ny)], "phases": ph, "eff": eff})
        h = ctx.call(m.cte_OTF, u, v, px, py, nx, ny, ph, eff, f)
        ctx.close(h, ref.cte(uf, vf, px, py, nx, ny, ph, eff, f), "cte", rtol=1e-9, atol=1e-12, eff=eff)
        ctx.close(ctx.call(m.cte_OTF, v, u, py, px, ny, nx, ph, eff, f), h, "axis-swap", rtol=1e-9, atol=1e-12)
        bounded(ctx, h, 0, 1)
        unit_at_zero(ctx, m.cte_OTF, px, py, nx, ny, ph, eff, f)

        if u.size < 3000:
            nt = float(rng.choice([1, 2, 3, 8, 32, 64, 128, 200]))
            beta = float(rng.choice([1.0, 0.98, 1.01, 1.1, 0.8, float(rng.uniform(0.7, 1.4)), 1 + gen.lu(rng, 1e-6, 0.05) * float(rng.choice([-1, 1])), float(rng.choice([2.0, -1.0, 0.5, 3.0]))]))
            ctx.case(("t", wx, nt, ph, beta, f, u), {"n_tdi": nt, "phases": ph, "beta": beta})
            h = ctx.call(m.tdi_OTF, u, wx, gen.maybe_int(rng, nt), ph, beta, f)
            ctx.close(h, ref.tdi(uf, wx, nt, ph, beta, f), "tdi", rtol=1e-9, atol=1e-11, beta=beta)
            bounded(ctx, h, 0, 1)
            z = ctx.call(m.tdi_OTF, np.zeros(2), wx, nt, ph, beta, f)
            ctx.close(z, np.ones(2), "unity-at-zero-frequency", rtol=0, atol=1e-12)

        al = gen.nice(rng, 1e2, 1e7)
        ald, al0 = gen.nice(rng, 1e-7, 3e-5), gen.nice(rng, 1e-6, 3e-4)
        if rng.random() < 0.1:
            ald = 0.0  # nothing depleted
        alpha = al if rng.random() < 0.6 or u.ndim != 1 else rng.uniform(1e3, 1e6, u.shape)
        ctx.case(("x", alpha if np.ndim(alpha) == 0 else np.asarray(alpha), ald, al0, f, u, v), {"alpha": float(np.mean(alpha)), "ald": ald, "al0": al0})
        if u.dtype.kind == "i" and np.max(np.abs([u, v])) < 2e9:
            u, v = u.astype(np.int32), v.astype(np.int32)  # (known_findings.txt: once overflowed)
        h = ctx.call(m.diffusion_OTF, u, v, alpha, ald, al0, f)
        den = 1 - np.exp(-np.asarray(alpha) * ald) / (1 + np.asarray(alpha) * al0)
        ctx.close(h, ref.diffusion(uf, vf, np.asarray(alpha), ald, al0, f), "diffusion", rtol=1e-9, atol=1e-13 / np.min(den), alpha=alpha)
        bounded(ctx, h, 0, 1, tol=1e-9)

        jd = gen.nice(rng, 1e-12, 1e-2)
        ctx.case(("j", jd, wx, wy))
        ctx.close(ctx.call(m.dark_current_from_density, jd, wx, wy), jd * wx * wy / ref.Q, "dark-current-density", rtol=1e-10)


# ---------------------------------------------------------------------------
def C10(ctx):
    ctx.rule = "distinct (model, amplitudes, frequency set)"
    ctx.required = ["jitter", "drift", "no-motion", "variances-add", "axis-swap"]
    m = _f(ctx)
    rng = ctx.rng
    for i in range(ctx.n(900, 6000)):
        sx, sy = gen.pair(rng, lambda: gen.amp(rng, 1e-9, 1e-2, 0.15))
        u, v = gen.freqs(rng, 0.8 / max(sx, sy, 1e-9), big=i % 200 == 9, grids=True)
        uf, vf = np.asarray(u, float), np.asarray(v, float)
        ctx.case(("j", sx, sy, u, v), {"s": [sx, sy], "shape": list(u.shape)}, nontrivial=sx + sy > 0)
        h = ctx.call(m.jitter_OTF, u, v, *_scalars(rng, sx, sy))
        ctx.close(h, ref.jitter(uf, vf, sx, sy), "jitter", rtol=1e-10, atol=1e-290, s=(sx, sy))
        ctx.close(ctx.call(m.jitter_OTF, v, u, sy, sx), h, "axis-swap", rtol=1e-9, atol=1e-290)
        unit_at_zero(ctx, m.jitter_OTF, sx, sy)
        tx, ty = gen.pair(rng, lambda: gen.amp(rng, 1e-9, 1e-2, 0.15))
        both = ctx.call(m.jitter_OTF, u, v, float(np.hypot(sx, tx)), float(np.hypot(sy, ty)))
        ctx.close(both, h * ctx.call(m.jitter_OTF, u, v, tx, ty), "variances-add", rtol=1e-8, atol=1e-280)
        ax, ay = gen.pair(rng, lambda: gen.amp(rng, 1e-9, 1e-1, 0.15))
        u, v = gen.freqs(rng, 3.2 / max(ax, ay, 1e-8), special=[1 / ax if ax else 1.0], grids=True)
        uf, vf = np.asarray(u, float), np.asarray(v, float)
        ctx.case(("d", ax, ay, u, v), {"a": [ax, ay], "shape": list(u.shape)}, nontrivial=ax + ay > 0)
        h = ctx.call(m.drift_OTF, u, v, *_scalars(rng, ax, ay))
        ctx.close(h, ref.drift(uf, vf, ax, ay), "drift", rtol=1e-9, atol=1e-12, a=(ax, ay))
        ctx.close(ctx.call(m.drift_OTF, v, u, ay, ax), h, "axis-swap", rtol=1e-9, atol=1e-12)
        ctx.check(h.size == 0 or np.abs(h).max() <= 1 + 1e-12, "bounded", "drift OTF exceeds 1")
        unit_at_zero(ctx, m.drift_OTF, ax, ay)
        for fn in (m.jitter_OTF, m.drift_OTF):
            ctx.close(ctx.call(fn, u, v, 0.0, 0.0), np.ones(np.broadcast(u, v).shape), "no-motion", rtol=0)
            one = ctx.call(fn, u, v, ax, 0.0)
            ctx.close(one, ctx.call(fn, u, 0 * np.asarray(v), ax, ay), "x-motion-only-u", rtol=1e-12, atol=1e-15)


# ---------------------------------------------------------------------------
def bands(rng, lo, hi, few, top):
    """Wavelengths and weights: a handful or dozens, usually ascending, some without weight."""
    n = int(rng.integers(1, few)) if rng.random() < 0.75 else int(rng.integers(8, 60))
    wl = rng.uniform(lo, hi, n)
    k = rng.random()
    if k < 0.75:
        wl = np.sort(wl)
    elif k < 0.85:
        wl = np.sort(wl)[::-1].copy()
    wt = rng.uniform(0.01, 1, n) * (float(top) if rng.random() < 0.8 else gen.lu(rng, 1e-6, 1e6))
    if n > 1 and rng.random() < 0.2:
        wt[rng.random(n) < 0.4] = 0.0
        wt[int(rng.integers(n))] = 1.0
    if rng.random() < 0.15:
        wt = np.ceil(wt / wt.max() * 5).astype(int)
    return wl, wt


def C11(ctx):
    ctx.rule = "distinct (geometry, profile, band, exposure, frequency set)"
    ctx.required = ["hv-profile", "coherence-diameter", "r0-wavelength-power", "exposure-otf", "wind-weighting", "polychromatic", "band-r0", "finite"]
    m = _f(ctx)
    rng = ctx.rng
    for i in range(ctx.n(160, 1200)):
        wind, cn2 = gen.amp(rng, 1, 80), gen.amp(rng, 1e-17, 1e-12)
        n = int(rng.choice([1, 2, 50, 1000]))
        h = np.concatenate([rng.uniform(0, 30e3, n), 10 ** rng.uniform(-1, 5.8, n), [0.0]])
        ctx.case(("hv", wind, cn2, h), {"wind": wind, "cn2": cn2})
        prof = ctx.call(m.hufnagel_valley_turbulence_profile, gen.layout(rng, h), *_scalars(rng, wind, cn2))
        ctx.close(prof, ref.hv(h, wind, cn2), "hv-profile", rtol=1e-9, atol=1e-280, wind=wind, cn2=cn2)
        # coherence diameter on arbitrary sampled paths (uneven, reversed magnitude)
        z = np.sort(rng.uniform(0, gen.lu(rng, 10, 1e6), int(rng.integers(20, 3000))))
        z[0] = 0
        c = 10 ** rng.uniform(-20, -13, z.size)
        lam = gen.nice(rng, 3e-7, 1.4e-5)
        ctx.case(("r0", lam, z, c), {"lambda": lam, "path": float(z[-1]), "n": int(z.size)})
        r = ctx.call(m.coherence_diameter, lam, z, c)
        ctx.close(r, ref.r0_sph(lam, z, c), "coherence-diameter", rtol=1e-9, lam=lam)
        ctx.close(ctx.call(m.coherence_diameter, 2 * lam, z, c), r * 2**1.2, "r0-wavelength-power", rtol=1e-9)
        # single-wavelength OTFs
        D, r0 = gen.nice(rng, 0.005, 3), gen.nice(rng, 1e-3, 10)
        co = D / lam
        u, v = gen.freqs(rng, co, special=[co, r0 / lam])
        uf, vf = np.asarray(u, float), np.asarray(v, float)
        al = float(rng.choice([0, 0.5, 1.0]))
        ctx.case(("t", lam, D, r0, al, u, v), {"lambda": lam, "D": D, "r0": r0, "alpha": al})
        g = ctx.call(m.turbulence_OTF, u, v, *_scalars(rng, lam, D, r0, al))
        with np.errstate(all="ignore"):
            w = ref.turbulence(uf, vf, lam, D, r0, al)
        ctx.close(g, w, "exposure-otf", rtol=1e-7, atol=1e-280, D=D, r0=r0, alpha=al)
        td, vel = gen.amp(rng, 1e-6, 1.0), gen.amp(rng, 0.1, 500)
        if rng.random() < 0.5:
            td = r0 / max(vel, 1e-3) * float(rng.uniform(0.1, 3))
        ctx.case(("ws", lam, D, r0, td, vel, u, v), {"t": td, "v": vel, "r0": r0})
        g = ctx.call(m.wind_speed_turbulence_OTF, u, v, lam, D, r0, td, vel)
        w = ref.wind_turbulence(uf, vf, lam, D, r0, td, vel)
        ctx.close(g, w, "wind-weighting", rtol=1e-7, atol=1e-280, D=D, r0=r0, td=td, vel=vel)
        unit_at_zero(ctx, m.wind_speed_turbulence_OTF, lam, D, r0, td, vel)
        # whole path
        alt = float(rng.choice([2.0, 32.5, 75.0, 550e3, gen.lu(rng, 2, 6e5), gen.lu(rng, 50, 3e4), gen.lu(rng, 6e5, 4e7)]))
        hor = ref.RE * np.arccos(ref.RE / (ref.RE + alt))
        grd = 0.0 if rng.random() < 0.3 else float(rng.uniform(0, 0.98)) * hor
        sl = ref.slant(0.0, alt, grd)
        if grd == 0.0:
            sl = alt * (1 + float(rng.choice([0, 1e-12, -1e-12]))) if alt > 1000 else alt
        wl, wt = bands(rng, 0.4e-6, 1.0e-6, 5, 3)
        wl = wl * float(rng.choice([1, 4]))
        cn2p = gen.nice(rng, 1e-16, 1e-13)
        # beyond 8 cutoffs the short-exposure form grows without bound by definition
        u, v = gen.freqs(rng, D / wl.max())
        if u.size > 4000:
            u, v = u.reshape(-1)[:4000], v.reshape(-1)[:4000]
        ctx.case(("p", alt, sl, wl, wt, D, wind, cn2p, td, vel, u, v),
                 {"alt": alt, "slant": sl, "D": D, "wind": wind, "cn2": cn2p, "t": td, "v": vel, "bands": int(wl.size)})
        g, rb = ctx.call(m.polychromatic_turbulence_OTF, u, v, wl, wt, alt, sl, D, wind, cn2p, td, vel)
        w, wr = ref.poly_turbulence(np.asarray(u, float), np.asarray(v, float), wl, wt, alt, sl, D, wind, cn2p, td, vel)
        # heights come from Earth-radius-sized squares: allow their rounding in the profile (scale 100 m)
        dh = ref.slant_tol(0, alt, sl)
        slop = 1e-6 + 4 * min(1.0, dh / 50.0)
        ctx.check(np.all(np.isfinite(g)) and np.all(np.isfinite(rb)), "finite", "non-finite turbulence OTF", alt=alt, slant=sl)
        ctx.close(np.ravel(rb)[0], wr, "band-r0", rtol=slop, shape=False, alt=alt, slant=sl)
        ctx.close(g, w, "polychromatic", rtol=slop, atol=2 * slop, alt=alt, slant=sl)


# ---------------------------------------------------------------------------
def C12(ctx):
    ctx.rule = "distinct (wavelength set, weights, function shape)"
    ctx.required = ["weighted-average", "scale-free", "order-free", "single-wavelength", "zero-weight", "argument-passed", "repeated-wavelengths"]
    m = _f(ctx)
    rng = ctx.rng
    f = m.weighted_by_wavelength
    for i in range(ctx.n(1500, 8000)):
        n = int(rng.choice([1, 2, 3, 4, 5, 10, 31, 200])) if i % 60 != 11 else int(gen.lu(rng, 200, 5000))
        base = gen.lu(rng, 3e-7, 1e-5)
        k = rng.random()
        if k < 0.5:
            wl = base + np.arange(n) * 1e-8
        elif k < 0.65:
            wl = base * (1 + np.arange(n) * 1e-9)  # closely spaced lines
        else:
            wl = np.unique(rng.uniform(3e-7, 1.4e-5, n))
        if i % 9 == 4 and n > 1:  # some wavelengths listed more than once
            wl = rng.choice(wl[: max(1, n // 2)], n)
            ctx.monitors["repeated-wavelengths"] += 1
        n = wl.size
        kind = int(rng.integers(5))
        wt = rng.uniform(0, 1, n) if kind else 10 ** rng.uniform(-12, 12, n)
        if kind == 2:
            wt = rng.integers(1, 9, n).astype((int, int, np.uint8, np.uint16, np.int16)[int(rng.integers(5))])
        if kind in (1, 3) and n > 1:
            wt[rng.random(n) < 0.3] = 0.0
        if kind == 4 and n > 2:
            wt[:] = 1.0
        if np.sum(wt) <= 0:
            wt = np.ones(n)
        p = rng.permutation(n) if rng.random() < 0.6 else np.arange(n)
        wl, wt = wl[p], wt[p]
        shp = [(), (1,), (7,), (5, 6), (2, 3, 4)][int(rng.integers(5))]
        co = rng.normal(size=shp)
        cplx = rng.random() < 0.15
        seen = []

        def fn(w, co=co, cplx=cplx, seen=seen):
            if not ctx.decoying:
                seen.append(float(np.ravel(w)[0]))
            x = np.ravel(w)[0] / 1e-6
            r = np.cos(3 * x + co) + co * x * x
            return r * (1 + 0.5j * x) if cplx else r

        ctx.case((wl, np.asarray(wt), shp, co), {"n": n, "weights": wt, "shape": list(shp)})
        got = ctx.call(f, gen.layout(rng, wl), gen.layout(rng, wt), fn, replay=False)
        vals = [fn(w) for w in wl]
        W = np.asarray(wt, float)
        want = sum(a * b for a, b in zip(W, vals)) / W.sum()
        scale = max(np.max(np.abs(x)) for x in vals) + 1e-300
        ctx.close(np.reshape(got, shp), want, "weighted-average", rtol=1e-10, atol=1e-12 * scale, wavelengths=wl, weights=wt)
        ctx.check(set(seen) <= set(map(float, wl)), "argument-passed", "function evaluated at a wavelength that was not given", seen=seen[:5])
        q = rng.permutation(n)
        ctx.close(np.reshape(ctx.call(f, wl[q], wt[q], fn, replay=False), shp), want, "order-free", rtol=1e-10, atol=1e-12 * scale)
        sc = gen.lu(rng, 1e-6, 1e6) if rng.random() < 0.8 else gen.lu(rng, 1e-200, 1e200)
        ctx.close(np.reshape(ctx.call(f, wl, wt * sc, fn, replay=False), shp), want, "scale-free", rtol=1e-10, atol=1e-12 * scale)
        one = ctx.call(f, wl[:1], np.array([gen.lu(rng, 1e-3, 1e3)]), fn, replay=False)
        ctx.close(np.reshape(one, shp), vals[0], "single-wavelength", rtol=1e-12, atol=1e-14 * scale)
        w2 = np.append(wl, 2e-5 + np.arange(1) * 1e-9)
        ctx.close(np.reshape(ctx.call(f, w2, np.append(W, 0.0), fn, replay=False), shp), want, "zero-weight", rtol=1e-10, atol=1e-12 * scale)
        if n > 1:
            w3 = np.append(2e-5, wl)
            ctx.close(np.reshape(ctx.call(f, w3, np.append(0.0, W), fn, replay=False), shp), want, "zero-weight", rtol=1e-10, atol=1e-12 * scale)


# ---------------------------------------------------------------------------
def C13(ctx):
    import pybsm.noise as noise

    ctx.rule = "distinct (kernel, pixel size, frequency set)"
    ctx.required = ["kernel-spectrum", "grid-cell", "periodic", "noise-gain", "expected-exception"]
    m = _f(ctx)
    rng = ctx.rng
    for i in range(ctx.n(30, 300)):
        k = gen.kernel(rng)
        if rng.random() < 0.15:
            k = gen.kernel(rng, (int(rng.integers(8, 30)), int(rng.integers(8, 30))))
        if i % 10 == 7:  # longer than the transform's usual size
            k = gen.kernel(rng, (int(rng.integers(1, 4)), int(rng.integers(90, 140))))
            k = k.T.copy() if rng.random() < 0.5 else k
        elif i and rng.random() < 0.3:
            # another kernel made of the last one's entries
            w = int(rng.integers(4))
            w = w % 3 if k0.size > 150 else w
            k = [k0.reshape(k0.shape[::-1]), k0.T.copy(), k0[::-1, ::-1].copy(), k0.reshape(1, -1)][w].copy()
        k0 = k
        if rng.random() < 0.2:  # kernels that do not keep the mean: derivatives, gains, attenuation
            k = k - k.mean() if rng.random() < 0.3 else k * float(rng.choice([-1.0, 0.25, 2.0, 1e-3, 40.0]))
        elif rng.random() < 0.15:
            k = np.round(k * 8).astype(int if rng.random() < 0.7 else np.float32)
        ifov = gen.nice(rng, 1e-7, 1e-3)
        ny = 0.5 / ifov
        ext = float(rng.choice([0.5, 1.0, 2.7, 5.0])) * ny
        if rng.random() < 0.5:
            n = int(rng.integers(3, 40))
            u, v = np.meshgrid(np.linspace(-1, 1, n) * ext, np.linspace(1, -1, n + int(rng.integers(0, 3))) * ext)
        else:
            u, v = rng.uniform(-ext, ext, 300), rng.uniform(-ext, ext, 300)
            u[:5] = 0
            v[3:9] = 0
        ctx.case(("f", k, ifov, u, v), {"kernel": k, "ifov": ifov, "extent/nyquist": ext / ny, "shape": list(u.shape)})
        h = ctx.call(m.filter_OTF, u, v, gen.layout(rng, k), ifov)
        ctx.check(np.shape(h) == u.shape, "grid-cell", "shape %s" % (np.shape(h),))
        edge = np.minimum(np.abs((np.abs(u) / ny - 1) % 2), np.abs((np.abs(v) / ny - 1) % 2))
        edge = np.minimum(edge, np.minimum(2 - np.abs((np.abs(u) / ny - 1) % 2), 2 - np.abs((np.abs(v) / ny - 1) % 2)))
        ok = edge > 1e-9
        tot = np.abs(k).sum()
        ex = ref.kernel_dft(u, v, k, ifov)
        r, c = np.indices(k.shape)
        lip = 2 * np.pi * float(np.sum(np.abs(k) * np.maximum(np.abs(r - k.shape[0] // 2), np.abs(c - k.shape[1] // 2)))) * 2
        res = 1.25 / max(100, *k.shape) * lip
        # phase-free comparison against the exact spectrum, to the grid's resolution
        ctx.close(np.asarray(h)[ok], ex[ok], "kernel-spectrum", rtol=0, atol=res + 1e-9, kernel=k)
        mid, lo, hi = ref.filter_otf(u, v, k, ifov)
        slack = 1e-6 * tot
        bad = ok & ((h < lo - slack) | (h > hi + slack))
        # an exact evaluation of the kernel's spectrum is just as acceptable as the gridded one
        bad &= np.abs(h - ex) > slack + 0.25 * res
        ctx.check(not np.any(bad), "grid-cell", "outside the range of the surrounding grid values", kernel=k,
                  at=[float(x) for x in (u[bad][:1].tolist() + v[bad][:1].tolist())])
        a, b = int(rng.integers(-3, 4)), int(rng.integers(-3, 4))
        h2 = ctx.call(m.filter_OTF, u + 2 * ny * a, v + 2 * ny * b, k, ifov)
        ok2 = edge > 1e-7
        ctx.close(np.asarray(h2)[ok2], np.asarray(h)[ok2], "periodic", rtol=0, atol=1e-7 * lip + 1e-9 * tot)
    for i in range(ctx.n(1500, 8000)):
        k = gen.kernel(rng) if rng.random() < 0.8 else gen.kernel(rng, (int(rng.integers(1, 60)), int(rng.integers(2, 60))))
        if rng.random() < 0.05:
            k = np.array([[1.0]]) if rng.random() < 0.5 else np.array([1])
        if i % 12 == 5:  # whole-number kernels, stored as small integers
            k = rng.integers(-5, 3, (int(rng.integers(1, 4)), int(rng.integers(2, 5))))
            k.reshape(-1)[k.size // 2] += 1 - k.sum()
            k = k.astype((np.int8, np.int16, np.int32)[int(rng.integers(3))])
        elif i % 12 == 7:  # averaging over boxes of any shape
            k = rng.uniform(float(rng.choice([0.0, 0.9, 1.0])), 1.0, (int(gen.lu(rng, 1, 80)), int(gen.lu(rng, 1, 80))))
            k = k / k.sum()
        elif rng.random() < 0.3:
            k = k * (1 + float(rng.choice([1, -1, 4, -4])) * 2.2e-16 * k.size)
        ctx.case(("n", k), {"kernel": k})
        g = ctx.call(noise.noise_gain, gen.layout(rng, k))
        ctx.close(g, np.sqrt(np.sum(np.square(k.astype(float)))), "noise-gain", rtol=1e-10, shape=False, kernel=k)
        e = float(rng.choice([1e-3, 0.01, 0.1, 0.5, -1e-3, -0.3, -1.0, -2.0, 1.0, 3.0]))
        bad = k.astype(float).copy()
        bad.reshape(-1)[int(rng.integers(bad.size))] += e
        ctx.case(("nb", bad))
        ctx.call(noise.noise_gain, bad, raises=ValueError)


# ---------------------------------------------------------------------------
def C14(ctx):
    from pybsm.simulation import Scenario, Sensor

    ctx.rule = "distinct (sensor, scenario, band, frequency grid)"
    ctx.required = ["aperture-term", "turbulence-term", "turbulence-off", "detector-term", "jitter-term", "drift-term", "wavefront-term",
                    "filter-term", "filter-off", "product", "unity-at-zero-frequency"]
    m = _f(ctx)
    rng = ctx.rng
    for i in range(ctx.n(60, 900)):
        s = gen.sensor(rng, Sensor)
        if s.filter_kernel.size > 1 and rng.random() < 0.3:
            s.filter_kernel = np.array([[1.0]])
        alt = gen.lu(rng, 30, 6e5)
        hor = ref.RE * np.arccos(ref.RE / (ref.RE + alt))
        grd = 0.0 if rng.random() < 0.3 else float(rng.uniform(0, 0.95)) * hor
        sc = Scenario("x", 1, alt, grd, aircraft_speed=gen.amp(rng, 1, 300, 0.3), ha_wind_speed=gen.amp(rng, 5, 40),
                      cn2_at_1m=0.0 if rng.random() < 0.25 else gen.nice(rng, 1e-17, 5e-14))
        sl = ref.slant(0.0, alt, grd) if rng.random() < 0.7 else float(np.hypot(alt, grd))
        if sl > np.sqrt(alt * (2 * ref.RE + alt)):
            sl = ref.slant(0.0, alt, grd)
        lo, hi = s.opt_trans_wavelengths[[0, -1]]
        wl, wt = bands(rng, lo, hi, 6, 1)
        td = s.int_time * float(rng.choice([1.0, 0.3])) if rng.random() < 0.8 else gen.lu(rng, 1e-9, 10)
        if i % 4 == 2 and sc.cn2_at_1m > 0:  # many stages in between the short and the long exposure
            s.n_tdi = float(rng.integers(20, 4000))
            td = ref.poly_turbulence(np.zeros((1, 1)), np.zeros((1, 1)), wl, wt, alt, sl, s.D, sc.ha_wind_speed, sc.cn2_at_1m, 1.0, 1.0)[1]
            td = float(td) / max(sc.aircraft_speed, 1.0) / s.n_tdi * float(rng.uniform(0.2, 2))
        cut = s.D / wl.min()
        k = int(rng.integers(3))
        if k == 0:
            n = int(rng.choice([11, 21, 41]))
            uu, vv = np.meshgrid(np.linspace(-1, 1, n) * cut, np.linspace(1, -1, n) * cut)
        elif k == 1:
            uu, vv = np.meshgrid(np.linspace(-1, 1, 13) * cut, np.linspace(1, -1, 19) * cut * 0.7)
        else:
            uu, vv = rng.uniform(-cut, cut, (1, 200)), rng.uniform(-cut, cut, (1, 200))
        ctx.case((s, sc, wl, wt, sl, td, uu), {"sensor": s, "scenario": sc, "wavelengths": wl, "slant": sl, "t": td, "shape": list(uu.shape)})
        o = ctx.call(m.common_OTFs, s, sc, uu, vv, wl, wt, sl, td)
        r = ref.common(s, sc, uu, vv, wl, wt, sl, td)
        det = dict(sensor=s, scenario=sc)
        ctx.close(o.ap_OTF, r["ap_OTF"], "aperture-term", rtol=0, atol=2e-8, **det)
        if sc.cn2_at_1m > 0:
            slop = 1e-6 + 4 * min(1.0, ref.slant_tol(0, alt, sl) / 50.0)
            ctx.close(o.turb_OTF, r["turb_OTF"], "turbulence-term", rtol=slop, atol=2 * slop, **det)
            ctx.close(np.ravel(o.r0_band)[0], r["r0_band"], "turbulence-term", rtol=slop, shape=False, **det)
        else:
            ctx.close(o.turb_OTF, np.ones(uu.shape), "turbulence-off", rtol=0, **det)
            ctx.check(np.min(o.r0_band) > s.D, "turbulence-off", "coherence diameter %g within the aperture without turbulence" % np.min(o.r0_band), **det)
        ctx.close(o.det_OTF, r["det_OTF"], "detector-term", rtol=1e-9, atol=1e-11, **det)
        ctx.close(o.jit_OTF, r["jit_OTF"], "jitter-term", rtol=1e-9, atol=1e-280, **det)
        ctx.close(o.drft_OTF, r["drft_OTF"], "drift-term", rtol=1e-9, atol=1e-11, **det)
        ctx.close(o.wav_OTF, r["wav_OTF"], "wavefront-term", rtol=1e-9, **det)
        if s.filter_kernel.size > 1:
            # the system uses one angular pixel size (x pitch over focal length) for both axes
            direct = ctx.call(m.filter_OTF, uu, vv, s.filter_kernel, s.p_x / s.f)
            ctx.close(o.filter_OTF, direct, "filter-term", rtol=0, atol=1e-9 * np.abs(s.filter_kernel).sum(), **det)
        else:
            ctx.close(o.filter_OTF, np.ones(uu.shape), "filter-off", rtol=0, **det)
        prod = o.ap_OTF * o.turb_OTF * o.det_OTF * o.jit_OTF * o.drft_OTF * o.wav_OTF * o.filter_OTF
        ctx.close(o.system_OTF, prod, "product", rtol=1e-11, atol=1e-290, **det)
        z = np.zeros((1, 2))
        o0 = ctx.call(m.common_OTFs, s, sc, z, z.copy(), wl, wt, sl, td)
        tol = 1e-8
        if s.filter_kernel.size > 1:
            kk = np.atleast_2d(s.filter_kernel)
            rr, cc = np.indices(kk.shape)
            tol += 0.0125 * 4 * np.pi * float(np.sum(np.abs(kk) * np.maximum(np.abs(rr - kk.shape[0] // 2), np.abs(cc - kk.shape[1] // 2))))
        ctx.close(o0.system_OTF, np.ones(z.shape), "unity-at-zero-frequency", rtol=0, atol=tol, **det)


# ---------------------------------------------------------------------------
def C17(ctx):
    ctx.rule = "distinct (array, angle)"
    ctx.required = ["bilinear-slice", "on-axis", "first-sample", "half-turn", "constant"]
    m = _f(ctx)
    rng = ctx.rng
    f = m.slice_otf
    for i in range(ctx.n(400, 2500)):
        n = int(rng.choice([2, 3, 4, 5, 9, 20, 21, 100, 101, 151]))
        if i % 100 == 37:
            n = int(rng.choice([400, 501, 1001, 1501, int(rng.integers(200, 1800))]))
        k = int(rng.integers(5))
        if k == 0:
            a = rng.normal(size=(n, n))
        elif k == 1:
            a = rng.normal(size=(n, n)) + 1j * rng.normal(size=(n, n))
        elif k == 2:
            a = np.full((n, n), float(rng.normal()))
        else:  # anisotropic smooth MTF-like, rows along -v
            x = np.linspace(-1, 1, n)
            U, V = np.meshgrid(x, -x)
            p, q, r = rng.uniform(0.2, 6, 3)
            a = np.exp(-p * U * U - q * V * V - (rng.random() < 0.5) * 0.9 * np.sqrt(p * q) * U * V * r / 6)
        ang = float(rng.choice([0.0, np.pi / 2, np.pi, 3 * np.pi / 2, np.pi / 4, -np.pi / 2, -np.pi / 6, 2 * np.pi, float(rng.uniform(-7, 7))]))
        ctx.case((a, ang), {"n": n, "angle": ang, "kind": k})
        s = ctx.call(f, gen.layout(rng, a), gen.maybe_int(rng, ang))
        want = ref.slice2d(a, ang)
        sc = np.abs(a).max() + 1e-300
        got = np.asarray(s)
        # the number of samples depends on rounding of the spacing at even sizes; both ends agree
        ctx.check(abs(got.shape[0] - want.shape[0]) <= 1 and got.ndim == 1, "bilinear-slice", "slice has %s samples, expected %s" % (got.shape, want.shape))
        q = min(got.size, want.size)
        ctx.close(got[:q], want[:q], "bilinear-slice", rtol=0, atol=1e-9 * n * sc, angle=ang, n=n)
        if n % 2:
            c = n // 2
            ctx.close(got[0], a[c, c], "first-sample", rtol=0, atol=1e-9 * n * sc, shape=False)
            for an, line in ((0.0, a[c, c:]), (np.pi / 2, a[c::-1, c]), (np.pi, a[c, c::-1]), (-np.pi / 2, a[c:, c])):
                g = np.asarray(ctx.call(f, a, an))
                q = min(g.size, line.size)
                ctx.check(q >= line.size - 1, "on-axis", "slice too short: %d of %d" % (g.size, line.size))
                ctx.close(g[:q], line[:q], "on-axis", rtol=0, atol=1e-8 * n * sc, angle=an)
        if k == 2:
            ctx.close(got, np.full(got.shape, a[0, 0]), "constant", rtol=1e-10)
        b = 0.5 * (a + a[::-1, ::-1])
        g1, g2 = np.asarray(ctx.call(f, b, ang)), np.asarray(ctx.call(f, b, ang + np.pi))
        ctx.close(g1, g2, "half-turn", rtol=0, atol=1e-8 * n * sc, angle=ang)
