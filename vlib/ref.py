"""Executable reference model of the documented formulas, independent of /repo's code."""
import numpy as np

H = 6.62607004e-34
C = 299792458.0
K = 1.38064852e-23
Q = 1.60217662e-19
RE = 6378164.0


# ---------------------------------------------------------------- small tools
def trapz(y, x):
    y = np.asarray(y, float)
    x = np.asarray(x, float)
    return float(np.sum((x[1:] - x[:-1]) * (y[1:] + y[:-1]) * 0.5))


def sinc(x):
    """sin(pi x)/(pi x)"""
    x = np.asarray(x, float)
    a = np.pi * x
    with np.errstate(all="ignore"):
        return np.where(a == 0, 1.0, np.sin(a) / np.where(a == 0, 1.0, a))


def lininterp(x, xp, fp):
    """Piecewise linear inside [min xp, max xp], zero outside."""
    x = np.atleast_1d(np.asarray(x, float))
    xp = np.asarray(xp, float)
    fp = np.asarray(fp, float)
    out = np.zeros(x.shape)
    for k, v in enumerate(x):
        if v < xp[0] or v > xp[-1]:
            continue
        j = int(np.searchsorted(xp, v, side="right")) - 1
        if j >= len(xp) - 1:
            out[k] = fp[-1]
        else:
            t = (v - xp[j]) / (xp[j + 1] - xp[j])
            out[k] = fp[j] * (1 - t) + fp[j + 1] * t
    return out


# ---------------------------------------------------------------- geometry
def slant(ht, hs, g):
    """Chord between two points at heights ht, hs separated by ground arc g (no cancellation)."""
    a = RE + np.longdouble(hs)
    c = RE + np.longdouble(ht)
    s = np.sin(np.longdouble(g) / RE / 2)
    return float(np.sqrt((a - c) ** 2 + 4 * a * c * s * s))


def slant_tol(ht, hs, true):
    """Rounding a law-of-cosines evaluation on Earth-radius-sized squares may commit."""
    a = RE + max(abs(ht), abs(hs))
    e = 16 * 2.3e-16 * a * a
    return min(np.sqrt(e), e / max(true, 1e-300)) + 1e-12 * true


def cosnadir(ht, hs, b):
    a = RE + np.longdouble(hs)
    d = np.longdouble(hs) - np.longdouble(ht)
    b = np.longdouble(b)
    return (b * b + d * (2 * RE + np.longdouble(hs) + np.longdouble(ht))) / (2 * a * b)


def path(ht, hs, b, n=10000):
    """(z from target, height) along the straight path, using the target-side angle."""
    z = np.linspace(0.0, b, n)
    a = RE + np.longdouble(hs)
    d = np.longdouble(b) - z.astype(np.longdouble)  # distance from the sensor
    cn = min(max(cosnadir(ht, hs, b), np.longdouble(-1)), np.longdouble(1))
    # |p|^2 - RE^2, cancellation free
    q = np.longdouble(hs) * (2 * RE + np.longdouble(hs)) + d * d - 2 * a * d * cn
    h = q / (np.sqrt(RE * RE + q) + RE)
    return z, h.astype(float)


# ---------------------------------------------------------------- OTFs
def _lens(d, r1, r2):
    """Intersection area of two circles with centre distance d (array)."""
    d = np.asarray(d, np.longdouble)
    r1 = np.longdouble(r1)
    r2 = np.longdouble(r2)
    out = np.zeros(d.shape, np.longdouble)
    big = max(r1, r2)
    small = min(r1, r2)
    inside = d <= big - small
    out[inside] = np.pi * small**2
    mid = (~inside) & (d < big + small)
    x = d[mid]
    if x.size:
        c1 = np.clip((x * x + r1 * r1 - r2 * r2) / (2 * x * r1), -1, 1)
        c2 = np.clip((x * x + r2 * r2 - r1 * r1) / (2 * x * r2), -1, 1)
        k = (-x + r1 + r2) * (x + r1 - r2) * (x - r1 + r2) * (x + r1 + r2)
        out[mid] = r1 * r1 * np.arccos(c1) + r2 * r2 * np.arccos(c2) - 0.5 * np.sqrt(np.maximum(k, 0))
    return out


def aperture(u, v, lam, D, eta):
    rho = np.hypot(np.asarray(u, np.longdouble), np.asarray(v, np.longdouble))
    d = np.atleast_1d(rho * np.longdouble(lam) / np.longdouble(D))  # in units of the diameter; radius 1/2
    sh = rho.shape
    R = 0.5
    if eta > 0:
        r = 0.5 * eta
        a = _lens(d, R, R) - 2 * _lens(d, R, r) + _lens(d, r, r)
        h = a / (np.pi * (R * R - np.longdouble(r) ** 2))
    else:
        h = _lens(d, R, R) / (np.pi * R * R)
    return h.astype(float).reshape(sh)


_GL = np.polynomial.legendre.leggauss(400)


def defocus_exact(rho, lam, D, f, dz):
    """Autocorrelation of a unit pupil with quadratic phase (Hopkins), by quadrature."""
    rho = np.asarray(rho, float)
    s = 2 * rho * lam / D
    w20 = 0.5 * dz / (1 + 4 * (f / D) ** 2)
    out = np.zeros(s.shape)
    t, w = _GL
    for k, sk in np.ndenumerate(s):
        if sk >= 2:
            continue
        a = 4 * np.pi / lam * w20 * sk
        L = 1 - sk / 2
        # x = L(1-y^2) removes the square-root endpoint
        y = 0.5 * (t + 1)
        x = L * (1 - y * y)
        g = 4 * np.sqrt(np.maximum(0, 1 - (x + sk / 2) ** 2)) * np.cos(a * x) * (2 * L * y)
        out[k] = np.sum(w * g) * 0.5 / np.pi
    return out


def gauss_defocus(u, v, wx, wy):
    return np.exp(-np.pi * np.pi / 4 * ((wx * u) ** 2 + (wy * v) ** 2))


def gaussian(u, v, bx, by):
    return np.exp(-np.pi * ((bx * u) ** 2 + (by * v) ** 2))


def jitter(u, v, sx, sy):
    return np.exp(-2 * (np.pi * sx * u) ** 2) * np.exp(-2 * (np.pi * sy * v) ** 2)


def drift(u, v, ax, ay):
    return sinc(ax * u) * sinc(ay * v)


def detector(u, v, wx, wy, f):
    return sinc(wx * u / f) * sinc(wy * v / f)


def aggregate(u, v, wx, wy, px, py, f, n):
    def arr(x):  # |sum of n unit phasors| with its sign = Dirichlet kernel
        k = np.arange(n) - (n - 1) / 2.0
        return np.mean(np.exp(2j * np.pi * np.multiply.outer(np.asarray(x, float), k)), axis=-1).real

    return arr(px * u / f) * arr(py * v / f) * detector(u, v, wx, wy, f)


def cte(u, v, px, py, nx, ny, phases, eff, f):
    e = phases * (1 - eff)
    return np.exp(-2 * e * (nx * np.sin(np.pi * px * u / f) ** 2 + ny * np.sin(np.pi * py * v / f) ** 2))


def tdi(u, w, ntdi, phases, beta, f):
    n = int(round(ntdi * phases))
    x = w * np.asarray(u, float) / (f * beta)
    k = np.arange(n)
    return sinc(x) * np.mean(np.exp(-2j * np.pi * np.multiply.outer(x * (beta - 1.0), k)), axis=-1)


def diffusion(u, v, alpha, ald, al0, f):
    k2 = (2 * np.pi / f) ** 2 * (np.asarray(u, float) ** 2 + np.asarray(v, float) ** 2)
    L = al0 / np.sqrt(1 + al0**2 * k2)

    def g(l):
        return 1 - np.exp(-alpha * ald) / (1 + alpha * l)

    return g(L) / g(al0)


def wavefront(u, v, lam, pv, lx, ly):
    return np.exp(pv * np.expm1(-((lam * u / lx) ** 2) - (lam * v / ly) ** 2))


def wavefront2(u, v, cutoff, w):
    x = np.hypot(u, v) / cutoff
    return 1 - (w / 0.18) ** 2 * 4 * x * (1 - x)


def turbulence(u, v, lam, D, r0, alpha):
    q = lam * np.hypot(u, v)
    return np.exp(-3.44 * ((q / r0) ** (5 / 3.0) - alpha * (q / r0) ** (5 / 3.0) * np.cbrt(q / D)))


def wind_turbulence(u, v, lam, D, r0, td, vel):
    w = np.exp(-vel * td / r0)
    return w * turbulence(u, v, lam, D, r0, 0.5) + (1 - w) * turbulence(u, v, lam, D, r0, 0)


def hv(h, wind, cn2):
    h = np.asarray(h, float)
    return 0.00594 * (wind / 27.0) ** 2 * (h * 1e-5) ** 10 * np.exp(-h / 1e3) + 2.7e-16 * np.exp(-h / 1.5e3) + cn2 * np.exp(-h / 100.0)


def r0_sph(lam, z, cn2):
    k = 2 * np.pi / lam
    w = (np.asarray(z, float) / np.max(z)) ** (5 / 3.0)
    return (0.423 * k * k * trapz(cn2 * w, z)) ** -0.6


def poly_turbulence(u, v, lams, wts, alt, sl, D, wind, cn2, td, vel):
    z, h = path(0.0, alt, sl)
    r1 = r0_sph(1e-6, z, hv(h, wind, cn2))
    W = np.asarray(wts, float) / np.sum(wts)
    out = 0.0
    band = 0.0
    for l, w in zip(lams, W):
        r = r1 * (l / 1e-6) ** 1.2
        out = out + w * wind_turbulence(u, v, l, D, r, td, vel)
        band = band + w * r
    return out, band


def weighted(lams, wts, fn):
    W = np.asarray(wts, float) / np.sum(wts)
    out = 0.0
    for l, w in zip(lams, W):
        out = out + w * fn(l)
    return out


def kernel_dft(u, v, kernel, ifov):
    """|DFT| of the kernel at angular frequencies (u along columns, v up = minus rows)."""
    kernel = np.asarray(kernel, float)
    if kernel.ndim == 1:
        kernel = kernel.reshape(1, -1) if kernel.size > 1 else kernel.reshape(1, 1)
    u = np.asarray(u, float)
    v = np.asarray(v, float)
    out = np.zeros(np.broadcast(u, v).shape, complex)
    for i in range(kernel.shape[0]):
        for j in range(kernel.shape[1]):
            out = out + kernel[i, j] * np.exp(-2j * np.pi * ifov * (j * u - i * v))
    return np.abs(out)


def filter_otf(u, v, kernel, ifov):
    """The documented implementation level: 100-point (or larger) transform laid on a +/-Nyquist grid."""
    kernel = np.asarray(kernel, float)
    n = max(100, *kernel.shape)
    ny = 0.5 / ifov
    rows, cols = np.meshgrid(np.arange(n), np.arange(n), indexing="ij")
    F = np.zeros((n, n), complex)
    for i in range(min(kernel.shape[0], n)):
        for j in range(min(kernel.shape[1], n)):
            F += kernel[i, j] * np.exp(-2j * np.pi * ((rows - n // 2) * i + (cols - n // 2) * j) / n)
    A = np.abs(F)

    def wrap(x):
        return (x + ny) % (2 * ny) - ny

    gu = (wrap(np.asarray(u, float)) + ny) / (2 * ny) * (n - 1)
    gv = (ny - wrap(np.asarray(v, float))) / (2 * ny) * (n - 1)
    j = np.clip(np.floor(gu).astype(int), 0, n - 2)
    i = np.clip(np.floor(gv).astype(int), 0, n - 2)
    tu = gu - j
    tv = gv - i
    lo = np.minimum(np.minimum(A[i, j], A[i, j + 1]), np.minimum(A[i + 1, j], A[i + 1, j + 1]))
    hi = np.maximum(np.maximum(A[i, j], A[i, j + 1]), np.maximum(A[i + 1, j], A[i + 1, j + 1]))
    mid = (A[i, j] * (1 - tu) + A[i, j + 1] * tu) * (1 - tv) + (A[i + 1, j] * (1 - tu) + A[i + 1, j + 1] * tu) * tv
    return mid, lo, hi


# ---------------------------------------------------------------- image plane
def slice2d(otf, ang):
    """Bilinear samples from the centre outwards; rows run along -v, columns along +u."""
    otf = np.asarray(otf)
    nv, nu = otf.shape
    du = 2.0 / (nu - 1)
    r = np.arange(0.0, 1.0, np.linspace(-1, 1, nu)[1] + 1.0)
    x = (r * np.cos(ang) + 1) / 2 * (nu - 1)
    y = (1 - r * np.sin(ang)) / 2 * (nv - 1)
    j = np.clip(np.floor(x).astype(int), 0, nu - 2)
    i = np.clip(np.floor(y).astype(int), 0, nv - 2)
    a = x - j
    b = y - i
    del du
    return (otf[i, j] * (1 - a) + otf[i, j + 1] * a) * (1 - b) + (otf[i + 1, j] * (1 - a) + otf[i + 1, j + 1] * a) * b


def _axis_weights(n, m):
    """Half-pixel-centred linear resampling of n samples to m (edge replicated)."""
    x = (np.arange(m) + 0.5) * (n / m) - 0.5
    i = np.floor(x).astype(int)
    t = x - i
    i0 = np.clip(i, 0, n - 1)
    i1 = np.clip(i + 1, 0, n - 1)
    return i0, i1, t


def resize(img, m_rows, m_cols):
    img = np.asarray(img, float)
    i0, i1, t = _axis_weights(img.shape[0], m_rows)
    a = img[i0] * (1 - t)[:, None] + img[i1] * t[:, None]
    j0, j1, s = _axis_weights(img.shape[1], m_cols)
    return a[:, j0] * (1 - s) + a[:, j1] * s


def resample(img, dx_in, dx_out):
    r = int(np.round(img.shape[0] * dx_in / dx_out))
    c = int(np.round(img.shape[1] * dx_in / dx_out))
    return resize(img, r, c)


def psf_full(otf, df, dx_out):
    """Unit-sum inverse transform on a grid of spacing dx_out, before cropping."""
    otf = np.asarray(otf)
    n0, n1 = otf.shape
    h = np.real(np.fft.fftshift(np.fft.ifft2(np.roll(otf, (-(n0 // 2), -(n1 // 2)), (0, 1)))))
    step = 1.0 / (n0 * df)
    r = max(1, int(n0 * step / dx_out))
    c = max(1, int(n1 * step / dx_out))
    p = resize(h, r, c)
    return p / p.sum()


def psf_options(otf, df, dx_out, slack=2e-5):
    """Unit-sum crops of the kernel: the first centred window holding more than 95% of it.

    More than one entry when a window's energy is within rounding of the threshold."""
    p = psf_full(otf, df, dx_out)
    out = []
    last = p
    for k in range(10, min(np.shape(otf)), 5):
        sl = tuple(slice(max(0, int(np.floor(d / 2 - k / 2))), int(np.ceil(d / 2 + k / 2))) for d in p.shape)
        last = p[sl]
        e = last.sum()
        if e > 0.95 - slack:
            out.append(last / e)
            if e > 0.95 + slack:
                return out
    out.append(last / last.sum())
    return out


def psf(otf, df, dx_out):
    return psf_options(otf, df, dx_out)[0]


def filter2d(img, k):
    """Correlation with reflected (101) borders, anchor at the kernel's centre pixel."""
    img = np.asarray(img, float)
    kr, kc = k.shape
    ar, ac = kr // 2, kc // 2

    def idx(n, lo, hi):
        i = np.arange(-lo, n + hi)
        if n == 1:
            return np.zeros_like(i)
        p = 2 * (n - 1)
        i = np.abs(i) % p
        return np.where(i >= n, p - i, i)

    pad = img[idx(img.shape[0], ar, kr - 1 - ar)][:, idx(img.shape[1], ac, kc - 1 - ac)]
    from scipy.signal import fftconvolve

    return fftconvolve(pad, k[::-1, ::-1], mode="valid")


def apply_options(img, gsd, rng, otf, df, ifov):
    out = []
    for p in psf_options(otf, df, 2 * np.arctan(gsd / 2.0 / rng)):
        out.append((resample(filter2d(img, p), gsd / rng, ifov), resample(p, gsd / rng, ifov)))
    return out


# ---------------------------------------------------------------- radiometry
def planck(lam, T):
    lam = np.asarray(lam, float)
    with np.errstate(over="ignore"):
        return 2 * H * C * C / lam**5 / np.expm1(H * C / (lam * K * T))


def cone(D, f):
    return np.pi / (1 + 4 * (f / D) ** 2)


def rate_spectrum(E, wx, wy, lam, qe):
    return E * wx * wy * qe * lam / (H * C)


def in_band(atm, lo, hi):
    return atm[(atm[:, 0] >= lo) & (atm[:, 0] <= hi)]


def scene(atm, refl, T):
    return atm[:, 2] + atm[:, 4] + (1 - refl) * planck(atm[:, 0], T) * atm[:, 1] + atm[:, 5] * refl / 0.15


def self_emission(s, lam):
    c = cone(s.D, s.f)
    return ((np.pi - c) * planck(lam, s.cold_shield_temperature)
            + c * s.cold_filter_transmission * s.optics_emissivity * planck(lam, s.optics_temperature)
            + c * s.cold_filter_emissivity * planck(lam, s.cold_filter_temperature))


def sensor_response(s, lam):
    t = s.cold_filter_transmission * (1 - s.eta**2) * lininterp(lam, s.opt_trans_wavelengths, s.optics_transmission)
    q = lininterp(lam, s.qe_wavelengths, s.qe)
    return t, q


def snr(s, lam, tgt, bkg):
    """dict with every documented field of the SNR result"""
    t, q = sensor_response(s, lam)
    other = self_emission(s, lam)
    c = cone(s.D, s.f)
    o = {"opt_trans": t, "qe": q, "other_irradiance": other}
    for nm, L in (("tgt", tgt), ("bkg", bkg)):
        E = t * c * L + other
        sp = rate_spectrum(E, s.w_x, s.w_y, lam, q)
        o[nm + "_FPA_irradiance"] = E
        o[nm + "_n_rate"] = trapz(sp, lam) + s.dark_current
        if nm == "tgt":
            o["weights"] = sp
    n_t = o["tgt_n_rate"] * s.int_time * s.n_tdi
    n_b = o["bkg_n_rate"] * s.int_time * s.n_tdi
    lim = s.max_well_fill * s.max_n
    top = max(n_t, n_b)
    k = lim / top if top > lim else 1.0
    o["tgt_n"], o["bkg_n"], o["int_time"] = k * n_t, k * n_b, k * s.int_time
    o["well_fraction"] = k * top / s.max_n
    o["contrast_signal"] = k * (n_t - n_b)
    o["signal_noise"] = np.sqrt(k * top)
    o["dark_current_noise"] = np.sqrt(s.dark_current * s.n_tdi * o["int_time"])
    o["quantization_noise"] = s.max_n / (np.sqrt(12.0) * (2.0**s.bit_depth - 1))
    o["self_emission_noise"] = np.sqrt(trapz(rate_spectrum(other, s.w_x, s.w_y, lam, q), lam) * o["int_time"] * s.n_tdi)
    o["total_noise"] = np.sqrt(k * top + o["quantization_noise"] ** 2 + s.read_noise**2 + np.sum(np.square(np.asarray(s.other_noise, float))))
    with np.errstate(all="ignore"):
        o["snr"] = o["contrast_signal"] / o["total_noise"]
    return o


def refl_to_pe(atm, s, td, T):
    a = in_band(atm, s.opt_trans_wavelengths[0], s.opt_trans_wavelengths[-1])
    lam = a[:, 0]
    t, q = sensor_response(s, lam)
    other = self_emission(s, lam)
    c = cone(s.D, s.f)

    def electrons(refl):
        sp = rate_spectrum(t * c * scene(a, refl, T) + other, s.w_x, s.w_y, lam, q)
        return (trapz(sp, lam) + s.dark_current) * td * s.n_tdi, sp

    lo, _ = electrons(0.0)
    hi, sp = electrons(1.0)
    ref = np.linspace(0, 1, 100)
    pe = lo + (hi - lo) * ref
    top = max(lo, hi)
    if top > s.max_n:
        pe = pe * (s.max_n / top)
    pe = np.minimum(pe, s.max_n)
    return ref, pe, np.vstack([lam, sp / np.max(sp)])


# ---------------------------------------------------------------- system OTF
def common(s, sc, uu, vv, lams, wts, sl, td):
    o = {}
    o["ap_OTF"] = weighted(lams, wts, lambda l: aperture(uu, vv, l, s.D, s.eta))
    if sc.cn2_at_1m > 0:
        o["turb_OTF"], o["r0_band"] = poly_turbulence(uu, vv, lams, wts, sc.altitude, sl, s.D, sc.ha_wind_speed,
                                                      sc.cn2_at_1m, td * s.n_tdi, sc.aircraft_speed)
    else:
        o["turb_OTF"] = np.ones(np.shape(uu))
        o["r0_band"] = 1e6 * np.ones(np.shape(uu))
    o["det_OTF"] = detector(uu, vv, s.w_x, s.w_y, s.f)
    o["jit_OTF"] = jitter(uu, vv, s.s_x, s.s_y)
    o["drft_OTF"] = drift(uu, vv, s.da_x * td * s.n_tdi, s.da_y * td * s.n_tdi)
    o["wav_OTF"] = weighted(lams, wts, lambda l: wavefront(uu, vv, l, s.pv * (s.pv_wavelength / l) ** 2, s.L_x, s.L_y))
    k = np.asarray(s.filter_kernel)
    if k.size > 1:
        o["filter_OTF"], o["filter_lo"], o["filter_hi"] = filter_otf(uu, vv, k, s.p_x / s.f)
    else:
        o["filter_OTF"] = np.ones(np.shape(uu))
    return o


# ---------------------------------------------------------------- metrics
def giqe3(rer, gsd, eho, ng, snr):
    return 11.81 + 3.32 * np.log10(rer * 0.0254 / gsd) - 1.48 * eho - ng / snr


def giqe4(rer, gsd, eho, ng, snr, el):
    a, b = (3.32, 1.559) if rer >= 0.9 else (3.16, 2.817)
    gp = gsd / np.sqrt(np.sin(el))
    return 10.251 - a * np.log10(gp / 0.0254) + b * np.log10(rer) - 0.656 * eho - 0.344 * ng / snr, gp


def giqe5(r1, r2, gsd, snr, el):
    gw = gsd / np.sqrt(np.sqrt(np.sin(el)))
    rer = np.cbrt(max(r1, r2) * min(r1, r2) ** 2)
    L = np.log10(rer)
    return 9.57 - 3.32 * np.log10(gw / 0.0254) + 3.32 * (-np.expm1(-1.9 / snr)) * L - 2 * L**4 - 1.8 / snr, gw, rer


def edge(x, m, df, ifov):
    m = np.asarray(m, float)
    w = df * np.arange(m.size)
    # sin(a w)/w with its limit a at w = 0 (the code offsets w by 1e-6)
    a = 2 * np.pi * ifov * x
    y = m * a * sinc(a * w / np.pi)
    return 0.5 + trapz(y, w) / np.pi


def rer(m, df, ifov):
    return edge(0.5, m, df, ifov) - edge(-0.5, m, df, ifov)


def eho(m, df, ifov):
    e = [edge(1 + 0.25 * k, m, df, ifov) for k in range(9)]
    if all(b > a for a, b in zip(e, e[1:])):
        return e[1]
    return max(e)


def grd(m, df, snr, ifov, rng):
    m = np.asarray(m, float)
    w = df * np.arange(m.size)
    y = 3.0 / snr
    # first crossing for a decreasing mtf, linear between samples
    if y >= m[0]:
        u = w[0]
    elif y <= m[-1]:
        u = w[-1]
    else:
        j = int(np.argmax(m <= y))
        u = w[j - 1] + (m[j - 1] - y) / (m[j - 1] - m[j]) * (w[j] - w[j - 1])
    return rng * max(1.0 / (u + 1e-12), 2 * ifov)
