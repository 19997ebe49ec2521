"""Workload generators: realistic, boundary and hostile inputs for the public functions."""
import numpy as np


def lu(rng, lo, hi):
    """log-uniform"""
    return float(np.exp(rng.uniform(np.log(lo), np.log(hi))))


def nice(rng, lo, hi):
    """log-uniform, often rounded to the sort of number a person types"""
    x = lu(rng, lo, hi)
    k = rng.random()
    if k < 0.35:
        d = int(np.floor(np.log10(abs(x))))
        y = round(x, -d + int(rng.integers(0, 2)))
        return float(y) if lo <= y <= hi else x
    return x


def amp(rng, lo, hi, pzero=0.1):
    return 0.0 if rng.random() < pzero else nice(rng, lo, hi)


def maybe_int(rng, x):
    """Same value as a Python int or NumPy scalar when that is exact."""
    k = rng.random()
    if float(x).is_integer() and k < 0.3:
        return int(x)
    if k > 0.85:
        return np.float64(x)
    return x


def whole(rng, obj, names, p=0.35):
    """Turn some whole-valued numbers an object holds into Python ints, as a caller would type them."""
    for n in names:
        x = getattr(obj, n)
        if isinstance(x, float) and float(x).is_integer() and abs(x) < 1e9 and rng.random() < p:
            setattr(obj, n, int(x))


def temp(rng, lo, hi):
    x = float(rng.uniform(lo, hi))
    return float(round(x)) if rng.random() < 0.4 else x


SENSOR_NUMBERS = ("D", "f", "eta", "int_time", "dark_current", "read_noise", "max_n", "max_well_fill", "bit_depth", "n_tdi", "cold_shield_temperature", "optics_temperature", "optics_emissivity", "cold_filter_transmission", "cold_filter_temperature", "cold_filter_emissivity", "s_x", "s_y", "da_x", "da_y")
SCENARIO_NUMBERS = ("altitude", "ground_range", "aircraft_speed", "ha_wind_speed", "cn2_at_1m", "target_reflectance", "background_reflectance", "target_temperature", "background_temperature")


def layout(rng, a):
    """Same values in another memory layout / write protection."""
    k = int(rng.integers(0, 7))
    if k == 0:
        a = np.asfortranarray(a)
    elif k == 1 and a.ndim >= 1 and a.shape[-1] > 0:
        b = np.repeat(a, 2, axis=-1)
        a = b[..., ::2]
    elif k == 2 and a.ndim >= 1:
        a = a[::-1].copy()[::-1]
    elif k == 3:
        a = a.copy()
        a.flags.writeable = False
    return a


def shape(rng, big=False):
    k = int(rng.integers(0, 10))
    if big:
        return (int(rng.integers(150, 420)), int(rng.integers(150, 420)))
    if k == 0:
        return (1,)
    if k == 1:
        return (2,)
    if k == 2:
        return (1, 1)
    if k == 3:
        return (int(rng.integers(2, 6)), int(rng.integers(2, 6)), int(rng.integers(2, 6)))
    if k in (4, 5, 6):
        return (int(rng.integers(2, 40)), int(rng.integers(2, 40)))
    if k == 7:
        return (int(rng.integers(500, 4000)),)
    return (int(rng.integers(2, 300)),)


def freqs(rng, scale, big=False, special=(), grids=False):
    """Frequency arrays (u, v) covering 0, +-scale, axes, diagonals and given special radii."""
    k = int(rng.integers(0, 8))
    if big:
        k = 1
    if k == 0:  # a mesh, square or not, rows running down in v as the models do
        nu = int(rng.integers(3, 42))
        nv = nu if rng.random() < 0.5 else int(rng.integers(3, 42))
        ext = scale * float(rng.choice([0.5, 1.0, 1.0, 1.3]))
        u, v = np.meshgrid(np.linspace(-1, 1, nu) * ext, np.linspace(1, -1, nv) * ext, sparse=bool(grids and rng.random() < 0.5))
    elif k == 1 and big:
        n = int(rng.integers(301, 700)) | 1
        u, v = np.meshgrid(np.linspace(-1, 1, n) * scale, np.linspace(1, -1, n) * scale)
    else:
        s = shape(rng)
        ext = scale * float(rng.choice([1e-3, 0.1, 0.7, 0.71, 1.2, 1.2, 4.0]))
        u = rng.uniform(-ext, ext, s)
        v = rng.uniform(-ext, ext, s)
        m = u.size
        if m and rng.random() < 0.6:
            f = u.reshape(-1)
            g = v.reshape(-1)
            for _ in range(min(m, 6)):
                i = int(rng.integers(m))
                w = int(rng.integers(6))
                if w == 0:
                    f[i] = g[i] = 0.0
                elif w == 1:
                    f[i] = 0.0
                elif w == 2:
                    g[i] = 0.0
                elif w == 3:
                    f[i] = g[i]
                elif w == 4:
                    f[i], g[i] = scale * float(rng.choice([-1, 1])), 0.0
                elif len(special):
                    r = float(special[int(rng.integers(len(special)))]) * float(1 + rng.choice([0, 0, 1e-15, -1e-15, 1e-12, -1e-12, 1e-9, -1e-9, 1e-6, -1e-6]))
                    t = float(rng.choice([0.0, np.pi / 2, rng.uniform(0, 7)]))
                    f[i], g[i] = r * np.cos(t), r * np.sin(t)
            u = f.reshape(s)
            v = g.reshape(s)
    if rng.random() < 0.05 and scale > 50:
        kind = np.int64  # (narrower integers would test overflow of any squared form, not the model)
        u = np.round(u).astype(kind)
        v = np.round(v).astype(kind)
    return layout(rng, u), layout(rng, v)


def pair(rng, f):
    """Two parameters, equal a third of the time, otherwise different."""
    a = f()
    return (a, a) if rng.random() < 0.25 else (a, f())


# ------------------------------------------------------------------ spectra
def band(rng, kind=None, narrow=None):
    """(lo, hi) in metres"""
    kind = kind or str(rng.choice(["vis", "nir", "swir", "mwir", "lwir", "odd"], p=[0.35, 0.15, 0.1, 0.15, 0.15, 0.1]))
    lo, hi = {"vis": (0.4, 0.7), "nir": (0.7, 1.0), "swir": (1.0, 2.5), "mwir": (3.0, 5.0), "lwir": (8.0, 12.0), "odd": (0.35, 13.5)}[kind]
    a = rng.uniform(lo, hi)
    w = rng.uniform(0.02, 0.3) * lo if narrow is None else narrow
    a = min(a, 13.9 - w)
    return a * 1e-6, (a + w) * 1e-6, kind


def curve(rng, lo, hi, n):
    x = np.sort(rng.uniform(lo, hi, n))
    x[0], x[-1] = lo, hi
    return x


# ------------------------------------------------------------------ sensors
def sensor(rng, Sensor, bandlim=None, narrow=None, kind=None, filt=None, plain=False, emissive=None):
    """A random, physically feasible sensor that exercises independent features."""
    if bandlim is None:
        lo, hi, kind = band(rng, kind, narrow)
    else:
        lo, hi = bandlim
    lam = 0.5 * (lo + hi)
    D = nice(rng, 0.02, 1.0)
    fno = nice(rng, 1.2, 20.0)
    f = D * fno
    q = rng.uniform(0.3, 2.5)  # lambda F# / p
    p = lam * fno / q
    kw = {}
    on = lambda pr: (not plain) and rng.random() < pr
    if on(0.5):
        kw["eta"] = float(rng.choice([0.1, 0.3, 0.41, 0.5, float(rng.uniform(0.02, 0.7))]))
    if on(0.5):
        kw["p_y"] = p * float(rng.uniform(0.6, 1.6) if rng.random() < 0.8 else rng.choice([1 / 3, 0.4, 2.5, 4.0]))
    if on(0.5):
        kw["w_x"] = p * float(rng.uniform(0.5, 1.0))
    if on(0.4):
        kw["w_y"] = kw.get("p_y", p) * float(rng.uniform(0.5, 1.0))
    kw["int_time"] = nice(rng, 1e-5, 0.05)
    if on(0.5):
        kw["dark_current"] = nice(rng, 1.0, 1e6)
    if on(0.5):
        kw["read_noise"] = nice(rng, 1.0, 300.0)
    if on(0.6):
        kw["max_n"] = int(lu(rng, 1e3, 1e8))
    if on(0.5):
        kw["max_well_fill"] = float(rng.choice([0.5, 0.6, 0.9, float(rng.uniform(0.1, 1.0))]))
    if on(0.6):
        kw["bit_depth"] = float(rng.choice([8, 10, 11.9, 12, 14, 16, 1, 4, 24, 64]))
    if on(0.4):
        kw["n_tdi"] = float(rng.choice([2, 3, 8, 32, 64, 128, 256, 1.5, 2.5, float(rng.uniform(1, 20))]))
    if on(0.4):
        kw["cold_shield_temperature"] = temp(rng, 60, 330)
    if on(0.4):
        kw["optics_temperature"] = float(rng.choice([temp(rng, 200, 320), temp(rng, 60, 500)]))
    if on(0.5):
        kw["optics_emissivity"] = float(rng.choice([float(rng.uniform(0.01, 0.5)), float(rng.uniform(0.5, 1)), 1.0]))
    if on(0.4):
        kw["cold_filter_transmission"] = float(rng.uniform(0.3, 1.0))
    if on(0.4):
        kw["cold_filter_temperature"] = temp(rng, 60, 290)
    if on(0.4):
        kw["cold_filter_emissivity"] = float(rng.choice([float(rng.uniform(0.01, 0.5)), float(rng.uniform(0.5, 1)), 1.0]))
    if on(0.6):
        kw["s_x"], kw["s_y"] = pair(rng, lambda: amp(rng, 0.02 * p / f, 0.8 * p / f))
    if on(0.6):
        t = kw["int_time"] * kw.get("n_tdi", 1.0)
        kw["da_x"], kw["da_y"] = pair(rng, lambda: amp(rng, 0.05 * p / f / t, 1.5 * p / f / t))
    if on(0.5):
        kw["pv"] = nice(rng, 0.01, 1.5)
        if rng.random() < 0.5:
            kw["pv_wavelength"] = float(rng.choice([0.55e-6, 0.6328e-6, lam]))
    wl = np.array([lo, hi]) if rng.random() < 0.4 else curve(rng, lo, hi, int(rng.integers(2, 7)))
    s = Sensor("s%d" % rng.integers(1000), D, f, p, wl, **kw)
    if on(0.6):
        s.optics_transmission = rng.uniform(0.3, 1.0, wl.size)
    if on(0.6):
        # detector response given on its own grid, possibly narrower or wider than the optics
        ql = lo * float(rng.choice([0.9, 1.0, 1.0])) if rng.random() < 0.7 else lo + 0.15 * (hi - lo)
        qh = hi * float(rng.choice([1.0, 1.0, 1.1])) if rng.random() < 0.7 else hi - 0.15 * (hi - lo)
        s.qe_wavelengths = curve(rng, ql, qh, int(rng.integers(2, 9)))
        s.qe = rng.uniform(0.2, 1.0, s.qe_wavelengths.size)
        if rng.random() < 0.2:  # responses that span many orders of magnitude, with wavelengths the detector is blind to
            s.qe = s.qe * 10.0 ** -rng.uniform(0, 5, s.qe.size) * (rng.random(s.qe.size) > 0.1)
            s.qe[int(rng.integers(s.qe.size))] = 0.7
    if on(0.4):
        s.L_x, s.L_y = pair(rng, lambda: D * float(rng.uniform(0.05, 1.5)))
    if on(0.4):
        s.other_noise = np.array([nice(rng, 1, 200) for _ in range(int(rng.integers(1, 4)))])
    if on(0.4):
        s.frame_stacks = int(rng.integers(2, 17)) if rng.random() < 0.75 else int(lu(rng, 17, 3000))
    if filt is True or (filt is None and on(0.35)):
        s.filter_kernel = kernel(rng)
    if not plain:
        whole(rng, s, SENSOR_NUMBERS)
    return s


def kernel(rng, size=None):
    """A kernel that sums to one."""
    k = int(rng.integers(0, 7))
    if k == 5 and size is None:  # plain averages and their sharpening complements
        m = (int(rng.integers(1, 5)), int(rng.integers(2, 6)))
        out = np.full(m if rng.random() < 0.5 else m[::-1], 1.0)
        out /= out.size
        return out if rng.random() < 0.6 else out[::-1] * 1.0
    if k == 6 and size is None:  # mostly zeros: a shift, a pair of taps, an unchanged pixel
        out = np.zeros((int(rng.integers(1, 5)), int(rng.integers(2, 6))))
        a, b = (int(rng.integers(out.shape[0])), int(rng.integers(out.shape[1]))), (int(rng.integers(out.shape[0])), int(rng.integers(out.shape[1])))
        t = float(rng.choice([0.0, 0.5, -0.5]))
        out[a] += 1 - t
        out[b] += t
        return out
    if k == 0 and size is None:
        a = float(rng.uniform(0.02, 0.4))
        out = -a * np.ones((3, 3))
        out[1, 1] = 1 + 8 * a
        return out
    if k == 1 and size is None:
        a = float(rng.uniform(0.02, 0.3))
        return np.array([[-a, 1 + 2 * a, -a]]) if rng.random() < 0.5 else np.array([[-a], [1 + 2 * a], [-a]])
    s = size or (int(rng.integers(1, 7)), int(rng.integers(2, 7)))
    if rng.random() < 0.5 and size is None:
        s = s[::-1]
    w = rng.uniform(-0.3, 1.0, s)
    w = w.copy()
    w[s[0] // 2, s[1] // 2] += 2.0
    return w / w.sum()


GRID_ALTS = [2, 32.5, 75, 150, 225, 500, 1000, 2000, 3000, 4000, 5000, 6000, 7000, 8000, 9000, 10000, 11000, 12000, 14000, 16000, 18000, 20000]


def scenario(rng, Scenario, overlay, interp=None, minalt=0.0, kind=None):
    """A scenario whose atmosphere exists (exact) or whose bracketing records exist (interp)."""
    kind = kind or str(rng.choice(["grid", "grid", "nadir", "space", "top", "steep"]))
    if interp is None:
        interp = bool(rng.random() < 0.4)
    hz = int(rng.integers(1, 3))
    alts = [a for a in GRID_ALTS if a >= minalt]
    if interp:
        if rng.random() < 0.2:
            alt = float(alts[int(rng.integers(len(alts)))])
        else:
            i = int(rng.integers(len(alts) - 1))
            alt = float(rng.uniform(alts[i], alts[i + 1]))
        lowk = max(a for a in GRID_ALTS if a <= alt) / 1e3
        rs = overlay.ranges_for(lowk)
        if kind == "nadir" or len(rs) < 2:
            g = 0.0
        elif kind == "steep":
            g = min(float(rng.uniform(0.005, 0.3)) * alt, rs[-1] * 1e3)
        elif rng.random() < 0.3:
            g = float(rs[int(rng.integers(len(rs)))] * 1e3)
        else:
            i = int(rng.integers(len(rs) - 1))
            g = float(rng.uniform(rs[i], rs[i + 1]) * 1e3)
    else:
        if kind == "space":
            alt, g = 550e3, 0.0
        elif kind == "top":
            alt = 24500.0
            rs = overlay.ranges_for(24.5)
            g = float(rs[int(rng.integers(len(rs)))] * 1e3)
        else:
            alt = float(alts[int(rng.integers(len(alts)))])
            rs = overlay.ranges_for(alt / 1e3)
            near = [r for r in rs if 0 < r * 1e3 <= 0.3 * alt]
            if kind == "steep" and near:
                g = near[int(rng.integers(len(near)))] * 1e3
            else:
                g = 0.0 if kind == "nadir" else float(rs[int(rng.integers(len(rs)))] * 1e3)
    kw = dict(aircraft_speed=amp(rng, 1, 300, 0.3), ha_wind_speed=amp(rng, 5, 40, 0.1), interp=interp)
    k = rng.random()
    kw["cn2_at_1m"] = 0.0 if k < 0.25 else nice(rng, 1e-16, 5e-14)
    sc = Scenario("c%d" % rng.integers(1000), hz, alt, g, **kw)
    whole(rng, sc, SCENARIO_NUMBERS)
    sc.verif_interp = interp  # how the scenario was asked to look up its atmosphere; travels with copies
    return sc


def field_changes(rng, sc, sim=False):
    """One change per field a result may depend on: (name, how), to be applied one after the other.

    Most are assignments; some write into an array the object already holds.
    """
    k = float(rng.uniform(0.82, 0.95))

    def setter(name, fn):
        return name, lambda s, c: setattr(c if name in SCENARIO_FIELDS else s, name, fn(getattr(c if name in SCENARIO_FIELDS else s, name), s))

    def inplace(name):
        def go(s, c):
            a = np.array(getattr(s, name), float)
            setattr(s, name, a)  # own, writable array first
            a[...] = a * k

        return name + "[...]", go

    def shift(s, c):
        s.opt_trans_wavelengths = np.asarray(s.opt_trans_wavelengths) + 0.004e-6

    out = [setter(n, lambda v, s: v * k) for n in ("p_x", "p_y", "w_x", "w_y", "eta", "int_time", "max_n", "max_well_fill", "cold_filter_transmission", "s_x", "s_y", "da_x", "da_y", "pv", "pv_wavelength", "L_x", "L_y", "cn2_at_1m", "D", "f", "dark_current", "read_noise")]
    out += [setter("max_n", lambda v, s: max(3, int(v / 7))), setter("bit_depth", lambda v, s: v - 1 if v > 4 else v + 1), setter("n_tdi", lambda v, s: v + 1)]
    out += [setter(n, lambda v, s: v + 17.0) for n in ("cold_shield_temperature", "optics_temperature", "cold_filter_temperature", "aircraft_speed", "ha_wind_speed")]
    out += [setter(n, lambda v, s: 0.9 * v + 0.06) for n in ("optics_emissivity", "cold_filter_emissivity")]
    out += [setter("other_noise", lambda v, s: np.append(np.asarray(v, float), 21.0)), setter("frame_stacks", lambda v, s: int(v) + 1)]
    out += [setter("filter_kernel", lambda v, s: kernel(rng)), ("optics_transmission", inplace("optics_transmission")[1]), ("qe", inplace("qe")[1])]
    out += [setter("optics_transmission", lambda v, s: np.asarray(v) * k), setter("qe", lambda v, s: np.asarray(v) * k), setter("ihaze", lambda v, s: 3 - v)]
    out += [("opt_trans_wavelengths", shift)]
    return out


SCENARIO_FIELDS = ("ihaze", "altitude", "ground_range", "aircraft_speed", "ha_wind_speed", "cn2_at_1m")


def live_base(rng, s, sc):
    """Give every optional effect a value that shows in the results, so that a change of each field does too."""
    p = s.p_x / s.f
    s.eta = s.eta or 0.25
    s.s_x, s.s_y = s.s_x or 0.21 * p, s.s_y or 0.17 * p
    t = s.int_time * s.n_tdi
    s.da_x, s.da_y = s.da_x or 0.4 * p / t, s.da_y or 0.3 * p / t
    s.pv = s.pv or 0.12
    s.L_x, s.L_y = s.L_x * 0.7, s.L_y * 0.6
    s.optics_emissivity, s.cold_filter_emissivity = s.optics_emissivity or 0.1, s.cold_filter_emissivity or 0.07
    s.dark_current, s.read_noise = s.dark_current or 100.0, s.read_noise or 7.0
    s.bit_depth = min(s.bit_depth, 12.0)
    if sc.cn2_at_1m <= 0:
        sc.cn2_at_1m = 1.3e-14
