"""Random calls of every public computational function: (label, module, function name, args, needs OpenCV, draws random numbers)."""
import functools

import numpy as np

from vlib import gen


def spectral(lam, base, k, power):
    """A smooth wavelength-dependent array (used with the wavelength-averaging helper)."""
    return base * np.cos(k * np.ravel(lam)[0] * 1e6) + power


def niirs_with_fields(which, sensor, scenario, interp):
    import pybsm.metrics as m

    r = getattr(m, which)(sensor, scenario, interp)
    return r, [scenario.target_reflectance, scenario.target_temperature, scenario.background_reflectance, scenario.background_temperature]


def scenario_atm(scenario):
    return scenario.atm


def capture_parameters(img, altitude):
    return img.estimate_capture_parameters(altitude)


def reference_image(img, gsd):
    from pybsm.simulation import RefImage

    return RefImage(img, gsd)


def simulate_seeded(seed, img, sensor, scenario):
    import pybsm.simulation as s

    np.random.seed(seed)
    return s.simulate_image(img, sensor, scenario)


def resolve(mod, name):
    import importlib

    return getattr(importlib.import_module(mod), name)


OTF, RAD, MET, SIM = "pybsm.otf", "pybsm.radiance", "pybsm.metrics", "pybsm.simulation"
GEO, NOI, UTL, BAT = "pybsm.geospatial", "pybsm.noise", "pybsm.utils", "vlib.battery"


def small_freqs(rng, scale):
    k = int(rng.integers(3))
    big = rng.random() < 0.08  # past any size at which an implementation may choose another way
    if k == 0:
        n = int(rng.integers(3, 30)) if not big else int(rng.integers(60, 130))
        return tuple(np.ascontiguousarray(a) for a in np.meshgrid(np.linspace(-1, 1, n) * scale, np.linspace(1, -1, n) * scale))
    if big:
        s = (int(rng.integers(300, 3000)),) if k == 1 else (int(rng.integers(20, 70)), int(rng.integers(20, 70)))
        return rng.uniform(-scale, scale, s), rng.uniform(-scale, scale, s)
    s = (int(rng.integers(2, 60)),) if k == 1 else (int(rng.integers(2, 12)), int(rng.integers(2, 12)))
    return rng.uniform(-scale, scale, s), rng.uniform(-scale, scale, s)


def mtf2(rng, n=None):
    n = n or int(rng.choice([51, 101, 64, 75]))
    x = np.linspace(-1, 1, n)
    U, V = np.meshgrid(x, -x)
    a, b = rng.uniform(1, 6, 2)
    return np.exp(-a * U * U - b * V * V)


def atm_table(rng, ov):
    from vlib import ref

    rec = ov.atm_record(int(rng.integers(1, 3431))).copy()
    lo, hi, _ = gen.band(rng)
    t = ref.in_band(rec, lo, hi)
    return t if t.shape[0] >= 3 else rec[200:240].copy()


def make(rng, ov, kinds=None):
    """One random call."""
    from pybsm.simulation import RefImage, Scenario, Sensor

    lam = gen.nice(rng, 0.4e-6, 12e-6)
    D = gen.nice(rng, 0.02, 1.0)
    f = D * gen.nice(rng, 1.2, 20)
    p = gen.nice(rng, 2e-6, 40e-6)
    cut = D / lam
    eta = float(rng.choice([0.0, 0.3, 0.41, float(rng.uniform(0, 0.7))]))
    u, v = small_freqs(rng, cut * float(rng.choice([0.5, 1.0, 1.2])))
    alt = gen.lu(rng, 30, 1e6)
    ang = p / f

    def two(fn):
        return gen.pair(rng, fn)

    def count(lo, hi):
        return int(rng.integers(lo, hi)) if rng.random() < 0.88 else int(rng.integers(hi, 8 * hi))

    def pixels(lo, hi, large=0.04):
        a = rng.uniform(0, 255, (int(rng.integers(lo, hi)), int(rng.integers(lo, hi))))
        if hi >= 30 and rng.random() < large:  # as large as real images
            a = rng.uniform(0, 255, (int(rng.integers(320, 420)), int(rng.integers(320, 420))))
        return a.astype(rng.choice([np.float64, np.float64, np.uint8, np.uint16, np.int64, np.float32]))

    def slice_():
        return np.sort(rng.uniform(0, 1, count(12, 90)))[::-1].copy()

    def spec():
        w = np.sort(rng.uniform(0.4e-6, 12e-6, count(4, 60)))
        return w, rng.uniform(0.1, 1, w.size)

    table = {
        "circular_aperture_OTF": lambda: (OTF, (u, v, lam, D, eta)),
        "circular_aperture_OTF_with_defocus": lambda: (OTF, (u, v, lam, D, f, gen.lu(rng, 0.1, 30) * 2 * lam * (f / D) ** 2)),
        "cte_OTF": lambda: (OTF, (u, v, p, p * 1.1, 100.0, 250.0, 3, 0.9995, f)),
        "defocus_OTF": lambda: (OTF, (u, v, D, *two(lambda: gen.amp(rng, 0.1 * ang, 2 * ang)))),
        "detector_OTF": lambda: (OTF, (u, v, *two(lambda: p * float(rng.uniform(0.4, 1))), f)),
        "detector_OTF_with_aggregation": lambda: (OTF, (u, v, p * 0.9, p * 0.8, *two(lambda: p * float(rng.uniform(1, 1.5))), f, int(rng.integers(1, 5)))),
        "diffusion_OTF": lambda: (OTF, (u, v, rng.uniform(1e4, 1e6, 6) if False else gen.lu(rng, 1e4, 1e6), gen.lu(rng, 1e-6, 1e-5), gen.lu(rng, 1e-6, 1e-5), f)),
        "drift_OTF": lambda: (OTF, (u, v, *two(lambda: gen.amp(rng, 0.1 * ang, 2 * ang)))),
        "filter_OTF": lambda: (OTF, (u, v, gen.kernel(rng), ang)),
        "gaussian_OTF": lambda: (OTF, (u, v, *two(lambda: gen.nice(rng, 0.1 * ang, 2 * ang)))),
        "jitter_OTF": lambda: (OTF, (u, v, *two(lambda: gen.amp(rng, 0.05 * ang, ang)))),
        "tdi_OTF": lambda: (OTF, (u, p, float(rng.integers(1, 64)), int(rng.integers(2, 5)), float(rng.uniform(0.8, 1.2)), f)),
        "turbulence_OTF": lambda: (OTF, (u, v, lam, D, gen.lu(rng, 0.01, 3) * D, float(rng.choice([0, 0.5, 0.3])))),
        "wavefront_OTF": lambda: (OTF, (u, v, lam, gen.nice(rng, 0.01, 1.5), *two(lambda: D * float(rng.uniform(0.1, 1.2))))),
        "wavefront_OTF_2": lambda: (OTF, (u, v, cut, gen.nice(rng, 0.01, 0.3))),
        "wind_speed_turbulence_OTF": lambda: (OTF, (u, v, lam, D, gen.lu(rng, 0.01, 3) * D, gen.lu(rng, 1e-5, 1e-1), gen.lu(rng, 0.1, 300))),
        "polychromatic_turbulence_OTF": lambda: (lambda m: (OTF, (u, v, np.sort(rng.uniform(0.4e-6, 1e-6, m)), rng.uniform(0.1, 1, m), alt, alt * float(rng.uniform(1.0, 1.4)), D, 21.0, gen.nice(rng, 1e-16, 5e-14), 0.01, 50.0)))(count(1, 8)),
        "weighted_by_wavelength": lambda: (lambda m: (OTF, (np.sort(rng.uniform(0.4e-6, 5e-6, m)), rng.uniform(0.1, 1, m),
                                                 functools.partial(spectral, base=rng.uniform(0, 1, (4, 5)), k=float(rng.uniform(0.1, 3)), power=0.5))))(count(1, 20)),
        "coherence_diameter": lambda: (lambda m: (OTF, (lam, np.linspace(0, alt, m), gen.lu(rng, 1e-16, 1e-14) * np.exp(-np.linspace(0, 5, m)))))(count(20, 500)),
        "hufnagel_valley_turbulence_profile": lambda: (OTF, (rng.uniform(0, 2e4, count(3, 40)), gen.nice(rng, 5, 40), gen.nice(rng, 1e-16, 5e-14))),
        "object_domain_defocus_radii": lambda: (OTF, (D, alt, alt * 1.1)),
        "image_domain_defocus_radii": lambda: (OTF, (D, gen.lu(rng, 1e-6, 1e-3), f)),
        "dark_current_from_density": lambda: (OTF, (gen.lu(rng, 1e-9, 1e-2), p, p * 0.9)),
        "slice_otf": lambda: (OTF, (mtf2(rng), float(rng.uniform(-4, 4)))),
        "otf_to_psf": lambda: (OTF, (mtf2(rng), 10.0, float(rng.choice([1.0, 0.5, 2.0])) / 510.0)),
        "apply_otf_to_image": lambda: (OTF, (rng.uniform(0, 100, (int(rng.integers(10, 40)), int(rng.integers(10, 40)))).astype(rng.choice([np.float64, np.float64, np.float32, np.uint8])), 0.1, 1000.0, mtf2(rng), 1.0 / (60 * 1e-4), 1e-4 * float(rng.uniform(0.7, 2)))),
        "resample_2D": lambda: (OTF, (rng.uniform(0, 100, (int(rng.integers(5, 40)), int(rng.integers(5, 40)))), 1.0, float(rng.uniform(0.5, 2)))),
        "at_focal_plane_irradiance": lambda: (RAD, (D, f, spec()[1])),
        "blackbody_radiance": lambda: (RAD, (spec()[0], float(rng.choice([0.0, float(rng.uniform(60, 400))])))),
        "check_well_fill": lambda: (RAD, (gen.lu(rng, 1, 1e8), gen.lu(rng, 10, 1e7))),
        "cold_shield_self_emission": lambda: (RAD, (spec()[0], float(rng.uniform(60, 300)), D, f)),
        "cold_stop_self_emission": lambda: (RAD, (spec()[0], float(rng.uniform(60, 300)), 0.3, D, f)),
        "optics_self_emission": lambda: (RAD, (spec()[0], float(rng.uniform(200, 320)), 0.1, 0.8, D, f)),
        "focal_plane_integrated_irradiance": lambda: (RAD, ((lambda w, x: (x, 0.5 * x, 0.9, 0.1, w, 1e-8, 280.0, D, f))(*spec()))),
        "photon_detection_rate": lambda: (RAD, ((lambda w, x: (x, p, p, w, x[::-1].copy()))(*spec()))),
        "signal_rate": lambda: (RAD, ((lambda w, x: (w, x * 1e5, 0.5 * x, D, f, p, p, x[::-1].copy(), x * 1e-3, 5.0))(*spec()))),
        "total_radiance": lambda: (RAD, (atm_table(rng, ov), float(rng.uniform(0, 1)), float(rng.uniform(200, 330)))),
        "giqe_radiance": lambda: (RAD, (atm_table(rng, ov), int(rng.integers(0, 2)))),
        "resample_by_wavelength": lambda: (RAD, ((lambda w, x: (w, x, rng.uniform(0.3e-6, 13e-6, count(1, 50))))(*spec()))),
        "giqe3": lambda: (MET, (float(rng.uniform(0.1, 1.3)), gen.lu(rng, 0.01, 10), float(rng.uniform(0.8, 1.8)), float(rng.uniform(1, 10)), gen.lu(rng, 1, 200))),
        "giqe4": lambda: (MET, (float(rng.uniform(0.1, 1.3)), gen.lu(rng, 0.01, 10), float(rng.uniform(0.8, 1.8)), float(rng.uniform(1, 10)), gen.lu(rng, 1, 200), float(rng.uniform(0.1, 1.5)))),
        "giqe5": lambda: (MET, (float(rng.uniform(0.1, 1)), float(rng.uniform(0.1, 1)), gen.lu(rng, 0.01, 10), gen.lu(rng, 1, 200), float(rng.uniform(0.1, 1.5)))),
        "giqe5_RER": lambda: (MET, (mtf2(rng), 100.0, 1e-4, 1.3e-4)),
        "giqe_edge_terms": lambda: (MET, (mtf2(rng), 100.0, 1e-4, 1.3e-4)),
        "relative_edge_response": lambda: (MET, (slice_(), 100.0, 1e-4)),
        "edge_height_overshoot": lambda: (MET, (slice_(), 100.0, 1e-4)),
        "edge_response": lambda: (MET, (float(rng.uniform(-3, 3)), slice_(), 100.0, 1e-4)),
        "ground_resolved_distance": lambda: (MET, (slice_(), 100.0, gen.lu(rng, 1, 100), 1e-4, alt)),
        "instantaneous_FOV": lambda: (SIM, (p, f)),
        "wiener_filter": lambda: (SIM, (mtf2(rng, 11), 0.1)),
        "img_to_reflectance": lambda: (SIM, (pixels(2, 30), np.array([0.0, 100.0, 255.0]), np.sort(rng.uniform(0, 1, 3)))),
        "stretch_contrast_convert_8bit": lambda: (SIM, (pixels(3, 30, 0.25),) if rng.random() < 0.65 else (pixels(3, 30, 0.25), [2.0, 98.0])),
        "noise_gain": lambda: (NOI, (gen.kernel(rng),)),
        "quantization_noise": lambda: (NOI, (gen.lu(rng, 100, 1e7), float(rng.integers(4, 16)))),
        "altitude_along_slant_path": lambda: (GEO, (0.0, alt, alt * float(rng.uniform(1, 1.3)))),
        "nadir_angle": lambda: (GEO, (0.0, alt, alt * float(rng.uniform(1, 1.3)))),
        "curved_earth_slant_range": lambda: (GEO, (0.0, alt, alt * float(rng.uniform(0, 0.5)))),
        "ground_sample_distance": lambda: (GEO, (ang, alt)),
        "load_database_atmosphere_no_interp": lambda: (UTL, (lambda s: (s.altitude, s.ground_range, s.ihaze))(gen.scenario(rng, Scenario, ov, interp=False))),
        "load_database_atmosphere": lambda: (UTL, (lambda s: (s.altitude, s.ground_range, s.ihaze))(gen.scenario(rng, Scenario, ov, interp=True))),
        "scenario_atm": lambda: (BAT, (gen.scenario(rng, Scenario, ov),)),
        "photon_detector_SNR": lambda: (RAD, _snr_args(rng, Sensor, ov)),
        "reflectance_to_photoelectrons": lambda: (RAD, _refl_args(rng, Sensor, ov)),
        "capture_parameters": lambda: (BAT, (RefImage(pixels(3, 12), gen.nice(rng, 0.02, 5), np.array([0.0, 255.0]), np.array([0.0, 1.0])), gen.lu(rng, 100, 1e6))),
        "reference_image": lambda: (BAT, (pixels(3, 12), gen.nice(rng, 0.02, 5))),
        "common_OTFs": lambda: (OTF, _common_args(rng, Sensor, Scenario)),
        "niirs_with_fields": lambda: (BAT, _niirs_args(rng, Sensor, Scenario, ov)),
        "simulate_seeded": lambda: (BAT, _sim_args(rng, Sensor, Scenario, RefImage)),
    }
    if kinds == "names":
        return sorted(table)
    name = kinds or str(rng.choice(sorted(table)))
    mod, args = table[name]()
    return name, mod, args


NEEDS_CV2 = {"otf_to_psf", "apply_otf_to_image", "resample_2D", "simulate_seeded"}
HEAVY = {"niirs_with_fields": 0.3, "simulate_seeded": 1.5}


def _snr_args(rng, Sensor, ov):
    from vlib import ref

    while True:
        s = gen.sensor(rng, Sensor)
        rec = ref.in_band(ov.atm_record(int(rng.integers(1, 3431))), *s.opt_trans_wavelengths[[0, -1]])
        if rec.shape[0] >= 2:
            return s, rec[:, 0].copy(), ref.scene(rec, 0.15, 290.0), ref.scene(rec, 0.07, 285.0)


def _refl_args(rng, Sensor, ov):
    from vlib import ref

    while True:
        s = gen.sensor(rng, Sensor)
        rec = ov.atm_record(int(rng.integers(1, 3431)))
        if ref.in_band(rec, *s.opt_trans_wavelengths[[0, -1]]).shape[0] >= 2:
            return rec.copy(), s, s.int_time


def _common_args(rng, Sensor, Scenario):
    s = gen.sensor(rng, Sensor)
    alt = gen.lu(rng, 100, 1e5)
    sc = Scenario("x", 1, alt, 0.0, aircraft_speed=20.0, cn2_at_1m=1e-15)
    wl = np.linspace(*s.opt_trans_wavelengths[[0, -1]], 4)
    c = s.D / wl[0]
    u, v = np.meshgrid(np.linspace(-1, 1, 21) * c, np.linspace(1, -1, 21) * c)
    return s, sc, u, v, wl, rng.uniform(0.2, 1, 4), alt, s.int_time


def _niirs_args(rng, Sensor, Scenario, ov):
    from vlib import ref

    while True:
        s = gen.sensor(rng, Sensor, kind=str(rng.choice(["vis", "nir", "mwir", "lwir"])))
        sc = gen.scenario(rng, Scenario, ov, minalt=30)
        rec = ref.in_band(ov.atm_record(1), *s.opt_trans_wavelengths[[0, -1]])
        if rec.shape[0] >= 2 and np.any(ref.sensor_response(s, rec[:, 0])[1] > 0):
            return str(rng.choice(["niirs", "niirs5"])), s, sc, bool(sc.verif_interp)


def _sim_args(rng, Sensor, Scenario, RefImage):
    lo = 0.55e-6
    s = Sensor("n", 0.1, 0.4, 2.2e-6, np.array([lo, lo + 0.021e-6]), int_time=gen.nice(rng, 1e-4, 1e-2), read_noise=5.0)
    sc = Scenario("x", int(rng.integers(1, 3)), 3000.0, 0.0, cn2_at_1m=0.0)
    img = rng.uniform(0, 255, (25, 30))
    return int(rng.integers(1000)), RefImage(img, 5.5e-6 * 3000.0, np.array([0.0, 255.0]), np.array([0.0, 1.0])), s, sc


def perturb(rng, args):
    """Change one thing in the arguments in place (arrays and objects keep their identity) or replace a scalar; returns (args, what)."""
    args = list(args)
    for _ in range(20):
        i = int(rng.integers(len(args)))
        a = args[i]
        if isinstance(a, np.ndarray) and a.size and a.dtype.kind == "f" and a.flags.writeable:
            k = int(rng.integers(4))
            if k == 0:
                j = int(rng.integers(a.size))
                a.reshape(-1)[j] *= 1 + float(rng.choice([1e-5, 1e-3, 0.2]))
                return tuple(args), "element of array %d" % i
            if k == 1:
                a *= 1 + float(rng.choice([1e-6, 1e-4, 0.1]))
                return tuple(args), "scaled array %d" % i
            if k == 2 and a.ndim == 2 and a.shape[0] == a.shape[1]:
                a[...] = a.T.copy()
                return tuple(args), "transposed array %d" % i
            a[...] = a.reshape(-1)[::-1].reshape(a.shape).copy()
            return tuple(args), "reversed array %d" % i
        if isinstance(a, float) and a != 0 and not isinstance(a, bool):
            args[i] = a * (1 + float(rng.choice([1e-7, 1e-5, 1e-3, 0.07])))
            return tuple(args), "scalar %d" % i
        if type(a).__name__ == "Sensor":
            at = str(rng.choice(["D", "f", "p_x", "p_y", "w_x", "w_y", "int_time", "s_x", "da_y", "pv", "eta", "read_noise", "optics_emissivity", "qe", "optics_transmission",
                                 "filter_kernel", "L_x", "frame_stacks", "max_n", "n_tdi"]))
            if at == "filter_kernel":
                a.filter_kernel = gen.kernel(rng)
            elif at in ("qe", "optics_transmission"):
                x = getattr(a, at)
                x *= float(rng.uniform(0.6, 0.99))  # in place
            elif at == "frame_stacks":
                a.frame_stacks = a.frame_stacks + 1
            elif at == "max_n":
                a.max_n = int(a.max_n * 0.8) + 1
            elif at in ("eta", "optics_emissivity"):
                setattr(a, at, min(getattr(a, at) * 0.8 + 0.03, 0.7))
            else:
                x = getattr(a, at)
                setattr(a, at, x * (1 + float(rng.choice([1e-6, 1e-3, 0.1]))) if x else 1e-6)
            return tuple(args), "sensor.%s" % at
        if type(a).__name__ == "Scenario":
            at = str(rng.choice(["aircraft_speed", "ha_wind_speed", "cn2_at_1m", "ihaze", "target_reflectance"]))
            if at == "ihaze":
                a.ihaze = 3 - a.ihaze
            else:
                setattr(a, at, getattr(a, at) * 1.3 + 1e-16)
            return tuple(args), "scenario.%s" % at
        if type(a).__name__ == "RefImage":
            k = int(rng.integers(4))
            if k == 0:
                a.gsd = a.gsd * (1 + float(rng.choice([1e-9, 1e-4, 0.01])))
                return tuple(args), "reference image sampling distance"
            if k == 1:
                a.refl_values = np.asarray(a.refl_values, float) * 0.9
                return tuple(args), "reference image calibration"
            j = int(rng.integers(a.img.shape[0]))
            a.img[j, :] = (a.img[j, :] * 0.7).astype(a.img.dtype)
            return tuple(args), "reference image row"
    return tuple(args), "nothing"


def partner(rng, args, pick=None, tame=False):
    """Nearly the same call, of the sort a result kept under too coarse a key would confuse with it; may raise when called."""
    args = list(args)
    arr = [i for i, a in enumerate(args) if isinstance(a, np.ndarray) and a.size and a.dtype.kind == "f"]
    sca = [i for i, a in enumerate(args) if isinstance(a, (float, np.floating)) and np.isfinite(a)]
    kinds = ["scalar", "scalar-far", "swap-scalars"] * bool(sca) + ["interior", "reshape", "reverse", "element", "swap-arrays", "offset"] * bool(arr)
    if tame:  # sampling intervals of resampling functions: a large change asks for an enormous array
        kinds = [k for k in kinds if k not in ("scalar-far", "swap-scalars")]
    objs = [i for i, a in enumerate(args) if type(a).__name__ in ("Sensor", "Scenario", "RefImage")]
    if objs:
        kinds += ["object"] * 4
    if not kinds:
        return tuple(args), "nothing"
    # reshaping matters for arrays whose shape is not given by another argument
    k = str(rng.choice(kinds)) if pick is None else kinds[pick % len(kinds)]
    if k == "object":
        return perturb(rng, args)
    if k in ("scalar", "scalar-far"):
        i = int(rng.choice(sca))
        args[i] = args[i] * (1 + float(rng.choice([1e-12, 1e-9, 1e-6, 1e-4] if k == "scalar" else [0.01, 0.3, -0.4, -2]))) if args[i] else float(rng.choice([1e-9, 0.1]))
    elif k == "swap-scalars":
        i, j = rng.choice(sca, 2) if len(sca) > 1 else (sca[0], sca[0])
        args[i], args[j] = args[j], args[i]
    elif k == "reshape":
        alone = [i for i in arr if args[i].ndim > 1 and args[i].shape[0] != args[i].shape[1] and not any(j != i and isinstance(b, np.ndarray) and b.shape == args[i].shape for j, b in enumerate(args))]
        i = int(rng.choice(alone or arr))
        args[i] = np.ascontiguousarray(args[i]).reshape(args[i].shape[::-1])
    elif k == "swap-arrays":
        i, j = int(rng.choice(arr)), int(rng.choice(arr))
        args[i], args[j] = args[j], args[i]
    else:
        i = int(rng.choice(arr))
        a = args[i] if args[i].flags.writeable else args[i].copy()
        args[i] = a
        f = a.reshape(-1) if a.flags.c_contiguous else a.ravel()
        if k == "interior" and f.size > 3:
            m, n = (int(x) for x in rng.integers(1, f.size - 1, 2))
            f[m], f[n] = f[n], f[m] + (0 if m != n else 1e-3 * abs(f[m]))
        elif k == "reverse":
            f[...] = f[::-1].copy()
        elif k == "offset":
            f += 1e-3 * np.abs(f).max()
        else:
            f[int(rng.integers(f.size))] *= 1 + float(rng.choice([1e-9, 1e-4, 0.5]))
        if not a.flags.c_contiguous:
            a[...] = f.reshape(a.shape)
    return tuple(args), k
