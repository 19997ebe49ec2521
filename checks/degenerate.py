"""C34: documented errors and warnings of degenerate arguments."""
import importlib
import inspect
import itertools
import warnings

import numpy as np

from vlib import battery, gen

ZERO = {
    "circular_aperture_OTF": ["lambda0"], "circular_aperture_OTF_with_defocus": ["wavelength", "D"], "coherence_diameter": ["lambda0"],
    "common_OTFs": ["slant_range"], "object_domain_defocus_radii": ["R", "R0"], "image_domain_defocus_radii": ["f"],
    "otf_to_psf": ["df", "dx_out"], "apply_otf_to_image": ["ref_range", "ifov"], "resample_2D": ["dx_out"],
    "wind_speed_turbulence_OTF": ["r0"], "polychromatic_turbulence_OTF": ["slant_range"],
    "at_focal_plane_irradiance": ["D"], "cold_stop_self_emission": ["D"], "cold_shield_self_emission": ["D"], "optics_self_emission": ["D"],
    "signal_rate": ["D"], "altitude_along_slant_path": ["slant_range"], "nadir_angle": ["slant_range"],
}
FLAT = {"otf_to_psf": ["otf"], "apply_otf_to_image": ["ref_img", "otf"], "resample_2D": ["img_in"], "total_radiance": ["atm"], "reflectance_to_photoelectrons": ["atm"]}
# (function, arrays that belong together, error, also when empty)
LISTS = {"weighted_by_wavelength": (["wavelengths", "weights"], IndexError, True), "polychromatic_turbulence_OTF": (["wavelengths", "weights"], IndexError, True),
         "resample_by_wavelength": (["wavelengths", "values"], ValueError, False)}
EMPTY = ["at_focal_plane_irradiance", "blackbody_radiance", "cold_shield_self_emission", "cold_stop_self_emission", "optics_self_emission",
         "photon_detection_rate", "signal_rate"]


def plain(x):
    """Scalars as a caller writes them: Python numbers."""
    if isinstance(x, np.floating):
        return float(x)
    return int(x) if isinstance(x, np.integer) else x


def C34(ctx):
    ctx.rule = "distinct (function, argument made degenerate, the other arguments)"
    ctx.required = ["expected-exception", "empty-result", "empty-warning", "no-empty-warning"]
    rng, ov = ctx.rng, ctx.overlay

    def make(name):
        n, mod, args = battery.make(rng, ov, name)
        fn = battery.resolve(mod, n)
        ps = list(inspect.signature(fn).parameters)
        return fn, ps, [plain(a) for a in args]

    def refused(name, fn, args, err, what):
        ctx.case((name, what, args), {"function": name, "degenerate": what})
        ctx.call(fn, *args, raises=err, name=name)

    for _ in range(ctx.n(12, 150)):
        for name, params in ZERO.items():
            for p in params:
                fn, ps, args = make(name)
                i = ps.index(p)
                args[i] = 0 if rng.random() < 0.5 else 0.0
                refused(name, fn, args, ZeroDivisionError, "%s=%r" % (p, args[i]))
        for name, params in FLAT.items():
            for p in params:
                fn, ps, args = make(name)
                i = ps.index(p)
                a = np.asarray(args[i])
                args[i] = (a.reshape(-1), a[0].copy(), a[:, 0].copy(), np.array([]))[int(rng.integers(4))]
                refused(name, fn, args, IndexError, "%s has shape %s" % (p, args[i].shape))
        for name, (group, err, empty) in LISTS.items():
            for p in group:
                fn, ps, args = make(name)
                i, j = [ps.index(q) for q in group]
                k = ps.index(p)
                kind = int(rng.integers(4 if empty else 2))
                a = np.asarray(args[k])
                if kind == 0:  # longer than its partner
                    extra = int(rng.integers(1, 4))
                    args[k] = np.concatenate([a, a[-1] * (1 + 0.01 * np.arange(1, extra + 1))])
                elif kind == 1 and a.size > 1:
                    args[k] = a[: int(rng.integers(1, a.size))].copy()
                elif kind == 2 and empty:
                    args[k] = a[:0].copy()
                elif empty:
                    args[i], args[j] = np.array([]), np.array([])
                else:
                    continue
                if empty and np.size(args[i]) == 1 and np.size(args[j]) > 1:
                    continue  # the test suite has a single wavelength with several weights return
                refused(name, fn, args, err, "%d %s, %d %s" % (np.size(args[i]), group[0], np.size(args[j]), group[1]))
        fn, ps, args = make("coherence_diameter")
        args[1] = args[2] = np.array([])
        refused("coherence_diameter", fn, args, ValueError, "empty path")
        fn, ps, args = make("img_to_reflectance")
        args[int(rng.integers(1, 3))] = np.array([])
        refused("img_to_reflectance", fn, args, ValueError, "no calibration points")

        # empty spectra: an empty answer and a warning
        for name in EMPTY:
            fn, ps, args = make(name)
            arrays = [i for i, a in enumerate(args) if isinstance(a, np.ndarray)]
            which = set(arrays) if len(arrays) == 1 or rng.random() < 0.4 else set(int(k) for k in rng.choice(arrays, int(rng.integers(1, len(arrays) + 1)), replace=False))
            documented = which
            if name == "signal_rate":
                documented = {i for i in which if ps[i] in ("wavelengths", "target_radiance", "optical_transmission", "other_irradiance", "qe")}
            for i in arrays:
                args[i] = np.array([]) if i in which else args[i][:1].copy()
            what = "empty " + ", ".join(ps[i] for i in sorted(which))
            ctx.case((name, what, args), {"function": name, "degenerate": what})
            out, seen = heard(fn, args, ctx, name)
            if documented:
                ctx.check(bool(seen), "empty-warning", "%s did not warn (%s)" % (name, what))
            parts = out if isinstance(out, tuple) else (out,)
            if name == "signal_rate":
                dark = args[ps.index("dark_current")]
                ctx.close(parts[0], dark, "empty-result", rtol=1e-12, shape=False, function=name)
                # (irradiance carries no wavelengths or quantum efficiency of its own)
                parts = parts[2:]
            for o in parts:
                ctx.check(np.size(o) == 0, "empty-result", "%s returned %d values (%s)" % (name, np.size(o), what))

        # nothing empty: no such warning
        for name in EMPTY:
            fn, ps, args = make(name)
            k = int(rng.choice([1, 1, 2, 3]))
            args = [a[:k].copy() if isinstance(a, np.ndarray) else a for a in args]
            if all(a.size == 1 for a in args if isinstance(a, np.ndarray)) and rng.random() < 0.3:
                args = [a.reshape(()) if isinstance(a, np.ndarray) and name == "blackbody_radiance" else a for a in args]
            ctx.case((name, "few", args), {"function": name, "degenerate": "%d wavelengths" % k})
            out, seen = heard(fn, args, ctx, name)
            ctx.check(not seen, "no-empty-warning", "%s warned %r for %d wavelengths" % (name, [str(w) for w in seen], k))
        for name in battery.make(rng, ov, "names"):
            if name in battery.HEAVY and rng.random() > 0.12:
                continue
            n, mod, args = battery.make(rng, ov, name)
            ctx.case((name, args), {"function": name, "degenerate": "nothing"})
            _, seen = heard(battery.resolve(mod, n), args, ctx, name)
            ctx.check(not seen, "no-empty-warning", "%s warned %r for arguments that are not empty" % (name, [str(w) for w in seen]))


def heard(fn, args, ctx, name):
    """Result, and the UserWarnings about empty input the call gave."""
    seen = []

    def observed(*a):
        with warnings.catch_warnings(record=True) as log:
            warnings.simplefilter("always")
            out = fn(*a)
        seen.extend(w.message for w in log if issubclass(w.category, UserWarning) and "empty" in str(w.message).lower())
        return out

    return ctx.call(observed, *args, replay=False, pure=name not in battery.HEAVY, name=name), seen
