"""C30..C32: parameter objects, environment without OpenCV, plots."""
import copy
import os
import re

import numpy as np

from vlib import battery, core, gen, ref
from vlib import overlay as ov

SENSOR_ORDER = ["name", "D", "f", "p_x", "opt_trans_wavelengths", "eta", "p_y", "w_x", "w_y", "int_time", "dark_current", "other_irradiance", "read_noise", "max_n",
                "max_well_fill", "bit_depth", "n_tdi", "cold_shield_temperature", "optics_temperature", "optics_emissivity", "cold_filter_transmission",
                "cold_filter_temperature", "cold_filter_emissivity", "s_x", "s_y", "da_x", "da_y", "pv", "pv_wavelength"]
SENSOR_DEFAULT = dict(eta=0.0, int_time=1, dark_current=0, other_irradiance=0.0, read_noise=0, max_n=100000000, max_well_fill=1.0, bit_depth=100.0, n_tdi=1.0,
                      cold_shield_temperature=70.0, optics_temperature=270.0, optics_emissivity=0.0, cold_filter_transmission=1.0, cold_filter_temperature=70.0,
                      cold_filter_emissivity=0.0, s_x=0.0, s_y=0.0, da_x=0.0, da_y=0.0, pv=0.0, pv_wavelength=0.633e-6)
SCEN_ORDER = ["name", "ihaze", "altitude", "ground_range", "aircraft_speed", "target_reflectance", "target_temperature", "background_reflectance",
              "background_temperature", "ha_wind_speed", "cn2_at_1m", "interp"]
SCEN_DEFAULT = dict(aircraft_speed=0, target_reflectance=0.15, target_temperature=295, background_reflectance=0.07, background_temperature=293, ha_wind_speed=21, cn2_at_1m=1.7e-14)


def sensor_values(rng):
    """Distinct values for every argument, so that a swap shows; now and then zero or an integer."""
    v = {k: gen.nice(rng, 1e-3, 1e3) for k in SENSOR_ORDER}
    for k in SENSOR_ORDER:
        if rng.random() < 0.08 and k not in ("D", "f", "p_x", "name", "opt_trans_wavelengths"):
            v[k] = 0.0 if rng.random() < 0.7 else 0
        elif rng.random() < 0.1:
            v[k] = int(rng.integers(1, 99))
    v["name"] = "sensor %d" % rng.integers(99)
    v["opt_trans_wavelengths"] = np.sort(rng.uniform(0.3e-6, 14e-6, int(rng.integers(2, 9))))
    v["max_n"] = int(rng.integers(1, 10**9)) if rng.random() < 0.6 else gen.nice(rng, 1e-3, 1e9)
    if rng.random() < 0.2:
        v["other_irradiance"] = rng.uniform(0, 1, 4)
    return v


def eqv(a, b):
    if isinstance(b, np.ndarray) or isinstance(a, np.ndarray):
        return np.shape(a) == np.shape(b) and np.array_equal(a, b)
    return a == b


def expect_sensor(v):
    e = dict(SENSOR_DEFAULT)
    e.update(v)
    e.setdefault("p_y", v["p_x"])
    e.setdefault("w_x", v["p_x"])
    wl = v["opt_trans_wavelengths"]
    e.update(optics_transmission=np.ones(wl.shape[0]), qe_wavelengths=wl, qe=np.ones(wl.shape[0]), L_x=v["D"], L_y=v["D"], other_noise=np.array([0]),
             filter_kernel=np.array([1]), frame_stacks=1)
    e = {k: (x.copy() if isinstance(x, np.ndarray) else x) for k, x in e.items()}
    if "w_y" not in v:
        e["w_y"] = None
    return e


def check_sensor(ctx, s, e, monitor, what=""):
    for k, want in e.items():
        if not hasattr(s, k):
            ctx.fail(monitor, "sensor has no attribute %s%s" % (k, what))
        got = getattr(s, k)
        if k == "w_y" and want is None:
            ctx.close(got, e["w_x"] / e["p_x"] * e["p_y"], monitor, rtol=1e-12, note="default w_y" + what)
            continue
        if k in ("filter_kernel", "other_noise"):
            ctx.check(np.asarray(got).size == np.asarray(want).size and np.array_equal(np.ravel(got), np.ravel(want)), monitor, "%s is %r, expected %r%s" % (k, got, want, what))
            continue
        ctx.check(eqv(got, want), monitor, "%s is %r, expected %r%s" % (k, got, want, what))


def C30(ctx):
    from pybsm.metrics import Metrics
    from pybsm.otf import OTF
    from pybsm.radiance import SNRMetrics
    from pybsm.simulation import Scenario, Sensor

    ctx.rule = "distinct (argument set, calling style) constructions and histories of modifications"
    ctx.required = ["sensor-stored", "scenario-stored", "other-objects-unaffected", "caller-arrays-unchanged", "assignment", "result-objects-independent"]
    rng = ctx.rng
    pool = []
    for i in range(ctx.n(1500, 9000)):
        v = sensor_values(rng)
        style = int(rng.integers(4))
        if style == 0:  # everything positional up to some argument
            n = int(rng.integers(5, len(SENSOR_ORDER) + 1))
            used = {k: v[k] for k in SENSOR_ORDER[:n]}
            a, kw = tuple(used.values()), {}
        elif style == 1:
            used = dict(v)
            ks = list(used)
            rng.shuffle(ks)
            a, kw = (), {k: used[k] for k in ks}
        else:
            opt = [k for k in SENSOR_ORDER[5:] if rng.random() < (0.15 if style == 2 else 0.6)]
            used = {k: v[k] for k in SENSOR_ORDER[:5] + opt}
            a, kw = tuple(v[k] for k in SENSOR_ORDER[:5]), {k: v[k] for k in opt}
        ctx.case((tuple(used), used, style), {"given": sorted(used)[:40], "style": style})
        s = ctx.call(lambda: Sensor(*a, **kw), name='Sensor', replay=False)
        e = expect_sensor(used)
        check_sensor(ctx, s, e, "sensor-stored")
        # scenario
        sv = {k: gen.nice(rng, 1e-3, 1e3) for k in SCEN_ORDER}
        sv.update(name="sc%d" % rng.integers(99), ihaze=int(rng.integers(1, 3)), altitude=gen.nice(rng, 2, 2e4), ground_range=gen.amp(rng, 1, 3e5), interp=bool(rng.random() < 0.5))
        n = int(rng.integers(4, len(SCEN_ORDER) + 1))
        if rng.random() < 0.5:
            su = {k: sv[k] for k in SCEN_ORDER[:n]}
            sc = ctx.call(lambda: Scenario(*su.values()), name='Scenario', replay=False)
        else:
            su = {k: sv[k] for k in SCEN_ORDER[:4] + [k for k in SCEN_ORDER[4:] if rng.random() < 0.4]}
            sc = ctx.call(lambda: Scenario(**su), name='Scenario', replay=False)
        we = dict(SCEN_DEFAULT)
        we.update(su)
        we.pop("interp", None)
        ctx.case((tuple(su), su), {"given": sorted(su)})
        for k, want in we.items():
            ctx.check(getattr(sc, k) == want, "scenario-stored", "scenario.%s is %r, expected %r" % (k, getattr(sc, k), want))
        pool.append((s, e, sc, we))
        if len(pool) > 6:
            pool.pop(int(rng.integers(len(pool))))
        # modify one object; all others keep their values
        j = int(rng.integers(len(pool)))
        s1, e1, sc1, we1 = pool[j]
        k = str(rng.choice(sorted(e1)))
        k2 = None
        own = ["optics_transmission", "qe", "other_noise", "filter_kernel"]
        for name in own if rng.random() < 0.5 else []:
            x = getattr(s1, name)
            if isinstance(x, np.ndarray) and x.flags.writeable:
                given = [g for g in used.values() if isinstance(g, np.ndarray)]
                if any(np.shares_memory(x, g) for _, ee, _, _ in pool for g in given):
                    continue
                x[...] = 5
                for o in own:  # no other array of the sensor may be this one
                    if o != name and isinstance(getattr(s1, o), np.ndarray):
                        ctx.check(not np.shares_memory(x, getattr(s1, o)), "assignment", "changing %s in place changes %s of the same sensor" % (name, o))
        new = gen.nice(rng, 1e-3, 1e3) if k not in ("name",) else "renamed"
        if k in ("opt_trans_wavelengths", "qe_wavelengths", "optics_transmission", "qe", "other_noise", "filter_kernel"):
            new = rng.uniform(1, 2, 3)
        setattr(s1, k, new)
        ctx.check(getattr(s1, k) is new or eqv(getattr(s1, k), new), "assignment", "sensor.%s does not read back" % k)
        for q in (x for x in e1 if x != k and x not in own):
            if q == "w_y" and e1[q] is None:
                continue
            ctx.check(eqv(getattr(s1, q), e1[q]), "assignment", "setting %s changed %s to %r" % (k, q, getattr(s1, q)))
        k2 = str(rng.choice(sorted(we1)))
        new2 = (3 - we1[k2]) if k2 == "ihaze" else "renamed" if k2 == "name" else gen.nice(rng, 2, 1e4)
        setattr(sc1, k2, new2)
        for q, w in we1.items():
            ctx.check(getattr(sc1, q) == (new2 if q == k2 else w), "assignment", "after setting %s, scenario.%s is %r" % (k2, q, getattr(sc1, q)))
        pool.pop(j)
        for a1, b1, c1, d1 in pool:
            check_sensor(ctx, a1, b1, "other-objects-unaffected", " after changing %s of another sensor" % k)
            for q, w in d1.items():
                ctx.check(getattr(c1, q) == w, "other-objects-unaffected", "scenario.%s is %r, expected %r after changing another scenario" % (q, getattr(c1, q), w))
        wl = np.array([1e-6, 2e-6])
        fresh = Sensor("f", 0.1, 0.5, 1e-5, wl)
        check_sensor(ctx, fresh, expect_sensor(dict(name="f", D=0.1, f=0.5, p_x=1e-5, opt_trans_wavelengths=wl)), "other-objects-unaffected", " (new object)")
        ctx.check(all(np.array_equal(used[q], v[q]) for q in used if isinstance(v[q], np.ndarray)), "caller-arrays-unchanged", "constructor changed a caller's array")
        if i % 20 == 0:
            for cls in (Metrics, OTF, SNRMetrics):
                p, q = (cls(), cls()) if cls is OTF else (cls("a"), cls("b"))
                p.marker = np.zeros(2)
                ctx.check(not hasattr(q, "marker"), "result-objects-independent", "%s objects share attributes" % cls.__name__)
                if cls is not OTF:
                    ctx.check(p.name == "a" and q.name == "b", "result-objects-independent", "%s name not stored" % cls.__name__)


# ---------------------------------------------------------------------------
def compare(ctx, got, want, monitor, what):
    a, b = list(core.leaves(got)), list(core.leaves(want))
    ctx.monitors[monitor] += 1
    if [p for p, _ in a] != [p for p, _ in b]:
        ctx.fail(monitor, "%s: results have different structure" % what)
    num = (np.ndarray, np.generic, int, float, complex)
    for (p, x), (_, y) in zip(a, b):
        if isinstance(x, num) and isinstance(y, num):
            x, y = [v.astype(np.int8) if v.dtype.kind == "b" else v for v in (np.asarray(x), np.asarray(y))]
            if x.dtype == object:
                continue
            if x.shape != y.shape:
                ctx.fail(monitor, "%s%s: shape %s and %s" % (what, p, x.shape, y.shape))
            if x.size == 0:
                continue
            with np.errstate(all="ignore"):
                fin = np.abs(y[np.isfinite(y)]) if y.dtype.kind in "fc" else np.abs(y.astype(float))
                sc = fin.max() if fin.size else 0.0
                ok = (x == y) | ((x != x) & (y != y)) | (np.abs(x - y) <= 1e-10 * np.abs(y) + 1e-12 * sc)
            if not np.all(ok):
                i = tuple(np.argwhere(~np.atleast_1d(ok))[0])
                ctx.fail(monitor, "%s%s: %r, expected %r at %s" % (what, p, np.atleast_1d(x)[i], np.atleast_1d(y)[i], i))


def C31(ctx):
    from vlib.pristine import Server

    ctx.rule = "distinct calls evaluated with and without OpenCV"
    ctx.required = ["imports", "same-as-with-opencv", "import-error", "install-hint", "arguments-unchanged"]
    rng = ctx.rng
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    mods = ["pybsm", "pybsm.otf", "pybsm.radiance", "pybsm.metrics", "pybsm.simulation", "pybsm.geospatial", "pybsm.noise", "pybsm.utils", "pybsm.otf.functional", "pybsm.simulation.functional"]
    for j, mod in enumerate(mods):
        srv = Server(ctx.root, here, ("no-cv2", "broken-cv2")[(j + ctx.seed) % 2], mod)
        ctx.case(("import", mod, j % 2), {"imported first": mod})
        try:
            ctx.check("error" not in srv.hello, "imports", "importing %s without OpenCV fails: %s" % (mod, srv.hello.get("error", "")[-1500:]))
            if srv.hello["cv2"]:
                raise RuntimeError("OpenCV was imported although blocked")
        finally:
            if j < len(mods) - 1:
                srv.close()
    both = Server(ctx.root, here, "plain")
    names = battery.make(rng, ov, "names")
    def large():
        """Calls on arrays of the size of real images and frequency grids."""
        O, M, S = "pybsm.otf.functional", "pybsm.metrics.functional", "pybsm.simulation.functional"
        n = int(rng.integers(257, 700))
        x = np.linspace(-1e5, 1e5, n)
        uu, vv = np.meshgrid(x, x[::-1])
        tri = np.clip(1 - np.hypot(uu, vv) / 1.2e5, 0, 1)
        for dt in (float, np.float32, np.uint16):
            yield "stretch_contrast_convert_8bit", S, (rng.uniform(0, 3000, (n, n + 7)).astype(dt),)
        yield "stretch_contrast_convert_8bit", S, (rng.uniform(0, 3000, (n, n, 3)), [1.0, 99.0])
        yield "stretch_contrast_convert_8bit", S, (rng.integers(0, 255, (40, 30, int(rng.integers(1, 5)))).astype(np.uint8),)
        for sh in ((n, n + 3), (40, 30, 3), (40, 30, 4), (700,)):
            yield "reference_image", "vlib.battery", (rng.integers(0, 255, sh).astype((np.uint8, np.uint16, float)[int(rng.integers(3))]), 0.3)
        yield "img_to_reflectance", S, (rng.integers(0, 255, (40, 30, 3)).astype(np.uint8), np.array([0.0, 255.0]), np.array([0.0, 1.0]))
        yield "img_to_reflectance", S, (rng.uniform(0, 255, (n, n)), np.array([0.0, 100.0, 255.0]), np.array([0.0, 0.3, 1.0]))
        k = rng.uniform(size=(41, 61))
        yield "noise_gain", "pybsm.noise", (k / k.sum(),)
        yield "filter_OTF", O, (uu, vv, rng.normal(size=(15, 11)), 1e-6)
        yield "wiener_filter", S, (tri + 0j, 0.01)
        yield "circular_aperture_OTF", O, (uu, vv, 1e-6, 0.1, 0.3)
        yield "giqe5_RER", M, (tri, 2e5 / (n - 1), 1e-5, 1e-5)
        yield "slice_otf", O, (tri, float(rng.uniform(0, 6)))

    try:
        for n, mod, args in [x for _ in range(ctx.n(1, 4)) for x in large()]:
            ctx.case((n, args), {"call": n, "large": True})
            a, b = srv.ask(mod, n, args)[0], both.ask(mod, n, args)[0]
            if b[0] == "raise":
                ctx.fail("no-exception", "%s raised %s: %s" % (n, b[1], b[2]), traceback=b[4])
            ctx.check(a[0] == "ok", "same-as-with-opencv", "%s without OpenCV gave %r on large arrays" % (n, a[1:3]))
            compare(ctx, a[1], b[1], "same-as-with-opencv", n)
        for i in range(ctx.n(1, 12)):
            for name in names:
                reps = 1 if name in battery.HEAVY else 3
                for _ in range(reps):
                    n, mod, args = battery.make(rng, ov, name)
                    ctx.case((n, args), {"call": n})
                    ctx.calls[n] += 1
                    a, meta = srv.ask(mod, n, args)
                    if n in battery.NEEDS_CV2:
                        ctx.check(a[0] == "raise" and a[3], "import-error", "%s without OpenCV gave %r" % (n, a[:3]))
                        ctx.check(re.search(r"(?i)install", a[2]) is not None, "install-hint", "%s: message %r does not say what to install" % (n, a[2]))
                        ctx.check(meta["args_same"], "arguments-unchanged", "%s changed its arguments before failing" % n)
                        continue
                    b, _ = both.ask(mod, n, args)
                    if b[0] == "raise":
                        ctx.fail("no-exception", "%s raised %s: %s" % (n, b[1], b[2]), args=args, traceback=b[4])
                    ctx.check(a[0] == "ok", "same-as-with-opencv", "%s without OpenCV gave %r" % (n, a[1:3]), args=args)
                    compare(ctx, a[1], b[1], "same-as-with-opencv", n)
        ctx.extra["functions"] = len(names)
    finally:
        srv.close()
        both.close()


# ---------------------------------------------------------------------------
def C32(ctx):
    import matplotlib

    matplotlib.use("Agg")
    import matplotlib.pyplot as plt
    import pybsm.metrics as m
    from matplotlib.colors import to_rgba
    from matplotlib.text import Annotation
    from pybsm.simulation import RefImage, Scenario, Sensor

    ctx.rule = "distinct (NIIRS result, slice angle, figure settings), (result, axis limit, figure settings) and reference images drawn"
    ctx.required = ["mtf-lines", "mtf-frequency", "mtf-legend", "nyquist", "in-view", "noise-bars", "noise-labels", "heading", "axis-limit", "image-extent", "results-unchanged"]
    rng = ctx.rng
    names = {"aperture": "ap_OTF", "turbulence": "turb_OTF", "detector": "det_OTF", "jitter": "jit_OTF", "drift": "drft_OTF", "wavefront": "wav_OTF", "image processing": "filter_OTF", "system": "system_OTF"}
    sizes = [(6.4, 4.8, 10), (3.2, 2.6, 10), (10, 8, 10), (6.4, 4.8, 18)]
    for i in range(ctx.n(5, 40)):
        which, s, sc, interp = battery._niirs_args(rng, Sensor, Scenario, ov)
        if i % 2 == 0:  # a component that looks different along every direction
            which, s.filter_kernel = "niirs", rng.uniform(-0.2, 1.0, (3, 4))
            s.filter_kernel[1, 1] += 1.5
            s.filter_kernel /= s.filter_kernel.sum()
        else:  # components that change sign inside the cutoff: the plot shows magnitudes
            s.da_x, s.da_y = [gen.lu(rng, 1.2, 40) / (s.int_time * s.n_tdi * s.D / s.opt_trans_wavelengths[0]) for _ in "xy"]
            s.w_x, s.w_y = [gen.lu(rng, 0.5, 2.5) * s.f * s.opt_trans_wavelengths[0] / s.D for _ in "xy"]
        r = getattr(m, which)(s, sc, interp)
        before = core.digest(r)
        for _ in range(4):
            w, h, fs = sizes[int(rng.integers(len(sizes)))]
            plt.close("all")
            matplotlib.rcParams["figure.figsize"] = (w, h)
            matplotlib.rcParams["font.size"] = fs
            ang = float(rng.choice([0.0, np.pi / 2, np.pi / 4, np.pi, -np.pi / 3, float(rng.uniform(-4, 4))]))
            ctx.case(("mtf", i, which, s, ang), {"model": which, "angle": ang, "figure": [w, h, fs]})
            plt.figure()
            if ang == 0.0 and rng.random() < 0.5:
                ctx.call(m.plot_common_MTFs, r, replay=False, pure=True)
            else:
                ctx.call(m.plot_common_MTFs, r, ang, replay=False, pure=True)
            ax = plt.gca()
            ax.figure.canvas.draw()
            leg = ax.get_legend()
            ctx.check(leg is not None, "mtf-legend", "no legend")
            texts = [t.get_text() for t in leg.get_texts()]
            ctx.check(sorted(texts) == sorted(names), "mtf-legend", "legend entries are %s" % (texts,))
            lines = [ln for ln in ax.get_lines() if np.size(ln.get_xdata()) > 5]
            handles = leg.legend_handles if hasattr(leg, "legend_handles") else leg.legendHandles
            style = lambda ln: (to_rgba(ln.get_color()), str(ln.get_linestyle()), float(ln.get_linewidth()), str(ln.get_marker()))
            du = float(np.abs(r.uu[0, 1] - r.uu[0, 0]))
            for t, hd in zip(texts, handles):
                mt = [ln for ln in lines if style(ln) == style(hd)]
                ctx.check(len(mt) == 1, "mtf-lines", "%d lines drawn in the style of legend entry %r" % (len(mt), t))
                x, y = np.asarray(mt[0].get_xdata(), float), np.asarray(mt[0].get_ydata(), float)
                comp = np.asarray(getattr(r.otf, names[t]))
                opt = [np.abs(ref.slice2d(comp, ang)), ref.slice2d(np.abs(comp), ang)]
                k = min(y.size, opt[0].size)
                ctx.check(abs(y.size - opt[0].size) <= 1 and x.size == y.size, "mtf-lines", "%d samples, expected %d" % (y.size, opt[0].size), curve=t)
                e = min(np.max(np.abs(y[:k] - o[:k])) for o in opt)
                ctx.check(e <= 1e-8 * max(1.0, np.abs(comp).max()), "mtf-lines", "curve %r differs from the %s slice by %g" % (t, names[t], e), angle=ang)
                want = np.arange(x.size) * du * 1e-3 / s.f
                ctx.check(np.all(np.abs(x - want) <= 0.35 * du * 1e-3 / s.f + 1e-9 * want.max()), "mtf-frequency", "frequencies run to %g, expected %g cycles/mm" % (x.max(), want.max()), curve=t)
                if abs(np.sin(2 * ang)) < 1e-12:
                    ctx.close(x, want, "mtf-frequency", rtol=1e-6, atol=1e-8 * want.max(), curve=t)
                seen = (y >= min(ax.get_ylim()) - 0.02 * np.ptp(ax.get_ylim())) & (y <= max(ax.get_ylim()) + 0.02 * np.ptp(ax.get_ylim())) & (x >= ax.get_xlim()[0] - 1e-9 * x.max()) & (x <= ax.get_xlim()[1] + 1e-9 * x.max())
                ctx.check(np.mean(seen) > 0.97, "in-view", "curve %r lies outside the drawn axes %s %s" % (t, ax.get_xlim(), ax.get_ylim()))
            ctx.check(len(lines) >= 8, "mtf-lines", "%d curves drawn" % len(lines))
            ctx.check("cycles/mm" in ax.get_xlabel(), "mtf-frequency", "x axis is labelled %r" % ax.get_xlabel())
            ny = 0.5 / s.p_x * 1e-3
            marks = [a.xy[0] for a in ax.texts if isinstance(a, Annotation)] + [ln.get_xdata()[0] for ln in ax.get_lines() if np.size(ln.get_xdata()) == 2 and ln.get_xdata()[0] == ln.get_xdata()[1]]
            ctx.check(any(abs(z - ny) <= 1e-9 * ny for z in marks), "nyquist", "marks at %s, Nyquist is %g cycles/mm" % (marks, ny))
            ctx.check(core.digest(r) == before, "results-unchanged", "plotting modified the result")
            # noise terms
            plt.close("all")
            mv = float(rng.choice([0, 0, 50, 1000, 7, 1, 0.4, gen.lu(rng, 1e-3, 1e6)]))
            mv = int(mv) if mv == int(mv) and rng.random() < 0.8 else mv
            ctx.case(("noise", i, which, s, mv, w), {"model": which, "limit": mv, "figure": [w, h, fs]})
            if mv:
                ctx.call(m.plot_noise_terms, r, mv, replay=False, pure=True)
            else:
                ctx.call(m.plot_noise_terms, r, replay=False, pure=True)
            ax = plt.gca()
            ax.figure.canvas.draw()
            q = r.snr
            want = [("total", q.total_noise), ("scene", q.scene_noise), ("path", q.path_noise), ("emission", q.self_emission_noise), ("dark", q.dark_current_noise), ("quant", q.quantization_noise), ("read", s.read_noise)]
            bars = [b for b in ax.patches]
            ctx.check(len(bars) == 7, "noise-bars", "%d bars" % len(bars))
            ticks = [(t.get_position()[0], t.get_text().lower()) for t in ax.get_xticklabels()]
            got = {}
            for b in bars:
                c = b.get_x() + b.get_width() / 2
                lab = [t for p, t in ticks if abs(p - c) < 0.3 and t.strip()]
                ctx.check(len(lab) == 1, "noise-labels", "bar at %g carries labels %s" % (c, lab), ticks=[list(t) for t in ticks])
                got[lab[0]] = b.get_height() + 0.0
            for key, val in want:
                hit = [v for t, v in got.items() if key in t]
                ctx.check(len(hit) == 1, "noise-labels", "%d bars labelled %r" % (len(hit), key), labels=sorted(got))
                ctx.close(hit[0], val, "noise-bars", rtol=1e-12, shape=False, bar=key)
            # the heading's numbers, up to rounding to whole electrons and percent
            head = {k.strip(): float(x) for k, x in re.findall(r"([a-z][a-z ]*):\s*(-?[0-9.]+(?:e[+-]?[0-9]+)?)", ax.get_title().lower())}
            for key, val in (("total photoelectrons", q.tgt_n), ("contrast", q.tgt_n - q.bkg_n), ("well fill", q.well_fraction * 100)):
                hit = [x for t, x in head.items() if key in t]
                ctx.check(len(hit) == 1, "heading", "heading %r has %d numbers for %r" % (ax.get_title(), len(hit), key))
                ctx.check(abs(hit[0] - val) <= 1.001, "heading", "heading %r gives %g for %r, expected %g" % (ax.get_title(), hit[0], key, val))
            if mv:
                ctx.close(ax.get_ylim(), [0, mv], "axis-limit", rtol=1e-12)
            else:
                top = max(float(v) for _, v in want)
                lim = sorted(ax.get_ylim())
                ctx.check(lim[0] <= 0 and lim[1] >= top, "in-view", "bars up to %g lie outside the drawn axis %s" % (top, lim))
            ctx.check(core.digest(r) == before, "results-unchanged", "plotting modified the result")
    for i in range(ctx.n(25, 150)):
        plt.close("all")
        sh = (int(rng.integers(2, 80)), int(rng.integers(2, 80))) + ((3,) if rng.random() < 0.3 else ())
        img = rng.integers(0, 255, sh).astype(np.uint8)
        gsd = gen.nice(rng, 0.01, 50)
        r = RefImage(img, gsd)
        before = core.digest(r)
        ctx.case(("show", img, gsd), {"shape": list(sh), "gsd": gsd})
        ctx.call(r.show, replay=False, pure=True, name="RefImage.show")
        ax = plt.gca()
        ax.figure.canvas.draw()
        ctx.check(len(ax.images) == 1, "image-extent", "%d images drawn" % len(ax.images))
        ex = list(ax.images[0].get_extent())
        hh, ww = sh[0] * gsd / 2, sh[1] * gsd / 2
        ctx.close(sorted(ex[:2]) + sorted(ex[2:]), [-ww, ww, -hh, hh], "image-extent", rtol=1e-9)
        ctx.check(np.array_equal(np.asarray(ax.images[0].get_array()), img), "image-extent", "drawn pixels differ from the image")
        ctx.check(core.digest(r) == before, "results-unchanged", "showing modified the reference image")
    plt.close("all")
