"""C35, C36: copies of model objects; the world outside the calls."""
import ast
import copy
import gc
import io
import os
import pickle
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import warnings

import numpy as np

from checks.objects import compare
from vlib import battery, core, gen, pristine
from vlib import overlay as ov_mod

OBJECT_CALLS = ["scenario_atm", "photon_detector_SNR", "reflectance_to_photoelectrons", "capture_parameters", "common_OTFs", "niirs_with_fields", "simulate_seeded"]
SLOW = {"niirs_with_fields", "simulate_seeded"}


def ways(rng):
    k = int(rng.integers(9))
    if k == 0:
        return "copy.copy", copy.copy
    if k <= 2:
        return "copy.deepcopy", copy.deepcopy
    if k == 8:
        return "pickle of a deep copy", lambda x: pickle.loads(pickle.dumps(copy.deepcopy(x)))
    p = int(rng.integers(pickle.HIGHEST_PROTOCOL + 1))
    return "pickle protocol %d" % p, lambda x: pickle.loads(pickle.dumps(x, protocol=p))


def same_view(ctx, a, b, what):
    """Every public attribute of the copy, exactly."""
    ctx.monitors["same-attributes"] += 1
    if type(a) is not type(b):
        ctx.fail("same-attributes", "%s of a %s is a %s" % (what, type(a).__name__, type(b).__name__))
    x, y = core.public_view(a), core.public_view(b)
    if sorted(x) != sorted(y):
        ctx.fail("same-attributes", "%s has attributes %s, not %s" % (what, sorted(y), sorted(x)))
    if core.digest(x) != core.digest(y):
        bad = [k for k in x if core.digest(x[k]) != core.digest(y[k])]
        ctx.fail("same-attributes", "%s differs in %s" % (what, bad), original=[repr(x[k])[:80] for k in bad], copy=[repr(y[k])[:80] for k in bad])


def mangle(rng, o, arrays, depth=0):
    """Change everything of an object that a caller can: its numbers, and its arrays in place when they are its own."""
    for k, v in list(core.public_view(o).items()):
        if k == "name" or isinstance(v, (str, bytes, bool)):
            continue
        if isinstance(v, np.ndarray):
            if arrays and v.flags.writeable and v.dtype.kind in "fiu" and v.size:
                v += v.dtype.type(3)
            else:
                try:
                    setattr(o, k, v + 3.0)
                except AttributeError:
                    pass
        elif core._is_plain_object(v):
            if arrays and depth < 2:
                mangle(rng, v, arrays, depth + 1)
        elif isinstance(v, (int, float, np.number)):
            try:
                setattr(o, k, v + 3.0 if k != "ihaze" else 3 - v)
            except AttributeError:
                pass


def C35(ctx):
    ctx.rule = "distinct (call, arguments, way of copying)"
    ctx.required = ["same-attributes", "same-prediction", "independent", "other-process", "result-copy"]
    rng, ov = ctx.rng, ctx.overlay
    from pybsm.simulation import Scenario

    server = pristine.Server(ctx.root, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    if "error" in server.hello:
        ctx.fail("import", server.hello["error"][-1500:])

    def used(a):
        """An object with a past: its atmosphere was read, perhaps for other parameters."""
        if isinstance(a, Scenario) and rng.random() < 0.6:
            try:
                if rng.random() < 0.5:
                    keep = a.altitude, a.ground_range, a.ihaze
                    b = gen.scenario(rng, Scenario, ov, minalt=30)
                    a.altitude, a.ground_range, a.ihaze = b.altitude, b.ground_range, b.ihaze
                    try:
                        a.atm
                    finally:
                        a.altitude, a.ground_range, a.ihaze = keep
                else:
                    a.atm
            except IndexError:
                pass
        return a

    for i in range(ctx.n(60, 500)):
        if ctx.late(200):
            break
        pool = [n for n in OBJECT_CALLS if n not in SLOW] if i % 4 else OBJECT_CALLS
        name, mod, args = battery.make(rng, ov, str(rng.choice(pool)))
        args = tuple(used(a) for a in args)
        fn = battery.resolve(mod, name)
        how, dup = ways(rng)
        ctx.case((name, args, how), {"call": name, "copied by": how})
        objs = [j for j, a in enumerate(args) if core._is_plain_object(a)]
        try:
            twins = tuple(dup(a) if j in objs else copy.deepcopy(a) for j, a in enumerate(args))
            third = tuple(copy.deepcopy(a) for a in args)
        except Exception as e:
            ctx.fail("same-attributes", "%s of the arguments of %s failed: %s: %s" % (how, name, type(e).__name__, e))
        for j in objs:
            same_view(ctx, args[j], twins[j], how)
            same_view(ctx, args[j], third[j], "copy.deepcopy")
        first = core.digest([core.public_view(args[j]) for j in objs])

        def run(a):
            try:
                return ("ok", ctx.call(fn, *a, pure=False, name=name))
            except core.Violation:
                raise

        order = rng.random() < 0.5
        r2 = run(twins) if order else None
        r1 = run(args)
        r2 = r2 or run(twins)
        compare(ctx, r2[1], r1[1], "same-prediction", "%s after %s" % (name, how))
        if rng.random() < 0.3:
            out, _ = server.ask(mod, name, third)
            if out[0] != "ok":
                ctx.fail("other-process", "%s in another process: %s" % (name, out[1:3]))
            compare(ctx, out[1], r1[1], "other-process", "%s in another process" % name)
        # results travel too
        res = r1[1]
        for o in res if isinstance(res, tuple) else (res,):
            if core._is_plain_object(o):
                how2, dup2 = ways(rng)
                o2 = dup2(o)
                ctx.monitors["result-copy"] += 1
                same_view(ctx, o, o2, how2 + " of the result")
                if how2 != "copy.copy":
                    before = core.digest(o)
                    mangle(rng, o2, True)
                    ctx.check(core.digest(o) == before, "independent", "changing a %s of a result changed the result" % how2)
        # independence, both ways
        if name in ("niirs_with_fields",):  # writes the documented fields
            first = core.digest([core.public_view(args[j]) for j in objs])
        for a, b, what in ((args, twins, "copy"), (twins, args, "original")):
            seen = core.digest([core.public_view(a[j]) for j in objs])
            for j in objs:
                mangle(rng, b[j], how != "copy.copy")
            ctx.check(core.digest([core.public_view(a[j]) for j in objs]) == seen, "independent", "changing the %s (%s) reached the other object" % (what, how), call=name)
            if what == "copy":
                ctx.check(seen == first, "independent", "using the %s changed the original's attributes" % how, call=name)
                again = run(tuple(copy.deepcopy(x) if k not in objs else x for k, x in enumerate(a)))
                compare(ctx, again[1], r1[1], "independent", "%s of the original after its copy changed" % name)
    server.close()


# ---------------------------------------------------------------------------
PROBE = r'''
import sys, os, json, random, pickle, io
root, verif, order = sys.argv[1], sys.argv[2], sys.argv[3].split(",")
sys.path.insert(0, root)
sys.dont_write_bytecode = True
import numpy as np, scipy.interpolate, scipy.special, scipy.integrate, scipy.signal, logging, threading, warnings, signal, locale, gc
import matplotlib
matplotlib.use("Agg")
import matplotlib.pyplot as plt
with warnings.catch_warnings():
    warnings.simplefilter("ignore")
    import pkg_resources
import importlib
for m in sys.argv[6].split(","):
    try:
        importlib.import_module(m)
    except ImportError:
        pass
try:
    import cv2
    cvt = cv2.getNumThreads()
except ImportError:
    cv2 = None

def state():
    return {
        "geterr": str(np.geterr()), "printoptions": str(np.get_printoptions()), "random": str(hash(np.random.get_state()[1].tobytes())),
        "pyrandom": str(hash(random.getstate())), "env": dict(os.environ), "cwd": os.getcwd(), "umask": None,
        "filters": [str(f[0]) + str(f[2]) + str(f[3]) for f in warnings.filters if f[1] is None or "encountered in" not in str(f[1])], "threads": threading.active_count(),
        "rc": str(sorted((k, str(v)) for k, v in matplotlib.rcParams.items())), "backend": matplotlib.get_backend(), "figures": plt.get_fignums(),
        "handlers": len(logging.root.handlers), "level": logging.root.level, "disabled": logging.root.manager.disable,
        "signals": [str(signal.getsignal(s)) for s in (signal.SIGINT, signal.SIGTERM, signal.SIGCHLD)], "recursion": sys.getrecursionlimit(),
        "switch": sys.getswitchinterval(), "excepthook": sys.excepthook is sys.__excepthook__, "locale": str(locale.setlocale(locale.LC_ALL)),
        "gc": gc.isenabled(), "cv2threads": cv2.getNumThreads() if cv2 else 0, "stdout": sys.stdout is sys.__stdout__,
        "path": list(sys.path), "builtins": sorted(k for k in vars(__builtins__) if k != "_"),
        "patched": [f.__module__ + "." + f.__qualname__ for f in (np.arccos, np.sqrt, np.fft.fft2, np.interp, open, warnings.warn) if hasattr(f, "__module__") and f.__module__ and hasattr(f, "__qualname__")],
    }

touched = []
armed = False
WRITES = os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND
def hook(event, args):
    if not armed:
        return
    if event == "open":
        path, mode, flags = args
        if (isinstance(flags, int) and flags & WRITES) or (isinstance(mode, str) and set(mode) & set("wax+")):
            touched.append([event, str(path)])
    elif event.split(".")[0] in ("socket", "subprocess", "shutil") or event in ("os.system", "os.fork", "os.exec", "os.posix_spawn", "os.remove", "os.rename", "os.mkdir", "os.rmdir", "os.chdir", "os.putenv", "os.unsetenv", "os.chmod", "os.truncate", "os.kill", "tempfile.mkstemp", "tempfile.mkdtemp", "os.link", "os.symlink"):
        touched.append([event, str(args)[:120]])
sys.addaudithook(hook)
import importlib
before = state()
real1 = os.dup(1)
r, w = os.pipe()
os.dup2(w, 1)
armed = True
error = None
try:
    for m in order:
        if m.startswith("*"):
            exec("from %s import *" % m[1:], {})
        else:
            importlib.import_module(m)
except BaseException as e:
    error = "%s: %s: %s" % (m, type(e).__name__, e)
armed = False
sys.stdout.flush()
os.dup2(real1, 1)
os.close(w)
text = os.read(r, 4096).decode(errors="replace")
after = state()
names = {}
for m, mod in sorted(sys.modules.items()):
    if m.split(".")[0] == "pybsm" and mod is not None:
        names[m] = sorted(k + "=" + str(getattr(v, "__module__", "")) + "." + str(getattr(v, "__qualname__", type(v).__name__)) for k, v in vars(mod).items() if not k.startswith("_") and (callable(v)) and str(getattr(v, "__module__", "")).startswith("pybsm"))
results = []
if error is None:
    sys.path.insert(0, verif)
    from vlib import battery, core
    calls = pickle.load(open(sys.argv[4], "rb"))
    for m in ("otf", "radiance", "metrics", "simulation", "geospatial", "noise", "utils"):
        importlib.import_module("pybsm." + m)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        for mod, name, args in calls:
            try:
                results.append(("ok", battery.resolve(mod, name)(*args)))
            except Exception as e:
                results.append(("raise", type(e).__name__))
final = state()
def diff(a, b):
    return {k: [str(a[k])[-300:], str(b[k])[-300:]] for k in a if a[k] != b[k] and k != "path"}
pickle.dump({"error": error, "stdout": text, "touched": touched, "changed": diff(before, after), "changed_by_calls": {k: v for k, v in diff(after, final).items() if k not in ("handlers",)}, "names": names, "results": results}, open(sys.argv[5], "wb"))
'''


def modules_of(root):
    out = []
    for d, _, files in os.walk(os.path.join(root, "pybsm")):
        for f in files:
            if f.endswith(".py") and "atms" not in d:
                rel = os.path.relpath(os.path.join(d, f), root)[:-3].replace(os.sep, ".")
                out.append(rel[: -len(".__init__")] if rel.endswith(".__init__") else rel)
    return sorted(out)


def dependencies(root):
    """Modules of other packages that the package imports anywhere."""
    out = set()
    for m in modules_of(root):
        base = os.path.join(root, *m.split("."))
        path = base + ".py" if os.path.exists(base + ".py") else os.path.join(base, "__init__.py")
        for n in ast.walk(ast.parse(open(path).read())):
            if isinstance(n, ast.Import):
                out.update(a.name for a in n.names)
            elif isinstance(n, ast.ImportFrom) and n.level == 0:
                out.add(n.module)
                out.update(n.module + "." + a.name for a in n.names)
    return sorted(x for x in out if x.split(".")[0] not in ("pybsm", "__future__"))


def public_functions(root, module):
    path = os.path.join(root, *module.split(".")) + ".py"
    if not os.path.exists(path):
        return []
    return [n.name for n in ast.parse(open(path).read()).body if isinstance(n, (ast.FunctionDef, ast.ClassDef)) and not n.name.startswith("_")]


class Watch:
    """Audit hook plus before/after state of the process."""

    EVENTS = ("os.system", "os.fork", "os.exec", "os.posix_spawn", "os.remove", "os.rename", "os.mkdir", "os.rmdir", "os.chdir", "os.putenv", "os.unsetenv", "os.chmod",
              "os.truncate", "os.kill", "os.link", "os.symlink")

    def __init__(self, scratch):
        self.on = False
        self.scratch = os.path.realpath(scratch)
        self.bad, self.wrote, self.removed = [], [], []
        self.reads = 0
        self.files = set()
        self.events = 0
        self.owner = None
        sys.addaudithook(self)

    def __call__(self, event, args):
        if not self.on:
            return
        self.events += 1
        if event == "open":
            path, mode, flags = args
            wr = (isinstance(flags, int) and flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND)) or (isinstance(mode, str) and set(mode) & set("wax+"))
            p = os.path.abspath(os.fsdecode(path)) if isinstance(path, (str, bytes)) else str(path)
            if wr and p != "/dev/null":
                self.wrote.append(p)
            elif p.startswith(self.scratch + os.sep):
                self.bad.append("read %s, a file of the caller's directory" % p)
            else:
                self.reads += 1
                self.files.add(p)
        elif event == "os.remove":
            self.removed.append(os.path.abspath(os.fsdecode(args[0])))
        elif event.startswith("tempfile."):
            pass  # shows up as a write when the file is made
        elif event.split(".")[0] in ("socket", "subprocess", "shutil") or event in self.EVENTS:
            self.bad.append("%s %s" % (event, str(args)[:120]))

    def start(self):
        self.bad, self.wrote, self.removed = [], [], []
        self.on = True

    def stop(self):
        """A library's own temporary file (scipy's griddata has one) is no trace once it is gone."""
        self.on = False
        tmp = os.path.realpath(tempfile.gettempdir()) + os.sep
        gone = {p for p in self.wrote if p.startswith(tmp) and not os.path.exists(p)}
        self.bad += ["wrote %s" % p for p in self.wrote if p not in gone] + ["removed %s" % p for p in self.removed if p not in gone]


def descriptors():
    return len(os.listdir("/proc/self/fd"))


def C36(ctx):
    ctx.rule = "distinct (import order, interpreter flags) and distinct (call, arguments)"
    ctx.required = ["import-order", "import-quiet", "same-in-any-interpreter", "no-outside-effects", "no-output", "no-descriptors", "no-threads", "plots-quiet"]
    rng, ov = ctx.rng, ctx.overlay
    verif = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    scratch = tempfile.mkdtemp(prefix="verif-c36-")
    home = os.getcwd()
    try:
        # what a careless relative path would pick up
        for d in ("atms", "pybsm/atms", "src/pybsm/atms", "data"):
            os.makedirs(os.path.join(scratch, d))
            for k in (1, 2, 700, 3430):
                np.ones((1371, 5), np.float32).tofile(os.path.join(scratch, d, "%d.bin" % k))
        os.chdir(scratch)
        _imports(ctx, rng, ov, verif, scratch)
        _calls(ctx, rng, ov, scratch)
    finally:
        os.chdir(home)
        shutil.rmtree(scratch, ignore_errors=True)


def _imports(ctx, rng, ov, verif, scratch):
    mods = modules_of(ctx.root)
    canonical = None
    for i in range(ctx.n(6, 25)):
        if ctx.late(150):
            break
        order = [str(m) for m in rng.permutation(mods)]
        first = mods[(i * ctx.shards + ctx.shard) % len(mods)]  # every module comes first once
        order = [first] + [m for m in order if m != first]
        order = [("*" + m if rng.random() < 0.2 else m) for m in order]
        flags = [[], ["-O"], ["-OO"], ["-X", "utf8"], ["-bb"], ["-W", "default"]][int(rng.integers(6))]
        calls = []
        names = [n for n in _names() if n not in SLOW]
        for n in rng.choice(names, 30):
            name, mod, args = battery.make(rng, ov, str(n))
            calls.append((mod, name, args))
        # documented refusals hold in every interpreter
        OTF, RAD, NOI, MET = "pybsm.otf", "pybsm.radiance", "pybsm.noise", "pybsm.metrics"
        u = np.array([[0.0, 10.0]])
        calls += [(NOI, "noise_gain", (np.array([[2.0, 1.0]]),)), (OTF, "circular_aperture_OTF", (u, u, 0, 0.1, 0.2)), (OTF, "coherence_diameter", (0, np.array([1.0, 2.0]), np.array([1e-15, 1e-15]))),
                  (OTF, "otf_to_psf", (np.ones((20, 20)), 0, 1.0)), (OTF, "weighted_by_wavelength", (np.array([1e-6]), np.array([]), None)),
                  (RAD, "resample_by_wavelength", (np.array([1e-6, 2e-6]), np.array([1.0]), np.array([1.5e-6])))]
        inp, outp = os.path.join(scratch, "in.pkl"), os.path.join(scratch, "out.pkl")
        with open(inp, "wb") as f:
            pickle.dump(calls, f)
        if os.path.exists(outp):
            os.remove(outp)
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", PYTHONHASHSEED=str(int(rng.integers(1, 10**6))))
        p = subprocess.run([sys.executable] + flags + ["-c", PROBE, ctx.root, verif, ",".join(order), inp, outp, ",".join(dependencies(ctx.root))], env=env, capture_output=True, text=True, cwd=scratch, timeout=300)
        ctx.case((tuple(order), tuple(flags)), {"first imported": order[:3], "flags": flags})
        if not os.path.exists(outp):
            if p.returncode < 0:
                ctx.fail("import-order", "the interpreter ended with status %d while importing" % p.returncode, stderr=p.stderr[-600:])
            raise RuntimeError("probe failed: " + p.stderr[-1500:])
        with open(outp, "rb") as f:
            rep = pickle.load(f)
        os.remove(outp)
        ctx.check(rep["error"] is None, "import-order", "importing failed: %s" % rep["error"], order=str(order), flags=flags)
        if canonical is None:
            canonical = rep["names"]
            for pkg in ("otf", "radiance", "metrics", "simulation"):
                for m in mods:
                    if m.startswith("pybsm.%s." % pkg):
                        for fn in public_functions(ctx.root, m):
                            want = "%s=%s.%s" % (fn, m, fn)
                            has = [x.split("=")[0] for x in canonical["pybsm." + pkg]]
                            ctx.check(fn in has, "import-order", "pybsm.%s does not offer %s" % (pkg, want))
        for m in mods:
            ctx.check(rep["names"].get(m) == canonical.get(m), "import-order", "module %s offers other names in this import order: %s" % (m, sorted(set(rep["names"].get(m) or []) ^ set(canonical.get(m) or []))[:6]), order=str(order))
        ctx.check(not rep["changed"], "import-quiet", "importing changed %s" % rep["changed"])
        ctx.check(not rep["stdout"], "import-quiet", "importing printed %r" % rep["stdout"][:200])
        ctx.check(not rep["touched"], "import-quiet", "importing touched %s" % rep["touched"][:5])
        ctx.check(not rep["changed_by_calls"], "import-quiet", "calls changed %s" % rep["changed_by_calls"])
        for (mod, name, args), got in zip(calls, rep["results"]):
            try:
                with warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    want = ("ok", battery.resolve(mod, name)(*args))
            except Exception as e:
                want = ("raise", type(e).__name__)
            ctx.monitors["same-in-any-interpreter"] += 1
            if got[0] != want[0] or (got[0] == "raise" and got[1] != want[1]):
                ctx.fail("same-in-any-interpreter", "%s with %s gave %s, here %s" % (name, flags, got if got[0] == "raise" else "a result", want if want[0] == "raise" else "a result"))
            if got[0] == "ok":
                compare(ctx, got[1], want[1], "same-in-any-interpreter", "%s with %s" % (name, flags))
    os.remove(os.path.join(scratch, "in.pkl"))


def _names():
    return battery.make(np.random.default_rng(0), ov_mod, "names")


def _calls(ctx, rng, ov, scratch):
    import pybsm.metrics as met
    from pybsm.simulation import Scenario, Sensor

    import matplotlib

    matplotlib.use("Agg")
    import matplotlib.pyplot as plt

    fig = plt.figure()
    plt.plot([1, 2], label="a")
    plt.legend()
    fig.canvas.draw()
    plt.close(fig)
    watch = Watch(scratch)
    names = _names()
    tail = [n for n in names if n in SLOW]
    cheap = [n for n in names if n not in SLOW]
    # everything once, so that lazily imported parts of the libraries are in place
    for n in names:
        name, mod, args = battery.make(rng, ov, n)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            try:
                battery.resolve(mod, name)(*args)
            except Exception:
                pass
    fd0, th0 = descriptors(), threading.active_count()

    def observed(fn, args, name, monitor="no-outside-effects", **kw):
        so, real = io.StringIO(), sys.stdout
        sys.stdout.flush()
        tmp = tempfile.TemporaryFile()
        old = os.dup(1)
        os.dup2(tmp.fileno(), 1)
        sys.stdout = so
        watch.start()
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                out = fn(*args, **kw)
        except Exception as e:
            out = e
        finally:
            watch.stop()
            sys.stdout = real
            sys.stdout.flush()
            os.dup2(old, 1)
            os.close(old)
            tmp.seek(0)
            text = so.getvalue() + tmp.read(2000).decode(errors="replace")
            tmp.close()
        if isinstance(out, Exception):
            ctx.fail("no-exception", "%s raised %s: %s" % (name, type(out).__name__, out))
        ctx.check(not watch.bad, monitor, "%s %s" % (name, "; ".join(watch.bad[:4])))
        ctx.check(not text, "no-output", "%s printed %r" % (name, text[:200]))
        ctx.check(os.getcwd() == os.path.realpath(scratch), monitor, "%s changed the working directory" % name)
        return out

    rounds = ctx.n(10, 80)
    for k in range(rounds):
        if ctx.late(300):
            break
        for n in cheap + ([str(rng.choice(tail))] if k % 2 == 0 else []):
            name, mod, args = battery.make(rng, ov, n)
            ctx.case((name, args), {"call": name})
            observed(battery.resolve(mod, name), args, name)
        if k % 3 == 0:  # plotting draws and nothing else
            while True:
                _, s, sc, interp = battery._niirs_args(rng, Sensor, Scenario, ov)
                break
            m = observed(met.niirs5, (s, sc, interp), "niirs5")
            observed(met.plot_common_MTFs, (m,), "plot_common_MTFs", "plots-quiet")
            observed(met.plot_noise_terms, (m,), "plot_noise_terms", "plots-quiet")
            plt.close("all")
        del args
    gc.collect()
    ctx.check(descriptors() <= fd0 + 3, "no-descriptors", "%d descriptors open before, %d after %d rounds of calls" % (fd0, descriptors(), rounds))
    ctx.check(threading.active_count() <= th0, "no-threads", "%d threads before, %d after" % (th0, threading.active_count()))
    ctx.extra["sum_audit_events"] = watch.events
    ctx.extra["sum_files_read"] = watch.reads
    ctx.extra["sum_distinct_files_read"] = len(watch.files)
    signal.getsignal(signal.SIGINT)
