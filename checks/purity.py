"""C01: purity of every public computational function over histories and schedules.

Oracle: a freshly forked process that has imported the package but never called it evaluates the same
call on the same argument values.  The process under observation runs long mixed histories: argument
arrays and objects are reused with changed contents, earlier results are overwritten by the caller,
calls are repeated, interleaved and run in threads with a very short switch interval.
"""
import os
import pickle
import sys
import threading
import time
import warnings

import numpy as np

try:
    import cv2
except ImportError:
    cv2 = None

from checks.objects import compare
from vlib import battery, core, gen
from vlib import overlay as ov

FIELDS_OK = {"target_reflectance", "target_temperature", "background_reflectance", "background_temperature"}


def fingerprint(args):
    """Cheap in-flight view of shared arguments: identity and scalar state of objects, contents of small arrays."""
    out = []
    for a in args:
        if isinstance(a, np.ndarray):
            out.append(a.tobytes() if a.size <= 400 else (a.shape, a.flags.writeable))
        elif core._is_plain_object(a):
            d = core.public_view(a)
            for k in list(d):
                if k in FIELDS_OK and type(a).__name__ == "Scenario":
                    continue
                v = d.get(k)
                if isinstance(v, np.ndarray):
                    v = (v.shape, v.dtype.str, v.tobytes() if v.size <= 64 else v.ravel()[:: max(1, v.size // 64)].tobytes())
                elif core._is_plain_object(v):
                    v = type(v).__name__
                out.append((k, v))
    return out


class InFlight:
    """Profile hook that re-reads the caller's objects at function calls and returns inside the observed call."""

    def __init__(self, args, every=3):
        self.args, self.n, self.every = args, 0, every
        self.first = fingerprint(args)
        self.bad = None
        self.looks = 0

    def __call__(self, frame, event, arg):
        if self.bad is not None or event not in ("call", "return"):
            return
        self.n += 1
        if self.n > 60 and self.n % self.every:
            return
        if self.looks > 400:
            return
        self.looks += 1
        try:
            now = fingerprint(self.args)
        except Exception:
            return
        if now != self.first:
            d = [b for a, b in zip(self.first, now) if a != b]
            self.bad = "%s in %s: %r" % (event, frame.f_code.co_name, [x[0] if isinstance(x, tuple) else "array" for x in d][:4])


class Yielder:
    """Trace hook for a worker thread: gives up the interpreter at random lines inside the package."""

    def __init__(self, seed, root, rate):
        self.r = np.random.default_rng(seed)
        self.pick = self.r.random(4096) < rate
        self.n = self.yields = 0
        self.root = root

    def __call__(self, frame, event, arg):
        return self.line if frame.f_code.co_filename.startswith(self.root) else None

    def line(self, frame, event, arg):
        self.n += 1
        if self.yields < 600 and self.pick[self.n % 4096]:
            self.yields += 1
            time.sleep(0 if self.n % 3 else 2e-5)
        return self.line


def settings():
    """Process-wide settings a pure function has no business changing."""
    import decimal
    import gc
    import locale
    import logging
    import random

    import matplotlib

    out = {
        "warning filters": [x for x in warnings.filters], "print options": sorted(np.get_printoptions().items(), key=lambda x: x[0]), "working directory": os.getcwd(),
        "environment": dict(os.environ), "Python's random state": hash(random.getstate()), "numpy's error callback": np.geterrcall(), "numpy's buffer size": np.getbufsize(),
        "recursion limit": sys.getrecursionlimit(), "thread switch interval": sys.getswitchinterval(), "garbage collection": gc.isenabled(), "locale": locale.setlocale(locale.LC_ALL),
        "decimal context": (decimal.getcontext().prec, decimal.getcontext().rounding), "logging level": (logging.getLogger().level, logging.root.manager.disable),
        "plot settings": sorted((k, str(v)) for k, v in dict.items(matplotlib.rcParams) if k != "backend"),
    }
    if cv2 is not None:
        out["OpenCV threads"] = cv2.getNumThreads()
        out["OpenCV optimisation"] = cv2.useOptimized()
    return out


def run(mod, name, args, watch=False, er=None):
    fn = battery.resolve(mod, name)
    # np.errstate restores the settings afterwards; "call" would need a handler and "raise" would change the results
    with np.errstate(**(er or dict(all="ignore"))):
        er = np.geterr()
        if watch:
            w = InFlight(args)
            sys.setprofile(w)
        try:
            out = fn(*args)
        finally:
            if watch:
                sys.setprofile(None)
        if np.geterr() != er:
            raise core.CaseError("errstate")
    return (out, w) if watch else (out, None)


def allowed(name, args):
    """Arguments as values that must not change (the NIIRS models may overwrite four scenario fields)."""
    if name != "niirs_with_fields":
        return core.digest(args)
    sc = core.clone(args[2])
    for k in FIELDS_OK:
        setattr(sc, k, 0.0)
    return core.digest((args[0], args[1], sc, args[3]))


def C01(ctx):
    from vlib.pristine import Server

    ctx.rule = "distinct (function, argument values) evaluated after different histories and in threads"
    ctx.required = ["same-as-fresh-process", "args-unchanged", "args-unchanged-in-flight", "random-state-unchanged", "errstate-unchanged", "settings-unchanged", "same-after-change-in-place", "same-after-nearly-equal-call", "repeatable",
                    "unaffected-by-writing-into-results", "thread-result", "thread-args-unchanged", "same-function-threads"]
    rng = ctx.rng
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    warnings.simplefilter("ignore")
    names = battery.make(rng, ov, "names")
    servers = [Server(ctx.root, here, "plain") for _ in range(2)]
    nserve = [0]

    class Raised(Exception):
        pass

    def fresh(mod, name, args, changed=False):
        nserve[0] += 1
        r, meta = servers[nserve[0] % 2].ask(mod, name, args)
        if r[0] == "raise" and changed:
            raise Raised(r[1])  # the change made the call invalid
        if r[0] != "ok":
            ctx.fail("no-exception", "%s failed in a fresh process: %r" % (name, r[1:]), args=args)
        if name != "niirs_with_fields":
            ctx.check(meta["args_same"], "args-unchanged", "%s modified its arguments" % name, args=args)
        if name != "simulate_seeded":
            ctx.check(meta["random_same"], "random-state-unchanged", "%s used numpy's global random state" % name)
        return r[1]

    def observe(mod, name, args, monitor, watch):
        ctx.calls[name] += 1
        ctx.case((name, args), {"call": name, "args": args})
        try:
            want = fresh(mod, name, args, changed=monitor != "same-as-fresh-process")
        except Raised as e:
            try:
                run(mod, name, args)
            except Exception as e2:
                ctx.check(type(e2).__name__ == str(e), monitor, "%s raised %s, but %s in a fresh process" % (name, type(e2).__name__, e), args=args)
                return None
            ctx.fail(monitor, "%s returned after other calls, but raises %s in a fresh process" % (name, e), args=args)
        if rng.random() < 0.3:
            np.random.seed(int(rng.integers(2**31)))
        b, st = allowed(name, args), np.random.get_state()
        er = np.geterr()
        sets = settings()
        try:
            got, w = run(mod, name, args, watch, {k: str(rng.choice(["ignore", "warn"])) for k in ("divide", "over", "under", "invalid")})
        except core.CaseError:
            ctx.fail("errstate-unchanged", "%s left numpy's error settings changed" % name)
        except Exception as e:
            ctx.fail(monitor, "%s raised %s: %s after other calls, but not in a fresh process" % (name, type(e).__name__, e), args=args)
        ctx.check(allowed(name, args) == b, "args-unchanged", "%s modified its arguments" % name, args=args)
        if name != "simulate_seeded":
            st2 = np.random.get_state()
            ctx.check(np.array_equal(st[1], st2[1]) and st[2:] == st2[2:], "random-state-unchanged", "%s used numpy's global random state" % name)
        ctx.check(np.geterr() == er, "errstate-unchanged", "%s left numpy's error settings changed" % name)
        now = settings()
        ctx.check(now == sets, "settings-unchanged", "%s left changed: %s" % (name, [k for k in sets if sets[k] != now[k]]))
        if w is not None:
            ctx.monitors["args-unchanged-in-flight"] += w.looks
            if w.bad:
                ctx.fail("args-unchanged-in-flight", "%s temporarily modifies its arguments (%s): another thread sharing them is affected" % (name, w.bad), args=args)
        compare(ctx, got, want, monitor, name)
        return got, want

    alive = []  # (mod, name, args): argument objects kept and reused
    sequence = {}
    prev = None
    try:
        weights = np.array([0.25 if n in battery.HEAVY else 1.0 for n in names])
        weights /= weights.sum()
        order = list(rng.permutation(names)) if ctx.shard % 2 == 0 else []
        total = ctx.n(170, 1600)
        for i in range(total):
            if i > 60 and ctx.late(240):
                break
            k = rng.random()
            if order or k < 0.45 or not alive:
                name = order.pop() if order else str(rng.choice(names, p=weights))
                name, mod, args = battery.make(rng, ov, str(name))
                monitor = "same-as-fresh-process"
                alive.append((mod, name, args))
                if len(alive) > 40:
                    alive.pop(int(rng.integers(len(alive) - 1)))
            elif k < 0.9:
                # the same objects again after one change
                j = int(rng.integers(len(alive))) if rng.random() < 0.5 else len(alive) - 1
                mod, name, args = alive[j]
                args, what = battery.perturb(rng, args)
                alive[j] = (mod, name, args)
                monitor = "same-after-change-in-place"
            else:
                mod, name, args = alive[int(rng.integers(len(alive)))]
                monitor = "repeatable"
            if prev:
                sequence[(prev, name)] = sequence.get((prev, name), 0) + 1
            prev = name
            r = observe(mod, name, args, monitor, watch=rng.random() < 0.5)
            if r is None:
                alive = [x for x in alive if x[2] is not args]
                continue
            got, want = r
            if rng.random() < 0.5:
                # the caller scribbles over its result, then asks again
                ref = [a for a in core.arrays_in((args,))]
                for a in core.arrays_in(got if not core._is_plain_object(got) else [x for x in core.public_view(got).values() if isinstance(x, np.ndarray)]):
                    if a.flags.writeable and a.size and a.dtype.kind in "fciu" and not any(np.shares_memory(a, b) for b in ref) and name not in ("scenario_atm", "niirs_with_fields", "photon_detector_SNR"):
                        a[...] = 77
                again, _ = run(mod, name, args)
                compare(ctx, again, want, "unaffected-by-writing-into-results", name)
        ctx.extra["sum_call_pairs_in_sequence"] = len(sequence)
        # ---------------------------------------------------------------- nearly equal calls in a row
        light = [n for n in names if n not in battery.HEAVY]
        kinds = {}
        for rd in range(ctx.n(1, 8)):
            for name in rng.permutation(light):
                if ctx.late(330):
                    break
                name, mod, base = battery.make(rng, ov, str(name))
                observe(mod, name, core.clone(base), "same-as-fresh-process", False)
                for j in rng.permutation(40)[:4]:
                    near, what = battery.partner(rng, core.clone(base), int(j), tame=name in battery.NEEDS_CV2)
                    kinds[what] = kinds.get(what, 0) + 1
                    observe(mod, name, near, "same-after-nearly-equal-call", False)
                ctx.monitors["same-after-nearly-equal-call"] += 1
                try:
                    got, _ = run(mod, name, core.clone(base))
                except Exception as e:
                    ctx.fail("repeatable", "%s raised %r when repeated after similar calls" % (name, e), args=base)
                compare(ctx, got, fresh(mod, name, base), "repeatable", name)
        ctx.extra["nearly_equal_kinds"] = {str(k): int(v) for k, v in kinds.items()}
        # ---------------------------------------------------------------- threads
        old = sys.getswitchinterval()
        rounds = 0
        for rd in range(ctx.n(2, 14)):
            if rd and ctx.late(400):
                break
            items = []
            pool = [n for n in names if n not in ("simulate_seeded",)]
            rng.shuffle(pool)
            for name in pool[: 40]:
                name, mod, args = battery.make(rng, ov, str(name))
                items.append((mod, name, args, fresh(mod, name, args)))
                if name not in battery.HEAVY and rng.random() < 0.6:
                    # a variant of the same call with one change, so that crossed results show
                    a2, _ = battery.perturb(rng, core.clone(args))
                    try:
                        items.append((mod, name, a2, fresh(mod, name, a2, changed=True)))
                    except Raised:
                        pass
            # NIIRS models sharing one sensor but not the scenario they overwrite
            _, _, (w1, s, sc, it) = battery.make(rng, ov, "niirs_with_fields")
            s.filter_kernel = gen.kernel(rng)
            shared = []
            for w in ("niirs", "niirs5", "niirs5", "niirs"):
                args = (w, s, core.clone(sc), it)
                shared.append(("vlib.battery", "niirs_with_fields", args, fresh("vlib.battery", "niirs_with_fields", args)))
            items = shared + items
            before = [allowed(n, a) for _, n, a, _ in items]
            plans = []
            for t in range(8):
                idx = [int(x) for x in rng.permutation(len(items)) if items[x][1] not in battery.HEAVY]
                if t < len(shared):
                    idx.insert(int(rng.integers(3)), t)
                plans.append(idx)
            bad = []
            starts = []
            gate = threading.Barrier(8)

            def work(plan):
                try:
                    gate.wait()
                    for x in plan:
                        mod, name, args, want = items[x]
                        starts.append((threading.get_ident(), x))
                        try:
                            out, _ = run(mod, name, args)
                        except Exception as e:
                            bad.append((x, "raised %s: %s" % (type(e).__name__, e), None))
                            return
                        res.append((x, out))
                except Exception as e:
                    bad.append((-1, repr(e), None))

            res = []
            sys.setswitchinterval(1e-6 if rd % 2 == 0 else 1e-4)
            try:
                th = [threading.Thread(target=work, args=(p,)) for p in plans]
                for t in th:
                    t.start()
                for t in th:
                    t.join()
            finally:
                sys.setswitchinterval(old)
            for x, why, _ in bad:
                if x < 0:
                    raise RuntimeError(why)
                ctx.current = {"call": items[x][1], "threads": 8}
                ctx.fail("thread-result", "%s %s when run concurrently" % (items[x][1], why), args=items[x][2])
            for x, out in res:
                ctx.current = {"call": items[x][1], "threads": 8}
                compare(ctx, out, items[x][3], "thread-result", items[x][1] + " (concurrently)")
            for (mod, name, args, _), b in zip(items, before):
                ctx.check(allowed(name, args) == b, "thread-args-unchanged", "%s modified its arguments" % name, args=args)
            switches = sum(1 for a, b in zip(starts, starts[1:]) if a[0] != b[0])
            rounds += 1
            ctx.extra["sum_thread_calls"] = ctx.extra.get("sum_thread_calls", 0) + len(res)
            ctx.extra["sum_observed_thread_switches_between_calls"] = ctx.extra.get("sum_observed_thread_switches_between_calls", 0) + switches
            ctx.extra["functions"] = len(names)
        # ---------------------------------------------------------------- one function in all threads
        root = os.path.join(ctx.root, "src") if os.path.isdir(os.path.join(ctx.root, "src")) else ctx.root
        for rd in range(ctx.n(1, 6)):
            for name in rng.permutation(light):
                if ctx.late(600) and ctx.monitors["same-function-threads"]:
                    break
                name, mod, base = battery.make(rng, ov, str(name))
                items = [(base, fresh(mod, name, base))]
                for _ in range(12):
                    if len(items) == 4:
                        break
                    near, _ = battery.partner(rng, core.clone(base), None, tame=True)
                    try:
                        items.append((near, fresh(mod, name, near, changed=True)))
                    except Raised:
                        pass
                res, bad = [], []
                gate = threading.Barrier(4)

                def same(t, tracer):
                    try:
                        gate.wait()
                        sys.settrace(tracer)
                        for x in range(3 * len(items)):
                            args, want = items[(x + t) % len(items)]
                            out, _ = run(mod, name, args)
                            res.append(((x + t) % len(items), out))
                    except Exception as e:
                        bad.append("%s: %s" % (type(e).__name__, e))
                    finally:
                        sys.settrace(None)

                tracers = [Yielder(int(rng.integers(2**31)), root, (0.1, 0.5)[t % 2]) for t in range(4)]
                before = [allowed(name, a) for a, _ in items]
                sys.setswitchinterval(1e-6)
                try:
                    th = [threading.Thread(target=same, args=(t, tracers[t])) for t in range(4)]
                    for t in th:
                        t.start()
                    for t in th:
                        t.join()
                finally:
                    sys.setswitchinterval(old)
                ctx.current = {"call": name, "threads": 4}
                ctx.check(not bad, "same-function-threads", "%s raised when run by four threads at once: %s" % (name, bad[:1]), args=base)
                for x, out in res:
                    compare(ctx, out, items[x][1], "same-function-threads", name + " (run by four threads at once)")
                for (a, _), b in zip(items, before):
                    ctx.check(allowed(name, a) == b, "thread-args-unchanged", "%s modified its arguments" % name, args=a)
                ctx.extra["sum_yields_injected_inside_functions"] = ctx.extra.get("sum_yields_injected_inside_functions", 0) + sum(t.yields for t in tracers)
    finally:
        for s in servers:
            s.close()
