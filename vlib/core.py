"""Monitoring core: observed calls, purity monitor, comparison oracles, evidence, verdicts."""
import collections
import functools
import hashlib
import json
import os
import sys
import time
import traceback
import warnings

import numpy as np

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Violation(Exception):
    pass


class CaseError(Exception):
    """The harness (not the code under test) is at fault."""


# ------------------------------------------------------------------ snapshots
def _is_plain_object(x):
    return hasattr(x, "__dict__") and type(x).__module__.split(".")[0] == "pybsm"


def public_view(x):
    """Observable state of an object: public attributes and properties (the lazily loaded atmosphere apart).

    Private attributes are left out, whatever they are called: they may hold lazily filled caches.
    """
    out = {k: v for k, v in vars(x).items() if not k.startswith("_") and k != "atm"}
    for c in type(x).__mro__:
        for k, v in vars(c).items():
            if isinstance(v, functools.cached_property):
                out.pop(k, None)
            elif isinstance(v, property) and not k.startswith("_") and k != "atm" and k not in out:
                try:
                    out[k] = getattr(x, k)
                except Exception:
                    pass
    return out


def digest(x, _depth=0):
    """Value digest of arguments/results: equal values <=> equal digests (bitwise)."""
    h = hashlib.blake2b(digest_size=16)
    _feed(h, x, 0, {})
    return h.digest()


def _feed(h, x, depth, seen):
    if depth > 8:
        return
    if isinstance(x, np.ndarray):
        h.update(("A%s%s" % (x.dtype.str, x.shape)).encode())
        if x.dtype == object:
            for e in x.ravel():
                _feed(h, e, depth + 1, seen)
        else:
            h.update(np.ascontiguousarray(x).tobytes())
    elif isinstance(x, (np.generic,)):
        h.update(("G%s" % x.dtype.str).encode() + x.tobytes())
    elif isinstance(x, (int, float, complex, str, bool, type(None))):
        h.update(("P%s:%r" % (type(x).__name__, x)).encode())
    elif isinstance(x, (list, tuple)):
        h.update(("L%s%d" % (type(x).__name__, len(x))).encode())
        for e in x:
            _feed(h, e, depth + 1, seen)
    elif isinstance(x, dict):
        h.update(("D%d" % len(x)).encode())
        for k in sorted(x, key=repr):
            h.update(repr(k).encode())
            _feed(h, x[k], depth + 1, seen)
    elif callable(x) and not _is_plain_object(x):
        h.update(b"F")
    elif _is_plain_object(x):
        if id(x) in seen:
            return
        seen[id(x)] = 1
        h.update(("O" + type(x).__name__).encode())
        for k, v in sorted(public_view(x).items()):
            h.update(k.encode())
            _feed(h, v, depth + 1, seen)
    else:
        h.update(repr(type(x)).encode())


def clone(x):
    """Deep copy of arguments, keeping array layout irrelevant but values and dtypes equal."""
    if isinstance(x, np.ndarray):
        return x.copy()
    if isinstance(x, tuple):
        return tuple(clone(e) for e in x)
    if isinstance(x, list):
        return [clone(e) for e in x]
    if isinstance(x, dict):
        return {k: clone(v) for k, v in x.items()}
    if _is_plain_object(x):
        y = object.__new__(type(x))
        for k, v in vars(x).items():
            y.__dict__[k] = clone(v)
        return y
    return x


def arrays_in(x, depth=0):
    if isinstance(x, np.ndarray):
        yield x
    elif isinstance(x, (list, tuple)):
        for e in x:
            yield from arrays_in(e, depth + 1)
    elif _is_plain_object(x) and depth < 4:
        for v in vars(x).values():
            yield from arrays_in(v, depth + 1)


def leaves(x, path="", depth=0):
    """Flatten a result into (path, ndarray/scalar/other) pairs."""
    if isinstance(x, (np.ndarray, np.generic, int, float, complex)):
        yield path, x
    elif isinstance(x, (list, tuple)):
        for i, e in enumerate(x):
            yield from leaves(e, "%s[%d]" % (path, i), depth + 1)
    elif _is_plain_object(x) and depth < 5:
        for k, v in sorted(vars(x).items()):
            if not k.startswith("_"):
                yield from leaves(v, path + "." + k, depth + 1)
    else:
        yield path, x


def brief(x, n=6):
    """Short JSON-able description of a value."""
    if isinstance(x, np.ndarray):
        f = x.ravel()
        return {"shape": list(x.shape), "dtype": str(x.dtype), "head": [brief(v) for v in f[:n]]}
    if isinstance(x, np.generic):
        return brief(x.item())
    if isinstance(x, complex):
        return [x.real, x.imag]
    if isinstance(x, (int, float, str, bool, type(None))):
        return x if not (isinstance(x, float) and not np.isfinite(x)) else repr(x)
    if isinstance(x, (list, tuple)):
        return [brief(e, n) for e in list(x)[:12]]
    if isinstance(x, dict):
        return {str(k): brief(v, n) for k, v in list(x.items())[:40]}
    if _is_plain_object(x):
        return {"<%s>" % type(x).__name__: {k: brief(v, 3) for k, v in list(public_view(x).items())[:60]}}
    return repr(x)[:200]


class Expected:
    """Result of an observed call that raised an expected exception."""

    def __init__(self, exc):
        self.exc = exc


# the quick tier of cheap checks runs this many times their basic number of cases
QUICK_TIMES = {i: 3 for i in "C05 C06 C07 C08 C10 C11 C15 C16 C17 C18 C19 C20 C21 C22 C23 C24 C28 C29 C30".split()}
QUICK_TIMES.update({"C09": 2, "C12": 2, "C14": 2, "C32": 2, "C34": 2})


class Ctx:
    def __init__(self, prop, seed, tier, overlay=None):
        self.prop = prop
        self.seed = seed
        self.tier = tier
        self.overlay = overlay
        self.rng = np.random.default_rng([seed, int(prop[1:])])
        self.mrng = np.random.default_rng([seed, int(prop[1:]), 0, 7])  # the monitor's own draws: the workload does not depend on them
        self.t0 = time.time()
        self.monitors = collections.Counter()
        self.calls = collections.Counter()
        self.evals = 0
        self.distinct = set()
        self.samples = []
        self.rule = ""
        self.assumptions = []
        self.required = []
        self.known_listed = []
        self.known_hit = []
        self.known_text = []
        self.history = []  # reservoir of (name, fn, args, kw, result-clone)
        self.replay_rate = 0.05
        self.again_rate = 0.10
        self.retype_rate = 0.08
        self.decoy_rate = 0.25
        self.decoying = False
        self.no_decoy = {"simulate_image", "niirs", "niirs5", "common_OTFs", "show", "RefImage.show", "plot_common_MTFs", "plot_noise_terms"}
        self.current = None
        self.extra = {}
        self.started = time.time()

    # ------------------------------------------------------------- sizes
    def n(self, quick, thorough=None):
        if self.tier == "thorough":
            return int(thorough if thorough is not None else quick * 10)
        most = thorough if thorough is not None else quick * 10
        return int(max(quick, min(quick * QUICK_TIMES.get(self.prop, 1), most)))

    def late(self, seconds):
        """The quick tier stops adding cases on a machine so slow that it would not finish in time."""
        return self.tier == "quick" and time.time() - self.started > seconds

    # ------------------------------------------------------------- cases
    def case(self, key, desc=None, nontrivial=True):
        """Count one evaluated case. key: hashable identity."""
        self.evals += 1
        self.current = desc if desc is not None else key
        if nontrivial:
            k = key if isinstance(key, bytes) else digest(key)
            if k not in self.distinct:
                self.distinct.add(k)
                # keep a spread of samples
                m = len(self.distinct)
                if m <= 3 or (len(self.samples) < 12 and (m & (m - 1)) == 0):
                    self.samples.append(brief(desc if desc is not None else key))

    # ------------------------------------------------------------- verdicts
    def fail(self, monitor, msg, **details):
        raise Violation(json.dumps({"monitor": monitor, "message": msg, "case": brief(self.current),
                                    "details": {k: brief(v) for k, v in details.items()}}))

    def check(self, cond, monitor, msg, **details):
        self.monitors[monitor] += 1
        if not bool(cond):
            self.fail(monitor, msg, **details)

    def close(self, got, want, monitor, rtol=1e-9, atol=0.0, shape=True, **details):
        """Elementwise comparison, nan/inf sensitive. atol may be an array."""
        self.monitors[monitor] += 1
        try:
            g = np.asarray(got)
            w = np.asarray(want)
        except Exception as e:  # ragged
            self.fail(monitor, "result is not an array: %r" % (e,), got=got)
        if g.dtype == object:
            self.fail(monitor, "result is not numeric", got=repr(got)[:200])
        if shape and g.shape != w.shape:
            self.fail(monitor, "shape %s, expected %s" % (g.shape, w.shape), got=g, want=w, **details)
        try:
            with np.errstate(all="ignore"):
                err = np.abs(g - w)
                tol = rtol * np.abs(w) + atol
                ok = (err <= tol) | (np.isnan(g) & np.isnan(w)) | (g == w)
        except ValueError as e:
            self.fail(monitor, "not comparable: %s" % e, got=g, want=w, **details)
        if not np.all(ok):
            bad = np.argwhere(~np.atleast_1d(ok))
            i = tuple(bad[0])
            gg = np.broadcast_to(np.atleast_1d(g), np.atleast_1d(ok).shape)[i]
            ww = np.broadcast_to(np.atleast_1d(w), np.atleast_1d(ok).shape)[i]
            worst = np.nanmax(np.atleast_1d(err)[~np.atleast_1d(ok)]) if np.any(np.isfinite(np.atleast_1d(err)[~np.atleast_1d(ok)])) else np.nan
            self.fail(monitor, "got %r, expected %r at index %s (%d of %d elements differ, worst abs error %g)"
                      % (gg, ww, i, len(bad), np.atleast_1d(ok).size, worst), got=g, want=w, **details)

    # ------------------------------------------------------------- observed calls
    def call(self, fn, *args, raises=None, pure=True, replay=True, name=None, **kw):
        """Run code under test at its public boundary under the purity monitor."""
        name = name or getattr(fn, "__name__", str(fn))
        self.calls[name] += 1
        before = digest((args, kw)) if pure else None
        if pure:
            rs = np.random.get_state()
            rs = (rs[1].tobytes(), rs[2], rs[3], rs[4])
            er = np.geterr()
            if name not in self.no_decoy and self.mrng.random() < self.decoy_rate:
                self._decoy(name, fn, args, kw)
        keep = None
        want_hist = pure and replay and raises is None
        r1 = self.mrng.random()
        r2 = self.mrng.random()
        r3 = self.mrng.random()
        if want_hist and (r1 < self.again_rate or r2 < self.replay_rate or r3 < self.retype_rate):
            keep = (clone(args), clone(kw))
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                out = fn(*args, **kw)
        except Violation:
            raise
        except Exception as e:
            if raises is not None and isinstance(e, raises):
                self.monitors["expected-exception"] += 1
                if pure:
                    self._purity(name, before, args, kw, rs, er)
                return Expected(e)
            self.fail("no-exception", "%s raised %s: %s" % (name, type(e).__name__, e),
                      args=args, kw=kw, traceback=traceback.format_exc()[-1500:])
        if raises is not None:
            self.monitors["expected-exception"] += 1
            self.fail("expected-exception", "%s returned instead of raising %s" % (name, raises), args=args, kw=kw, out=out)
        if callable(out) or (out is None and str(getattr(fn, "__module__", "")).startswith("pybsm.") and not any(k in name for k in ("plot", "show", "__"))):
            self.fail("no-exception", "%s returned %r" % (name, out), args=args, kw=kw)
        if pure:
            self._purity(name, before, args, kw, rs, er)
        if keep is not None:
            if r1 < self.again_rate:
                self._again(name, fn, keep, out)
            if r3 < self.retype_rate:
                self._retyped(name, fn, keep, out)
            if r2 < self.replay_rate:
                self._remember(name, fn, keep, out)
        if self.history and pure and self.mrng.random() < self.replay_rate:
            self.replay_one()
        return out

    def _decoy(self, name, fn, args, kw):
        """A nearly equal call just before the observed one: state kept under too coarse a key then reaches the observed result."""
        from vlib import battery

        t = time.time()
        restore = []
        try:
            if self.mrng.random() < 0.5:
                # the very same objects, with other contents for the moment
                for a in args:
                    if isinstance(a, np.ndarray) and a.flags.writeable and a.dtype.kind == "f" and a.size:
                        restore.append((a, a.copy()))
                if not restore or len(restore) != sum(isinstance(a, np.ndarray) or _is_plain_object(a) for a in args):
                    restore = []
                    a2 = battery.partner(self.mrng, clone(args), tame=name in battery.NEEDS_CV2)[0]
                else:
                    a2 = battery.partner(self.mrng, args, tame=name in battery.NEEDS_CV2)[0]
            else:
                a2 = battery.partner(self.mrng, clone(args), tame=name in battery.NEEDS_CV2)[0]
            st = np.random.get_state()
            self.decoying = True
            with warnings.catch_warnings(), np.errstate(all="ignore"):
                warnings.simplefilter("ignore")
                try:
                    fn(*a2, **clone(kw))
                    self.monitors["decoy-calls"] += 1
                except Exception:
                    self.monitors["decoy-calls-raised"] += 1
            np.random.set_state(st)
        finally:
            self.decoying = False
            for a, b in restore:
                a[...] = b
        if time.time() - t > 0.25:
            self.no_decoy.add(name)

    def _purity(self, name, before, args, kw, rs, er):
        self.monitors["args-unchanged"] += 1
        if digest((args, kw)) != before:
            self.fail("args-unchanged", "%s modified its arguments" % name, args=args, kw=kw)
        n = np.random.get_state()
        if (n[1].tobytes(), n[2], n[3], n[4]) != rs:
            self.fail("random-state-unchanged", "%s consumed or reseeded numpy's global random state" % name)
        if np.geterr() != er:
            self.fail("errstate-unchanged", "%s left numpy's error settings changed" % name, before=er, after=np.geterr())

    def _again(self, name, fn, keep, out):
        """Same values again, after the first result has been overwritten by the caller."""
        ref = clone(out)
        args, kw = clone(keep)
        if not _is_plain_object(out) and not any(np.shares_memory(a, b) for a in arrays_in(out) for b in arrays_in((keep,))):
            pass
        second = fn(*args, **kw)
        self.same(second, ref, "repeatable", name)
        # scribble over what the caller got back (not over anything aliasing arguments)
        argarr = list(arrays_in((args, kw)))
        for a in arrays_in(second):
            if a.flags.writeable and a.size and a.dtype.kind in "fciu" and not any(np.shares_memory(a, b) for b in argarr):
                if _is_plain_object(second):
                    continue
                a[...] = 77 if a.dtype.kind in "iu" else np.nan
        args, kw = clone(keep)
        third = fn(*args, **kw)
        self.same(third, ref, "unaffected-by-writing-into-results", name)

    PIXELS = ("apply_otf_to_image", "resample_2D", "RefImage", "simulate", "metrics_for", "plot", "img_", "filter2D", "stretch", "noise")

    def _retype(self, x, depth=0):
        """The same numbers as another kind of number: ints for whole floats, NumPy scalars, other memory layouts."""
        k = self.mrng.random()
        if isinstance(x, bool) or x is None:
            return x
        if type(x) in (float, np.float64):
            if float(x).is_integer() and abs(x) < 1e9 and k < 0.7:
                return int(x) if k < 0.5 else np.int64(x)
            return np.float64(x) if k < 0.85 else float(x)
        if isinstance(x, np.ndarray) and x.ndim and x.dtype == np.float64 and x.size:
            if k < 0.6 and np.all(np.abs(x) < 1e6) and np.all(x == np.round(x)):
                return x.astype(int)
            if k < 0.3:
                return np.asfortranarray(x)
            if k < 0.6:
                return np.repeat(x, 2, axis=-1)[..., ::2]
            if k < 0.8:
                x = x.copy()
                x.flags.writeable = False
                return x
            return x[::-1].copy()[::-1]
        if depth == 0 and _is_plain_object(x) and type(x).__name__ in ("Sensor", "Scenario"):
            for n, v in list(vars(x).items()):
                if isinstance(v, (float, np.ndarray)) and self.mrng.random() < 0.5 and n not in ("_atm",):
                    x.__dict__[n] = self._retype(v, 1)
            return x
        return x

    def _retyped(self, name, fn, keep, out):
        if any(p in name for p in self.PIXELS) or not isinstance(out, (np.ndarray, np.generic, float, int, tuple)):
            return
        args, kw = clone(keep)
        args = tuple(self._retype(a) for a in args)
        kw = {k: self._retype(v) for k, v in kw.items()}
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                got = fn(*args, **kw)
        except Exception as e:
            self.fail("same-for-other-number-types", "%s raised %s: %s when the same numbers came as other types" % (name, type(e).__name__, e), args=args, kw=kw)
        self.monitors["same-for-other-number-types"] += 1
        for (p, x), (_, y) in zip(leaves(got), leaves(out)):
            if isinstance(x, (np.ndarray, np.generic, int, float, complex)) and isinstance(y, (np.ndarray, np.generic, int, float, complex)):
                x, y = np.asarray(x), np.asarray(y)
                if x.dtype == object or y.dtype == object or x.dtype.kind not in "fciub" or y.dtype.kind not in "fciub":
                    continue
                if x.shape != y.shape:
                    self.fail("same-for-other-number-types", "%s%s: shape %s instead of %s" % (name, p, x.shape, y.shape), args=args, kw=kw)
                with np.errstate(all="ignore"):
                    fin = np.abs(y[np.isfinite(y)]) if y.ndim else np.abs(y[None][np.isfinite(y[None])])
                    lim = 1e-7 * np.abs(y) + 1e-9 * (fin.max() if fin.size else 0) + 1e-300
                    ok = (x == y) | ((x != x) & (y != y)) | (np.abs(x - y) <= lim)
                if not np.all(ok):
                    i = tuple(np.argwhere(~np.atleast_1d(ok))[0])
                    self.fail("same-for-other-number-types", "%s%s: the same numbers in other types gave %r, not %r" % (name, p, np.atleast_1d(x)[i], np.atleast_1d(y)[i]), args=args, kw=kw)

    def same(self, got, want, monitor, name):
        a = list(leaves(got))
        b = list(leaves(want))
        self.monitors[monitor] += 1
        if [p for p, _ in a] != [p for p, _ in b]:
            self.fail(monitor, "%s: results have different structure" % name)
        for (p, x), (_, y) in zip(a, b):
            if isinstance(x, (np.ndarray, np.generic, int, float, complex)) and isinstance(y, (np.ndarray, np.generic, int, float, complex)):
                x = np.asarray(x)
                y = np.asarray(y)
                if x.dtype == object or y.dtype == object:
                    continue
                if x.shape != y.shape:
                    self.fail(monitor, "%s%s: shape changed from %s to %s" % (name, p, y.shape, x.shape))
                with np.errstate(all="ignore"):
                    ok = (x == y) | ((x != x) & (y != y)) | (np.abs(x - y) <= 1e-12 * np.abs(y) + 1e-300) if x.dtype.kind in "fciub" else np.array(True)
                if not np.all(ok):
                    i = tuple(np.argwhere(~np.atleast_1d(ok))[0])
                    self.fail(monitor, "%s%s: the same call gave a different result: %r then %r" % (name, p, np.atleast_1d(y)[i], np.atleast_1d(x)[i]))

    def _remember(self, name, fn, keep, out):
        item = (name, fn, keep, clone(out))
        if len(self.history) < 24:
            self.history.append(item)
        else:
            self.history[int(self.mrng.integers(len(self.history)))] = item

    def replay_one(self):
        name, fn, keep, ref = self.history[int(self.mrng.integers(len(self.history)))]
        args, kw = clone(keep)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            try:
                out = fn(*args, **kw)
            except Exception as e:
                self.fail("history-independent", "%s: repeating an earlier call raised %r" % (name, e), args=args)
        self.same(out, ref, "history-independent", name)

    def finish_history(self):
        for i in range(len(self.history)):
            name, fn, keep, ref = self.history[i]
            args, kw = clone(keep)
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                out = fn(*args, **kw)
            self.same(out, ref, "history-independent", name)

    # ------------------------------------------------------------- known findings
    def known(self, key, text):
        """True when the failing mechanism `key` is a listed known finding of this property."""
        if key in self.known_listed:
            if key not in self.known_hit:
                self.known_hit.append(key)
                self.known_text.append((key, text))
            return True
        return False

    # ------------------------------------------------------------- evidence
    def evidence(self, level, wall, violations):
        cov = {
            "evaluations": int(self.evals),
            "distinct_nontrivial": len(self.distinct),
            "rule": self.rule,
            "samples": self.samples[:12],
            "monitor_observations": {k: int(v) for k, v in sorted(self.monitors.items())},
            "observed_calls": {k: int(v) for k, v in sorted(self.calls.items())},
        }
        cov.update(self.extra)
        return {"property": self.prop, "tier": self.tier, "seed": int(self.seed), "level": level,
                "coverage": cov, "assumptions": self.assumptions, "wall_s": round(wall, 3), "violations": int(violations)}
