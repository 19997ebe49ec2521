#!/opt/venv/bin/python
"""Run one property's monitors.  exit 0 held, 1 violation, 3 inconclusive."""
import argparse
import importlib
import json
import os
import subprocess
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
os.environ.setdefault("PYTHONDONTWRITEBYTECODE", "1")
for k in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ.setdefault(k, "1")
os.environ["MPLBACKEND"] = "Agg"

MODULES = {}
for name, ids in {"otfs": "06 07 08 09 10 11 12 13 14 17", "atmos": "02 03 04 05", "rad": "18 19 20 21 22",
                  "quality": "23 24 25 33", "image": "15 16 26 27 28 29", "objects": "30 31 32", "purity": "01", "degenerate": "34", "process": "35 36", "laws": "37 38"}.items():
    for i in ids.split():
        MODULES["C" + i] = name
NEED_DB = {"C01", "C28",  "C02", "C03", "C04", "C25", "C26", "C27", "C29", "C31", "C32", "C33", "C34", "C35", "C36", "C37"}
SHARDS_QUICK = {"C02": 4, "C03": 4, "C04": 4, "C26": 8, "C27": 7, "C14": 6, "C25": 6, "C33": 6, "C01": 6}
SHARDS_THOROUGH = 8


def load_known(prop):
    out = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("finding:"):
                kv = dict(x.split("=", 1) for x in line[8:].split()[:2])
                if kv.get("property") == prop:
                    out.append(kv["key"])
    return out


def _public_of_pybsm(e):
    """A public attribute that an object of the code under test lacks."""
    o = getattr(e, "obj", None)
    mod = getattr(o, "__name__", "") if type(o).__name__ == "module" else getattr(type(o), "__module__", "")
    return "pybsm" in str(e) or (str(mod).split(".")[0] == "pybsm" and not str(getattr(e, "name", "_")).startswith("_"))


def run_shard(prop, seed, tier, shard, out):
    import resource

    # a runaway allocation ends as MemoryError in the call that asked for it
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    import numpy as np

    from vlib import core, overlay

    repo = os.environ.get("PYBSM_REPO", "/repo")
    if prop in NEED_DB:
        root = overlay.build()
    else:
        root = os.path.join(repo, "src")
    sys.path.insert(0, root)
    ctx = core.Ctx(prop, seed, tier, overlay)
    ctx.rng = np.random.default_rng([seed, int(prop[1:]), shard])
    ctx.mrng = np.random.default_rng([seed, int(prop[1:]), shard, 7])
    ctx.shard = shard
    ctx.shards = SHARDS_QUICK.get(prop, 4) if tier == "quick" else SHARDS_THOROUGH
    ctx.root = root
    ctx.known_listed = load_known(prop)
    res = {"violation": None, "error": None}
    t0 = time.time()
    try:
        mod = importlib.import_module("checks." + MODULES[prop])
        try:
            import pybsm

            if not os.path.realpath(pybsm.__file__).startswith(os.path.realpath(root)):
                raise RuntimeError("imported pybsm from %s, not from the tree under test" % pybsm.__file__)
            for sub in ("otf", "radiance", "metrics", "simulation", "geospatial", "noise", "utils"):
                importlib.import_module("pybsm." + sub)
        except (ImportError, SyntaxError, AttributeError, NameError) as e:
            ctx.fail("import", "the package cannot be imported: %r" % (e,), traceback=traceback.format_exc()[-1500:])
        getattr(mod, prop)(ctx)
        ctx.finish_history()
    except core.Violation as v:
        res["violation"] = str(v)
    except Exception:
        tb = traceback.format_exc()
        # an exception that surfaced from the code under test outside an observed call is also its failure
        frames = traceback.extract_tb(sys.exc_info()[2])
        if frames and any(os.path.realpath(f.filename).startswith(os.path.realpath(os.path.join(root, "pybsm"))) for f in frames):
            res["violation"] = json.dumps({"monitor": "no-exception", "message": tb[-2500:], "case": core.brief(ctx.current), "details": {}})
        elif frames and isinstance(sys.exc_info()[1], AttributeError) and _public_of_pybsm(sys.exc_info()[1]):
            res["violation"] = json.dumps({"monitor": "public-interface", "message": tb[-2500:], "case": core.brief(ctx.current), "details": {}})
        else:
            res["error"] = tb
    ev = ctx.evidence("exploration", time.time() - t0, 1 if res["violation"] else 0)
    res["evidence"] = ev
    res["required"] = list(ctx.required)
    res["known"] = ctx.known_hit
    res["known_text"] = getattr(ctx, "known_text", [])
    res["keys"] = [k.hex() for k in ctx.distinct]
    with open(out, "w") as f:
        json.dump(res, f)


def merge(results):
    base = results[0]["evidence"]
    cov = base["coverage"]
    keys = set()
    for r in results:
        keys.update(r["keys"])
    for r in results[1:]:
        c = r["evidence"]["coverage"]
        cov["evaluations"] += c["evaluations"]
        for k in ("monitor_observations", "observed_calls"):
            for n, v in c[k].items():
                cov[k][n] = cov[k].get(n, 0) + v
        for n, v in c.items():
            if n not in cov:
                cov[n] = v
            elif n.startswith("sum_"):
                cov[n] += v
            elif n in ("single_field_changes", "changes_between_simulations"):
                for k, m in v.items():
                    cov[n][k] = cov[n].get(k, 0) + m
    cov["distinct_nontrivial"] = len(keys)
    cov["shards"] = len(results)
    cov["samples"] = (cov["samples"] + [s for r in results[1:] for s in r["evidence"]["coverage"]["samples"][:3]])[:16]
    return base


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--property", required=True)
    ap.add_argument("--tier", default=None)
    ap.add_argument("--seed", type=int, default=None)
    ap.add_argument("--shard", type=int, default=None)
    ap.add_argument("--out", default=None)
    ap.add_argument("--replay", default=None)
    ap.add_argument("--verbose", action="store_true")
    a = ap.parse_args()
    prop = a.property
    only = None
    if a.replay:
        with open(a.replay) as f:
            r = json.load(f)
        a.seed, a.tier, only = r["seed"], r["tier"], r["shard"]
    seed = a.seed if a.seed is not None else int(os.environ.get("VERIF_SEED", "1") or 1)
    tier = a.tier or os.environ.get("VERIF_TIER") or "quick"
    if tier not in ("quick", "thorough"):
        tier = "quick"
    if a.shard is not None:
        run_shard(prop, seed, tier, a.shard, a.out)
        return 0
    t0 = time.time()
    n = SHARDS_QUICK.get(prop, 4) if tier == "quick" else SHARDS_THOROUGH
    shards = [only] if only is not None else list(range(n))
    tmp = tempfile.mkdtemp(prefix="pybsm-check-")
    results = []
    try:
        procs = []
        for k in shards:
            o = os.path.join(tmp, "%d.json" % k)
            procs.append((k, o, subprocess.Popen([sys.executable, os.path.abspath(__file__), "--property", prop, "--tier", tier, "--seed", str(seed),
                                                  "--shard", str(k), "--out", o], cwd=tmp, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)))
        for k, o, p in procs:
            log = p.communicate()[0].decode(errors="replace")
            if os.path.exists(o):
                with open(o) as f:
                    r = json.load(f)
            else:
                r = {"violation": None, "error": "shard %d ended with %s\n%s" % (k, p.returncode, log[-3000:]), "evidence": None, "keys": [], "known": [], "known_text": []}
                if p.returncode and p.returncode < 0:
                    r["error"] = None
                    r["violation"] = json.dumps({"monitor": "no-crash", "message": "the process running the code was killed by signal %d" % -p.returncode, "case": None, "details": {}})
                    if p.returncode in (-9, -15):
                        r["error"], r["violation"] = "killed by signal %d" % -p.returncode, None
            r["shard"] = k
            if a.verbose and log:
                sys.stderr.write(log)
            results.append(r)
    finally:
        import shutil

        shutil.rmtree(tmp, ignore_errors=True)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    bad = [r for r in results if r["violation"]]
    err = [r for r in results if r["error"]]
    good = [r for r in results if r["evidence"]]
    seen = set()
    for r in results:
        for key, text in r["known_text"]:
            if key not in seen:
                seen.add(key)
                print("KNOWN-FINDING: property=%s %s" % (prop, text))
    if good:
        ev = merge(good)
        if not err and not bad and only is None:
            seen_m = ev["coverage"]["monitor_observations"]
            idle = sorted({m for r in good for m in r["required"] if not seen_m.get(m)})
            if idle:
                err = [{"error": "monitors observed nothing: %s" % ", ".join(idle)}]
        ev["wall_s"] = round(time.time() - t0, 3)
        ev["violations"] = len(bad)
        with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
    if bad:
        r = bad[0]
        rp = os.path.join(HERE, "evidence", prop + "-violation.json")
        with open(rp, "w") as f:
            json.dump({"property": prop, "seed": seed, "tier": tier, "shard": r["shard"], "violation": json.loads(r["violation"]),
                       "how": "check.py --property %s --replay <this file>" % prop}, f, indent=1)
        d = json.loads(r["violation"])
        print("%s: %s" % (d["monitor"], str(d["message"])[-1500:]))
        print("VIOLATION property=%s replay=%s" % (prop, rp))
        return 1
    if err:
        print("INCONCLUSIVE property=%s" % prop)
        print(err[0]["error"][-3000:])
        return 3
    print("OK property=%s evaluations=%d distinct=%d wall=%.1fs" % (prop, ev["coverage"]["evaluations"], ev["coverage"]["distinct_nontrivial"], time.time() - t0))
    return 0


if __name__ == "__main__":
    sys.exit(main())
