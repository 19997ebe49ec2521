"""C02..C05: atmosphere database, scenario cache, geometry."""
import copy

import numpy as np

from vlib import gen, ref
from vlib import overlay as ov

TOL = 1e-6  # single-precision records


def same_record(ctx, got, want, monitor, **d):
    got = np.asarray(got)
    ctx.check(got.shape == (ov.NW, 6), monitor, "table shape %s" % (got.shape,), **d)
    ctx.close(got[:, 0], want[:, 0], monitor + "-wavelengths", rtol=1e-11, **d)
    ctx.close(got[:, 1], want[:, 1], monitor + "-transmission", rtol=2e-7, **d)
    ctx.close(got[:, 2:], want[:, 2:], monitor + "-radiance", rtol=TOL, **d)


def vary_type(rng, x):
    k = rng.random()
    if float(x).is_integer() and k < 0.3:
        return int(x)
    if k < 0.4:
        return np.float64(x)
    return float(x)


def C02(ctx):
    from pybsm import utils

    idx = ov.expected_index()
    ctx.rule = "distinct (altitude, range, haze) requests; documented ones are compared with their own record"
    ctx.required = ["record-wavelengths", "record-transmission", "record-radiance", "expected-exception"]
    rng = ctx.rng
    keys = sorted(idx)
    nsh = 8 if ctx.tier == "thorough" else 4
    mine = keys[ctx.shard::nsh]
    rng.shuffle(mine)
    ctx.extra["documented_conditions"] = len(keys)
    f = utils.load_database_atmosphere_no_interp
    ctx.again_rate, ctx.replay_rate = 0.02, 0.02
    seen = 0
    for j, key in enumerate(mine):
        alt, rg, hz = key
        ctx.case((alt, rg, hz), {"altitude": alt, "range": rg, "haze": hz})
        out = ctx.call(f, vary_type(rng, alt), vary_type(rng, rg), hz if rng.random() < 0.9 else float(hz))
        same_record(ctx, out, ov.atm_record(idx[tuple(key)]), "record", condition=list(key))
        seen += 1
        if j % 6 == 0:
            k = int(rng.integers(12))
            hor = ref.RE * np.arccos(ref.RE / (ref.RE + alt))
            if k == 0:
                q = (alt * (1 + float(rng.choice([1e-6, -1e-6, 1e-3, 0.3]))), rg, hz)
            elif k == 1:
                q = (alt, rg + float(rng.choice([1.0, 50.0, 333.0, 0.001])), hz)
            elif k == 2:
                q = (alt, rg, int(rng.choice([0, 3, -1, 12])))
            elif k == 3:
                q = (alt, float(ov.RANGES_KM[int(rng.integers(len(ov.RANGES_KM)))]) * 1e3 + hor * 1.01 + 305e3, hz)
            elif k == 4:
                over = [r * 1e3 for r in ov.RANGES_KM if r * 1e3 > hor]
                q = (alt, over[0], hz) if over and alt <= 24500 else (alt, 305e3, hz)
            elif k == 5:
                q = (alt / 1e3, rg / 1e3 + 1e-4, hz)  # kilometres by mistake
            elif k == 6:
                q = (550e3, 1000.0, hz)
            elif k == 7:
                q = (alt, -rg if rg else -float(rng.choice([100.0, 500.0, 1000.0])), hz)
            elif k == 8:
                q = (-alt, rg, hz)
            elif k == 9:
                q = (alt, rg, float(rng.choice([0.5, 0.999, 1.5, 1.001, 2.4, -1.0, -2.0])))
            elif k == 10:
                q = [(float("nan"), rg, hz), (alt, float("nan"), hz), (alt, rg, float("nan")), (float("inf"), rg, hz), (alt, float("inf"), hz)][int(rng.integers(5))]
            else:
                q = (rg, alt, hz)  # the two distances exchanged
            if not np.isfinite(q[0] + q[1]) or (round(q[0], 9), round(q[1], 9), q[2]) not in idx:
                ctx.case(("missing",) + tuple(q), {"undocumented": list(q)})
                ctx.call(f, q[0], q[1], q[2], raises=IndexError)
    ctx.extra["sum_documented_conditions_read"] = seen


def expected_interp(alt, rg, hz):
    """Bilinear combination of the four bracketing records, or None when one is missing."""
    idx = ov.expected_index()
    A = gen.GRID_ALTS
    R = [r * 1e3 for r in ov.RANGES_KM]
    a0, a1 = max(a for a in A if a <= alt), min(a for a in A if a >= alt)
    r0, r1 = max(r for r in R if r <= rg), min(r for r in R if r >= rg)
    ta = 0.0 if a0 == a1 else (alt - a0) / (a1 - a0)
    tr = 0.0 if r0 == r1 else (rg - r0) / (r1 - r0)
    rec = []
    for a in (a0, a1):
        for r in (r0, r1):
            i = idx.get((round(float(a), 6), round(float(r), 6), int(hz)))
            if i is None:
                return None
            rec.append(ov.atm_record(i))
    q = rec[0] * (1 - ta) * (1 - tr) + rec[1] * (1 - ta) * tr + rec[2] * ta * (1 - tr) + rec[3] * ta * tr
    return q, rec


def check_interp(ctx, out, exp, cond, monitor="bilinear"):
    q, rec = exp
    out = np.asarray(out)
    ctx.check(out.shape == (ov.NW, 6), monitor, "table shape %s" % (out.shape,), condition=cond)
    ctx.close(out[:, 0], ov.wavelengths(), monitor + "-wavelengths", rtol=1e-10, condition=cond)
    big = np.max(np.abs(np.stack(rec)), axis=0)
    ctx.close(out[:, 1:], q[:, 1:], monitor, rtol=0, atol=TOL * big[:, 1:], condition=cond)
    lo, hi = np.min(np.stack(rec), axis=0), np.max(np.stack(rec), axis=0)
    ctx.check(np.all(out >= lo - TOL * big) and np.all(out <= hi + TOL * big), monitor + "-range", "outside the bracketing records", condition=cond)


def interp_point(rng, where=None):
    A = gen.GRID_ALTS
    i = int(rng.integers(len(A) - 1)) if where is None else where
    k = rng.random()
    if k < 0.15:
        alt = float(A[i])
    elif k < 0.3:
        alt = float(A[i + 1])
    elif k < 0.5:
        base = float(rng.choice([A[i], A[i + 1]]))
        alt = base + float(rng.choice([1, -1])) * float(rng.choice([1e-9, 1e-6, 1e-3, 0.4])) * max(1.0, base / 1e3)
        alt = min(max(alt, A[0]), A[-1])
    else:
        alt = float(rng.uniform(A[i], A[i + 1]))
        if rng.random() < 0.3:
            alt = float(np.clip(np.round(alt), A[0], A[-1]))
    low = max(a for a in A if a <= alt)
    R = [r * 1e3 for r in ov.ranges_for(low / 1e3)]
    j = int(rng.integers(len(R)))
    k = rng.random()
    if k < 0.25 or j == len(R) - 1:
        rg = R[j]
    elif k < 0.45:
        rg = float(rng.choice([R[j], R[j + 1]])) + float(rng.choice([1, -1])) * float(rng.choice([1e-9, 1e-6, 1e-3, 0.5, 0.501]))
        rg = min(max(rg, 0.0), R[-1])
    else:
        rg = float(rng.uniform(R[j], R[j + 1]))
        if rng.random() < 0.3:
            rg = float(np.round(rg))
    return alt, rg, int(rng.integers(1, 3))


def C03(ctx):
    from pybsm import utils

    ctx.rule = "distinct (altitude, range, haze) points, stratified over altitude intervals, on, beside and between grid lines"
    ctx.required = ["bilinear", "bilinear-wavelengths", "bilinear-range", "expected-exception", "continuity"]
    rng = ctx.rng
    f = utils.load_database_atmosphere
    ctx.again_rate, ctx.replay_rate = 0.04, 0.04
    cells = set()
    nalt = len(gen.GRID_ALTS) - 1
    for i in range(ctx.n(100, 1100)):
        alt, rg, hz = interp_point(rng, (i * (8 if ctx.tier == "thorough" else 4) + ctx.shard) % nalt)
        exp = expected_interp(alt, rg, hz)
        if exp is None:
            continue
        ctx.case((alt, rg, hz), {"altitude": alt, "range": rg, "haze": hz})
        cells.add((float(max(a for a in gen.GRID_ALTS if a <= alt)), max(r for r in ov.RANGES_KM if r * 1e3 <= rg)))
        out = ctx.call(f, vary_type(rng, alt), vary_type(rng, rg), hz)
        check_interp(ctx, out, exp, [alt, rg, hz])
        if i % 10 == 0:
            # crossing a grid line moves the table by no more than the step warrants
            a = float(gen.GRID_ALTS[int(rng.integers(1, nalt))])
            # both altitudes need their brackets: stay inside the lower altitude's horizon
            r = [x * 1e3 for x in ov.ranges_for(gen.GRID_ALTS[gen.GRID_ALTS.index(int(a) if a.is_integer() else a) - 1] / 1e3)]
            r = float(r[int(rng.integers(len(r)))])
            t = [np.asarray(ctx.call(f, x, r, hz)) for x in (a * (1 - 1e-7), a, a * (1 + 1e-7))]
            big = np.maximum(np.abs(t[0]), np.abs(t[2])) + 1e-30
            ctx.check(np.all(np.abs(t[0] - t[1])[:, 1:] <= 2e-5 * big[:, 1:].max(axis=0)), "continuity", "jump below altitude %g" % a, condition=[a, r, hz])
            ctx.check(np.all(np.abs(t[2] - t[1])[:, 1:] <= 2e-5 * big[:, 1:].max(axis=0)), "continuity", "jump above altitude %g" % a, condition=[a, r, hz])
        if i % 20 == 0:
            for q in ((float(rng.uniform(-5, 1.999)), 0.0), (float(rng.choice([20000.001, 21000, 24500, 550e3])), 0.0), (5000.0, -float(gen.lu(rng, 1e-3, 1e4))), (20000.0, 300000.0 + gen.lu(rng, 1e-2, 1e6))):
                ctx.case(("out",) + q)
                ctx.call(f, q[0], q[1], hz, raises=IndexError)
    ctx.extra["sum_grid_cells_visited"] = len(cells)


def scenario_expected(s_interp, alt, rg, hz):
    if s_interp:
        if not (2 <= alt <= 20000 and 0 <= rg <= 300000) or hz not in (1, 2):
            return None
        e = expected_interp(alt, rg, hz)
        return None if e is None else e[0]
    i = ov.expected_index().get((round(float(alt), 9), round(float(rg), 9), hz))
    return None if i is None else ov.atm_record(i)


def C04(ctx):
    from pybsm import utils
    from pybsm.simulation import Scenario

    ctx.rule = "distinct states (parameters, interpolation, steps since last read) in which a scenario's atmosphere was read"
    ctx.required = ["atm-matches-parameters", "atm-equals-lookup", "atm-error", "readback", "isolation", "small-walk"]
    rng = ctx.rng
    transitions = {}

    def lookup(m):
        """What the atmosphere lookup gives for the values now assigned (None: IndexError)."""
        fn = utils.load_database_atmosphere if m["interp"] else utils.load_database_atmosphere_no_interp
        try:
            return np.asarray(fn(m["altitude"], m["ground_range"], m["ihaze"]))
        except IndexError:
            return None

    def against_lookup(s, m, after):
        want = lookup(m)
        try:
            got = np.asarray(s.atm)
        except IndexError:
            got = None
        ctx.check((got is None) == (want is None), "atm-equals-lookup", "the scenario %s, the lookup %s" % tuple("raises IndexError" if x is None else "returns a table" for x in (got, want)),
                  state=dict(m), after=after)
        if got is not None:
            ctx.close(got, want, "atm-equals-lookup", rtol=1e-11, atol=0, state=dict(m), after=after)

    # shallow copies that share their parameters (kept in one container, say) are left out of the histories
    probe = Scenario("n", 1, 1000.0, 0.0)
    twin = copy.copy(probe)
    twin.altitude, twin.ground_range, twin.ihaze = 2000.0, 100.0, 2
    shallow_ok = (probe.altitude, probe.ground_range, probe.ihaze) == (1000.0, 0.0, 1)

    def values(interp):
        if interp:
            a, r, h = interp_point(rng)
            return a, r, h
        s = gen.scenario(rng, Scenario, ov, interp=False)
        return s.altitude, s.ground_range, s.ihaze

    for h in range(ctx.n(60, 300)):
        objs = []
        for _ in range(int(rng.integers(1, 4))):
            it = bool(rng.random() < 0.5)
            a, r, z = values(it)
            if objs and rng.random() < 0.4:
                _, m0 = objs[0]
                it, a, r, z = m0["interp"], m0["altitude"], m0["ground_range"], m0["ihaze"]
                if rng.random() < 0.4:
                    it = not it  # same place and haze, the other kind of lookup
            k = int(rng.integers(3))
            if k == 0:
                s = Scenario("n", z, a, r, interp=it)
            elif k == 1:
                s = Scenario("n", z, a, r, 0, 0.15, 295, 0.07, 293, 21, 1.7e-14, it)
            elif not it:
                s = Scenario("n", z, a, r)  # the exact lookup is the default
            else:
                s = Scenario(name="n", ihaze=z, altitude=a, ground_range=r, interp=it)
            objs.append((s, dict(altitude=a, ground_range=r, ihaze=z, interp=it, since=0)))
        last = "new"
        for _, m in objs:
            m["seen"] = [(m["altitude"], m["ground_range"], m["ihaze"])]
        for step in range(int(rng.choice([4, 6, 9, 16]))):
            n = int(rng.integers(len(objs)))
            s, m = objs[n]
            op = str(rng.choice(["read", "altitude", "ground_range", "ihaze", "all", "other", "bad", "scribble", "copy", "back", "nudge", "revisit"],
                                p=[0.16, 0.1, 0.1, 0.12, 0.08, 0.06, 0.06, 0.05, 0.05, 0.04, 0.09, 0.09]))
            transitions[(last, op)] = transitions.get((last, op), 0) + 1
            last = op
            if op in ("altitude", "ground_range", "ihaze", "all"):
                a, r, z = values(m["interp"])
                new = dict(altitude=a, ground_range=r, ihaze=z) if op == "all" else {op: dict(altitude=a, ground_range=r, ihaze=3 - m["ihaze"] if rng.random() < 0.8 else m["ihaze"])[op]}
                ks = list(new)
                rng.shuffle(ks)
                for k in ks:
                    setattr(s, k, new[k])
                    m[k] = new[k]
                m["since"] += 1
            elif op == "nudge":  # a change too small to see in print
                k = str(rng.choice(["altitude", "ground_range"]))
                old = m[k]
                x = old * (1 + float(rng.choice([-1, 1])) * float(rng.choice([1e-4, 1e-5, 1e-6, 1e-8]))) if old else float(rng.choice([1e-3, 1e-6, 0.3]))
                if rng.random() < 0.7 and lookup(m) is not None:
                    s.atm
                setattr(s, k, x)
                m[k] = x
                against_lookup(s, m, op)
                if not m["interp"] or lookup(m) is None:
                    setattr(s, k, old)
                    m[k] = old
            elif op == "revisit":  # one or several values held earlier
                a, r, z = m["seen"][int(rng.integers(len(m["seen"])))]
                new = dict(altitude=a, ground_range=r, ihaze=z)
                for k in rng.permutation(list(new))[: int(rng.integers(1, 4))]:
                    setattr(s, str(k), new[str(k)])
                    m[str(k)] = new[str(k)]
                if rng.random() < 0.7:
                    against_lookup(s, m, op)
            elif op == "back":  # change and change back without reading in between
                keep = s.altitude
                s.altitude = keep * 2
                s.altitude = keep
            elif op == "other":
                for k, v in (("aircraft_speed", 5.0), ("ha_wind_speed", 3.0), ("cn2_at_1m", 0.0), ("target_reflectance", 0.3), ("background_temperature", 250.0), ("name", "z")):
                    setattr(s, k, v)
            elif op == "bad":
                k = str(rng.choice(["altitude", "ground_range", "ihaze"]))
                old = m[k]
                setattr(s, k, {"altitude": -3.0, "ground_range": 1e7, "ihaze": 9}[k])
                try:
                    s.atm
                    ctx.fail("atm-error", "atmosphere returned for undocumented %s" % k)
                except IndexError:
                    ctx.monitors["atm-error"] += 1
                if rng.random() < 0.7:
                    setattr(s, k, old)
                else:
                    m[k] = {"altitude": -3.0, "ground_range": 1e7, "ihaze": 9}[k]
                    a, r, z = values(m["interp"])
                    for k, v in (("altitude", a), ("ground_range", r), ("ihaze", z)):
                        setattr(s, k, v)
                        m[k] = v
            elif op == "scribble" and not m.get("shallow"):
                # writing into one scenario's table must not reach any other scenario
                if scenario_expected(m["interp"], m["altitude"], m["ground_range"], m["ihaze"]) is not None:
                    t = s.atm
                    if t.flags.writeable:
                        t[:, 1:] = -1.0
                    for s2, m2 in objs:
                        if s2 is not s:
                            exp = scenario_expected(m2["interp"], m2["altitude"], m2["ground_range"], m2["ihaze"])
                            if exp is not None:
                                ctx.check(np.allclose(s2.atm, exp, rtol=1e-5, atol=1e-5 * np.abs(exp).max(axis=0)), "isolation", "writing into one scenario's atmosphere changed another's")
                    # go on with a new object for the same parameters, which must not see the overwritten table
                    s = Scenario("n", m["ihaze"], m["altitude"], m["ground_range"], interp=m["interp"])
                    objs[n] = (s, m)
                    exp = scenario_expected(m["interp"], m["altitude"], m["ground_range"], m["ihaze"])
                    ctx.check(np.allclose(s.atm, exp, rtol=1e-5, atol=1e-5 * np.abs(exp).max(axis=0)), "isolation", "a new scenario got a table another one's owner had overwritten")
            elif op == "copy" and len(objs) < 5:
                if shallow_ok and rng.random() < 0.5:
                    c = copy.copy(s)
                    m["shallow"] = True  # a shallow copy may share the loaded table with its original
                else:
                    c = copy.deepcopy(s)
                objs.append((c, dict(m, seen=list(m["seen"]))))
            m["seen"].append((m["altitude"], m["ground_range"], m["ihaze"]))
            for s2, m2 in objs:
                ctx.check((s2.altitude, s2.ground_range, s2.ihaze) == (m2["altitude"], m2["ground_range"], m2["ihaze"]), "readback", "parameters do not read back", state=m2)
            if op == "read" or rng.random() < 0.35:
                exp = scenario_expected(m["interp"], m["altitude"], m["ground_range"], m["ihaze"])
                ctx.case((m["altitude"], m["ground_range"], m["ihaze"], m["interp"], m["since"]), {k: v for k, v in m.items() if k != "seen"})
                m["since"] = 0
                if rng.random() < 0.5:
                    against_lookup(s, m, op)
                if exp is None:
                    continue
                t = np.asarray(s.atm)
                ctx.check(t.shape == exp.shape, "atm-matches-parameters", "shape %s" % (t.shape,))
                ctx.close(t, exp, "atm-matches-parameters", rtol=0, atol=3e-6 * np.abs(exp).max(axis=0), state=dict(m), after=op)
                ctx.close(np.asarray(s.atm), t, "atm-matches-parameters", rtol=0, atol=0)
        if rng.random() < 0.3:
            # a new scenario that differs from a used one only in the kind of lookup
            s, m = objs[int(rng.integers(len(objs)))]
            if rng.random() < 0.5 and lookup(m) is not None:
                s.atm
            m2 = dict(m, interp=not m["interp"], seen=[])
            against_lookup(Scenario("n", m["ihaze"], m["altitude"], m["ground_range"], interp=m2["interp"]), m2, "twin with the other kind of lookup")
        # final audit of every object
        ctx.monitors["isolation"] += 1
        for s, m in objs:
            exp = scenario_expected(m["interp"], m["altitude"], m["ground_range"], m["ihaze"])
            if exp is not None:
                ctx.close(np.asarray(s.atm), exp, "atm-matches-parameters", rtol=0, atol=3e-6 * np.abs(exp).max(axis=0), state=dict(m), after="end of history")
    # walks over few values: two altitudes, two ranges, both haze modes, so that every state is met again and
    # again after every other one, with assignments that are not followed by a read
    for w in range(ctx.n(24, 160)):
        it = bool(w % 2)
        a0, r0, _ = values(it)
        for _ in range(50):
            a1, r1, _ = values(it)
            cube = {(a, r, z): scenario_expected(it, a, r, z) for a in (a0, a1) for r in (r0, r1) for z in (1, 2)}
            if a1 != a0 and r1 != r0 and sum(v is not None for v in cube.values()) >= 6:
                break
            if rng.random() < 0.5:
                a0, r0, _ = values(it)
        now = [a0, r0, int(rng.integers(1, 3))]
        p_read = float(rng.choice([0.1, 0.3, 0.5]))
        objs = [Scenario("n", now[2], now[0], now[1], interp=it)]
        at = [list(now)]
        log = []
        for step in range(60):
            n = int(rng.integers(len(objs)))
            if rng.random() < p_read:
                st = tuple(at[n])
                exp = cube[st]
                log.append("read")
                try:
                    got = np.asarray(objs[n].atm)
                except IndexError:
                    got = None
                ctx.case((w, n) + st + (step,), dict(state=st, interp=it, step=step))
                ctx.check((got is None) == (exp is None), "small-walk", "atmosphere and its parameters disagree on whether the condition exists", state=st, history=log[-12:])
                if exp is not None:
                    ctx.close(got, exp, "small-walk", rtol=0, atol=3e-6 * np.abs(exp).max(axis=0), state=st, interp=it, history=log[-12:])
            elif rng.random() < 0.03 and len(objs) < 3:
                objs.append(copy.deepcopy(objs[n]))
                at.append(list(at[n]))
                log.append("copy")
            else:
                k = int(rng.integers(3))
                v = [a0 if at[n][0] == a1 else a1, r0 if at[n][1] == r1 else r1, 3 - at[n][2]][k]
                if rng.random() < 0.15:
                    v = at[n][k]  # assigned again unchanged
                setattr(objs[n], ("altitude", "ground_range", "ihaze")[k], v)
                at[n][k] = v
                log.append((n, k, v))
    ctx.extra["operation_pairs_seen"] = len(transitions)


def C05(ctx):
    from pybsm import geospatial as g

    ctx.rule = "distinct (target height, sensor height, ground range)"
    ctx.required = ["slant-range", "nadir-angle", "finite", "path-heights", "path-ends", "gsd", "straight-down"]
    rng = ctx.rng
    for i in range(ctx.n(1500, 12000)):
        k = int(rng.integers(7))
        hs = [gen.lu(rng, 1, 4e7), gen.lu(rng, 1, 3e4), float(rng.choice(gen.GRID_ALTS + [24500.0, 550e3, 2e6, 35786e3])), gen.nice(rng, 1, 1e6)][int(rng.integers(4))]
        ht = float(rng.choice([0.0, 0.0, 0.0, float(rng.uniform(0, 1)) * hs, float(rng.uniform(0, 100)), -float(rng.uniform(0, 400)), hs]))
        hor = ref.RE * (np.arccos(ref.RE / (ref.RE + hs)))
        if k == 0:
            gr = 0.0
        elif k == 1:
            gr = gen.lu(rng, 1e-3, max(1.0, hor))
        elif k == 2:
            gr = float(np.round(rng.uniform(0, hor)))
        elif k == 3 and rng.random() < 0.3:  # beyond the horizon, up to the other side of the Earth
            gr = float(rng.uniform(0, np.pi)) * ref.RE
        else:
            gr = float(rng.uniform(0, 1)) * hor
        ctx.case((ht, hs, gr), {"target": ht, "sensor": hs, "range": gr})
        A = (gen.maybe_int(rng, ht), gen.maybe_int(rng, hs), gen.maybe_int(rng, gr))
        s = float(ctx.call(g.curved_earth_slant_range, *A))
        true = ref.slant(ht, hs, gr)
        ctx.check(np.isfinite(s) or true < 0.5, "finite", "slant range is %r" % s, args=A)
        if not np.isfinite(s):
            continue  # target and sensor coincide to within the rounding of Earth-radius squares
        ctx.close(s, true, "slant-range", rtol=0, atol=ref.slant_tol(ht, hs, true), args=A)
        for b in (true, s, true * (1 + 1e-12)):
            if not np.isfinite(b) or b <= 0:
                continue
            a = ref.RE + hs
            tol = 32 * 2.3e-16 * a / b + 1e-13
            n = float(ctx.call(g.nadir_angle, A[0], A[1], b))
            ctx.check(np.isfinite(n), "finite", "nadir angle is %r" % n, target=ht, sensor=hs, slant=b)
            ctx.check(0 <= n <= np.pi, "nadir-angle", "nadir angle %r outside [0, pi]" % n)
            want = float(min(max(ref.cosnadir(ht, hs, b), -1), 1))
            ctx.check(abs(np.cos(n) - want) <= tol, "nadir-angle", "cos(nadir) %r, expected %r" % (np.cos(n), want), target=ht, sensor=hs, slant=b)
        if hs > ht:
            b = hs - ht
            n = float(ctx.call(g.nadir_angle, ht, hs, b))
            tol = np.sqrt(2 * (32 * 2.3e-16 * (ref.RE + hs) / b + 1e-15))
            ctx.check(np.isfinite(n) and abs(n) <= tol + 1e-9, "straight-down", "nadir angle %r looking straight down" % n, target=ht, sensor=hs, slant=b)
        if i % 6 == 0 and true > 0 and gr <= 1.01 * hor + 1:
            b = hs - ht if (gr == 0.0 and hs > ht) else true
            if b > 0:
                args = (gen.maybe_int(rng, ht), gen.maybe_int(rng, hs), gen.maybe_int(rng, b))
                if rng.random() < 0.25 and b > 10:
                    # whole-metre geometry given as integers
                    ht, hs = float(np.floor(ht)), float(np.ceil(hs))
                    b = float(np.ceil(max(b, hs - ht)))
                    if float(ref.cosnadir(ht, hs, b)) > 0.05:
                        args = (int(ht), int(hs), int(b))
                    else:
                        b = hs - ht if hs > ht else b
                        args = (ht, hs, b)
                z, h = ctx.call(g.altitude_along_slant_path, *args)
                z, h = np.asarray(z), np.asarray(h)
                ctx.check(z.ndim == 1 and z.shape == h.shape and z.size >= 100, "path-ends", "profile shapes %s %s" % (z.shape, h.shape))
                ctx.check(np.all(np.isfinite(h)), "finite", "non-finite heights", target=ht, sensor=hs, slant=b)
                ctx.close([z[0], z[-1]], [0.0, b], "path-ends", rtol=1e-12, atol=1e-12)
                ctx.check(np.all(np.diff(z) > 0), "path-ends", "distances do not increase", sensor=args[1], slant=args[2])
                tol = 2e-6 + 1e-10 * max(abs(hs), abs(ht)) + 64 * 2.3e-16 * (ref.RE + hs) ** 2 / (ref.RE + min(ht, 0))
                ctx.close([h[0], h[-1]], [ht, hs], "path-ends", rtol=0, atol=tol, target=ht, sensor=hs, slant=b)
                # height at distance z from the target, independent chord formula
                d = (b - z).astype(np.longdouble)
                aa = ref.RE + np.longdouble(hs)
                cn = min(max(ref.cosnadir(ht, hs, b), np.longdouble(-1)), np.longdouble(1))
                q = np.longdouble(hs) * (2 * ref.RE + np.longdouble(hs)) + d * d - 2 * aa * d * cn
                want = (q / (np.sqrt(ref.RE * ref.RE + q) + ref.RE)).astype(float)
                ctx.close(h, want, "path-heights", rtol=0, atol=tol, target=ht, sensor=hs, slant=b)
        io, sl = gen.lu(rng, 1e-8, 1e-2), gen.lu(rng, 1, 1e7)
        ctx.close(ctx.call(g.ground_sample_distance, io, sl), io * sl, "gsd", rtol=1e-12)
