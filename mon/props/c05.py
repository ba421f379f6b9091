"""Duty cycles: every switch-on event plays the cycle assigned to its time of day, from the
start of the cycle, repeated or once, with durations and powers within their variability."""
import random

import numpy as np

from .. import daycheck, gen, sim
from ..core import Violation

RULE = (
    "one case = one appliance with 1 to 3 duty cycles, each bound to its own windows, simulated over several days; the "
    "load of each window is parsed into switch-on events, each of which must be a prefix of the (repeated or single) "
    "cycle, with one set of randomised durations and powers per cycle and day. Non-trivial: days with events; distinct by "
    "(cycle count, mode, durations, intervals)."
)
FLOORS = {"events_parsed": 3000, "days_on": 800, "reversed_cycles": 20, "single_shot_days": 200, "overlap_days": 50}
KNOWN_KEYS = {}


def cases(tier, seed):
    n = 1500 if tier == "quick" else 12000
    kinds = ("exact", "repeat", "single", "thermal", "three", "overlap", "outside", "units", "bounds", "midnight")
    for i in range(n):
        yield dict(kind=kinds[i % 10], seed=seed * 1000081 + i)


def duty_app(rng, kind):
    ncyc = rng.choice([1, 2, 3])
    if kind == "three":
        ncyc = 3
    nw = ncyc if ncyc > 1 else rng.choice([1, 2])
    var = 0 if kind in ("overlap", "bounds") else rng.choice([0, 0, 0.1, 0.2])
    ws, var = gen.windows(rng, nw=nw, var=var, minlen=30, gap=1, shuffle=False)
    if kind == "midnight":
        L = ws[0][1] - ws[0][0]
        ws[0] = [0, L]
    tot = sum(w[1] - w[0] for w in ws)
    app = dict(num_windows=nw, random_var_w=var, name="duty")
    for i, w in enumerate(ws):
        app["window_%d" % (i + 1)] = w
    app["fixed_cycle"] = ncyc
    app["continuous_duty_cycle"] = 1 if kind == "repeat" else 0 if kind == "single" else rng.choice([0, 1])
    pows = rng.sample([11, 23, 47, 97, 199, 401, 809, 1601], 6)
    if var == 0 and rng.random() < 0.4:
        pows[rng.randrange(6)] = 0
    if kind == "thermal":
        app["thermal_p_var"] = rng.choice([0.05, 0.2])
    nmax = 1
    if kind == "units":
        nmax = rng.randint(2, 8)
    app["number"] = nmax
    app["fixed"] = rng.choice(["yes", "no"])
    for c in range(1, ncyc + 1):
        t1, t2 = rng.randint(1, 14), rng.randint(1, 14)
        if rng.random() < 0.1:
            t2 = 0
        r = 0 if kind in ("exact", "units", "overlap") else rng.choice([0, 0.1, 0.3, 0.5])
        if kind == "bounds":
            t1, t2, r = rng.randint(10, 40), rng.randint(10, 40), rng.choice([0.1, 0.3, 0.5])
        if t2 == 0:
            t1 += 2
        app.update({"p_%d1" % c: pows[2 * c - 2], "t_%d1" % c: t1, "p_%d2" % c: pows[2 * c - 1],
                    "t_%d2" % c: t2, "r_c%d" % c: r})
    # bind each cycle to its own window (cw covers the window of use and its variation)
    if ncyc == 1:
        if rng.random() < 0.5:
            app["cw11"] = list(gen.outer(ws[0], var))
            if nw == 2:
                app["cw12"] = list(gen.outer(ws[1], var))
    else:
        order = list(range(ncyc))
        rng.shuffle(order)
        for c in range(1, ncyc + 1):
            w = ws[order[c - 1]]
            lo, hi = gen.outer(w, var)
            first, second = ("cw%d1" % c, "cw%d2" % c) if rng.random() < 0.7 else ("cw%d2" % c, "cw%d1" % c)
            app[first] = [lo, hi - 1] if rng.random() < 0.5 else [lo, hi]
        app["power"] = 0
    app["power"] = rng.choice([0, 5])
    fcm = gen.max_func_cycle(ws, var)
    app["func_cycle"] = max(1, min(fcm, rng.choice([1, 1, 2, 5, rng.randint(1, max(1, min(60, fcm)))])))
    app["func_time"] = rng.randint(1, tot)
    if rng.random() < 0.4:
        app["func_time"] = min(tot, app["func_cycle"] * rng.randint(1, 8))
    if rng.random() < 0.5:
        app["time_fraction_random_variability"] = rng.choice([0.1, 0.3])
    return app, ws, var


def dur_range(t, r):
    lo = int(t * (1 - r) - 1e-9)
    hi = int(t * (1 + r) + 1e-9)
    return lo, hi


def parse(window, cyc, cont, fc, cut_allowed, nmax, fixed):
    """window: list of values of a window (idle marker between 0 and 0.0015 exclusive, on
    otherwise; a phase of power zero shows as exactly 0). cyc: list of the powers of one full
    cycle. Smallest number of shortened events of a parse into events, or None."""
    n = len(window)
    L = len(cyc)
    on = [not (0 < v <= 0.0015) for v in window]
    INF = 99
    best = [INF] * (n + 1)  # best[i]: fewest short events parsing window[i:]
    nevs = [0] * (n + 1)
    best[n] = 0
    need = min(fc, L) if not cont else fc
    for i in range(n - 1, -1, -1):
        if not on[i]:
            best[i] = best[i + 1]
            nevs[i] = nevs[i + 1]
            continue
        # an event starts here, with k units
        k = None
        maxlen = (n - i) if cont else min(L, n - i)
        for m in range(maxlen):
            if not on[i + m]:
                break
            p = cyc[m % L]
            v = window[i + m]
            if p == 0:
                if v != 0:
                    break
            else:
                q = v / p
                kk = int(round(q))
                if kk < 1 or kk > nmax or abs(q - kk) > 1e-9 * max(1, kk):
                    break
                if fixed and kk != nmax:
                    break
                if k is None:
                    k = kk
                elif k != kk:
                    break
            cost = best[i + m + 1] + (1 if m + 1 < need else 0)
            if cost < best[i]:
                best[i] = cost
                nevs[i] = nevs[i + m + 1] + 1
    return (best[0], nevs[0]) if best[0] < INF else (None, 0)


def run_case(case, obs):
    rng = random.Random(case["seed"])
    kind = case["kind"]
    if kind == "overlap":
        return overlap(rng, obs)
    if kind == "outside":
        return outside(rng, obs)
    days = rng.randint(5, 10)
    app, ws, var = duty_app(rng, kind)
    if kind == "bounds":
        return bounds(rng, app, ws, obs)
    spec = sim.one(app, num_days=days, how=rng.choice(["dates", "init"]))
    uc, prof = sim.profiles(spec)
    sim.sane(prof)
    sigs = set()
    for d in range(days):
        info = check_day(prof[d], app, ws, var, obs)
        if info:
            sigs.add(info)
            obs.add("days_on")
            if not app["continuous_duty_cycle"]:
                obs.add("single_shot_days")
    obs.sample(dict(app=app, last_day=str(info)[:300]))
    return sigs


def cycles_of_window(app, ws, var):
    """index of the window -> cycle whose window overlaps it"""
    ncyc = app["fixed_cycle"]
    out = {}
    for i, w in enumerate(ws):
        lo, hi = gen.outer(w, var)
        if ncyc == 1:
            out[i] = 1
            continue
        for c in range(1, ncyc + 1):
            hit = False
            for s in ("1", "2"):
                cw = app.get("cw%d%s" % (c, s), [0, 0])
                if cw[0] != cw[1] and cw[0] <= hi - 1 and cw[1] >= lo:
                    hit = True
            if hit:
                out[i] = c
                break
    return out


def check_day(day, app, ws, var, obs):
    """decode a day; every combination of randomised durations/order is tried for the cycle"""
    allowed = np.zeros(1440, dtype=bool)
    for w in ws:
        lo, hi = gen.outer(w, var)
        allowed[lo:hi] = True
    if ((day != 0) & ~allowed).any():
        raise Violation("load outside of the windows of use", key="outside-window")
    owner = cycles_of_window(app, ws, var)
    cont = app["continuous_duty_cycle"] == 1
    fc = max(1, app["func_cycle"])
    n = app["number"]
    fixed = app["fixed"] == "yes"
    th = app.get("thermal_p_var", 0)
    vals = day.tolist()
    shorts = 0
    info = []
    by_cycle = {}
    for i, w in enumerate(ws):
        by_cycle.setdefault(owner[i], []).append(i)
    for c, idx in by_cycle.items():
        parts = []
        for i in idx:
            lo, hi = gen.outer(ws[i], var)
            if var:
                # the randomised window: strip the zeros at both ends (phases of power 0 are only
                # used with windows which do not vary)
                while lo < hi and vals[lo] == 0:
                    lo += 1
                while hi > lo and vals[hi - 1] == 0:
                    hi -= 1
            parts.append(vals[lo:hi])
        if not any(parts):
            continue
        t1r = dur_range(app["t_%d1" % c], app["r_c%d" % c])
        t2r = dur_range(app["t_%d2" % c], app["r_c%d" % c])
        P1, P2 = powers(app, c, parts, th, n, fixed)
        found = None
        orders = [0, 1] if app["fixed_cycle"] == 3 else [0]
        for o in orders:
            for t1 in range(t1r[0], t1r[1] + 1):
                for t2 in range(t2r[0], t2r[1] + 1):
                    if t1 + t2 == 0:
                        continue
                    cyc = [P1] * t1 + [P2] * t2 if o == 0 else [P2] * t2 + [P1] * t1
                    tot_short, tot_ev = 0, 0
                    ok = True
                    for p in parts:
                        s, e = parse(p, cyc, cont, fc, True, n, fixed)
                        if s is None:
                            ok = False
                            break
                        tot_short += s
                        tot_ev += e
                    if ok and (found is None or tot_short < found[0]):
                        found = (tot_short, tot_ev, o, t1, t2)
                        if tot_short == 0:
                            break
                if found and found[0] == 0:
                    break
            if found and found[0] == 0:
                break
        if found is None:
            raise Violation(
                "the load of window(s) %s cannot be made of duty cycle %d (p=%s/%s t=%s/%s r_c=%s%s)"
                % ([ws[i] for i in idx], c, app["p_%d1" % c], app["p_%d2" % c], app["t_%d1" % c], app["t_%d2" % c],
                   app["r_c%d" % c], ", repeated" if cont else ", once per event"),
                key="not-the-cycle",
                segments=[sim.segments(p, -1)[:30] for p in parts],
            )
        shorts += found[0]
        if found[1]:
            obs.add("events_parsed", found[1])
            if found[2] == 1 and app["t_%d1" % c] != app["t_%d2" % c]:
                obs.add("reversed_cycles")
            info.append((c, cont) + found[2:] + tuple((a, b) for a, b in sim.runs(day > 0.0015)))
    if shorts > 1:
        raise Violation(
            "%d switch-on events are shorter than func_cycle=%d and than the duty cycle" % (shorts, fc),
            key="short-event",
        )
    return tuple(info)


def powers(app, c, parts, th, n, fixed):
    """actual powers of the two phases on that day"""
    p1, p2 = app["p_%d1" % c], app["p_%d2" % c]
    if th == 0:
        return p1, p2
    levels = set()
    for p in parts:
        for v in p:
            if not (0 < v <= 0.0015):
                levels.add(v)
    units = n if fixed else 1
    assert n == 1 or fixed
    got = []
    for p in (p1, p2):
        if p == 0:
            got.append(0)
            continue
        lo, hi = units * p * (1 - th) * (1 - 1e-9), units * p * (1 + th) * (1 + 1e-9)
        m = [v for v in levels if lo <= v <= hi]
        if len(m) > 1:
            raise Violation(
                "phase of power %s of duty cycle %d has several powers on one day: %s" % (p, c, m[:5]),
                key="cycle-power-changes",
            )
        got.append(m[0] / units if m else p)
    known = [g * units for g in got]
    for v in levels:
        if not any(abs(v - k) <= 1e-9 * max(1, k) for k in known):
            raise Violation(
                "level %s is none of the phases of duty cycle %d (powers %s, %s, +-%s, %d units)"
                % (v, c, p1, p2, th, units),
                key="cycle-power",
            )
    return got[0], got[1]


def overlap(rng, obs):
    """one long window in which several cycle windows follow each other: an event plays the
    first cycle whose window it touches"""
    app = dict(num_windows=1, window_1=[rng.randint(0, 200), rng.randint(900, 1440)], random_var_w=0, name="ov", power=0)
    s, e = app["window_1"]
    ncyc = rng.choice([2, 3])
    app["fixed_cycle"] = ncyc
    app["continuous_duty_cycle"] = 1
    cuts = [s] + sorted(rng.sample(range(s + 50, e - 50), ncyc - 1)) + [e]
    cws = {}
    ids = list(range(1, ncyc + 1))
    rng.shuffle(ids)
    for i, c in enumerate(ids):
        lo, hi = cuts[i], cuts[i + 1]
        gap = rng.choice([0, 0, 20])
        cws[c] = [[lo + (gap if i else 0), hi - 1]]
        app["cw%d%d" % (c, rng.choice([1, 2]))] = cws[c][0]
    if rng.random() < 0.3:
        # second window of a cycle
        c = rng.choice(ids)
        other = "cw%d1" % c if "cw%d2" % c in app else "cw%d2" % c
        x = rng.randint(s, e - 30)
        app[other] = [x, x + rng.randint(5, 30)]
        cws[c].append(app[other])
    for c in range(1, 4):
        if c <= ncyc:
            # constant cycles of distinct power: the level names the cycle
            app.update({"p_%d1" % c: 100 * c, "t_%d1" % c: rng.randint(1, 5), "p_%d2" % c: 100 * c, "t_%d2" % c: rng.randint(1, 5)})
    app["func_cycle"] = rng.choice([1, 3, 8])
    app["func_time"] = rng.randint(10, 120)
    th = 0.2
    spec = sim.one(app, num_days=6)
    uc, prof = sim.profiles(spec)
    sigs = set()
    for d in range(6):
        segs = sim.segments(prof[d])
        # merge: maximal runs of one level may hold several events of the same cycle
        for a, b, v in segs:
            c = int(round(v / 100))
            if v not in (100.0, 200.0, 300.0) or c not in cws:
                raise Violation("level %s does not belong to any duty cycle" % v, key="not-the-cycle")
            # every event of the run touches a window of c: the run, extended by what the daily
            # budget may have cut from its last event, does so
            ext = b
            touches = any(w[0] <= ext - 1 and w[1] >= a for w in cws[c])
            cutoff = any(w[0] <= e - 1 and w[1] >= a for w in cws[c])
            if not touches and not cutoff:
                raise Violation(
                    "duty cycle %d is played during [%d, %d), outside of its windows %s" % (c, a, b, cws[c]),
                    key="cycle-outside-its-window",
                )
            if not touches:
                obs.add("maybe_cut")
                # only the last event of the day can be cut, i.e. at most one such run
                sigs.add(("cut", d))
            # precedence: a run which lies within windows of a cycle of smaller number is never c
            for low in range(1, c):
                if low in cws and any(w[0] <= a and b - 1 <= w[1] for w in cws[low]):
                    raise Violation(
                        "duty cycle %d is played during [%d, %d), which is within the window %s of cycle %d"
                        % (c, a, b, cws[low], low),
                        key="wrong-cycle",
                    )
        cut_runs = [1 for a, b, v in segs if not any(w[0] <= b - 1 and w[1] >= a for w in cws[int(round(v / 100))])]
        if len(cut_runs) > 1:
            raise Violation("several switch-on events lie outside of their duty cycle windows", key="cycle-outside-its-window")
        if segs:
            obs.add("overlap_days")
            obs.add("days_on")
            obs.add("events_parsed", len(segs))
            sigs.add(("ov", tuple((a, b, int(v)) for a, b, v in segs)))
    return sigs


def outside(rng, obs):
    """window of use larger than the duty cycle windows: nothing is played away from them"""
    app, ws, var = duty_app(rng, "exact")
    s, e = sorted([rng.randint(0, 1440), rng.randint(0, 1440)])
    if e - s < 60:
        s, e = 300, 900
    x = rng.randint(s, e - 20)
    y = rng.randint(x + 5, e)
    app = dict(
        num_windows=1, window_1=[s, e], random_var_w=rng.choice([0, 0.1, 0.3]), fixed_cycle=rng.choice([2, 3]),
        continuous_duty_cycle=rng.choice([0, 1]), power=0, name="out",
        p_11=100, t_11=rng.randint(2, 10), p_12=100, t_12=rng.randint(2, 10), cw11=[x, y],
        func_time=rng.randint(1, e - s), thermal_p_var=0.1, p_21=5, p_22=5, t_21=4, t_22=4,
    )
    fcm = gen.max_func_cycle([[s, e]], app["random_var_w"])
    app["func_cycle"] = max(1, min(fcm, rng.choice([1, 3, 10, 30])))
    spec = sim.one(app, num_days=5)
    uc, prof = sim.profiles(spec)
    sigs = set()
    for d in range(5):
        on = sim.runs(prof[d] > 0.0015)
        stray = []
        for a, b in on:
            # a run is made of adjacent events of which each touches [x, y]; events are disjoint,
            # so at most one reaches out to the left and one to the right
            if not (x <= b - 1 and y >= a):
                stray.append((a, b))
        left = [1 for a, b in stray if b - 1 < x]
        # a single shot cycle is shorter than the event it was chosen for
        if len(left) < len(stray) or (len(left) > 1 and app["continuous_duty_cycle"]):
            raise Violation(
                "the appliance is on during %s, away from its only duty cycle window [%d, %d]" % (stray, x, y),
                key="cycle-outside-its-window",
            )
        if on:
            obs.add("days_on")
            obs.add("events_parsed", len(on))
            sigs.add(("out", tuple(on)))
    return sigs


def bounds(rng, app, ws, obs):
    """durations of the phases, one per day, within r_c of the nominal ones, and varying"""
    app["number"], app["fixed"] = 1, "yes"
    app["fixed_cycle"] = 1
    for k in list(app):
        if k.startswith(("cw", "window_")) or k[:3] in ("p_2", "p_3", "t_2", "t_3") or k in ("r_c2", "r_c3"):
            app.pop(k)
    app.update(num_windows=1, window_1=[100, 1300], func_time=700, func_cycle=200, continuous_duty_cycle=1,
               time_fraction_random_variability=0, random_var_w=0, p_11=300, p_12=40)
    app["t_11"], app["t_12"] = max(1, app["t_11"]), max(1, app["t_12"])
    days = 60
    spec = sim.one(app, num_days=days)
    uc, prof = sim.profiles(spec)
    seen = {1: [], 2: []}
    r = app["r_c1"]
    for d in range(days):
        segs = sim.segments(prof[d])
        got = {1: set(), 2: set()}
        for i, (a, b, v) in enumerate(segs):
            ph = 1 if v == 300.0 else 2 if v == 40.0 else None
            if ph is None:
                raise Violation("level %s is none of the phases" % v, key="not-the-cycle")
            # a complete phase is followed immediately by the other phase, and (for phase 2)
            # preceded by phase 1; events start with phase 1
            before = i > 0 and segs[i - 1][1] == a
            after = i + 1 < len(segs) and segs[i + 1][0] == b
            if ph == 2 and not before:
                raise Violation("a switch-on event starts with the second phase", key="not-the-cycle")
            if ph == 1 and after:
                got[1].add(b - a)
            if ph == 2 and after:
                got[2].add(b - a)
        for ph in (1, 2):
            t = app["t_1%d" % ph]
            lo, hi = dur_range(t, r)
            # events of the same phase can merge only across event borders: phase 2 cut by the
            # start of the next event is shorter, never longer
            for x in got[ph]:
                if x > hi and ph == 2:
                    raise Violation("phase %d lasts %d minutes, nominal %d +- %g" % (ph, x, t, r), key="cycle-duration")
            ok = [x for x in got[ph] if lo <= x <= hi]
            if got[ph] and not ok and ph == 1:
                raise Violation("phase %d lasts %s minutes, nominal %d +- %g" % (ph, got[ph], t, r), key="cycle-duration")
            if got[ph]:
                seen[ph].append(max(ok) if ok else max(got[ph]))
        obs.add("events_parsed", len(segs))
        obs.add("days_on")
    for ph in (1, 2):
        t = app["t_1%d" % ph]
        lo, hi = dur_range(t, r)
        if len(seen[ph]) >= 50 and hi - lo >= 4:
            if len(set(seen[ph])) < 3:
                raise Violation(
                    "phase %d always lasts %s minutes although its duration varies by +-%g" % (ph, set(seen[ph]), r),
                    key="cycle-duration",
                )
            if min(seen[ph]) >= t or max(seen[ph]) < t:
                raise Violation(
                    "phase %d lasts %d to %d minutes, nominal %d +- %g" % (ph, min(seen[ph]), max(seen[ph]), t, r),
                    key="cycle-duration",
                )
    return [("bounds", t, r, tuple(sorted(set(seen[1]))))]
