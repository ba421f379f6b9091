"""Random variability: what is drawn varies over its whole range, with its distribution."""
import math
import random

import numpy as np

from .. import gen, sim, stats
from ..core import Violation, guard

RULE = (
    "one case = one appliance of which one random quantity is directly visible in the load (edges of the windows, time of use, "
    "start and length of an event, power of an event, durations and order of the phases of a duty cycle, independence between days), "
    "simulated thousands of times; the sample is compared with the law of the model (distribution function, proportions, "
    "impossible values; error bounds of 1e-10 per test). Non-trivial: quantities drawn; distinct by (kind, parameters, values)."
)
FLOORS = {"window_edges": 30000, "times_of_use": 20000, "event_starts": 20000, "cycle_starts": 8000, "minute_sets": 8000, "event_lengths": 8000,
          "event_powers": 10000, "phase_durations": 10000, "phase_orders": 4000, "day_pairs": 6000}
KNOWN_KEYS = {}


def cases(tier, seed):
    n = 96 if tier == "quick" else 480
    kinds = ("edges", "use", "start", "sets", "length", "power", "phase", "order", "days", "joint", "use", "cyclestart")
    for i in range(n):
        yield dict(kind=kinds[i % 12], seed=seed * 1000273 + i, scale=1 if tier == "quick" else 4)


PEAK = np.arange(600, 640)


def draw(app, n, what, usecase=False):
    """n days of the load of one instance of the appliance, as lists"""
    if usecase:
        uc, prof = sim.profiles(sim.one(app, num_days=n), what=what, draws=100_000_000)
        for row in prof:
            yield row.tolist()
        return
    with guard(what):
        uc = sim.build(sim.one(app, num_days=1))
        user = uc.users[0]
    with guard(what, draws=200_000_000, cpu=400):
        for _ in range(n):
            yield np.asarray(user.generate_single_load_profile(0, PEAK, 0)).tolist()


def first_on(day, lo, hi, eps=0.0015):
    for m in range(lo, hi):
        if day[m] > eps:
            return m
    return None


def last_on(day, lo, hi, eps=0.0015):
    for m in range(hi - 1, lo - 1, -1):
        if day[m] > eps:
            return m
    return None


def uniform_pmf(a, b, lo=0, hi=1440):
    """uniform integers a..b, clipped to lo..hi"""
    out = {}
    p = 1.0 / (b - a + 1)
    for x in range(a, b + 1):
        y = min(max(x, lo), hi)
        out[y] = out.get(y, 0) + p
    return out


def floor_pmf(a, b):
    """floor of a uniform number of [a, b]"""
    if b - a < 1e-12:
        return {int(math.floor(a + 1e-9)): 1.0}
    out = {}
    for k in range(int(math.floor(a)), int(math.floor(b)) + 1):
        p = (min(b, k + 1) - max(a, k)) / (b - a)
        if p > 1e-12:
            out[k] = p
    return out


def run_case(case, obs):
    rng = random.Random(case["seed"])
    return globals()["do_" + case["kind"]](rng, obs, case["scale"])


def do_edges(rng, obs, scale):
    n = 2500 * scale
    nw = rng.choice([1, 2, 3])
    var = rng.choice([0.05, 0.1, 0.25, 0.4, round(rng.uniform(0.05, 0.45), 3)])
    ws, _ = gen.windows(rng, nw=nw, var=var, minlen=40, gap=1, shuffle=False)
    if rng.random() < 0.4:
        ws[0] = [0, ws[0][1] - ws[0][0]]
    app = gen.base_appliance(rng, ws, var, 10, 1, flat="yes", power=5)
    starts, ends = [[] for _ in ws], [[] for _ in ws]
    for day in draw(app, n, "simulation", usecase=False):
        for i, w in enumerate(ws):
            lo, hi = gen.outer(w, var)
            a, b = first_on(day, lo, hi), last_on(day, lo, hi)
            if a is None:
                raise Violation("window %s (variability %g) has no load" % (w, var), key="window-missing")
            starts[i].append(a)
            ends[i].append(b + 1)
    for i, w in enumerate(ws):
        v = int(var * (w[1] - w[0]))
        stats.check_discrete(starts[i], uniform_pmf(w[0] - v, w[0] + v), "start of window %s +- %d" % (w, v), key="window-law")
        stats.check_discrete(ends[i], uniform_pmf(w[1] - v, w[1] + v), "end of window %s +- %d" % (w, v), key="window-law")
        # the two edges do not depend on each other, nor on the other windows
        both = sum(1 for a, b in zip(starts[i], ends[i]) if a > w[0] and b > w[1])
        pa = sum(p for x, p in uniform_pmf(w[0] - v, w[0] + v).items() if x > w[0])
        pb = sum(p for x, p in uniform_pmf(w[1] - v, w[1] + v).items() if x > w[1])
        stats.check_proportion(both, n, pa * pb, "start and end of window %s both later" % w, key="window-independence")
        for j in range(i):
            u = ws[j]
            vj = int(var * (u[1] - u[0]))
            pj = sum(p for x, p in uniform_pmf(u[0] - vj, u[0] + vj).items() if x > u[0])
            both = sum(1 for a, b in zip(starts[i], starts[j]) if a > w[0] and b > u[0])
            stats.check_proportion(both, n, pa * pj, "starts of windows %s and %s both later" % (w, u), key="window-independence")
    obs.add("window_edges", 2 * n * len(ws))
    obs.sample(dict(kind="edges", windows=ws, var=var, n=n, first=sorted(set(starts[0]))[:3], last=sorted(set(starts[0]))[-3:]))
    return {("edges", var, str(ws), a) for a in set(starts[0])}


def do_joint(rng, obs, scale):
    n = 6000 * scale
    L = rng.randint(20, 40)
    v = rng.choice([1, 2])
    var = (v + 0.3) / L
    s = rng.randint(100, 1200)
    app = gen.base_appliance(rng, [[s, s + L]], var, 10, 1, flat="yes", power=5)
    cells = []
    k = 2 * v + 1
    for day in draw(app, n, "simulation"):
        a, b = first_on(day, s - v - 1, s + L + v + 1), last_on(day, s - v - 1, s + L + v + 1)
        cells.append((a - s + v) * k + (b + 1 - s - L + v))
    stats.check_discrete(cells, {c: 1.0 / k / k for c in range(k * k)}, "start and end of [%d, %d] +- %d" % (s, s + L, v), key="window-law")
    obs.add("window_edges", 2 * n)
    return {("joint", s, L, v, c) for c in set(cells)}


def use_cdf(ft, v, fc, cap):
    """law of round(ft + (int(ft U) - ft) W), U uniform on 1 +- v, W uniform on [0, 1]"""
    pm = floor_pmf(ft * (1 - v), ft * (1 + v))

    def raw(x):
        # P(ft + (T - ft) W <= x)
        tot = 0.0
        for T, p in pm.items():
            d = T - ft
            if d == 0:
                tot += p * (1.0 if x >= ft else 0.0)
            else:
                w = (x - ft) / d
                tot += p * (min(1.0, max(0.0, w)) if d > 0 else 1.0 - min(1.0, max(0.0, w)))
        return tot

    lo = int(ft * (1 - v)) - 1
    hi = int(ft * (1 + v)) + 1
    out = {}
    prev = 0.0
    for k in range(lo, hi + 1):
        F = raw(k + 0.5) if k < hi else 1.0
        q = F - prev
        prev = F
        if q > 1e-12:
            y = min(max(k, fc), cap)
            out[y] = out.get(y, 0.0) + q
    return out


def do_use(rng, obs, scale):
    n = 2000 * scale
    ft = rng.choice([3, 10, 40, 100, rng.randint(5, 120)])
    v = rng.choice([0.1, 0.3, 0.5, 1.0, round(rng.random(), 2)])
    fc = rng.choice([max(1, ft // 3), max(1, ft // 2), 1 if ft < 30 else ft // 4])
    app = gen.base_appliance(rng, [[0, 1440]], 0, ft, fc, time_fraction_random_variability=v, power=5)
    T = []
    for day in draw(app, n, "simulation"):
        t = 0
        for x in day:
            if x > 0.0015:
                t += 1
        T.append(t)
    pmf = use_cdf(ft, v, fc, int(0.99 * 1440))
    stats.check_discrete(T, pmf, "daily time of use (func_time %d +- %g, func_cycle %d)" % (ft, v, fc), key="time-law")
    obs.add("times_of_use", n)
    obs.sample(dict(kind="use", func_time=ft, var=v, func_cycle=fc, n=n, min=min(T), max=max(T), mean=sum(T) / n))
    return {("use", ft, v, fc, t) for t in set(T)}


def do_start(rng, obs, scale):
    n = 3000 * scale
    nw = rng.choice([1, 2, 3])
    ws, _ = gen.windows(rng, nw=nw, var=0, minlen=4, gap=1)
    if rng.random() < 0.4:
        # windows of a few positions each
        a = rng.randint(0, 900)
        ws = [[a, a + 9], [a + 30, a + 38], [a + 200, a + 206]][:nw]
    big = max(w[1] - w[0] for w in ws)
    tot = sum(w[1] - w[0] for w in ws)
    c = max(1, min(rng.choice([1, 5, 30, big // 2, big - 1]), big, int(0.99 * tot)))
    app = gen.base_appliance(rng, ws, 0, c, c, power=5, number=rng.choice([1, 3]))
    starts = []
    feas = [m for w in ws for m in range(w[0], w[1] - c + 1)]
    for day in draw(app, n, "simulation"):
        a = first_on(day, 0, 1440)
        b = last_on(day, 0, 1440)
        if a is None or b - a + 1 != c:
            raise Violation("a single event of %d minutes appears as [%s, %s]" % (c, a, b), key="event")
        starts.append(a)
    stats.check_discrete(starts, {m: 1.0 / len(feas) for m in feas}, "start of an event of %d minutes in %s" % (c, ws), key="start-law")
    obs.add("event_starts", n)
    obs.sample(dict(kind="start", windows=ws, func_cycle=c, n=n, positions=len(feas), seen=len(set(starts))))
    return {("start", str(ws), c, s) for s in set(starts)}


def do_cyclestart(rng, obs, scale):
    """one event a day, which can start wherever it overlaps the window of a duty cycle"""
    n = 2000 * scale
    ncyc = rng.choice([1, 2, 3, 3])
    c = rng.choice([1, 4, 10, 25])
    s = rng.randint(0, 900)
    L = rng.randint(3 * c + 40, 3 * c + 200)
    app = gen.base_appliance(rng, [[s, s + L]], 0, c, c, power=0, number=1)
    app.update(fixed_cycle=ncyc, continuous_duty_cycle=rng.choice([0, 1]))
    part = L // ncyc
    cws = []
    for k in range(1, ncyc + 1):
        # a short window of the cycle within its part of the window of use
        a = s + (k - 1) * part + rng.randint(0, max(0, part - 8))
        w = [a, a + rng.randint(1, 8)]
        cws.append(w)
        app.update({"p_%d1" % k: 10.0, "t_%d1" % k: c, "p_%d2" % k: 20.0, "t_%d2" % k: c, "cw%d%d" % (k, rng.choice([1, 2])): w})
        if ncyc == 1 and rng.random() < 0.5:
            b = s + rng.randint(0, L - 4)
            app.update(cw11=w, cw12=[b, b + 3])
            cws.append(app["cw12"])
    if ncyc == 1 and len(cws) == 1:
        # the other window is the default one of the appliance
        app.update(cw11=cws[0], cw12=[0, 0])
    feas = [m for m in range(s, s + L - c + 1) if any(m < w[1] and m + c > w[0] for w in cws)]
    edge = {m for m in range(s, s + L - c + 1) if any(m == w[1] or m + c - 1 == w[0] - 1 for w in cws)} - set(feas)
    starts = []
    for day in draw(app, n, "simulation"):
        a = first_on(day, 0, 1440)
        b = last_on(day, 0, 1440)
        if a is None or b - a + 1 != c:
            raise Violation("a single event of %d minutes appears as [%s, %s]" % (c, a, b), key="event")
        if a not in edge:
            starts.append(a)
    stats.check_discrete(starts, {m: 1.0 / len(feas) for m in feas}, "start of an event of %d minutes in %s with duty cycles in %s" % (c, [s, s + L], cws),
                         key="start-law")
    obs.add("cycle_starts", len(starts))
    return {("cyclestart", s, L, c, str(cws), m) for m in set(starts)}


def do_sets(rng, obs, scale):
    """two events of one minute each: every pair of minutes is as likely"""
    n = 2500 * scale
    s = rng.choice([0, rng.randint(1, 1000)])
    if rng.random() < 0.5:
        ws = [[s, s + 6]]
    else:
        k = rng.randint(2, 4)
        ws = [[s, s + k], [s + 100, s + 100 + 6 - k]]
    app = gen.base_appliance(rng, ws, 0, 2, 1, power=5)
    mins = [m for w in ws for m in range(w[0], w[1])]
    idx = {}
    for i in range(6):
        for j in range(i + 1, 6):
            idx[(mins[i], mins[j])] = len(idx)
    got = []
    for day in draw(app, n, "simulation"):
        on = tuple(m for m in mins if day[m] > 0.0015)
        if on not in idx:
            raise Violation("two minutes of use appear as %s" % (on,), key="event")
        got.append(idx[on])
    stats.check_discrete(got, {c: 1.0 / 15 for c in range(15)}, "pairs of minutes in %s" % ws, key="start-law")
    obs.add("minute_sets", n)
    return {("sets", s, len(ws), g) for g in set(got)}


def do_length(rng, obs, scale):
    """first event: the only one which can last func_cycle, as two do not fit"""
    n = 2500 * scale
    R = rng.choice([20, 60, rng.randint(10, 100)])
    fc = R // 2 + rng.randint(1, max(1, R // 4))
    a = rng.randint(0, 1000)
    W = rng.choice([R * 4, R + 10, 440])
    R = min(R, int(0.99 * W))
    app = gen.base_appliance(rng, [[a, a + W]], 0, R, fc, power=1000, thermal_p_var=0.3)
    u, starts = [], []
    for day in draw(app, n, "simulation"):
        segs = sim.segments(day)
        x, y, _ = max(segs, key=lambda s: s[1] - s[0])
        L = y - x
        big = min(R, a + W - x)
        if L < fc or (big > fc and L > big) or (big <= fc and L != fc):
            raise Violation("first event of %d minutes at %d (func_cycle %d, at most %d)" % (L, x, fc, big), key="event-length")
        if big > fc:
            # uniform over func_cycle .. big-1
            if L >= big:
                raise Violation("event of %d minutes (func_cycle %d, at most %d)" % (L, fc, big), key="event-length")
            u.append((L - fc + rng.random()) / (big - fc))
        starts.append(x)
    stats.check_cdf(u, lambda z: min(1.0, max(0.0, z)), "length of the first event (func_cycle %d, time %d)" % (fc, R), key="length-law")
    obs.add("event_lengths", len(u))
    obs.sample(dict(kind="length", func_cycle=fc, time=R, window=[a, a + W], n=n))
    return {("length", R, fc, W, round(z, 2)) for z in u[:200]}


def do_power(rng, obs, scale):
    n = 500 * scale
    th = rng.choice([0.05, 0.2, 0.5, 0.9])
    P = rng.choice([10, 150.5, 2000])
    app = gen.base_appliance(rng, [[100, 900]], 0, 200, 4, power=P, thermal_p_var=th, number=1)
    u, pairs = [], 0
    npairs = 0
    for day in draw(app, n, "simulation"):
        lv = [(v / P - 1 + th) / (2 * th) for _, _, v in sim.segments(day)]
        u += lv
        for k in range(0, len(lv) - 1, 2):
            npairs += 1
            pairs += (lv[k] > 0.5) and (lv[k + 1] > 0.5)
    stats.check_cdf(u, lambda z: min(1.0, max(0.0, z)), "power of the events (%g +- %g)" % (P, th), key="power-law")
    stats.check_proportion(pairs, npairs, 0.25, "power of two events of one day both above the nominal one", key="power-independence")
    obs.add("event_powers", len(u))
    obs.sample(dict(kind="power", power=P, thermal_p_var=th, events=len(u), mean=sum(u) / max(1, len(u))))
    return {("power", P, th, round(z, 2)) for z in u[:200]}


def cycle_app(rng, ncyc, r):
    """event of 100 minutes, playing one duty cycle"""
    a = rng.randint(0, 900)
    app = gen.base_appliance(rng, [[a, a + 400]], 0, 120, 120, power=1)
    app["fixed_cycle"] = ncyc
    app["continuous_duty_cycle"] = 1
    c = rng.randint(1, ncyc)
    for i in range(1, ncyc + 1):
        app.update({"p_%d1" % i: 100.0 * i, "t_%d1" % i: rng.randint(4, 24), "p_%d2" % i: 100.0 * i + 50,
                    "t_%d2" % i: rng.randint(4, 24), "r_c%d" % i: r, "cw%d1" % i: [a, a + 400] if i == c else [0, 0]})
    return app, a, c


def phases(day, a, swap_ok):
    """[(power, minutes)] of the first two phases of the single event"""
    segs = sim.segments(day)
    if len(segs) < 3 or segs[0][1] != segs[1][0] or segs[-1][1] - segs[0][0] != 120:
        raise Violation("a single event of 120 minutes appears as %s" % segs[:6], key="event")
    return [(segs[k][2], segs[k][1] - segs[k][0]) for k in (0, 1)]


def do_phase(rng, obs, scale):
    n = 1200 * scale
    r = rng.choice([0.1, 0.25, 0.5, 0.75])
    ncyc = rng.choice([1, 1, 2])
    app, a, c = cycle_app(rng, ncyc, r)
    th = rng.choice([0, 0.2])
    app["thermal_p_var"] = th
    D = [[], []]
    U = [[], []]
    for day in draw(app, n, "simulation"):
        ph = phases(day, a, False)
        for k in (0, 1):
            p = app["p_%d%d" % (c, k + 1)]
            x, L = ph[k]
            if not p * (1 - th) * (1 - 1e-9) <= x <= p * (1 + th) * (1 + 1e-9):
                raise Violation("power %g in phase %d of a cycle of %g W +- %g" % (x, k + 1, p, th), key="phase-power")
            D[k].append(L)
            if th:
                U[k].append((x / p - 1 + th) / (2 * th))
    for k in (0, 1):
        t = app["t_%d%d" % (c, k + 1)]
        stats.check_discrete(D[k], floor_pmf(t * (1 - r), t * (1 + r)), "duration of phase %d (%d +- %g)" % (k + 1, t, r), key="phase-law")
        if th:
            stats.check_cdf(U[k], lambda z: min(1.0, max(0.0, z)), "power of phase %d" % (k + 1), key="phase-power")
            obs.add("event_powers", n)
    # the two phases vary independently
    med = []
    for k in (0, 1):
        t = app["t_%d%d" % (c, k + 1)]
        pm = floor_pmf(t * (1 - r), t * (1 + r))
        med.append((t, sum(p for x, p in pm.items() if x >= t)))
    both = sum(1 for x, y in zip(*D) if x >= med[0][0] and y >= med[1][0])
    stats.check_proportion(both, n, med[0][1] * med[1][1], "both phases at least as long as their nominal duration", key="phase-independence")
    if th:
        both = sum(1 for x, y in zip(*U) if x > 0.5 and y > 0.5)
        stats.check_proportion(both, n, 0.25, "both phases above their nominal power", key="phase-independence")
    obs.add("phase_durations", 2 * n)
    obs.sample(dict(kind="phase", cycle=c, t=[app["t_%d1" % c], app["t_%d2" % c]], r=r, n=n, seen=[sorted(set(d))[:: max(1, len(set(d)) - 1)] for d in D]))
    return {("phase", ncyc, c, r, x, y) for x, y in zip(*D)}


def do_order(rng, obs, scale):
    """with three duty cycles, each day plays a cycle as it is or with its phases swapped, as likely"""
    n = 800 * scale
    r = rng.choice([0, 0.3])
    app, a, c = cycle_app(rng, 3, r)
    fwd = 0
    seq = []
    D = {0: [], 1: []}
    for day in draw(app, n, "simulation"):
        ph = phases(day, a, True)
        p1, p2 = app["p_%d1" % c], app["p_%d2" % c]
        if (ph[0][0], ph[1][0]) == (p1, p2):
            first = 0
        elif (ph[0][0], ph[1][0]) == (p2, p1):
            first = 1
        else:
            raise Violation("phases %s in a cycle of %g and %g W" % (ph, p1, p2), key="phase-power")
        D[first].append(ph[0][1])
        D[1 - first].append(ph[1][1])
        fwd += first == 0
        seq.append(first)
    stats.check_proportion(fwd, n, 0.5, "cycle %d in its direct order" % c, key="order-law")
    same = sum(seq[k] == seq[k + 1] for k in range(0, n - 1, 2))
    stats.check_proportion(same, len(range(0, n - 1, 2)), 0.5, "same order two days in a row", key="order-law")
    for k in (0, 1):
        t = app["t_%d%d" % (c, k + 1)]
        stats.check_discrete(D[k], floor_pmf(t * (1 - r), t * (1 + r)), "duration of phase %d (%d +- %g)" % (k + 1, t, r), key="phase-law")
    obs.add("phase_orders", n)
    obs.add("phase_durations", 2 * n)
    return {("order", c, r, f, d) for f in (0, 1) for d in set(D[f])}


def do_days(rng, obs, scale):
    """days are drawn independently: window edges, starts and powers of two days in a row"""
    n = 1200 * scale
    nu = rng.choice([1, 1, 2])
    W = 401
    a = rng.randint(50, 500)
    c = 21
    pos = W - c + 1
    app = gen.base_appliance(rng, [[a, a + W]], 0, c, c, power=1000, thermal_p_var=0.3)
    flat = dict(gen.base_appliance(rng, [[1000, 1101]], 0.2, 10, 1, flat="yes", power=5))
    spec = sim.one(app, num_days=n)
    spec["users"][0]["appliances"].append(flat)
    spec["users"][0]["appliances"][0]["name"] = "x"
    spec["users"][0]["appliances"][1]["name"] = "y"
    uc, prof = sim.profiles(spec, draws=100_000_000)
    st, pw, ed = [], [], []
    for row in prof:
        day = row.tolist()
        x = first_on(day, 0, a + W)
        st.append(x - a)
        pw.append(day[x])
        e = first_on(day, 970, 1060)
        ed.append(e - 1000)
    mid = [(st, lambda z: 2 * z >= pos - 1 + 1, sum(1 for z in range(pos) if 2 * z >= pos) / pos, "start"),
           (pw, lambda z: z > 1000, 0.5, "power"),
           (ed, lambda z: z > 0, 20 / 41.0, "window")]
    for vals, f, p, what in mid:
        stats.check_proportion(sum(1 for z in vals if f(z)), n, p, "%s above the middle" % what, key="day-law")
        for lag in (1, 7):
            if lag == 1:
                pr = [(k, k + 1) for k in range(0, n - 1, 2)]
            else:
                pr = [(k, k + 7) for b in range(0, n - 14, 14) for k in range(b, b + 7)]
            both = sum(1 for i, j in pr if f(vals[i]) and f(vals[j]))
            stats.check_proportion(both, len(pr), p * p, "%s of days %d apart both above the middle" % (what, lag), key="day-independence")
            obs.add("day_pairs", len(pr))
    # nor do the appliances of one user depend on each other
    both = sum(1 for x, y in zip(st, ed) if 2 * x >= pos and y > 0)
    stats.check_proportion(both, n, mid[0][2] * mid[2][2], "start of an appliance and window of another", key="appliance-independence")
    # every day is different
    if len(set(pw)) < n:
        raise Violation("the same random power was drawn on different days", key="day-independence")
    obs.sample(dict(kind="days", n=n, distinct_starts=len(set(st)), distinct_edges=len(set(ed))))
    return {("days", a, s) for s in st}
