"""Number of units switched on together: fixed, on-peak and off-peak laws, and what is on-peak."""
import math
import random

import numpy as np

from .. import gen, sim, stats
from ..core import Violation

RULE = (
    "one case = one appliance of n units with its peak time range, simulated over many days; each switch-on event is decoded "
    "(start, end, units on) and classified by whether it touches the peak time range; the units of each class are compared "
    "with the law of the model. Non-trivial: events; distinct by (n, class, units)."
)
FLOORS = {"last_minute_events": 300, "peak_events": 5000, "offpeak_events": 5000, "fixed_events": 500, "edge_peak_events": 800, "edge_off_events": 800, "cut_events": 300, "duty_events": 5000}
KNOWN_KEYS = {}


def cases(tier, seed):
    n = 60 if tier == "quick" else 440
    kinds = ("edge", "all_peak", "all_off", "mixed", "fixed", "natural", "small", "mixed", "cut", "duty")
    for i in range(n):
        yield dict(kind=kinds[i % 10], seed=seed * 1000121 + i, tier=tier, start=i // 10 % 2)


def tier_scale(case):
    return case.get("tier", "quick")


def peak_pmf(n):
    """clip(ceil(N(n/2, n/4)), 1, n)"""
    mu, s = n * 0.5, 0.5 * n * 0.5
    pmf = {}
    for k in range(1, n + 1):
        hi = stats.phi((k - mu) / s) if k < n else 1.0
        lo = stats.phi((k - 1 - mu) / s) if k > 1 else 0.0
        pmf[k] = hi - lo
    return pmf


def off_pmf(n):
    if n == 1:
        return {1: 1.0}
    pmf = {k: 1.0 / (n - 0.5) for k in range(1, n)}
    pmf[n] = 0.5 / (n - 0.5)
    return pmf


def decode(prof, app, rel):
    """[(start, last, k)] for every event; the thermal variability `rel` makes the level of
    each event unique while the number of units remains unambiguous"""
    out = []
    p = app["power"]
    n = app["number"]
    for day in prof:
        for a, b, v in sim.segments(day):
            k = int(round(v / p))
            if not (1 <= k <= n) or abs(v - k * p) > k * p * rel * (1 + 1e-6):
                raise Violation("level %.6f is not 1..%d units of %g" % (v, n, p), key="power-level")
            out.append((a, b - 1, k))
    return out


def run_case(case, obs):
    rng = random.Random(case["seed"])
    kind = case["kind"]
    if kind == "duty":
        return duty(rng, obs, 1500 if tier_scale(case) == "quick" else 5000)
    n = rng.choice([1, 2, 3, 5, 10, 40, 100])
    if kind == "small":
        n = rng.choice([1, 2, 3])
    if kind == "natural":
        n = rng.choice([10, 60])
    if kind in ("edge", "cut"):
        n = rng.choice([2, 2, 3])
    rel = 0.4 / (n * 2 + 2)
    L = rng.randint(100, 500)
    s = rng.randint(0, 1440 - L)
    fc = rng.choice([1, 5, 12])
    if kind == "edge":
        L, fc = 12, 5
        s = rng.randint(10, 1390)
    if kind == "cut":
        # the second event of a day is cut to the time which is left
        L, fc = 60, 15
        s = rng.randint(10, 1350)
    app = dict(number=n, power=10, window_1=[s, s + L], random_var_w=0, func_cycle=fc, func_time=min(L, fc * rng.randint(8, 20)),
               time_fraction_random_variability=0.1, thermal_p_var=rel, fixed="yes" if kind == "fixed" else "no")
    days = {"edge": 7000, "cut": 4000, "all_peak": 700, "all_off": 700}.get(kind, 250)
    if tier_scale(case) == "thorough":
        days *= 3
    if kind == "edge":
        app["func_time"] = 5
        app["time_fraction_random_variability"] = 0
    if kind == "cut":
        app["func_time"] = 20
        app["time_fraction_random_variability"] = 0
    spec = sim.one(app, num_days=days if kind not in ("edge", "cut") else 2, date_start="2021-03-01")
    if kind == "all_peak":
        peak = np.arange(max(0, s - 5), s + L + 3)
    elif kind == "all_off":
        peak = np.arange(s + L, s + L + 30) if rng.random() < 0.5 else np.arange(max(-40, s - 40), s)
    elif kind == "natural":
        peak = None
    elif kind in ("edge", "cut"):
        # the peak starts or ends in the middle of the window
        m = s + L // 2
        peak = np.arange(m, m + 200) if case["start"] else np.arange(m - 200, m)
    else:
        m = rng.randint(s, s + L)
        peak = np.arange(m, m + rng.choice([2, 20, 100]))
    uc = sim.build(spec)
    via = rng.choice(["usecase", "user"]) if kind not in ("edge", "cut") else "user"
    if peak is None:
        # the range of the use case itself
        uc, prof = sim.profiles(spec, uc=uc)
        peak = np.asarray(uc.peak_time_range)
    elif via == "usecase":
        uc.peak_time_range = peak
        uc, prof = sim.profiles(spec, uc=uc)
    else:
        with sim.guard("generate_single_load_profile", draws=100_000_000, cpu=600):
            user = uc.users[0]
            if kind in ("edge", "cut"):
                prof = [user.generate_single_load_profile(0, peak, 0).tolist() for d in range(days)]
            else:
                prof = [user.generate_single_load_profile(d, peak, 0) for d in range(days)]
    evs = decode(prof, app, rel)
    lo, hi = int(peak[0]), int(peak[-1])
    on, off = [], []
    e_on, e_off, e_cut = [], [], []
    for a, b, k in evs:
        touches = not (b < lo or a > hi)
        (on if touches else off).append(k)
        if touches and (b == lo or a == hi):
            e_on.append(k)
        if not touches and (b == lo - 1 or a == hi + 1):
            e_off.append(k)
        if kind == "cut" and b < lo <= a + 14 and b - a < 5:
            e_cut.append(k)
    if kind == "fixed":
        if any(k != n for k in on + off):
            raise Violation("units of a fixed appliance are not switched on all together", key="fixed-units")
        obs.add("fixed_events", len(evs))
        return [("fixed", n, len(evs))]
    stats.check_discrete(on, peak_pmf(n), "units on-peak (n=%d)" % n, key="peak-law", peak=[lo, hi], kind=kind)
    stats.check_discrete(off, off_pmf(n), "units off-peak (n=%d)" % n, key="offpeak-law", peak=[lo, hi], kind=kind)
    if e_on:
        stats.check_discrete(e_on, peak_pmf(n), "units of events touching one end of the peak (n=%d)" % n, key="peak-edge", peak=[lo, hi])
    if e_off:
        stats.check_discrete(e_off, off_pmf(n), "units of events just next to the peak (n=%d)" % n, key="peak-edge", peak=[lo, hi])
    if e_cut:
        stats.check_discrete(e_cut, off_pmf(n), "units of events which do not reach the peak because they were cut (n=%d)" % n, key="peak-cut", peak=[lo, hi])
    obs.add("cut_events", len(e_cut))
    obs.add("peak_events", len(on))
    obs.add("offpeak_events", len(off))
    obs.add("edge_peak_events", len(e_on))
    obs.add("edge_off_events", len(e_off))
    obs.add("last_minute_events", sum(1 for a, b, k in evs if a == hi))
    obs.sample(dict(kind=kind, app=app, peak=[lo, hi], on_peak=len(on), off_peak=len(off), mean_on=sum(on) / max(1, len(on)), mean_off=sum(off) / max(1, len(off))))
    return {(n, "on", k) for k in on} | {(n, "off", k) for k in off} | {(kind, case["seed"])}


def duty(rng, obs, days):
    """appliances with duty cycles: one event per day, of which the first phase tells the number of units"""
    n = rng.choice([2, 3, 5, 10, 30])
    fc = rng.choice([1, 5, 12])
    L = rng.choice([2 * fc + 3, 60, 200])
    s = rng.randint(10, 1430 - L)
    fixed = rng.random() < 0.15
    ncyc = rng.choice([1, 2, 3])
    app = dict(number=n, power=0, window_1=[s, s + L], random_var_w=0, func_cycle=fc, func_time=fc, fixed="yes" if fixed else "no",
               fixed_cycle=ncyc, continuous_duty_cycle=rng.choice([0, 1]))
    for c in range(1, ncyc + 1):
        app.update({"p_%d1" % c: 10.0 * 10 ** c, "t_%d1" % c: rng.randint(1, 9), "p_%d2" % c: 10.0 * 10 ** c, "t_%d2" % c: fc + rng.randint(0, 5)})
    if ncyc > 1:
        m = s + L // 2
        cut = [[s, m], [m + 1, s + L]] if ncyc == 2 else [[s, s + L // 3], [s + L // 3 + 1, m], [m + 1, s + L]]
        for c, w in enumerate(cut):
            app["cw%d%d" % (c + 1, rng.choice([1, 2]))] = w
    m = s + rng.randint(0, L)
    peak = np.arange(m, m + rng.choice([2, 20, 100])) if rng.random() < 0.5 else np.arange(max(0, m - 50), m)
    lo, hi = int(peak[0]), int(peak[-1])
    with sim.guard("generate_single_load_profile", draws=100_000_000, cpu=600):
        user = sim.build(sim.one(app, num_days=2)).users[0]
        prof = [user.generate_single_load_profile(0, peak, 0).tolist() for d in range(days)]
    on, off = [], []
    for day in prof:
        segs = sim.segments(day)
        if len(segs) != 1 or segs[0][1] - segs[0][0] != fc:
            raise Violation("a single event of %d minutes is expected, the load is %s" % (fc, segs[:5]), key="duty-event")
        a, b, v = segs[0]
        # the cycle of the event, known from its position
        own = 1 if ncyc == 1 else [c + 1 for c, w in enumerate(cut) if not (b - 1 < w[0] or a > w[1])][0]
        P = 10.0 * 10 ** own
        k = int(round(v / P))
        if abs(v / P - k) > 1e-9 or not 1 <= k <= n:
            raise Violation("level %s is not 1..%d units of duty cycle %d" % (v, n, own), key="power-level")
        (off if b - 1 < lo or a > hi else on).append(k)
    if fixed:
        if any(k != n for k in on + off):
            raise Violation("units of a fixed appliance are not switched on all together", key="fixed-units")
        obs.add("fixed_events", len(on) + len(off))
    else:
        stats.check_discrete(on, peak_pmf(n), "units of a duty cycle on-peak (n=%d)" % n, key="peak-law", peak=[lo, hi])
        stats.check_discrete(off, off_pmf(n), "units of a duty cycle off-peak (n=%d)" % n, key="offpeak-law", peak=[lo, hi])
    obs.add("duty_events", len(on) + len(off))
    return {("duty", n, k, ncyc) for k in set(on + off)}
