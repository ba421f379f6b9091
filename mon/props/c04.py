"""Every switch-on event lasts at least func_cycle minutes (one may be cut short by the daily
time of use) and lies within a single window."""
import random

from .. import daycheck, gen, sim
from ..core import Violation

RULE = (
    "one case = one appliance without duty cycle, with thermal variability so that every switch-on event has its own "
    "power level, simulated over several days; events are the segments of constant level. Non-trivial: days with events; "
    "distinct by the list of (start, length)."
)
FLOORS = {"events": 5000, "events_long_cycle": 500, "cut_events": 50, "crossing_events": 3000}
KNOWN_KEYS = {}


def cases(tier, seed):
    n = 1800 if tier == "quick" else 14000
    kinds = ("any", "long", "adjacent", "long", "merge", "tight", "crossing")
    for i in range(n):
        yield dict(kind=kinds[i % 7], seed=seed * 1000039 + i)


def run_case(case, obs):
    rng = random.Random(case["seed"])
    days = rng.randint(6, 14)
    kind = case["kind"]
    if kind == "crossing":
        return crossing(rng, obs, days)
    unique = kind != "merge"
    app = daycheck.plain_app(rng, days=days, thermal=rng.choice([0.05, 0.3]) if unique else 0)
    if kind == "adjacent":
        # windows which touch each other
        k = rng.choice([2, 3])
        cut = sorted(rng.sample(range(0, 1441), k + 1))
        ws = [[cut[i], cut[i + 1]] for i in range(k)]
        rng.shuffle(ws)
        for i in range(3):
            app.pop("window_%d" % (i + 1), None)
        for i, w in enumerate(ws):
            app["window_%d" % (i + 1)] = w
        app["num_windows"] = k
        app["random_var_w"] = 0
        app["func_time"], app["func_cycle"] = gen.func_time_and_cycle(rng, ws, 0)
    ws = daycheck.app_windows(app)
    tot = sum(w[1] - w[0] for w in ws)
    fcm = gen.max_func_cycle(ws, app["random_var_w"])
    if kind in ("long", "tight", "merge") and fcm >= 1:
        app["func_cycle"] = max(1, min(fcm, rng.randint(1, max(1, max(w[1] - w[0] for w in ws) // rng.randint(2, 12)))))
        if kind == "tight":
            app["func_time"] = tot
        elif rng.random() < 0.6:
            app["func_time"] = max(1, min(tot, app["func_cycle"] * rng.randint(1, 12) + rng.randint(0, app["func_cycle"])))
    spec = sim.one(app, num_days=days, how=rng.choice(["dates", "init"]))
    uc, prof = sim.profiles(spec)
    sim.sane(prof)
    sigs = set()
    for d in range(days):
        day = prof[d].tolist()
        wins = daycheck.actual_windows(prof[d], app)
        nev, short = daycheck.oracle_events(prof[d], app, wins, unique)
        obs.add("events", nev)
        if app.get("func_cycle", 1) > 5:
            obs.add("events_long_cycle", nev)
        obs.add("cut_events", short)
        if kind == "adjacent":
            # an event does not continue into the next window: the level changes at the border
            for a, b in wins:
                if 0 < a and day[a] > 0.0015 and day[a - 1] == day[a]:
                    raise Violation(
                        "a switch-on event continues across the border of two windows at minute %d" % a,
                        key="two-windows",
                    )
        if nev:
            sigs.add(tuple((a, b - a) for a, b, _ in sim.segments(prof[d])))
    obs.sample(dict(app=app, last_day_events=[(a, b, round(v, 3)) for a, b, v in sim.segments(prof[-1])][:6]))
    return sigs


def crossing(rng, obs, days):
    """windows which touch or overlap: the events do not overlap, and each of them lies in one of the windows"""
    app, ws, union = daycheck.crossing_app(rng, days, thermal=rng.choice([0.05, 0.3]))
    fc = app["func_cycle"]
    spec = sim.one(app, num_days=days, how=rng.choice(["dates", "init"]))
    uc, prof = sim.profiles(spec)
    sim.sane(prof)
    sigs = set()
    for d in range(days):
        daycheck.oracle_outside(prof[d], app)
        segs = sim.segments(prof[d])
        short = [(a, b) for a, b, _ in segs if b - a < fc]
        if len(short) > 1:
            raise Violation("%d switch-on events are shorter than func_cycle=%d minutes on the same day: %s (windows %s)" % (len(short), fc, short[:4], ws), key="short-event")
        for a, b, v in segs:
            if not any(w[0] <= a and b <= w[1] for w in ws):
                raise Violation("a switch-on event lasts from minute %d to %d, across the windows %s" % (a, b, ws), key="two-windows")
        obs.add("events", len(segs))
        obs.add("crossing_events", len(segs))
        sigs.add(tuple((a, b - a) for a, b, _ in segs))
    obs.sample(dict(app=app, windows=ws, last_day_events=[(a, b, round(v, 3)) for a, b, v in segs][:6]))
    return sigs
