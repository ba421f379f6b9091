"""Daily on-time: within func_time and its variability, at least func_cycle, at most 99% of
the time available; a shortfall only when nothing more fits."""
import random

from .. import daycheck, gen, sim
from . import c05
from ..core import Violation

RULE = (
    "one case = one appliance, with or without duty cycles, simulated over several days; the randomised windows are decoded from "
    "the load, and the minutes on are compared with the exact bounds. Non-trivial: days with some minutes on; distinct by "
    "(available, minutes on, bounds)."
)
FLOORS = {"days_on": 1000, "exact_days": 100, "capped_days": 30, "full_days": 5, "duty_days": 500, "crossing_days": 500}
KNOWN_KEYS = {}


def cases(tier, seed):
    n = 1800 if tier == "quick" else 14000
    kinds = ("any", "exact", "tight", "duty", "cycle", "capped", "any", "part", "crossing")
    for i in range(n):
        yield dict(kind=kinds[i % 9], seed=seed * 1000037 + i)


def run_case(case, obs):
    rng = random.Random(case["seed"])
    days = rng.randint(6, 14)
    kind = case["kind"]
    if kind in ("duty", "part"):
        return duty(rng, obs, kind, rng.randint(3, 8))
    if kind == "crossing":
        return crossing(rng, obs, days)
    app = daycheck.plain_app(rng, days=days)
    ws = daycheck.app_windows(app)
    tot = sum(w[1] - w[0] for w in ws)
    if kind == "exact":
        app["time_fraction_random_variability"] = 0
    elif kind == "tight":
        # long events in short windows: the time cannot always be reached
        fcm = gen.max_func_cycle(ws, app["random_var_w"])
        app["func_cycle"] = max(0, min(fcm, max(1, tot // rng.randint(2, 5))))
        app["func_time"] = tot
    elif kind == "cycle":
        fcm = gen.max_func_cycle(ws, app["random_var_w"])
        app["func_cycle"] = fcm
        app["func_time"] = rng.randint(1, max(1, min(tot, fcm or 1)))
    elif kind == "capped":
        app["func_time"] = tot
        app["time_fraction_random_variability"] = rng.choice([0, 0.2, 1.0])
    spec = sim.one(app, num_days=days, how=rng.choice(["dates", "init"]))
    uc, prof = sim.profiles(spec)
    sim.sane(prof)
    sigs = set()
    smp = []
    for d in range(days):
        day = prof[d]
        wins = daycheck.actual_windows(day, app)
        T, lo, hi, full = daycheck.oracle_time(day, app, wins)
        total = sum(b - a for a, b in wins)
        if T:
            obs.add("days_on")
            sigs.add((total, T, lo, hi, app.get("func_cycle")))
        if lo == hi:
            obs.add("exact_days")
        if hi == int(0.99 * total):
            obs.add("capped_days")
        if full:
            obs.add("full_days")
        smp.append((wins, T, lo, hi))
    obs.sample(dict(app=app, windows_on_lo_hi=smp[:2]))
    return sigs


def crossing(rng, obs, days):
    """windows which touch or overlap: no minute counts twice"""
    app, ws, union = daycheck.crossing_app(rng, days)
    app["time_fraction_random_variability"] = rng.choice([0, 0, 0.1])
    spec = sim.one(app, num_days=days, how=rng.choice(["dates", "init"]))
    uc, prof = sim.profiles(spec)
    sim.sane(prof)
    sigs = set()
    for d in range(days):
        daycheck.oracle_outside(prof[d], app)
        T, lo, hi, full = daycheck.oracle_time(prof[d], app, ws)
        if T:
            obs.add("crossing_days")
            sigs.add((union, T, lo, hi, app["func_cycle"]))
    obs.sample(dict(app=app, windows=ws, last_on=T, bounds=[lo, hi]))
    return sigs


def duty(rng, obs, kind, days):
    """duty cycles: whatever the windows of the cycles, the time of use is reached in what they leave"""
    if kind == "duty":
        app, ws, var = c05.duty_app(rng, rng.choice(["repeat", "single", "thermal", "three", "midnight"]))
        # without windows of its own, the cycle belongs to the windows of use as they are defined
        reach = [app[k] for k in app if k[:2] == "cw"] or ws
    else:
        nw = rng.choice([1, 1, 2])
        ws, var = gen.windows(rng, nw=nw, var=rng.choice([0, 0, 0.1]), minlen=60, gap=1)
        app = dict(num_windows=nw, random_var_w=var, fixed_cycle=rng.choice([2, 3]), continuous_duty_cycle=rng.choice([0, 1]),
                   number=rng.randint(1, 4), func_cycle=rng.choice([1, 2, 5, 20]), name="duty", power=0)
        for i, w in enumerate(ws):
            app["window_%d" % (i + 1)] = w
        # only parts of the windows of use belong to a cycle
        reach = []
        names = ["cw%d%d" % (c, k) for c in range(1, app["fixed_cycle"] + 1) for k in (1, 2)]
        for cw in rng.sample(names, rng.choice([1, 1, 2, 3])):
            w = rng.choice(ws)
            x = rng.randint(w[0], w[1] - 10)
            app[cw] = [x, rng.randint(x + 5, w[1])]
            reach.append(app[cw])
        app["func_time"] = rng.randint(1, sum(w[1] - w[0] for w in ws))
        app["func_cycle"] = max(1, min(app["func_cycle"], gen.max_func_cycle(ws, var)))
    app.setdefault("time_fraction_random_variability", 0)
    for c in range(1, app["fixed_cycle"] + 1):
        app.update({"p_%d1" % c: rng.choice([7, 120]), "p_%d2" % c: rng.choice([7, 900]),
                    "t_%d1" % c: rng.randint(3, 20), "t_%d2" % c: rng.randint(3, 20)})
    spec = sim.one(app, num_days=days, how=rng.choice(["dates", "init"]))
    uc, prof = sim.profiles(spec)
    sim.sane(prof)
    sigs = set()
    for d in range(days):
        wins = daycheck.actual_windows(prof[d], app)
        T, lo, hi, full = daycheck.oracle_time(prof[d], app, wins, reach)
        if T:
            obs.add("duty_days")
            sigs.add((T, lo, hi, app["func_cycle"], full))
    return sigs
