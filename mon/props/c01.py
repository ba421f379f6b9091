"""Load is confined to the (randomised) windows of use."""
import random

import numpy as np

from .. import daycheck, gen, sim
from ..core import Violation

RULE = (
    "one case = one randomly generated appliance (1-3 windows, variability 0-100%, plain/flat/duty-cycle, "
    "constant or seasonal power) simulated over several days; every minute of every day is checked. "
    "Non-trivial: days on which the appliance was on; distinct by the decoded windows and switch-on intervals."
)
FLOORS = {"days_on": 500, "minutes_checked": 10000}
KNOWN_KEYS = {}


def cases(tier, seed):
    n = 1600 if tier == "quick" else 12000
    for i in range(n):
        yield dict(kind=("plain", "plain", "flat", "cycle", "multi")[i % 5], seed=seed * 1000003 + i)


def cycle_app(rng):
    app = daycheck.plain_app(rng, minlen=10)
    ws = daycheck.app_windows(app)
    app["fixed_cycle"] = 1 if len(ws) < 3 else 2
    app["continuous_duty_cycle"] = rng.choice([0, 1])
    for c in range(1, app["fixed_cycle"] + 1):
        app.update(
            {
                "p_%d1" % c: rng.choice([50, 800, 1200]),
                "t_%d1" % c: rng.randint(1, 30),
                "p_%d2" % c: rng.choice([5, 100, 400]),
                "t_%d2" % c: rng.randint(1, 30),
                "r_c%d" % c: rng.choice([0, 0.1, 0.4]),
            }
        )
    if app["fixed_cycle"] == 2:
        order = sorted(ws)
        app["cw11"], app["cw12"], app["cw21"] = [list(w) for w in order]
        app["cw22"] = [0, 0]
    return app


def run_case(case, obs):
    rng = random.Random(case["seed"])
    days = rng.randint(6, 16)
    if case["kind"] == "multi":
        return multi(rng, days, obs)
    if case["kind"] == "cycle":
        app = cycle_app(rng)
    else:
        app = daycheck.plain_app(rng, days=days)
        if case["kind"] == "flat":
            app["flat"] = "yes"
    spec = sim.one(app, num_days=days, how=rng.choice(["dates", "init", "late", "add"]))
    uc, prof = sim.profiles(spec)
    sim.sane(prof)
    sigs = set()
    for d in range(days):
        day = prof[d]
        daycheck.oracle_outside(day, app)
        wins = daycheck.actual_windows(day, app)
        obs.add("minutes_checked", 1440)
        on = sim.runs(day > 0.0015)
        if on:
            obs.add("days_on")
            sigs.add((tuple(wins), tuple(on)))
    obs.sample(dict(app=app, day0_windows=wins, day0_on=on[:6]))
    return sigs


def multi(rng, days, obs):
    """several users and appliances: nothing outside the union of all windows"""
    users = []
    allowed = np.zeros(1440, dtype=bool)
    day = rng.choice([1440, 1000, 600])
    for u in range(rng.randint(1, 3)):
        apps = []
        for a in range(rng.randint(1, 4)):
            app = daycheck.plain_app(rng, var=rng.choice([0, 0.1, 0.2]), days=days)
            app["name"] = "a%d" % a
            for w in daycheck.app_windows(app):
                lo, hi = gen.outer(w, app["random_var_w"])
                allowed[lo:hi] = True
            apps.append(app)
        users.append(dict(user_name="u%d" % u, num_users=rng.randint(0, 3), appliances=apps))
    spec = dict(users=users, num_days=days, date_start="2023-01-02", how=rng.choice(["dates", "late"]))
    uc, prof = sim.profiles(spec)
    sim.sane(prof)
    bad = np.argwhere((prof != 0) & ~allowed[None, :])
    if len(bad):
        raise Violation(
            "aggregated load at minute %d of day %d, outside of all windows" % (bad[0][1], bad[0][0]),
            key="outside-window",
        )
    obs.add("minutes_checked", prof.size)
    obs.add("days_on", int((prof > 0.01).any(axis=1).sum()))
    return [prof.tobytes()] if (prof > 0.01).any() else []
