"""Flat appliances: exactly number x power during their windows, no other randomness."""
import random

import numpy as np

from .. import daycheck, gen, sim
from ..core import Violation, guard

RULE = (
    "one case = a flat appliance (windows fixed or varying, possibly overlapping or unordered, constant or seasonal power, "
    "any other random parameter set to a non-trivial value) simulated over several days; the load is compared with "
    "number x power, minute by minute. Non-trivial: days with load; distinct by (windows of the day, level)."
)
FLOORS = {"exact_days": 2000, "varying_days": 1000, "whole_days": 80}
KNOWN_KEYS = {}


def cases(tier, seed):
    n = 1500 if tier == "quick" else 12000
    for i in range(n):
        yield dict(kind="allday" if i % 30 == 29 else ("exact", "varying", "overlap")[i % 3], seed=seed * 1000117 + i)


def run_case(case, obs):
    rng = random.Random(case["seed"])
    kind = case["kind"]
    days = rng.randint(8, 16)
    if kind == "allday":
        return allday(rng, obs)
    app = daycheck.plain_app(rng, var=0 if kind != "varying" else None, days=days, minlen=1 if kind == "exact" else 2)
    if kind == "overlap":
        nw = rng.choice([2, 3])
        for i in range(3):
            app.pop("window_%d" % (i + 1), None)
        ws = []
        for i in range(nw):
            a = rng.randint(0, 1400)
            ws.append([a, rng.randint(a + 2, 1440)])
            app["window_%d" % (i + 1)] = ws[-1]
        app["num_windows"] = nw
        app["func_cycle"] = 1
        app["func_time"] = rng.randint(1, max(w[1] - w[0] for w in ws))
    if kind == "exact" and sum(w[1] - w[0] for w in daycheck.app_windows(app)) < 3:
        app["window_1"] = [0, 5]
        for k in ("window_2", "window_3"):
            app.pop(k, None)
        app["num_windows"], app["func_time"], app["func_cycle"] = 1, 3, 1
    app["flat"] = "yes"
    app["number"] = rng.choice([0, 1, 1, 2, 7])
    if rng.random() < 0.2:
        app["fixed_cycle"] = 1
        app.update(p_11=13, t_11=3, p_12=7, t_12=2)
    user = dict(num_users=rng.choice([1, 1, 2, 3])) if kind != "varying" else {}
    spec = sim.one(app, num_days=days, user=user, how=rng.choice(["dates", "init", "late"]))
    uc, prof = sim.profiles(spec)
    sim.sane(prof)
    nu = user.get("num_users", 1)
    n = app["number"]
    sigs = set()
    wins = []
    for d in range(days):
        P = n * sim.power_on(app, d)
        if kind == "varying":
            if n == 0:
                if (prof[d] != 0).any():
                    raise Violation("load without any unit of the appliance", key="flat-level")
                continue
            wins = daycheck.actual_windows(prof[d], app)
            want = np.zeros(1440)
            for a, b in wins:
                want[a:b] = P
            obs.add("varying_days")
        else:
            want = np.zeros(1440)
            wins = daycheck.app_windows(app)
            for a, b in wins:
                want[a:b] = P
            want = want * nu
            obs.add("exact_days")
        diff = np.abs(prof[d] - want)
        if diff.max() > 1e-9 * max(1.0, P * nu):
            m = int(diff.argmax())
            raise Violation(
                "flat appliance: load %.6f instead of %.6f at minute %d (windows %s, %d users, %d units)"
                % (prof[d, m], want[m], m, wins, nu, n),
                key="flat-level",
            )
        if P:
            sigs.add((tuple(map(tuple, wins)), round(P, 6), nu))
    obs.sample(dict(app=app, users=nu, last_windows=wins))
    return sigs


def allday(rng, obs):
    """windows which are not declared are the whole day"""
    P, n = round(rng.uniform(1, 500), 2), rng.randint(1, 5)
    ft = rng.choice([30, 600, 1440])
    days = rng.randint(3, 6)
    with guard("a model with default windows"):
        user = sim.R().User("someone", 1)
        if rng.random() < 0.5:
            app = user.Appliance(number=n, power=P, num_windows=1, func_time=ft, flat="yes") if rng.random() < 0.5 else user.add_appliance(
                number=n, power=P, num_windows=1, func_time=ft, flat="yes", random_var_w=0)
            app.windows()
        else:
            app = user.add_appliance(number=n, power=P, func_time=ft, flat="yes", num_windows=1, window_1=None)
        uc = sim.R().UseCase(users=[user], date_start="2021-03-04", date_end="2021-03-%02d" % (3 + days))
        prof = np.asarray(uc.generate_daily_load_profiles(flat=False))
    if prof.shape != (days, 1440) or np.abs(prof - n * P).max() > 1e-9 * n * P:
        raise Violation("flat appliance without declared window: load from %s to %s instead of %s all day" % (prof.min(), prof.max(), n * P),
                        key="flat-level")
    if list(app.window_1) != [0, 1440]:
        raise Violation("the default window is %s" % list(app.window_1), key="default-window")
    obs.add("whole_days", days)
    return {(P, n, ft, d) for d in range(days)}
