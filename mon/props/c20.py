"""Valid models always simulate to completion; invalid ones are refused."""
import random
import warnings

import numpy as np
import pandas as pd

from .. import gen, models, sim
from ..core import METER, BudgetExceeded, Violation, guard

RULE = (
    "one case = a model built from corner values (windows of a minute, touching, overlapping, unordered or empty, full variability, "
    "zero or maximal durations, cycles of zero length or out of reach, no unit, no user) which must simulate within a bounded number of random draws, or "
    "an invalid definition which must be refused. The only accepted failure is the documented ValueError naming func_cycle, "
    "when the windows of the day can be too short for it. Non-trivial: simulations completed and refusals; distinct by (kind, parameters)."
)
FLOORS = {"completed_days": 2500, "rejected": 150, "duty_days": 500, "refused_func_cycle": 5}
KNOWN_KEYS = {}


def cases(tier, seed):
    n = 1300 if tier == "quick" else 10000
    kinds = ("plain", "duty", "model", "window", "reject", "duty", "plain", "flat", "reject", "user")
    for i in range(n):
        yield dict(kind=kinds[i % 10], seed=seed * 1000249 + i)


def corner_windows(rng):
    nw = rng.choice([1, 1, 2, 3])
    ws = []
    for i in range(nw):
        r = rng.random()
        if r < 0.2:
            w = [0, 1440]
        elif r < 0.4:
            a = rng.choice([0, 1439, rng.randint(0, 1439)])
            w = [a, a + 1]
        elif r < 0.5 and i > 0:
            w = [0, 0]
        elif r < 0.6 and i > 0:
            a = ws[-1][1]
            w = [a, min(1440, a + rng.randint(0, 60))]
        elif r < 0.7:
            a = rng.randint(0, 1430)
            w = [a, 1440]
        elif r < 0.8:
            w = [0, rng.randint(2, 1440)]
        else:
            a = rng.randint(0, 1400)
            w = [a, rng.randint(a + 2, 1440)]
        ws.append(w)
    if sum(w[1] - w[0] for w in ws) < 3:
        ws[0] = [rng.randint(0, 700), rng.randint(710, 1440)]
    return ws


def corner_app(rng, kind):
    ws = corner_windows(rng)
    var = rng.choice([0, 0, 0.01, 0.35, 0.5, 0.51, 0.8, 1.0])
    tot = sum(w[1] - w[0] for w in ws)
    ft = rng.choice([tot, 1, max(1, tot // 2), rng.randint(1, tot), 0])
    fcm = gen.max_func_cycle(ws, var)
    longest = max(w[1] - w[0] for w in ws)
    fc = rng.choice([0, 1, 1, fcm, max(0, min(fcm, longest)), min(fcm, ft + 3), max(0, min(fcm, rng.randint(0, tot))), longest + 1, tot])
    app = gen.base_appliance(rng, ws, var, ft, fc)
    app["time_fraction_random_variability"] = rng.choice([0, 0.1, 1.0, 0.5])
    app["number"] = rng.choice([0, 1, 2, 100])
    app["power"] = rng.choice([0, 1, 1e-6, 1000, 1e6])
    app["thermal_p_var"] = rng.choice([0, 0.1, 1.0])
    app["fixed"] = rng.choice(["yes", "no"])
    app["occasional_use"] = rng.choice([1, 1, 1, 0, 0.5])
    app["wd_we_type"] = rng.choice([2, 2, 0, 1])
    app["pref_index"] = rng.choice([0, 0, 1, 3])
    if kind == "flat":
        app["flat"] = "yes"
    if kind == "duty":
        n = rng.choice([1, 2, 3])
        app["fixed_cycle"] = n
        app["continuous_duty_cycle"] = rng.choice([0, 1])
        for c in range(1, n + 1):
            app.update({"p_%d1" % c: rng.choice([0, 5, 100]), "t_%d1" % c: rng.choice([0, 1, 5, 30, 400]),
                        "p_%d2" % c: rng.choice([0, 7]), "t_%d2" % c: rng.choice([0, 1, 5, 30]), "r_c%d" % c: rng.choice([0, 0.2, 0.5, 1.0])})
            if app["t_%d1" % c] + app["t_%d2" % c] == 0:
                app["t_%d1" % c] = 1
            if app["continuous_duty_cycle"] == 1:
                # a repeated cycle lasts at least a minute
                app["r_c%d" % c] = min(app["r_c%d" % c], 0.5)
                app["t_%d1" % c] = max(2, app["t_%d1" % c])
            for s in (1, 2):
                r = rng.random()
                if r < 0.25:
                    continue
                if r < 0.5:
                    w = rng.choice(ws)
                    app["cw%d%d" % (c, s)] = list(w)
                elif r < 0.7:
                    a = rng.randint(0, 1430)
                    app["cw%d%d" % (c, s)] = [a, a + rng.randint(1, 10)]
                elif r < 0.85:
                    app["cw%d%d" % (c, s)] = [0, 1440]
                else:
                    a = rng.randint(0, 1440)
                    app["cw%d%d" % (c, s)] = [a, a]
    return app


def may_not_fit(app):
    ws = [app["window_%d" % i] for i in (1, 2, 3) if "window_%d" % i in app]
    return gen.max_func_cycle(ws, app.get("random_var_w", 0)) < app.get("func_cycle", 1)


def run_case(case, obs):
    rng = random.Random(case["seed"])
    kind = case["kind"]
    if kind == "reject":
        return reject(rng, obs)
    if kind == "user":
        return odd_users(rng, obs)
    days = rng.randint(3, 6)
    if kind == "model":
        users = []
        for i in range(rng.randint(1, 3)):
            users.append(dict(user_name="u%d" % i, num_users=rng.choice([0, 1, 1, 2]), user_preference=rng.choice([0, 1, 3]),
                              appliances=[corner_app(rng, rng.choice(["plain", "duty", "flat"])) for _ in range(rng.randint(0, 3))]))
        spec = models.names(dict(users=users, num_days=days, how=rng.choice(["dates", "init", "late", "add"])))
    else:
        app = corner_app(rng, kind)
        if kind == "window":
            # the variability can make the windows vanish, cross or leave the day
            app["random_var_w"] = rng.choice([0.5, 0.7, 1.0])
            app["func_cycle"] = rng.choice([0, 0, 1])
        spec = sim.one(app, num_days=days, user=dict(user_preference=rng.choice([0, 3])), how=rng.choice(["dates", "init", "late"]))
    spec["peak_enlarge"] = rng.choice([0.0, 0.15, 1.0])
    apps = [a for u in spec["users"] for a in u["appliances"]]
    n = sum(u.get("num_users", 1) * len(u["appliances"]) for u in spec["users"])
    with guard("building a valid model"):
        uc = sim.build(spec)
    try:
        with guard("simulation of a valid model", draws=300_000 + 100_000 * n * days, cpu=120 + 10 * n):
            prof = uc.generate_daily_load_profiles(flat=False)
    except Violation as v:
        if v.key == "crash:ValueError" and "func_cycle" in v.msg and any(may_not_fit(a) for a in apps):
            obs.add("refused_func_cycle")
            return {("func_cycle", case["seed"])}
        raise
    prof = np.asarray(prof)
    if prof.shape != (days, 1440):
        raise Violation("load of shape %s for %d days" % (prof.shape, days), key="shape")
    sim.sane(prof)
    # never above everything on at once
    top = 0.0
    for u in spec["users"]:
        for a in u["appliances"]:
            ps = [a["power"]] + [a.get("p_%d%d" % (c, s), 0) for c in (1, 2, 3) for s in (1, 2)]
            top += u.get("num_users", 1) * (a["number"] * max(ps) * (1 + a["thermal_p_var"]) + 0.001)
    if prof.max() > top * (1 + 1e-9):
        raise Violation("load of %g above the maximum %g" % (prof.max(), top), key="maximum")
    obs.add("completed_days", days)
    if any(a.get("fixed_cycle") for a in apps):
        obs.add("duty_days", days)
    obs.sample(dict(kind=kind, first=apps[0] if apps else None, total=float(prof.sum())))
    return {(kind, case["seed"])}


def odd_users(rng, obs):
    """use cases and users without anything in them, or simulated on their own"""
    ramp = sim.R()
    what = rng.choice(["no_users", "no_appliances", "zero", "alone", "uninitialised"])
    with guard("simulation (%s)" % what):
        if what == "no_users":
            uc = ramp.UseCase(date_start="2023-01-01", date_end="2023-01-02")
            p = uc.generate_daily_load_profiles(flat=False)
            want = 0
        elif what == "no_appliances":
            uc = ramp.UseCase(users=[ramp.User("a", 3)], date_start="2023-01-01", date_end="2023-01-02")
            p = uc.generate_daily_load_profiles(flat=False)
            want = 0
        elif what == "zero":
            u = ramp.User("a", 0)
            u.add_appliance(window_1=[0, 100], func_time=10, power=5)
            uc = ramp.UseCase(users=[u], date_start="2023-01-01", date_end="2023-01-02", parallel_processing=rng.random() < 0.1)
            p = uc.generate_daily_load_profiles(flat=False)
            want = 0
        else:
            u = ramp.User("a", 1)
            u.add_appliance(window_1=[0, 100], func_time=10, power=5, flat="yes")
            if what == "uninitialised":
                ramp.UseCase(users=[u])
            p = u.generate_single_load_profile(0, day_type=0)
            want = 500
            p = np.vstack([p, p])
        p = np.asarray(p)
    if p.shape != (2, 1440) or abs(p[0].sum() - want) > 1e-6:
        raise Violation("%s: load %s instead of %s" % (what, p[0].sum(), want), key="odd-users")
    obs.add("completed_days", 2)
    return {("odd", what)}


def reject(rng, obs):
    ramp = sim.R()
    from ramp.errors_logs.errors import InvalidType, InvalidWindow

    u = ramp.User("u", 1)
    uc = ramp.UseCase(users=[u], date_start="2023-01-01", date_end="2023-01-20")
    a = rng.randint(0, 1000)
    L = rng.randint(1, 300)
    ok = dict(power=5, func_time=1, window_1=[a, a + L])
    extra = rng.randint(1, 500)
    L2, L3 = rng.randint(1, 50), rng.randint(1, 50)

    def add(**kw):
        return lambda: u.add_appliance(**dict(ok, **kw))

    def separate(num, fn):
        def f():
            app = u.add_appliance(power=5, func_time=1, num_windows=num)
            fn(app)
        return f

    def peak(v):
        def f():
            uc.peak_enlarge = v
        return f

    def short(n, how):
        def f():
            series = pd.DataFrame([1.0] * n)
            if how == "dates":
                v = ramp.User("v")
                v.add_appliance(power=series, func_time=1, window_1=[0, 50])
                x = ramp.UseCase(users=[v], date_start="2023-01-01", date_end="2023-01-20")
            elif how == "init":
                v = ramp.User("v")
                v.add_appliance(power=series, func_time=1, window_1=[0, 50])
                x = ramp.UseCase(users=[v], date_start="2023-01-01")
                x.initialize(num_days=20)
            elif how == "late":
                u.add_appliance(power=series, func_time=1, window_1=[0, 50])
                x = uc
            elif how == "longer":
                v = ramp.User("v")
                v.add_appliance(power=series, func_time=1, window_1=[0, 50])
                x = ramp.UseCase(users=[v], date_start="2023-01-01")
                x.initialize(num_days=n)
                x.initialize(num_days=20, force=True)
            x.generate_daily_load_profiles()
        return f

    def too_short():
        v = ramp.User("v", rng.choice([1, 2]))
        n = rng.choice([1, 1, 2, 30, L])
        v.add_appliance(power=5, func_time=n, window_1=[a, a + n], func_cycle=n + rng.choice([1, 1, 7]), name="too short")
        x = ramp.UseCase(users=[v], date_start="2023-01-01", date_end="2023-01-02")
        x.generate_daily_load_profiles()

    table = [
        ("window 2 missing", add(num_windows=2), InvalidWindow),
        ("window 2 missing, window 3 given", add(num_windows=3, window_3=[1100, 1200]), InvalidWindow),
        ("window 3 missing", add(num_windows=3, window_2=[1100, 1200]), InvalidWindow),
        ("window 2 missing (windows)", separate(2, lambda x: x.windows([a, a + L])), InvalidWindow),
        ("window 3 missing (windows)", separate(3, lambda x: x.windows([a, a + L], [1400, 1410])), InvalidWindow),
        ("func_time longer than the window", add(func_time=L + extra), InvalidWindow),
        ("func_time one minute longer than the window", add(func_time=L + 1), InvalidWindow),
        ("func_time longer than two windows", add(num_windows=2, window_2=[1400, 1400 + L2 % 40], func_time=L + L2 % 40 + 1), InvalidWindow),
        ("func_time longer than three windows", add(num_windows=3, window_2=[1310, 1310 + L2], window_3=[1370, 1370 + L3], func_time=L + L2 + L3 + 1), InvalidWindow),
        ("func_time only fits with an undeclared window", add(num_windows=1, window_2=[1310, 1400], func_time=L + 1), InvalidWindow),
        ("func_time of a flat appliance longer than the window", add(func_time=L + extra, flat="yes"), InvalidWindow),
        ("func_time of a duty cycle appliance longer than the window", add(func_time=L + 1, fixed_cycle=1, p_11=5, t_11=3, p_12=1, t_12=2), InvalidWindow),
        ("window which ends before it begins", add(window_1=[a + L, a]), InvalidWindow),
        ("window shorter than the minimal duration of an event", too_short, ValueError),
        ("power given as a list", add(power=[1, 2, 3]), ValueError),
        ("power None", add(power=None), ValueError),
        ("power given as a dictionary", add(power={"a": 1}), ValueError),
        ("power given as text", add(power="12 W"), ValueError),
        ("not a user", lambda: uc.add_user(rng.choice(["bob", 3, None, {"user_name": "a"}, ("x",)])), InvalidType),
        ("a list with something which is not a user", lambda: uc.add_user([ramp.User("b"), "bob"]), InvalidType),
        ("users which are not users", lambda: ramp.UseCase(users=["bob"]), InvalidType),
        ("integer peak enlargement", peak(rng.choice([1, 0, "0.1", None])), TypeError),
        ("negative peak enlargement", peak(-rng.random() - 1e-6), ValueError),
        ("negative peak enlargement at initialisation", lambda: uc.initialize(peak_enlarge=-0.1, force=True), ValueError),
        ("seasonal power of 19 days for 20", short(19, rng.choice(["dates", "init", "late", "longer"])), ValueError),
        ("seasonal power which is too short", short(rng.randint(1, 18), rng.choice(["dates", "init", "late", "longer"])), ValueError),
        ("simulation without days", lambda: ramp.UseCase(users=[ramp.User("c")]).generate_daily_load_profiles(), ValueError),
        ("parallel simulation without days", lambda: ramp.UseCase(users=[ramp.User("c")], parallel_processing=True).generate_daily_load_profiles(), ValueError),
        ("a user without appliance is saved", lambda: ramp.User("d").save(), Exception),
        ("not an appliance", lambda: u.add_appliance(ramp.Appliance(u, func_time=1), 3), TypeError),
    ]
    what, fn, exc = rng.choice(table)
    n0 = len(u.App_list)
    try:
        fn()
    except exc:
        pass
    except Exception as e:
        raise Violation("%s: raised %s (%s) instead of %s" % (what, type(e).__name__, str(e)[:100], exc.__name__), key="reject")
    else:
        raise Violation("%s is accepted" % what, key="reject")
    if exc is InvalidWindow and not what.endswith("(windows)") and len(u.App_list) != n0:
        raise Violation("%s: the refused appliance was added to the user" % what, key="reject")
    obs.add("rejected")
    return {("reject", what)}
