"""Power which varies from day to day: each day uses its own value; its length is checked."""
import json
import random

import numpy as np
import pandas as pd

from .. import daycheck, gen, models, sim
from ..core import Violation, guard

RULE = (
    "one case = a model with appliances whose power is given per day (data frame, json text, spreadsheet) or constant, simulated "
    "through one of the entry points (use case, parallel, user, appliance, saved and loaded) over 1 to 800 days; the power of every day is read from the load "
    "and compared with the value given for that day; series which are too short must be refused, in whatever order the model is put together. "
    "Non-trivial: days compared and refusals; distinct by (kind, entry point, day, value)."
)
FLOORS = {"days": 6000, "thermal_days": 500, "refused": 60, "exact_length": 30, "long_constant": 15, "file_days": 200, "parallel_days": 40}
KNOWN_KEYS = {}


def cases(tier, seed):
    n = 400 if tier == "quick" else 3200
    kinds = ("flat", "plain", "user", "refuse", "exact", "long", "file", "refuse", "thermal", "mixed")
    for i in range(n):
        kind = kinds[i % 10]
        if i % 40 == 1:
            kind = "parallel"
        yield dict(kind=kind, seed=seed * 1000289 + i)


def series(rng, n):
    """n values which tell the days apart"""
    style = rng.choice(["distinct", "distinct", "steps", "zeros", "last"])
    base = rng.choice([1.0, 100.0, 0.5])
    if style == "distinct":
        return [base * (i + 1) + 0.25 for i in range(n)]
    if style == "steps":
        return [base * (1 + i // 7) for i in range(n)]
    if style == "zeros":
        return [0.0 if i % 3 else base * (i + 1) for i in range(n)]
    return [base] * (n - 1) + [base * 7]


def give(rng, vals):
    """the accepted forms of a series"""
    f = rng.choice(["frame", "named", "json", "index"])
    if f == "json":
        return json.dumps(vals)
    if f == "named":
        return pd.DataFrame({"power": vals})
    if f == "index":
        return pd.DataFrame({"power": vals}, index=pd.date_range("2001-01-01", periods=len(vals)))
    return pd.DataFrame(vals)


def start(rng):
    return str((pd.Timestamp("2000-01-01") + pd.Timedelta(days=rng.randint(0, 9000))).date())


def end(s, n):
    return str((pd.Timestamp(s) + pd.Timedelta(days=n - 1)).date())


def level(day, a, b):
    for m in range(a, b):
        if day[m] > 0.0015:
            return day[m]
    return 0.0


def near(x, y):
    return abs(x - y) <= 1e-9 * max(1.0, abs(y))


def run_case(case, obs):
    rng = random.Random(case["seed"])
    return globals()["do_" + case["kind"]](rng, obs)


def compare(prof, vals, slots, obs, what, th=0.0):
    """slots: [(a, b, number of units, series)]"""
    out = set()
    for d in range(len(prof)):
        day = prof[d]
        day = day.tolist() if hasattr(day, "tolist") else day
        for a, b, k, v in slots:
            got = level(day, a, b)
            want = k * v[d]
            if th == 0:
                ok = near(got, want) if want > 0.0015 else got == 0
            else:
                ok = want * (1 - th) * (1 - 1e-9) <= got <= want * (1 + th) * (1 + 1e-9) if want > 0.0015 else got == 0
            if not ok:
                near_days = [i for i, x in enumerate(v) if near(k * x, got)][:4]
                raise Violation("%s: power of %g on day %d instead of %g (value of days %s)" % (what, got, d, want, near_days), key="power-of-day")
            out.add((what, d, round(got, 3)))
        obs.add("days")
    return out


def app_of(rng, slot, style, power, **kw):
    a = 200 * slot + rng.randint(0, 50)
    L = rng.randint(20, 140)
    app = dict(window_1=[a, a + L], func_time=rng.randint(1, L // 2), func_cycle=1, power=power, name="app %d" % slot)
    k = app["number"] = rng.choice([1, 1, 2, 5])
    if style == "flat":
        app["flat"] = "yes"
    else:
        app["fixed"] = "yes"
        app["func_cycle"] = app["func_time"]
    app.update(kw)
    return app, (a, a + L, k)


def build(rng, n, style, how=None, th=0.0, napps=None, extra=0, nu=1):
    """use case of n days with appliances of their own series"""
    ramp = sim.R()
    s = start(rng)
    how = how or rng.choice(["dates", "init", "late", "add"])
    user = ramp.User("u", nu, 0)
    slots = []
    kws = []
    for j in range(napps or rng.randint(1, 4)):
        m = rng.choice([n, n + 1, n + 5, max(n, 366)]) if not extra else n + extra
        vals = series(rng, m)
        if rng.random() < 0.3:
            vals = [rng.choice([40.0, 7.5])] * max(m, 366)
            power = vals[0]
        else:
            power = give(rng, vals)
        kw, (a, b, k) = app_of(rng, j, style if style != "mixed" else rng.choice(["flat", "plain"]), power)
        if th:
            kw["thermal_p_var"] = th
        kws.append(kw)
        slots.append((a, b, k * nu, vals))
    if how == "late":
        uc = ramp.UseCase(date_start=s, date_end=end(s, n))
        uc.add_user(user)
    for kw in kws:
        user.add_appliance(**kw)
    if how == "dates":
        uc = ramp.UseCase(users=[user], date_start=s, date_end=end(s, n))
    elif how == "init":
        uc = ramp.UseCase(users=[user], date_start=s)
        uc.initialize(n)
    elif how == "add":
        uc = ramp.UseCase(date_start=s)
        uc.add_user([user])
        uc.initialize(num_days=n)
    return uc, slots


def do_flat(rng, obs):
    n = gen.pick(rng, (1, 1), (3, 1), (rng.randint(2, 40), 5), (366, 0.3), (rng.randint(370, 500), 0.4))
    with guard("simulation"):
        uc, slots = build(rng, n, "flat", nu=rng.choice([1, 1, 3]))
        prof = np.asarray(uc.generate_daily_load_profiles(flat=False))
    obs.sample(dict(kind="flat", days=n, series=[s[3][:4] for s in slots]))
    return compare(prof, None, slots, obs, "flat")


def do_plain(rng, obs):
    n = rng.randint(2, 25)
    with guard("simulation"):
        uc, slots = build(rng, n, "plain")
        prof = np.asarray(uc.generate_daily_load_profiles(flat=False))
    return compare(prof, None, slots, obs, "plain")


def do_thermal(rng, obs):
    n = rng.randint(10, 30)
    th = rng.choice([0.01, 0.1])
    with guard("simulation"):
        uc, slots = build(rng, n, "plain", th=th)
        prof = np.asarray(uc.generate_daily_load_profiles(flat=False))
    obs.add("thermal_days", n)
    return compare(prof, None, slots, obs, "thermal", th)


def do_mixed(rng, obs):
    """twice, and after another initialisation"""
    n = rng.randint(2, 12)
    with guard("simulation"):
        uc, slots = build(rng, n, "mixed", extra=20)
        p1 = np.asarray(uc.generate_daily_load_profiles(flat=False))
        p2 = np.asarray(uc.generate_daily_load_profiles(flat=False))
    out = compare(p1, None, slots, obs, "first run") | compare(p2, None, slots, obs, "second run")
    n2 = rng.randint(1, n + 20)
    with guard("simulation after another initialisation"):
        uc.initialize(num_days=n2, force=True)
        p3 = np.asarray(uc.generate_daily_load_profiles(flat=False))
    if p3.shape[0] != n2:
        raise Violation("%d days instead of %d" % (p3.shape[0], n2), key="shape")
    return out | compare(p3, None, slots, obs, "re-initialised")


def do_user(rng, obs):
    """the day given to the methods of User and Appliance is the one whose power is used"""
    n = rng.randint(2, 30)
    with guard("construction"):
        uc, slots = build(rng, n, "mixed")
        user = uc.users[0]
        peak = uc.peak_time_range
    out = set()
    order = [rng.randrange(n) for _ in range(8)]
    for d in order:
        with guard("load of one day"):
            w = rng.choice(["single", "aggregated", "appliance"])
            if w == "single":
                day = user.generate_single_load_profile(d, peak, 0)
            elif w == "aggregated":
                day = user.generate_aggregated_load_profile(prof_i=d, peak_time_range=peak, day_type=1)
            else:
                day = np.zeros(1440)
                for a in user.App_list:
                    a.generate_load_profile(d, peak, 0, power=a.power[d])
                    day = day + a.daily_use
        day = day.tolist()
        for a, b, k, v in slots:
            got = level(day, a, b)
            if not (near(got, k * v[d]) if k * v[d] > 0.0015 else got == 0):
                raise Violation("%s load of day %d: power %g instead of %g" % (w, d, got, k * v[d]), key="power-of-day")
        obs.add("days")
        out.add((w, d, round(sum(day), 3)))
    return out


def do_parallel(rng, obs):
    n = rng.randint(3, 12)
    with guard("parallel simulation", cpu=200):
        uc, slots = build(rng, n, "mixed")
        if rng.random() < 0.5:
            prof = uc.generate_daily_load_profiles_parallel(flat=False)
        else:
            uc.parallel_processing = True
            prof = uc.generate_daily_load_profiles(flat=False)
    obs.add("parallel_days", n)
    return compare(np.asarray(prof), None, slots, obs, "parallel")


def do_file(rng, obs):
    """through a spreadsheet"""
    ramp = sim.R()
    n = rng.randint(3, 20)
    with guard("save, load and simulate"):
        user = ramp.User("u", 1)
        slots = []
        for j in range(rng.randint(1, 3)):
            vals = series(rng, 366)
            kw, (a, b, k) = app_of(rng, j, rng.choice(["flat", "plain"]), give(rng, vals))
            user.add_appliance(**kw)
            slots.append((a, b, k, vals))
        ramp.UseCase(users=[user]).save("seasonal")
        s = start(rng)
        if rng.random() < 0.5:
            uc = ramp.UseCase(date_start=s, date_end=end(s, n))
            uc.load("seasonal.xlsx")
        else:
            uc = ramp.UseCase(date_start=s)
            uc.load("seasonal.xlsx")
            uc.initialize(n)
        prof = np.asarray(uc.generate_daily_load_profiles(flat=False))
    obs.add("file_days", n)
    return compare(prof, None, slots, obs, "file")


def refused(what, f, *names):
    """f must raise the documented ValueError, naming the appliance"""
    try:
        with guard(what, expect=(ValueError,)):
            r = f()
    except ValueError as e:
        if not any(x in str(e) for x in names):
            raise Violation("%s: the error does not name the appliance: %s" % (what, str(e)[:200]), key="refusal-message")
        return
    raise Violation("%s: not refused" % what, key="not-refused")


def do_refuse(rng, obs):
    """a series shorter than the simulation is refused before anything is simulated"""
    ramp = sim.R()
    n = rng.choice([2, 3, 10, rng.randint(2, 60), 367, 400])
    short = rng.choice([n - 1, n - 1, rng.randint(1, n - 1)])
    vals = [1.5 + i for i in range(short)]
    s = start(rng)
    user, other = ramp.User("short user", 1), ramp.User("other", 2)
    how = rng.choice(["dates", "init", "late_user", "late_app", "reinit", "load_order", "many"])
    kw, _ = app_of(rng, 1, rng.choice(["flat", "plain"]), None)
    kw["power"] = give(rng, vals)
    kw["name"] = "too short"
    good, _ = app_of(rng, 2, "flat", 10)
    with guard("construction"):
        other.add_appliance(**good)
    if how in ("dates", "many"):
        with guard("construction"):
            if how == "many":
                for j in range(3):
                    user.add_appliance(**dict(good, name="g%d" % j, number=j + 1))
            user.add_appliance(**kw)
            users = [other, user] if rng.random() < 0.5 else [user, other]
        refused("use case of %d days with %d values of power" % (n, short), lambda: ramp.UseCase(users=users, date_start=s, date_end=end(s, n)), "too short")
    elif how == "init":
        with guard("construction"):
            user.add_appliance(**kw)
            uc = ramp.UseCase(users=[other, user], date_start=s)
        refused("initialize(%d) with %d values of power" % (n, short), lambda: uc.initialize(n), "too short")
    elif how in ("late_user", "late_app"):
        with guard("construction"):
            uc = ramp.UseCase(users=[other], date_start=s, date_end=end(s, n))
            if how == "late_user":
                user.add_appliance(**kw)

        def f():
            if how == "late_user":
                uc.add_user(user)
            else:
                other.add_appliance(**kw)
            return uc.generate_daily_load_profiles()

        refused("simulation of %d days with %d values of power, added late" % (n, short), f, "too short")
    elif how == "reinit":
        with guard("construction"):
            user.add_appliance(**kw)
            uc = ramp.UseCase(users=[user], date_start=s, date_end=end(s, short))
        refused("initialize(%d, force) with %d values of power" % (n, short), lambda: uc.initialize(num_days=n, force=True), "too short")
    else:
        with guard("construction"):
            uc = ramp.UseCase(date_start=s)
            uc.add_user(other)
            user.add_appliance(**kw)
            uc.add_user(user)
        refused("initialize(num_days=%d) with %d values of power" % (n, short), lambda: uc.initialize(num_days=n), "too short")
    obs.add("refused")
    obs.sample(dict(kind="refuse", how=how, days=n, values=short))
    return {("refuse", how, n, short)}


def do_exact(rng, obs):
    """as many values as days is enough"""
    n = rng.choice([1, 2, 5, rng.randint(1, 40), 365, 366, 367])
    if n > 300 and rng.random() < 0.6:
        n = rng.randint(2, 9)
    ramp = sim.R()
    vals = [1.5 + i for i in range(n)]
    kw, (a, b, k) = app_of(rng, 0, rng.choice(["flat", "plain"]), give(rng, vals))
    s = start(rng)
    with guard("simulation of %d days with %d values of power" % (n, n)):
        user = ramp.User("u", 1)
        user.add_appliance(**kw)
        uc = ramp.UseCase(users=[user], date_start=s, date_end=end(s, n))
        prof = np.asarray(uc.generate_daily_load_profiles(flat=False))
    obs.add("exact_length")
    return compare(prof, None, [(a, b, k, vals)], obs, "exact length")


def do_long(rng, obs):
    """constant power lasts as long as the simulation, on every path"""
    ramp = sim.R()
    n = rng.choice([367, 366, 365, rng.randint(368, 800)])
    P = rng.choice([3.5, 100])
    kw, (a, b, k) = app_of(rng, 0, "flat", P)
    s = start(rng)
    how = rng.choice(["dates", "init", "late", "reinit", "file", "user"])
    with guard("simulation of %d days (%s)" % (n, how)):
        user = ramp.User("u", 1)
        user.add_appliance(**kw)
        if how == "dates":
            uc = ramp.UseCase(users=[user], date_start=s, date_end=end(s, n))
        elif how == "init":
            uc = ramp.UseCase(users=[user], date_start=s)
            uc.initialize(n)
        elif how == "late":
            o = ramp.User("o", 1)
            uc = ramp.UseCase(users=[o], date_start=s, date_end=end(s, n))
            if rng.random() < 0.5:
                uc.add_user(user)
            else:
                o.add_appliance(**kw)
        elif how == "reinit":
            uc = ramp.UseCase(users=[user], date_start=s, date_end=end(s, 3))
            uc.initialize(num_days=n, force=True)
        elif how == "file":
            ramp.UseCase(users=[user]).save("constant")
            uc = ramp.UseCase(date_start=s, date_end=end(s, n))
            uc.load("constant.xlsx")
        else:
            uc = ramp.UseCase(users=[user], date_start=s, date_end=end(s, n))
        if how == "user":
            ds = [0, n - 1, n - 2]
            prof = [user.generate_single_load_profile(d, uc.peak_time_range, 0) for d in ds]
        else:
            prof = np.asarray(uc.generate_daily_load_profiles(flat=False))
            if prof.shape != (n, 1440):
                raise Violation("%s instead of %d days" % (prof.shape, n), key="shape")
    obs.add("long_constant")
    return compare(prof, None, [(a, b, k, [P] * n)], obs, "constant")
