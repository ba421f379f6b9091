"""Saving a model and loading it again gives the same model."""
import os
import random

import numpy as np
import pandas as pd

from .. import gen, models, sim
from ..core import Violation, guard

RULE = (
    "one case = a random model (all appliance parameters, 1-4 users, seasonal powers, unusual names) saved to a spreadsheet "
    "and loaded in a fresh use case; users, appliances, every parameter, a second save and a seeded simulation are compared. "
    "Non-trivial: appliances compared; distinct by (model, user, appliance)."
)
FLOORS = {"appliances": 600, "seasonal": 60, "duty": 100, "simulated": 60}
KNOWN_KEYS = {}

ATTRS = ("number", "num_windows", "func_time", "time_fraction_random_variability", "func_cycle", "fixed", "fixed_cycle",
         "continuous_duty_cycle", "occasional_use", "flat", "thermal_p_var", "pref_index", "wd_we_type", "random_var_w",
         "p_11", "t_11", "p_12", "t_12", "r_c1", "p_21", "t_21", "p_22", "t_22", "r_c2", "p_31", "t_31", "p_32", "t_32", "r_c3")
WINS = ("window_1", "window_2", "window_3", "cw11", "cw12", "cw21", "cw22", "cw31", "cw32")
DEFAULTS = dict(number=1, num_windows=1, func_time=0, time_fraction_random_variability=0, func_cycle=1, fixed="no", fixed_cycle=0,
                continuous_duty_cycle=1, occasional_use=1, flat="no", thermal_p_var=0, pref_index=0, wd_we_type=2, random_var_w=0)
NAMES = ("Bulb", "TV 1", "frigo été", "12", "1e5", "a,b;c", "x" * 60, "nan", "None", "tab\tname", "quote \"q\" 'q'", "[1, 2]", "100%", "名前", "True")


def cases(tier, seed):
    n = 400 if tier == "quick" else 2400
    kinds = ("random", "random", "simulate", "full", "append")
    for i in range(n):
        yield dict(kind=kinds[i % 5], seed=seed * 1000193 + i)


def full_app(rng, days):
    """every parameter has a value of its own"""
    app = models.any_app(rng, days)
    app["occasional_use"] = round(rng.random(), 4)
    app["thermal_p_var"] = round(rng.random() * 0.5, 5)
    app["wd_we_type"] = rng.choice([0, 1, 2])
    app["pref_index"] = rng.choice([0, 1, 2, 3])
    app["continuous_duty_cycle"] = rng.choice([0, 1])
    app["fixed_cycle"] = rng.choice([0, 1, 2, 3])
    app["fixed"] = rng.choice(["yes", "no"])
    app["flat"] = rng.choice(["yes", "no"])
    for c in (1, 2, 3):
        app.update({"p_%d1" % c: rng.choice([0, 7, round(rng.uniform(1, 900), 6)]), "t_%d1" % c: rng.randint(0, 50),
                    "p_%d2" % c: rng.choice([0, 9, 33.25]), "t_%d2" % c: rng.randint(0, 50), "r_c%d" % c: rng.choice([0, 0.1, 1 / 3.0])})
        for s in (1, 2):
            if rng.random() < 0.7:
                a = rng.randint(0, 1439)
                app["cw%d%d" % (c, s)] = [a, rng.randint(a, 1440)]
    return app


def expected(app, attr):
    if attr in app:
        return app[attr]
    return DEFAULTS.get(attr, 0)


def windows_expected(app, w):
    if app.get("fixed_cycle") == 1 and w in ("cw11", "cw12") and w not in app:
        w = {"cw11": "window_1", "cw12": "window_2"}[w]
    return list(app.get(w, [0, 0]))


def near(a, b, rel=1e-12):
    return a == b or (isinstance(a, (int, float)) and isinstance(b, (int, float)) and abs(a - b) <= rel * max(abs(a), abs(b)))


def plain(v):
    if isinstance(v, (np.generic,)):
        return v.item()
    return v


def check_app(ra, app, what, obs):
    """real appliance against its description"""
    for k in ATTRS:
        got, want = plain(getattr(ra, k)), expected(app, k)
        if type(got) is bool or not (got == want or near(got, want)):
            raise Violation("%s: %s is %r instead of %r" % (what, k, got, want), key="attribute:%s" % k)
    for k in WINS:
        got = [int(x) for x in getattr(ra, k)]
        if got != windows_expected(app, k):
            raise Violation("%s: %s is %s instead of %s" % (what, k, got, windows_expected(app, k)), key="attribute:%s" % k)
    p = app.get("power", 0)
    pw = [float(x) for x in ra.power]
    if isinstance(p, dict):
        want = sim.series_values(p).tolist()
        if len(pw) != len(want) or any(not near(a, b, 1e-9) for a, b in zip(pw, want)):
            raise Violation("%s: the power timeseries changed" % what, key="attribute:power")
        obs.add("seasonal")
    elif any(x != float(p) for x in pw) or not pw:
        raise Violation("%s: power is %s instead of %s" % (what, pw[:3], p), key="attribute:power")
    if app.get("name") and ra.name != app["name"]:
        raise Violation("%s: name is %r instead of %r" % (what, ra.name, app["name"]), key="attribute:name")
    obs.add("appliances")
    if app.get("fixed_cycle"):
        obs.add("duty")


def a_model(rng, kind):
    days = rng.randint(1, 3)
    spec = models.random_model(rng, nusers=rng.randint(1, 4), days=days)
    if kind == "full":
        for u in spec["users"]:
            u["appliances"] = [full_app(rng, days) for _ in range(rng.randint(1, 4))]
        models.names(spec)
    unames = rng.sample(["high income", "", "Écol e", "7", "user, 2", "nan", "u" * 50, "\"q\"", "High Income", " high income", "high income ", "HIGH INCOME", "7.0"], len(spec["users"]))
    for u, nm in zip(spec["users"], unames):
        u["user_name"] = nm
        u["num_users"] = rng.choice([0, 1, 2, 3, 1000]) if kind != "simulate" else rng.choice([1, 2])
        anames = rng.sample(NAMES, len(u["appliances"]))
        for a, n2 in zip(u["appliances"], anames):
            if rng.random() < 0.5:
                a["name"] = n2
            if isinstance(a.get("power"), dict):
                a["power"] = dict(a["power"], n=366)
                if rng.random() < 0.3:
                    vals = [float(rng.choice([0, 5, 100.125])) for _ in range(366)]
                    vals[-1] = vals[0]
                    vals[5] = vals[0] + 1
                    a["power"] = dict(values=vals, form="frame")
                elif rng.random() < 0.3:
                    a["power"] = dict(values=[rng.random() * 10 ** rng.randint(-3, 4) for _ in range(366)], form="frame")
    return spec


def run_case(case, obs):
    rng = random.Random(case["seed"])
    kind = case["kind"]
    spec = a_model(rng, kind)
    ramp = sim.R()
    name = rng.choice(["model", "my model.v2", "sub/db"])
    os.makedirs("sub", exist_ok=True)
    with guard("save and load", cpu=120):
        spec2 = dict(spec, seed=None)
        if kind == "full":
            spec2["how"] = "none"
            uc = ramp.UseCase(users=build_all(spec))
        else:
            uc = sim.build(spec2)
        single = rng.random() < 0.15 and len(spec["users"]) == 1
        if single:
            uc.users[0].save(name)
        else:
            uc.save(name)
        df1 = uc.save()
        uc2 = ramp.UseCase(date_start="2023-01-02", date_end="2023-01-03") if rng.random() < 0.5 else ramp.UseCase()
        extra = []
        if kind == "append":
            extra = [dict(user_name="already there", num_users=4, user_preference=1,
                          appliances=[dict(name="first", window_1=[0, 50], func_time=9, power=3)])]
            uc2.add_user(build_all(dict(users=extra)))
        uc2.load(name + ".xlsx")
        df2 = uc2.save()
    users = extra + spec["users"]
    if len(uc2.users) != len(users):
        raise Violation("%d users instead of %d after loading" % (len(uc2.users), len(users)), key="users")
    for u, ru, orig in zip(users, uc2.users, [None] * len(extra) + uc.users):
        if ru.user_name != u["user_name"] or ru.num_users != u["num_users"] or ru.user_preference != u.get("user_preference", 0):
            raise Violation("user (%r, %s, %s) instead of (%r, %s, %s)" % (ru.user_name, ru.num_users, ru.user_preference,
                            u["user_name"], u["num_users"], u.get("user_preference", 0)), key="users")
        if len(ru.App_list) != len(u["appliances"]):
            raise Violation("user %r has %d appliances instead of %d" % (ru.user_name, len(ru.App_list), len(u["appliances"])), key="appliances")
        for j, (a, ra) in enumerate(zip(u["appliances"], ru.App_list)):
            check_app(ra, a, "appliance %r of user %r after loading" % (ra.name, ru.user_name), obs)
            if orig is not None:
                if plain(ra.name) != orig.App_list[j].name:
                    raise Violation("name %r instead of %r" % (ra.name, orig.App_list[j].name), key="attribute:name")
    if len(uc2.appliances) != sum(len(u["appliances"]) for u in users):
        raise Violation("the use case lists %d appliances" % len(uc2.appliances), key="appliances")
    # a second save gives the same table
    if len(df2) != len(df1) + len(extra) or list(df1.columns) != list(df2.columns):
        raise Violation("the table of the loaded model has another shape", key="table")
    for c in df1.columns:
        for x, y in zip(df1[c].tolist(), df2[c].tolist()[len(extra):]):
            if isinstance(x, list):
                ok = isinstance(y, list) and len(x) == len(y) and all(near(p, q, 1e-9) for p, q in zip(x, y))
            else:
                ok = near(x, y) or (x != x and y != y)
            if not ok:
                raise Violation("column %s is %r instead of %r after loading" % (c, y, x), key="table")
    if kind == "simulate":
        simulate(spec, name + ".xlsx", obs)
    obs.sample(dict(kind=kind, users=[(u["user_name"], len(u["appliances"])) for u in spec["users"]], columns=len(df1.columns)))
    return {(case["seed"], u["user_name"], j) for u in spec["users"] for j in range(len(u["appliances"]))}


def build_all(spec):
    users = sim.build_users(spec)
    for ru, u in zip(users, spec["users"]):
        sim.fill(ru, u)
    return users


def simulate(spec, path, obs):
    """the loaded model behaves as the original one"""
    import datetime

    ramp = sim.R()
    end = datetime.date.fromisoformat(spec["date_start"]) + datetime.timedelta(days=spec["num_days"] - 1)
    kw = dict(date_start=spec["date_start"], date_end=str(end))
    with guard("simulation of the loaded model", cpu=200, draws=20_000_000):
        a = ramp.UseCase(users=build_all(spec), **kw)
        b = ramp.UseCase(**kw)
        b.load(path)
        out = []
        for uc in (a, b):
            uc.peak_time_range = np.arange(600, 700)
            random.seed(4321)
            out.append(np.asarray(uc.generate_daily_load_profiles(flat=False)))
    for d in range(spec["num_days"]):
        i = models.differs(out[1][d].tolist(), out[0][d].tolist(), 1e-9)
        if i is not None:
            raise Violation("with the same random numbers the loaded model gives %.6f instead of %.6f at minute %d of day %d"
                            % (out[1][d][i], out[0][d][i], i, d), key="simulation")
    obs.add("simulated")
