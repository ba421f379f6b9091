"""Whole models: several users with several appliances."""
import datetime
import random

from . import daycheck, gen, sim
from .props import c05


def any_app(rng, days=1, style=None):
    style = style or gen.pick(rng, ("plain", 4), ("flat", 2), ("duty", 3))
    if style == "duty":
        app, _, _ = c05.duty_app(rng, rng.choice(["repeat", "single", "thermal", "three", "units", "exact"]))
        app.pop("name", None)
    else:
        app = daycheck.plain_app(rng, days=days)
        app.pop("name", None)
        if style == "flat":
            app["flat"] = "yes"
    if rng.random() < 0.3:
        app["occasional_use"] = rng.choice([0.2, 0.5, 0.9])
    if rng.random() < 0.3:
        app["wd_we_type"] = rng.choice([0, 1, 2])
    return app


def det_app(rng, days, slot=None, seasonal=0.3, wd=True):
    """appliance whose load is completely determined by its description"""
    nw = rng.choice([1, 1, 2, 3])
    ws, _ = gen.windows(rng, nw=nw, var=0, minlen=3)
    tot = sum(w[1] - w[0] for w in ws)
    app = gen.base_appliance(rng, ws, 0, rng.randint(1, tot), 1)
    app["flat"] = "yes"
    app["number"] = rng.choice([1, 1, 2, 5, 0])
    if rng.random() < seasonal:
        app["power"] = dict(series=rng.randrange(1 << 30), n=max(366, days), form=rng.choice(["frame", "json"]))
    else:
        app["power"] = rng.choice([1, 10, 64.5, 1000])
    if wd and rng.random() < 0.3:
        app["wd_we_type"] = rng.choice([0, 1, 2])
    if rng.random() < 0.2:
        app["occasional_use"] = 1
    # anything random does not apply to flat appliances
    app["time_fraction_random_variability"] = rng.choice([0, 0.3])
    app["thermal_p_var"] = rng.choice([0, 0.3])
    return app


def names(spec):
    for i, u in enumerate(spec["users"]):
        for j, a in enumerate(u["appliances"]):
            a["name"] = "a%d_%d" % (i, j)
    return spec


def det_model(rng, nusers=None, days=None, max_apps=4, zero_users=True, seasonal=0.3):
    nusers = nusers or rng.randint(1, 4)
    days = days or rng.randint(1, 12)
    users = []
    for i in range(nusers):
        users.append(dict(
            user_name="user %d" % i,
            num_users=rng.choice([1, 1, 2, 3, 7] + ([0] if zero_users else [])),
            appliances=[det_app(rng, days, seasonal=seasonal) for _ in range(rng.randint(1, max_apps))],
        ))
    start = str(datetime.date(2000, 1, 1) + datetime.timedelta(days=rng.randint(0, 15000)))
    return names(dict(users=users, num_days=days, date_start=start, how=rng.choice(["dates", "init", "late", "add"])))


def weekend(start, d):
    return (datetime.date.fromisoformat(start) + datetime.timedelta(days=d)).isoweekday() >= 6


def app_day(app, d, start, day=None):
    """exact load (list of 1440) of one unit of ownership of a deterministic appliance"""
    out = [0.0] * 1440
    if app.get("wd_we_type", 2) not in (2, 1 if weekend(start, d) else 0):
        return out
    if app["func_time"] == 0:
        return out
    v = app.get("number", 1) * float(sim.power_on(app, d))
    for w in daycheck.app_windows(app):
        for m in range(w[0], w[1]):
            out[m] = v
    return out


def det_user_day(u, d, start):
    out = [0.0] * 1440
    for a in u["appliances"]:
        x = app_day(a, d, start)
        for m in range(1440):
            out[m] += x[m] * u.get("num_users", 1)
    return out


def det_day(spec, d):
    out = [0.0] * 1440
    for u in spec["users"]:
        x = det_user_day(u, d, spec["date_start"])
        for m in range(1440):
            out[m] += x[m]
    return out


def differs(got, want, rel=1e-9):
    """index of the first difference of two sequences, or None"""
    if len(got) != len(want):
        return -1
    for i in range(len(want)):
        g, w = got[i], want[i]
        if g != w and not abs(g - w) <= rel * max(1.0, abs(w)):
            return i
    return None


def random_model(rng, nusers=None, days=None, max_apps=3, prefs=True, max_users=3):
    nusers = nusers or rng.randint(1, 3)
    days = days or rng.randint(1, 4)
    users = []
    for i in range(nusers):
        pref = rng.choice([0, 0, 2, 3]) if prefs else 0
        apps = [any_app(rng, days) for _ in range(rng.randint(1, max_apps))]
        if pref:
            for a in apps:
                a["pref_index"] = rng.randint(0, pref)
        users.append(dict(user_name="user %d" % i, num_users=rng.randint(1, max_users), user_preference=pref, appliances=apps))
    start = str(datetime.date(2000, 1, 1) + datetime.timedelta(days=rng.randint(0, 15000)))
    return names(dict(users=users, num_days=days, date_start=start, how=rng.choice(["dates", "init", "late", "add"])))
