"""Drives the real code through its public API and decodes what it produced."""
import random

import numpy as np
import pandas as pd

from .core import Violation, guard

MARK = 0.001  # negligible value with which RAMP marks the idle time of a window


def R():
    import ramp

    return ramp


def app_kwargs(app):
    kw = dict(app)
    p = kw.get("power")
    if isinstance(p, dict):
        kw["power"] = power_of(p)
    return kw


def series_values(p):
    """seasonal power described as {"series": seed, "n": n, ...} -> numpy array"""
    if "values" in p:
        return np.array(p["values"], dtype=float)
    rng = random.Random(p["series"])
    return np.array([round(rng.uniform(1, 2000), 3) for _ in range(p["n"])])


def power_of(p):
    v = series_values(p)
    form = p.get("form", "frame")
    if form == "frame":
        return pd.DataFrame(v)
    if form == "json":
        import json

        return json.dumps(v.tolist())
    raise ValueError(form)


def power_on(app, day):
    p = app.get("power", 0)
    if isinstance(p, dict):
        return series_values(p)[day]
    return p


def build_users(spec, usecase=None):
    ramp = R()
    users = []
    for u in spec["users"]:
        user = ramp.User(
            user_name=u.get("user_name", ""),
            num_users=u.get("num_users", 1),
            user_preference=u.get("user_preference", 0),
        )
        users.append(user)
    return users


def fill(user, u):
    for a in u["appliances"]:
        user.add_appliance(**app_kwargs(a))


def build(spec):
    """UseCase built from a spec; spec['how'] selects one of the ways to assemble it"""
    ramp = R()
    how = spec.get("how", "dates")
    kw = {}
    if "seed" in spec and spec["seed"] is not None:
        kw["random_seed"] = spec["seed"]
    if "peak_enlarge" in spec:
        kw["peak_enlarge"] = spec["peak_enlarge"]
    if spec.get("parallel"):
        kw["parallel_processing"] = True
    kw["name"] = spec.get("name", "uc")
    start = spec.get("date_start", "2023-01-02")
    nd = spec.get("num_days", 1)
    end = str((pd.Timestamp(start) + pd.Timedelta(days=nd - 1)).date())
    users = build_users(spec)
    if how == "dates":
        for user, u in zip(users, spec["users"]):
            fill(user, u)
        uc = ramp.UseCase(users=users, date_start=start, date_end=end, **kw)
    elif how == "init":
        for user, u in zip(users, spec["users"]):
            fill(user, u)
        uc = ramp.UseCase(users=users, date_start=start, **kw)
        uc.initialize(num_days=nd)
    elif how == "late":  # users and appliances added after the dates
        uc = ramp.UseCase(date_start=start, date_end=end, **kw)
        for user, u in zip(users, spec["users"]):
            uc.add_user(user)
            fill(user, u)
    elif how == "add":  # users added before initialization, appliances first
        uc = ramp.UseCase(date_start=start, **kw)
        for user, u in zip(users, spec["users"]):
            fill(user, u)
        uc.add_user(users)
        uc.initialize(num_days=nd)
    else:
        raise ValueError(how)
    return uc


def one(app, num_days=1, date_start="2023-01-02", user=None, **kw):
    u = dict(user_name="u", num_users=1, user_preference=0)
    u.update(user or {})
    u["appliances"] = [app]
    d = dict(users=[u], num_days=num_days, date_start=date_start)
    d.update(kw)
    return d


def profiles(spec, draws=None, uc=None, what="simulation"):
    """(use case, array [days, 1440]) of a model, through generate_daily_load_profiles"""
    nd = spec.get("num_days", 1)
    n = sum(u.get("num_users", 1) * len(u["appliances"]) for u in spec["users"]) * nd
    with guard(what, draws=draws or (200_000 + 60_000 * max(1, n)), cpu=90 + 2 * n):
        if uc is None:
            uc = build(spec)
        prof = uc.generate_daily_load_profiles(flat=False)
    prof = np.asarray(prof)
    if prof.shape != (nd, 1440):
        raise Violation(
            "the load of %d days has shape %s instead of (%d, 1440)" % (nd, prof.shape, nd), key="shape"
        )
    return uc, prof


def sane(prof, what="load"):
    if not np.isfinite(prof).all():
        raise Violation("%s is not finite everywhere" % what, key="not-finite")
    if (prof < 0).any():
        raise Violation("%s is negative: %s" % (what, prof.min()), key="negative")


def runs(mask):
    """[(start, stop)] of the maximal runs of True"""
    m = np.concatenate(([0], np.asarray(mask).astype(np.int8), [0]))
    d = np.diff(m)
    return list(zip(np.flatnonzero(d == 1).tolist(), np.flatnonzero(d == -1).tolist()))


def segments(day, eps=0.0015):
    """[(start, stop, level)] maximal constant segments above the idle marker"""
    vals = day.tolist() if isinstance(day, np.ndarray) else list(day)
    out = []
    n = len(vals)
    a = 0
    while a < n:
        v = vals[a]
        b = a + 1
        while b < n and vals[b] == v:
            b += 1
        if v > eps:
            out.append((a, b, v))
        a = b
    return out
