"""On which days an appliance runs: week days, occasional use, user preference, func_time 0."""
import random

import numpy as np
import pandas as pd

from .. import daycheck, gen, sim, stats
from ..core import Violation, guard

RULE = (
    "one case = a user with 1-6 appliances in disjoint windows simulated over 20-700 days from a random start date; for "
    "every day the appliances which ran are decoded and compared with the day type, the drawn preference and, as a "
    "proportion, with occasional_use. Non-trivial: appliance-days decided; distinct by (kind, parameters, day pattern)."
)
FLOORS = {"appliance_days": 20000, "weekend_days": 200, "pref_days": 2000, "occasional_days": 2000, "calendar_days": 30000}
KNOWN_KEYS = {}


def cases(tier, seed):
    n = 420 if tier == "quick" else 4000
    kinds = ("week", "occasional", "pref", "zero", "mixed", "week", "pref_many")
    for i in range(n):
        yield dict(kind={7: "calendar", 15: "rare"}.get(i % 21) or kinds[i % 7], seed=seed * 1000099 + i)


def start_date(rng):
    return gen.pick(
        rng,
        ("2023-01-01", 1), ("2024-02-25", 1), ("2023-02-25", 1), ("2020-12-28", 1), ("1999-12-30", 1), ("2100-02-26", 1),
        (str((pd.Timestamp("2000-01-01") + pd.Timedelta(days=rng.randint(0, 20000))).date()), 5),
    )


def slot_app(rng, slot, nslots, style=None, **kw):
    """an appliance alone in its part of the day"""
    size = 1440 // nslots
    a = slot * size
    style = style or gen.pick(rng, ("flat", 3), ("plain", 1), ("cycle", 1))
    L = rng.randint(min(10, size - 1), min(60, size))
    s = rng.randint(a, a + size - L)
    app = dict(window_1=[s, s + L], func_time=rng.randint(1, L), func_cycle=1, random_var_w=0, power=rng.choice([1, 20]),
               number=1, name="app%d" % slot)
    if style == "flat":
        app["flat"] = "yes"
    elif style == "cycle":
        app.update(fixed_cycle=1, p_11=3, t_11=4, p_12=5, t_12=2)
    app.update(kw)
    return app, (a, a + size)


def ran(prof, rngs):
    """[day][appliance] booleans"""
    return [[bool((prof[d, a:b] > 0.0015).any()) for a, b in rngs] for d in range(len(prof))]


def calendar(rng, obs):
    """the type of a day, and the pattern of a year"""
    import datetime

    from ramp.core import utils

    sigs = set()
    for _ in range(8):
        y = rng.choice([2024, 2000, 2100, 1900, rng.randint(1800, 2250), rng.randint(2015, 2040)])
        one = datetime.date(y, 1, 1)
        n = (datetime.date(y + 1, 1, 1) - one).days
        want = [1 if (one + datetime.timedelta(days=d)).isoweekday() >= 6 else 0 for d in range(n)]
        with guard("get_day_type"):
            for d in range(n):
                day = one + datetime.timedelta(days=d)
                for form in (day, str(day), pd.Timestamp(day)) if d % 16 == y % 16 else (day,):
                    if utils.get_day_type(form) != want[d]:
                        raise Violation("the type of %s is %s" % (day, utils.get_day_type(form)), key="day-type")
        if hasattr(utils, "yearly_pattern"):
            with guard("yearly_pattern"):
                got = [int(x) for x in utils.yearly_pattern(y)]
                plain = [int(x) for x in utils.yearly_pattern()]
            if got != want:
                raise Violation("the pattern of %d does not match its %d days" % (y, n), key="yearly-pattern")
            if plain != [1 if d % 7 >= 5 else 0 for d in range(365)]:
                raise Violation("the default yearly pattern is not the one of 365 days from a monday", key="yearly-pattern")
        obs.add("calendar_days", n)
        sigs.add((y, sum(want)))
    return sigs


def is_weekend(start, d):
    import datetime

    return (datetime.date.fromisoformat(start) + datetime.timedelta(days=d)).isoweekday() >= 6


def run_case(case, obs):
    rng = random.Random(case["seed"])
    kind = case["kind"]
    if kind == "calendar":
        return calendar(rng, obs)
    start = start_date(rng)
    if kind == "week":
        days = rng.randint(15, 40)
        apps, rngs = zip(*[slot_app(rng, i, 3, wd_we_type=t) for i, t in enumerate(rng.sample([0, 1, 2], 3))])
        spec = dict(users=[dict(user_name="u", num_users=rng.choice([1, 1, 3]), appliances=list(apps))], num_days=days,
                    date_start=start, how=rng.choice(["dates", "init", "late"]))
        uc, prof = sim.profiles(spec)
        r = ran(prof, rngs)
        for d in range(days):
            we = is_weekend(start, d)
            obs.add("weekend_days", we)
            for i, a in enumerate(apps):
                obs.add("appliance_days")
                t = a["wd_we_type"]
                want = t == 2 or (t == 1) == we
                if r[d][i] != want:
                    raise Violation(
                        "appliance with wd_we_type=%d %s on day %d from %s, a %s"
                        % (t, "ran" if r[d][i] else "did not run", d, start, "weekend day" if we else "week day"),
                        key="week-type",
                    )
        obs.sample(dict(kind=kind, start=start, days=days, types=[a["wd_we_type"] for a in apps]))
        return [("week", start, d) for d in range(days)]
    if kind == "zero":
        days = rng.randint(5, 20)
        apps, rngs = zip(*[
            slot_app(rng, 0, 4, func_time=0),
            slot_app(rng, 1, 4, style="flat", func_time=0),
            slot_app(rng, 2, 4, occasional_use=0),
            slot_app(rng, 3, 4),
        ])
        spec = dict(users=[dict(user_name="u", num_users=1, appliances=list(apps))], num_days=days, date_start=start)
        uc, prof = sim.profiles(spec)
        r = ran(prof, rngs)
        for d in range(days):
            obs.add("appliance_days", 4)
            if r[d] != [False, False, False, True]:
                raise Violation(
                    "appliances with (func_time 0, flat func_time 0, occasional_use 0, always) ran: %s" % r[d], key="never-used"
                )
        if (prof[:, : rngs[3][0]] != 0).any():
            raise Violation("an appliance which is never used leaves a trace in the load", key="never-used")
        return [("zero", start, days)]
    if kind in ("occasional", "rare"):
        days = 700
        ps = [gen.pick(rng, (0.5, 1), (0.1, 1), (0.9, 1), (0.33, 1), (round(rng.random(), 2), 2), (1, 1), (0, 1)) for _ in range(3)]
        nu = rng.choice([1, 1, 2])
        if kind == "rare":
            ps = rng.sample([0.01, 0.02, 0.04, 0.06, 0.08, 0.93, 0.96, 0.98, 0.99], 3)
            nu = 6
        apps, rngs = zip(*[slot_app(rng, i, 3, style=rng.choice(["flat", "flat", "plain"]), occasional_use=p, fixed="yes") for i, p in enumerate(ps)])
        apps = list(apps)
        for a in apps:
            a["power"] = 1
            a["flat"] = "yes"
        spec = dict(users=[dict(user_name="u", num_users=nu, appliances=apps)], num_days=days, date_start=start)
        uc, prof = sim.profiles(spec)
        cnt = [[int(round(prof[d, a["window_1"][0]])) for a in apps] for d in range(days)]
        obs.add("occasional_days", days * 3)
        obs.add("appliance_days", days * 3 * nu)
        for i, p in enumerate(ps):
            stats.check_proportion(sum(c[i] for c in cnt), days * nu, p, "occasional_use=%g" % p, key="occasional-use")
        # independent from one day to the next, and from one appliance to the other
        if nu == 1:
            for i, p in enumerate(ps):
                both = sum(cnt[d][i] and cnt[d + 1][i] for d in range(0, days - 1, 2))
                stats.check_proportion(both, len(range(0, days - 1, 2)), p * p, "two days in a row with occasional_use=%g" % p, key="occasional-use")
            for i in range(3):
                for j in range(i):
                    both = sum(c[i] and c[j] for c in cnt)
                    stats.check_proportion(both, days, ps[i] * ps[j], "two appliances on the same day", key="occasional-use")
        else:
            for i, p in enumerate(ps):
                both = sum(c[i] == nu for c in cnt)
                stats.check_proportion(both, days, p ** nu, "all users on the same day with occasional_use=%g" % p, key="occasional-use")
        obs.sample(dict(kind=kind, occasional_use=ps, share_of_days=[sum(c[i] for c in cnt) / days / nu for i in range(3)]))
        return [("occ", tuple(ps), nu)]
    if kind in ("pref", "pref_many"):
        days = 400
        P = rng.choice([0, 1, 2, 3, 3])
        nu = 1 if kind == "pref" else rng.randint(2, 4)
        nap = 6
        idx = [0, 1, 2, 3, rng.choice([1, 2, 3]), rng.choice([0, 1, 2, 3])]
        apps, rngs = zip(*[slot_app(rng, i, nap, style="flat", pref_index=k) for i, k in enumerate(idx)])
        apps = [dict(a, power=1) for a in apps]
        spec = dict(users=[dict(user_name="u", num_users=nu, user_preference=P, appliances=apps)], num_days=days,
                    date_start=start, how=rng.choice(["dates", "init", "late"]))
        uc, prof = sim.profiles(spec)
        hist = {k: 0 for k in range(1, 4)}
        seq = []
        for d in range(days):
            c = [int(round(prof[d, a["window_1"][0]])) for a in apps]
            obs.add("pref_days")
            obs.add("appliance_days", nap)
            by = {}
            for k, n in zip(idx, c):
                if by.setdefault(k, n) != n:
                    raise Violation(
                        "appliances with the same pref_index %d ran for %d and %d users on the same day" % (k, by[k], n),
                        key="preference",
                    )
            if by[0] != nu:
                raise Violation("appliance without preference ran for %d of %d users" % (by[0], nu), key="preference")
            for k in (1, 2, 3):
                if k > P and by[k]:
                    raise Violation("appliance with pref_index %d ran although the user has %d preferences" % (k, P), key="preference")
                hist[k] += by[k]
            if P and sum(by[k] for k in range(1, P + 1)) != nu:
                raise Violation(
                    "%d users picked %s times preferences 1..%d on one day" % (nu, [by[k] for k in range(1, P + 1)], P),
                    key="preference",
                )
            if P and nu == 1:
                seq.append([k for k in range(1, P + 1) if by[k]][0])
            if P and nu > 1:
                seq.append(tuple(by[k] for k in range(1, P + 1)))
        if P:
            for k in range(1, P + 1):
                stats.check_proportion(hist[k], days * nu, 1.0 / P, "preference %d of %d" % (k, P), key="preference")
            if nu == 1:
                same = sum(seq[d] == seq[d + 1] for d in range(0, days - 1, 2))
                stats.check_proportion(same, len(range(0, days - 1, 2)), 1.0 / P, "same preference two days in a row", key="preference")
            elif P > 1:
                alls = sum(max(s) == nu for s in seq)
                stats.check_proportion(alls, days, P * (1.0 / P) ** nu, "all users share one preference", key="preference")
        obs.sample(dict(kind=kind, user_preference=P, num_users=nu, counts=hist))
        return [(kind, P, nu, tuple(idx), tuple(seq[:20]))]
    # mixed: every condition at once
    days = 60
    P = rng.choice([1, 2, 3])
    specs = []
    for i in range(6):
        specs.append(dict(pref_index=rng.choice([0, 0, 1, 2, 3]), wd_we_type=rng.choice([0, 1, 2]), occasional_use=rng.choice([1, 1, 0.5, 0])))
    apps, rngs = zip(*[slot_app(rng, i, 6, **s) for i, s in enumerate(specs)])
    spec = dict(users=[dict(user_name="u", num_users=1, user_preference=P, appliances=list(apps))], num_days=days, date_start=start)
    uc, prof = sim.profiles(spec)
    r = ran(prof, rngs)
    for d in range(days):
        we = is_weekend(start, d)
        prefs = {a["pref_index"] for i, a in enumerate(apps) if r[d][i] and a["pref_index"]}
        if len(prefs) > 1:
            raise Violation("appliances of preferences %s ran for one user on one day" % sorted(prefs), key="preference")
        for i, a in enumerate(apps):
            obs.add("appliance_days")
            may = a["wd_we_type"] == 2 or (a["wd_we_type"] == 1) == we
            may = may and a["occasional_use"] > 0 and a["pref_index"] <= P
            must = may and a["occasional_use"] == 1 and (a["pref_index"] == 0 or prefs == {a["pref_index"]} or P == 1)
            if r[d][i] and not may:
                raise Violation("appliance %s ran on day %d (%s)" % (specs[i], d, "weekend" if we else "week"), key="not-eligible")
            if must and not r[d][i]:
                raise Violation("appliance %s did not run on day %d (%s)" % (specs[i], d, "weekend" if we else "week"), key="eligible")
    return [("mixed", start, d, tuple(r[d])) for d in range(days)]
