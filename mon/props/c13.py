"""Calendar: which days are simulated, their time index, and re-initialisation."""
import datetime
import random

import numpy as np
import pandas as pd

from .. import gen, models, sim
from ..core import Violation, guard

RULE = (
    "one case = a use case given a combination of start date, end date and number of days (strings, dates, datetimes; leap "
    "years, year ends), possibly re-initialised; the days, the number of days, the minute index and the day types of the "
    "load are compared with the calendar of the Python standard library. Non-trivial: use cases initialised; distinct by "
    "(combination, first day, number of days)."
)
FLOORS = {"calendars": 600, "reinitialised": 150, "leap_days": 30, "load_days": 3000, "plots": 10}
KNOWN_KEYS = {}


def cases(tier, seed):
    n = 1000 if tier == "quick" else 8000
    kinds = ("both", "both_n", "start_n", "end_n", "n_only", "force", "setter", "noforce", "load", "days_arg")
    for i in range(n):
        yield dict(kind=kinds[i % 10], seed=seed * 1000187 + i)


D = datetime.date


def a_date(rng):
    return gen.pick(
        rng, (D(2024, 2, 27), 1), (D(2023, 2, 27), 1), (D(2020, 12, 30), 1), (D(1999, 12, 31), 1), (D(2000, 2, 28), 1),
        (D(2100, 2, 27), 1), (D(2023, 10, 28), 1), (D(2024, 3, 30), 1),
        (D(1990, 1, 1) + datetime.timedelta(days=rng.randint(0, 25000)), 8))


def form(rng, d):
    """a date in one of the accepted forms"""
    return rng.choice([d.isoformat(), d.isoformat(), d, datetime.datetime(d.year, d.month, d.day), pd.Timestamp(d), d.isoformat() + " 00:00:00"])


def days_from(d, n):
    return [d + datetime.timedelta(days=i) for i in range(n)]


WD = dict(window_1=[100, 200], func_time=10, flat="yes", power=1, wd_we_type=0, name="wd")
WE = dict(window_1=[100, 200], func_time=10, flat="yes", power=2, wd_we_type=1, name="we")


def users(rng):
    u = sim.R().User("u", 1)
    u.add_appliance(**WD)
    u.add_appliance(**WE)
    # seasonal power tells the days apart
    u.add_appliance(window_1=[300, 310], func_time=1, flat="yes", power=pd.DataFrame([10.0 + i for i in range(800)]), name="day")
    return [u]


def check(uc, want, rng, obs, load=True):
    got = [d.date() if hasattr(d, "date") else d for d in list(uc.days)]
    if got != want:
        raise Violation("the days are %s .. %s (%d) instead of %s .. %s (%d)"
                        % (got[0], got[-1], len(got), want[0], want[-1], len(want)), key="days")
    if uc.num_days != len(want):
        raise Violation("num_days is %s instead of %d" % (uc.num_days, len(want)), key="num-days")
    idx = uc.datetimeindex
    n = len(want) * 1440
    t0 = pd.Timestamp(want[0])
    if len(idx) != n or idx[0] != t0 or idx[-1] != t0 + pd.Timedelta(minutes=n - 1):
        raise Violation("the time index goes from %s to %s with %d minutes instead of %s and %d minutes"
                        % (idx[0], idx[-1], len(idx), t0, n), key="index")
    k = rng.randrange(n)
    if idx[k] != t0 + pd.Timedelta(minutes=k):
        raise Violation("minute %d of the index is %s" % (k, idx[k]), key="index")
    if not uc.is_initialized:
        raise Violation("the use case is not initialised", key="initialized")
    obs.add("calendars")
    if any(d.month == 2 and d.day == 29 for d in want):
        obs.add("leap_days")
    if load:
        with guard("simulation"):
            prof = uc.generate_daily_load_profiles(flat=False)
            flat = None
            if rng.random() < 0.1:
                flat = uc.generate_daily_load_profiles(cases=[1])
        prof = np.asarray(prof)
        if prof.shape != (len(want), 1440):
            raise Violation("the load of %d days has shape %s" % (len(want), prof.shape), key="shape")
        for d, day in enumerate(want):
            lv = prof[d, 150]
            exp = 2 if day.isoweekday() >= 6 else 1
            if lv != exp:
                raise Violation("%s %s is simulated as a %s" % (day.strftime("%A"), day, {1: "week day", 2: "weekend day"}.get(lv, lv)), key="day-type")
            if prof[d, 305] != 10.0 + d:
                raise Violation("day %d uses the seasonal value of day %s" % (d, prof[d, 305] - 10), key="day-index")
        obs.add("load_days", len(want))
        if flat is not None:
            df = flat.DataFrame
            if not df.index.equals(idx):
                raise Violation("the index of the plot differs from the one of the use case", key="index")
            v = df.iloc[:, 0].values
            k = rng.randrange(len(want))
            if df.index[k * 1440 + 305].date() != want[k] or v[k * 1440 + 305] != 10.0 + k:
                raise Violation("the time index and the load do not match", key="index")
            obs.add("plots")


def run_case(case, obs):
    rng = random.Random(case["seed"])
    ramp = sim.R()
    kind = case["kind"]
    s = a_date(rng)
    n = gen.pick(rng, (1, 2), (2, 1), (7, 1), (rng.randint(1, 30), 4), (rng.randint(300, 400), 0.3))
    e = s + datetime.timedelta(days=n - 1)
    us = users(rng)
    with guard("initialisation"):
        if kind == "both":
            uc = ramp.UseCase(users=us, date_start=form(rng, s), date_end=form(rng, e))
            want = days_from(s, n)
            if rng.random() < 0.2:
                uc.initialize()
        elif kind == "both_n":
            # initialised by the dates; forcing a number of days starts from the start date
            n2 = rng.choice([n, max(1, n - 1), n + 3])
            uc = ramp.UseCase(users=us, date_start=form(rng, s), date_end=form(rng, e))
            uc.initialize(num_days=n2, force=True)
            want = days_from(s, n2)
            obs.add("reinitialised")
        elif kind == "start_n":
            uc = ramp.UseCase(users=us, date_start=form(rng, s))
            uc.initialize(n)
            want = days_from(s, n)
        elif kind == "end_n":
            uc = ramp.UseCase(users=us, date_end=form(rng, e))
            uc.initialize(num_days=n)
            want = days_from(s, n)
        elif kind == "n_only":
            before = datetime.date.today()
            uc = ramp.UseCase(users=us)
            uc.initialize(num_days=n)
            after = datetime.date.today()
            first = uc.days[0].date()
            if not before <= first <= after:
                raise Violation("without date the first day is %s" % first, key="days")
            want = days_from(first, n)
        elif kind == "force":
            uc = ramp.UseCase(users=us, date_start=form(rng, s), date_end=form(rng, e))
            if rng.random() < 0.5:
                uc.generate_daily_load_profiles()
            s = a_date(rng)
            n = rng.randint(1, 20)
            uc.date_start = form(rng, s)
            uc.date_end = form(rng, s + datetime.timedelta(days=n - 1))
            uc.initialize(force=True)
            want = days_from(s, n)
            obs.add("reinitialised")
        elif kind == "setter":
            # dates given after the construction
            uc = ramp.UseCase(users=us)
            uc.date_start = form(rng, s)
            r = rng.random()
            if r < 0.3:
                uc.date_end = form(rng, e)
                uc.initialize()
            elif r < 0.6:
                # the number of days prevails over the end date
                uc.date_end = form(rng, e)
                n = rng.choice([n, n + 2, max(1, n - 1)])
                uc.initialize(num_days=n)
            else:
                uc.initialize(num_days=n)
            want = days_from(s, n)
            if rng.random() < 0.5:
                check(uc, want, rng, obs)
                n = rng.randint(1, 9)
                uc.initialize(num_days=n, force=True)
                want = days_from(s, n)
                obs.add("reinitialised")
        elif kind == "noforce":
            uc = ramp.UseCase(users=us, date_start=form(rng, s), date_end=form(rng, e))
            pk = np.asarray(uc.peak_time_range).tolist()
            uc.initialize(num_days=n + 2)
            want = days_from(s, n)
            if np.asarray(uc.peak_time_range).tolist() != pk:
                raise Violation("initialize() without force changed the peak time range", key="noforce")
        elif kind == "load":
            # the users come from a file, once the days are set
            ramp.UseCase(users=[ramp_user()]).save("cal")
            uc = ramp.UseCase(date_start=form(rng, s), date_end=form(rng, e))
            uc.load("cal.xlsx")
            uc.users[0].add_appliance(window_1=[300, 310], func_time=1, flat="yes", power=pd.DataFrame([10.0 + i for i in range(800)]), name="day")
            want = days_from(s, n)
        elif kind == "days_arg":
            return days_arg(ramp, us, s, rng, obs)
        else:
            raise ValueError(kind)
    check(uc, want, rng, obs, load=n < 60)
    if len(want) <= 3:
        obs.sample(dict(kind=kind, days=[str(d) for d in want]))
    return {(kind, str(want[0]), len(want))}


def ramp_user():
    u = sim.R().User("u", 1)
    u.add_appliance(**WD)
    u.add_appliance(**WE)
    return u


def days_arg(ramp, us, s, rng, obs):
    """the days given to generate_daily_load_profiles are the ones which are simulated"""
    with guard("generate_daily_load_profiles(days=...)"):
        n = rng.randint(3, 9)
        uc = ramp.UseCase(users=us, date_start=s.isoformat(), date_end=(s + datetime.timedelta(days=n - 1)).isoformat())
        k = rng.randint(1, n - 1)
        all_days = uc.days
        sub = all_days[:k] if rng.random() < 0.5 else all_days[k:]
        prof = np.asarray(uc.generate_daily_load_profiles(days=sub, flat=False))
        if prof.shape == (n, 1440) and list(uc.days) == list(all_days):
            raise Violation("generate_daily_load_profiles(days=%d of the %d days) returned the load of the %d days" % (len(sub), n, n),
                            key="days-argument-ignored")
        if prof.shape != (len(sub), 1440):
            raise Violation("generate_daily_load_profiles(days=%d days) returned shape %s" % (len(sub), prof.shape), key="shape")
        for i, d in enumerate(sub):
            if prof[i, 150] != (2 if d.weekday() >= 5 else 1):
                raise Violation("wrong day type with days=...", key="day-type")
    return {("days_arg", str(s), k)}
