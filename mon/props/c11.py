"""Parallel processing gives what sequential processing gives."""
import random

import numpy as np

from .. import daycheck, gen, models, sim, stats
from ..core import Violation, guard
from . import c05, c06

RULE = (
    "one case = a use case simulated with parallel_processing: exactly determined models are compared with the load computed by the monitor, "
    "random ones go through the oracles of the sequential load (windows, on-time, levels, duty cycles, day "
    "types, preferences, occasional use), independence between tasks and days is measured. Non-trivial: days produced by "
    "worker processes; distinct by (kind, model, load)."
)
FLOORS = {"parallel_days": 250, "exact_days": 60, "oracle_days": 60, "pref_user_days": 60, "tasks": 2000, "long_days": 600, "distinct_draws": 3000}
KNOWN_KEYS = {}
QUICK_S = 300


def cases(tier, seed):
    for i in range(3 if tier == "quick" else 6):
        yield dict(kind="long", seed=seed * 1000187 + i)
    for i in range(1 if tier == "quick" else 3):
        yield dict(kind="distinct", seed=seed * 1000189 + i)
    n = 64 if tier == "quick" else 480
    kinds = ("exact", "oracle", "prefs", "independent", "exact", "duty", "week", "occasional")
    for i in range(n):
        yield dict(kind=kinds[i % 8], seed=seed * 1000183 + i)


def par(spec, rng, obs, uc=None):
    spec = dict(spec)
    style = rng.choice(["flag", "flag", "attr", "method"])
    nd = spec["num_days"]
    obs.add("tasks", nd * sum(u.get("num_users", 1) * len(u["appliances"]) for u in spec["users"]))
    with guard("parallel simulation", draws=10_000_000, cpu=300):
        if style == "flag":
            spec["parallel"] = True
        uc = uc or sim.build(spec)
        if style == "attr":
            uc.parallel_processing = True
        if style == "method":
            prof = uc.generate_daily_load_profiles_parallel(flat=False)
        else:
            flat = rng.random() < 0.3
            prof = uc.generate_daily_load_profiles(flat=flat)
            prof = np.asarray(prof)
            if flat:
                if prof.shape != (nd * 1440,):
                    raise Violation("flat parallel load of shape %s for %d days" % (prof.shape, nd), key="shape")
                prof = prof.reshape(nd, 1440)
    prof = np.asarray(prof)
    if prof.shape != (nd, 1440):
        raise Violation("parallel load of shape %s for %d days" % (prof.shape, nd), key="shape")
    obs.add("parallel_days", nd)
    sim.sane(prof)
    return uc, prof


def run_case(case, obs):
    rng = random.Random(case["seed"])
    return globals()["do_" + case["kind"]](rng, obs, case)


def do_exact(rng, obs, case):
    spec = models.det_model(rng, days=rng.randint(1, 8))
    uc, prof = par(spec, rng, obs)
    for d in range(spec["num_days"]):
        want = models.det_day(spec, d)
        i = models.differs(prof[d].tolist(), want)
        if i is not None:
            raise Violation("parallel load of day %d is %.6f instead of %.6f at minute %d" % (d, prof[d][i], want[i], i), key="parallel-total")
        obs.add("exact_days")
    # the sequential run of the very same use case
    uc.parallel_processing = False
    with guard("sequential simulation"):
        seq = np.asarray(uc.generate_daily_load_profiles(flat=False))
    for d in range(spec["num_days"]):
        if models.differs(prof[d].tolist(), seq[d].tolist()) is not None:
            raise Violation("parallel and sequential loads of day %d differ" % d, key="parallel-total")
    return {(case["seed"], d, round(float(prof[d].sum()), 3)) for d in range(spec["num_days"])}


def do_oracle(rng, obs, case):
    days = rng.randint(4, 9)
    app = daycheck.plain_app(rng, days=days)
    spec = sim.one(app, num_days=days, how=rng.choice(["dates", "init", "late"]))
    uc, prof = par(spec, rng, obs)
    sigs = set()
    for d in range(days):
        daycheck.oracle_outside(prof[d], app)
        wins = daycheck.actual_windows(prof[d], app)
        T, lo, hi, full = daycheck.oracle_time(prof[d], app, wins)
        daycheck.oracle_levels(prof[d], app, sim.power_on(app, d))
        obs.add("oracle_days")
        sigs.add((case["seed"], T, lo, hi))
    return sigs


def do_duty(rng, obs, case):
    kind = rng.choice(["exact", "repeat", "single", "thermal", "three", "units"])
    app, ws, var = c05.duty_app(rng, kind)
    days = rng.randint(4, 8)
    spec = sim.one(app, num_days=days)
    uc, prof = par(spec, rng, obs)
    sigs = set()
    for d in range(days):
        info = c05.check_day(prof[d], app, ws, var, obs)
        obs.add("oracle_days")
        sigs.add((case["seed"], str(info)[:80]))
    return sigs


def do_prefs(rng, obs, case):
    """every instance of the user has exactly one preference a day, shared by its appliances"""
    pref = rng.choice([2, 3, 3])
    nu = rng.choice([1, 3, 25])
    days = rng.randint(4, 10) if nu < 25 else 3
    apps = []
    twin = []
    for k in range(1, pref + 1):
        apps.append(dict(window_1=[300 * k, 300 * k + 20], func_time=5, flat="yes", power=1, pref_index=k, name="p%d" % k))
        twin.append(dict(window_1=[300 * k + 100, 300 * k + 120], func_time=5, flat="yes", power=1, pref_index=k, name="q%d" % k))
    apps = apps + twin
    rng.shuffle(apps)
    apps.append(dict(window_1=[0, 20], func_time=5, flat="yes", power=1, pref_index=0, name="always"))
    users = [dict(user_name="u", num_users=nu, user_preference=pref, appliances=apps)]
    # another user without preference
    users.append(dict(user_name="v", num_users=2, user_preference=0,
                      appliances=[dict(window_1=[50, 60], func_time=5, flat="yes", power=1, name="w"),
                                  dict(window_1=[60, 70], func_time=5, flat="yes", power=1, pref_index=1, name="never")]))
    spec = dict(users=users, num_days=days)
    uc, prof = par(spec, rng, obs)
    tot = [0] * (pref + 1)
    for d in range(days):
        day = prof[d].tolist()
        if day[10] != nu or day[55] != 2 or day[65] != 0:
            raise Violation("appliances without preference (or of another one) ran %s, %s, %s times for %d, 2, 0 instances" % (day[10], day[55], day[65], nu), key="parallel-prefs")
        got = [day[300 * k + 10] for k in range(1, pref + 1)]
        got2 = [day[300 * k + 110] for k in range(1, pref + 1)]
        if sum(got) != nu or got != got2:
            raise Violation("%d instances ran the appliances of each preference %s and %s times" % (nu, got, got2), key="parallel-prefs")
        for k in range(pref):
            tot[k + 1] += int(got[k])
        obs.add("pref_user_days", nu)
    for k in range(1, pref + 1):
        stats.check_proportion(tot[k], nu * days, 1.0 / pref, "preference %d" % k, key="parallel-prefs")
    return {(case["seed"], tuple(tot))}


def do_week(rng, obs, case):
    start = c06.start_date(rng)
    days = rng.randint(9, 20)
    apps, rngs = zip(*[c06.slot_app(rng, i, 3, style="flat", wd_we_type=t, number=1, func_time=1) for i, t in enumerate(rng.sample([0, 1, 2], 3))])
    spec = dict(users=[dict(user_name="u", num_users=rng.choice([1, 2]), appliances=list(apps))], num_days=days, date_start=start)
    uc, prof = par(spec, rng, obs)
    r = c06.ran(prof, rngs)
    for d in range(days):
        we = c06.is_weekend(start, d)
        for i, a in enumerate(apps):
            t = a["wd_we_type"]
            if r[d][i] != (t == 2 or (t == 1) == we):
                raise Violation("appliance of type %d %s on day %d from %s" % (t, "ran" if r[d][i] else "did not run", d, start), key="parallel-week")
    return {("week", start, days)}


def do_long(rng, obs, case):
    """more than a year: the types and the powers of the days do not repeat"""
    start = c06.start_date(rng)
    days = 366 + rng.randint(4, 9)
    nu = 1
    types = rng.sample([0, 1], 2)
    apps = [dict(window_1=[100 * i, 100 * i + 20], func_time=1, flat="yes", number=1, power=1, wd_we_type=t, name="t%d" % t) for i, t in enumerate(types)]
    if rng.random() < 0.7:
        # a power for every day, none of them the same
        v = [round(0.5 + 0.25 * d, 2) for d in range(days)]
        rng.shuffle(v)
        k = rng.randrange(2)
        apps[k]["power"] = {"values": v}
    spec = dict(users=[dict(user_name="u", num_users=nu, appliances=apps)], num_days=days, date_start=start)
    uc, prof = par(spec, rng, obs)
    for d in range(days):
        we = c06.is_weekend(start, d)
        for i, a in enumerate(apps):
            p = a["power"]["values"][d] if isinstance(a["power"], dict) else a["power"]
            want = nu * p if (a["wd_we_type"] == 1) == we else 0
            got = float(prof[d][100 * i + 10])
            if abs(got - want) > 1e-6 * max(1, want) + 0.0011 * nu:
                raise Violation("load of the appliance of type %d on day %d from %s: %.4f instead of %.4f" % (a["wd_we_type"], d, start, got, want), key="parallel-week")
    obs.add("long_days", days)
    return {("long", start, days)}


def do_distinct(rng, obs, case):
    """thousands of tasks, two runs: no random power comes up again"""
    k = 4
    apps = [dict(window_1=[300 * i, 300 * i + 5], func_time=2, func_cycle=2, number=1, power=1, thermal_p_var=0.5, name="x%d" % i) for i in range(k)]
    days = 500
    spec = dict(users=[dict(user_name="u", num_users=1, appliances=apps)], num_days=days)
    uc, first = par(spec, rng, obs)
    uc, second = par(spec, rng, obs, uc=uc)
    seen = {}
    again = []
    for r, prof in enumerate((first, second)):
        for d in range(days):
            for i in range(k):
                v = float(prof[d][300 * i: 300 * i + 5].max())
                if not 0.5 * (1 - 1e-9) <= v <= 1.5 * (1 + 1e-9) + 0.001 * k:
                    raise Violation("power %s of an appliance of 1 W +- 50%%" % v, key="parallel-total")
                # the window of another appliance does not reach this minute: the value is the one which was drawn
                if v in seen:
                    again.append((seen[v], (r, d, i)))
                seen[v] = (r, d, i)
                obs.add("distinct_draws")
    if len(again) > 2:
        raise Violation("%d tasks out of %d drew the same random power as another one, e.g. (run, day, appliance) %s" % (len(again), 2 * days * k, again[:3]),
                        key="parallel-independent")
    return {(case["seed"], len(seen))}


def do_occasional(rng, obs, case):
    p = rng.choice([0.2, 0.5, 0.7])
    nu, days = rng.choice([(40, 5), (1, 60), (8, 20)])
    spec = sim.one(dict(window_1=[100, 110], func_time=4, flat="yes", power=2, occasional_use=p), num_days=days, user=dict(num_users=nu))
    uc, prof = par(spec, rng, obs)
    ks = [int(round(prof[d][105] / 2)) for d in range(days)]
    stats.check_proportion(sum(ks), nu * days, p, "occasional use in parallel", key="parallel-occasional")
    for k in ks:
        stats.check_proportion(k, nu, p, "occasional use of a day in parallel", key="parallel-occasional")
    if nu >= 40 and len(set(ks)) == 1 and days >= 5:
        # five identical binomial counts have a probability below 1e-4: look at a second run
        uc, prof = par(spec, rng, obs)
        if [int(round(prof[d][105] / 2)) for d in range(days)] == ks:
            uc, prof = par(spec, rng, obs)
            if [int(round(prof[d][105] / 2)) for d in range(days)] == ks:
                raise Violation("the instances of all days have the same draws", key="parallel-independent")
    if nu == 1:
        flips = sum(1 for i in range(1, days) if ks[i] != ks[i - 1])
        stats.check_proportion(flips, days - 1, 2 * p * (1 - p), "changes from one day to the next", key="parallel-independent", alpha=1e-12)
    return {(case["seed"], tuple(ks))}


def do_independent(rng, obs, case):
    """each task has its own draws: single-minute uses and windows of the day"""
    nu = rng.choice([1, 3, 10])
    apps = [dict(window_1=[0, 1440], func_time=1, power=100, number=1, name="a"),
            dict(window_1=[0, 1440], func_time=1, power=10000, number=1, name="b")]
    days = 8 if nu < 10 else 4
    spec = dict(users=[dict(user_name="u", num_users=nu, appliances=apps)], num_days=days)
    uc, prof = par(spec, rng, obs)
    first = []
    for d in range(days):
        day = prof[d]
        if not nu * 10100 * (1 - 1e-9) - 0.01 * nu <= day.sum() <= nu * 10100 + nu * 2 * 1.44:
            raise Violation("uses of a minute make %.3f instead of %d" % (day.sum(), nu * 10100), key="parallel-total")
        ma = [m for m in range(1440) if day[m] % 10000 > 50]
        mb = [m for m in range(1440) if day[m] >= 9999]
        first.append((tuple(ma), tuple(mb)))
    if len(set(a for a, _ in first)) <= max(1, days // 3) or len(set(b for _, b in first)) <= max(1, days // 3):
        raise Violation("the same minutes are drawn on different days: %s" % [f[0][:3] for f in first], key="parallel-independent")
    if sum(1 for a, b in first if a == b) >= max(3, days // 2 + 1):
        raise Violation("different appliances draw the same minutes", key="parallel-independent")
    if nu >= 3 and sum(1 for a, _ in first if len(a) == 1) >= max(3, days // 2):
        raise Violation("all the instances draw the same minute", key="parallel-independent")
    uc2, prof2 = par(spec, rng, obs, uc=uc)
    if (prof2 == prof).all():
        raise Violation("two runs draw the same minutes", key="parallel-independent")
    return {(case["seed"],) + f for f in first}
