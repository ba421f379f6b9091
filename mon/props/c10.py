"""Aggregation: the load of the use case is the sum over users, instances and appliances."""
import math
import random

import numpy as np

from .. import daycheck, gen, models, sim, stats
from ..core import Violation, guard

RULE = (
    "one case = a use case whose total load is exactly determined (flat appliances, 0-7 instances per user), or one whose "
    "parts are observable in the total (single-minute uses, disjoint times of day); the load returned by each public entry point is compared with the "
    "sum computed by the monitor. Non-trivial: minutes with load; distinct by (model, day, entry point)."
)
FLOORS = {"exact_days": 2000, "single_user_days": 150, "plots": 40, "instance_days": 300, "random_day_sums": 60, "in_step_days": 500}
KNOWN_KEYS = {}


def cases(tier, seed):
    n = 900 if tier == "quick" else 5500
    kinds = ("exact", "exact", "user", "cases", "instances", "randsum", "occasional", "identical", "identical")
    for i in range(n):
        yield dict(kind=kinds[i % 9], seed=seed * 1000159 + i)


def same(got, want, what, key="total"):
    got = got.tolist() if hasattr(got, "tolist") else list(got)
    i = models.differs(got, want)
    if i is not None:
        raise Violation(
            "%s: %s" % (what, "%d values instead of %d" % (len(got), len(want)) if i < 0 else
                        "load %.6f instead of %.6f at minute %d" % (got[i], want[i], i)), key=key)


def run_case(case, obs):
    rng = random.Random(case["seed"])
    return globals()["do_" + case["kind"]](rng, obs, case)


def do_exact(rng, obs, case):
    spec = models.det_model(rng)
    days = spec["num_days"]
    want = [models.det_day(spec, d) for d in range(days)]
    how = rng.choice(["2d", "flat", "default"])
    if how == "2d":
        uc, prof = sim.profiles(spec)
        for d in range(days):
            same(prof[d], want[d], "day %d" % d)
    else:
        with guard("generate_daily_load_profiles"):
            uc = sim.build(spec)
            got = uc.generate_daily_load_profiles(flat=True, verbose=rng.random() < 0.3) if how == "flat" else uc.generate_daily_load_profiles()
        if np.asarray(got).ndim != 1:
            raise Violation("a flat load has %d dimensions" % np.asarray(got).ndim, key="shape")
        same(got, [x for w in want for x in w], "flat load")
    # the users keep the load of the last day
    for u, ru in zip(spec["users"], uc.users):
        same(ru.load, models.det_user_day(u, days - 1, spec["date_start"]), "User.load of the last day", key="user-load")
    # once more: a run does not leave anything behind in the next one
    with guard("generate_daily_load_profiles"):
        again = uc.generate_daily_load_profiles(flat=False)
    for d in range(days):
        same(np.asarray(again)[d], want[d], "second run, day %d" % d)
    obs.add("exact_days", 2 * days)
    obs.sample(dict(users=[(u["num_users"], len(u["appliances"])) for u in spec["users"]], days=days, total=sum(want[0])))
    return {(case["seed"], d, round(sum(want[d]), 3), how) for d in range(days)}


def do_user(rng, obs, case):
    """entry points of User"""
    spec = models.det_model(rng, zero_users=True)
    days = spec["num_days"]
    with guard("User load profiles"):
        uc = sim.build(spec)
        for u, ru in zip(spec["users"], uc.users):
            d = rng.randrange(days)
            dt = 1 if models.weekend(spec["date_start"], d) else 0
            want = models.det_user_day(u, d, spec["date_start"])
            got = ru.generate_aggregated_load_profile(d, uc.peak_time_range, dt)
            same(got, want, "generate_aggregated_load_profile")
            same(ru.load, want, "User.load", key="user-load")
            one = models.det_user_day(dict(u, num_users=1), d, spec["date_start"])
            args = rng.choice([0, 1])
            got = (ru.generate_single_load_profile(prof_i=d, day_type=dt) if args else
                   ru.generate_single_load_profile(d, np.arange(5, 50), dt))
            same(got, one, "generate_single_load_profile", key="single-load")
            # appliances keep their own last profile
            for a, ra in zip(u["appliances"], ru.App_list):
                same(ra.daily_use, models.app_day(a, d, spec["date_start"]), "Appliance.daily_use", key="appliance-load")
            obs.add("single_user_days")
        # a user which does not belong to any use case
        u = spec["users"][0]
        alone = sim.R().User("alone", 2)
        sim.fill(alone, u)
        got = alone.generate_single_load_profile(0, day_type=0)
        w = models.det_user_day(dict(u, num_users=1), 0, "2024-01-01")
        same(got, w, "generate_single_load_profile without use case", key="single-load")
        # what is left out: the first day, a week day, the peak time range of the use case
        alone = sim.R().User("alone", rng.randint(1, 3))
        sim.fill(alone, u)
        if rng.random() < 0.5:
            sim.R().UseCase(name="its use case", users=[alone])
        same(alone.generate_single_load_profile(), w, "generate_single_load_profile()", key="single-load")
        w = models.det_user_day(dict(u, num_users=alone.num_users), 0, "2024-01-01")
        same(alone.generate_aggregated_load_profile(), w, "generate_aggregated_load_profile()", key="single-load")
        # with a random appliance, on its own
        alone = sim.R().User("alone", 2)
        P = rng.choice([3.0, 40.0, 1000.0])
        t, n = rng.randint(5, 200), rng.randint(1, 4)
        alone.add_appliance(number=n, power=P, num_windows=1, func_time=t, func_cycle=rng.choice([1, 3]), window_1=[rng.choice([0, 300]), 1440])
        for got, k in ((alone.generate_single_load_profile(), 1), (alone.generate_aggregated_load_profile(), 2)):
            got = got.tolist()
            if not t * P * 0.999 <= sum(got) <= k * n * (t * P + 1.5):
                raise Violation("%d users with %d units used %d minutes a day at %g W consume %.1f W.min" % (k, n, t, P, sum(got)), key="single-load")
    return {(case["seed"], round(sum(w), 3))}


def do_cases(rng, obs, case):
    """cases=...: a Plot with one independent run per case"""
    det = rng.random() < 0.5
    labels = rng.choice([[1], [1, 2, 3], ["a", "b"], range(1, 4), ("x", 2)])
    if det:
        spec = models.det_model(rng, days=rng.randint(1, 5))
    else:
        spec = sim.one(dict(window_1=[0, 1440], func_time=300, time_fraction_random_variability=0.2, power=5, number=4), num_days=rng.randint(1, 3))
    with guard("generate_daily_load_profiles(cases=...)"):
        uc = sim.build(spec)
        p = uc.generate_daily_load_profiles(cases=labels)
    df = p.DataFrame
    if list(df.columns) != ["case %s" % c for c in labels]:
        raise Violation("the columns of the cases are %s" % list(df.columns), key="cases")
    nd = spec["num_days"]
    if len(df) != nd * 1440 or not df.index.equals(uc.datetimeindex):
        raise Violation("the index of the cases is not the one of the use case", key="cases")
    cols = [df.iloc[:, i].values.tolist() for i in range(len(labels))]
    if det:
        want = [x for d in range(nd) for x in models.det_day(spec, d)]
        for c in cols:
            same(c, want, "case", key="cases")
        obs.add("exact_days", nd * len(cols))
    else:
        for i in range(1, len(cols)):
            if any(cols[i] == cols[j] for j in range(i)):
                raise Violation("two cases are the same run", key="cases-independent")
    obs.add("plots")
    return {(case["seed"], len(labels), det)}


def fewest(k):
    """k independent uniform minutes: at most this number of distinct ones is out of reach
    (P(distinct <= k - c) <= comb(k, c) * (k / 1440)^c)"""
    lc = 0.0
    for c in range(1, k):
        lc += math.log((k - c + 1) / c)
        if c > k * k / 1440.0 and lc + c * math.log(min(1.0, k / 1440.0)) < math.log(stats.ALPHA):
            return k - c
    return max(1, k // 4)


def do_instances(rng, obs, case):
    """each instance of a user is simulated on its own: single-minute uses"""
    nu = rng.choice([2, 5, 20, 60])
    n_apps = rng.choice([1, 2, 3])
    napps = []
    for i in range(n_apps):
        napps.append(dict(window_1=[0, 1440], func_time=1, power=10 ** i * 100, number=1, name="a%d" % i))
    days = rng.randint(2, 5)
    spec = dict(users=[dict(user_name="u", num_users=nu, appliances=napps)], num_days=days, how=rng.choice(["dates", "init", "late"]))
    uc, prof = sim.profiles(spec)
    per_day = []
    for d in range(days):
        marks = sum(100 * 10 ** i for i in range(n_apps)) * nu
        # the idle marker is negligible: at most nu * n_apps * 0.001 per minute
        tot = float(prof[d].sum())
        if not marks * (1 - 1e-9) - nu * n_apps * 1e-3 * 2 <= tot <= marks + nu * n_apps * 1.44 + 1e-6:
            raise Violation("%d instances of %d uses of a minute make %.3f instead of %.3f" % (nu, n_apps, tot, marks), key="total")
        on = [m for m in range(1440) if prof[d][m] > 50]
        per_day.append(tuple(on))
        k = nu * n_apps
        # 2k collisions or more among k uses never happen by chance
        # P(at most c distinct minutes): for k uses, at most comb * (c/1440)^k
        if k >= 4 and len(on) <= fewest(k):
            raise Violation("%d independent uses fall on only %d distinct minutes" % (k, len(on)), key="instances")
        obs.add("instance_days")
    k = nu * n_apps
    if k >= 4 and len(set(per_day)) == 1:
        raise Violation("all days are identical", key="days-independent")
    return {(nu, n_apps, len(o)) for o in per_day}


def do_occasional(rng, obs, case):
    """each instance draws its own occasional use and its own preference"""
    nu = rng.choice([150, 400])
    p = rng.choice([0.2, 0.5, 0.8])
    pref = rng.choice([2, 3])
    apps = [dict(window_1=[0, 100], func_time=5, flat="yes", power=1, occasional_use=p, name="occ")]
    for k in range(1, pref + 1):
        apps.append(dict(window_1=[200 * k, 200 * k + 50], func_time=5, flat="yes", power=1, pref_index=k, name="pref%d" % k))
    spec = dict(users=[dict(user_name="u", num_users=nu, user_preference=pref, appliances=apps)], num_days=3)
    uc, prof = sim.profiles(spec)
    hist = []
    for d in range(3):
        k = prof[d][50]
        stats.check_proportion(int(round(k)), nu, p, "instances using an occasional appliance", key="instances")
        per = [int(round(prof[d][200 * j + 25])) for j in range(1, pref + 1)]
        if sum(per) != nu:
            raise Violation("%d preferences for %d instances: %s" % (sum(per), nu, per), key="instances")
        for x in per:
            stats.check_proportion(x, nu, 1.0 / pref, "instances with a preference", key="instances")
        hist.append((int(k), tuple(per)))
        obs.add("instance_days")
    if len(set(hist)) == 1:
        raise Violation("all days are identical", key="days-independent")
    return set(hist)


def do_identical(rng, obs, case):
    """identical instances, users or appliances are still drawn one by one, whatever the kind of appliance"""
    n = rng.choice([2, 2, 3, 5, 11])
    of = rng.choice(["instances", "instances", "users", "appliances"])
    var = rng.choice([0, 0, 0.2, 0.35])
    ws, var = gen.windows(rng, nw=rng.choice([1, 1, 2, 3]), var=var, minlen=150)
    tot = gen.min_total(ws, var)
    a = dict(num_windows=len(ws), random_var_w=var, power=1, number=rng.choice([1, 1, 2, 4]), name="a",
             func_time=rng.randint(5, max(6, min(tot // 4, 300))))
    for i, w in enumerate(ws):
        a["window_%d" % (i + 1)] = list(w)
    a["func_cycle"] = rng.choice([0, 1, 5, a["func_time"]])
    a["fixed"] = rng.choice(["yes", "yes", "no"])
    if a["fixed"] == "no":
        a["number"] = 1
    if rng.random() < 0.3:
        a["time_fraction_random_variability"] = rng.choice([0.1, 0.3])
    if rng.random() < 0.25:
        a.update(fixed_cycle=1, cw11=[0, 1440], t_11=a["func_cycle"] or 5, p_11=1, t_12=rng.choice([0, 3]), p_12=1, r_c1=rng.choice([0, 0.2]),
                 continuous_duty_cycle=rng.choice([0, 1]), func_cycle=a["func_cycle"] or 5)
    kw = dict(num_days=rng.randint(6, 9), how=rng.choice(["dates", "init"]))
    if rng.random() < 0.2:
        kw["parallel"] = True
    if of == "instances":
        us = [dict(user_name="u", num_users=n, appliances=[a])]
    elif of == "users":
        us = [dict(user_name="u%d" % i, num_users=1, appliances=[a]) for i in range(n)]
    else:
        us = [dict(user_name="u", num_users=1, appliances=[dict(a, name="a%d" % i) for i in range(n)])]
    uc, prof = sim.profiles(dict(users=us, **kw))
    levels = set()
    for d in range(kw["num_days"]):
        levels.update(int(round(x)) for x in prof[d].tolist())
    # the chance that several days of n independent draws coincide minute by minute is nil
    if all(x % (n * a["number"]) == 0 for x in levels):
        raise Violation("%d identical %s of %d days always are in step (levels %s)" % (n, of, kw["num_days"], sorted(levels)[:8]), key="instances")
    if len({tuple(prof[d].tolist()) for d in range(kw["num_days"])}) == 1:
        raise Violation("all days are identical", key="days-independent")
    obs.add("in_step_days", kw["num_days"])
    return {(of, n, tuple(sorted(levels))[:8], case["seed"])}


def do_randsum(rng, obs, case):
    """a random model: the total of a day is the sum of the loads of its users, and these of their appliances"""
    spec = models.random_model(rng, days=1, max_users=1 if rng.random() < 0.5 else 3)
    uc, prof = sim.profiles(spec)
    sim.sane(prof)
    tot = [0.0] * 1440
    for ru in uc.users:
        l = ru.load.tolist()
        for m in range(1440):
            tot[m] += l[m]
        if ru.num_users == 1:
            s = [0.0] * 1440
            for ra in ru.App_list:
                x = ra.daily_use.tolist()
                for m in range(1440):
                    s[m] += x[m]
            same(ru.load, s, "User.load against its appliances", key="user-load")
    same(prof[0], tot, "total against the users")
    # the load of a user is bounded by all its units on
    obs.add("random_day_sums")
    return {(case["seed"], round(float(prof.sum()), 3))}
