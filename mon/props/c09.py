"""Peak time range: where it is centred, how wide it is, and what it depends on."""
import random

import numpy as np

from .. import gen, models, sim, stats
from ..core import Violation

RULE = (
    "one case = a use case of 1-4 users with 1-4 appliances whose theoretical maximum profile is recomputed by the monitor; "
    "the peak time range is obtained through one of its access paths many times and compared with the law of the model "
    "(exactly determined when the maximum lasts a single minute and the enlargement is zero). Non-trivial: ranges seen; distinct by "
    "(model, path, centre, width)."
)
FLOORS = {"ranges": 20000, "point_ranges": 2000, "after_simulation": 100, "late_additions": 100, "law_ranges": 20000}
KNOWN_KEYS = {}


def cases(tier, seed):
    for i in range(8 if tier == "quick" else 40):
        yield dict(kind="law", seed=seed * 1000157 + i, draws=8000 if tier == "quick" else 16000)
    n = 720 if tier == "quick" else 6000
    kinds = ("point", "spread", "width", "weights", "history", "late")
    for i in range(n):
        yield dict(kind=kinds[i % 6], seed=seed * 1000151 + i, draws=120 if tier == "quick" else 400)


def any_power(rng):
    if rng.random() < 0.25:
        return dict(series=rng.randrange(1 << 30), n=366, form="frame")
    return rng.choice([5, 40, 100, 300.5, 1000])


def peak_app(rng, **kw):
    ws, var = gen.windows(rng, nw=rng.choice([1, 1, 2, 3]), var=rng.choice([0, 0, 0.1, 0.3]), minlen=4)
    tot = sum(w[1] - w[0] for w in ws)
    app = gen.base_appliance(rng, ws, var, max(1, tot // 4), 1)
    app["power"] = any_power(rng)
    app["number"] = rng.choice([1, 2, 3, 10])
    if rng.random() < 0.2:
        app["flat"] = "yes"
    app.update(kw)
    return app


def weight(u, a):
    p = a["power"]
    mean = float(np.mean(sim.series_values(p))) if isinstance(p, dict) else float(p)
    return u.get("num_users", 1) * a["number"] * mean


def maximum(users):
    prof = [0.0] * 1440
    for u in users:
        for a in u["appliances"]:
            w = weight(u, a)
            mins = set()
            for k in ("window_1", "window_2", "window_3"):
                if k in a:
                    mins |= set(range(a[k][0], a[k][1]))
            for m in mins:
                prof[m] += w
    return prof


def peak_minutes(users):
    """minutes of the maximum, or None when it is ambiguous (numerically tied)"""
    prof = maximum(users)
    mx = max(prof)
    close = [m for m in range(1440) if prof[m] > mx * (1 - 1e-6)]
    sets = set()
    for m in close:
        sets.add(tuple(any(k in a and a[k][0] <= m < a[k][1] for k in ("window_1", "window_2", "window_3"))
                       for u in users for a in u["appliances"]))
    if len(sets) > 1:
        return None
    return close


def model(rng, kind):
    users = []
    for i in range(rng.choice([1, 2, 3, 4])):
        users.append(dict(user_name="u%d" % i, num_users=rng.choice([1, 1, 2, 5, 20, 150]),
                          appliances=[peak_app(rng) for _ in range(rng.choice([1, 1, 2, 4]))]))
    if kind == "weights":
        # appliances alone in their part of the day: the weights alone decide
        users = []
        n = rng.choice([2, 3, 4])
        slots = list(range(n))
        rng.shuffle(slots)
        size = 1440 // n
        for i, s in enumerate(slots):
            L = rng.randint(1, 40)
            a = s * size + rng.randint(0, size - L)
            users.append(dict(user_name="u%d" % i, num_users=rng.choice([1, 2, 3, 30, 99, 200, 1500]),
                              appliances=[peak_app(rng, window_1=[a, a + L], num_windows=1, func_time=1, random_var_w=0,
                                                   number=rng.choice([1, 2, 7, 50, 120, 400]), power=rng.choice([3, 40, 100, any_power(rng)]))]))
            for k in ("window_2", "window_3"):
                users[-1]["appliances"][0].pop(k, None)
        if rng.random() < 0.4:
            users = [dict(user_name="all", num_users=rng.choice([1, 3]), appliances=[u["appliances"][0] for u in users])]
    elif kind in ("point", "width", "history", "late"):
        # a spike of one minute on top of the maximum
        pm = peak_minutes(users)
        if pm:
            m = rng.choice([pm[0], pm[-1], rng.choice(pm)])
            u = rng.choice(users)
            u["appliances"].append(dict(window_1=[m, m + 1], num_windows=1, func_time=1, power=rng.choice([1, 700]), number=rng.choice([1, 3]),
                                        func_cycle=0, flat="yes"))
    for i, u in enumerate(users):
        for j, a in enumerate(u["appliances"]):
            a["name"] = "a%d_%d" % (i, j)
    return users


def decode(r, what):
    r = np.asarray(r).tolist()
    if len(r) < 2 or len(r) % 2 or any(r[i + 1] - r[i] != 1 for i in range(len(r) - 1)):
        raise Violation("%s: the peak time range %s is not made of consecutive minutes around a centre" % (what, r[:6]), key="peak-shape")
    h = len(r) // 2
    return r[0] + h, h


def check_law(ranges, pm, enlarge, what):
    lo, hi = pm[0], pm[-1]
    avg = sum(pm) / len(pm)
    sigma = (hi - lo) / 3.0
    centres = []
    for r in ranges:
        c, h = decode(r, what)
        centres.append((c, h))
    if abs(avg - int(avg) - 0.5) < 1e-6:
        mus = [int(avg), int(avg) + 1]
    else:
        mus = [int(round(avg))]
    if sigma == 0:
        for c, h in centres:
            if c not in mus:
                raise Violation("%s: the peak time is %d although the maximum is at minute %d" % (what, c, lo), key="peak-centre")
    else:
        for c, h in centres:
            if min(abs(c - mu) for mu in mus) > 7.5 * sigma + 1:
                raise Violation("%s: the peak time is %d although the maximum is within %d and %d" % (what, c, lo, hi), key="peak-centre")
        if len(mus) == 1:
            mu = mus[0]
            stats.check_cdf([c for c, h in centres], lambda x: stats.phi((x + 0.5 - mu) / sigma), what + ": peak time",
                            key="peak-centre", left=lambda x: stats.phi((x - 0.5 - mu) / sigma))
    if enlarge == 0:
        for c, h in centres:
            if h != 1:
                raise Violation("%s: the half width of the peak time range is %d without enlargement" % (what, h), key="peak-width")
    elif sigma == 0:
        s = enlarge * centres[0][0]
        if s <= 0:
            return centres

        def F(x):
            return 2 * stats.phi((x + 0.5) / s) - 1

        stats.check_cdf([h for c, h in centres], F, what + ": half width", key="peak-width",
                        left=lambda x: 0.0 if x <= 1 else F(x - 1))
    else:
        for c, h in centres:
            if h > max(1, 7.5 * enlarge * abs(c) + 1):
                raise Violation("%s: the half width %d of the peak time range is too large" % (what, h), key="peak-width")
        # probability integral transform of the width given the centre, randomised
        us = []
        rr = random.Random(len(centres))
        for c, h in centres:
            s = enlarge * abs(c)
            if s < 0.5:
                continue
            a = 0.0 if h <= 1 else 2 * stats.phi((h - 0.5) / s) - 1
            b = 2 * stats.phi((h + 0.5) / s) - 1
            us.append(a + rr.random() * (b - a))
        stats.check_cdf(us, lambda x: x, what + ": half width", key="peak-width")
    return centres


def run_case(case, obs):
    rng = random.Random(case["seed"])
    kind = case["kind"]
    if kind == "law":
        # many draws of one small model
        users = [dict(user_name="u", num_users=rng.choice([1, 4]), appliances=[peak_app(rng, name="a")])]
        if rng.random() < 0.5:
            users[0]["appliances"].append(peak_app(rng, name="b"))
    else:
        users = model(rng, kind)
    pm = peak_minutes(users)
    if pm is None:
        obs.add("tied_models")
        return None
    enlarge = 0.0
    if kind == "width":
        enlarge = rng.choice([0.05, 0.15, 0.5])
    elif kind == "law":
        enlarge = rng.choice([0.0, 0.05, 0.15, 0.4])
    elif kind == "spread":
        enlarge = rng.choice([0.0, 0.0, 0.1])
    N = case["draws"]
    spec = dict(users=users, num_days=rng.randint(1, 3), peak_enlarge=enlarge, how=rng.choice(["dates", "init", "late", "add"]))
    with sim.guard("peak time range", cpu=240):
        uc = sim.build(spec)
        ranges = [uc.peak_time_range]
        if kind == "history":
            if max(1, sum(u.get("num_users", 1) * len(u["appliances"]) for u in users)) > 60:
                for u in users:
                    u["num_users"] = 1
                pm = peak_minutes(users)
                if pm is None:
                    return None
                uc = sim.build(spec)
                ranges = []
            before = uc.users[0].maximum_profile.tolist()
            uc.generate_daily_load_profiles()
            ranges.append(uc.calc_peak_time_range())
            uc.initialize(num_days=2, force=True)
            ranges.append(uc.peak_time_range)
            if uc.users[0].maximum_profile.tolist() != before:
                raise Violation("the maximum profile changed after a simulation", key="peak-history")
            obs.add("after_simulation", 2)
        elif kind == "late":
            # one more appliance, or one more user, once the use case is initialised
            m = rng.randint(0, 1439)
            big = dict(window_1=[m, m + 1], num_windows=1, func_time=1, func_cycle=0, power=9e6, number=2, name="late", flat="yes")
            if rng.random() < 0.5:
                i = rng.randrange(len(users))
                users[i] = dict(users[i], appliances=users[i]["appliances"] + [big])
                uc.users[i].add_appliance(**big)
            else:
                users = users + [dict(user_name="late", num_users=1, appliances=[big])]
                nu = sim.R().User(user_name="late")
                if rng.random() < 0.5:
                    nu.add_appliance(**big)
                    uc.add_user(nu)
                else:
                    uc.add_user([nu])
                    nu.add_appliance(**big)
            pm = peak_minutes(users)
            ranges = []
            obs.add("late_additions")
            ranges.append(uc.peak_time_range)
        for _ in range(N if kind in ("spread", "width", "law") else 12):
            path = rng.random()
            if path < 0.9:
                ranges.append(uc.calc_peak_time_range())
            elif path < 0.95:
                uc.peak_enlarge = float(enlarge)
                ranges.append(uc.peak_time_range)
            elif path < 0.97:
                ranges.append(uc.calc_peak_time_range(peak_enlarge=float(enlarge)))
            else:
                uc.initialize(num_days=1, peak_enlarge=float(enlarge), force=True)
                ranges.append(uc.peak_time_range)
    cs = check_law(ranges, pm, enlarge, kind)
    # the profile itself, per user
    for ruser, u in zip(uc.users, users):
        got = ruser.maximum_profile.tolist()
        want = maximum([u])
        # in the unit used by RAMP for idle windows; only the shape matters
        k = max(range(1440), key=lambda i: want[i])
        if want[k] > 0:
            f = got[k] / want[k]
            i = models.differs(got, [w * f for w in want])
            if f <= 0 or i is not None:
                raise Violation("the maximum profile of a user is not proportional to users x units x mean power in its windows (minute %s)" % i,
                                key="peak-profile")
    obs.add("ranges", len(ranges))
    if kind == "law" and pm[-1] > pm[0]:
        obs.add("law_ranges", len(ranges))
    if len(pm) == 1 and enlarge == 0:
        obs.add("point_ranges", len(ranges))
    obs.sample(dict(kind=kind, peak_minutes=[pm[0], pm[-1], len(pm)], enlarge=enlarge, centre_and_half_width=cs[:5]))
    return {(kind, pm[0], pm[-1], c, h) for c, h in cs}
