"""Simulating leaves the model as it was, and the past of a model does not influence its future."""
import copy
import random

import numpy as np
import pandas as pd

from .. import daycheck, gen, models, sim
from ..core import METER, Violation, guard

RULE = (
    "one case = a random model (1-3 users, plain, flat and duty cycle appliances, preferences, seasonal power) which is used in "
    "several ways (simulations of several days, single days, single appliances, plots, saves, parallel runs); before and after, everything which describes "
    "it is compared, the data handed over by the caller included; and from the same random state, a model which was simulated before must yield the same load as "
    "a freshly built one. Non-trivial: models compared after a simulation, and pairs of loads; distinct by (kind, model, load)."
)
FLOORS = {"models_compared": 180, "caller_objects": 300, "twin_days": 250, "duty_twins": 40, "cross_days": 120}
KNOWN_KEYS = {}


def cases(tier, seed):
    n = 320 if tier == "quick" else 3200
    kinds = ("model", "twin", "caller", "twin", "model", "cross", "days", "swap")
    for i in range(n):
        yield dict(kind=kinds[i % 8], seed=seed * 1000253 + i)


# ---------------------------------------------------------------- description of a model
def plain(v):
    if isinstance(v, (np.ndarray, pd.Series, pd.DataFrame)):
        return ("arr", np.asarray(v, dtype=float).tolist())
    if isinstance(v, (list, tuple)):
        return ("arr", [plain(x) for x in v])
    if isinstance(v, np.generic):
        v = v.item()
    if isinstance(v, float) and v != v:
        return "nan"
    return v


ATTRS = (
    "name", "number", "num_windows", "func_time", "time_fraction_random_variability", "func_cycle", "fixed", "fixed_cycle",
    "continuous_duty_cycle", "occasional_use", "flat", "thermal_p_var", "pref_index", "wd_we_type", "random_var_w", "power",
    "window_1", "window_2", "window_3", "cw11", "cw12", "cw21", "cw22", "cw31", "cw32",
    "p_11", "t_11", "p_12", "t_12", "r_c1", "p_21", "t_21", "p_22", "t_22", "r_c2", "p_31", "t_31", "p_32", "t_32", "r_c3",
)


def describe(uc):
    """everything public which describes a model (not what a simulation produced)"""
    d = {}
    for i, u in enumerate(uc.users):
        d["user %d" % i] = (u.user_name, u.num_users, u.user_preference, len(u.App_list))
        d["user %d identity" % i] = id(u)
        d["user %d maximum" % i] = plain(u.maximum_profile)
        for j, a in enumerate(u.App_list):
            d["appliance %d.%d identity" % (i, j)] = id(a)
            for at in ATTRS:
                if hasattr(a, at):
                    d["appliance %d.%d %s" % (i, j, at)] = plain(getattr(a, at))
    df = uc.save()
    for c in df.columns:
        d["saved %s" % c] = [plain(v) for v in df[c].tolist()]
    d["days"] = [str(x) for x in uc.days]
    d["num_days"] = uc.num_days
    d["date_start"], d["date_end"] = str(uc.date_start), str(uc.date_end)
    idx = uc.datetimeindex
    d["index"] = (str(idx[0]), str(idx[-1]), len(idx))
    d["peak_enlarge"] = uc.peak_enlarge
    d["peak_time_range"] = plain(np.asarray(uc.peak_time_range))
    d["parallel"] = uc.parallel_processing
    return d


def compare(a, b, what):
    for k in a:
        if k not in b:
            raise Violation("%s: %s disappeared" % (what, k), key="model-changed")
        if a[k] != b[k]:
            raise Violation("%s changed %s: %s -> %s" % (what, k, str(a[k])[:120], str(b[k])[:120]), key="model-changed")
    for k in b:
        if k not in a:
            raise Violation("%s: %s appeared" % (what, k), key="model-changed")


# ---------------------------------------------------------------- uses of a model
def use(uc, rng, obs):
    """one way to use a model which must not change it"""
    what = rng.choice(["run", "run", "cases", "user", "single", "appliance", "parallel", "repr", "max", "peak"])
    if what == "parallel" and rng.random() < 0.6:
        what = "run"
    u = rng.choice(uc.users)
    d = rng.randrange(uc.num_days)
    with guard("%s of a valid model" % what, draws=20_000_000, cpu=120):
        if what == "run":
            uc.generate_daily_load_profiles(flat=rng.random() < 0.5)
        elif what == "cases":
            uc.generate_daily_load_profiles(cases=["a", "b"])
        elif what == "user":
            u.generate_aggregated_load_profile(d, uc.peak_time_range, rng.choice([0, 1]))
        elif what == "single":
            u.generate_single_load_profile(d, uc.peak_time_range, rng.choice([0, 1]))
        elif what == "appliance":
            a = rng.choice(u.App_list)
            a.generate_load_profile(prof_i=d, peak_time_range=uc.peak_time_range, day_type=rng.choice([0, 1]), power=a.power[d])
        elif what == "parallel":
            uc.generate_daily_load_profiles_parallel()
        elif what == "repr":
            repr(u), str(u), repr(u.App_list[0]), u.App_list[0] == u.App_list[-1], u.save(), u.export_to_dataframe()
        elif what == "max":
            u.maximum_profile, [a.maximum_profile for a in u.App_list], u.num_days
        elif what == "peak":
            # drawing another peak time range does not adopt it
            uc.calc_peak_time_range()
    return what


def safe_model(rng, **kw):
    """a model of which no day can be refused"""
    return models.random_model(rng, **kw)


def run_case(case, obs):
    rng = random.Random(case["seed"])
    return globals()["do_" + case["kind"]](rng, obs, case)


def do_model(rng, obs, case):
    spec = safe_model(rng)
    with guard("construction"):
        uc = sim.build(spec)
        before = describe(uc)
    done = []
    for _ in range(rng.randint(1, 4)):
        w = use(uc, rng, obs)
        done.append(w)
        with guard("description"):
            compare(before, describe(uc), w)
        obs.add("models_compared")
    obs.sample(dict(kind="model", uses=done, users=len(spec["users"])))
    return {("model", case["seed"], tuple(done))}


def do_caller(rng, obs, case):
    """windows, duty cycles and power handed over by the caller (lists, arrays, frames) are not written to"""
    ramp = sim.R()
    days = rng.randint(1, 4)
    handed = []

    def hand(v, form):
        if form == "list":
            o = list(v)
        elif form == "array":
            o = np.array(v)
        elif form == "frame":
            o = pd.DataFrame(v)
        handed.append((o, copy.deepcopy(o)))
        return o

    user = ramp.User("u", rng.choice([1, 2]))
    lst = [user]
    for j in range(rng.randint(1, 4)):
        a = models.any_app(rng, days)
        kw = sim.app_kwargs(a)
        kw["name"] = "a%d" % j
        for k in list(kw):
            if k.startswith("window_") or k.startswith("cw"):
                kw[k] = hand(kw[k], rng.choice(["list", "array"]))
            elif k == "power" and isinstance(a["power"], dict):
                if a["power"].get("form") == "frame":
                    kw[k] = hand(sim.series_values(a["power"]).tolist(), "frame")
        handed.append((kw, {k: copy.deepcopy(v) for k, v in kw.items()}))
        # shared between two appliances: what happens to one does not happen to the other
        with guard("add_appliance"):
            app = user.add_appliance(**kw)
            if rng.random() < 0.4:
                kw2 = dict(kw, name="b%d" % j, number=kw.get("number", 1) + 1)
                user.add_appliance(**kw2)
    days_obj = pd.date_range("2023-05-05", periods=days)
    handed.append((days_obj, days_obj.copy()))
    with guard("construction"):
        uc = ramp.UseCase(users=lst, date_start="2023-05-05", date_end=str(days_obj[-1].date()))
    peak = np.arange(700, 800)
    handed.append((peak, peak.copy()))
    before = describe(uc)
    use(uc, rng, obs)
    with guard("simulation", draws=20_000_000):
        uc.generate_daily_load_profiles()
        user.generate_aggregated_load_profile(0, peak, 0)
        user.generate_single_load_profile(0, peak, 1)
    compare(before, describe(uc), "simulation")
    if lst != [user] or len(lst) != 1:
        raise Violation("the list of users of the caller changed", key="caller-data")
    for o, c in handed:
        obs.add("caller_objects")
        if isinstance(o, dict):
            bad = set(o) != set(c) or any(plain(o[k]) != plain(c[k]) for k in o)
        elif isinstance(o, pd.DatetimeIndex):
            bad = list(o) != list(c)
        else:
            bad = type(o) is not type(c) or plain(o) != plain(c)
        if bad:
            raise Violation("%s of the caller changed from %s to %s" % (type(o).__name__, str(c)[:200], str(o)[:200]), key="caller-data")
    return {("caller", case["seed"], len(handed))}


def sole(uc, k, days, state, peak):
    """one day of appliance k of user 0, from a random state"""
    random.setstate(state)
    a = uc.users[0].App_list[k]
    a.generate_load_profile(prof_i=days[0], peak_time_range=peak, day_type=days[1], power=a.power[days[0]])
    return np.asarray(a.daily_use).tolist()


def fresh(spec, ex=None):
    """a newly built model; what depends on the random state at construction is made equal"""
    with guard("construction"):
        uc = sim.build(spec)
        uc.peak_time_range = np.arange(1000, 1100)
        if ex:
            ex(uc)
    return uc


def state_of(rng):
    return random.Random(rng.randrange(1 << 60)).getstate()


def do_twin(rng, obs, case):
    """used model against a fresh one, whole days"""
    spec = safe_model(rng)
    spec["how"] = "dates"
    old = fresh(spec)
    for _ in range(rng.randint(1, 3)):
        use(old, rng, obs)
    old.peak_time_range = np.arange(1000, 1100)
    new = fresh(spec)
    state = state_of(rng)
    loads = []
    for uc in (old, new):
        random.setstate(state)
        with guard("simulation", draws=20_000_000, cpu=120):
            loads.append(np.asarray(uc.generate_daily_load_profiles()).tolist())
    i = models.differs(loads[0], loads[1], rel=1e-12)
    if i is not None:
        raise Violation(
            "from the same random state a model used before and a new one differ at minute %d of day %d: %r instead of %r"
            % (i % 1440, i // 1440, loads[0][i], loads[1][i]), key="history")
    obs.add("twin_days", spec["num_days"])
    if any(a.get("fixed_cycle") for u in spec["users"] for a in u["appliances"]):
        obs.add("duty_twins")
    return {("twin", case["seed"], round(sum(loads[0]), 3))}


def do_days(rng, obs, case):
    """the days which come before do not influence a day: one appliance, any day first"""
    spec = sim.one(models.any_app(rng, 6), num_days=6)
    spec["users"][0]["appliances"][0].pop("occasional_use", None)
    peak = np.arange(600, 700)
    a, b = fresh(spec), fresh(spec)
    out = set()
    seq = [(rng.randrange(6), rng.choice([0, 1])) for _ in range(4)]
    states = [state_of(rng) for _ in seq]
    with guard("generate_load_profile"):
        first = [sole(a, 0, s, st, peak) for s, st in zip(seq, states)]
    order = list(range(4))
    rng.shuffle(order)
    with guard("generate_load_profile"):
        for k in order:
            got = sole(b, 0, seq[k], states[k], peak)
            i = models.differs(got, first[k], rel=1e-12)
            if i is not None:
                raise Violation(
                    "from the same random state, day %d differs at minute %d depending on the days simulated before: %r or %r"
                    % (seq[k][0], i, got[i], first[k][i]), key="history")
            obs.add("twin_days")
            out.add(("days", case["seed"], k, round(sum(got), 3)))
    if spec["users"][0]["appliances"][0].get("fixed_cycle"):
        obs.add("duty_twins")
    return out


def do_swap(rng, obs, case):
    """one appliance of a user does not influence the next: alone or after others"""
    days = 3
    app = models.any_app(rng, days)
    app.pop("occasional_use", None)
    app["name"] = "last"
    others = []
    for i in range(rng.randint(1, 3)):
        o = models.any_app(rng, days)
        o["name"] = "o%d" % i
        others.append(o)
    # sharing the description objects between appliances
    peak = np.arange(600, 700)
    alone = fresh(sim.one(app, num_days=days))
    spec = sim.one(app, num_days=days)
    spec["users"][0]["appliances"] = others + [app]
    withs = fresh(spec)
    out = set()
    for d in range(days):
        st = state_of(rng)
        with guard("generate_load_profile"):
            x = sole(alone, 0, (d, 0), st, peak)
            for k in range(len(others)):
                sole(withs, k, (d, 0), state_of(rng), peak)
            y = sole(withs, len(others), (d, 0), st, peak)
        i = models.differs(y, x, rel=1e-12)
        if i is not None:
            raise Violation("the load of an appliance depends on the other appliances of its user (minute %d: %r or %r)" % (i, y[i], x[i]),
                            key="cross-talk")
        obs.add("cross_days")
        out.add(("swap", case["seed"], d, round(sum(x), 2)))
    return out


def do_cross(rng, obs, case):
    """two models living side by side: simulating one neither changes nor influences the other"""
    s1, s2 = safe_model(rng), safe_model(rng)
    s1["how"] = s2["how"] = "dates"
    if rng.random() < 0.5:  # twins which share their description
        s2 = copy.deepcopy(s1)
        for u in s2["users"]:
            for a in u["appliances"]:
                a["number"] = a.get("number", 1) + 1
    a, b = fresh(s1), fresh(s2)
    ref = fresh(s1)
    st = state_of(rng)
    random.setstate(st)
    with guard("simulation", draws=20_000_000):
        want = np.asarray(ref.generate_daily_load_profiles()).tolist()
    before = describe(a)
    for _ in range(2):
        use(b, rng, obs)
    compare(before, describe(a), "simulating another use case")
    random.setstate(st)
    with guard("simulation", draws=20_000_000):
        got = np.asarray(a.generate_daily_load_profiles()).tolist()
    i = models.differs(got, want, rel=1e-12)
    if i is not None:
        raise Violation("simulating another use case influences this one (minute %d: %r or %r)" % (i, got[i], want[i]), key="cross-talk")
    obs.add("cross_days", s1["num_days"])
    obs.add("models_compared")
    return {("cross", case["seed"], round(sum(got), 2))}
