"""Equivalent ways to define a model, and equality of appliances and users."""
import random

import numpy as np

from .. import gen, models, sim
from ..core import Violation, guard
from . import c14

RULE = (
    "one case = one appliance defined in several equivalent ways (keywords, positional arguments, separate windows and duty "
    "cycle calls, an existing instance, the legacy constructor; lists, tuples and arrays), which must be equal, saved equally and "
    "simulated equally; or a pair of appliances differing in exactly one parameter, which must be different and both kept. "
    "Non-trivial: pairs compared; distinct by (parameters, pair)."
)
FLOORS = {"equal_pairs": 600, "different_pairs": 800, "kept_or_merged": 300, "same_simulation": 100}
KNOWN_KEYS = {}


def cases(tier, seed):
    n = 300 if tier == "quick" else 2400
    kinds = ("forms", "differ", "merge", "users")
    for i in range(n):
        yield dict(kind=kinds[i % 4], seed=seed * 1000213 + i)


def container(rng, w):
    return rng.choice([list, tuple, np.array])(w)


def kwargs(rng, app):
    kw = sim.app_kwargs(app)
    for k in c14.WINS:
        if k in kw:
            kw[k] = container(rng, kw[k])
    return kw


WKEYS = ("window_1", "window_2", "window_3", "random_var_w")
ARGS = ("number", "power", "num_windows", "func_time", "time_fraction_random_variability", "func_cycle", "fixed", "fixed_cycle",
        "continuous_duty_cycle", "occasional_use", "flat", "thermal_p_var", "pref_index", "wd_we_type", "name")
LEGACY = ("number", "power", "num_windows", "func_time", "time_fraction_random_variability", "func_cycle", "fixed", "fixed_cycle",
          "occasional_use", "flat", "thermal_p_var", "pref_index", "wd_we_type", "name")


def define(form, app, rng, user):
    """adds the appliance to the user in one of the supported ways"""
    ramp = sim.R()
    kw = kwargs(rng, app)
    if form == "keywords":
        return user.add_appliance(**kw)
    if form == "positional":
        full = [kw.pop(k) if k in kw else c14.DEFAULTS.get(k, 0 if k != "name" else "") for k in ARGS]
        n = rng.randint(len(ARGS) - 6, len(ARGS))
        rest = dict(zip(ARGS[n:], full[n:]))
        return user.add_appliance(*full[:n], **rest, **kw)
    base = {k: kw.pop(k) for k in ARGS if k in kw}
    win = {k: kw.pop(k) for k in WKEYS if k in kw}
    if form == "separate":
        a = user.add_appliance(**base)
    elif form == "instance":
        a = ramp.Appliance(user, **base)
        if rng.random() < 0.5:
            user.add_appliance(a)
    elif form == "legacy":
        cdc = base.pop("continuous_duty_cycle", 1)
        full = [base.get(k, c14.DEFAULTS.get(k, 0 if k != "name" else "")) for k in LEGACY]
        # what is not defined is given its default value or left out
        n = rng.choice([0, 1, 4, rng.randint(2, len(LEGACY)), len(LEGACY)])
        rest = {("thermal_P_var" if k == "thermal_p_var" else k): v for k, v in list(zip(LEGACY, full))[n:]
                if k in base or rng.random() < 0.3}
        a = user.Appliance(*([user] if rng.random() < 0.7 else []), *full[:n], **rest)
        a.continuous_duty_cycle = cdc
    else:
        raise ValueError(form)
    if set(win) <= {"window_1", "window_2", "random_var_w", "window_3"} and rng.random() < 0.4:
        pos = [win.get("window_1"), win.get("window_2"), win.get("random_var_w", 0), win.get("window_3")]
        if pos[1] is None:
            a.windows(**win)
        else:
            a.windows(*(pos if pos[3] is not None else pos[:3]))
    else:
        a.windows(**win)
    for c in (1, 2, 3):
        cyc = {k: kw[k] for k in ("p_%d1" % c, "t_%d1" % c, "p_%d2" % c, "t_%d2" % c, "r_c%d" % c) if k in kw}
        if cyc:
            r = rng.random()
            if r < 0.4:
                a.specific_cycle(c, **cyc)
            elif r < 0.7:
                getattr(a, "specific_cycle_%d" % c)(**cyc)
            else:
                getattr(a, "specific_cycle_%d" % c)(*[cyc.get(k, 0) for k in ("p_%d1" % c, "t_%d1" % c, "p_%d2" % c, "t_%d2" % c, "r_c%d" % c)])
    cws = {k: kw[k] for k in ("cw11", "cw12", "cw21", "cw22", "cw31", "cw32") if k in kw}
    if cws:
        if app.get("fixed_cycle") == 1:
            # the windows of the first cycle default to the windows of use
            for k in ("cw11", "cw12"):
                cws.setdefault(k, c14.windows_expected(app, k))
        a.cycle_behaviour(**cws)
    return a


def an_app(rng):
    app = models.any_app(rng, 2) if rng.random() < 0.6 else c14.full_app(rng, 2)
    app["name"] = rng.choice(["Bulb", "TV", "x y"])
    if app.get("fixed_cycle") == 1 and ("cw11" in app or "cw12" in app):
        for k in ("cw11", "cw12"):
            app.setdefault(k, c14.windows_expected(app, k))
    return app


def run_case(case, obs):
    rng = random.Random(case["seed"])
    return globals()["do_" + case["kind"]](rng, obs, case)


def row(a):
    return {k: v for k, v in a.save().iloc[0].to_dict().items()}


def same_row(x, y):
    for k in x:
        u, v = x[k], y.get(k)
        if isinstance(u, list) or isinstance(v, list):
            if list(u) != list(v):
                return k
        elif not (u == v or (u != u and v != v)):
            return k
    return None if set(x) == set(y) else "columns"


def do_forms(rng, obs, case):
    app = an_app(rng)
    for k in ("number", "func_cycle", "wd_we_type", "fixed", "flat", "occasional_use", "pref_index", "thermal_p_var",
              "continuous_duty_cycle", "time_fraction_random_variability"):
        # left to its default value
        if rng.random() < 0.2:
            app.pop(k, None)
    ramp = sim.R()
    forms = ["keywords", "positional", "separate", "instance", "legacy"]
    apps, loads = [], []
    sd = rng.randrange(1 << 30)
    simulable = app.get("name") and "cw31" not in app
    for f in forms:
        with guard("definition of an appliance (%s)" % f):
            user = ramp.User("u", 1, 3)
            a = define(f, app, rng, user)
            if len(user.App_list) != 1:
                raise Violation("the user has %d appliances after the definition of one (%s)" % (len(user.App_list), f), key="definition:" + f)
        a = user.App_list[0]
        c14.check_app(a, app, "appliance defined with %s" % f, obs)
        apps.append((f, a))
        with guard("simulation"):
            random.seed(sd)
            user.rand_daily_pref = app.get("pref_index", 0)
            try:
                a.generate_load_profile(1, np.arange(500, 600), rng.choice([0, 1]) if app.get("wd_we_type", 2) == 2 else app["wd_we_type"], a.power[1])
                loads.append((f, a.daily_use.tolist()))
            except ValueError as e:
                if "func_cycle" not in str(e):
                    raise
                loads.append((f, "func_cycle"))
    r0 = row(apps[0][1])
    for f, a in apps[1:]:
        k = same_row(r0, row(a))
        if k:
            raise Violation("column %s differs between the appliance defined with keywords and with %s" % (k, f), key="definition:" + f)
    for f, a in apps:
        for g, b in apps:
            if not bool(a == b):
                raise Violation("the appliances defined with %s and %s are not equal" % (f, g), key="equality")
            obs.add("equal_pairs")
    for f, l in loads[1:]:
        if l != loads[0][1]:
            raise Violation("with the same random numbers the appliance defined with %s has another load than with keywords" % f, key="simulation:" + f)
        obs.add("same_simulation")
    obs.sample(dict(app=app, forms=forms))
    return {("forms", case["seed"])}


def mutations(rng, app):
    """copies of the appliance which differ in exactly one parameter"""
    out = []

    def put(k, v):
        out.append((k, dict(app, **{k: v})))

    for k in ("number", "func_cycle"):
        put(k, app.get(k, 1) + 1)
    put("func_time", app["func_time"] - 1 if app["func_time"] > 2 else app["func_time"] - 0.5)
    put("time_fraction_random_variability", app.get("time_fraction_random_variability", 0) + rng.choice([0.01, 0.001]))
    put("fixed", "no" if app.get("fixed", "no") == "yes" else "yes")
    put("flat", "no" if app.get("flat", "no") == "yes" else "yes")
    put("continuous_duty_cycle", 1 - app.get("continuous_duty_cycle", 1))
    put("occasional_use", app.get("occasional_use", 1) * rng.choice([0.9, 0.998]))
    put("thermal_p_var", app.get("thermal_p_var", 0) + rng.choice([0.05, 0.002]))
    put("pref_index", (app.get("pref_index", 0) + 1) % 4)
    put("wd_we_type", (app.get("wd_we_type", 2) + 1) % 3)
    put("random_var_w", app.get("random_var_w", 0) + rng.choice([0.01, 0.001]))
    put("name", app["name"] + "2")
    p = app.get("power", 0)
    if isinstance(p, dict):
        v = sim.series_values(p).tolist()
        i = rng.choice([0, len(v) - 1, rng.randrange(len(v))])
        w = list(v)
        w[i] += rng.choice([1, 0.01])
        put("power", dict(values=w, form="frame"))
        put("power", 5)
        put("power", dict(values=v[:-1], form="frame"))
    else:
        put("power", p + rng.choice([1, 0.01]))
        put("power", dict(values=[float(p)] * 365 + [p + 1.0], form="frame"))
    w = app["window_1"]
    if w[1] - w[0] > 1 and w[0] > 0:
        put("window_1", [w[0] - 1, w[1]])
    if w[1] < 1440:
        put("window_1", [w[0], w[1] + 1])
    if app["num_windows"] < 3 and "window_3" not in app:
        put("window_3", [0, 3])
    for c in (1, 2, 3):
        for k in ("p_%d1" % c, "t_%d1" % c, "p_%d2" % c, "t_%d2" % c, "r_c%d" % c):
            # durations are whole numbers of minutes
            put(k, app.get(k, 0) + (1 if k[0] == "t" else rng.choice([1, 0.002]) if k[0] == "r" else rng.choice([1, 0.01])))
        for s in (1, 2):
            k = "cw%d%d" % (c, s)
            v = c14.windows_expected(app, k)
            if app.get("fixed_cycle") != 1 or k in app:
                put(k, [v[0], v[1] + 1])
    return out


def build_one(app, rng, user):
    return user.add_appliance(**kwargs(rng, app))


def do_differ(rng, obs, case):
    app = an_app(rng)
    ramp = sim.R()
    muts = mutations(rng, app)
    rng.shuffle(muts)
    sigs = set()
    with guard("comparison of appliances"):
        for k, other in muts[:14]:
            a = build_one(app, rng, ramp.User("u"))
            b = build_one(other, rng, ramp.User("u"))
            if bool(a == b) or bool(b == a):
                raise Violation("appliances which differ in %s (%s and %s) are equal" % (k, str(app.get(k))[:40], str(other.get(k))[:40]), key="equality")
            if not bool(a != b):
                raise Violation("appliances which differ in %s are not different" % k, key="equality")
            sigs.add((case["seed"], k))
            obs.add("different_pairs")
    return sigs


def do_merge(rng, obs, case):
    """the same appliance is only taken once; any difference makes it another one"""
    app = an_app(rng)
    ramp = sim.R()
    with guard("adding appliances"):
        user = ramp.User("u")
        a = build_one(app, rng, user)
        user.add_appliance(a)
        user.add_appliance(a, a)
        if len(user.App_list) != 1:
            raise Violation("the same appliance was added %d times" % len(user.App_list), key="merge")
        muts = mutations(rng, app)
        rng.shuffle(muts)
        n = 1
        kept = []
        for k, other in muts[:4]:
            build_one(other, rng, user)
            n += 1
            kept.append(k)
            if len(user.App_list) != n:
                raise Violation("an appliance which only differs in %s was not added" % k, key="merge")
            obs.add("kept_or_merged")
        # without name, similar appliances are separate ones
        u2 = ramp.User("v")
        nameless = {k: v for k, v in app.items() if k != "name"}
        for i in range(3):
            build_one(nameless, rng, u2)
        names = [x.name for x in u2.App_list]
        if len(set(names)) != 3 or len(names) != 3:
            raise Violation("three appliances without name are %s" % names, key="merge")
        u3 = ramp.User("w")
        b = ramp.Appliance(u3, name="other", func_time=5)
        c = ramp.Appliance(u3, name="another", func_time=5)
        u3.add_appliance(b, c)
        if [x.name for x in u3.App_list] != ["other", "another"]:
            raise Violation("several instances are not added together: %s" % [x.name for x in u3.App_list], key="merge")
        try:
            u3.add_appliance(b, "lamp")
            raise Violation("something else than an appliance is accepted", key="merge")
        except TypeError:
            pass
    return {("merge", case["seed"], tuple(kept))}


def do_users(rng, obs, case):
    apps = []
    for i in range(rng.randint(1, 3)):
        a = an_app(rng)
        a["name"] = "a%d" % i
        apps.append(a)
    ramp = sim.R()

    def mk(name="u", n=2, pref=1, aps=apps):
        u = ramp.User(name, n, pref)
        for a in aps:
            build_one(a, rng, u)
        return u

    with guard("comparison of users"):
        x, y = mk(), mk()
        if not bool(x == y):
            raise Violation("users with the same attributes and appliances are not equal", key="user-equality")
        obs.add("equal_pairs")
        wrong = []
        other = rng.choice(mutations(rng, apps[0]))[1]
        for what, z in (("name", mk(name="v")), ("num_users", mk(n=3)), ("user_preference", mk(pref=2)),
                        ("number of appliances", mk(aps=apps[:-1])), ("an appliance", mk(aps=[other] + apps[1:]))):
            if bool(x == z):
                wrong.append(what)
            obs.add("different_pairs")
    if wrong:
        raise Violation("users which differ in %s are equal" % ", ".join(wrong),
                        key="user-eq-ignores-everything" if len(wrong) == 5 else "user-equality")
    return {("users", case["seed"])}
