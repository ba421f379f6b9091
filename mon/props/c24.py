"""The models shipped with the package: what is delivered, and realistic communities as a whole."""
import copy
import csv
import os
import random
import shutil
import sys
import types

import numpy as np

from .. import daycheck, gen, sim
from ..core import Violation, guard
from . import c05, c16, c17

RULE = (
    "one case = a shipped example fetched into a new folder, read by an independent interpreter of input files which records what the "
    "file says, then compared with the model RAMP builds from it, converted to a spreadsheet, or simulated (as it is or with shifted "
    "windows, other times of use and numbers): every appliance of single instances is checked on its own and the load of the whole "
    "community against its envelope and energy bounds. Non-trivial: appliance-days, files; distinct by (example, day, load)."
)
FLOORS = {"appliance_days": 3500, "described_appliances": 300, "community_days": 60, "fetched_files": 60, "cycle_days": 400}
KNOWN_KEYS = {}
EXAMPLES = ("input_file_1.py", "input_file_2.py", "input_file_3.py")
FILES = EXAMPLES + ("shower_P.csv", "daily_T.csv", "T_gw.csv")


def cases(tier, seed):
    n = 240 if tier == "quick" else 1600
    kinds = ("instances", "variant", "community", "fetch", "describe", "instances", "variant", "convert", "community", "variant")
    for i in range(n):
        yield dict(kind=kinds[i % 10], seed=seed * 1000403 + i)


# ---------------------------------------------------------------- what the file says


class RecAppliance:
    def __init__(self, args, kw):
        self.d = dict(zip(c17.ARGS, args))
        self.d.update({k: list(v) if k[:2] == "cw" or k[:7] == "window_" else v for k, v in kw.items()})
        for k in ("window_1", "window_2", "window_3"):
            if self.d.get(k) == [0, 0]:
                del self.d[k]

    def windows(self, window_1=None, window_2=None, random_var_w=0, window_3=None):
        for i, w in enumerate((window_1, window_2, window_3)):
            if w is not None and list(w) != [0, 0]:
                self.d["window_%d" % (i + 1)] = list(w)
        self.d["random_var_w"] = random_var_w

    def cycle(self, c, p1, t1, p2, t2, r=0):
        self.d.update({"p_%d1" % c: p1, "t_%d1" % c: t1, "p_%d2" % c: p2, "t_%d2" % c: t2, "r_c%d" % c: r})

    def cws(self, **kw):
        self.d.update({k: list(w) for k, w in kw.items() if w is not None})

    def specific_cycle_1(self, p_11=0, t_11=0, p_12=0, t_12=0, r_c1=0, cw11=None, cw12=None):
        self.cws(cw11=cw11, cw12=cw12)
        self.cycle(1, p_11, t_11, p_12, t_12, r_c1)

    def specific_cycle_2(self, p_21=0, t_21=0, p_22=0, t_22=0, r_c2=0, cw21=None, cw22=None):
        self.cws(cw21=cw21, cw22=cw22)
        self.cycle(2, p_21, t_21, p_22, t_22, r_c2)

    def specific_cycle_3(self, p_31=0, t_31=0, p_32=0, t_32=0, r_c3=0, cw31=None, cw32=None):
        self.cws(cw31=cw31, cw32=cw32)
        self.cycle(3, p_31, t_31, p_32, t_32, r_c3)

    def specific_cycle(self, cycle_num, **kw):
        getattr(self, "specific_cycle_%d" % cycle_num)(**kw)

    def cycle_behaviour(self, cw11=(0, 0), cw12=(0, 0), cw21=(0, 0), cw22=(0, 0), cw31=(0, 0), cw32=(0, 0)):
        for k, w in zip(("cw11", "cw12", "cw21", "cw22", "cw31", "cw32"), (cw11, cw12, cw21, cw22, cw31, cw32)):
            self.d[k] = list(w)


class RecUser:
    def __init__(self, user_name="", num_users=1, user_preference=0):
        self.user_name, self.num_users, self.user_preference, self.apps = user_name, num_users, user_preference, []

    def add_appliance(self, *args, **kw):
        a = RecAppliance(args, kw)
        self.apps.append(a)
        return a


def recorded(path):
    """users and appliances as written in an input file"""
    stub = types.ModuleType("ramp.core.core")
    stub.User = RecUser
    saved = sys.modules["ramp.core.core"]
    ramp = sim.R()
    real = ramp.User
    sys.modules["ramp.core.core"] = stub
    ramp.User = RecUser
    try:
        with open(path) as f:
            src = f.read()
        ns = {"__name__": "input"}
        exec(compile(src, path, "exec"), ns)
    finally:
        sys.modules["ramp.core.core"] = saved
        ramp.User = real
    out = []
    for u in ns["User_list"]:
        apps = []
        for a in u.apps:
            d = dict(a.d)
            if hasattr(d.get("power"), "values"):
                d["power"] = dict(values=[float(x) for x in np.ravel(d["power"].values)], form="frame")
            for k in ("number", "num_windows", "func_cycle"):
                d.setdefault(k, 1)
            d.setdefault("time_fraction_random_variability", 0)
            d.setdefault("fixed", "no")
            d.setdefault("fixed_cycle", 0)
            d.setdefault("continuous_duty_cycle", 1)
            d.setdefault("random_var_w", 0)
            apps.append(d)
        out.append(dict(user_name=u.user_name, num_users=u.num_users, user_preference=u.user_preference, appliances=apps))
    return out


def workplace(case):
    """a folder in which the examples work as documented: ./ramp/example"""
    base = os.path.abspath("ex%d" % case["seed"])
    dst = os.path.join(base, "ramp", "example")
    os.makedirs(dst)
    with guard("download_example"):
        sim.R().download_example(dst)
    return base, dst


def run_case(case, obs):
    rng = random.Random(case["seed"])
    here = os.getcwd()
    base, dst = workplace(case)
    path = list(sys.path)
    try:
        os.chdir(base)
        return globals()["do_" + case["kind"]](rng, obs, case, dst)
    finally:
        os.chdir(here)
        sys.path[:] = path
        shutil.rmtree(base, ignore_errors=True)


def source():
    import ramp.example

    return os.path.dirname(os.path.abspath(ramp.example.__file__))


def content(p):
    with open(p, "rb") as f:
        return f.read()


def do_fetch(rng, obs, case, dst):
    """everything is delivered, over whatever was there, the package is left as it is"""
    src = source()
    before = {f: content(os.path.join(src, f)) for f in sorted(os.listdir(src)) if f.endswith((".py", ".csv"))}
    other = os.path.abspath(rng.choice(["with space", "a.b", "deep/er/folder"]))
    os.makedirs(other)
    target = rng.choice([other, os.path.relpath(other), other + "/"])
    with open(os.path.join(other, rng.choice(FILES)), "w") as f:
        f.write("something old and much longer\n" * 5000)
    with open(os.path.join(other, "mine.txt"), "w") as f:
        f.write("kept")
    with guard("download_example"):
        sim.R().download_example(target)
    for folder in (other, dst):
        for name in FILES:
            p = os.path.join(folder, name)
            if not os.path.exists(p):
                raise Violation("download_example does not deliver %s" % name, key="not-delivered")
            if content(p) != before[name]:
                raise Violation("download_example delivers a %s which is not the one of the package" % name, key="delivered-differs")
            obs.add("fetched_files")
    if content(os.path.join(other, "mine.txt")) != b"kept":
        raise Violation("download_example touches other files", key="delivered-differs")
    after = {f: content(os.path.join(src, f)) for f in before}
    if after != before:
        raise Violation("download_example changes the package", key="package-changed")
    # data
    with guard("load_data"):
        df = sim.R().load_data("shower")
    with open(os.path.join(src, "shower_P.csv")) as f:
        want = [float(r[0]) for r in list(csv.reader(f))[1:]]
    got = [float(x) for x in np.ravel(df.values)]
    if len(got) != len(want) or any(abs(a - b) > 1e-9 * abs(b) for a, b in zip(got, want)):
        raise Violation("load_data('shower') gives %d values which are not the %d shipped ones" % (len(got), len(want)), key="load-data")
    try:
        sim.R().load_data(rng.choice(["", "Shower_", "missing"]))
    except ValueError:
        pass
    else:
        raise Violation("load_data accepts an unknown name", key="load-data")
    return {("fetch", target, os.path.basename(other))}


def rampwise(path):
    """the users RAMP builds from the input file"""
    with guard("running an example"):
        with open(path) as f:
            src = f.read()
        ns = {"__name__": "input", "__file__": path}
        exec(compile(src, path, "exec"), ns)
    return ns["User_list"]


def compare(users, rusers, what, names=True):
    if [(u["user_name"], u["num_users"], u["user_preference"]) for u in users] != [
            (r.user_name, int(r.num_users), int(r.user_preference)) for r in rusers]:
        raise Violation("%s: the users are %s" % (what, [(r.user_name, r.num_users, r.user_preference) for r in rusers][:9]), key="users")
    n = 0
    for u, r in zip(users, rusers):
        if len(u["appliances"]) != len(r.App_list):
            raise Violation("%s: user %s has %d appliances instead of %d" % (what, u["user_name"], len(r.App_list), len(u["appliances"])), key="appliances")
        for a, ra in zip(u["appliances"], r.App_list):
            for k, v in a.items():
                if k in ("random_var_w", "name"):
                    continue
                got = getattr(ra, k)
                if k == "power":
                    days = range(min(len(got), 366 if not isinstance(v, dict) else len(v["values"])))
                    if len(got) < 2:
                        raise Violation("%s: power of appliance %s of %s has %d values" % (what, a.get("name"), u["user_name"], len(got)), key="parameter")
                    days = list(days)
                    if any(abs(float(got[d]) - float(sim.power_on(a, d))) > 1e-9 * max(1, float(sim.power_on(a, d))) for d in days):
                        raise Violation("%s: power of appliance %s of %s" % (what, a.get("name"), u["user_name"]), key="parameter")
                    continue
                same = list(map(float, got)) == list(map(float, v)) if isinstance(v, list) else (
                    str(got) == v if isinstance(v, str) else abs(float(got) - float(v)) < 1e-9)
                if not same:
                    raise Violation("%s: %s of appliance %s of %s is %s instead of %s" % (what, k, a.get("name"), u["user_name"], got, v), key="parameter")
            if names and "name" in a and ra.name != a["name"]:
                raise Violation("%s: appliance %s is named %s" % (what, a["name"], ra.name), key="parameter")
            n += 1
    return n


def do_describe(rng, obs, case, dst):
    sigs = set()
    for f in EXAMPLES:
        users = recorded(os.path.join(dst, f))
        obs.add("described_appliances", compare(users, rampwise(os.path.join(dst, f)), f))
        sigs.add((f, len(users)))
    return sigs


def do_convert(rng, obs, case, dst):
    from ramp import ramp_convert_old_input_files as conv

    f = rng.choice(EXAMPLES)
    users = recorded(os.path.join(dst, f))
    out = os.path.abspath("out")
    os.makedirs(out)
    with guard("converting an example"):
        conv.convert_old_user_input_file(os.path.join("ramp", "example", f), output_path=out)
    made = [x for x in os.listdir(out) if x.endswith(".xlsx")]
    if len(made) != 1:
        raise Violation("converting %s gives %s" % (f, made), key="convert")
    with guard("loading a converted example"):
        uc = sim.R().UseCase(date_start="2021-06-01", date_end="2021-06-02")
        uc.load(os.path.join(out, made[0]))
    obs.add("described_appliances", compare(users, uc.users, "conversion of " + f, names=False))
    return {("convert", f, case["seed"] % 3)}


# ---------------------------------------------------------------- simulations


def vary(rng, users):
    users = copy.deepcopy(users)
    for u in users:
        u["num_users"] = rng.randint(1, 6)
        for a in u["appliances"]:
            ws = [k for k in ("window_1", "window_2", "window_3") if k in a]
            cws = [k for k in a if k[:2] == "cw" and a[k] != [0, 0]]
            tot = sum(a[k][1] - a[k][0] for k in ws)
            if rng.random() < 0.5:
                lo, hi = min(a[k][0] for k in ws + cws), max(a[k][1] for k in ws + cws)
                s = rng.randint(-lo, 1440 - hi)
                for k in ws + cws:
                    a[k] = [a[k][0] + s, a[k][1] + s]
            if rng.random() < 0.5:
                a["func_time"] = max(1, min(tot, int(a["func_time"] * rng.choice([0.3, 0.7, 1.2, 2]))))
            if rng.random() < 0.3:
                a["number"] = rng.randint(1, 9) if not a["fixed_cycle"] else 1
            if rng.random() < 0.3:
                a["time_fraction_random_variability"] = rng.choice([0, 0.1, 0.3, 0.5])
            if rng.random() < 0.2:
                a["occasional_use"] = rng.choice([1, 0.5])
            if rng.random() < 0.2:
                a["wd_we_type"] = rng.choice([0, 1, 2])
            if rng.random() < 0.2 and u["user_preference"]:
                a["pref_index"] = rng.randint(0, u["user_preference"])
            if rng.random() < 0.2 and not isinstance(a["power"], dict) and not a["fixed_cycle"]:
                a["power"] = round(rng.uniform(1, 3000), 2)
    return users


def disjoint(app):
    o = sorted(gen.outer(w, app["random_var_w"]) for w in daycheck.app_windows(app))
    return all(a[1] < b[0] for a, b in zip(o, o[1:]))


def feasible(app):
    ws = daycheck.app_windows(app)
    return app["func_cycle"] <= gen.max_func_cycle(ws, app["random_var_w"])


def check_app(a, use, d, obs):
    """one day of one appliance of one instance which runs on that day"""
    P = float(sim.power_on(a, d))
    ws, var, n, th = daycheck.app_windows(a), a["random_var_w"], a["number"], a.get("thermal_p_var", 0)
    daycheck.oracle_outside(use, a)
    if not disjoint(a):
        return
    wins = daycheck.actual_windows(use, a)
    if a.get("flat", "no") == "yes":
        want = np.zeros(1440)
        for x, y in wins:
            want[x:y] = n * P
        if np.abs(use - want).max() > 1e-9 * max(1, n * P):
            raise Violation("flat appliance %s is not at %g W during its windows" % (a.get("name"), n * P), key="flat-level")
        return
    if a["fixed_cycle"] == 0:
        daycheck.oracle_levels(use, a, P)
        daycheck.oracle_time(use, a, wins)
        daycheck.oracle_events(use, a, wins, th > 0)
        return
    obs.add("cycle_days")
    reach = [a[k] for k in ("cw11", "cw12", "cw21", "cw22", "cw31", "cw32") if a.get(k, [0, 0]) != [0, 0]]
    daycheck.oracle_time(use, a, wins, reach or ws)
    if a["fixed_cycle"] == 1:
        c05.check_day(use, a, ws, var, obs)
        return
    ps = {float(a["p_%d%d" % (c, k)]) for c in range(1, a["fixed_cycle"] + 1) for k in (1, 2)}
    for x, y, v in sim.segments(use):
        if not any(abs(v / k - p) < 1e-9 * p and k == int(k) for p in ps for k in ([n] if a["fixed"] == "yes" else range(1, n + 1))):
            raise Violation("level %s of %s belongs to none of its duty cycles (%s W, %d units)" % (v, a.get("name"), sorted(ps), n), key="cycle-power")
    # events do not leave the parts played by their cycle for more than their own length: each minute
    # on is played by a cycle which has a window within reach of its run
    for x, y in sim.runs(use > 0.0015):
        if reach and not any(c[0] <= y - 1 and c[1] >= x for c in reach):
            obs.add("cut_events")


def check_instance(u, ru, d, dt, load, obs):
    total = np.zeros(1440)
    always = {}
    ran_pref = set()
    for a, ra in zip(u["appliances"], ru.App_list):
        use = np.asarray(ra.daily_use, dtype=float)
        total = total + use
        ran = bool((use != 0).any())
        if a["func_time"] == 0 or a.get("wd_we_type", 2) not in (2, dt):
            if ran:
                raise Violation("%s of %s runs on a day of type %d" % (a.get("name"), u["user_name"], dt), key="ran")
            continue
        sure = a.get("occasional_use", 1) == 1 and a["number"] > 0
        p = a.get("pref_index", 0)
        if p:
            if ran:
                ran_pref.add(p)
            if sure:
                always.setdefault(p, []).append(ran)
        elif sure and not ran:
            raise Violation("%s of %s does not run" % (a.get("name"), u["user_name"]), key="did-not-run")
        if ran:
            check_app(a, use, d, obs)
        obs.add("appliance_days")
    if u["user_preference"]:
        ok = [p for p in range(1, u["user_preference"] + 1) if all(always.get(p, [])) and not ran_pref - {p}
              and not any(r for q in always if q != p for r in always[q])]
        if not ok:
            raise Violation("no single preference of %s explains the appliances which run (%s)" % (u["user_name"], sorted(ran_pref)), key="preference")
    elif ran_pref:
        raise Violation("appliances of a preference run for %s who has none" % u["user_name"], key="preference")
    if np.abs(total - np.asarray(load)).max() > 1e-6:
        raise Violation("the load of an instance of %s is not the sum of its appliances" % u["user_name"], key="sum")


def prepare(rng, users, obs):
    """drop what RAMP refuses for good reasons (minimal durations which may not fit)"""
    users = copy.deepcopy(users)
    for u in users:
        u["appliances"] = [a for a in u["appliances"] if feasible(a)]
        for a in u["appliances"]:
            a["num_windows"] = len(daycheck.app_windows(a))
    return [u for u in users if u["appliances"]]


def instances(rng, obs, users, f):
    users = prepare(rng, users, obs)
    spec = dict(users=users, num_days=1, date_start="2021-01-01", how="dates")
    sigs = set()
    with guard("an example"):
        uc = sim.build(spec)
    picks = list(zip(users, uc.users))
    for u, ru in picks:
        for _ in range(2 if len(picks) > 1 else 8):
            d, dt = rng.randint(0, 360), rng.randint(0, 1)
            with guard("an instance of an example"):
                load = np.asarray(ru.generate_single_load_profile(d, uc.peak_time_range if rng.random() < 0.5 else np.arange(*sorted([rng.randint(0, 700), rng.randint(701, 1440)])), dt))
            check_instance(u, ru, d, dt, load, obs)
            sigs.add((f, u["user_name"], d, dt, round(float(load.sum()), 3)))
    return sigs


def do_instances(rng, obs, case, dst):
    f = rng.choice(EXAMPLES)
    return instances(rng, obs, recorded(os.path.join(dst, f)), f)


def do_variant(rng, obs, case, dst):
    f = rng.choice(EXAMPLES)
    return instances(rng, obs, vary(rng, recorded(os.path.join(dst, f))), f)


def do_community(rng, obs, case, dst):
    """the load of all: inside its envelope, energy within the bounds of the time of use"""
    fs = rng.sample(EXAMPLES, rng.choice([1, 1, 2, 3]))
    users = [u for f in fs for u in recorded(os.path.join(dst, f))]
    if rng.random() < 0.4:
        users = vary(rng, users)
    users = prepare(rng, users, obs)
    for u in users:
        u["num_users"] = min(u["num_users"], rng.randint(3, 12))
    days = rng.randint(2, 4)
    start = rng.choice(["2020-02-28", "2021-07-02", "2024-12-30"])
    uc, prof = sim.profiles(dict(users=users, num_days=days, date_start=start, how=rng.choice(["dates", "init"])))
    sigs = set()
    from .. import models

    for d in range(days):
        env = np.zeros(1440)
        low = high = 0.0
        dt = 1 if models.weekend(start, d) else 0
        for u in users:
            for a in u["appliances"]:
                if a.get("wd_we_type", 2) not in (2, dt):
                    continue
                ws, var, th = daycheck.app_windows(a), a["random_var_w"], a.get("thermal_p_var", 0)
                on = np.zeros(1440, dtype=bool)
                for w in ws:
                    x, y = gen.outer(w, var)
                    on[x:y] = True
                P = float(sim.power_on(a, d))
                fc = a["fixed_cycle"]
                ps = [float(a["p_%d%d" % (c, k)]) for c in range(1, fc + 1) for k in (1, 2)] if fc else [P]
                flat = a.get("flat", "no") == "yes"
                top = u["num_users"] * a["number"] * ((P if flat else max(ps) * (1 + th)) + 0.0011)
                env += np.where(on, top, 0)
                nominal = sum(w[1] - w[0] for w in ws)
                tmax = int(on.sum())
                if flat:
                    high += top * tmax
                    continue
                v = a["time_fraction_random_variability"]
                hi = min(tmax, max(a["func_time"] * (1 + v), a["func_cycle"]))
                high += top * hi + u["num_users"] * a["number"] * 1.5
                if a.get("occasional_use", 1) == 1 and not a.get("pref_index", 0) and not fc and disjoint(a) and a["func_cycle"] <= 5:
                    shortest = sum(max(0, w[1] - w[0] - 2 * int(var * (w[1] - w[0]))) for w in ws)
                    lo = min(int(a["func_time"] * (1 - v) - 1e-9), int(0.99 * shortest))
                    if lo <= 0.5 * shortest:
                        low += u["num_users"] * lo * P * (1 - th)
        got = prof[d]
        if (got > env * (1 + 1e-9) + 1e-9).any():
            m = int(np.flatnonzero(got > env * (1 + 1e-9) + 1e-9)[0])
            raise Violation("the community draws %.1f W at minute %d of day %d, all its appliances together draw at most %.1f W" % (got[m], m, d, env[m]), key="envelope")
        e = float(got.sum())
        if not low * (1 - 1e-9) <= e <= high * (1 + 1e-9):
            raise Violation("the community uses %.0f W.min on day %d, its times of use allow %.0f to %.0f" % (e, d, low, high), key="energy")
        obs.add("community_days")
        sigs.add((tuple(fs), d, round(e, 2)))
    return sigs
