"""Conversion of legacy .py input files to spreadsheets."""
import os
import random
import sys

import numpy as np

from .. import gen, models, sim
from ..core import Violation, guard
from . import c14

RULE = (
    "one case = a legacy input file written by the harness (old import and constructor syntax or the newer one, duty cycles, "
    "seasonal power), located anywhere (relative, absolute, folders with dots), converted through the function or the command line; "
    "the resulting spreadsheet is loaded and compared with the description, names included. Non-trivial: appliances compared; "
    "distinct by (file, appliance)."
)
FLOORS = {"files": 120, "appliances": 400, "legacy_syntax": 60, "absolute": 30, "cli": 30, "named": 200}
KNOWN_KEYS = {}


def cases(tier, seed):
    n = 240 if tier == "quick" else 2000
    for i in range(n):
        yield dict(kind=("function", "cli", "function", "twice")[i % 4], seed=seed * 1000211 + i)


def legacy_app(rng):
    a = {}
    a["number"] = rng.choice([1, 2, 7, 50])
    a["power"] = rng.choice([0, 7, 60, 1500.5])
    if rng.random() < 0.15:
        a["power"] = dict(series=rng.randrange(1 << 30), n=366, form="frame")
    nw = rng.choice([1, 1, 2, 3])
    ws, var = gen.windows(rng, nw=nw, minlen=5)
    a["num_windows"] = nw
    for i, w in enumerate(ws):
        a["window_%d" % (i + 1)] = w
    a["random_var_w"] = var
    a["func_time"] = rng.randint(1, sum(w[1] - w[0] for w in ws))
    a["time_fraction_random_variability"] = rng.choice([0, 0.1, 0.25])
    a["func_cycle"] = rng.choice([1, 5, 30])
    a["fixed"] = rng.choice(["yes", "no"])
    a["fixed_cycle"] = rng.choice([0, 0, 1, 2, 3])
    a["occasional_use"] = rng.choice([1, 0.33])
    a["flat"] = rng.choice(["yes", "no"])
    a["thermal_p_var"] = rng.choice([0, 0.2])
    a["pref_index"] = rng.choice([0, 1, 2])
    a["wd_we_type"] = rng.choice([0, 1, 2])
    for c in range(1, a["fixed_cycle"] + 1):
        a.update({"p_%d1" % c: rng.choice([200, 150.5]), "t_%d1" % c: rng.randint(1, 30), "p_%d2" % c: rng.choice([0, 10]),
                  "t_%d2" % c: rng.randint(0, 30), "r_c%d" % c: rng.choice([0, 0.1])})
    if a["fixed_cycle"] >= 2 or (a["fixed_cycle"] == 1 and rng.random() < 0.3):
        for c in (1, 2, 3):
            for s in (1, 2):
                x = rng.randint(0, 1400)
                a["cw%d%d" % (c, s)] = rng.choice([[0, 0], [x, x + rng.randint(1, 40)]])
    return a


ORDER_OLD = ("number", "power", "num_windows", "func_time", "time_fraction_random_variability", "func_cycle", "fixed", "fixed_cycle",
             "occasional_use", "flat", "thermal_p_var", "pref_index", "wd_we_type")


def power_expr(p):
    return "pd.DataFrame(%r)" % sim.series_values(p).tolist() if isinstance(p, dict) else repr(p)


def text_of(users, rng, syntax):
    out = ["# -*- coding: utf-8 -*-", "# a legacy input file"]
    if syntax == "old":
        out.append(rng.choice(["from core import User, np", "from core import User"]))
    else:
        out.append("from ramp.core.core import User")
    out += ["import pandas as pd", "User_list = []", ""]
    for u in users:
        if rng.random() < 0.5:
            out.append("%s = User(%r, %d, %d)" % (u["var"], u["user_name"], u["num_users"], u["user_preference"]))
        elif syntax == "old":
            out.append("%s = User(%r, num_users=%d, user_preference=%d)" % (u["var"], u["user_name"], u["num_users"], u["user_preference"]))
        else:
            out.append("%s = User(user_name=%r, num_users=%d, user_preference=%d)" % (u["var"], u["user_name"], u["num_users"], u["user_preference"]))
        out.append("User_list.append(%s)" % u["var"])
    out.append("")
    allapps = [(u, a) for u in users for a in u["appliances"]]
    if rng.random() < 0.3:
        # interleaved, the order within a user is kept
        rng.shuffle(allapps)
        for u in users:
            u["appliances"] = [a for x, a in allapps if x is u]
    for u, a in allapps:
        v = a["var"]
        if syntax == "old":
            pos = [u["var"]] + [power_expr(a["power"]) if k == "power" else repr(a[k]) for k in ORDER_OLD[:6]]
            kws = []
            for k in ORDER_OLD[6:]:
                if a[k] != c14.DEFAULTS[k] or rng.random() < 0.3:
                    kws.append("%s=%r" % ({"thermal_p_var": "thermal_P_var"}.get(k, k), a[k]))
            out.append("%s = %s.Appliance(%s)" % (v, u["var"], ", ".join(pos + kws)))
        else:
            kws = ["%s=%s" % (k, power_expr(a[k]) if k == "power" else repr(a[k])) for k in ORDER_OLD]
            if a.get("own_name"):
                kws.append("name=%r" % a["own_name"])
            out.append("%s = %s.add_appliance(%s)" % (v, u["var"], ", ".join(kws)))
        w = [a.get("window_1"), a.get("window_2"), a.get("window_3")]
        if w[1] is None and rng.random() < 0.5:
            out.append("%s.windows(%r, random_var_w=%r)" % (v, w[0], a["random_var_w"]))
        elif w[2] is None:
            out.append("%s.windows(%r, %r, %r)" % (v, w[0], w[1] or [0, 0], a["random_var_w"]))
        else:
            out.append("%s.windows(%r, %r, %r, %r)" % (v, w[0], w[1], a["random_var_w"], w[2]))
        for c in range(1, a["fixed_cycle"] + 1):
            args = (a["p_%d1" % c], a["t_%d1" % c], a["p_%d2" % c], a["t_%d2" % c], a["r_c%d" % c])
            if rng.random() < 0.5 or syntax == "old":
                out.append("%s.specific_cycle_%d(%r, %r, %r, %r, %r)" % ((v, c) + args))
            else:
                out.append("%s.specific_cycle(%d, p_%d1=%r, t_%d1=%r, p_%d2=%r, t_%d2=%r, r_c%d=%r)" % (
                    v, c, c, args[0], c, args[1], c, args[2], c, args[3], c, args[4]))
        if "cw11" in a:
            out.append("%s.cycle_behaviour(%s)" % (v, ", ".join(repr(a["cw%d%d" % (c, s)]) for c in (1, 2, 3) for s in (1, 2))))
        out.append("")
    if rng.random() < 0.25:
        # the names are spoken of, they are not defined
        u, a = rng.choice(allapps)
        out.append(rng.choice(["# the .name of the appliances is that of the variables", "label = str(%s.name)" % a["var"], "print(%s.user_name, %s.name)" % (u["var"], a["var"]), "owner = %s.user.user_name" % a["var"]]))
    txt = "\n".join(out)
    if rng.random() < 0.7:
        txt += "\n"
    return txt


def run_case(case, obs):
    rng = random.Random(case["seed"])
    kind = case["kind"]
    from ramp import ramp_convert_old_input_files as conv

    ramp = sim.R()
    files = []
    base = os.path.abspath("conv%d" % case["seed"])
    os.makedirs(base, exist_ok=True)
    here = os.getcwd()
    saved_path = list(sys.path)
    saved_argv = sys.argv
    sigs = set()
    try:
        os.chdir(base)
        out_dir = None
        if rng.random() < 0.5:
            out_dir = rng.choice(["out", "results.v2", os.path.join(base, "abs.out")])
            os.makedirs(out_dir, exist_ok=True)
        suffix = rng.choice(["", "", "_test", "_v1.0"])
        for f in range(1 if kind != "cli" else rng.choice([1, 2, 3])):
            users = []
            for i in range(rng.randint(1, 3)):
                apps = []
                for j in range(rng.randint(1, 4)):
                    a = legacy_app(rng)
                    a["var"] = rng.choice(["HH%d_bulb%d", "app_%d_%d", "Éclairage_%d_%d"]) % (i, j)
                    if rng.random() < 0.3:
                        a["own_name"] = "own %d" % j
                    apps.append(a)
                users.append(dict(var="U%d" % i, user_name=rng.choice(["high income", "school", "Écoles"]) + str(i),
                                  num_users=rng.choice([1, 2, 30]), user_preference=rng.choice([0, 2]), appliances=apps))
            syntax = rng.choice(["old", "new"])
            folder = rng.choice([".", "sub", "ver.1/in", "./sub", "a b"])
            os.makedirs(folder, exist_ok=True)
            name = rng.choice(["input_file_%d.py", "my_model%d.py", "model-%d.py", "v%d.2.py"]) % f
            path = os.path.join(folder, name) if folder != "." else name
            if rng.random() < 0.4:
                path = os.path.abspath(path)
                obs.add("absolute")
            with open(path, "w", encoding="utf-8") as fp:
                fp.write(text_of(users, rng, syntax))
            files.append((path, users, syntax))
        keep = True
        with guard("conversion", cpu=120):
            if kind == "cli":
                sys.argv = ["ramp_convert", "-i"] + [f[0] for f in files]
                if out_dir:
                    sys.argv += ["-o", out_dir]
                if suffix:
                    sys.argv += ["--suffix", suffix]
                conv.cli()
                obs.add("cli")
            else:
                kw = {}
                if out_dir:
                    kw["output_path"] = out_dir
                if suffix:
                    kw["suffix"] = suffix
                if kind == "function" and rng.random() < 0.3:
                    keep = kw["keep_names"] = False
                for k in range(2 if kind == "twice" else 1):
                    conv.convert_old_user_input_file(files[0][0], **kw)
        for path, users, syntax in files:
            stem = os.path.basename(path)[: -len(".py")]
            target = os.path.join(out_dir or os.path.dirname(path), stem + suffix + ".xlsx")
            if not os.path.exists(target):
                raise Violation("the conversion of %s did not produce %s but %s" % (
                    os.path.relpath(path, base), os.path.relpath(target, base),
                    sorted(os.path.relpath(os.path.join(d, x), base) for d, _, fs in os.walk(base) for x in fs)), key="output")
            with guard("loading the converted file"):
                uc = ramp.UseCase()
                uc.load(target)
            if [(u.user_name, u.num_users, u.user_preference) for u in uc.users] != [
                    (u["user_name"], u["num_users"], u["user_preference"]) for u in users]:
                raise Violation("users %s after the conversion" % [(u.user_name, u.num_users, u.user_preference) for u in uc.users], key="users")
            for u, ru in zip(users, uc.users):
                if len(ru.App_list) != len(u["appliances"]):
                    raise Violation("%d appliances instead of %d" % (len(ru.App_list), len(u["appliances"])), key="appliances")
                for j, (a, ra) in enumerate(zip(u["appliances"], ru.App_list)):
                    if keep:
                        want = a["var"]
                        obs.add("named")
                    else:
                        want = a.get("own_name") if syntax == "new" else None
                        want = want or "appliance_%d" % (j + 1)
                    d = dict(a, name=want)
                    c14.check_app(ra, d, "appliance %s of %s after conversion" % (a["var"], os.path.basename(path)), obs)
                    sigs.add((case["seed"], a["var"]))
            obs.add("files")
            if syntax == "old":
                obs.add("legacy_syntax")
        obs.sample(dict(kind=kind, files=[os.path.relpath(f[0], base) for f in files], out=out_dir, suffix=suffix))
    finally:
        os.chdir(here)
        sys.path[:] = saved_path
        sys.argv = saved_argv
        import shutil

        shutil.rmtree(base, ignore_errors=True)
    return sigs
