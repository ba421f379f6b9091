"""Spreadsheet input: what is written in the file is what is simulated."""
import copy
import datetime
import json
import os
import random

import numpy as np
import openpyxl

from .. import gen, models, sim
from ..core import Violation, guard
from . import c14

RULE = (
    "one case = a spreadsheet written cell by cell by the harness (any column order, missing columns, empty cells, power as "
    "number, json text, or reference to one or two columns of another sheet) and loaded; each appliance is compared with the row, "
    "and malformed files must be rejected. Non-trivial: rows read; distinct by (columns, power form, row)."
)
FLOORS = {"rows": 700, "series_rows": 150, "empty_cells": 500, "rejected": 60, "simulated": 30}
KNOWN_KEYS = {}

OPTIONAL = ("number", "num_windows", "time_fraction_random_variability", "func_cycle", "fixed", "fixed_cycle",
            "continuous_duty_cycle", "occasional_use", "flat", "thermal_p_var", "pref_index", "wd_we_type", "random_var_w")


def cases(tier, seed):
    n = 400 if tier == "quick" else 3600
    kinds = ("rows", "rows", "series", "reject", "simulate")
    for i in range(n):
        yield dict(kind=kinds[i % 5], seed=seed * 1000199 + i)


def values_for(rng):
    style = rng.choice(["int", "float", "repeat", "zero"])
    if style == "int":
        return [rng.randint(0, 3000) for _ in range(366)]
    if style == "repeat":
        v = [rng.choice([0, 100]) for _ in range(366)]
        v[7], v[8] = 33, 44
        return v
    if style == "zero":
        return [0 if i % 2 else rng.randint(1, 9) for i in range(366)]
    return [round(rng.uniform(0, 3000), rng.choice([1, 3, 9])) for _ in range(366)]


def reference(wb, rng, vals, two):
    """writes a timeseries in some sheet, returns the formula"""
    names = [s for s in wb.sheetnames[1:]]
    if names and rng.random() < 0.4:
        sh = wb[rng.choice(names)]
    else:
        sh = wb.create_sheet(rng.choice(["ts", "Sheet", "power data", "P-series", "it's", "2023", "été", "a.b"]) + str(len(names)))
    col = sh.max_column + 1 + rng.randint(0, 2)
    row = rng.choice([1, 1, 2, 15])
    if rng.random() < 0.3:
        sh.cell(row=max(1, row - 1), column=col, value="header") if row > 1 else None
    t0 = datetime.datetime(2023, 1, 1)
    stamps = rng.choice(["date", "text", "number"])
    for i, v in enumerate(vals):
        c = col
        if two:
            s = t0 + datetime.timedelta(days=i)
            sh.cell(row=row + i, column=c, value=s if stamps == "date" else s.isoformat() if stamps == "text" else i * 7 + 1)
            c += 1
        sh.cell(row=row + i, column=c, value=v)
    from openpyxl.utils import get_column_letter as L

    title = sh.title
    dollar = "$" if rng.random() < 0.4 else ""
    if not title.isalnum() or not title.isascii() or title[0].isdigit():
        title = "'" + title.replace("'", "''") + "'"
    last = col + (1 if two else 0)
    return "=%s!%s%s%s%d:%s%s%s%d" % (title, dollar, L(col), dollar, row, dollar, L(last), dollar, row + 365)


def make(rng, kind, path, simulate=False):
    """writes a file; returns the description of the users"""
    nu = rng.randint(1, 3)
    users = []
    for i in range(nu):
        pref = rng.choice([0, 0, 2, 3])
        apps = []
        for j in range(rng.randint(1, 4)):
            a = models.any_app(rng, 2) if (simulate or rng.random() < 0.5) else c14.full_app(rng, 2)
            a["name"] = "app %d %d" % (i, j)
            a["pref_index"] = rng.randint(0, pref)
            apps.append(a)
        users.append(dict(user_name="user %d" % i, num_users=rng.choice([1, 2, 5]), user_preference=pref, appliances=apps))
    if kind in ("rows", "series") and rng.random() < 0.35:
        # appliances without name, some of which are defined twice in the same way
        u = rng.choice(users)
        for a in u["appliances"]:
            a["name"] = None
        a = rng.choice(u["appliances"])
        u["appliances"].insert(rng.randint(0, len(u["appliances"])), copy.deepcopy(a))
    if rng.random() < 0.3 and nu > 1:
        # names of users which are nearly the same
        for u, nm in zip(users, rng.sample(["Low income", "low income", " Low income", "Low income ", "LOW INCOME"], nu)):
            u["user_name"] = nm
    if kind == "det":
        users = models.det_model(rng, days=2, zero_users=False, seasonal=0.0)["users"]
    cols = ["user_name", "num_users", "user_preference", "name", "power", "func_time"] + list(OPTIONAL)
    for w in c14.WINS:
        cols += [w + "_start", w + "_end"]
    for c in (1, 2, 3):
        cols += ["p_%d1" % c, "t_%d1" % c, "p_%d2" % c, "t_%d2" % c, "r_c%d" % c]
    drop_duty = rng.random() < 0.2
    if drop_duty:
        # a file without the columns of the duty cycles
        cols = [c for c in cols if not (c.startswith(("cw", "p_", "t_", "r_c")))]
        for u in users:
            for a in u["appliances"]:
                for k in list(a):
                    if k.startswith(("cw", "p_", "t_", "r_c", "fixed_cycle")):
                        del a[k]
    if rng.random() < 0.3:
        cols.append("comment")
    mode = rng.choice(["order", "shuffled"])
    if mode == "shuffled":
        rng.shuffle(cols)
    wb = openpyxl.Workbook()
    ws = wb.active
    ws.title = rng.choice(["Sheet1", "appliances", "my model"])
    for k, c in enumerate(cols):
        ws.cell(row=1, column=k + 1, value=c)
    rows = [(u, a) for u in users for a in u["appliances"]]
    if rng.random() < 0.3:
        rng.shuffle(rows)  # users are interleaved
    r = 2
    empty = 0
    forms = []
    for u, a in rows:
        row = dict(user_name=u["user_name"], num_users=u["num_users"], user_preference=u.get("user_preference", 0), name=a["name"])
        if row["user_preference"] == 0 and rng.random() < 0.3:
            row["user_preference"] = None
        for k in ("func_time",) + OPTIONAL:
            if k in a:
                # a value equal to the default may also be left empty
                if a[k] == c14.DEFAULTS.get(k) and rng.random() < 0.5:
                    del a[k]
                    empty += 1
                else:
                    row[k] = a[k]
            else:
                empty += 1
        for w in c14.WINS:
            if w in a:
                row[w + "_start"], row[w + "_end"] = a[w]
        for c in (1, 2, 3):
            for k in ("p_%d1" % c, "t_%d1" % c, "p_%d2" % c, "t_%d2" % c, "r_c%d" % c):
                if k in a:
                    row[k] = a[k]
        p = a.get("power", 0)
        if kind == "series" and rng.random() < 0.7 and not a.get("fixed_cycle"):
            p = dict(values=values_for(rng))
        if isinstance(p, dict):
            vals = sim.series_values(dict(p, n=366)).tolist() if "values" not in p else p["values"]
            form = rng.choice(["json", "one", "two"])
            forms.append(form)
            row["power"] = json.dumps(vals) if form == "json" else reference(wb, rng, vals, form == "two")
            a["power"] = dict(values=[float(v) for v in vals], form="frame")
        else:
            row["power"] = None if p == 0 and rng.random() < 0.3 else p
            forms.append("number")
        for k, c in enumerate(cols):
            if row.get(c) is not None:
                ws.cell(row=r, column=k + 1, value=row[c])
        r += 1
    wb.save(path)
    # order in which the users appear
    order = []
    for u, a in rows:
        if u["user_name"] not in [o["user_name"] for o in order]:
            order.append(dict(u, appliances=[]))
        of = [o for o in order if o["user_name"] == u["user_name"]][0]["appliances"]
        if a["name"] is None:
            a["name"] = "appliance_%d" % (len(of) + 1)
        of.append(a)
    return order, empty, forms


def run_case(case, obs):
    rng = random.Random(case["seed"])
    ramp = sim.R()
    kind = case["kind"]
    if kind == "reject":
        return reject(rng, ramp, obs)
    if kind == "simulate":
        return simulate(rng, ramp, obs)
    path = rng.choice(["in.xlsx", "my input.v1.xlsx"])
    users, empty, forms = make(rng, kind, path)
    obs.add("empty_cells", empty)
    with guard("loading a spreadsheet", cpu=120):
        uc = ramp.UseCase()
        uc.load(path)
    if [u.user_name for u in uc.users] != [u["user_name"] for u in users]:
        raise Violation("users %s instead of %s" % ([u.user_name for u in uc.users], [u["user_name"] for u in users]), key="users")
    sigs = set()
    for u, ru in zip(users, uc.users):
        if (ru.num_users, ru.user_preference) != (u["num_users"], u.get("user_preference", 0)):
            raise Violation("user %s has %s instances and preference %s" % (ru.user_name, ru.num_users, ru.user_preference), key="users")
        if [a.name for a in ru.App_list] != [a["name"] for a in u["appliances"]]:
            raise Violation("appliances %s instead of %s" % ([a.name for a in ru.App_list], [a["name"] for a in u["appliances"]]), key="appliances")
        for a, ra in zip(u["appliances"], ru.App_list):
            c14.check_app(ra, a, "appliance %s" % a["name"], obs)
            obs.add("rows")
            sigs.add((case["seed"], a["name"]))
            if isinstance(a.get("power"), dict):
                obs.add("series_rows")
    obs.sample(dict(file=path, users=[(u["user_name"], len(u["appliances"])) for u in users], power_forms=forms))
    return sigs


def simulate(rng, ramp, obs):
    """a determined model read from a file gives the load of the description"""
    users, empty, forms = make(rng, "det", "det.xlsx", simulate=True)
    start = str(datetime.date(2010, 1, 1) + datetime.timedelta(days=rng.randint(0, 5000)))
    spec = dict(users=users, date_start=start, num_days=2)
    end = str(datetime.date.fromisoformat(start) + datetime.timedelta(days=1))
    with guard("simulation of a spreadsheet", cpu=120):
        if rng.random() < 0.5:
            uc = ramp.UseCase(date_start=start, date_end=end)
            uc.load("det.xlsx")
        else:
            uc = ramp.UseCase(date_start=start, date_end=end)
            uc.initialize(num_days=2)
            uc.load("det.xlsx")
        prof = np.asarray(uc.generate_daily_load_profiles(flat=False))
    for d in range(2):
        want = models.det_day(spec, d)
        i = models.differs(prof[d].tolist(), want)
        if i is not None:
            raise Violation("the load of the spreadsheet is %.6f instead of %.6f at minute %d" % (prof[d][i], want[i], i), key="simulation")
    obs.add("simulated")
    return {("sim", start, round(sum(want), 3))}


def reject(rng, ramp, obs):
    """malformed files are rejected rather than simulated"""
    wb = openpyxl.Workbook()
    ws = wb.active
    cols = ["user_name", "num_users", "user_preference", "name", "power", "func_time", "window_1_start", "window_1_end"]
    ws.append(cols)
    ws.append(["u", 2, 1, "ok", 5, 10, 0, 1440])
    what = rng.choice(["json_short", "json_long", "text", "three", "range_short", "range_long", "num_users", "preference", "window", "two_short"])
    ts = wb.create_sheet("ts")
    for i in range(400):
        for c in (1, 2, 3):
            ts.cell(row=i + 1, column=c, value=i + c)
    row = ["u", 2, 1, "bad", 5, 10, 0, 1440]
    n = rng.choice([1, 12, 360, 364, 365, 367, 368, 400])
    if what == "json_short":
        row[4] = json.dumps([1.5] * rng.choice([0, 1, 12, 364, 365]))
    elif what == "json_long":
        row[4] = json.dumps([1.5] * rng.choice([367, 368, 400, 730]))
    elif what == "text":
        row[4] = rng.choice(["12 W", "[1, 2", "abc", "1;2;3"])
    elif what == "three":
        row[4] = "=ts!A1:C366"
    elif what == "range_short":
        row[4] = "=ts!A1:A%d" % rng.choice([1, 12, 364, 365])
    elif what == "range_long":
        row[4] = "=ts!A1:A%d" % rng.choice([367, 368, 400])
    elif what == "two_short":
        row[4] = "=ts!A1:B%d" % rng.choice([12, 365, 367])
    elif what == "num_users":
        row[1] = 3
    elif what == "preference":
        row[2] = 2
    elif what == "window":
        row[5] = 100
        row[7] = 60
    if rng.random() < 0.5:
        ws.append(row)
        ws.append(["u", 2, 1, "last", 5, 10, 0, 1440])
    else:
        ws.append(row)
    wb.save("bad.xlsx")
    uc = ramp.UseCase()
    exc = None
    from ramp.errors_logs.errors import InvalidWindow

    try:
        uc.load("bad.xlsx")
    except (ValueError, InvalidWindow) as e:
        exc = e
    except Exception as e:
        raise Violation("malformed file (%s, power %s): %s: %s" % (what, str(row[4])[:40], type(e).__name__, e), key="reject")
    if exc is None:
        raise Violation("a malformed file (%s, power %s) is accepted" % (what, str(row[4])[:40]), key="reject")
    obs.add("rejected")
    return {("reject", what, str(row[4])[:60])}
