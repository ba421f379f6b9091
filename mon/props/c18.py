"""Command line: which days, which files, which values."""
import csv
import datetime
import os
import random
import sys

import numpy as np

from .. import gen, models, sim
from ..core import Violation, guard

RULE = (
    "one case = a call of the ramp command line (in process, plots not shown) on spreadsheets holding exactly determined "
    "models, with a combination of days, dates, years, several inputs and outputs, parallel flag or one input per month; the csv files are "
    "compared with the load computed by the monitor for these very dates. Non-trivial: csv values compared; distinct by (options, days)."
)
FLOORS = {"csv_files": 60, "csv_days": 800, "errors": 5, "months": 12, "yearly_runs": 3, "scripts": 4, "processes": 2}
KNOWN_KEYS = {}
QUICK_S = 300


def cases(tier, seed):
    n = 96 if tier == "quick" else 700
    kinds = ("n", "dates", "n", "start", "end", "multi", "multi_n", "error", "n", "dates", "n_start", "function")
    for i in range(n):
        kind = kinds[i % 12]
        if i % 24 == 3:
            kind = "year"
        if i % 48 in (17, 34):
            kind = "months"
        if i % 24 == 9:
            kind = "parallel"
        if i % 24 == 6:
            kind = "py"
        if i % 48 == 44:
            kind = "years"
        if i % 48 == 20:
            kind = "process"
        yield dict(kind=kind, seed=seed * 1000229 + i, uncommon=i % 48 == 34)


def write_model(rng, path, small=False, level=None, window=(60, 120)):
    spec = models.det_model(rng, days=1, zero_users=False, seasonal=0.0, nusers=1 if small else None, max_apps=1 if small else 3)
    if level is not None:
        for u in spec["users"]:
            u["num_users"] = 1
            u["appliances"] = [dict(window_1=list(window), func_time=1, flat="yes", power=level, name="month"),
                               dict(window_1=[30, 40], func_time=5, flat="yes", power=level * 100, wd_we_type=1, name="weekend"),
                               dict(window_1=[30, 40], func_time=5, flat="yes", power=level * 10000, wd_we_type=0, name="week")]
    ramp = sim.R()
    users = sim.build_users(spec)
    for ru, u in zip(users, spec["users"]):
        sim.fill(ru, u)
    ramp.UseCase(users=users).save(path[: -len(".xlsx")])
    return spec


def cli(*args):
    import matplotlib.pyplot as plt
    import ramp.cli

    saved = sys.argv
    sys.argv = ["ramp"] + [str(a) for a in args]
    try:
        ramp.cli.main()
    finally:
        sys.argv = saved
        plt.close("all")


def read_csv(path):
    if not os.path.isfile(path):
        raise Violation("the output file %s was not written (%s)" % (path, os.listdir(os.path.dirname(path) or ".")[:10]), key="output")
    with open(path) as f:
        rows = list(csv.reader(f))
    return rows[0], [r[0] for r in rows[1:]], [[float(x) for x in r[1:]] for r in rows[1:]]


def check_csv(path, spec, first, days, obs):
    head, idx, vals = read_csv(path)
    if len(vals) != days * 1440:
        raise Violation("%s holds %d values instead of %d days (%d values)" % (path, len(vals), days, days * 1440), key="length")
    if any(len(v) != 1 for v in vals):
        raise Violation("%s has %d columns" % (path, len(vals[0])), key="columns")
    if idx[:3] != ["0", "1", "2"][: len(idx)] or idx[-1] != str(len(idx) - 1):
        raise Violation("%s: the index is %s .. %s" % (path, idx[:3], idx[-1]), key="index")
    cache = {}
    for d in range(days):
        we = models.weekend(first, d)
        if we not in cache:
            cache[we] = models.det_day(dict(spec, date_start=first), d)
        want = cache[we]
        i = models.differs([v[0] for v in vals[d * 1440:(d + 1) * 1440]], want)
        if i is not None:
            raise Violation("%s: %.6f instead of %.6f at minute %d of day %d (from %s)" % (path, vals[d * 1440 + i][0], want[i], i, d, first), key="values")
    obs.add("csv_files")
    obs.add("csv_days", days)


def run_case(case, obs):
    rng = random.Random(case["seed"])
    kind = case["kind"]
    for f in os.listdir("."):
        if os.path.isfile(f):
            os.remove(f)
    os.makedirs("o.1", exist_ok=True)
    out = rng.choice(["out.csv", os.path.abspath("abs.csv"), "o.1/result"])
    start = datetime.date(2001, 1, 1) + datetime.timedelta(days=rng.randint(0, 9000))
    if rng.random() < 0.2:
        start = rng.choice([datetime.date(2024, 2, 27), datetime.date(2023, 12, 28)])
    n = rng.choice([1, 2, 5, rng.randint(1, 20)])
    end = start + datetime.timedelta(days=n - 1)
    if kind == "error":
        return error(rng, obs)
    if kind == "months":
        return months(rng, obs, case.get("uncommon", False))
    if kind == "py":
        return scripts(rng, obs)
    with guard("command line", cpu=240):
        name = rng.choice(["in.xlsx", "my model.xlsx", os.path.abspath("in2.xlsx")])
        spec = write_model(rng, name)
        par = []
        if kind == "parallel":
            par = ["-p"]
            kind = "dates"
        if kind == "n":
            t = datetime.date.today()
            cli("-i", name, "-o", out, "-n", n)
            if datetime.date.today() != t:
                return None
            check_csv(out, spec, str(t), n, obs)
        elif kind == "dates":
            cli("-i", name, "--start-date", start, "--end-date", end, "-o", out, *par)
            check_csv(out, spec, str(start), n, obs)
        elif kind == "n_start":
            if rng.random() < 0.5:
                cli("-i", name, "--start-date", start, "-n", n, "-o", out)
            else:
                cli("-i", name, "--end-date", end, "-n", n, "-o", out)
            check_csv(out, spec, str(start), n, obs)
        elif kind == "start":
            start = datetime.date(start.year, rng.choice([11, 12]), rng.randint(1, 30))
            cli("-i", name, "--start-date", start, "-o", out)
            n = (datetime.date(start.year, 12, 31) - start).days + 1
            check_csv(out, spec, str(start), n, obs)
        elif kind == "end":
            end = datetime.date(start.year, rng.choice([1, 2]), rng.randint(1, 28))
            cli("-i", name, "--end-date", end, "-o", out)
            start = datetime.date(end.year, 1, 1)
            n = (end - start).days + 1
            check_csv(out, spec, str(start), n, obs)
        elif kind == "year":
            y = rng.choice([2023, 2024, 1999])
            spec = write_model(rng, name, small=True)
            cli("-i", name, "-y", y, "-o", out)
            start = datetime.date(y, 1, 1)
            n = (datetime.date(y + 1, 1, 1) - start).days
            check_csv(out, spec, str(start), n, obs)
            obs.add("yearly_runs")
        elif kind == "years":
            y = rng.choice([2023, 2024, 1999])
            spec = write_model(rng, name, small=True)
            cli("-i", name, "-y", y, y + 1, "-o", out)
            start = datetime.date(y, 1, 1)
            n = (datetime.date(y + 2, 1, 1) - start).days
            check_csv(out, spec, str(start), n, obs)
            obs.add("yearly_runs")
        elif kind == "process":
            # the command itself, in a process of its own
            process(["-i", name, "--start-date", start, "--end-date", end, "-o", out])
            check_csv(out, spec, str(start), n, obs)
            obs.add("processes")
        elif kind in ("multi", "multi_n"):
            k = rng.choice([2, 3])
            names = ["m%d.xlsx" % i for i in range(k)]
            specs = [write_model(rng, x) for x in names]
            if rng.random() < 0.4:
                # the same input several times
                names[-1], specs[-1] = names[0], specs[0]
            outs = ["o%d.csv" % i for i in range(k)]
            if kind == "multi":
                cli("-i", *names, "--start-date", start, "--end-date", end, "-o", *outs)
                ns = [n] * k
            else:
                ns = [rng.randint(1, 6) for _ in range(k)]
                if rng.random() < 0.3:
                    ns = [ns[0]] * k
                    cli("-i", *names, "--start-date", start, "-n", ns[0], "-o", *outs)
                else:
                    cli("-i", *names, "--start-date", start, "-n", *ns, "-o", *outs)
            for o, s, m in zip(outs, specs, ns):
                check_csv(o, s, str(start), m, obs)
        elif kind == "function":
            from ramp.ramp_run import run_usecase

            prof = run_usecase(fname=name, num_days=n, date_start=start, plot=False, parallel=False)
            prof = np.asarray(prof)
            if prof.shape != (n, 1440):
                raise Violation("run_usecase returned shape %s for %d days" % (prof.shape, n), key="length")
            for d in range(n):
                i = models.differs(prof[d].tolist(), models.det_day(dict(spec, date_start=str(start)), d))
                if i is not None:
                    raise Violation("run_usecase: wrong load at minute %d of day %d" % (i, d), key="values")
            obs.add("csv_days", n)
    obs.sample(dict(kind=case["kind"], start=str(start), days=n, out=out))
    return {(case["kind"], str(start), n, out)}


def process(args):
    import subprocess

    root = os.path.dirname(os.path.dirname(os.path.abspath(sim.R().__file__)))
    env = dict(os.environ, PYTHONPATH=root, MPLBACKEND="Agg", PYTHONDONTWRITEBYTECODE="1")
    r = subprocess.run([sys.executable, "-c", "from ramp.cli import main; main()"] + [str(a) for a in args], env=env, stdin=subprocess.DEVNULL, capture_output=True, text=True, timeout=240)
    if r.returncode != 0:
        raise Violation("the command exits with %d: %s" % (r.returncode, r.stderr.strip().split("\n")[-1][:200]), key="process")


def scripts(rng, obs):
    """python inputs are run, each of them once, in order, whatever their path"""
    d = rng.choice([".", "scripts", "my scripts", "l'ete"])
    os.makedirs(d, exist_ok=True)
    names = rng.sample(["input.py", "my input.py", "a;b.py", "$HOME.py", "(1).py", "-x y.py"], rng.randint(1, 3))
    if rng.random() < 0.5:
        d = os.path.abspath(d)
    log = os.path.abspath("log.txt")
    paths = []
    for k, nm in enumerate(names):
        p = os.path.join(d, nm)
        with open(p, "w", encoding="utf-8") as f:
            f.write("# -*- coding: utf-8 -*-\nwith open(%r, 'a') as f:\n    f.write('%d ' + __name__ + '\\n')\n" % (log, k))
        paths.append(p)
    with guard("command line with python inputs", cpu=240):
        if len(paths) == 1 and rng.random() < 0.5:
            from ramp.ramp_run import run_usecase

            run_usecase(paths[0])
        else:
            cli("-i", *paths)
    got = open(log).read().split("\n")[:-1] if os.path.exists(log) else []
    if os.path.exists(log):
        os.remove(log)
    want = ["%d __main__" % k for k in range(len(paths))]
    if got != want:
        raise Violation("python inputs %s: %s were run" % (paths, got), key="scripts")
    obs.add("scripts", len(paths))
    return {("py",) + tuple(paths)}


def error(rng, obs):
    """contradictory options are refused"""
    write_model(rng, "a.xlsx", small=True)
    write_model(rng, "b.xlsx", small=True)
    os.makedirs("few", exist_ok=True)
    write_model(rng, "few/1.xlsx", small=True)
    with open("x.txt", "w") as f:
        f.write("")
    opts, exc = rng.choice([
        (("-i", "a.xlsx", "b.xlsx", "-n", 1, 2, 3, "-o", "o1.csv", "o2.csv"), ValueError),
        (("-i", "a.xlsx", "b.xlsx", "-n", 1, "-o", "o1.csv", "o2.csv", "o3.csv"), ValueError),
        (("-i", "a.xlsx", "-y", 2023, "--start-date", "2023-01-01", "-o", "o1.csv"), ValueError),
        (("-i", "a.xlsx", "-y", 2023, "--end-date", "2023-02-01", "-o", "o1.csv"), ValueError),
        (("-i", "few", "-y", 2023, "-o", "oo"), ValueError),
        (("-i", "x.txt", "-n", 1, "-o", "o1.csv"), TypeError),
        (("-i", "missing.py", "-n", 1, "-o", "o1.csv"), FileNotFoundError),
    ])
    try:
        cli(*opts)
    except exc:
        obs.add("errors")
        if any(os.path.exists(o) for o in ("o1.csv", "o2.csv", "oo")):
            raise Violation("an output was written by a refused call %s" % (opts,), key="error")
        return {("error",) + tuple(map(str, opts))}
    except Exception as e:
        raise Violation("call %s raised %s instead of %s" % (opts, type(e).__name__, exc.__name__), key="error")
    raise Violation("contradictory options are accepted: %s" % (opts,), key="error")


def months(rng, obs, uncommon):
    """one input per month"""
    import shutil

    shutil.rmtree("year_in", ignore_errors=True)
    shutil.rmtree("year_out", ignore_errors=True)
    os.makedirs("year_in")
    style = rng.choice(["%d.xlsx", "month_%d.xlsx", "m%02d.xlsx"])
    window = rng.choice([(60, 121), (120, 180), (179, 181), (180, 182), (1438, 1440), (58, 60), (61, 1380)])
    for m in range(1, 13):
        write_model(rng, os.path.join("year_in", style % m), small=True, level=m, window=window)
    with open(os.path.join("year_in", "notes.txt"), "w") as f:
        f.write("")
    # a year before or after those in which every fourth year is a leap year, or one of these
    y = rng.choice([2100, 1900] if uncommon else [2023, 2024, 2000])
    if rng.random() < 0.5:
        os.makedirs("year_out")
    with guard("command line, one input per month", cpu=400, draws=50_000_000):
        cli("-i", "year_in", "-y", y, "-o", "year_out")
    head, idx, vals = read_csv("year_out/yearly_profile_min_resolution.csv")
    hhead, hidx, hvals = read_csv("year_out/yearly_profile_hourly_resolution.csv")
    nd = 366 if y in (2000, 2024) else 365
    if len(vals) != nd * 1440 or len(hvals) != nd * 24:
        raise Violation("the yearly profile has %d minutes and %d hours for %d days" % (len(vals), len(hvals), nd), key="length")
    if hhead[1:] != ["mean", "max", "min"]:
        raise Violation("columns of the hourly profile: %s" % hhead, key="columns")
    day = datetime.date(y, 1, 1)
    for d in range(nd):
        m = day.month
        o = d * 1440
        at = [0] * 1440
        w = 100 * m if day.isoweekday() >= 6 else 10000 * m
        for k in range(1440):
            want = at[k] = m if window[0] <= k < window[1] else w if 30 <= k < 40 else 0
            if vals[o + k][0] != want:
                raise Violation("yearly profile: %s instead of %s at minute %d of %s" % (vals[o + k][0], want, k, day), key="values")
        if not idx[o].startswith(str(day)):
            raise Violation("yearly profile: the first minute of %s is labelled %s" % (day, idx[o]), key="index")
        for h in range(24):
            x = at[h * 60:h * 60 + 60]
            want = [sum(x) / 60.0, max(x), min(x)]
            if models.differs(hvals[d * 24 + h], want) is not None:
                raise Violation("hourly profile: %s instead of %s at hour %d of %s" % (hvals[d * 24 + h], want, h, day), key="hourly")
        day += datetime.timedelta(days=1)
    obs.add("months", 12)
    obs.add("yearly_runs")
    obs.add("csv_days", nd)
    obs.add("csv_files", 2)
    return {("months", style, y, window)}
