"""Plot: numbers shown and returned, files, and source data left untouched."""
import os
import random

import numpy as np
import pandas as pd

from .. import gen, sim
from ..core import Violation, guard

RULE = (
    "one case = a Plot over 1-4 cases of random or simulated load with a minute index, on which a sequence of operations is run "
    "(resample, mean, sum, error, peak, selections, graphs, files); results are compared with arithmetic on plain lists, and the "
    "source must not change unless asked. Non-trivial: operations compared; distinct by (operation, data)."
)
FLOORS = {"operations": 900, "graphs": 80, "files": 80, "inplace": 20, "legacy": 40}
KNOWN_KEYS = {}


def cases(tier, seed):
    n = 240 if tier == "quick" else 2000
    for i in range(n):
        yield dict(kind="ops", seed=seed * 1000231 + i)


def near(a, b, rel=1e-9):
    if a != a or b != b:
        return a != a and b != b
    return a == b or abs(a - b) <= rel * max(1e-9, abs(a), abs(b))


def same_list(got, want, what, rel=1e-9):
    got = [float(x) for x in got]
    if len(got) != len(want):
        raise Violation("%s: %d values instead of %d" % (what, len(got), len(want)), key=what.split(":")[0])
    for i in range(len(want)):
        if not near(got[i], want[i], rel):
            raise Violation("%s: %r instead of %r at position %d" % (what, got[i], want[i], i), key=what.split(":")[0])


def make(rng):
    ramp = sim.R()
    nd = rng.choice([1, 1, 2, 3])
    k = rng.choice([1, 2, 3, 4])
    if rng.random() < 0.04:
        nd, k = rng.choice([15, 32]), 1
    start = pd.Timestamp("2000-01-01") + pd.Timedelta(days=rng.randint(0, 9000))
    idx = pd.date_range(start, periods=nd * 1440, freq="min")
    style = rng.choice(["random", "integers", "zeros", "ramp"])
    if style == "ramp":
        u = ramp.User("u")
        u.add_appliance(window_1=[100, 900], func_time=200, power=100, number=4, thermal_p_var=0.2)
        uc = ramp.UseCase(users=[u], date_start=str(start.date()), date_end=str((start + pd.Timedelta(days=nd - 1)).date()))
        p = uc.generate_daily_load_profiles(cases=range(k))
    else:
        cols = {}
        for j in range(k):
            if style == "random":
                v = [rng.random() * 1000 for _ in range(nd * 1440)]
            elif style == "integers":
                v = [float(rng.randint(0, 6)) for _ in range(nd * 1440)]
            else:
                v = [0.0 if rng.random() < 0.8 else rng.random() * 50 for _ in range(nd * 1440)]
            cols[rng.choice(["case %d", "C%d", "été %d"]) % j] = v
        df = pd.DataFrame(cols, index=idx)
        if nd > 1 and rng.random() < 0.4:
            # a day without any load
            d = rng.randrange(nd)
            df.iloc[d * 1440:(d + 1) * 1440] = 0.0
        if rng.random() < 0.3:
            mine = df.reset_index(drop=True)
            p = ramp.Plot(mine, index=idx)
            if list(mine.index) != list(range(len(idx))) or list(mine.columns) != list(df.columns):
                raise Violation("making a Plot with an index changed the table it was given", key="source")
        else:
            p = ramp.Plot(df)
    data = {c: [float(x) for x in p.DataFrame[c].values] for c in p.columns}
    return p, data, list(p.index)


def check_source(p, data, idx, what):
    if p.columns != list(data):
        raise Violation("%s changed the columns of the plot to %s" % (what, p.columns), key="source")
    if list(p.index) != idx:
        raise Violation("%s changed the index of the plot" % what, key="source")
    for c in data:
        v = p.DataFrame[c].values
        for i in range(len(v)):
            if v[i] != data[c][i]:
                raise Violation("%s changed the data of the plot (column %s, position %d)" % (what, c, i), key="source")


def agg(rule, v):
    if rule == "mean":
        return sum(v) / len(v)
    return {"sum": sum, "max": max, "min": min, "first": lambda x: x[0], "last": lambda x: x[-1]}[rule](v)


def run_case(case, obs):
    rng = random.Random(case["seed"])
    with guard("Plot construction", cpu=60):
        p, data, idx = make(rng)
    sigs = set()
    ops = ["resample", "mean", "sum", "error", "peak", "select", "graph", "file", "copy", "add", "legacy", "graph"]
    rng.shuffle(ops)
    for op in ops[:7]:
        with guard("Plot operation " + op, cpu=60):
            globals()["op_" + op](rng, p, data, idx, obs)
        check_source(p, data, idx, "operation " + op)
        obs.add("operations")
        sigs.add((op, case["seed"]))
    if rng.random() < 0.3:
        with guard("Plot.resample(inplace)"):
            n = rng.choice([15, 60])
            r = p.resample("%dmin" % n, "mean", inplace=True)
        if r is not None:
            raise Violation("resample(inplace=True) returned something", key="resample")
        for c in data:
            same_list(p.DataFrame[c].values, [agg("mean", data[c][i:i + n]) for i in range(0, len(idx), n)], "resample: in place")
        obs.add("inplace")
    obs.sample(dict(columns=list(data), minutes=len(idx), operations=ops[:7]))
    return sigs


def op_resample(rng, p, data, idx, obs):
    freq, n = rng.choice([("1h", 60), ("h", 60), ("15min", 15), ("1D", 1440), ("30min", 30)])
    rule = rng.choice(["mean", "sum", "max", "min", "first", "last"])
    conv = rng.choice([1, 1000, 60, 0.5])
    r = p.resample(freq, rule, conversion=conv) if conv != 1 or rng.random() < 0.5 else p.resample(freq, rule)
    if list(r.columns) != list(data):
        raise Violation("resample: columns %s" % r.columns, key="resample")
    if list(r.index) != idx[::n]:
        raise Violation("resample: index %s .. (%d)" % (list(r.index)[:2], len(r.index)), key="resample")
    for c in data:
        same_list(r.DataFrame[c].values, [agg(rule, data[c][i:i + n]) / conv for i in range(0, len(idx), n)], "resample: %s %s / %s" % (freq, rule, conv))


def op_mean(rng, p, data, idx, obs):
    r = p.mean()
    same_list(r.DataFrame.iloc[:, 0].values, [sum(x) / len(x) for x in zip(*data.values())], "mean")
    if r.columns != ["Mean"] or list(r.index) != idx:
        raise Violation("mean: columns %s" % r.columns, key="mean")


def op_sum(rng, p, data, idx, obs):
    r = p.sum()
    same_list(r.DataFrame.iloc[:, 0].values, [sum(x) for x in zip(*data.values())], "sum")
    if r.columns != ["Sum"] or list(r.index) != idx:
        raise Violation("sum: columns %s" % r.columns, key="sum")


def op_error(rng, p, data, idx, obs):
    a, b = rng.choice(list(data)), rng.choice(list(data))
    er = p.error(a, b)
    if list(er.index) != idx:
        raise Violation("error: wrong index", key="error")
    v = [float(x) for x in er.values]
    for i, (x, y) in enumerate(zip(data[a], data[b])):
        if y == 0:
            ok = v[i] == 0 if x == 0 else v[i] == float("inf")
        else:
            ok = near(v[i], (x - y) / y * 100, 1e-7) or abs(v[i] - (x - y) / y * 100) < 1e-6
        if not ok:
            raise Violation("error: %r for a simulated %r and a measured %r" % (v[i], x, y), key="error")


def op_peak(rng, p, data, idx, obs):
    pk = p.peak
    if list(pk) != list(data):
        raise Violation("peak: columns %s" % list(pk), key="peak")
    for c in data:
        m = max(data[c])
        want = [idx[i] for i in range(len(idx)) if data[c][i] == m]
        if list(pk[c].index) != want or any(float(x) != m for x in pk[c].values):
            raise Violation("peak: of column %s at %s instead of %s" % (c, list(pk[c].index)[:3], want[:3]), key="peak")


def op_select(rng, p, data, idx, obs):
    cols = rng.sample(list(data), rng.randint(1, len(data)))
    r = p[cols] if len(cols) > 1 or rng.random() < 0.5 else p[cols[0]]
    if r.columns != cols:
        raise Violation("select: columns %s instead of %s" % (r.columns, cols), key="select")
    for c in cols:
        same_list(r.DataFrame[c].values, data[c], "select")
    a = rng.randrange(len(idx) - 1)
    b = rng.randrange(a + 1, len(idx))
    r = p.iloc(slice(a, b))
    for c in data:
        same_list(r.DataFrame[c].values, data[c][a:b], "iloc")
    if list(r.index) != idx[a:b]:
        raise Violation("iloc: index", key="iloc")
    r = p.loc(slice(idx[a], idx[b]), cols)
    for c in cols:
        same_list(r.DataFrame[c].values, data[c][a:b + 1], "loc")
    n = rng.randint(1, 100)
    r = p.head(n)
    for c in data:
        same_list(r.DataFrame[c].values, data[c][:n], "head")


def op_copy(rng, p, data, idx, obs):
    q = p.copy()
    check_source(q, data, idx, "copy")
    q.DataFrame.iloc[0, 0] = -1.0
    q.columns = ["x%d" % i for i in range(len(data))]
    str(p)


def op_add(rng, p, data, idx, obs):
    q = p.copy()
    extra = pd.DataFrame({"extra": [float(i % 7) for i in range(len(idx))]}, index=p.index)
    q.add_column(sim.R().Plot(extra) if rng.random() < 0.5 else extra)
    if q.columns != list(data) + ["extra"]:
        raise Violation("add_column: columns %s" % q.columns, key="add_column")
    same_list(q.DataFrame["extra"].values, [float(i % 7) for i in range(len(idx))], "add_column")
    for c in data:
        same_list(q.DataFrame[c].values, data[c], "add_column")
    # several columns, one of which replaces one of the plot
    c = rng.choice(list(data))
    new = {c: [float(i % 5) for i in range(len(idx))], "other": [float(i % 3) for i in range(len(idx))]}
    if rng.random() < 0.5:
        new = dict(reversed(list(new.items())))
    q.add_column(pd.DataFrame(new, index=p.index))
    if q.columns != list(data) + ["extra", "other"]:
        raise Violation("add_column: columns %s" % q.columns, key="add_column")
    for k in q.columns:
        want = new[k] if k in new else data[k] if k in data else [float(i % 7) for i in range(len(idx))]
        same_list(q.DataFrame[k].values, want, "add_column")
    try:
        q.add_column(extra.iloc[:-1])
    except ValueError:
        pass
    else:
        raise Violation("add_column: a column with another index is accepted", key="add_column")


def op_file(rng, p, data, idx, obs):
    if rng.random() < 0.7 or len(idx) > 1440:
        path, kw = "p.csv", {}
        if rng.random() < 0.5:
            kw["sep"] = rng.choice([";", "\t"])
        p.to_csv(path, **kw)
        give = rng.random() < 0.7
        q = sim.R().Plot.from_file(path, index=p.index if give else None, **kw)
    else:
        path = "p.xlsx"
        p.to_excel(path)
        give = True
        q = sim.R().Plot.from_file(path)
    if q.columns != list(data):
        raise Violation("file: columns %s instead of %s" % (q.columns, list(data)), key="file")
    for c in data:
        same_list(q.DataFrame[c].values, data[c], "file", 1e-12)
    got = list(q.index) if give else [pd.Timestamp(x) for x in (q.index[0], q.index[-1])]
    if got != (idx if give else [idx[0], idx[-1]]):
        raise Violation("file: another index after a round trip", key="file")
    os.remove(path)
    obs.add("files")
    try:
        sim.R().Plot.from_file("p.txt")
    except ValueError:
        pass
    else:
        raise Violation("file: an unknown format is accepted", key="file")


def op_legacy(rng, p, data, idx, obs):
    """the functions the command line uses: average day, kW, series, graphs of both, file"""
    import csv as _csv
    import matplotlib.pyplot as plt
    from ramp.post_process import post_process as pp

    n = len(idx) // 1440
    v = rng.choice(list(data.values()))
    prof = np.array(v, dtype=float).reshape(n, 1440)
    arg = prof if rng.random() < 0.5 else [np.array(r) for r in prof]
    avg, kw, series = pp.Profile_formatting(arg)
    want_avg = [sum(v[d * 1440 + m] for d in range(n)) / n for m in range(1440)]
    same_list(avg, want_avg, "average day")
    if len(kw) != n:
        raise Violation("kW: %d days instead of %d" % (len(kw), n), key="legacy")
    for d in range(n):
        same_list(kw[d], [x / 1000 for x in v[d * 1440:(d + 1) * 1440]], "kW")
    same_list(series, v, "series", 0)
    same_list(np.asarray(arg).reshape(-1), v, "legacy functions changed the loads", 0)
    plt.close("all")
    if rng.random() < 0.5:
        pp.Profile_series_plot(series)
        want = [v]
    else:
        pp.Profile_cloud_plot(arg, avg)
        want = [v[d * 1440:(d + 1) * 1440] for d in range(n)] + [want_avg]
    figs = plt.get_fignums()
    if len(figs) != 1 or len(plt.figure(figs[0]).axes) != 1:
        raise Violation("legacy graph: %d figures" % len(figs), key="legacy")
    lines = plt.figure(figs[0]).axes[0].lines
    if len(lines) != len(want):
        raise Violation("legacy graph: %d lines instead of %d" % (len(lines), len(want)), key="legacy")
    for l, w in zip(lines, want):
        same_list(l.get_ydata(), w, "legacy graph")
        if [int(x) for x in l.get_xdata()] != list(range(len(w))):
            raise Violation("legacy graph: axis", key="legacy")
    lo, hi = plt.figure(figs[0]).axes[0].get_ylim()
    if lo != 0 or hi < max(max(w) for w in want):
        raise Violation("legacy graph: the axis goes from %s to %s for loads up to %s" % (lo, hi, max(v)), key="legacy")
    plt.close("all")
    saved = pp.BASE_PATH
    pp.BASE_PATH = os.path.abspath(".")
    os.makedirs("results", exist_ok=True)
    try:
        how = rng.choice(["ofname", "fname", "j"])
        j = rng.randint(0, 30)
        if how == "ofname":
            path = os.path.abspath("ser.csv") if rng.random() < 0.5 else "ser.csv"
            pp.export_series(series, rng.choice([None, j]), rng.choice([None, "a/b.py"]), path)
        elif how == "fname":
            path = os.path.join("results", "output_file_model_xlsx.csv")
            pp.export_series(series, fname=rng.choice(["model.xlsx", "some/dir/model.xlsx", os.path.abspath("model.xlsx")]))
        else:
            path = os.path.join("results", "output_file_%d.csv" % j)
            pp.export_series(series, j)
    finally:
        pp.BASE_PATH = saved
    if not os.path.isfile(path):
        raise Violation("export_series: %s was not written" % path, key="legacy")
    with open(path) as f:
        rows = list(_csv.reader(f))[1:]
    same_list([r[1] for r in rows], v, "export_series")
    if [r[0] for r in rows] != [str(i) for i in range(len(v))]:
        raise Violation("export_series: index", key="legacy")
    os.remove(path)
    obs.add("legacy")


def traces(fig):
    return [(t.name, [pd.Timestamp(x) if not isinstance(x, (int, float, np.integer)) else x for x in t.x], [float(v) for v in np.asarray(t.y)]) for t in fig.data]


def op_graph(rng, p, data, idx, obs):
    which = rng.choice(["line", "area", "shadow", "curve", "shadow_main", "mpl"])
    small = p.iloc(slice(0, 300))
    sd = {c: data[c][:300] for c in data}
    si = idx[:300]
    if which in ("line", "area"):
        cols = rng.choice([None, rng.sample(list(sd), rng.randint(1, len(sd)))])
        fig = getattr(small, which)(columns=cols, engine=rng.choice(["plotly", "Plotly"]))
        t = traces(fig)
        want = cols or list(sd)
        if sorted(x[0] for x in t) != sorted(want):
            raise Violation("%s: traces %s instead of %s" % (which, [x[0] for x in t], want), key=which)
        for nm, x, y in t:
            same_list(y, sd[nm], which)
            if x != si:
                raise Violation("%s: time axis" % which, key=which)
    elif which == "mpl":
        import matplotlib.pyplot as plt

        what = rng.choice(["line", "area", "load_duration_curve", "plot"])
        cols = rng.choice([None, rng.sample(list(sd), rng.randint(1, len(sd)))])
        if what == "load_duration_curve":
            c = rng.choice(list(sd))
            ax = small.load_duration_curve(c) if rng.random() < 0.5 else small.load_duration_curve(column=c, engine="Matplotlib")
            want, axis = [sorted(sd[c], reverse=True)], list(range(1, 301))
        else:
            axis = si
            if what == "plot":
                cols = None
                ax = small.plot(x_compat=True)
            else:
                ax = getattr(small, what)(columns=cols, x_compat=True)
            want = [sd[c] for c in (cols or list(sd))]
            if what == "area":
                # stacked
                want = [[sum(x) for x in zip(*want[:k + 1])] for k in range(len(want))]
        lines = [[float(v) for v in l.get_ydata(orig=True)] for l in ax.lines]
        xs = [list(l.get_xdata(orig=True)) for l in ax.lines]
        plt.close(ax.figure)
        if len(lines) != len(want):
            raise Violation("%s: %d lines instead of %d" % (what, len(lines), len(want)), key=what)
        for y, w, x in zip(lines, want, xs):
            same_list(y, w, what)
            if [int(v) if what == "load_duration_curve" else pd.Timestamp(v) for v in x] != axis:
                raise Violation("%s: axis from %s" % (what, x[:2]), key=what)
    elif which == "curve":
        c = rng.choice(list(sd))
        whole = len(idx) > 10000 or rng.random() < 0.2
        t = traces((p if whole else small).load_duration_curve(c, engine="plotly"))
        if len(t) != 1:
            raise Violation("load_duration_curve: %d traces" % len(t), key="load_duration_curve")
        same_list(t[0][2], sorted((data if whole else sd)[c], reverse=True), "load_duration_curve")
        if [int(x) for x in np.asarray(t[0][1], dtype=float)] != list(range(1, 1 + (len(idx) if whole else 300))):
            raise Violation("load_duration_curve: the axis is not the rank", key="load_duration_curve")
    else:
        engine = rng.choice(["plotly", "matplotlib"])
        cols = rng.choice(["all", rng.sample(list(sd), rng.randint(1, len(sd)))])
        kw = {}
        if which == "shadow_main":
            main = rng.choice(list(sd))
            kw = dict(main_column=main, average=False)
            want_main = sd[main]
        else:
            want_main = [sum(x) / len(x) for x in zip(*sd.values())]
        r = small.shadow(columns=cols, engine=engine, **kw)
        others = list(sd) if cols == "all" else cols
        if engine == "plotly":
            ys = [t[2] for t in traces(r)]
        else:
            import matplotlib.pyplot as plt

            fig, ax = r
            ys = [[float(v) for v in l.get_ydata()] for l in ax.lines]
            plt.close(fig)
        if len(ys) != 1 + len(others):
            raise Violation("shadow: %d lines instead of %d" % (len(ys), 1 + len(others)), key="shadow")
        same_list(ys[0], want_main, "shadow")
        for y, c in zip(ys[1:], others):
            same_list(y, sd[c], "shadow")
    check_source(small, sd, si, which)
    obs.add("graphs")
    for bad in (dict(engine="gnuplot"),):
        try:
            small.line(**bad)
        except ValueError:
            pass
        else:
            raise Violation("an unknown plot engine is accepted", key="graph")
