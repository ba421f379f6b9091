"""Oracles over the daily profile of one appliance instance without duty cycle, with
windows whose possible ranges do not overlap, positive power and thermal_p_var < 1."""
import math
import random

import numpy as np

from . import gen
from .core import Violation
from .sim import segments, runs


def plain_app(rng, fixed=None, var=None, nw=None, thermal=None, numb=None, minlen=2, seasonal=None, days=1):
    ws, var = gen.windows(rng, nw=nw, var=var, minlen=minlen)
    ft, fc = gen.func_time_and_cycle(rng, ws, var)
    app = gen.base_appliance(rng, ws, var, ft, fc)
    app["time_fraction_random_variability"] = gen.pick(
        rng, (0, 3), (0.1, 1), (0.2, 2), (0.5, 1), (1.0, 1), (round(rng.random(), 3), 2)
    )
    app["number"] = gen.number(rng) if numb is None else numb
    app["fixed"] = fixed or gen.pick(rng, ("no", 2), ("yes", 1))
    th = thermal if thermal is not None else gen.pick(rng, (0, 1), (0.1, 1), (0.3, 1), (0.8, 0.3))
    app["thermal_p_var"] = th
    if seasonal is None:
        seasonal = rng.random() < 0.15
    if seasonal:
        app["power"] = dict(series=rng.randrange(1 << 30), n=max(days, 366), form=rng.choice(["frame", "json"]))
    else:
        app["power"] = gen.power(rng)
    if rng.random() < 0.3:
        app["name"] = rng.choice(["Bulb", "TV 1", "frigo été", "x" * 40])
    return app


def crossing_app(rng, days, **kw):
    """an appliance whose windows touch or overlap"""
    ws = gen.crossing_windows(rng)
    app = plain_app(rng, days=days, **kw)
    for i in range(3):
        app.pop("window_%d" % (i + 1), None)
    for i, w in enumerate(ws):
        app["window_%d" % (i + 1)] = w
    app["num_windows"] = len(ws)
    app["random_var_w"] = 0
    union = len({m for w in ws for m in range(*w)})
    big = max(w[1] - w[0] for w in ws)
    app["func_time"] = rng.choice([union, rng.randint(1, union), union - rng.randint(0, union // 10)])
    app["func_cycle"] = max(1, min(rng.choice([1, 1, 2, rng.randint(1, max(1, big // 3))]), int(0.99 * union), big))
    return app, ws, union


def app_windows(app):
    return [app["window_%d" % (i + 1)] for i in range(3) if "window_%d" % (i + 1) in app]


def oracle_outside(day, app):
    """load only inside the windows and their variability"""
    ws = app_windows(app)
    var = app.get("random_var_w", 0)
    allowed = np.zeros(1440, dtype=bool)
    for w in ws:
        lo, hi = gen.outer(w, var)
        allowed[lo:hi] = True
    bad = np.flatnonzero((~allowed) & (np.asarray(day) != 0))
    if len(bad):
        raise Violation(
            "load of %g at minute %d, outside of every window of use %s with variability %g"
            % (day[bad[0]], bad[0], ws, var),
            key="outside-window",
        )


def actual_windows(day, app):
    """the randomised windows of the day, decoded from the idle marker; checks that each
    lies within the variability of its nominal window"""
    day = np.asarray(day)
    out = []
    var = app.get("random_var_w", 0)
    for w in app_windows(app):
        lo, hi = gen.outer(w, var)
        v = int(var * (w[1] - w[0]))
        r = runs(day[lo:hi] > 0)
        if len(r) > 1:
            raise Violation(
                "window %s has %d separate parts on the same day: %s"
                % (w, len(r), [(a + lo, b + lo) for a, b in r]),
                key="window-split",
            )
        if not r:
            if w[0] + v < w[1] - v:
                raise Violation("window %s (variability %d min) is missing" % (w, v), key="window-missing")
            out.append((w[0], w[0]))
            continue
        a, b = r[0][0] + lo, r[0][1] + lo
        # start and end are each within their own variability; they may swap
        if not (max(0, w[0] - v) <= a <= w[0] + v and w[1] - v <= b <= min(1440, w[1] + v)):
            raise Violation(
                "window %s was randomised to (%d, %d), more than %d minutes away" % (w, a, b, v),
                key="window-variability",
            )
        out.append((a, b))
    return out


def on_segments(day, app):
    return segments(day)


def oracle_levels(day, app, power, inside=None):
    """each level is k times the power of the day, up to the thermal variability"""
    n = app["number"]
    th = app.get("thermal_p_var", 0)
    segs = segments(day)
    ks = []
    for a, b, v in segs:
        if app.get("fixed") == "yes":
            cand = [n]
        else:
            if th == 0:
                cand = [int(round(v / power))]
            else:
                kl = max(1, int(math.ceil(v / (power * (1 + th)) - 1e-9)))
                kh = min(n, int(math.floor(v / (power * (1 - th)) + 1e-9)))
                cand = [kl] if kl <= kh else []
        ok = False
        for k in cand:
            if 1 <= k <= n:
                base = k * power
                if base * (1 - th) * (1 - 1e-9) <= v <= base * (1 + th) * (1 + 1e-9):
                    ok = True
                    ks.append(k)
                    break
        if not ok:
            raise Violation(
                "load of %.6f during [%d, %d) is not a multiple (1 to %d%s) of the power %.6f within +-%g"
                % (v, a, b, n, ", fixed" if app.get("fixed") == "yes" else "", power, th),
                key="power-level",
            )
    return ks


def time_bounds(app, total):
    ft, v, fc = app["func_time"], app.get("time_fraction_random_variability", 0), app.get("func_cycle", 1)
    cap = int(0.99 * total)
    lo = int(ft * (1 - v) - 1e-9)
    hi = int(ft * (1 + v) + 1e-9)
    return min(max(lo, fc), cap), min(max(hi, fc), cap)


def oracle_time(day, app, wins, reach=None):
    """daily on-time within its bounds; a shortfall only if nothing more fits (in reach of the
    given duty cycle windows)"""
    total = sum(b - a for a, b in wins)
    lo, hi = time_bounds(app, total)
    on = np.asarray(day) > 0.0015
    T = int(on.sum())
    if T > hi:
        raise Violation(
            "on during %d minutes, at most %d are allowed (func_time %s +- %s, func_cycle %s, %d minutes available)"
            % (T, hi, app["func_time"], app["time_fraction_random_variability"], app.get("func_cycle", 1), total),
            key="too-long",
        )
    full = False
    if T < lo:
        fc = max(1, app.get("func_cycle", 1))
        for a, b in wins:
            for x, y in runs(~on[a:b]):
                if y - x >= fc and (reach is None or any(c[0] < a + y and c[1] >= a + x for c in reach)):
                    raise Violation(
                        "on during %d minutes although at least %d are required and %d consecutive minutes "
                        "are still free at %d (func_cycle %d)" % (T, lo, y - x, a + x, fc),
                        key="too-short",
                    )
        full = True
    return T, lo, hi, full


def oracle_events(day, app, wins, unique):
    """switch-on events last at least func_cycle, except one cut by the daily budget, and
    do not span two windows. unique: every event has its own level (thermal_p_var > 0)"""
    fc = max(1, app.get("func_cycle", 1))
    short = 0
    nev = 0
    day = np.asarray(day)
    for a, b in wins:
        seg = day[a:b]
        parts = segments(seg) if unique else [(x, y, 0) for x, y in runs(seg > 0.0015)]
        for x, y, _ in parts:
            nev += 1
            if y - x < fc:
                short += 1
                where = (a + x, a + y)
    if short > 1:
        raise Violation(
            "%d switch-on events are shorter than func_cycle=%d minutes on the same day (last one at %s)"
            % (short, fc, where),
            key="short-event",
        )
    return nev, short
