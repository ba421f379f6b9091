"""Generators of RAMP models. A model is a plain dict (JSON) so that it can be replayed:

{"users": [{"user_name","num_users","user_preference","appliances":[{kwargs}]}], ...}

Appliance kwargs are those of User.add_appliance. Windows are [start, end].
"""
import random


def pick(rng, *weighted):
    tot = sum(w for _, w in weighted)
    x = rng.random() * tot
    for v, w in weighted:
        x -= w
        if x < 0:
            return v
    return weighted[-1][0]


def variability(rng):
    return pick(rng, (0, 3), (0.05, 1), (0.1, 2), (0.2, 2), (0.35, 2), (0.5, 1), (0.65, 1), (1.0, 1),
                (round(rng.random() * 0.5, 3), 3))


def windows(rng, nw=None, var=None, minlen=2, disjoint=True, day=1440, shuffle=True, gap=0):
    """nw windows; when disjoint, the ranges they can vary in do not overlap (they are at
    least `gap` minutes apart). Returns (list of [s,e], var)."""
    if nw is None:
        nw = pick(rng, (1, 3), (2, 2), (3, 2))
    free_var = var is None
    if var is None:
        var = variability(rng)
    while True:
        if nw == 1:
            cuts = [0, day]
        else:
            cuts = [0] + sorted(rng.sample(range(1, day), nw - 1)) + [day]
        ws = []
        ok = True
        for i in range(nw):
            a, b = cuts[i], cuts[i + 1]
            size = b - a
            if size < minlen + 2:
                ok = False
                break
            r = rng.random()
            if r < 0.12:
                L = minlen
            elif r < 0.3:
                L = size
            else:
                L = rng.randint(minlen, size)
            # length such that the window and its variations fit on inner sides
            inner = (1 if i > 0 else 0) + (1 if i < nw - 1 else 0)
            while L > minlen and L + inner * (int(var * L) + gap) > size:
                L = max(minlen, int(L * 0.8))
            v = int(var * L)
            lo = a + (v + gap if i > 0 else 0)
            hi = b - (v + gap if i < nw - 1 else 0) - L
            if disjoint and hi < lo:
                ok = False
                break
            hi = max(hi, lo)
            s = pick(rng, (lo, 1), (hi, 1), (rng.randint(lo, hi), 4))
            if s + L > day:
                ok = False
                break
            ws.append([s, s + L])
        if ok:
            break
        if free_var and rng.random() < 0.3:
            var = rng.choice([0, 0.1, 0.2])
    if shuffle and nw > 1 and rng.random() < 0.3:
        rng.shuffle(ws)
    return ws, var


def crossing_windows(rng, nw=None):
    """windows as defined which touch or overlap one another (without variability)"""
    nw = nw or rng.choice([2, 2, 3])
    small = rng.random() < 0.5
    a = rng.randint(0, 1200 if small else 300)
    ws = [[a, a + (rng.randint(2, 12) if small else rng.randint(20, 500))]]
    while len(ws) < nw:
        p = rng.choice(ws)
        touch = rng.random() < 0.5
        s = p[1] if touch else rng.randint(p[0], p[1])
        L = rng.randint(2, 12) if small else rng.randint(20, 500)
        if s + L > 1440 or s >= 1438:
            s, L = max(0, p[0] - rng.randint(1, 5)), p[1] - p[0]
        ws.append([s, s + L])
    rng.shuffle(ws)
    return ws


def outer(w, var, day=1440):
    """range a window can occupy after randomisation, [lo, hi)"""
    v = int(var * (w[1] - w[0]))
    return max(0, w[0] - v), min(day, w[1] + v)


def min_total(ws, var, day=1440):
    """smallest possible total time of the randomised windows"""
    tot = 0
    for w in ws:
        v = int(var * (w[1] - w[0]))
        tot += max(0, w[1] - w[0] - 2 * v)
    return tot


def max_func_cycle(ws, var):
    """largest func_cycle which always fits: otherwise the ValueError naming func_cycle
    is the documented answer"""
    return int(0.99 * min_total(ws, var))


def func_time_and_cycle(rng, ws, var, allow_long=True):
    tot = sum(w[1] - w[0] for w in ws)
    fc_max = max_func_cycle(ws, var)
    ft = pick(rng, (tot, 1), (1, 1), (max(1, tot // 2), 1), (rng.randint(1, tot), 5))
    hi = fc_max
    if hi < 1:
        fc = 0
    else:
        fc = pick(rng, (1, 3), (hi, 1), (min(hi, 5), 1), (rng.randint(1, hi), 2), (rng.randint(1, max(1, hi // 4)), 3),
                  (min(hi, ft), 1))
        if allow_long and rng.random() < 0.05:
            fc = 0
    return ft, fc


def base_appliance(rng, ws, var, ft, fc, **kw):
    app = dict(
        num_windows=len(ws),
        func_time=ft,
        func_cycle=fc,
        random_var_w=var,
    )
    for i, w in enumerate(ws):
        app["window_%d" % (i + 1)] = list(w)
    app.update(kw)
    return app


def power(rng):
    return pick(rng, (1, 1), (7, 1), (100, 2), (1000, 1), (2500.5, 1), (round(rng.uniform(1, 3000), 2), 3))


def number(rng):
    return pick(rng, (1, 4), (2, 2), (3, 2), (5, 1), (17, 1), (rng.randint(1, 60), 1))
