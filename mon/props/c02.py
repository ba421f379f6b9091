"""Power levels: integer multiple of the appliance's power of the day, thermal bounds."""
import random

import numpy as np

from .. import daycheck, gen, sim
from ..core import Violation

RULE = (
    "one case = one appliance without duty cycle (number 1-60, fixed yes/no, constant or seasonal power, thermal "
    "variability 0-80%) simulated over several days; every constant-power segment of every day is decoded into a number "
    "of units and a deviation. Non-trivial: segments seen; distinct by (number, fixed, units on, segment length)."
)
FLOORS = {"segments": 5000, "days_on": 500}
KNOWN_KEYS = {}


def cases(tier, seed):
    n = 1500 if tier == "quick" else 12000
    kinds = ("any", "any", "seasonal", "single", "parts", "peak")
    for i in range(n):
        yield dict(kind=kinds[i % 6], seed=seed * 1000033 + i)


def run_case(case, obs):
    rng = random.Random(case["seed"])
    days = rng.randint(6, 14)
    kind = case["kind"]
    kw = {}
    if kind == "single":
        kw = dict(numb=1)
    elif kind == "seasonal":
        kw = dict(seasonal=True)
    app = daycheck.plain_app(rng, days=days, **kw)
    if kind == "parts":
        # windows in which only one event fits: a single constant level per window and day
        ws, var = gen.windows(rng, var=0, minlen=20)
        for i in range(3):
            app.pop("window_%d" % (i + 1), None)
        shortest = min(w[1] - w[0] for w in ws)
        longest = max(w[1] - w[0] for w in ws)
        for i, w in enumerate(ws):
            app["window_%d" % (i + 1)] = w
        app["num_windows"] = len(ws)
        app["random_var_w"] = 0
        tot = sum(w[1] - w[0] for w in ws)
        app["func_cycle"] = max(1, min(int(0.99 * tot), longest // 2 + 1))
        app["func_time"] = min(tot, longest)
    peak = None
    if kind == "peak":
        a = rng.randint(0, 1439)
        peak = np.arange(a, a + rng.randint(1, 600))
    spec = sim.one(app, num_days=days, how=rng.choice(["dates", "init", "late"]))
    if peak is None:
        uc, prof = sim.profiles(spec)
    else:
        uc = sim.build(spec)
        uc.peak_time_range = peak
        uc, prof = sim.profiles(spec, uc=uc)
    sim.sane(prof)
    sigs = set()
    lv = []
    for d in range(days):
        p = sim.power_on(app, d)
        day = prof[d]
        ks = daycheck.oracle_levels(day, app, p)
        obs.add("segments", len(ks))
        if ks:
            obs.add("days_on")
        if kind == "parts":
            for w in daycheck.app_windows(app):
                if w[1] - w[0] < 2 * app["func_cycle"]:
                    segs = sim.segments(day[w[0] : w[1]])
                    full = [s for s in segs if s[1] - s[0] >= app["func_cycle"]]
                    if len(segs) > 2 or len(full) > 1:
                        raise Violation(
                            "window %s only fits one switch-on event of %d minutes but the load has %d levels: %s"
                            % (w, app["func_cycle"], len(segs), segs),
                            key="level-changes",
                        )
        segs = sim.segments(day)
        for k, s in zip(ks, segs):
            sigs.add((app["number"], app["fixed"], k, s[1] - s[0]))
        if ks:
            lv.append((d, segs[0], ks[0]))
    obs.sample(dict(app=app, first_segment_and_units=lv[:3]))
    return sigs
