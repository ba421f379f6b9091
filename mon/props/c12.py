"""random_seed: same model and seed, same results; whatever the process and its history."""
import json
import os
import random
import subprocess
import sys

import numpy as np

from .. import core, models, sim
from ..core import Violation, guard

RULE = (
    "one case = a random model built and simulated twice with the same random_seed (0, small, huge) through the same calls, "
    "after unrelated random draws, in the same or in a fresh process with another hash seed, sequentially or in parallel; "
    "peak time range and load are compared bit by bit, and different seeds (or no seed) must differ. Non-trivial: pairs "
    "compared; distinct by (model, seed, mode)."
)
FLOORS = {"pairs_equal": 100, "pairs_different": 30, "fresh_process": 12, "parallel_pairs": 3, "seed_zero": 10}
KNOWN_KEYS = {}


def cases(tier, seed):
    n = 180 if tier == "quick" else 2000
    for i in range(n):
        kind = "same"
        if i % 20 == 7:
            kind = "fresh"
        elif i % 30 == 11:
            kind = "parallel"
        elif i % 4 == 2:
            kind = "differ"
        elif i % 8 == 5:
            kind = "file"
        elif i % 8 == 3:
            kind = "between"
        yield dict(kind=kind, seed=seed * 1000171 + i)


SEEDS = (0, 0, 1, 2, 42, 123456789, 2**40 + 7)


def run(spec):
    with guard("seeded simulation", draws=20_000_000, cpu=200):
        uc = sim.build(spec)
        pk = np.asarray(uc.peak_time_range).tolist()
        prof = np.asarray(uc.generate_daily_load_profiles(flat=False)).tolist()
    return pk, prof


def perturb(rng):
    """unrelated history of the process"""
    random.seed(rng.randrange(1 << 30))
    for _ in range(rng.randrange(50)):
        random.gauss(0, 1) if rng.random() < 0.5 else random.random()
    np.random.seed(rng.randrange(1 << 30))


def compare(a, b, what):
    if a[0] != b[0]:
        raise Violation("%s: peak time range [%s, %s] and [%s, %s] with the same random_seed"
                        % (what, a[0][0], a[0][-1], b[0][0], b[0][-1]), key="seed-peak")
    if a[1] != b[1]:
        d = [i for i in range(len(a[1])) if a[1][i] != b[1][i]]
        raise Violation("%s: the loads of days %s differ with the same random_seed" % (what, d), key="seed-load")


def run_case(case, obs):
    rng = random.Random(case["seed"])
    kind = case["kind"]
    spec = models.random_model(rng, days=rng.randint(1, 3))
    # something random for sure
    spec["users"][0]["appliances"].append(dict(window_1=[0, 1440], func_time=200, time_fraction_random_variability=0.3, power=3, number=5,
                                               thermal_p_var=0.2, name="any"))
    spec["seed"] = rng.choice(SEEDS)
    if spec["seed"] == 0:
        obs.add("seed_zero")
    if kind == "parallel":
        spec["parallel"] = True
        spec["num_days"] = 2
    if kind == "file":
        return from_file(rng, spec, obs)
    if kind == "fresh":
        out = []
        for h in ("0", "12345"):
            env = dict(os.environ, PYTHONHASHSEED=h, PYTHONPATH=core.VERIF)
            code = ("import sys, json\nfrom mon import core\ncore.import_ramp()\nfrom mon.props import c12\n"
                    "r = c12.run(json.load(open(sys.argv[1])))\njson.dump(r, open(sys.argv[2], 'w'))\n")
            fi, fo = os.path.abspath("in.json"), os.path.abspath("out.json")
            with open(fi, "w") as f:
                json.dump(spec, f)
            if os.path.exists(fo):
                os.remove(fo)
            p = subprocess.run([sys.executable, "-c", code, fi, fo], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=200)
            if not os.path.exists(fo):
                raise RuntimeError("fresh process failed: %s" % p.stdout.decode()[-800:])
            with open(fo) as f:
                out.append(json.load(f))
            obs.add("fresh_process")
        perturb(rng)
        here = run(spec)
        compare(out[0], out[1], "two processes")
        compare(json.loads(json.dumps(here)), out[0], "this process and a fresh one")
        obs.add("pairs_equal", 2)
        return {("fresh", case["seed"])}
    perturb(rng)
    a = run(spec)
    if kind == "between":
        # other use cases simulated in between
        other = models.random_model(rng, days=1)
        with guard("other use case", cpu=200):
            sim.build(other).generate_daily_load_profiles()
    perturb(rng)
    if kind == "differ":
        other = rng.choice([s for s in (0, 1, 5, 77, None) if s != spec["seed"]])
        b = run(dict(spec, seed=other))
        if a[1] == b[1]:
            raise Violation("seeds %s and %s give the same load" % (spec["seed"], other), key="seed-ignored")
        obs.add("pairs_different")
    else:
        b = run(spec)
        compare(a, b, "parallel" if kind == "parallel" else "sequential")
        obs.add("parallel_pairs" if kind == "parallel" else "pairs_equal")
        if kind == "parallel":
            c = run(dict(spec, seed=spec["seed"] + 1))
            if c[1] == a[1]:
                raise Violation("parallel processing ignores random_seed", key="seed-ignored")
    obs.sample(dict(kind=kind, seed=spec["seed"], how=spec["how"], peak=[a[0][0], a[0][-1]], load_first_day=sum(a[1][0])))
    return {(kind, case["seed"])}


def from_file(rng, spec, obs):
    """model read from a file once the use case is initialised or before"""
    with guard("seeded simulation from a file", draws=20_000_000, cpu=200):
        sim.build(dict(spec, seed=None)).save("model")
        order = rng.choice(["load_first", "dates_first"])
        res = []
        for _ in range(2):
            perturb(rng)
            ramp = sim.R()
            if order == "load_first":
                uc = ramp.UseCase(random_seed=spec["seed"], date_start="2023-04-01")
                uc.load("model.xlsx")
                uc.initialize(num_days=2)
            else:
                uc = ramp.UseCase(random_seed=spec["seed"], date_start="2023-04-01", date_end="2023-04-02")
                uc.load("model.xlsx")
            prof = np.asarray(uc.generate_daily_load_profiles(flat=False)).tolist()
            res.append((np.asarray(uc.peak_time_range).tolist(), prof))
    compare(res[0], res[1], "model read from a file")
    obs.add("pairs_equal")
    return {("file", order, spec["seed"], spec["users"][0]["num_users"])}
