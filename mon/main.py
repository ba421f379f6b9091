import hashlib
import importlib
import json
import os
import shutil
import sys
import tempfile
import time

from . import core


def main(argv):
    t0 = time.time()
    prop = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    replay = None
    rest = argv[1:]
    if rest and rest[0] in ("quick", "thorough"):
        tier = rest[0]
        rest = rest[1:]
    if rest and rest[0] == "--replay":
        replay = os.path.abspath(rest[1])
    seed = int(os.environ.get("VERIF_SEED", "1"))
    nproc = int(os.environ.get("VERIF_PROCS", "0")) or min(8, os.cpu_count() or 1)

    real_stdout = os.dup(1)

    def say(line):
        os.write(real_stdout, (line + "\n").encode())

    try:
        core.import_ramp()
    except Exception as e:
        # the working tree cannot even be imported: no property can be observed
        say("INCONCLUSIVE property=%s import failed: %s: %s" % (prop, type(e).__name__, e))
        return 2
    mod = importlib.import_module("mon.props.%s" % prop.lower())
    mod.KNOWN_KEYS = core.load_known(prop)

    scratch = tempfile.mkdtemp(prefix="ramp-verif-")
    os.environ["TMPDIR"] = scratch
    tempfile.tempdir = None
    try:
        if replay:
            with open(replay) as f:
                rec = json.load(f)
            os.chdir(scratch)
            obs = core.Obs()
            kind, payload = core.run_one(mod, rec["case"], obs)
            if kind == "viol":
                say(json.dumps(core.jsonable(payload), indent=1)[:6000])
                say("VIOLATION property=%s replay=%s" % (prop, replay))
                return 1
            say("replay: %s %s" % (kind, payload))
            return 0 if kind == "ok" else 2

        cases = list(mod.cases(tier, seed))
        budget = float(
            os.environ.get("VERIF_BUDGET_S", "0")
        ) or (getattr(mod, "QUICK_S", 180) if tier == "quick" else getattr(mod, "THOROUGH_S", 600))
        results, lost = core.shard(mod, cases, nproc, t0 + budget, scratch)
    finally:
        os.chdir(core.VERIF)
        shutil.rmtree(scratch, ignore_errors=True)

    counts = {}
    sigs = set()
    viols, errs, samples = [], [], []
    done = skipped = 0
    for r in results:
        done += r["done"]
        skipped += r["skipped"]
        sigs |= r["sigs"]
        viols += r["viols"]
        errs += r["errs"]
        samples += r["samples"]
        for k, v in r["counts"].items():
            counts[k] = counts.get(k, 0) + v

    known_hit = {}
    fresh = []
    for v in viols:
        if v["key"] in mod.KNOWN_KEYS:
            known_hit.setdefault(v["key"], v)
        else:
            fresh.append(v)

    problems = []
    for what, floor in getattr(mod, "FLOORS", {}).items():
        got = counts.get(what, 0)
        if got < floor:
            problems.append("observed only %d %s (need %d)" % (got, what, floor))
    if lost:
        problems += lost
    if errs:
        problems.append("harness error: %s\n%s" % (errs[0]["msg"], errs[0]["detail"]))
    if done == 0:
        problems.append("no case ran")

    for key, what in mod.KNOWN_KEYS.items():
        if key in known_hit:
            say("KNOWN-FINDING: property=%s %s" % (prop, what))

    code = 0
    if fresh:
        code = 1
        os.makedirs(core.REPLAYS, exist_ok=True)
        seen = set()
        for v in sorted(fresh, key=lambda v: len(json.dumps(core.jsonable(v["case"])))):
            k = (v["key"], v["case"].get("kind"))
            if k in seen and len(seen) >= 1:
                continue
            seen.add(k)
            body = json.dumps(dict(property=prop, **core.jsonable(v)), indent=1, sort_keys=True)
            h = hashlib.md5(body.encode()).hexdigest()[:10]
            path = os.path.join(core.REPLAYS, "%s-%s.json" % (prop, h))
            with open(path, "w") as f:
                f.write(body)
            say("# %s" % v["msg"][:400])
            say("VIOLATION property=%s replay=%s" % (prop, path))
            if len(seen) >= 5:
                break
    elif problems:
        code = 2
        for p in problems:
            say("INCONCLUSIVE property=%s %s" % (prop, p))

    os.makedirs(core.EVIDENCE, exist_ok=True)
    ev = dict(
        property=prop,
        tier=tier,
        seed=seed,
        level="exploration",
        coverage=dict(
            evaluations=done,
            distinct_nontrivial=len(sigs),
            rule=mod.RULE,
            samples=samples[:6],
            observed=counts,
            skipped_by_deadline=skipped,
            workers=nproc,
            inconclusive=[p[:300] for p in problems],
            known_findings_observed=sorted(known_hit),
        ),
        assumptions=getattr(mod, "ASSUMPTIONS", []),
        wall_s=round(time.time() - t0, 2),
        violations=len(fresh),
    )
    with open(os.path.join(core.EVIDENCE, "%s.json" % prop), "w") as f:
        json.dump(core.jsonable(ev), f, indent=1)
    say(
        "%s %s seed=%d cases=%d distinct=%d skipped=%d violations=%d wall=%.1fs observed=%s"
        % (prop, tier, seed, done, len(sigs), skipped, len(fresh), time.time() - t0, json.dumps(counts))
    )
    return code


if __name__ == "__main__":
    try:
        code = main(sys.argv[1:])
    except SystemExit:
        raise
    except BaseException:
        import traceback

        traceback.print_exc()
        code = 3
    sys.stdout.flush()
    os._exit(code)
