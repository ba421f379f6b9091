"""Runner shared by every check: fresh import of the code under test, sharded
execution of cases, verdicts, evidence and replay files.

Verdicts are three valued. Exit 0: the property held on every execution that was
observed. Exit 1: an oracle rejected an execution (VIOLATION line with a replay
file). Exit 2: inconclusive (the monitors were not reached, a worker was lost, ...).
"""
import gc
import hashlib
import importlib
import io
import json
import os
import pickle
import random as _random
import select
import signal
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("RAMP_REPO", "/repo")
REPLAYS = os.path.join(VERIF, "replays")
EVIDENCE = os.path.join(VERIF, "evidence")
KNOWN = os.path.join(VERIF, "known_findings.txt")


class Violation(Exception):
    """An oracle rejected an execution. `key` names the mechanism (known findings)."""

    def __init__(self, msg, key="", **detail):
        super().__init__(msg)
        self.msg = msg
        self.key = key
        self.detail = detail


class BudgetExceeded(BaseException):
    """The code under test drew more random numbers than any terminating run can."""


class CpuExceeded(BaseException):
    """One simulation used absurdly more CPU time than it needs."""


# --------------------------------------------------------------------------
# memory: the arrays are not seen by the garbage collector of PyPy
# --------------------------------------------------------------------------
def rss_mb():
    with open("/proc/self/statm") as f:
        return int(f.read().split()[1]) * (os.sysconf("SC_PAGE_SIZE") // 1024) // 1024


TRIM = [450]


def trim():
    if rss_mb() > TRIM[0]:
        gc.collect()
        TRIM[0] = max(450, rss_mb() + 150)


# --------------------------------------------------------------------------
# logical clock: number of random draws
# --------------------------------------------------------------------------
class RngMeter:
    """Counts draws from the random module, the logical clock of a simulation."""

    NAMES = (
        "random",
        "uniform",
        "randint",
        "randrange",
        "gauss",
        "normalvariate",
        "choice",
        "triangular",
        "getrandbits",
        "shuffle",
        "sample",
    )

    def __init__(self):
        self.count = 0
        self.total = 0
        self.limit = None

    def install(self):
        meter = self

        def wrap(orig):
            def counted(*a, **k):
                meter.count += 1
                meter.total += 1
                if not meter.total & 0x3FFF:
                    trim()
                if meter.limit is not None and meter.count > meter.limit:
                    meter.limit = None
                    raise BudgetExceeded()
                return orig(*a, **k)

            counted.__wrapped__ = orig
            return counted

        for n in self.NAMES:
            setattr(_random, n, wrap(getattr(_random, n)))

    def budget(self, n):
        self.count = 0
        self.limit = n

    def off(self):
        self.limit = None


METER = RngMeter()


def import_ramp():
    """Import the working tree of the repository, compiled from source (no .pyc)."""
    import numpy, pandas, openpyxl, tqdm  # noqa: F401 (cached byte code is fine for those)
    import matplotlib

    matplotlib.use("Agg")
    import matplotlib.pyplot as plt  # noqa: F401

    METER.install()
    sys.dont_write_bytecode = True
    saved = sys.pycache_prefix
    import plotly.express  # noqa: F401
    import plotly.graph_objects  # noqa: F401

    sys.pycache_prefix = os.path.join("/nonexistent", "no-bytecode")
    sys.path.insert(0, REPO)
    try:
        import ramp

        import ramp.cli, ramp.ramp_run, ramp.ramp_convert_old_input_files  # noqa
    finally:
        sys.pycache_prefix = saved
    if not os.path.abspath(ramp.__file__).startswith(os.path.abspath(REPO) + os.sep):
        raise RuntimeError("ramp was imported from %s" % ramp.__file__)
    import warnings

    warnings.resetwarnings()
    warnings.simplefilter("ignore")
    return ramp


# --------------------------------------------------------------------------
# observation record of a worker
# --------------------------------------------------------------------------
class Obs:
    def __init__(self):
        self.counts = {}
        self.samples = []
        self.known = {}
        self.findings = {}

    def add(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + int(n)

    def sample(self, obj):
        if len(self.samples) < 2:
            self.samples.append(obj)


def jsonable(o):
    import numpy as np

    if isinstance(o, dict):
        return {str(k): jsonable(v) for k, v in o.items()}
    if isinstance(o, (list, tuple, set)):
        return [jsonable(v) for v in o]
    if isinstance(o, np.ndarray):
        return jsonable(o.tolist())
    if isinstance(o, (np.integer,)):
        return int(o)
    if isinstance(o, (np.floating,)):
        return float(o)
    if isinstance(o, (np.bool_,)):
        return bool(o)
    if o is None or isinstance(o, (int, float, str, bool)):
        return o
    return str(o)


def brief(o, n=1500):
    s = json.dumps(jsonable(o))
    return s if len(s) <= n else s[:n] + "..."


# --------------------------------------------------------------------------
# crash policy
# --------------------------------------------------------------------------
class guard:
    """Context in which code under test runs: an exception which escapes it means the
    guaranteed result was not delivered, i.e. a violation; runaway runs are stopped by
    the logical clock (draws), with the CPU clock behind it."""

    def __init__(self, what, draws=5_000_000, cpu=60, expect=()):
        self.what = what
        self.draws = draws
        self.cpu = cpu
        self.expect = expect

    def __enter__(self):
        METER.budget(self.draws)

        def on_cpu(sig, frame):
            raise CpuExceeded()

        self.old = signal.signal(signal.SIGVTALRM, on_cpu)
        signal.setitimer(signal.ITIMER_VIRTUAL, self.cpu)
        return self

    def __exit__(self, et, ev, tb):
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        signal.signal(signal.SIGVTALRM, self.old)
        METER.off()
        if et is None or issubclass(et, Violation):
            return False
        if issubclass(et, KeyboardInterrupt):
            return False
        if issubclass(et, BudgetExceeded):
            raise Violation(
                "%s: does not terminate (more than %d random draws)" % (self.what, self.draws),
                key="no-termination",
            ) from None
        if issubclass(et, CpuExceeded):
            raise Violation(
                "%s: does not terminate (more than %d s of CPU time)" % (self.what, self.cpu),
                key="no-termination",
            ) from None
        if self.expect and issubclass(et, self.expect):
            return False
        frames = traceback.format_exception(et, ev, tb)[-6:]
        raise Violation(
            "%s: raised %s: %s" % (self.what, et.__name__, str(ev)[:300]),
            key="crash:%s" % et.__name__,
            traceback="".join(frames)[-2500:],
        ) from None


# --------------------------------------------------------------------------
# workers
# --------------------------------------------------------------------------
def silence():
    devnull = os.open(os.devnull, os.O_RDWR)
    os.dup2(devnull, 1)
    os.dup2(devnull, 2)
    os.dup2(devnull, 0)
    sys.stdout = io.TextIOWrapper(os.fdopen(1, "wb", closefd=False), write_through=True)
    sys.stderr = io.TextIOWrapper(os.fdopen(2, "wb", closefd=False), write_through=True)


def run_one(mod, case, obs):
    """returns None, or a violation record"""
    _random.seed(case.get("seed", 0))
    try:
        sig = mod.run_case(case, obs)
        return ("ok", sig)
    except Violation as v:
        return ("viol", dict(case=case, msg=v.msg, key=v.key, detail=jsonable(v.detail)))
    except BudgetExceeded:
        return ("viol", dict(case=case, msg="random draw budget exceeded", key="no-termination", detail={}))
    except Exception as e:
        frames = [f.filename for f in traceback.extract_tb(e.__traceback__)]
        root = os.path.join(os.path.abspath(REPO), "ramp") + os.sep
        if any(f.startswith(root) for f in frames):
            # raised within the code under test, on a valid use
            return (
                "viol",
                dict(case=case, msg="raised %s: %s" % (type(e).__name__, str(e)[:300]), key="crash:%s" % type(e).__name__,
                     detail=dict(traceback=traceback.format_exc()[-2500:])),
            )
        # an error of the harness itself
        return (
            "err",
            dict(case=case, msg="%s: %s" % (type(e).__name__, e), detail=traceback.format_exc()[-3000:]),
        )


# a worker hands over to a fresh process when it has grown beyond this (the arrays are not seen by
# the garbage collector of PyPy, eight workers share the machine)
RECYCLE_MB = int(os.environ.get("VERIF_RECYCLE_MB", "900"))


def worker(mod, todo, wfd, deadline, scratch, bad=0, errs=0):
    """runs the cases [(position, case)] and reports each of them as it is done"""
    silence()
    os.makedirs(scratch, exist_ok=True)
    os.chdir(scratch)

    def send(*rec):
        data = pickle.dumps(rec)
        data = len(data).to_bytes(4, "little") + data
        while data:
            data = data[os.write(wfd, data):]

    gc.collect()
    grown = 0
    for pos, case in todo:
        if time.time() > deadline:
            send("skip", pos)
            continue
        send("start", pos)
        obs = Obs()
        kind, payload = run_one(mod, case, obs)
        if kind == "ok":
            sigs = payload if isinstance(payload, (set, list)) else () if payload is None else (payload,)
            payload = {hashlib.md5(str(p).encode()).digest()[:8] for p in sigs}
        send("done", pos, kind, payload, obs.counts, [jsonable(s) for s in obs.samples])
        bad += kind == "viol" and payload["key"] not in mod.KNOWN_KEYS
        errs += kind == "err"
        if bad >= 3 or errs >= 3:
            break
        del obs, payload
        grown = rss_mb()
        if grown > RECYCLE_MB // 2:
            gc.collect()
            if rss_mb() > RECYCLE_MB:
                break
    send("end", grown)


def shard(mod, cases, nproc, deadline, scratch_root):
    # kinds of cases differ in cost: spread them over the workers
    cases = list(cases)
    _random.Random(len(cases)).shuffle(cases)
    slots = {}  # read end -> slot
    lost = []
    results = []

    def fork(slot):
        r, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                os.close(r)
                for fd in slots:
                    os.close(fd)
                worker(mod, slot["todo"], wr, deadline, os.path.join(scratch_root, "w%d" % slot["no"]), slot["bad"], len(slot["res"]["errs"]))
            except BaseException:
                code = 9
                try:
                    with open(os.path.join(scratch_root, "w%d.err" % slot["no"]), "w") as f:
                        f.write(traceback.format_exc())
                except Exception:
                    pass
            finally:
                os._exit(code)
        os.close(wr)
        slot.update(pid=pid, buf=b"", current=None, ended=False)
        slots[r] = slot

    def record(slot, rec):
        res = slot["res"]
        if rec[0] == "skip":
            res["skipped"] += 1
        elif rec[0] == "start":
            slot["current"] = rec[1]
            return
        elif rec[0] == "end":
            slot["ended"] = True
            res["rss"] = max(res["rss"], rec[1])
            return
        else:
            _, pos, kind, payload, counts, samples = rec
            slot["current"] = None
            res["done"] += 1
            for k, v in counts.items():
                res["counts"][k] = res["counts"].get(k, 0) + v
            res["samples"] = (res["samples"] + samples)[:2]
            if kind == "ok":
                res["sigs"] |= payload
            elif kind == "viol":
                res["viols"].append(payload)
                slot["bad"] += payload["key"] not in mod.KNOWN_KEYS
            else:
                res["errs"].append(payload)
        slot["todo"] = [c for c in slot["todo"] if c[0] != rec[1]]

    for w in range(nproc):
        mine = list(enumerate(cases[w::nproc]))
        if mine:
            res = dict(done=0, sigs=set(), viols=[], errs=[], skipped=0, counts={}, samples=[], rss=0)
            results.append(res)
            fork(dict(no=w, todo=mine, res=res, died={}, bad=0))
    hard = deadline + 240
    while slots:
        rd, _, _ = select.select(list(slots), [], [], 5)
        for fd in rd:
            slot = slots[fd]
            chunk = os.read(fd, 1 << 16)
            if chunk:
                buf = slot["buf"] + chunk
                while len(buf) >= 4 and len(buf) >= 4 + int.from_bytes(buf[:4], "little"):
                    n = 4 + int.from_bytes(buf[:4], "little")
                    record(slot, pickle.loads(buf[4:n]))
                    buf = buf[n:]
                slot["buf"] = buf
                continue
            os.close(fd)
            del slots[fd]
            try:
                _, status = os.waitpid(slot["pid"], 0)
            except ChildProcessError:
                status = None
            if not slot["todo"] or slot["bad"] >= 3 or len(slot["res"]["errs"]) >= 3:
                continue
            err = os.path.join(scratch_root, "w%d.err" % slot["no"])
            if os.path.exists(err):
                continue
            if not slot["ended"]:
                # the process was ended from outside or crashed: once more, in a fresh process
                pos = slot["current"]
                slot["died"][pos] = slot["died"].get(pos, 0) + 1
                if slot["died"][pos] >= 2:
                    lost.append("worker %d was lost (status %s) on case %s" % (slot["pid"], status, dict(slot["todo"]).get(pos)))
                    continue
            fork(slot)
        if time.time() > hard:
            for slot in slots.values():
                os.kill(slot["pid"], signal.SIGKILL)
                lost.append("worker %d exceeded the wall clock watchdog" % slot["pid"])
            break
    for fn in sorted(os.listdir(scratch_root)):
        if fn.endswith(".err"):
            with open(os.path.join(scratch_root, fn)) as f:
                lost.append(f.read()[-1500:])
    return results, lost


def load_known(prop):
    """known findings: 'known: property=<id> key=<mechanism> <what fails>'"""
    out = {}
    if os.path.exists(KNOWN):
        with open(KNOWN) as f:
            for line in f:
                line = line.strip()
                if line.startswith("known: property=%s " % prop):
                    rest = line[len("known: property=%s " % prop):]
                    key, _, what = rest.partition(" ")
                    out[key[len("key="):]] = what
    return out
