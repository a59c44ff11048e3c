"""Seeded search over simulated runs: fork isolation, workers, minimising,
replay files, evidence."""
import hashlib
import importlib
import json
import os
import pickle
import random
import select
import shutil
import signal
import struct
import sys
import tempfile
import time
import traceback

from . import boot

VERIF = boot.VERIF
SCRATCH_ROOT = None


class HarnessError(Exception):
    """Something is wrong with the machinery (never a violation)"""


class RunTimeout(Exception):
    pass


def jdump(x):
    return json.dumps(x, sort_keys=True, default=str)


def digest(x):
    return hashlib.sha256(jdump(x).encode()).hexdigest()[:16]


# --------------------------------------------------------------- forking
def _write_all(fd, data):
    view = memoryview(data)
    while view:
        n = os.write(fd, view)
        view = view[n:]


def _read_until(fd, pid, deadline):
    buf = bytearray()
    while True:
        left = deadline - time.monotonic()
        if left <= 0:
            return None, False
        r, _, _ = select.select([fd], [], [], min(left, 1.0))
        if not r:
            continue
        b = os.read(fd, 1 << 20)
        if not b:
            return bytes(buf), True
        buf += b


def _kill_group(pid):
    try:
        os.killpg(pid, signal.SIGKILL)
    except OSError:
        pass
    try:
        os.kill(pid, signal.SIGKILL)
    except OSError:
        pass


# development: runs a forked function while noting executed lines (tools/lines.py)
LINES = None


def forked(func, args=(), timeout=60.0, quiet=True):
    """Run func(*args) in a forked child of the (pristine) current process.

    Returns ("ok", value) | ("exc", type name, text, traceback text, in_naima)
    | ("died", status) | ("timeout",)
    """
    r, w = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.setpgid(0, 0)
            os.close(r)
            if quiet and not os.environ.get("SIM_DEBUG"):
                dn = os.open(os.devnull, os.O_RDWR)
                os.dup2(dn, 0)
                os.dup2(dn, 1)
                os.dup2(dn, 2)
            try:
                res = ("ok", LINES(func, args) if LINES else func(*args))
                data = pickle.dumps(res, protocol=4)
            except BaseException as e:  # noqa
                tb = traceback.format_exc()
                data = pickle.dumps(
                    ("exc", type(e).__name__, str(e)[:500], tb[-4000:],
                     isinstance(e, HarnessError)),
                    protocol=4,
                )
            _write_all(w, struct.pack("<Q", len(data)) + data)
        except BaseException:  # noqa
            code = 99
        finally:
            os._exit(code)
    os.close(w)
    try:
        os.setpgid(pid, pid)
    except OSError:
        pass
    data, done = _read_until(r, pid, time.monotonic() + timeout)
    os.close(r)
    if not done:
        _kill_group(pid)
        os.waitpid(pid, 0)
        return ("timeout",)
    # leftover processes of the run (e.g. leaked pools) end with it
    _, status = os.waitpid(pid, 0)
    _kill_group(pid)
    if len(data) < 8 or len(data) - 8 != struct.unpack("<Q", data[:8])[0]:
        return ("died", status)
    return pickle.loads(data[8:])


class Violation(Exception):
    def __init__(self, kind, detail, **extra):
        super().__init__(kind + ": " + str(detail))
        self.kind, self.detail, self.extra = kind, str(detail), extra


class Ctx:
    """Services for one simulated run"""

    def __init__(self, mod, deep=False):
        self.mod = mod
        self.stats = {}
        self.distinct = set()
        self.evals = 0
        self.trace = []
        self.refcache = _REFCACHE
        self.scratch = None

    def count(self, what, n=1):
        self.stats[what] = self.stats.get(what, 0) + n

    def merge(self, stats):
        for k, v in (stats or {}).items():
            self.count(k, v)

    def state(self, *key):
        self.distinct.add(digest(key))

    def log(self, *what):
        self.trace.append(what)

    def tmpdir(self):
        if self.scratch is None:
            self.scratch = tempfile.mkdtemp(prefix="sim", dir=SCRATCH_ROOT)
        return self.scratch

    def close(self):
        if self.scratch:
            shutil.rmtree(self.scratch, ignore_errors=True)
            self.scratch = None

    def raw_fork(self, func, *args, timeout=60.0):
        return forked(func, args, timeout)

    def fork(self, func, *args, timeout=60.0):
        """Run the subject; anything but a normal return is an error of the
        harness, except hanging or dying, which are violations."""
        res = forked(func, args, timeout)
        if res[0] == "ok":
            return res[1]
        if res[0] == "timeout":
            raise RunTimeout("no result within %.0f s" % timeout)
        if res[0] == "died":
            raise Violation("process-died", "subject process died: status %r" % res[1])
        if res[4]:
            raise HarnessError(res[3])
        raise Violation(
            "unexpected-exception", "%s: %s\n%s" % (res[1], res[2], res[3][-1500:])
        )

    def reference(self, func, *args, timeout=60.0):
        """Value of func(*args) in a pristine process; cached per worker.
        Exceptions come back as ("exc", type)."""
        key = hashlib.sha256(
            (func.__module__ + func.__name__ + jdump(args)).encode()
        ).digest()
        c = self.refcache
        if key in c:
            return c[key]
        res = forked(func, args, timeout)
        if res[0] == "timeout":
            raise RunTimeout("reference: no result within %.0f s" % timeout)
        if res[0] == "died":
            raise Violation("process-died", "reference process died")
        if res[0] == "exc" and res[4]:
            raise HarnessError(res[3])
        if len(c) > 20000:
            c.clear()
        c[key] = res
        return res


_REFCACHE = {}


def run_plan(mod, plan):
    """Execute one plan; returns an outcome dict (never raises)."""
    ctx = Ctx(mod)
    out = {"violation": None, "harness": None}
    t0 = time.monotonic()
    try:
        mod.execute(plan, ctx)
    except Violation as v:
        out["violation"] = {"kind": v.kind, "detail": v.detail, **v.extra}
    except RunTimeout as e:
        out["violation"] = {"kind": "no-progress", "detail": str(e)}
    except BaseException as e:  # noqa
        if isinstance(e, KeyboardInterrupt):
            raise
        out["harness"] = traceback.format_exc()
    finally:
        ctx.close()
    out["stats"] = ctx.stats
    out["distinct"] = ctx.distinct
    out["evals"] = max(1, ctx.evals)
    out["digest"] = digest(ctx.trace) if ctx.trace else digest(sorted(ctx.distinct))
    out["t"] = time.monotonic() - t0
    return out


def run_seed(seed, pid, i):
    h = hashlib.sha256(("%s:%s:%s" % (seed, pid, i)).encode()).hexdigest()
    return int(h[:16], 16)


def make_plan(mod, seed, i, tier):
    rs = run_seed(seed, mod.ID, i)
    plan = mod.generate(random.Random(rs), i, tier)
    # plans are what the replay file holds: they must survive JSON
    plan = json.loads(json.dumps(plan))
    plan["run_seed"] = rs
    return plan


# --------------------------------------------------------------- workers
class WorkerProc:
    def __init__(self, mod, seed, tier):
        r1, w1 = os.pipe()
        r2, w2 = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(w1)
                os.close(r2)
                for o in WorkerProc.all:
                    for fd in (o.w, o.r):
                        try:
                            os.close(fd)
                        except OSError:
                            pass
                _worker_loop(mod, seed, tier, r1, w2)
            except BaseException:  # noqa
                traceback.print_exc()
            finally:
                os._exit(0)
        os.close(r1)
        os.close(w2)
        self.pid, self.w, self.r = pid, w1, r2
        self.job = None
        self.buf = bytearray()
        WorkerProc.all.append(self)

    all = []

    def start(self, i):
        self.job = i
        os.write(self.w, struct.pack("<q", i))

    def stop(self):
        for fd in (self.w, self.r):
            os.close(fd)
        WorkerProc.all.remove(self)
        try:
            os.kill(self.pid, signal.SIGKILL)
        except OSError:
            pass
        os.waitpid(self.pid, 0)


def _worker_loop(mod, seed, tier, r, w):
    while True:
        b = os.read(r, 8)
        if len(b) < 8:
            return
        (i,) = struct.unpack("<q", b)
        try:
            plan = make_plan(mod, seed, i, tier)
        except Exception:
            out = {"violation": None, "harness": traceback.format_exc(), "stats": {},
                   "distinct": set(), "evals": 0, "digest": "", "t": 0}
            plan = {}
        else:
            out = run_plan(mod, plan)
        data = pickle.dumps((i, out), protocol=4)
        _write_all(w, struct.pack("<Q", len(data)) + data)


def search(mod, seed, tier, nruns, budget, nworkers=8, first=0):
    """Run plans first..nruns-1; stops at the first violation found (after the
    runs then in flight) or when the time budget is used up."""
    t0 = time.monotonic()
    agg = {"runs": 0, "stats": {}, "distinct": set(), "evals": 0, "harness": [],
           "violations": [], "digests": {}, "slowest": 0.0, "stopped_by": "runs"}
    workers = [WorkerProc(mod, seed, tier) for _ in range(min(nworkers, nruns))]
    nxt = first
    stop = False
    try:
        for wk in workers:
            if nxt < nruns:
                wk.start(nxt)
                nxt += 1
        while any(wk.job is not None for wk in workers):
            busy = [wk for wk in workers if wk.job is not None]
            rr, _, _ = select.select([wk.r for wk in busy], [], [], 1.0)
            if not stop and time.monotonic() - t0 > budget:
                stop = True
                agg["stopped_by"] = "budget"
            for wk in busy:
                if wk.r not in rr:
                    continue
                b = os.read(wk.r, 1 << 20)
                if not b:
                    agg["harness"].append("worker died at run %s" % wk.job)
                    wk.job = None
                    stop = True
                    continue
                wk.buf += b
                if len(wk.buf) < 8:
                    continue
                (n,) = struct.unpack("<Q", wk.buf[:8])
                if len(wk.buf) < 8 + n:
                    continue
                i, out = pickle.loads(bytes(wk.buf[8 : 8 + n]))
                wk.buf = bytearray()
                wk.job = None
                agg["runs"] += 1
                agg["evals"] += out["evals"]
                agg["distinct"] |= out["distinct"]
                agg["digests"][i] = out["digest"]
                agg["slowest"] = max(agg["slowest"], out["t"])
                for k, v in out["stats"].items():
                    agg["stats"][k] = agg["stats"].get(k, 0) + v
                if out["harness"]:
                    agg["harness"].append("run %d: %s" % (i, out["harness"]))
                    if len(agg["harness"]) > 3:
                        stop = True
                if out["violation"]:
                    agg["violations"].append((i, out["violation"]))
                    known = out["violation"].get("known")
                    if not known:
                        stop = True
                        agg["stopped_by"] = "violation"
                if not stop and nxt < nruns:
                    wk.start(nxt)
                    nxt += 1
            if stop and time.monotonic() - t0 > budget + 240:
                agg["harness"].append("runs did not end within the grace period")
                break
    finally:
        for wk in workers:
            wk.stop()
    agg["wall"] = time.monotonic() - t0
    agg["violations"].sort(key=lambda v: v[0])
    return agg


# --------------------------------------------------------------- minimising
def _candidates(mod, plan):
    """Smaller plans, most aggressive first"""
    if hasattr(mod, "shrink"):
        for c in mod.shrink(plan):
            yield c
    ops = plan.get("ops")
    if isinstance(ops, list) and len(ops) > 1:
        n = len(ops)
        size = n // 2
        while size >= 1:
            for s in range(0, n, size):
                c = dict(plan)
                c["ops"] = ops[:s] + ops[s + size :]
                if c["ops"]:
                    yield c
            size //= 2


def minimise(mod, plan, violation, limit=60.0):
    t0 = time.monotonic()
    best, bv, steps = plan, violation, 0
    improved = True
    if violation.get("plan_update"):
        # the decisions actually taken, spelled out
        cand = json.loads(json.dumps(dict(plan, **violation["plan_update"])))
        res = forked(run_plan, (mod, cand), 150.0, quiet=False)
        if res[0] == "ok" and res[1]["violation"]:
            best, bv = cand, res[1]["violation"]
    while improved and time.monotonic() - t0 < limit:
        improved = False
        for cand in _candidates(mod, best):
            if time.monotonic() - t0 > limit:
                break
            cand = json.loads(json.dumps(cand))
            res = forked(run_plan, (mod, cand), 150.0, quiet=False)
            steps += 1
            if res[0] != "ok":
                continue
            v = res[1]["violation"]
            if v and v["kind"] == violation["kind"] and not v.get("known"):
                best, bv = cand, v
                improved = True
                break
    return best, bv, steps


def load_known():
    path = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(path):
        return []
    return json.load(open(path)).get("findings", [])


def match_known(pid, violation, plan):
    for f in load_known():
        if f["property"] != pid:
            continue
        m = f["match"]
        if m.get("kind") and m["kind"] != violation["kind"]:
            continue
        if m.get("detail_contains") and m["detail_contains"] not in violation["detail"]:
            continue
        return f["id"]
    return None
