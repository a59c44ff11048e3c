"""C14: a save that fails or is killed never costs or fakes a run"""
import json
import os
import pickle
import shutil
import sys
import warnings

import numpy as np

from simlib import mcmcsim as M
from simlib import plotsim as P
from simlib import runio, shim
from simlib.engine import HarnessError, Violation, forked
from simlib.simpool import SIM

ID = "C14"
LEVEL = "fault_enumeration"
RUNS = {"quick": 90, "thorough": 9000}
RULE = (
    "sequences of 3-8 saves of a growing run to one path, each meeting one planned fault: an error, a short or a torn "
    "write, a full disk or the end of the process before/after the n-th file operation of the save (n over the whole save, "
    "measured first), a permanent error from there on, or an exception at the n-th executed line of naima's or h5py's "
    "saving code; after every one the path is read in the same and in a new process and compared with the complete new "
    "and the complete previous run; a case is one save; distinct counts (fault kind, operation and position hit, state "
    "before, outcome)"
)
REAL = ["naima.analysis save_run/read_run", "h5py and HDF5", "astropy tables", "emcee", "the file system (scratch directory) below the libc seam"]
STUB = ["libc file operations fail as planned (preloaded shim)", "user model and prior functions"]
ASSUMPTIONS = [
    "the end of the process keeps what was already written (no power failure: nothing is lost from the operating system's cache)",
    "one process saves to a path at a time",
]
PYFILES = ["naima/analysis.py", "naima/analysis.py", "h5py/_hl/files.py", "h5py/_hl/group.py", "h5py/_hl/dataset.py", "h5py/_hl/attrs.py", "astropy/io/misc/hdf5.py"]


def generate(rng, i, tier):
    sc = P.g_run(rng)
    sc["model"]["kind"] = "pl" if sc["model"]["kind"] not in ("pl", "ecpl", "logpl") else sc["model"]["kind"]
    sc["nwalkers"] = 8
    sc["nrun"] = rng.randint(1, 3)
    big = rng.random() < 0.25
    if big:
        sc["nwalkers"] = rng.choice([60, 200])
    atts = []
    n = rng.randint(3, 8)
    for k in range(n):
        f = None
        x = rng.random()
        last = k == n - 1
        if x < 0.12:
            f = None
        elif x < 0.55 and not last:
            f = {"type": "file", "mode": rng.choice(["err", "err", "err", "err_on", "short", "quota"]),
                 "frac": rng.choice([rng.random(), rng.random(), 0.0, 1.0, 0.97]), "err": rng.choice(["EIO", "ENOSPC", "EACCES", "EDQUOT", "EINTR", "EROFS"])}
            f["only"] = rng.choice([None, None, None, "write", "close", "rename", "open"])
            if f["mode"] == "err_on" and f["err"] == "EINTR":
                f["err"] = "EIO"
        elif x < 0.8 and not last:
            f = {"type": "line", "frac": rng.random(), "exc": rng.choice(["KeyboardInterrupt", "MemoryError", "OSError"]), "files": [rng.choice(PYFILES)]}
        else:
            f = {"type": "file", "mode": rng.choice(["crash_before", "crash_after", "torn"]), "frac": rng.choice([rng.random(), rng.random(), 1.0, 0.95]), "err": "EIO", "only": None}
        atts.append({"fault": f, "clobber": rng.random() < 0.85, "grow": rng.random() < 0.6, "compression": rng.random() < 0.7,
                     "remove": rng.random() < 0.15})
        if f and "crash" in f.get("mode", "") or f and f.get("mode") == "torn":
            if rng.random() < 0.5:
                break
    before = rng.choice(["none", "run", "run", "run", "garbage", "empty", "link"])
    if before in ("garbage", "empty") and rng.random() < 0.6:
        atts[0].update(clobber=False, remove=False, fault=None if rng.random() < 0.6 else atts[0]["fault"])
    return {"sc": sc, "calls": atts, "before": before}


MASK = {None: shim.WRITEISH, "write": shim.WRITE, "close": shim.CLOSE, "rename": shim.RENAME, "open": shim.OPEN_W}


def build(sc):
    import naima

    SIM.reset(sc["seed"])
    np.random.seed(sc["seed"] % 2**32)
    sys.stdout = M.FailingOut()
    s, _ = naima.run_sampler(
        nrun=sc["nrun"], data_table=M.make_data(sc), p0=list(sc["p0"]), model=M.SimModel(sc["model"]),
        prior=M.SimPrior(sc["prior"]) if sc["prior"] is not None else None, nwalkers=sc["nwalkers"],
        nburn=0, guess=sc["guess"], labels=sc["labels"], threads=1, data_sed=sc.get("data_sed"))
    return s


def read_one(path):
    import naima

    warnings.simplefilter("ignore")
    return runio.run_print(naima.read_run(path))


def try_read(path):
    try:
        return read_one(path)
    except BaseException as e:  # noqa
        return [type(e).__name__, str(e)[:150]]


def measure(plan, tmp):
    """Number of file operations and of executed lines of a save"""
    import naima

    warnings.simplefilter("ignore")
    s = build(plan["sc"])
    res = {}
    shim.config(tmp)
    for key, m in MASK.items():
        path = os.path.join(tmp, "measure.h5")
        shim.arm("err", 10**9, "EIO", m)
        naima.save_run(path, s, clobber=True)
        res[key] = shim.count()
    shim.off()
    res["size"] = os.path.getsize(path)
    for f in set(PYFILES):
        with M.LineFault(10**9, "OSError", (f,)) as lf:
            naima.save_run(path, s, clobber=True)
        res[f] = lf.count
    os.remove(path)
    return res


def segment(plan, size, tmp, side, first, todo):
    """One process: saves from number `first` on until the end or a crash"""
    import naima

    warnings.simplefilter("ignore")
    s = build(plan["sc"])
    store = os.path.join(tmp, "store")
    path = os.path.join(store, "run.h5")

    def grow():
        naima.run_sampler(nrun=1, sampler=s, pos=s.get_chain()[-1])

    if first == 0:
        os.makedirs(os.path.join(tmp, "real"))
        if plan["before"] == "run":
            naima.save_run(path, s)
        elif plan["before"] == "garbage":
            open(path, "wb").write(b"something else")
        elif plan["before"] == "empty":
            open(path, "wb").close()
        elif plan["before"] == "link":
            naima.save_run(os.path.join(tmp, "real", "r.h5"), s)
            os.symlink(os.path.join(tmp, "real", "r.h5"), path)
        with open(os.path.join(side, "start"), "wb") as fh:
            pickle.dump(try_read(path), fh)
    shim.config(tmp)
    shim.disarm()
    for k in range(first, len(plan["calls"])):
        a = plan["calls"][k]
        if a["remove"] and os.path.exists(path):
            os.remove(os.path.realpath(path))
        if a["grow"]:
            grow()
        o = {"new": runio.run_print(s), "exc": None, "existed": os.path.exists(path)}
        o["bytes"] = open(path, "rb").read() if o["existed"] else None
        with open(os.path.join(side, "pre%d" % k), "wb") as fh:
            pickle.dump(o, fh)
        f = a["fault"]
        lf = None
        o["hit"] = None
        if f and f["type"] == "file":
            n = size[f["only"]]
            at = 1 + int(f["frac"] * max(0, n - 1) + 0.5)
            if f["mode"] == "quota":
                shim.arm("quota", 1, f["err"], shim.WRITE, int(f["frac"] * size["size"]))
            else:
                shim.arm(f["mode"], at, f["err"], MASK[f["only"]])
            o["at"] = at
        elif f:
            lf = M.LineFault(1 + int(f["frac"] * size[f["files"][0]]), f["exc"], tuple(f["files"]))
        try:
            if lf:
                with lf:
                    naima.save_run(path, s, clobber=a["clobber"], compression=a["compression"])
            else:
                naima.save_run(path, s, clobber=a["clobber"], compression=a["compression"])
        except BaseException as e:  # noqa
            o["exc"] = [type(e).__name__, str(e)[:200]]
        o["ops"] = shim.log()
        o["fired"] = bool(lf.fired if lf else shim.fired()) if f else False
        o["hit"] = lf.fired if lf else None
        shim.disarm()
        o["existed2"] = os.path.exists(path)
        o["bytes2"] = open(path, "rb").read() if o["existed2"] else None
        o["read"] = try_read(path)
        try:
            o["left"] = sorted(os.listdir(store))
            if o["existed2"]:
                shutil.copyfile(path, os.path.join(side, "snap%d" % k))
        finally:
            with open(os.path.join(side, "obs%d" % k), "wb") as fh:
                pickle.dump(o, fh)
    shim.off()
    return True


def is_run(x):
    return isinstance(x, dict)


def verdict(o, lab, what, got, new, old, allowed_new, allowed_old):
    """What reading the path gave, against what it may give"""
    if is_run(got):
        dn = runio.compare(new, got)
        do = runio.compare(old, got) if is_run(old) else "there was none"
        if allowed_new and dn is None:
            return "new"
        if allowed_old and do is None:
            return "old"
        raise Violation("neither-run", "%s: %s gives a run that is not the new one (%s) nor the previous one (%s)%s"
                        % (lab, what, dn, do, "" if allowed_old else "; the previous one is not expected any more"))
    if allowed_old and not is_run(old):
        return "error"
    raise Violation("run-lost", "%s: %s gives %s" % (lab, what, got))


def execute(plan, ctx):
    tmp = ctx.tmpdir()
    side = os.path.join(tmp + "x")
    os.makedirs(side)
    try:
        _execute(plan, ctx, tmp, side)
    finally:
        shutil.rmtree(side, ignore_errors=True)


def _execute(plan, ctx, tmp, side):
    os.makedirs(os.path.join(tmp, "store"))
    r = ctx.reference(measure_in, {"sc": plan["sc"]}, timeout=90)
    if r[0] != "ok":
        raise Violation("save-failed", "a save without any fault fails: %s" % (r,))
    size = r[1]
    first = 0
    old = None
    ncalls = len(plan["calls"])
    while first < ncalls:
        res = forked(segment, (plan, size, tmp, side, first, None), 120)
        if res[0] == "exc":
            raise HarnessError(res[3])
        if res[0] == "timeout":
            raise Violation("no-progress", "saves from number %d on do not end" % first)
        if first == 0:
            old = pickle.load(open(os.path.join(side, "start"), "rb"))
        k = first
        while k < ncalls and os.path.exists(os.path.join(side, "obs%d" % k)):
            o = pickle.load(open(os.path.join(side, "obs%d" % k), "rb"))
            a = plan["calls"][k]
            f = a["fault"]
            ctx.evals += 1
            lab = "save %d%s" % (k, " with fault %s" % f if f else "")
            new = o["new"]
            hit = None
            if f and o["fired"]:
                ctx.count("fault_%s_%s" % (f["type"], f.get("mode") or f["exc"]))
                if f["type"] == "file" and f["mode"] != "quota":
                    seen = [x for x in o["ops"] if MASK[f["only"]] & CODE[x[0]]]
                    hit = seen[o["at"] - 1][0] if o["at"] <= len(seen) else "?"
                else:
                    hit = str(o["hit"])
            if not o["existed"]:
                old = ["nothing", ""]
            if o["existed"] and not a["clobber"]:
                if o["bytes2"] != o["bytes"]:
                    raise Violation("touched-without-permission", "%s: the existing file was changed" % lab)
                ctx.count("kept_existing")
                k += 1
                continue
            ok = o["exc"] is None
            if not ok and not (f and o["fired"]):
                raise Violation("save-failed", "%s: %s" % (lab, o["exc"]))
            outcome = verdict(o, lab + (" (returned normally)" if ok else " (%s)" % o["exc"]), "reading in the same process",
                              o["read"], new, old, True, not ok)
            if o["existed2"]:
                got = ctx.raw_fork(read_one, os.path.join(side, "snap%d" % k), timeout=60)
                got = got[1] if got[0] == "ok" else list(got[1:3])
            else:
                got = ["FileNotFoundError", ""]
            o2 = verdict(o, lab + (" (returned normally)" if ok else " (%s)" % o["exc"]), "reading in a new process", got, new, old, True, not ok)
            ctx.state(f and (f["type"], f.get("mode") or f["exc"], f.get("only")), hit, o["existed"], ok, outcome)
            ctx.count("outcome_%s_%s" % ("ok" if ok else "raised", outcome))
            ctx.log(k, o["exc"], outcome, o2, hit)
            old = got if is_run(got) else old
            k += 1
        if k < ncalls and res[0] == "died":
            # the process ended during save k
            a = plan["calls"][k]
            f = a["fault"]
            ctx.evals += 1
            pre = os.path.join(side, "pre%d" % k)
            if not os.path.exists(pre):
                raise HarnessError("segment died outside a save")
            o = pickle.load(open(pre, "rb"))
            lab = "save %d with fault %s (the process ended)" % (k, f)
            if os.WIFSIGNALED(res[1]) or os.WEXITSTATUS(res[1]) != 137:
                # not one of the planned ends
                ctx.count("process_died_of_fault")
            if not o["existed"]:
                old = ["nothing", ""]
            path = os.path.join(tmp, "store", "run.h5")
            if o["existed"] and not a["clobber"]:
                if open(path, "rb").read() != o["bytes"]:
                    raise Violation("touched-without-permission", "%s: the existing file was changed" % lab)
                got, outcome = old, "kept"
            else:
                got = ctx.raw_fork(read_one, path, timeout=60)
                got = got[1] if got[0] == "ok" else list(got[1:3])
                outcome = verdict(o, lab, "reading in a new process", got, o["new"], old, True, True)
            ctx.count("fault_%s_%s" % (f["type"], f.get("mode") or f["exc"]) if f else "died")
            ctx.count("outcome_died_%s" % outcome)
            ctx.state(f and f.get("mode"), int(20 * f["frac"]) if f else None, o["existed"], "died", outcome)
            ctx.log(k, "died", outcome)
            old = got if is_run(got) else old
            k += 1
        elif k < ncalls:
            raise HarnessError("observation %d missing: %s" % (k, res[:2]))
        first = k


CODE = {v: k for k, v in shim.OPNAMES.items()}


def measure_in(plan):
    import tempfile

    from simlib import engine

    d = tempfile.mkdtemp(prefix="simm", dir=engine.SCRATCH_ROOT)
    try:
        return measure(plan, d)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def shrink(plan):
    c = plan["calls"]
    for k in range(len(c)):
        if len(c) > 1:
            yield dict(plan, calls=c[:k] + c[k + 1:])
    for k in range(len(c)):
        if c[k]["fault"] and len(c) > 1:
            yield dict(plan, calls=c[:k] + [dict(c[k], fault=None)] + c[k + 1:])
        for key, v in (("grow", False), ("remove", False), ("clobber", True), ("compression", True)):
            if c[k][key] != v:
                yield dict(plan, calls=c[:k] + [dict(c[k], **{key: v})] + c[k + 1:])
    yield from M.shrink_scenario(plan)
