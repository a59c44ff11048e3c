"""C16: diagnostic plotting survives failures and leaves the session as it was"""
import gc
import os
import re

from simlib import mcmcsim as M
from simlib import plotsim as P
from simlib import shim
from simlib.engine import Violation, forked

ID = "C16"
LEVEL = "fault_enumeration"
RUNS = {"quick": 48, "thorough": 3000}
RULE = (
    "diagnostic-plot calls (png and pdf) and single plotting calls on seeded small runs, with a fault at the n-th call of "
    "a drawing or saving primitive, at the n-th executed line of the plotting module, at the n-th log message, or at the "
    "n-th operation on the output files (error, short write, full disk); files written are decoded and counted against a "
    "clean call, and settings, figures and descriptors of the session compared before and after; a case is one call; "
    "distinct counts (call, fault kind, exception, fault place, files missing)"
)
REAL = ["naima.analysis.save_diagnostic_plots, naima.plot", "matplotlib (Agg, pdf)", "corner", "real files in a scratch directory"]
STUB = ["libc file operations under the scratch directory pass through a fault-injecting shim", "user model and prior functions"]
ASSUMPTIONS = [
    "one fault per call; while a fault persists (full disk) only the session invariants are required",
    "in pdf output the pages share one file, so a write error of that file may cost several pages",
]
PRIMS = ["savefig", "savefig", "add_subplot", "hist", "errorbar", "loglog", "plot", "axvspan", "text", "set_xlabel", "kde",
         "corner", "clf", "loginfo"]
EXCS = ["ValueError", "RuntimeError", "OSError", "MemoryError", "ZeroDivisionError", "KeyboardInterrupt", "KeyboardInterrupt"]


def g_fault(rng, pdf):
    x = rng.random()
    if x < 0.55:
        prim = rng.choice(PRIMS + (["pdf"] * 2 + ["pdfclose"] if pdf else []))
        return {"type": "fig", "prim": prim, "frac": rng.random(), "exc": rng.choice(EXCS)}
    if x < 0.75:
        return {"type": "line", "files": ["naima/plot.py"], "frac": rng.random(), "exc": rng.choice(EXCS)}
    return {"type": "file", "mode": rng.choice(["err", "err", "err", "short", "quota", "err_on"]),
            "err": rng.choice(["EIO", "ENOSPC", "EACCES"]), "frac": rng.random()}


def prepare():
    P.warm()


def generate(rng, i, tier):
    sc = P.g_run(rng)
    if rng.random() < 0.04:
        M.enlarge(rng, sc)
    if rng.random() < 0.15:
        sc["labels"] = ["norm/scale"] + ["p%d" % k for k in range(1, len(sc["p0"]))]
    sc["shared"] = {}
    spec, scal = P.spectral(sc)
    ops = []
    for _ in range(rng.randint(1, 2)):
        if rng.random() < 0.2:
            op = P.g_plot(rng, sc, sc["shared"], ["corner", "corner", "fit", "chain", "blob"])
            op["kw"].pop("errorbar_opts", None)
            op["kw"].pop("ulim_opts", None)
            op["kw"].pop("e_range", None)
            if isinstance(op["kw"].get("confs"), dict) and "shared" in op["kw"]["confs"]:
                op["kw"].pop("confs")
            f = g_fault(rng, False)
            if f["type"] == "file":
                f = {"type": "line", "files": ["naima/plot.py"], "frac": rng.random(), "exc": rng.choice(EXCS)}
            op["fault"] = f
            ops.append(op)
            continue
        kw = {"dpi": rng.choice([20, 30, 40]), "pdf": rng.random() < 0.35}
        if rng.random() < 0.4:
            kw["modelidxs"] = {"lit": rng.sample(spec + scal, rng.randint(1, len(spec + scal)))}
        n = len(kw["modelidxs"]["lit"]) if "modelidxs" in kw else None
        if rng.random() < 0.3:
            kw["blob_labels"] = {"lit": ["Spectrum", "second"][: rng.randint(0, 2)]}
        if n and rng.random() < 0.4:
            kw["sed"] = {"lit": [rng.random() < 0.5 for _ in range(n)]}
        elif rng.random() < 0.3:
            kw["sed"] = False
        if rng.random() < 0.3:
            kw["last_step"] = True
        op = {"op": "diag", "kw": kw, "rs": rng.randrange(2**31), "out": "diag%d" % len(ops)}
        x = rng.random()
        if x < 0.06:
            op["out"] = "nodir/diag"
        elif x < 0.14:
            op["blocked"] = rng.random()
        if rng.random() < 0.85:
            op["fault"] = g_fault(rng, kw["pdf"])
        ops.append(op)
    return {"sc": sc, "ops": ops, "sched": {"seed": rng.randrange(2**31)},
            "rc": rng.sample([["pdf.fonttype", 3], ["interactive", True], ["lines.linewidth", 3.5], ["font.size", 9.0],
                              ["figure.dpi", 50.0], ["axes.grid", True]], rng.randint(0, 3)),
            "figs": rng.randint(0, 2)}


def inspect_files(folder):
    """name -> size of the image or number of pages; None for anything that
    does not decode"""
    from PIL import Image

    res = {}
    for root, _, names in os.walk(folder):
        for n in sorted(names):
            p = os.path.join(root, n)
            rel = os.path.relpath(p, folder)
            try:
                if n.endswith(".pdf"):
                    b = open(p, "rb").read()
                    res[rel] = len(re.findall(rb"/Type\s*/Page\b", b)) if b.rstrip().endswith(b"%%EOF") else None
                else:
                    with Image.open(p) as im:
                        im.load()
                        res[rel] = list(im.size)
            except Exception:
                res[rel] = None
    return res


def fds(folder):
    n = 0
    for f in os.listdir("/proc/self/fd"):
        try:
            if os.readlink("/proc/self/fd/" + f).startswith(folder):
                n += 1
        except OSError:
            pass
    return n


def one(p, op, fault, folder, blocked=None):
    """The call with outputs in folder; observation plus files"""
    os.makedirs(folder, exist_ok=True)
    old, p.tmp = p.tmp, folder
    for b in blocked or []:
        os.makedirs(os.path.join(folder, b))
    op = dict(op)
    op.pop("fault", None)
    counter = None
    if fault and fault["type"] in ("fig", "line"):
        op["fault"] = fault
    n0 = fds(folder)
    try:
        if fault and fault["type"] == "file":
            shim.config(folder)
            shim.arm(fault["mode"], fault["at"], fault["err"], shim.WRITEISH, fault.get("quota", 0))
            try:
                o = p.perform(op)
            finally:
                fired = shim.fired()
                shim.disarm()
                shim.off()
            o["fired"] = fired > 0
            if fired:
                P.SIM.count("fault_file_" + fault["mode"])
        else:
            o = p.perform(op)
    finally:
        p.tmp = old
    gc.collect()
    o["openfiles"] = fds(folder) - n0
    for b in blocked or []:
        try:
            os.rmdir(os.path.join(folder, b))
        except OSError:
            pass
    o["files"] = inspect_files(folder)
    o.pop("fig", None)
    return o


def counting(p, op, folder):
    """Clean call in a throw-away process: what is written, and how many
    primitives, lines and file operations it takes"""
    f = op.get("fault")
    n = 0
    if f and f["type"] == "fig":
        with P.FigFault({"prim": f["prim"], "at": None, "exc": "ValueError"}) as c:
            o = one(p, op, None, folder)
        n = c.n
    elif f and f["type"] == "line":
        with M.LineFault(-1, "ValueError", tuple(f["files"])) as c:
            o = one(p, op, None, folder)
        n = c.count
    elif f:
        shim.config(folder)
        shim.arm("none", 0, "EIO", shim.WRITEISH)
        o = one(p, op, None, folder)
        lg = shim.log(60000)
        n = sum(1 for x in lg if x[0] in ("open_w", "write", "close", "trunc", "fsync", "rename", "unlink"))
        o["bytes"] = sum(x[1] for x in lg if x[0] == "write")
        shim.off()
    else:
        o = one(p, op, None, folder)
    o["n"] = n
    return o


def subject(plan, tmp):
    import matplotlib

    matplotlib.use("Agg")
    import matplotlib.pyplot as plt

    p = P.Post(plan["sc"], plan["sched"], tmp)
    for k, v in plan["rc"]:
        matplotlib.rcParams[k] = v
    for k in range(plan["figs"]):
        f = plt.figure(figsize=(2, 2))
        f.add_subplot(111).plot([1, 2, 3], [k, 2, 1])
    res = []
    for k, op in enumerate(plan["ops"]):
        clean = forked(counting, (p, op, os.path.join(tmp, "clean%d" % k)), 120.0)
        if clean[0] != "ok":
            res.append({"clean": clean})
            break
        clean = clean[1]
        f = dict(op["fault"]) if op.get("fault") else None
        if f:
            f["at"] = 1 + int(f["frac"] * clean["n"])
            f["quota"] = 1 + int(f["frac"] * clean.get("bytes", 0))
        blocked = None
        if op.get("blocked") is not None and clean["files"]:
            names = sorted(clean["files"])
            blocked = [names[int(op["blocked"] * len(names))]]
        o = one(p, op, f, os.path.join(tmp, "out%d" % k), blocked)
        # and once more undisturbed
        again = one(p, op, None, os.path.join(tmp, "again%d" % k)) if op["op"] == "diag" else None
        res.append({"clean": clean, "o": o, "again": again, "fault": f, "blocked": blocked})
    return {"res": res, "stats": dict(P.SIM.stats)}


def session_ok(lab, o, op):
    if o["rc"]:
        raise Violation("settings-changed", "%s: %s" % (lab, o["rc"][:4]))
    if o["lostfigs"]:
        raise Violation("caller-figure-closed", "%s: figures %s" % (lab, o["lostfigs"]))
    if o["otherfigs"]:
        raise Violation("caller-figure-changed", "%s: %s" % (lab, o["otherfigs"]))
    if op["op"] == "diag":
        if o["newfigs"]:
            raise Violation("figures-left-open", "%s: %d" % (lab, len(o["newfigs"])))
        if o["openfiles"] > 0:
            raise Violation("file-left-open", "%s: %d" % (lab, o["openfiles"]))


def expected_plots(sc, op):
    """How many plots the call has to produce at least"""
    n = len(sc["p0"]) + 1
    labels = sc["labels"] or []
    if any("/" in x for x in labels) and not op["kw"].get("pdf"):
        n -= 1
    spec, scal = P.spectral(sc)
    if "modelidxs" in op["kw"]:
        return n + len(op["kw"]["modelidxs"]["lit"])
    return n + len(set(spec + scal))


def execute(plan, ctx):
    r = ctx.fork(subject, plan, ctx.tmpdir(), timeout=300)
    ctx.merge(r["stats"])
    sc = plan["sc"]
    for k, (op, x) in enumerate(zip(plan["ops"], r["res"])):
        lab0 = "call %d: %s %s" % (k, op["op"], op["kw"])
        c = x["clean"]
        if isinstance(c, tuple):
            raise Violation("no-result", "%s: %s" % (lab0, c[:3]))
        ctx.evals += 1
        pdf = bool(op["kw"].get("pdf"))
        nodir = op["op"] == "diag" and op["out"].startswith("nodir")
        session_ok(lab0 + " without fault", c, op)
        if op["op"] == "diag" and not nodir:
            if c["exc"]:
                raise Violation("plots-fail", "%s: %s" % (lab0, c["exc"]))
            bad = [n for n, v in c["files"].items() if v is None]
            if bad:
                raise Violation("incomplete-file", "%s: %s" % (lab0, bad))
            nplots = sum(c["files"].values()) if pdf else len(c["files"])
            want = expected_plots(sc, op)
            if nplots < want:
                raise Violation("plots-missing", "%s: %d plots written, %d expected: %s" % (lab0, nplots, want, c["files"]))
        f, o = x["fault"], x["o"]
        lab = "%s, fault %s%s%s" % (lab0, f, " at %s" % (o["where"],) if o["where"] else "",
                                    ", %s cannot be written" % x["blocked"] if x["blocked"] else "")
        fired = o["fired"]
        ctx.count("reached" if fired else "not_reached")
        session_ok(lab, o, op)
        exc = f["exc"] if f and f["type"] in ("fig", "line") else None
        interrupt = exc == "KeyboardInterrupt"
        if fired and interrupt:
            if o["exc"] is None or o["exc"][0] != "KeyboardInterrupt":
                raise Violation("interrupt-lost", "%s: %s" % (lab, o["exc"]))
        missing = None
        if op["op"] == "diag" and not nodir:
            if pdf:
                have = o["files"].get(op["out"] + "_plots.pdf")
                missing = sum(c["files"].values()) - (have or 0)
            else:
                missing = [n for n, v in c["files"].items() if o["files"].get(n) != v]
            in_plot = f is None or not fired or (
                (f["type"] == "fig" and f["prim"] not in ("loginfo", "pdfclose")) or f["type"] == "line"
                or (f["type"] == "file" and not pdf))
            if not (fired and interrupt) and in_plot and not (pdf and x["blocked"]):
                if o["exc"] is not None:
                    raise Violation("failure-spreads", "%s: the call raised %s" % (lab, o["exc"]))
                allowed = (1 if fired else 0) + (len(x["blocked"]) if x["blocked"] else 0)
                if fired and f["type"] == "file" and f["mode"] in ("quota", "err_on"):
                    allowed = 99
                n = missing if pdf else len(missing)
                if n > allowed:
                    raise Violation("other-plots-missing", "%s: not written: %s" % (lab, missing))
        ctx.state(op["op"], pdf, f and f["type"], f and f.get("prim"), exc, o["where"], o["exc"] and o["exc"][0],
                  missing if pdf or missing is None else len(missing))
        ctx.log(k, o["exc"], missing, sorted(o["files"]))
        a = x["again"]
        if a is not None:
            session_ok(lab + ", then again undisturbed", a, op)
            if not nodir and (a["exc"] or a["files"] != c["files"]):
                raise Violation("not-recovered", "%s: the same call afterwards: %s, files %s instead of %s" % (
                    lab, a["exc"], a["files"], c["files"]))


def shrink(plan):
    if plan["rc"]:
        yield dict(plan, rc=[])
    if plan["figs"]:
        yield dict(plan, figs=0)
    for k, op in enumerate(plan["ops"]):
        if op["op"] == "diag":
            for a in list(op["kw"]):
                if a != "dpi":
                    yield dict(plan, ops=plan["ops"][:k] + [dict(op, kw={x: v for x, v in op["kw"].items() if x != a})] + plan["ops"][k + 1:])
    yield from M.shrink_scenario(plan)
