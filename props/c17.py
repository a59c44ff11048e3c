"""C17: plots show the run they are given, whatever was plotted before"""
import os
import tempfile

import numpy as np

from simlib import mcmcsim as M
from simlib import plotcheck, plotsim as P
from simlib.engine import Violation, forked

ID = "C17"
RUNS = {"quick": 110, "thorough": 4000}
RULE = (
    "histories of 2-7 plotting calls (chains, corner, fits, output distributions, data) on seeded small sampling runs "
    "and on copies of them read back from disk, with option dictionaries and lists shared between calls, given or new "
    "figures, user settings changed and the run continued in between; every drawn figure is read back artist by artist and compared (1) with "
    "the same call made first in a pristine process and (2) with curves, bands, residuals, marks and data points "
    "computed independently from the recorded chain and the raw tables; a case is one figure; distinct counts "
    "different (call, previous call) pairs with their options"
)
REAL = ["naima.plot, naima.analysis read_run/save_run", "matplotlib (Agg)", "corner", "emcee", "astropy"]
STUB = ["multiprocessing.Pool: forked workers driven in lock-step by a seeded scheduler", "user model and prior functions"]
ASSUMPTIONS = ["1e-7 relative tolerance on drawn numbers", "quantile bands may differ by one rank", "drawn SEDs are in erg, differential spectra per TeV (as labelled)"]


def prepare():
    P.warm()


def generate(rng, i, tier):
    sc = P.g_run(rng)
    if rng.random() < 0.06:
        M.enlarge(rng, sc)
    sc["shared"] = P.g_shared(rng)
    ops = []
    for _ in range(rng.randint(2, 7)):
        op = P.g_plot(rng, sc, sc["shared"])
        if ops and rng.random() < 0.3:
            # exactly the same call again
            op = dict(rng.choice(ops))
            op.pop("keep", None)
        ops.append(op)
    cp = rng.random() < 0.4 and sc["model"]["out"] not in ("samearr", "npscalar")
    if cp:
        for op in ops:
            if rng.random() < 0.6:
                op["copy"] = True
    for op in ops:
        if rng.random() < 0.2 and op["op"] != "data":
            op["keep"] = True
    if rng.random() < 0.4:
        # the run is continued between plots, by as many steps or another number
        for _ in range(rng.randint(1, 2)):
            ops.insert(rng.randint(1, len(ops)), {
                "op": "continue", "n": rng.choice([sc["nrun"], sc["nrun"], rng.randint(2, 9)]),
                "rs": rng.randrange(2**31), "save": cp and rng.random() < 0.8})
    return {"sc": sc, "ops": ops, "copy": cp, "sched": {"seed": rng.randrange(2**31)}}


def subject(plan, tmp):
    import matplotlib

    matplotlib.use("Agg")
    p = P.Post(plan["sc"], plan["sched"], tmp)
    if plan["copy"]:
        p.save()
    # every plot alone in a process that made no other plot
    w = forked(alone, (p, plan["ops"]), 140.0)
    if w[0] != "ok":
        raise RuntimeError("reference plots failed %r" % (w,))
    snaps, obs = [M.snapshot(p.s)], []
    copies = [snaps[0]]
    for op in plan["ops"]:
        if op["op"] == "continue":
            p.go_on(op)
            snaps.append(M.snapshot(p.s))
            copies.append(snaps[-1] if op["save"] else copies[-1])
            obs.append(None)
        else:
            obs.append(p.perform(op))
    return {"refs": w[1], "obs": obs, "snaps": snaps, "copies": copies, "stats": dict(P.SIM.stats)}


def alone(p, ops):
    refs = []
    for op in ops:
        if op["op"] == "continue":
            p.go_on(op)
            refs.append(None)
        else:
            refs.append(forked(p.perform, (dict(op, keep=False),), 60.0))
    return refs


def desc(k, op):
    return "call %d: %s %s%s" % (k, op["op"], op.get("kw"), " on a copy read back" if op.get("copy") else "")


def execute(plan, ctx):
    r = ctx.fork(subject, plan, ctx.tmpdir(), timeout=150)
    ctx.merge(r["stats"])
    sc = plan["sc"]
    part, exps = 0, {}
    prev = None
    for k, (op, ref, o) in enumerate(zip(plan["ops"], r["refs"], r["obs"])):
        if op["op"] == "continue":
            part += 1
            ctx.count("continued")
            ctx.log(k, "continue", r["snaps"][part]["chain"].tolist())
            prev = "continue"
            continue
        ctx.evals += 1
        key = (op["op"], sorted(op["kw"]), bool(op.get("copy")), op.get("figure"))
        ctx.state(prev, key)
        prev = key
        if ref[0] != "ok":
            raise Violation("plot-does-not-return", "%s: alone in a new process: %s" % (desc(k, op), ref[:3]))
        ref = ref[1]
        ctx.log(k, o["exc"], P.freeze(o["fig"]) if "fig" in o else None)
        if o["exc"] != ref["exc"]:
            raise Violation("depends-on-history", "%s: %s after the other calls, %s alone" % (desc(k, op), o["exc"], ref["exc"]))
        if o["exc"]:
            ctx.count("calls_raising")
            ctx.count("raised_%s_%s" % (op["op"], o["exc"][0]))
            if expected_error(op, sc, o["exc"]):
                continue
            raise Violation("plot-fails", "%s: %s" % (desc(k, op), o["exc"]))
        d = P.diff(ref.get("fig"), o.get("fig"), "figure")
        if d:
            raise Violation("depends-on-history", "%s: differs from the same call made alone: %s" % (desc(k, op), d))
        if o.get("samefig") is False:
            raise Violation("other-figure", "%s: not drawn on the given figure" % desc(k, op))
        if o["otherfigs"]:
            raise Violation("other-figure-changed", "%s: %s" % (desc(k, op), o["otherfigs"]))
        ek = (bool(op.get("copy")), part)
        if ek not in exps:
            exps[ek] = plotcheck.Expect(sc, r["copies" if o["copy"] else "snaps"][part], ctx, sc["shared"])
        d = exps[ek].check(op, o)
        if d:
            raise Violation("wrong-drawing", "%s: %s" % (desc(k, op), d))


def expected_error(op, sc, exc):
    kw = op["kw"]
    if op["op"] in ("fit", "blob") and (kw.get("plotdata") or kw.get("plotresiduals")) \
            and exc[0] in ("UnitConversionError", "UnitsError", "UnitTypeError"):
        # data and model asked to be drawn together but not comparable
        return True
    return False


def shrink(plan):
    for k, op in enumerate(plan["ops"]):
        for a in list(op.get("kw", ())):
            if a in ("modelidx", "blobidx"):
                continue
            nk = {x: v for x, v in op["kw"].items() if x != a}
            yield dict(plan, ops=plan["ops"][:k] + [dict(op, kw=nk)] + plan["ops"][k + 1:])
    if plan["copy"] and not any(o.get("copy") for o in plan["ops"]):
        yield dict(plan, copy=False)
    yield from M.shrink_scenario(plan)
