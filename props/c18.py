"""C18: curves and tables computed in worker pools match serial evaluation"""
import os

import numpy as np
from astropy import units as u

from simlib import mcmcsim as M
from simlib import plotcheck, plotsim as P
from simlib.engine import Violation, forked
from simlib.simpool import SIM

ID = "C18"
RUNS = {"quick": 130, "thorough": 5000}
RULE = (
    "fits plotted on requested energy ranges (samples and confidence bands) and pion-decay lookup tables generated on "
    "small grids, each under two pool schedules (worker count, chunking, assignment, completion order, core count) and "
    "with a failure of one worker task, of one model evaluation or of the waiting process; drawn curves and stored tables "
    "are compared between schedules, with the model evaluated point by point in a pristine process, and after a failure "
    "nothing may be drawn or stored; a case is one call; distinct counts (call, schedule shape, fault, outcome)"
)
REAL = ["naima.plot, naima.radiative.generate_lut_pp", "matplotlib (Agg)", "numpy.savez on a real scratch directory"]
STUB = ["multiprocessing.Pool: forked workers driven in lock-step by a seeded scheduler", "user model and prior functions", "os.cpu_count in some runs"]
ASSUMPTIONS = ["1e-7 relative tolerance on drawn numbers", "every table entry equals PionDecay's own cross section at that pair of energies"]
HI = ["Geant4", "Pythia8", "SIBYLL", "QGSJET"]


def prepare():
    P.warm()


def g_sched(rng):
    return {"seed": rng.randrange(2**31), "chunking": rng.choice(["random", "random", "real"]),
            "cpu": rng.choice(["real", 1, 2, 3, 7])}


def generate(rng, i, tier):
    sc = P.g_run(rng)
    if rng.random() < 0.3:
        sc = P.g_run(rng, kinds_rad=True)
    sc["shared"] = {}
    sc["nburn"] = 0
    sc["nrun"] = rng.randint(1, 4)
    ops = []
    if rng.random() < 0.3:
        n = rng.randint(1, 4)
        op = {"op": "lut", "out": "lut_", "Ep": sorted(10 ** rng.uniform(0.09, 6) for _ in range(n)), "epunit": "GeV",
              "Eg": sorted(10 ** rng.uniform(-3, 2) for _ in range(rng.randint(2, 5))), "egunit": "TeV", "kw": {}}
        if rng.random() < 0.2:
            op["Eg"].reverse()
        if rng.random() < 0.3:
            op["Ep"], op["epunit"] = [x / 1000 for x in op["Ep"]], "TeV"
        h = rng.choice([None, "str", "list"])
        if h == "str":
            op["kw"]["hiEmodel"] = rng.choice(HI)
        elif h == "list":
            op["kw"]["hiEmodel"] = rng.sample(HI, rng.randint(1, 3))
        if rng.random() < 0.5:
            op["kw"]["nuclear_enhancement"] = rng.random() < 0.5
        if rng.random() < 0.5:
            op["fault"] = {"type": "eval", "at": 1 + rng.randrange(len(op["Eg"]) * 4), "exc": rng.choice(["MemoryError", "ValueError"]),
                           "where": rng.choice(["task", "task", "parent"])}
        ops.append(op)
    else:
        for _ in range(rng.choice([1, 1, 2])):
            op = P.g_plot(rng, sc, {}, ["fit", "fit", "blob"])
            kw = op["kw"]
            for a in ("errorbar_opts", "ulim_opts", "plotdata", "plotresiduals"):
                kw.pop(a, None)
            op["op"] = "fit"
            kw["modelidx"] = rng.choice(P.spectral(sc)[0])
            kw.pop("blobidx", None)
            kw["e_range"] = rng.choice([{"q": [[0.05, 60], "TeV"]}, {"ql": [[50, "GeV"], [80, "TeV"]]}, {"q": [[2, 3], "TeV"]}])
            kw["e_npoints"] = rng.choice([3, 7])
            kw["threads"] = rng.choice([None, 1, 2, 3, 6])
            kw["plotdata"] = False
            kw.pop("confs", None)
            if rng.random() < 0.35:
                kw["confs"] = {"lit": rng.choice([[3, 1], [2]])}
                kw.pop("n_samples", None)
            else:
                kw["n_samples"] = rng.choice([1, 2, 5, 12])
                if rng.random() < 0.06 and sc["model"]["kind"] not in M.RAD_P0:
                    # as many as asked for, or by default
                    kw["n_samples"] = rng.choice([75, 130, 260])
                    kw["e_npoints"] = rng.choice([7, 40, 100])
                    if rng.random() < 0.4:
                        kw.pop("n_samples")
            op.pop("figure", None)
            if rng.random() < 0.4:
                # 100 models or fewer are computed, whatever is drawn of them
                n = rng.choice([3, 12, 45, 100, 100])
                op["fault"] = {"type": "eval", "at": rng.randint(1, n + 1), "exc": rng.choice(
                    ["ValueError", "RuntimeError", "MemoryError", "ZeroDivisionError", "OSError"]),
                    "where": rng.choice(["model", "model", "task", "parent"])}
                if op["fault"]["where"] == "parent":
                    op["fault"]["exc"] = "KeyboardInterrupt"
            ops.append(op)
    return {"sc": sc, "ops": ops, "sched": g_sched(rng), "sched2": g_sched(rng), "old": rng.random() < 0.5}


def load(folder):
    res = {}
    for n in sorted(os.listdir(folder)):
        p = os.path.join(folder, n)
        if os.path.isdir(p):
            continue
        try:
            if open(p, "rb").read() == b"previous":
                res[n] = "previous"
                continue
            with np.load(p) as z:
                res[n] = {k: np.array(z[k]) for k in z.files}
        except Exception as e:
            res[n] = "unreadable %r" % e
    return res


def lut_names(op):
    h = op["kw"].get("hiEmodel")
    h = HI if h is None else [h] if isinstance(h, str) else h
    nuc = op["kw"].get("nuclear_enhancement", True)
    return [(m, op["out"] + ("NucEnh_" if nuc else "") + m + ".npz", nuc) for m in h]


def subject(plan, sched, tmp):
    import matplotlib

    matplotlib.use("Agg")
    p = P.Post(plan["sc"], sched, tmp)
    res = []
    for k, op in enumerate(plan["ops"]):
        p.tmp = os.path.join(tmp, "o%d" % k)
        os.makedirs(p.tmp, exist_ok=True)
        if op["op"] == "lut" and plan["old"]:
            for _, n, _ in lut_names(op):
                open(os.path.join(p.tmp, n), "wb").write(b"previous")
        o = p.perform(op)
        o["files"] = load(p.tmp)
        res.append(o)
    return {"obs": res, "snap": M.snapshot(p.s), "stats": dict(SIM.stats), "log": list(SIM.log)}


def lut_ref(model, nuc, Ep, epunit, Eg, egunit):
    """The cross section at every pair of energies, one at a time"""
    from naima.radiative import PionDecay
    from naima.models import PowerLaw

    if not hasattr(PionDecay, "_diffsigma"):
        return None
    out = np.zeros((len(Ep), len(Eg)))
    for j, eg in enumerate(u.Quantity(Eg, egunit).to("GeV").value):
        for i, ep in enumerate(u.Quantity(Ep, epunit).to("GeV").value):
            pp = PionDecay(PowerLaw(1 / u.eV, 1 * u.TeV, 0.0), hiEmodel=model, nuclear_enhancement=nuc)
            out[i, j] = pp._diffsigma(np.array([ep]), eg)[0]
    return out


def check_lut(op, ctx, o, lab):
    for m, n, nuc in lut_names(op):
        f = o["files"].get(n)
        if not isinstance(f, dict):
            raise Violation("table-not-written", "%s: %s: %s" % (lab, n, f))
        ref = ctx.reference(lut_ref, m, nuc, op["Ep"], op["epunit"], op["Eg"], op["egunit"])
        if ref[0] != "ok":
            raise RuntimeError("reference failed: %r" % (ref,))
        ok = len(f) == 3 and plotcheck.eqv(f["X"], np.log10(u.Quantity(op["Ep"], op["epunit"]).to("GeV").value), 1e-9) \
            and plotcheck.eqv(f["Y"], np.log10(u.Quantity(op["Eg"], op["egunit"]).to("GeV").value), 1e-9)
        if not ok:
            raise Violation("wrong-table", "%s: %s: grids %s" % (lab, n, {k: v.tolist() for k, v in f.items() if k != "lut"}))
        if ref[1] is None:
            continue
        got = np.nan_to_num(10.0 ** f["lut"], nan=0)
        want = np.where(ref[1] > 0, ref[1], 0)
        if got.shape != want.shape or not np.allclose(got, want, rtol=1e-7, atol=0):
            raise Violation("wrong-table", "%s: %s: stored %s, cross sections %s" % (lab, n, got.tolist(), want.tolist()))


def execute(plan, ctx):
    tmp = ctx.tmpdir()
    a = ctx.fork(subject, plan, plan["sched"], os.path.join(tmp, "a"), timeout=150)
    clean = dict(plan, ops=[{k: v for k, v in op.items() if k != "fault"} for op in plan["ops"]])
    b = ctx.fork(subject, clean, plan["sched2"], os.path.join(tmp, "b"), timeout=150)
    ctx.merge(a["stats"])
    ctx.merge(b["stats"])
    exp = plotcheck.Expect(plan["sc"], b["snap"], ctx, {})
    for k, (op, oa, ob) in enumerate(zip(plan["ops"], a["obs"], b["obs"])):
        ctx.evals += 2
        f = op.get("fault")
        lab = "call %d: %s %s" % (k, op["op"], op["kw"])
        ctx.state(op["op"], op["kw"].get("threads"), plan["sched"]["chunking"], plan["sched"]["cpu"], f and f["where"], f and f["exc"],
                  oa["exc"] and oa["exc"][0], op["kw"].get("n_samples"), len([x for x in a["log"] if x[0] == "chunk"]))
        ctx.log(k, oa["exc"], ob["exc"], a["log"][:50])
        # undisturbed, second schedule
        if ob["exc"]:
            raise Violation("unexpected-exception-" + ob["exc"][0], "%s: %s" % (lab, ob["exc"]))
        if op["op"] == "lut":
            check_lut(op, ctx, ob, lab)
        else:
            d = exp.check(op, ob)
            if d:
                raise Violation("wrong-curve", "%s: %s" % (lab, d))
        if not (f and oa["fired"]):
            if f:
                ctx.count("not_reached")
            if oa["exc"]:
                raise Violation("unexpected-exception-" + oa["exc"][0], "%s: %s" % (lab, oa["exc"]))
            d = P.diff(ob.get("fig"), oa.get("fig"), "figure") or P.diff(ob["files"], oa["files"], "files")
            if d:
                raise Violation("schedule-dependent", "%s: under schedules %s and %s: %s" % (lab, plan["sched2"], plan["sched"], d))
            continue
        ctx.count("reached")
        lab += ", fault %s" % f
        if oa["exc"] is None:
            raise Violation("failure-hidden", lab + ": the call returned normally")
        if oa["exc"][0] != f["exc"]:
            raise Violation("other-exception", "%s: %s" % (lab, oa["exc"]))
        if op["op"] == "lut":
            for m, n, nuc in lut_names(op):
                g = oa["files"].get(n)
                if g is None or isinstance(g, str) and g == "previous":
                    continue
                if P.diff(ob["files"][n], g, n):
                    raise Violation("wrong-table-stored", "%s: %s" % (lab, P.diff(ob["files"][n], g, n)))
                # an earlier table of the same call
            ctx.state("lut-fault", sum(isinstance(g, dict) for g in oa["files"].values()))


def shrink(plan):
    for k, op in enumerate(plan["ops"]):
        for a in list(op["kw"]):
            if a in ("modelidx", "e_range", "plotdata", "n_samples"):
                continue
            yield dict(plan, ops=plan["ops"][:k] + [dict(op, kw={x: v for x, v in op["kw"].items() if x != a})] + plan["ops"][k + 1:])
        if op["kw"].get("n_samples", 0) and op["kw"]["n_samples"] > 1:
            yield dict(plan, ops=plan["ops"][:k] + [dict(op, kw=dict(op["kw"], n_samples=1))] + plan["ops"][k + 1:])
    for s in ("sched", "sched2"):
        if plan[s]["cpu"] != "real":
            yield dict(plan, **{s: dict(plan[s], cpu="real")})
    yield from M.shrink_scenario(plan)
