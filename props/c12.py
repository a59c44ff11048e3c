"""C12: calls never modify what the caller passed in, and repeat identically"""
import copy
import os

import numpy as np
from astropy import units as u

from simlib import mcmcsim as M
from simlib import plotsim as P
from simlib.engine import Violation, forked
from simlib.simpool import SIM

ID = "C12"
RUNS = {"quick": 90, "thorough": 6000}
RULE = (
    "sequences of 3-7 calls (sampler creation, runs, prefits, interactive fits, plots, diagnostic plots, tables, saves, "
    "data validation) that all share the caller's argument objects - tables, initial positions and labels as list, tuple "
    "or array, option dictionaries and lists, one sampler - some of them failing; every argument object is compared with "
    "its contents before the call, and every call with the same call made first in a pristine process and with its own "
    "repetition; a case is one call; distinct counts (call, options, previous call, outcome)"
)
REAL = ["naima.core, naima.plot, naima.analysis, naima.model_fitter, naima.utils", "emcee", "matplotlib (Agg)", "corner", "astropy", "h5py"]
STUB = ["multiprocessing.Pool: forked workers driven in lock-step by a seeded scheduler", "user model and prior functions", "plt.show (Agg: returns at once)"]
ASSUMPTIONS = ["a continued run (sampler and position passed back) extends the passed sampler by design and is excluded",
               "option dictionaries that plot_corner hands through to corner.corner (hist_kwargs), which changes them itself, are excluded"]


def prepare():
    P.warm()
    import naima

    naima.InteractiveModelFitter  # noqa


class World(P.Post):
    def __init__(self, sc, sched, tmp):
        super().__init__(sc, sched, tmp)
        sh = self.shared
        p0 = [float(p) for p in sc["p0"]]
        sh["p0"] = {"list": list, "tuple": tuple, "array": np.array}[sc["p0form"]](p0)
        lab = sc["labels"]
        sh["labels"] = None if lab is None else {"list": list, "tuple": tuple, "array": np.array}[sc["labform"]](lab)
        sh["data"] = M.make_data(sc)
        sh["tables"] = list(sh["data"]) if isinstance(sh["data"], list) else [sh["data"]]
        k = u.Quantity(np.array([3.1, 1.2, 0.7, 9.0, 4.4, 2.0, 5.5]), "TeV")
        sh["samples_q"], sh["samples_a"], sh["samples_l"] = k, k.value * 1e-9, [float(x) for x in k.value]
        sh["edge_energies"] = u.Quantity(np.array([0.3, 1.2, 2.7, 9.0, 0.1, 0.2]), "TeV")
        sh["edge_groups"] = np.array([0, 0, 0, 0, 1, 1])
        sh["spec_x"] = np.logspace(0, 3, 12)
        sh["spec_y"] = sh["spec_x"] ** -2.2 * (sh["spec_x"] > 3)
        t0 = sh["tables"][0]
        sh["columns"] = {c: u.Quantity(t0[c]) for c in t0.colnames if c in ("energy", "flux", "flux_error", "flux_error_lo", "flux_error_hi")}
        sh["columns"]["ul"] = [False] * (len(t0) - 1) + [True]
        from naima.utils import validate_data_table

        v = validate_data_table(M.make_data(sc))
        sh["datadict"] = {c: v[c] for c in v.colnames if c != "group"}
        npar = len(p0)
        sh["corner_labels"] = ["parameter %d" % i for i in range(npar)]
        sh["corner_truths"] = [p * 1.01 for p in p0]
        sh["corner_quantiles"] = [0.84, 0.5]
        sh["corner_range"] = [0.9] * npar
        sh["model"] = self.model
        sh["prior"] = self.prior
        self.sched = sched

    def call(self, op, s, kw):
        n, k = self.naima, op["op"]
        if k in ("get", "getrun"):
            kw = dict(kw)
            if k == "get":
                s2, pos = n.get_sampler(**kw)
            else:
                s2, pos = n.run_sampler(**kw)
            d = P.sampler_print(s2) if s2.iteration else {"info": P.freeze(dict(s2.run_info)), "labels": list(s2.labels)}
            d["pos"] = P.freeze(np.array(pos.coords if hasattr(pos, "coords") else pos))
            if kw.get("threads", 1) != 1:
                for p in SIM.live_pools():
                    p.terminate()
            return d
        if k == "fitter":
            f = n.InteractiveModelFitter(**kw)
            if op.get("move") is not None:
                for sl, fr in zip(f.parsliders, op["move"]):
                    sl.set_val(sl.valmin + fr * (sl.valmax - sl.valmin))
            if op.get("fit") and kw.get("data") is not None:
                f.do_fit(None)
            d = {"pars": [float(p) for p in f.pars], "ml": bool(f.P0_IS_ML), "fig": P.freeze(P.extract(f.fig)),
                 "labels": [sl.label.get_text() for sl in f.parsliders]}
            f.close_fig(None)
            return d
        if k == "validate":
            from naima.utils import validate_data_table

            return validate_data_table(kw["data"], sed=kw.get("sed"))
        if k == "estimate":
            t = self.shared["tables"]
            return n.estimate_B(t[0], t[-1])
        if k == "dist":
            return n.plot.plot_distribution(label="a label", **kw)
        if k == "edges":
            from naima.utils import generate_energy_edges

            return generate_energy_edges(self.shared["edge_energies"], **kw)
        if k == "trapz":
            from naima.utils import trapz_loglog

            return trapz_loglog(self.shared["spec_y"], self.shared["spec_x"], **kw)
        if k == "build":
            return n.build_data_table(cl=0.95, **self.shared["columns"])
        if k == "dictdata":
            return n.plot_data(self.shared["datadict"], **kw)
        return super().call(op, s, kw)


def g_op(rng, sc):
    k = rng.choice(["get", "get", "getrun", "fitter", "fitter", "validate", "estimate", "diag", "table", "save", "plot", "plot", "plot",
                    "dist", "util", "dictdata", "corner"])
    sh = sc["shared"]
    if k == "plot":
        op = P.g_plot(rng, sc, sh)
        kw = op["kw"]
        if "e_range" in kw:
            kw["e_range"] = {"shared": "erange"}
        return op
    if k == "util":
        k = rng.choice(["edges", "trapz", "build"])
    op = {"op": k, "rs": rng.randrange(2**31), "kw": {}}
    kw = op["kw"]
    if k == "dist":
        kw["samples"] = {"shared": rng.choice(["samples_q", "samples_a", "samples_l"])}
        if rng.random() < 0.3:
            op["figure"] = rng.choice(["current", "not-current"])
    elif k == "edges":
        if rng.random() < 0.6:
            kw["groups"] = {"shared": "edge_groups"}
    elif k == "trapz":
        if rng.random() < 0.5:
            kw["intervals"] = True
    elif k == "dictdata":
        if rng.random() < 0.5:
            kw["sed"] = rng.random() < 0.5
        if rng.random() < 0.4:
            kw["e_unit"] = {"unit": rng.choice(["eV", "GeV"])}
        for a in ("errorbar_opts", "ulim_opts"):
            if rng.random() < 0.5:
                kw[a] = {"shared": a}
    elif k == "corner":
        kw["show_ML"] = rng.random() < 0.6
        for a, b in (("labels", "labels"), ("truths", "truths"), ("quantiles", "quantiles"), ("range", "range")):
            if rng.random() < 0.4:
                kw[a] = {"shared": "corner_" + b}
    if k in ("get", "getrun"):
        for a in ("p0", "model", "labels"):
            kw[a] = {"shared": a}
        kw["data_table"] = {"shared": "data"}
        if rng.random() < 0.8:
            kw["prior"] = {"shared": "prior"}
        kw["nwalkers"] = sc["nwalkers"]
        kw["nburn"] = rng.choice([0, 1, 2])
        kw["guess"] = rng.random() < 0.7
        kw["threads"] = rng.choice([1, 1, 1, 2])
        if rng.random() < 0.25:
            kw["prefit"] = True
        if rng.random() < 0.25:
            kw["interactive"] = True
        if rng.random() < 0.3:
            kw["data_sed"] = rng.random() < 0.5
        if k == "getrun":
            kw["nrun"] = rng.randint(1, 3)
        if rng.random() < 0.15:
            op["fault"] = {"type": "eval", "at": rng.randint(1, 40), "exc": rng.choice(["ValueError", "KeyboardInterrupt"]),
                           "where": rng.choice(["model", "prior"])}
    elif k == "fitter":
        kw.update(modelfn={"shared": "model"}, p0={"shared": "p0"}, labels={"shared": "labels"})
        if rng.random() < 0.8:
            kw["data"] = {"shared": "data"}
        if rng.random() < 0.3:
            kw["e_range"] = {"shared": "erange"}
            kw["e_npoints"] = 7
        if rng.random() < 0.3:
            kw["sed"] = rng.random() < 0.5
        if rng.random() < 0.3:
            kw["auto_update"] = rng.random() < 0.5
        if rng.random() < 0.4:
            op["move"] = [rng.random() for _ in sc["p0"]]
        if rng.random() < 0.3:
            op["fit"] = True
    elif k == "validate":
        kw["data"] = {"shared": "data"}
        if rng.random() < 0.5:
            kw["sed"] = rng.random() < 0.5
    elif k == "diag":
        op["out"] = "d"
        kw["dpi"] = 20
        kw["pdf"] = rng.random() < 0.3
        if rng.random() < 0.6:
            kw["blob_labels"] = {"shared": "blob_labels"}
        if rng.random() < 0.6:
            kw["modelidxs"] = {"shared": "modelidxs"}
            if rng.random() < 0.5:
                kw["sed"] = {"shared": "sedlist"}
        if rng.random() < 0.3:
            op["fault"] = {"type": "fig", "prim": rng.choice(["savefig", "hist", "corner"]), "at": rng.randint(1, 3), "exc": "KeyboardInterrupt"}
    elif k == "table":
        op["out"] = "t"
        kw["overwrite"] = True
        if rng.random() < 0.5:
            kw["last_step"] = True
        if rng.random() < 0.4:
            kw["format"] = rng.choice(["ascii.ipac", "ascii.ecsv"])
        if rng.random() < 0.3:
            kw["convert_log"] = False
    elif k == "save":
        op["out"] = "s.h5"
        kw["clobber"] = True
        if rng.random() < 0.3:
            kw["compression"] = rng.random() < 0.5
    return op


def generate(rng, i, tier):
    sc = P.g_run(rng)
    sc["p0form"] = rng.choice(["list", "tuple", "array"])
    sc["labform"] = rng.choice(["list", "tuple", "array"] if rng.random() < 0.5 else ["list"])
    spec, scal = P.spectral(sc)
    sc["shared"] = dict(P.g_shared(rng), blob_labels={"lit": ["one"] * rng.randint(0, 1)},
                        modelidxs={"lit": rng.sample(spec + scal, rng.randint(1, len(spec + scal)))})
    sc["shared"]["sedlist"] = {"lit": [rng.random() < 0.5 for _ in sc["shared"]["modelidxs"]["lit"]]}
    sc["shared"].pop("labels")
    if rng.random() < 0.5:
        sc["shared"]["erange"] = rng.choice([
            {"ql": [[200, "GeV"], [30, "TeV"]]}, {"q": [[1e8, 3e14], "eV"]}, {"q": [[2e-6, 50], "TeV"]}, {"q": [[30, 0.2], "TeV"]},
            {"qf": [[300, 40000], "GeV"]}])
    ops = []
    for _ in range(rng.randint(2, 5)):
        ops.append(g_op(rng, sc))
    for _ in range(rng.randint(1, 2)):
        # the same call again
        ops.insert(rng.randint(1, len(ops)), copy.deepcopy(rng.choice(ops)))
    return {"sc": sc, "ops": ops, "sched": {"seed": rng.randrange(2**31)}}


def subject(plan, tmp):
    import matplotlib

    matplotlib.use("Agg")
    p = World(plan["sc"], plan["sched"], tmp)
    refs = []
    for k, op in enumerate(plan["ops"]):
        refs.append(forked(alone, (p, op, os.path.join(tmp, "ref%d" % k)), 90.0))
    obs = []
    base = P.freeze(p.shared)
    for op in plan["ops"]:
        o = p.perform(op)
        obs.append(slim(o))
    return {"refs": refs, "obs": obs, "all": P.diff(base, P.freeze(p.shared), "shared", 0), "stats": dict(SIM.stats)}


def alone(p, op, tmp):
    os.makedirs(tmp)
    p.tmp = tmp
    return slim(p.perform(op))


def slim(o):
    return {k: o.get(k) for k in ("exc", "fired", "args", "sampler", "input", "val", "fig", "evals")}


def execute(plan, ctx):
    r = ctx.fork(subject, plan, ctx.tmpdir(), timeout=400)
    ctx.merge(r["stats"])
    prev = None
    for k, (op, ref, o) in enumerate(zip(plan["ops"], r["refs"], r["obs"])):
        ctx.evals += 1
        f = op.get("fault")
        lab = "call %d: %s %s%s" % (k, op["op"], op["kw"], ", fault %s" % f if f and o["fired"] else "")
        key = (op["op"], sorted(op["kw"]), plan["sc"]["p0form"], plan["sc"]["labform"])
        ctx.state(prev and prev[0], key, o["exc"] and o["exc"][0])
        prev = key
        ctx.log(k, o["exc"], P.freeze(o.get("val")), o["evals"])
        ctx.count("calls_" + op["op"])
        if o["exc"]:
            ctx.count("raised_%s_%s" % (op["op"], o["exc"][0]))
        for what in ("args", "sampler", "input"):
            if o[what]:
                raise Violation("argument-modified", "%s%s: %s" % (lab, " (raised %s)" % o["exc"][0] if o["exc"] else "", o[what]))
        if ref[0] != "ok":
            raise Violation("no-result", "%s: alone: %s" % (lab, ref[:3]))
        ref = ref[1]
        if o["exc"] and not o["fired"] and not known_error(op, o["exc"]):
            raise Violation("call-fails", "%s: %s" % (lab, o["exc"]))
        if (o["exc"] and o["exc"][0]) != (ref["exc"] and ref["exc"][0]):
            raise Violation("not-repeatable", "%s: %s, alone %s" % (lab, o["exc"], ref["exc"]))
        d = P.diff(ref["val"], o["val"], "result", 0) or P.diff(ref["fig"], o["fig"], "figure")
        if d:
            raise Violation("not-repeatable", "%s: differs from the same call made first: %s" % (lab, d))
    if r["all"]:
        raise Violation("argument-modified", "after all calls: " + r["all"])


def known_error(op, exc):
    kw = op["kw"]
    return op["op"] in ("fit", "blob") and (kw.get("plotdata") or kw.get("plotresiduals")) \
        and exc[0] in ("UnitConversionError", "UnitsError", "UnitTypeError")


def shrink(plan):
    for k, op in enumerate(plan["ops"]):
        for a in list(op["kw"]):
            if a in ("modelidx", "blobidx", "samples", "p0", "model", "modelfn", "data_table", "overwrite", "clobber", "nwalkers", "threads", "dpi", "nburn"):
                continue
            yield dict(plan, ops=plan["ops"][:k] + [dict(op, kw={x: v for x, v in op["kw"].items() if x != a})] + plan["ops"][k + 1:])
        if op.get("fault"):
            yield dict(plan, ops=plan["ops"][:k] + [{x: v for x, v in op.items() if x != "fault"}] + plan["ops"][k + 1:])
    yield from M.shrink_scenario(plan)
