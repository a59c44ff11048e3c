"""C13: a saved run reads back as the same run"""
import os
import sys
import warnings
from pathlib import Path

import numpy as np

from simlib import mcmcsim as M
from simlib import plotsim as P
from simlib import runio
from simlib.engine import Violation, forked
from simlib.simpool import SIM

ID = "C13"
RUNS = {"quick": 150, "thorough": 8000}
RULE = (
    "histories of 4-10 operations on one sampling run: save (any source, path form, compression, permission to overwrite), "
    "read in the same or in a new process, saving what was read, continuing the run (also with a failure in between), "
    "statistics tables; the files are modelled by a dictionary path -> run, every read is compared field by field with the "
    "run the model holds for that path, its tables with those of the original; a case is one operation; distinct counts "
    "(operation, source generation, kinds of model outputs, state of the file, outcome)"
)
REAL = ["naima.analysis save_run/read_run/save_results_table, naima.core", "emcee", "h5py and HDF5", "astropy", "the file system (scratch directory)"]
STUB = ["multiprocessing.Pool: forked workers driven in lock-step by a seeded scheduler", "user model and prior functions"]
ASSUMPTIONS = [
    "storable outputs are those in the documented formats: numbers, Quantities of one size, lists/tuples of arrays of one size",
    "a plain number may come back as dimensionless Quantity; extra run information entries of a copy are ignored",
]
NAMES = ["a.h5", "b.hdf5", "sub/c.h5", "d é 2.h5"]


def generate(rng, i, tier):
    sc = P.g_run(rng)
    sc["nwalkers"] = rng.choice([2 * len(sc["p0"]) + 2, 8, 9])
    sc["nrun"] = rng.randint(1, 5)
    if rng.random() < 0.07:
        M.enlarge(rng, sc)
    if rng.random() < 0.6:
        items = rng.choices(list(M.ITEMS), k=rng.randint(1, 5))
        sc["model"]["out"] = {"items": items, "list": rng.random() < 0.4}
    if rng.random() < 0.15:
        M.exotic_units(rng, sc)
    if rng.random() < 0.15:
        sc["labels"] = ["Γ index", "a 'quoted' name", "log(x/eV)"][: len(sc["p0"])]
    if rng.random() < 0.2:
        sc["threads"] = rng.choice([2, 3])
    ops = []
    nsrc = 1
    for _ in range(rng.randint(4, 10)):
        k = rng.choice(["save", "save", "save", "read", "read", "read", "run", "table"])
        if not any(o["op"] == "save" for o in ops):
            k = rng.choice(["save", "save", "run", "read"])
        if k == "save":
            ops.append({"op": "save", "src": rng.randrange(nsrc), "out": rng.choice(NAMES[:2] * 2 + NAMES),
                        "clobber": rng.random() < 0.5, "compression": rng.choice([True, True, False]),
                        "form": rng.choice(["str", "path", "rel", "link"])})
            if rng.random() < 0.05:
                ops[-1]["out"] = rng.choice(["x.fits", "noext", "a.h5.gz"])
        elif k == "read":
            saved = [o["out"] for o in ops if o["op"] == "save"]
            ops.append({"op": "read", "out": rng.choice(saved * 3 + NAMES), "fresh": rng.random() < 0.4,
                        "modelfn": rng.random() < 0.3})
            nsrc += 1
        elif k == "run":
            op = {"op": "run", "n": rng.randint(1, 3)}
            if rng.random() < 0.4:
                op["fault"] = {"at": rng.randint(1, 30), "exc": rng.choice(["ValueError", "KeyboardInterrupt"]), "where": "model"}
            ops.append(op)
        else:
            ops.append({"op": "table", "src": rng.randrange(nsrc), "kw": g_tab(rng)})
    return {"sc": sc, "ops": ops, "tab": g_tab(rng)}


def g_tab(rng):
    return {"last_step": rng.random() < 0.4, "convert_log": rng.random() < 0.7, "include_blobs": rng.random() < 0.8}


def read_fresh(path, tmp, tab):
    import naima

    warnings.simplefilter("ignore")
    s = naima.read_run(path)
    return runio.run_print(s), tabs(naima, s, tmp, tab)


def tabs(naima, s, tmp, tab):
    try:
        return runio.table_print(naima, s, tmp, **tab)
    except Exception as e:
        return "%s: %s" % (type(e).__name__, e)


def subject(plan, tmp):
    import naima

    warnings.simplefilter("ignore")
    sc = plan["sc"]
    SIM.reset(sc["seed"])
    np.random.seed(sc["seed"] % 2**32)
    os.makedirs(os.path.join(tmp, "sub"))
    os.makedirs(os.path.join(tmp, "real"))
    model = M.SimModel(sc["model"])
    prior = M.SimPrior(sc["prior"]) if sc["prior"] is not None else None
    sys.stdout = M.FailingOut()
    s, pos = naima.run_sampler(
        nrun=sc["nrun"], data_table=M.make_data(sc), p0=list(sc["p0"]), model=model, prior=prior, nwalkers=sc["nwalkers"],
        nburn=sc["nburn"], guess=sc["guess"], labels=sc["labels"], threads=sc["threads"], data_sed=sc.get("data_sed"))
    out = {"print0": runio.run_print(s), "tab0": tabs(naima, s, tmp, plan["tab"]), "obs": []}
    src = [s]
    for op in plan["ops"]:
        o = {"op": op["op"], "exc": None}
        try:
            if op["op"] == "save":
                k = src[op["src"] % len(src)]
                o["src"] = op["src"] % len(src)
                if k is None:
                    o["skip"] = True
                else:
                    path = os.path.join(tmp, op["out"])
                    o["before"] = os.path.exists(path)
                    if op["form"] == "link" and not os.path.lexists(path):
                        os.symlink(os.path.join(tmp, "real", os.path.basename(op["out"])), path)
                    if op["form"] == "path":
                        path = Path(path)
                    elif op["form"] == "rel":
                        os.chdir(tmp)
                        path = op["out"]
                    try:
                        o["print"] = runio.run_print(k)
                        o["tab"] = tabs(naima, k, tmp, plan["tab"])
                    except AttributeError:
                        # nothing recorded
                        o["print"] = None
                    naima.save_run(path, k, compression=op["compression"], clobber=op["clobber"])
                    os.chdir("/")
            elif op["op"] == "read":
                path = os.path.join(tmp, op["out"])
                o["before"] = os.path.exists(path)
                src.append(None)
                o["src"] = len(src) - 1
                if op["fresh"]:
                    r = forked(read_fresh, (path, tmp, plan["tab"]), 60)
                    if r[0] == "exc":
                        o["exc"] = [r[1], r[2]]
                    elif r[0] != "ok":
                        o["exc"] = [r[0], ""]
                    else:
                        o["print"], o["tab"] = r[1]
                if o["exc"] is None:
                    k = naima.read_run(path, **({"modelfn": model} if op["modelfn"] else {}))
                    o["modelfn"] = k.modelfn is (model if op["modelfn"] else None)
                    src[-1] = k
                    if not op["fresh"]:
                        o["print"] = runio.run_print(k)
                        o["tab"] = tabs(naima, k, tmp, plan["tab"])
            elif op["op"] == "run":
                SIM.fault, SIM.fired = None, False
                if op.get("fault"):
                    SIM.fault = dict(op["fault"], at=SIM.task_no + op["fault"]["at"])
                it = s.iteration
                p = s.get_chain()[-1] if it else pos
                try:
                    naima.run_sampler(nrun=op["n"], sampler=s, pos=p)
                except (ValueError, KeyboardInterrupt) as e:
                    if "injected" not in str(e):
                        raise
                SIM.fault = None
                o["fired"] = SIM.fired
                o["steps"] = int(s.iteration)
            else:
                k = src[op["src"] % len(src)]
                if k is not None:
                    o["tab"] = tabs(naima, k, tmp, op["kw"])
        except BaseException as e:  # noqa
            os.chdir("/")
            o["exc"] = [type(e).__name__, str(e)[:300]]
        # every earlier copy stays as it was
        o["files"] = sorted(os.path.relpath(os.path.join(d, f), tmp) for d, _, fs in os.walk(tmp) for f in fs
                            if not os.path.islink(os.path.join(d, f)) and "tp_results" not in f)
        out["obs"].append(o)
    out["final"] = [None if k is None else runio.run_print(k) for k in src[1:]]
    out["stats"] = dict(SIM.stats)
    for p in SIM.live_pools():
        p.terminate()
    return out


def execute(plan, ctx):
    sc = plan["sc"]
    tmp = ctx.tmpdir()
    r = ctx.fork(subject, plan, tmp, timeout=150)
    ctx.merge(r["stats"])
    files = {}
    content = {0: (r["print0"], r["tab0"], 0)}
    kinds = sc["model"]["out"]
    kinds = tuple(sorted(set(kinds["items"]))) if isinstance(kinds, dict) else kinds
    for k, (op, o) in enumerate(zip(plan["ops"], r["obs"])):
        ctx.evals += 1
        lab = "operation %d (%s)" % (k, {a: b for a, b in op.items()})
        ctx.log(k, op["op"], o["exc"], o.get("src"), o["files"])
        if o.get("skip"):
            continue
        out = op.get("out")
        if op["op"] == "save":
            bad = not out.endswith((".h5", ".hdf5"))
            gen = content[o["src"]][2] if o["src"] in content else None
            ctx.state("save", gen, kinds, out in files, op["clobber"], o["exc"] and o["exc"][0], o["print"] is None)
            if bad:
                if not o["exc"] or o["exc"][0] != "ValueError" or o["before"] != (out in files):
                    raise Violation("bad-name-accepted", "%s: %s" % (lab, o["exc"]))
                continue
            if out in files and not op["clobber"]:
                if o["exc"]:
                    raise Violation("save-failed", "%s: %s" % (lab, o["exc"]))
                ctx.count("kept_existing")
                continue
            if o["print"] is None:
                # nothing was recorded: nothing can be saved
                if not o["exc"]:
                    raise Violation("empty-run-saved", lab)
                ctx.count("empty_run")
                continue
            if o["exc"]:
                raise Violation("save-failed", "%s: %s" % (lab, o["exc"]))
            files[out] = (o["print"], o["tab"], gen)
            ctx.count("saves")
        elif op["op"] == "read":
            ctx.state("read", kinds, out in files, op["fresh"], o["exc"] and o["exc"][0])
            if out not in files:
                if not o["exc"]:
                    raise Violation("read-of-nothing", "%s returned a run although none was saved there" % lab)
                continue
            if o["exc"]:
                raise Violation("read-failed", "%s: %s" % (lab, o["exc"]))
            want, wtab, gen = files[out]
            content[o["src"]] = (want, wtab, gen + 1)
            ctx.count("reads_gen%d" % (gen + 1))
            d = runio.compare(want, o["print"])
            if d:
                raise Violation("read-back-differs", "%s: %s" % (lab, d))
            if not o["modelfn"]:
                raise Violation("model-not-attached", lab)
            if isinstance(wtab, str) or isinstance(o["tab"], str):
                # statistics of text outputs do not exist
                if not isinstance(wtab, str):
                    raise Violation("table-differs", "%s: table of the run: %s; of the copy: %s" % (lab, M.short(wtab), M.short(o["tab"])))
            else:
                d = runio.compare_tables(wtab, o["tab"], runio.storable_indices(want))
                if d:
                    raise Violation("table-differs", "%s: statistics of the copy: %s" % (lab, d))
        elif op["op"] == "run":
            if o["exc"]:
                raise Violation("run-failed", "%s: %s" % (lab, o["exc"]))
        extra = [f for f in o["files"] if f not in files and os.path.basename(f) not in [os.path.basename(x) for x in files]]
        if extra:
            raise Violation("stray-files", "%s: %s" % (lab, extra))
    for j, p in enumerate(r["final"]):
        if p is None or j + 1 not in content:
            continue
        d = runio.compare(content[j + 1][0], p)
        if d:
            raise Violation("copy-changed", "run number %d read is different at the end of the session: %s" % (j + 1, d))


def shrink(plan):
    sc = plan["sc"]
    o = sc["model"]["out"]
    if isinstance(o, dict):
        for k in range(len(o["items"])):
            if len(o["items"]) > 1:
                yield dict(plan, sc=dict(sc, model=dict(sc["model"], out=dict(o, items=o["items"][:k] + o["items"][k + 1:]))))
    yield from M.shrink_scenario(plan)
