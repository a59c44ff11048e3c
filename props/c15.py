"""C15: the results table states the statistics of the recorded run"""
import math
import os
import sys
import warnings

import numpy as np
from astropy import units as u

from simlib import mcmcsim as M
from simlib import plotsim as P
from simlib import runio, shim
from simlib.engine import Violation
from simlib.simpool import SIM

ID = "C15"
RUNS = {"quick": 170, "thorough": 9000}
RULE = (
    "histories of 3-8 operations on one sampling run: results tables with every option and format over new and existing "
    "files, from the run or a copy read back, continuing the run, and planned failures (an error, a full disk or a "
    "short write at the n-th file operation, an exception at the n-th executed line); rows, order, labels and metadata "
    "are recomputed from the recorded samples in plain Python and compared with the returned table and, read in by "
    "another way, the file; a case is one table; distinct counts (options, kinds of outputs and labels, existing file, fault hit)"
)
REAL = ["naima.analysis save_results_table/save_run/read_run, naima.core", "emcee", "astropy tables and ascii writers", "PyYAML", "the file system (scratch directory) below the libc seam"]
STUB = ["libc file operations fail as planned (preloaded shim)", "user model and prior functions"]
ASSUMPTIONS = ["only the ecsv and ipac formats keep the run information in the file; ipac keeps it as text"]
FORMATS = ["ascii.ecsv", "ascii.ecsv", "ascii.ecsv", "ascii.ipac", "ascii", "ascii.csv", "ascii.fixed_width"]
LABELS = ["log10(norm)", "log(B)", "index", "log10(cutoff/TeV)", "a", "Γ₁ index", "x" * 80, "my log10(x)", "$\\log_{10}$ K",
          "log(E)", "norm", "catalog(2)", "B [uG]", "log10(K) ", "a, b", "two words"]


def generate(rng, i, tier):
    sc = P.g_run(rng)
    sc["nwalkers"] = rng.choice([2 * len(sc["p0"]) + 2, 8, 9])
    sc["nrun"] = rng.randint(1, 5)
    if rng.random() < 0.08:
        M.enlarge(rng, sc)
    x = rng.random()
    if x < 0.6:
        items = rng.choices(["f", "npf", "fnan", "q0", "qd", "q0v", "q1", "q1b", "int", "str", "none", "arr", "pairq", "tupf", "like", "bool"], k=rng.randint(1, 5))
        sc["model"]["out"] = {"items": items, "list": rng.random() < 0.4}
    if rng.random() < 0.6:
        labs = rng.sample(LABELS, k=len(sc["p0"]))
        sc["labels"] = labs
        # labels change which parameter get_sampler would guess
        sc["guess"] = False
    ops = []
    for _ in range(rng.randint(3, 8)):
        if rng.random() < 0.12:
            ops.append({"op": "run", "n": rng.randint(1, 3)})
            continue
        if rng.random() < 0.1:
            ops.append({"op": "copy"})
            continue
        op = {"op": "table", "out": rng.choice(["t", "u", "v w"]), "copy": rng.random() < 0.3, "kw": {}}
        kw = op["kw"]
        for k, v in (("last_step", False), ("convert_log", True), ("include_blobs", True), ("overwrite", False)):
            if rng.random() < 0.6:
                kw[k] = rng.random() < 0.5 if k != "overwrite" else rng.random() < 0.8
        if rng.random() < 0.6:
            kw["format"] = rng.choice(FORMATS)
        if rng.random() < 0.06:
            op["noyaml"] = True
        if rng.random() < 0.3:
            y = rng.random()
            if y < 0.6:
                op["fault"] = {"type": "file", "mode": rng.choice(["err", "err", "err_on", "short", "quota"]),
                               "at": rng.choice([1, 1, 2, 2, 3, 4, 6]), "quota": rng.choice([0, 10, 200, 1000, 4096]), "err": rng.choice(["EIO", "ENOSPC", "EACCES"])}
            else:
                op["fault"] = {"type": "line", "at": rng.choice([rng.randint(1, 60), rng.randint(1, 400)]), "exc": rng.choice(["KeyboardInterrupt", "MemoryError"]),
                               "files": ["naima/analysis.py"]}
        ops.append(op)
    plan = {"sc": sc, "ops": ops}
    if rng.random() < 0.3:
        # something else has the name of a table
        plan["before"] = rng.sample([a + b for a in ("t", "u", "v w") for b in ("_results.ecsv", "_results.dat")], k=3)
        plan["content"] = rng.choice(["", "", "a note\n"])
    return plan


def read_file(path, fmt):
    """Contents of the file, not read by way of naima"""
    from astropy.io import ascii as asc

    name = {"ascii.ecsv": "ecsv", "ascii.ipac": "ipac", "ascii": "basic", "ascii.csv": "csv", "ascii.fixed_width": "fixed_width"}[fmt]
    kw = {} if name in ("ecsv", "ipac") else {"converters": {"label": [asc.convert_numpy(str)]}}
    t = asc.read(path, format=name, fast_reader=False, **kw) if name != "ecsv" else asc.read(path, format=name)
    return pack_table(t)


def pack_table(t):
    rows = []
    for r in t:
        lab = r["label"]
        lab = lab.decode("utf-8") if isinstance(lab, bytes) else str(lab)
        rows.append([lab] + [float(r[c]) if not np.ma.is_masked(r[c]) else float("nan") for c in ("median", "unc_lo", "unc_hi")])
    meta = {k: v for k, v in t.meta.items() if k not in ("comments",)}
    if "keywords" in meta:
        meta.update({k: v["value"] for k, v in meta.pop("keywords").items()})
    return {"rows": rows, "cols": list(t.colnames), "meta": {k: np.asarray(v) for k, v in meta.items()}}


def subject(plan, tmp):
    import naima
    import naima.analysis

    warnings.simplefilter("ignore")
    sc = plan["sc"]
    SIM.reset(sc["seed"])
    np.random.seed(sc["seed"] % 2**32)
    sys.stdout = M.FailingOut()
    s, pos = naima.run_sampler(
        nrun=sc["nrun"], data_table=M.make_data(sc), p0=list(sc["p0"]), model=M.SimModel(sc["model"]),
        prior=M.SimPrior(sc["prior"]) if sc["prior"] is not None else None, nwalkers=sc["nwalkers"],
        nburn=sc["nburn"], guess=sc["guess"], labels=sc["labels"], threads=1, data_sed=sc.get("data_sed"))
    store = os.path.join(tmp, "store")
    os.makedirs(store)
    for name in plan.get("before", ()):
        with open(os.path.join(store, name), "w") as fh:
            fh.write(plan["content"])
    copy = None
    obs = []
    for op in plan["ops"]:
        o = {"op": op["op"], "exc": None}
        if op["op"] == "run":
            naima.run_sampler(nrun=op["n"], sampler=s, pos=s.get_chain()[-1])
        elif op["op"] == "copy":
            naima.save_run(os.path.join(tmp, "copy.h5"), s, clobber=True)
            copy = naima.read_run(os.path.join(tmp, "copy.h5"))
        else:
            k = copy if op["copy"] and copy is not None else s
            o["run"] = runio.run_print(k)
            o["ndata"] = len(k.data)
            fmt = op["kw"].get("format", "ascii.ecsv")
            if op.get("noyaml") and fmt == "ascii.ecsv":
                fmt = "ascii.ipac"
            o["fmt"] = fmt
            path = os.path.join(store, "%s_results.%s" % (op["out"], "ecsv" if fmt == "ascii.ecsv" else "dat"))
            o["existed"] = os.path.exists(path)
            before = open(path, "rb").read() if o["existed"] else None
            others = {f: open(os.path.join(store, f), "rb").read() for f in os.listdir(store) if os.path.join(store, f) != path}
            f = op.get("fault")
            lf = None
            shim.config(store)
            if f and f["type"] == "file":
                shim.arm(f["mode"], f["at"], f["err"], shim.WRITE if f["mode"] == "quota" else shim.WRITEISH & ~shim.UNLINK, f["quota"])
            elif f:
                lf = M.LineFault(f["at"], f["exc"], tuple(f["files"]))
            naima.analysis.HAS_PYYAML = not op.get("noyaml")
            try:
                if lf:
                    with lf:
                        t = naima.save_results_table(os.path.join(store, op["out"]), k, **op["kw"])
                else:
                    t = naima.save_results_table(os.path.join(store, op["out"]), k, **op["kw"])
            except BaseException as e:  # noqa
                o["exc"] = [type(e).__name__, str(e)[:300]]
                t = None
            o["fired"] = bool(lf.fired if lf else shim.fired()) if f else False
            o["short"] = bool(f and f["type"] == "file" and f["mode"] == "short")
            shim.off()
            naima.analysis.HAS_PYYAML = True
            o["exists"] = os.path.exists(path)
            o["same"] = o["exists"] and o["existed"] and open(path, "rb").read() == before
            now = {f: open(os.path.join(store, f), "rb").read() for f in os.listdir(store) if os.path.join(store, f) != path}
            o["others"] = sorted(x for x in set(now) | set(others) if now.get(x) != others.get(x))
            if t is not None:
                o["table"] = pack_table(t)
                try:
                    o["file"] = read_file(path, fmt)
                except Exception as e:
                    o["file"] = "%s: %s" % (type(e).__name__, str(e)[:200])
            o["after"] = runio.compare(o["run"], runio.run_print(k))
        obs.append(o)
    return {"obs": obs, "stats": dict(SIM.stats)}


# ------------------------------------------------------------------ oracle
def quantile(xs, q):
    xs = sorted(xs)
    if any(x != x for x in xs):
        return float("nan")
    h = (len(xs) - 1) * q / 100.0
    k = int(math.floor(h))
    if k + 1 >= len(xs) or h == k:
        return xs[k]
    if math.isinf(xs[k]) or math.isinf(xs[k + 1]):
        return xs[k] + (xs[k + 1] - xs[k]) * (h - k) if xs[k] != xs[k + 1] else xs[k]
    return xs[k] + (xs[k + 1] - xs[k]) * (h - k)


def stats(xs):
    a, b, c = (quantile(xs, q) for q in (16, 50, 84))
    return [b, b - a, c - b]


def expected(sc, run, kw):
    """[(label, stats, optional)] and metadata of the table"""
    chain = run["chain"]
    last = kw.get("last_step", False)
    samples = chain[-1] if last else chain.reshape(-1, chain.shape[-1])
    rows = []
    for k, lab in enumerate(run["labels"]):
        xs = [float(v) for v in samples[:, k]]
        rows.append((lab, stats(xs), False))
        if not kw.get("convert_log", True):
            continue
        for pre, fun in (("log10(", lambda v: 10.0**v), ("log(", math.exp)):
            if lab.startswith(pre) and lab.rstrip().endswith(")") and lab.count("(") == 1:
                rows.append((lab.rstrip()[len(pre):-1], stats([fun(v) for v in xs]), False))
                break
            if pre in lab:
                # a logarithm of some kind: converted correctly, or not at all
                name = lab.split("(")[-1].split(")")[0]
                if pre == "log10(" or lab.startswith(pre) or "log10(" not in lab:
                    rows.append((name, stats([fun(v) for v in xs]), True))
                    break
    meta = {}
    if kw.get("include_blobs", True):
        steps = run["blobs"][-1:] if last else run["blobs"]
        for k in range(len(run["blobs"][0][0])):
            vals = [w[k] for st in steps for w in st]
            if all(v[0] in ("f", "i") for v in vals):
                rows.append(("blob%d" % k, stats([float(v[1]) for v in vals]), False))
            elif all(v[0] == "q" and v[1].size == 1 for v in vals):
                # any of the units used may be stated
                rows.append(("blob%d" % k, [(float(np.ravel(v[1])[0]), v[2]) for v in vals], False))
    best = np.unravel_index(int(np.argmax(run["lnp"])), run["lnp"].shape)
    meta["n_samples"] = samples.shape[0]
    meta["ML_pars"] = run["chain"][best]
    meta["MaxLogLikelihood"] = float(run["lnp"][best])
    return rows, meta


def close(a, b, rtol):
    if a != a or b != b:
        return a != a and b != b
    return a == b or abs(a - b) <= rtol * max(abs(a), abs(b))


def match_rows(rows, got, meta, rtol=1e-9):
    """First difference"""
    i = 0
    for lab, st, optional in rows:
        g = got[i] if i < len(got) else None
        if isinstance(st, list) and st and isinstance(st[0], tuple):
            un = meta.get(lab + "_unit")
            # a table without metadata cannot say which unit; the first run's
            un = str(un) if un is not None else st[0][1]
            try:
                st = stats([v * (u.Unit(x).to(u.Unit(un)) if x != un else 1.0) for v, x in st])
            except u.UnitConversionError:
                return "row %s: unit %s" % (lab, un)
        scale = max([abs(x) for x in st if x == x and not math.isinf(x)] or [0])
        ok = g is not None and g[0].strip() == lab.strip() and all(
            close(x, y, rtol) or abs(x - y) <= rtol * scale for x, y in zip(st, g[1:]))
        if ok:
            i += 1
        elif optional and not (g is not None and g[0] == lab):
            continue
        else:
            return "row %d is %s instead of %s" % (i, g, [lab] + st)
    if i != len(got):
        return "additional row %s" % (got[i],)
    return None


def same_meta(v, w, text):
    v, w = np.asarray(v), np.asarray(w)
    if text:
        return None
    if v.dtype.kind in "fiub":
        return v.shape == w.shape and w.dtype.kind in "fiub" and all(close(float(a), float(b), 1e-12) for a, b in zip(v.ravel(), w.ravel()))
    return str(v) == str(w)


def execute(plan, ctx):
    sc = plan["sc"]
    r = ctx.fork(subject, plan, ctx.tmpdir(), timeout=120)
    ctx.merge(r["stats"])
    out = sc["model"]["out"]
    kinds = tuple(sorted(set(out["items"]))) if isinstance(out, dict) else out
    for k, (op, o) in enumerate(zip(plan["ops"], r["obs"])):
        if op["op"] != "table":
            continue
        ctx.evals += 1
        lab = "table %d %s" % (k, {a: b for a, b in op.items() if a != "op"})
        kw = op["kw"]
        f = op.get("fault")
        ctx.log(k, o["exc"], o.get("table") and o["table"]["rows"], o["fired"])
        ctx.state(sorted(kw.items()), kinds, [x for x in sc["labels"] or []], o["existed"], bool(f and o["fired"]), o["exc"] and o["exc"][0])
        if o["after"]:
            raise Violation("run-changed", "%s: %s" % (lab, o["after"]))
        if o["others"]:
            raise Violation("other-files", "%s: changed %s" % (lab, o["others"]))
        if f and o["fired"]:
            ctx.count("fault_%s_%s" % (f["type"], f.get("mode") or f["exc"]))
        if o["existed"] and not kw.get("overwrite", False):
            if not o["same"]:
                raise Violation("replaced-without-permission", "%s: the existing table was changed" % lab)
            if not o["exc"]:
                raise Violation("not-written-silently", "%s: returned normally although the existing table was kept" % lab)
            ctx.count("kept_existing")
            continue
        if o["exc"]:
            if f and o["fired"]:
                ctx.count("failure_raised")
                continue
            raise Violation("table-failed", "%s: %s" % (lab, o["exc"]))
        if f and o["fired"] and f["type"] == "line":
            raise Violation("failure-hidden", "%s returned normally" % lab)
        rows, meta = expected(sc, o["run"], kw)
        t = o["table"]
        d = match_rows(rows, t["rows"], t["meta"])
        if d:
            raise Violation("wrong-statistics", "%s: %s" % (lab, d))
        meta.update({a: b for a, b in o["run"]["info"].items() if a not in meta})
        nbest = len(o["run"]["labels"]) * math.log(o["ndata"]) - 2 * meta["MaxLogLikelihood"]
        meta["BIC"] = nbest
        for a, b in meta.items():
            if a not in t["meta"]:
                raise Violation("metadata-missing", "%s: %s" % (lab, a))
            if same_meta(b, t["meta"][a], False) is False:
                raise Violation("wrong-metadata", "%s: %s is %r instead of %r" % (lab, a, t["meta"][a], b))
        fl = o["file"]
        if isinstance(fl, str):
            raise Violation("unreadable-file", "%s: %s" % (lab, fl))
        d = match_rows([(x[0], x[1:], False) for x in t["rows"]], fl["rows"], {}, 1e-7 if o["fmt"] != "ascii.ecsv" else 1e-12)
        if d:
            raise Violation("file-differs", "%s: file: %s" % (lab, d))
        if o["fmt"] in ("ascii.ecsv", "ascii.ipac"):
            for a, b in t["meta"].items():
                if a not in fl["meta"]:
                    raise Violation("file-metadata-missing", "%s: %s" % (lab, a))
                if same_meta(b, fl["meta"][a], o["fmt"] == "ascii.ipac") is False:
                    raise Violation("file-metadata-differs", "%s: %s is %r instead of %r" % (lab, a, fl["meta"][a], b))
        ctx.count("tables_checked")


def shrink(plan):
    sc = plan["sc"]
    o = sc["model"]["out"]
    if isinstance(o, dict):
        for k in range(len(o["items"])):
            if len(o["items"]) > 1:
                yield dict(plan, sc=dict(sc, model=dict(sc["model"], out=dict(o, items=o["items"][:k] + o["items"][k + 1:]))))
    for k, op in enumerate(plan["ops"]):
        for key in list(op.get("kw", {})):
            yield dict(plan, ops=plan["ops"][:k] + [dict(op, kw={a: b for a, b in op["kw"].items() if a != key})] + plan["ops"][k + 1:])
    yield from M.shrink_scenario(plan)
