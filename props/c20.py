"""C20: Sherpa model wrappers return current results for current parameters"""
import copy
import math
import pickle

import numpy as np

from simlib.engine import Violation

ID = "C20"
RUNS = {"quick": 210, "thorough": 9000}
RULE = (
    "seeded histories over up to four wrapper instances of all classes (parameter changes by assignment, set, vectors, "
    "links, resets, refused values; evaluations on points or bins through the instance, through calc with explicit "
    "vectors, in sums and products; guesses; fits; caching on, small, off or cleared; copies and pickles; the caller "
    "writing into returned arrays and grids; interrupts at the n-th library line); every result is compared with the "
    "corresponding naima model, built directly from the parameter values in a pristine process and integrated by an "
    "independent rule, and every array returned is looked at again at the end; a case is one compared result; distinct "
    "counts (class, request form, preceding operation, cache setting)"
)
REAL = ["naima.sherpa_models, naima radiative models, sherpa models, caching, statistics and optimisers"]
STUB = ["none"]
ASSUMPTIONS = [
    "bins are consecutive, as documented in the code",
    "relative tolerance 1e-7",
    "grids are never given such that sherpa's own cache key (plain concatenation of arguments) is ambiguous",
]

COMMON = [("index", 2.1), ("ref", 60.0), ("ampl", 100.0), ("cutoff", 0.0), ("beta", 1.0)]
TAIL = [("distance", 1.0), ("verbose", 0.0)]
PARS = {
    "InverseCompton": COMMON + [("TFIR", 30.0), ("uFIR", 0.0), ("TNIR", 3000.0), ("uNIR", 0.0)] + TAIL,
    "Synchrotron": COMMON + [("B", 1.0)] + TAIL,
    "Bremsstrahlung": COMMON + [("n0", 1.0), ("weight_ee", 1.088), ("weight_ep", 1.263)] + TAIL,
    "PionDecay": COMMON + [("nH", 1.0)] + TAIL,
}
AMPL = {"InverseCompton": 1e2, "Synchrotron": 1e2, "Bremsstrahlung": 1e4, "PionDecay": 1e5}
RANGE = {"InverseCompton": (6, 10), "Synchrotron": (-2, 6), "Bremsstrahlung": (3, 10), "PionDecay": (5.5, 10)}
ATTR = {"nH": "nh"}


# ------------------------------------------------------------------ reference
def ref_flux(cls, p, E):
    """The naima model of parameters p at E (keV), in 1/(s cm2 keV)"""
    import warnings

    import astropy.units as u

    import naima

    warnings.simplefilter("ignore")
    M = naima.models
    N0, e0 = p["ampl"] * 1e30 / u.eV, p["ref"] * u.TeV
    if p["cutoff"] == 0:
        pd = M.PowerLaw(N0, e0, p["index"])
    else:
        pd = M.ExponentialCutoffPowerLaw(N0, e0, p["index"], p["cutoff"] * u.TeV, p["beta"])
    E = np.array(E, dtype=float) * 1e3 * u.eV
    if cls == "InverseCompton":
        seeds = ["CMB"]
        if p["uFIR"] > 0:
            seeds.append(["one", p["TFIR"] * u.K, p["uFIR"] * u.eV / u.cm**3])
        if p["uNIR"] > 0:
            seeds.append(["two", p["TNIR"] * u.K, p["uNIR"] * u.eV / u.cm**3])
        m = M.InverseCompton(pd, seed_photon_fields=seeds, Eemin=1e9 * u.eV, Eemax=1e14 * u.eV, Eed=100)
    elif cls == "Synchrotron":
        m = M.Synchrotron(pd, B=p["B"] * u.G)
    elif cls == "Bremsstrahlung":
        m = M.Bremsstrahlung(pd, n0=p["n0"] / u.cm**3, weight_ee=p["weight_ee"], weight_ep=p["weight_ep"])
    else:
        m = M.PionDecay(pd, nh=p["nH"] / u.cm**3)
    m._memoize = False
    f = m.flux(E, distance=p["distance"] * u.kpc)
    return np.array(f.to("1/(s cm2 eV)").value) * 1e3


def plint(x, y):
    """Integrals between neighbouring points, straight in log-log"""
    out = np.zeros(len(x) - 1)
    for k in range(len(out)):
        x1, x2, y1, y2 = float(x[k]), float(x[k + 1]), float(y[k]), float(y[k + 1])
        if y1 < 0 or y2 < 0:
            # interpolation in the lookup table, far below anything meaningful
            out[k] = math.nan
            continue
        if not (y1 > 0 and y2 > 0):
            continue
        b = math.log(y2 / y1) / math.log(x2 / x1)
        if abs(b + 1) > 1e-6:
            out[k] = y1 * x1 * math.expm1((b + 1) * math.log(x2 / x1)) / (b + 1)
        else:
            d = (b + 1) * math.log(x2 / x1)
            out[k] = y1 * x1 * math.log(x2 / x1) * (1 + d / 2)
    return out


def reference(cls, p, grid, bins):
    E = np.array(grid, dtype=float)
    f = ref_flux(cls, p, E)
    return plint(E, f) if bins else f * E


def near(a, b, rtol=1e-7):
    with np.errstate(all="ignore"):
        ok = (a == b) | np.isnan(b) | (np.abs(a - b) <= rtol * np.abs(b))
        # the library's integral drops intervals where the slope cannot be had
        ok |= (np.abs(b) < 1e-280) & (np.abs(a) < 1e-280)
    return bool(np.all(ok))


# ---------------------------------------------------------------- generation
def g_grid(rng, cls):
    lo, hi = RANGE[cls]
    a = rng.uniform(lo, hi - 1)
    b = min(hi, a + rng.uniform(0.5, 3))
    n = rng.choice([2, 3, 4, 5, 6])
    g = [float("%.8g" % 10 ** (a + (b - a) * k / (n - 1))) for k in range(n)]
    return g


def g_value(rng, cls, par, cur):
    r = rng.random()
    if par == "index":
        return round(rng.uniform(1.4, 3.2), 3) if r < 0.7 else cur + rng.choice([1e-9, 1e-12, -1e-6])
    if par == "ref":
        return rng.choice([1.0, 10.0, 60.0, 30.0])
    if par == "ampl":
        return cur * rng.choice([0.1, 2, 10, 1 + 1e-9, 1 + 1e-14]) if r < 0.8 else AMPL[cls]
    if par == "cutoff":
        return rng.choice([0.0, 0.0, 1.0, 10.0, 30.0, 100.0])
    if par == "beta":
        return rng.choice([1.0, 0.5, 2.0])
    if par == "TFIR":
        return rng.choice([20.0, 30.0, 70.0])
    if par == "TNIR":
        return rng.choice([2000.0, 3000.0, 5000.0])
    if par in ("uFIR", "uNIR"):
        return rng.choice([0.0, 0.2, 1.0, 5.0])
    if par == "B":
        return rng.choice([1e-5, 1e-3, 0.1, 1.0])
    if par in ("n0", "nH"):
        return rng.choice([0.1, 1.0, 30.0])
    if par in ("weight_ee", "weight_ep"):
        return rng.choice([0.0, 1.0, 1.263, 1.088, 2.0])
    if par == "distance":
        return rng.choice([0.5, 1.0, 2.0, 8.5])
    if par == "verbose":
        return rng.choice([0.0, 1.0])
    raise ValueError(par)


def generate(rng, i, tier):
    classes = [rng.choice(["InverseCompton", "InverseCompton", "Synchrotron", "Synchrotron", "Bremsstrahlung", "PionDecay"])]
    for _ in range(rng.choice([0, 1, 1, 2])):
        classes.append(rng.choice([classes[0], classes[0], rng.choice(list(PARS))]))
    ops = []
    cur = []
    for k, c in enumerate(classes):
        ops.append({"op": "new", "cls": c, "name": rng.choice([None, "m%d" % k, "same"])})
        cur.append((c, dict(PARS[c])))
    grids = [g_grid(rng, rng.choice(classes)) for _ in range(rng.choice([1, 2, 2, 3]))]
    if rng.random() < 0.5:
        # the same edges with one value changed, or shorter
        g = list(rng.choice(grids))
        if rng.random() < 0.5 and len(g) > 2:
            g = g[:-1]
        else:
            g[rng.randrange(len(g))] *= 1 + 1e-6
        grids.append(g)

    def ev(inst, **kw):
        o = {"op": "eval", "i": inst, "g": rng.randrange(len(grids)), "bins": rng.random() < 0.5,
             "via": rng.choice(["call", "call", "calc", "calckw"]),
             "vec": rng.choice(["list", "tuple", "array"])}
        o.update(kw)
        return o

    for k, c in enumerate(classes):
        ops.append({"op": "set", "i": k, "par": "ampl", "val": AMPL[c] * rng.choice([1, 3]), "how": "attr"})
        cur[k][1]["ampl"] = AMPL[c]
        if c == "InverseCompton" and rng.random() < 0.6:
            for par in rng.choice([["uFIR"], ["uNIR"], ["uFIR", "uNIR"]]):
                v = rng.choice([0.2, 1.0, 5.0])
                cur[k][1][par] = v
                ops.append({"op": "set", "i": k, "par": par, "val": v, "how": "attr"})
    last = None
    for _ in range(rng.randint(6, 16)):
        k = rng.randrange(len(cur))
        c, d = cur[k]
        x = rng.random()
        if x < 0.28:
            par = rng.choice([n for n, _ in PARS[c]])
            if c == "InverseCompton" and (d["uFIR"] or d["uNIR"]) and rng.random() < 0.5:
                par = rng.choice(["TFIR", "uFIR"] if d["uFIR"] else ["TNIR", "uNIR"])
            v = g_value(rng, c, par, d[par])
            d[par] = v
            ops.append({"op": "set", "i": k, "par": par, "val": v, "how": rng.choice(["attr", "set", "vec"])})
            if last is not None and rng.random() < 0.8:
                ops.append(dict(last, i=k) if c == cur[last["i"]][0] else ev(k))
        elif x < 0.55:
            last = ev(k)
            ops.append(last)
        elif x < 0.6 and last is not None:
            ops.append(dict(last, fault=None))
        elif x < 0.65:
            # explicit vector that differs from the instance's
            par = rng.choice([n for n, _ in PARS[c]])
            ops.append(ev(k, via=rng.choice(["calc", "calckw"]), alt=[par, g_value(rng, c, par, d[par])]))
        elif x < 0.70:
            ops.append({"op": "guess", "i": k, "g": rng.randrange(len(grids)), "bins": rng.random() < 0.5,
                        "scale": rng.choice([1.0, 0.01, 7.0]), "slope": rng.choice([-1.5, -0.7, -2.0])})
        elif x < 0.76:
            ops.append({"op": "cache", "i": k, "val": rng.choice([0, 1, 2, 10, "clear", "startup", "teardown"])})
        elif x < 0.81:
            ops.append({"op": "mutret", "how": rng.choice(["fill", "scale"])})
        elif x < 0.85:
            g = rng.randrange(len(grids))
            ops.append({"op": "mutgrid", "g": g, "factor": rng.choice([1.1, 0.9, 1 + 1e-6])})
            if last is not None:
                ops.append(dict(last))
        elif x < 0.89:
            ops.append(ev(k, fault={"n": rng.choice([rng.randint(1, 40), rng.randint(1, 300)]),
                                    "exc": rng.choice(["KeyboardInterrupt", "MemoryError"])}))
            if rng.random() < 0.8:
                ops.append(dict(ops[-1], fault=None))
        elif x < 0.92:
            j = rng.randrange(len(cur))
            ops.append({"op": "link", "i": k, "j": j, "par": rng.choice(["index", "ampl", "cutoff", "distance"])})
        elif x < 0.94:
            ops.append({"op": "bad", "i": k, "par": rng.choice(["index", "beta", "distance", "ampl"])})
        elif x < 0.96:
            ops.append({"op": "copy", "i": k, "how": rng.choice(["deepcopy", "pickle"])})
            cur.append((c, dict(d)))
        elif x < 0.97:
            ops.append({"op": "reset", "i": k})
        elif x < 0.99:
            ops.append({"op": "sum", "i": k, "j": rng.randrange(len(cur)), "g": rng.randrange(len(grids)),
                        "bins": rng.random() < 0.5, "mult": rng.choice([None, 2.0])})
        else:
            ops.append({"op": "fit", "i": k, "g": rng.randrange(len(grids)), "bins": rng.random() < 0.5,
                        "scale": rng.choice([1.0, 3.0]), "iters": rng.choice([8, 20])})
    ops.append(ev(rng.randrange(len(cur))))
    return {"ops": ops, "grids": grids}


# ------------------------------------------------------------------- subject
def subject(plan):
    import contextlib
    import io
    import warnings

    warnings.simplefilter("ignore")
    import naima.sherpa_models as S

    from simlib.radsim import _lineinject
    import sys

    inst, cls = [], []
    grids = [np.array(g) for g in plan["grids"]]
    held = []  # (label, array, copy at return)
    obs = []
    stats = {}

    def values(m):
        return {n: float(p.val) for (n, _), p in zip(PARS[cls[inst.index(m)]], m.pars)}

    def args(op):
        g = grids[op["g"]]
        return (g[:-1], g[1:]) if op["bins"] else (g,)

    for n, op in enumerate(plan["ops"]):
        what = op["op"]
        stats[what] = stats.get(what, 0) + 1
        if what == "new":
            C = getattr(S, op["cls"])
            inst.append(C() if op["name"] is None else C(op["name"]))
            cls.append(op["cls"])
            obs.append({"n": n, "op": op, "new": values_of(inst[-1], op["cls"])})
            continue
        if what in ("mutret", "mutgrid"):
            if what == "mutret":
                if held:
                    h = held[-1]
                    if op["how"] == "fill":
                        h[1][...] = -1.0
                    else:
                        h[1][...] *= 3.0
                    h[2] = h[1].copy()
            else:
                grids[op["g"]] *= op["factor"]
            continue
        if op["i"] >= len(inst):
            continue
        m, c = inst[op["i"]], cls[op["i"]]
        o = {"n": n, "op": op, "cls": c, "exc": None}
        out = io.StringIO()
        par = None
        if "par" in op:
            par = dict(zip([a for a, _ in PARS[c]], m.pars)).get(op["par"])
        try:
            with contextlib.redirect_stdout(out):
                if what == "set":
                    if par.link is not None:
                        par.unlink()
                    if op["how"] == "attr":
                        setattr(m, ATTR.get(op["par"], op["par"]), op["val"])
                    elif op["how"] == "set":
                        par.set(op["val"])
                    else:
                        v = [p.val for p in m.pars]
                        v[[a for a, _ in PARS[c]].index(op["par"])] = op["val"]
                        for p, x in zip(m.pars, v):
                            if p.link is None:
                                p.val = x
                    o["now"] = float(par.val)
                elif what == "bad":
                    if par.link is not None:
                        continue
                    old = float(par.val)
                    try:
                        par.set(-1e3 if op["par"] != "index" else 1e3)
                        o["accepted"] = True
                    except Exception:
                        pass
                    o["old"], o["now"] = old, float(par.val)
                elif what == "reset":
                    m.reset()
                elif what == "link":
                    if op["j"] < len(inst) and op["j"] != op["i"]:
                        other = dict(zip([a for a, _ in PARS[cls[op["j"]]]], inst[op["j"]].pars))[op["par"]]
                        if other.link is None and not any(p.link is par for mm in inst for p in mm.pars):
                            par.link = other
                elif what == "cache":
                    if op["val"] == "clear":
                        m.cache_clear()
                    elif op["val"] == "startup":
                        m.startup(True)
                    elif op["val"] == "teardown":
                        m.teardown()
                    else:
                        m.cache = op["val"]
                elif what == "copy":
                    if any(p.link is not None for p in m.pars):
                        continue
                    inst.append(copy.deepcopy(m) if op["how"] == "deepcopy" else pickle.loads(pickle.dumps(m)))
                    cls.append(c)
                elif what == "eval":
                    a = args(op)
                    before = [x.copy() for x in a]
                    p = values_of(m, c)
                    if op.get("alt") and op["via"] != "call":
                        p[op["alt"][0]] = op["alt"][1]
                    o["p"], o["grid"] = dict(p), grids[op["g"]].tolist()
                    vec = list(p.values())
                    vec = {"list": list, "tuple": tuple, "array": np.array}[op["vec"]](vec)
                    o["cache"] = m.cache
                    inj = None
                    if op.get("fault"):
                        inj = _lineinject(op["fault"]["n"], {"KeyboardInterrupt": KeyboardInterrupt, "MemoryError": MemoryError}[op["fault"]["exc"]])
                    try:
                        if op["via"] == "call":
                            r = m(*a)
                        elif op["via"] == "calckw" and op["bins"]:
                            r = m.calc(vec, a[0], xhi=a[1])
                        else:
                            r = m.calc(vec, *a)
                    finally:
                        sys.settrace(None)
                        o["fired"] = bool(inj and inj["fired"])
                    o["r"] = np.array(r, dtype=float)
                    o["type"] = type(r).__name__
                    held.append([n, r, np.array(r)])
                    if not all(np.array_equal(x, y) for x, y in zip(a, before)):
                        o["grid_edited"] = True
                elif what == "sum":
                    if op["j"] >= len(inst):
                        continue
                    m2 = inst[op["j"]]
                    o["cls2"] = cls[op["j"]]
                    o["p"], o["p2"], o["grid"] = values_of(m, c), values_of(m2, cls[op["j"]]), grids[op["g"]].tolist()
                    e = m + m2
                    if op["mult"]:
                        e = op["mult"] * e
                    r = e(*args(op))
                    o["r"] = np.array(r, dtype=float)
                    held.append([n, r, np.array(r)])
                elif what == "guess":
                    g = grids[op["g"]]
                    a = args(op)
                    o["p"], o["grid"] = values_of(m, c), g.tolist()
                    dep = op["scale"] * 1e-12 * (a[0] / a[0][0]) ** op["slope"]
                    o["dep"] = dep.copy()
                    if m.ampl.link is not None or len(a[0]) < 2:
                        # (a single value has no integral to scale by)
                        continue
                    m.guess(dep, *a)
                    o["p2"] = values_of(m, c)
                elif what == "fit":
                    from sherpa.data import Data1D, Data1DInt
                    from sherpa.fit import Fit
                    from sherpa.optmethods import LevMar
                    from sherpa.stats import Chi2

                    a = args(op)
                    if any(p.link is not None for p in m.pars) or len(a[0]) < 3:
                        continue
                    y = np.abs(m(*a)) * op["scale"] + 1e-30
                    y = y * (1 + 0.1 * np.sin(np.arange(len(y)) * 2.1))
                    dat = (Data1DInt if op["bins"] else Data1D)("d", *a, y, staterror=0.2 * y)
                    lm = LevMar()
                    lm.maxfev = op["iters"]
                    fr = Fit(dat, m, Chi2(), lm).fit()
                    o["y"] = y
                    o["stat"], o["parvals"] = float(fr.statval), [float(x) for x in fr.parvals]
                    o["thawed"] = [float(x) for x in m.thawedpars]
                    o["p"], o["grid"] = values_of(m, c), grids[op["g"]].tolist()
        except BaseException as e:  # noqa
            import traceback

            o["exc"] = [type(e).__name__, str(e)[:200], traceback.format_exc()[-600:]]
        o["printed"] = bool(out.getvalue())
        obs.append(o)
    changed = [h[0] for h in held if not np.array_equal(np.array(h[1]), h[2], equal_nan=True)]
    return {"obs": obs, "changed": changed, "stats": stats}


def values_of(m, c):
    return {n: float(p.val) for (n, _), p in zip(PARS[c], m.pars)}


# ------------------------------------------------------------------- checking
def execute(plan, ctx):
    r = ctx.fork(subject, plan, timeout=170)
    ctx.merge(r["stats"])

    def ref(cls, p, grid, bins):
        p = {k: v for k, v in p.items() if k != "verbose"}
        x = ctx.reference(reference, cls, p, list(grid), bool(bins))
        if x[0] != "ok":
            raise Violation("model-fails", "%s with %s at %s keV: %s" % (cls, p, list(grid), x[1:3]))
        return x[1]

    prev = None
    for o in r["obs"]:
        op = o["op"]
        lab = "op %d %s" % (o["n"], op)
        ctx.log(o["n"], o["exc"] and o["exc"][0] if "exc" in o else None, o.get("r"), o.get("p2"))
        if "new" in o:
            want = dict(PARS[op["cls"]])
            if list(o["new"].items()) != list(want.items()):
                raise Violation("other-parameters", "%s: a new instance has %s instead of %s" % (lab, o["new"], want))
            continue
        f = op.get("fault")
        if f and o.get("fired"):
            ctx.count("interrupts")
            ctx.evals += 1
            if o["exc"] is None or o["exc"][0] != f["exc"]:
                raise Violation("interrupt-lost", "%s: outcome %s" % (lab, o["exc"]))
            prev = "fault"
            continue
        if op["op"] == "guess" and o["exc"] and o["exc"][0] == "ParameterErr":
            # the amplitude asked for is out of its range: refused
            ctx.count("guess_refused")
            continue
        if o["exc"]:
            raise Violation("unexpected-exception-" + o["exc"][0], "%s: %s" % (lab, o["exc"]))
        if op["op"] == "set" and o["now"] != op["val"]:
            raise Violation("parameter-not-set", "%s: value is %r" % (lab, o["now"]))
        if op["op"] == "bad" and o["now"] != o["old"] and not o.get("accepted"):
            raise Violation("refused-value-stored", "%s: %r became %r" % (lab, o["old"], o["now"]))
        if op["op"] == "eval":
            ctx.evals += 1
            ctx.state(o["cls"], op["via"], op["bins"], prev, o["cache"], bool(op.get("alt")))
            if o.get("grid_edited"):
                raise Violation("grid-edited", lab)
            want = ref(o["cls"], o["p"], o["grid"], op["bins"])
            if o["r"].shape != want.shape or not near(o["r"], want):
                raise Violation("wrong-values", "%s: parameters %s, grid %s keV: %s instead of %s"
                                % (lab, o["p"], o["grid"], o["r"].tolist(), want.tolist()))
            if o["printed"] and not o["p"]["verbose"]:
                raise Violation("printed", "%s: printed although not verbose" % lab)
        elif op["op"] == "sum" and "r" in o:
            ctx.evals += 1
            a, b = ref(o["cls"], o["p"], o["grid"], op["bins"]), ref(o["cls2"], o["p2"], o["grid"], op["bins"])
            want = (a + b) * (op["mult"] or 1)
            if o["r"].shape != want.shape or not near(o["r"], want):
                raise Violation("wrong-sum", "%s: %s instead of %s" % (lab, o["r"].tolist(), want.tolist()))
        elif op["op"] == "guess" and "p2" in o:
            ctx.evals += 1
            g = np.array(o["grid"])
            x = g[:-1] if op["bins"] else g
            mod = ref(o["cls"], o["p"], o["grid"], op["bins"])
            a, b = plint(x, o["dep"]).sum(), plint(x, mod).sum()
            if len(x) > 1 and b > 0:
                want = dict(o["p"], ampl=o["p"]["ampl"] * a / b)
                for k in want:
                    if not abs(o["p2"][k] - want[k]) <= 1e-6 * abs(want[k]):
                        raise Violation("wrong-guess", "%s: %s became %r instead of %r" % (lab, k, o["p2"][k], want[k]))
        elif op["op"] == "fit" and "stat" in o:
            ctx.evals += 1
            want = ref(o["cls"], o["p"], o["grid"], op["bins"])
            stat = float((((o["y"] - want) / (0.2 * o["y"])) ** 2).sum())
            if o["parvals"] != o["thawed"]:
                raise Violation("fit-values", "%s: the instance is at %s, the fit reports %s" % (lab, o["thawed"], o["parvals"]))
            if not abs(stat - o["stat"]) <= 1e-5 * abs(stat) + 1e-9:
                raise Violation("fit-statistic", "%s: reported %r, the model there gives %r" % (lab, o["stat"], stat))
        prev = op["op"]
    if r["changed"]:
        raise Violation("returned-array-changed", "arrays returned by operations %s changed afterwards" % r["changed"])


def shrink(plan):
    for k, g in enumerate(plan["grids"]):
        if len(g) > 2:
            gs = list(plan["grids"])
            gs[k] = g[:2]
            yield dict(plan, grids=gs)
