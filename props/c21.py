"""C21: the starting point of a run is never worse than asked and never forbidden"""
import math

import numpy as np

from simlib import mcmcsim as M
from simlib.engine import Violation
from simlib.simpool import SIM

ID = "C21"
RUNS = {"quick": 340, "thorough": 15000}
RULE = (
    "sampler creation with the likelihood search switched on, over seeded data, models (also with undefined regions, "
    "rugged, noisy, spiked or flat likelihoods), priors (also excluding the optimum or the given point) and starting values, alone, after "
    "an earlier search, or with a failure at the n-th evaluation of model or prior; the start recorded is compared with the "
    "given one by an independent likelihood and prior, with the walkers' positions, and the evaluations are counted; a case "
    "is one call; distinct counts (model, prior form, outcome, evaluations, fault)"
)
REAL = ["naima.core get_sampler/_prefit, naima.extern.minimize"]
STUB = ["user model and prior functions"]
ASSUMPTIONS = [
    "bounded: at most 560 model evaluations per search (the documented 500 plus one simplex step and set-up)",
    "walkers are compared with the recorded start by their mean, within 6 standard errors of 300 walkers",
]
LIMIT = 560


def generate(rng, i, tier):
    sc = M.g_scenario(rng, rad=0.04, threads=1)
    sc["nwalkers"] = 300
    sc["nburn"] = 0
    m = sc["model"]
    simple = m["kind"] in ("pl", "ecpl", "logpl")
    x = rng.random()
    if simple and x < 0.25:
        m["nan_above"] = sc["p0"][1] * rng.choice([1.02, 1.1, 1.3, 0.9])
    elif simple and x < 0.45:
        m["rugged"] = rng.choice([0.01, 0.1, 0.5])
    if rng.random() < 0.12:
        # nothing but upper limits
        for t in sc["tables"][:1]:
            t["ul"] = [1] * len(t["energy"])
            t["ulkind"] = "bool"
            t.pop("form", None)
        sc["tables"] = sc["tables"][:1]
    if sc["labels"] and sc["labels"][0].startswith("log") and rng.random() < 0.25:
        # the normalisation is found whatever the case of its label
        lab = sc["labels"][0]
        sc["labels"] = [rng.choice([lab.capitalize(), lab.upper(), lab.replace("log", "LOG")])] + list(sc["labels"][1:])
    # starting values away from the optimum
    for k in range(len(sc["p0"])):
        if rng.random() < 0.5:
            sc["p0"][k] *= rng.choice([0.6, 0.8, 1.15, 1.4])
    if rng.random() < 0.1:
        sc["p0"][rng.randrange(len(sc["p0"]))] = 0.0
        if m["kind"] not in ("pl", "ecpl", "logpl") or sc["p0"][0] == 0:
            sc["p0"][0] = sc["p0"][0] or 1.0
    if sc["prior"] is not None:
        for k, s in enumerate(sc["prior"]):
            if s and rng.random() < 0.5:
                p = sc["p0"][k]
                w = abs(p) * rng.choice([0.01, 0.05, 0.2]) + 1e-3
                sc["prior"][k] = ["u", p - w, p + w]
            elif s and rng.random() < 0.1:
                sc["prior"][k] = ["u", sc["p0"][k] + 1, sc["p0"][k] + 2]
    if rng.random() < 0.2:
        # a narrow optimum at or near the given start
        sc["guess"] = False
        at = list(sc["p0"])
        if rng.random() < 0.3:
            k = rng.randrange(len(at))
            at[k] *= rng.choice([1.05, 1.02, 0.97])
        m["spike"] = [at, rng.choice([1e-6, 0.004, 0.015]), rng.choice([1.5, 3.0, 30.0])]
    elif rng.random() < 0.1:
        m["noisy"] = rng.choice([0.1, 0.5])
    if rng.random() < 0.12 and "spike" not in m:
        M.rescale(rng, sc)
    calls = [{"fault": None}]
    if rng.random() < 0.3:
        calls[0]["fault"] = {"at": rng.choice([rng.randint(1, 8), rng.randint(1, 60), rng.randint(1, 300)]),
                             "exc": rng.choice(["ValueError", "KeyboardInterrupt", "FloatingPointError", "MemoryError", "ZeroDivisionError"]),
                             "where": rng.choice(["model", "model", "prior"])}
        calls.append({"fault": None})
    elif rng.random() < 0.15:
        calls.append({"fault": None})
    return {"sc": sc, "calls": calls, "interactive": rng.random() < 0.07}


def subject(plan):
    import warnings

    import naima
    import sys

    warnings.simplefilter("ignore")
    sc = plan["sc"]
    SIM.reset(1)
    data = M.make_data(sc)
    model = M.SimModel(sc["model"])
    prior = M.SimPrior(sc["prior"]) if sc["prior"] is not None else None
    kw = dict(data_table=data, model=model, prior=prior, nwalkers=sc["nwalkers"], nburn=0, guess=sc["guess"],
              labels=sc["labels"], threads=1, data_sed=sc.get("data_sed"))
    out = {"calls": []}
    sys.stdout = M.FailingOut()
    np.random.seed(3)
    try:
        s, _ = naima.get_sampler(p0=list(sc["p0"]), **kw)
        out["given"] = list(s.run_info["p0"])
    except Exception as e:
        out["given"] = None
        out["why"] = "%s: %s" % (type(e).__name__, e)
        return out
    for c in plan["calls"]:
        SIM.fault, SIM.fired = None, False
        base = SIM.task_no
        if c["fault"]:
            SIM.fault = dict(c["fault"], at=base + c["fault"]["at"])
        o = {"exc": None}
        np.random.seed(4)
        try:
            s, pos = naima.get_sampler(p0=list(sc["p0"]), prefit=True, interactive=plan["interactive"], **kw)
            o["p0"] = [float(x) for x in s.run_info["p0"]]
            o["pos"] = np.array(pos.coords if hasattr(pos, "coords") else pos)
        except BaseException as e:  # noqa
            o["exc"] = [type(e).__name__, str(e)[:200]]
        o["fired"] = SIM.fired
        o["evals"] = SIM.task_no - base
        out["calls"].append(o)
    out["stats"] = dict(SIM.stats)
    return out


def execute(plan, ctx):
    sc = plan["sc"]
    r = ctx.fork(subject, plan, timeout=150)
    if r["given"] is None:
        # the starting values cannot be used at all
        ctx.count("unusable_start")
        ctx.state("unusable", r["why"][:60])
        return
    ctx.merge(r["stats"])
    given = tuple(r["given"])
    if not all(math.isfinite(x) for x in given):
        # the normalisation was guessed from a model that is undefined there
        ctx.count("unusable_start")
        return
    ref = ctx.raw_fork(M.guess_oracle, sc)
    if ref[0] == "ok" and all(math.isfinite(x) for x in ref[1]):
        ctx.count("guessed" if ref[1] != sc["p0"] else "as_given")
        if not np.allclose(given, ref[1], rtol=1e-8, atol=0):
            raise Violation("wrong-start", "without prefit the run starts from %s instead of %s (given %s, labels %s)" % (
                list(given), ref[1], sc["p0"], sc["labels"]))
    want = [given]
    for o in r["calls"]:
        if o.get("p0"):
            want.append(tuple(o["p0"]))
    ref = ctx.reference(M.oracle_batch, sc, [list(p) for p in want])
    if ref[0] != "ok":
        raise RuntimeError("reference failed %r" % (ref,))
    orc = {p: v[:2] for p, v in zip(want, ref[1])}
    for k, (c, o) in enumerate(zip(plan["calls"], r["calls"])):
        ctx.evals += 1
        f = c["fault"]
        lab = "call %d, given start %s%s" % (k, list(given), ", fault %s" % f if f else "")
        start = tuple(o["p0"]) if o.get("p0") else None
        ctx.state(sc["model"]["kind"], sc["prior"] is not None, o["exc"] and o["exc"][0], o["evals"] // 10, start == given, bool(f and o["fired"]))
        ctx.log(k, o["exc"], o["evals"], start)
        if o["evals"] > LIMIT:
            raise Violation("unbounded-search", "%s: %d model evaluations" % (lab, o["evals"]))
        if f and o["fired"]:
            ctx.count("reached")
            if o["exc"] is None:
                raise Violation("failure-hidden", "%s: the call returned normally with start %s" % (lab, start))
            if o["exc"][0] != f["exc"] or "injected" not in o["exc"][1]:
                raise Violation("other-exception", "%s: %s" % (lab, o["exc"]))
            continue
        if o["exc"]:
            raise Violation("unexpected-exception-" + o["exc"][0], "%s: %s" % (lab, o["exc"]))
        pri0, like0 = orc[given]
        pri1, like1 = orc[start]
        ctx.count("kept" if start == given else "improved")
        if start != given:
            if math.isinf(pri1) or pri1 != pri1:
                raise Violation("forbidden-start", "%s: started from %s, which the prior forbids" % (lab, list(start)))
            if not math.isnan(like0) and not like1 >= like0 - 1e-7 * abs(like0) - 1e-9:
                raise Violation("worse-start", "%s (log-likelihood %r): started from %s (%r)" % (lab, like0, list(start), like1))
        # the walkers surround the recorded start
        pos = o["pos"]
        m, s = pos.mean(axis=0), pos.std(axis=0)
        for j, p in enumerate(start):
            if not abs(m[j] - p) <= 6 * s[j] / math.sqrt(len(pos)) + 1e-12 * abs(p):
                raise Violation("walkers-elsewhere", "%s: recorded start %s, walkers around %s (spread %s)" % (lab, list(start), m.tolist(), s.tolist()))


def shrink(plan):
    if len(plan["calls"]) > 1:
        yield dict(plan, calls=plan["calls"][:1])
        yield dict(plan, calls=plan["calls"][1:])
    if plan["interactive"]:
        yield dict(plan, interactive=False)
    sc = plan["sc"]
    for a in ("nan_above", "rugged", "spike", "noisy"):
        if a in sc["model"]:
            yield dict(plan, sc=dict(sc, model={k: v for k, v in sc["model"].items() if k != a}))
    for c in M.shrink_scenario(plan):
        if c["sc"]["nwalkers"] == sc["nwalkers"]:
            yield c
