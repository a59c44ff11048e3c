"""C09: continuing a run is the same as never having stopped"""
import numpy as np

from simlib import mcmcsim as M
from simlib.engine import Violation

ID = "C09"
RUNS = {"quick": 260, "thorough": 7000}
RULE = (
    "one uninterrupted run of N steps against the same N steps split at seeded points into burn-in and 1-4 continuation "
    "calls (returned state, plain coordinates or last recorded step passed back), serial and on simulated pools; a case "
    "is one call whose recorded rows, returned position and run information are compared; distinct counts different "
    "(split, way of passing back, thread count, burn-in)"
)
REAL = ["naima.core", "emcee", "naima radiative models", "astropy"]
STUB = ["multiprocessing.Pool: forked workers driven in lock-step by a seeded scheduler", "user model and prior functions"]
ASSUMPTIONS = ["values compared to 1e-9 relative", "an uninterrupted run is burn-in of all steps but the last recorded ones"]


def generate(rng, i, tier):
    sc = M.g_scenario(rng, rad=0.2)
    if rng.random() < 0.12:
        M.rescale(rng, sc)
    parts = [rng.randint(0, 3)] + [rng.randint(1, 4) for _ in range(rng.choice([1, 2, 2, 3, 4]))]
    if rng.random() < 0.05:
        M.enlarge(rng, sc)
        if sc["model"]["kind"] not in M.RAD_P0:
            parts[rng.randrange(len(parts))] = rng.choice([25, 60])
            M.confine(sc)
    how = [rng.choice(["state", "coords", "last"]) for _ in parts[1:]]
    return {"sc": sc, "parts": parts, "how": how, "first": rng.choice(["get", "get", "getrun"]),
            "threads2": rng.choice([1, 1, 2, 4]), "sched": {"seed": rng.randrange(2**31)}}


def execute(plan, ctx):
    sc, parts = plan["sc"], plan["parts"]
    total = sum(parts)
    # the whole run, recorded from its first step
    whole = ctx.fork(M.session, dict(sc, nburn=0, threads=plan["threads2"]),
                     [{"op": "get"}, {"op": "run", "n": total, "pos": "state"}], {"seed": 5}, timeout=120)
    for o in whole["obs"]:
        if o["exc"]:
            raise Violation("unexpected-exception-" + o["exc"][0], "%s raised %s" % (o["op"], o["exc"]))
    W = whole["obs"][-1]["snap"]
    if W["iteration"] != total:
        raise Violation("steps-missing", "asked for %d steps, %d recorded" % (total, W["iteration"]))
    ops = []
    lens = []
    if plan["first"] == "getrun":
        ops.append({"op": "getrun", "n": parts[1]})
        lens.append(parts[1])
        rest = list(zip(parts[2:], plan["how"][1:]))
    else:
        ops.append({"op": "get"})
        lens.append(parts[0])
        rest = list(zip(parts[1:], plan["how"]))
    for n, h in rest:
        ops.append({"op": "run", "n": n, "pos": h})
        lens.append(n)
    r = ctx.fork(M.session, dict(sc, nburn=parts[0]), ops, plan["sched"], timeout=120)
    ctx.merge(r["stats"])
    ctx.state(parts, plan["how"], sc["threads"], plan["first"])
    at = parts[0] if plan["first"] == "getrun" else 0
    start = whole["obs"][0]["pos"]
    for k, (o, n) in enumerate(zip(r["obs"], lens)):
        M.log_snap(ctx, o)
        ctx.evals += 1
        lab = "call %d of %s (split %s)" % (k, [x["op"] for x in ops], parts)
        if o["exc"]:
            raise Violation("unexpected-exception-" + o["exc"][0], "%s: raised %s" % (lab, o["exc"]))
        s = o["snap"]
        if s["iteration"] != n:
            raise Violation("wrong-number-of-steps", "%s: %d steps recorded instead of %d" % (lab, s["iteration"], n))
        d = M.same_run(s, M.rows(W, at, at + n)) if n else None
        if d:
            raise Violation("not-the-same-run", "%s: rows %d..%d: %s" % (lab, at, at + n, d))
        last = s["chain"][-1] if n else start
        if not np.array_equal(o["pos"], last):
            raise Violation("returned-position-wrong", "%s: returned %s, last step %s" % (lab, o["pos"].tolist(), last.tolist()))
        at += n
        info = s["info"]
        want = {"n_walkers": sc["nwalkers"], "n_burn": parts[0], "guess": sc["guess"]}
        if o["op"] != "get":
            want["n_run"] = n
        for key, v in want.items():
            if info.get(key) != v:
                raise Violation("run-info-wrong", "%s: %s is %r instead of %r" % (lab, key, info.get(key), v))
        bm = np.median(W["chain"][parts[0] - 1] if parts[0] else start, axis=0)
        if not np.allclose(info["p0_burn_median"], bm, rtol=1e-9, atol=0):
            raise Violation("run-info-wrong", "%s: p0_burn_median %s instead of %s" % (lab, info["p0_burn_median"], bm.tolist()))
        if s["labels"] != r["obs"][0]["snap"]["labels"]:
            raise Violation("labels-changed", "%s: %s" % (lab, s["labels"]))


def shrink(plan):
    p = plan["parts"]
    if len(p) > 2:
        for k in range(1, len(p)):
            yield dict(plan, parts=p[:k] + p[k + 1:], how=plan["how"][:k - 1] + plan["how"][k:])
    for k in range(len(p)):
        if p[k] > (0 if k == 0 else 1):
            yield dict(plan, parts=p[:k] + [p[k] - 1] + p[k + 1:])
    yield from M.shrink_scenario(plan)
