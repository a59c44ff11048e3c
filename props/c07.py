"""C07: recorded probabilities and metadata belong to the recorded positions"""
import math

from simlib import mcmcsim as M
from simlib.engine import Violation

ID = "C07"
RUNS = {"quick": 320, "thorough": 9000}
RULE = (
    "sampling runs (get_sampler plus 1-2 run_sampler calls) with seeded data tables (1-3 tables, units, SED and "
    "differential, asymmetric errors, upper limits with confidence levels), models (analytic and naima radiative "
    "models kept and reused as in user scripts, ten forms of outputs), priors, burn-in and simulated worker pools with "
    "seeded chunking and assignment; a case is one recorded (step, walker) compared with prior, likelihood and outputs "
    "computed from the raw scenario; distinct counts different (scenario shape, position) cases"
)
REAL = ["naima.core (get_sampler, run_sampler, lnprob, lnprobmodel)", "naima.utils data-table validation", "emcee",
        "naima radiative models", "astropy"]
STUB = ["multiprocessing.Pool: forked workers driven in lock-step by a seeded scheduler", "user model and prior functions"]
ASSUMPTIONS = ["tolerance 1e-7 relative on log-probabilities", "the likelihood is the documented chi-square with the error of the side the model lies on, and log(1-CL) for each violated upper limit",
               "the random state is numpy's global generator, seeded"]


def generate(rng, i, tier):
    sc = M.g_scenario(rng, rad=0.3)
    # positions the prior forbids must be proposed often
    ops = [{"op": "get"}, {"op": "run", "n": rng.randint(1, 4), "pos": "state"}]
    if rng.random() < 0.4:
        ops.append({"op": "run", "n": rng.randint(1, 3), "pos": rng.choice(["state", "coords"])})
    if rng.random() < 0.2:
        sc["prefit"] = True
        sc["tables"] = sc["tables"][:1]
    if rng.random() < 0.12:
        M.rescale(rng, sc)
    if rng.random() < 0.04:
        M.enlarge(rng, sc)
        ops[-1]["n"] = sc.get("nrun", ops[-1]["n"])
    return {"sc": sc, "calls": ops, "sched": {"seed": rng.randrange(2**31)}}


def execute(plan, ctx):
    sc = plan["sc"]
    r = ctx.fork(M.session, sc, plan["calls"], plan["sched"], timeout=120)
    ctx.merge(r["stats"])
    snaps = [o.get("snap") for o in r["obs"]]
    for o in r["obs"]:
        M.log_snap(ctx, o)
        if o["exc"]:
            raise Violation("unexpected-exception-" + o["exc"][0], "%s raised %s" % (o["op"], o["exc"]))
    oracle = M.oracle_for(sc, ctx, *snaps)
    shape = (sc["model"]["kind"], sc["model"]["out"], sc["model"]["unit"], sc["prior"] and [s and s[0] for s in sc["prior"]],
             [(t["sed"], t["funit"], t["err"], t.get("ul") is not None, t.get("flux_ul") is not None, t.get("cl"))
              for t in sc["tables"]])
    for pos in oracle:
        ctx.state(shape, pos)
    for k, o in enumerate(r["obs"]):
        M.check_recorded(sc, o["snap"], ctx, Violation, oracle, "call %d: " % k)
        c = o["snap"]["chain"]
        if c is None:
            continue
        ctx.count("forbidden_recorded", sum(
            1 for row in c.reshape(-1, c.shape[-1]) if math.isinf(M.oracle_prior(sc["prior"], row))))
        prev = o.get("start")
        for s in range(c.shape[0]):
            if prev is not None:
                for w in range(c.shape[1]):
                    if (c[s, w] != prev[w]).any():
                        ctx.count("accepted_moves")
                        if math.isinf(M.oracle_prior(sc["prior"], c[s, w])):
                            raise Violation("moved-to-forbidden-position", "call %d step %d walker %d moved from %s to %s"
                                            % (k, s, w, list(prev[w]), list(c[s, w])))
            prev = c[s]


shrink = M.shrink_scenario
