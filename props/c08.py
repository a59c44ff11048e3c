"""C08: sampling results do not depend on worker count or scheduling"""
from simlib import mcmcsim as M
from simlib.engine import Violation

ID = "C08"
RUNS = {"quick": 110, "thorough": 6000}
RULE = (
    "the same seeded sampling session (get_sampler, runs, continuations) is executed once serially and under 2-3 "
    "simulated pools with different worker counts, chunkings, task-to-worker assignments and prior worker history; "
    "a case is one recorded step of a pooled execution compared with the serial one; distinct counts different "
    "schedules (sequences of chunk sizes and workers)"
)
MEASURE = "distinct schedules: sequences of (worker, chunk length)"
REAL = ["naima.core", "emcee", "naima radiative models and their per-process caches (real forked processes)", "astropy"]
STUB = ["multiprocessing.Pool: forked workers driven in lock-step by a seeded scheduler", "os.cpu_count in some runs",
        "user model and prior functions"]
ASSUMPTIONS = ["values compared to 1e-9 relative", "a worker process is never killed from outside"]


def generate(rng, i, tier):
    sc = M.g_scenario(rng, rad=0.5, threads=1)
    if rng.random() < 0.15:
        sc["prefit"] = True
    if rng.random() < 0.15:
        M.rescale(rng, sc)
    big = rng.random() < 0.03
    if big:
        M.enlarge(rng, sc)
    ops = [{"op": "get"}]
    for _ in range(rng.choice([1, 1, 2])):
        ops.append({"op": "run", "n": rng.randint(1, 4), "pos": rng.choice(["state", "coords"])})
    if rng.random() < 0.2:
        ops = [{"op": "getrun", "n": rng.randint(1, 4)}] + ops[2:]
    if big and sc["model"]["kind"] not in M.RAD_P0:
        ops[-1]["n"] = sc.get("nrun", ops[-1]["n"])
    scheds = []
    for _ in range(rng.choice([2, 2, 3])):
        s = {"seed": rng.randrange(2**31), "threads": rng.choice([2, 2, 3, 4, 7, "default", None]),
             "chunking": rng.choice(["random", "random", "real"]), "cpu": "real"}
        if s["threads"] in ("default", None) or rng.random() < 0.2:
            s["cpu"] = rng.choice([1, 2, 3, 5, None])
        scheds.append(s)
    return {"sc": sc, "calls": ops, "scheds": scheds}


def execute(plan, ctx):
    sc = plan["sc"]
    ser = ctx.fork(M.session, dict(sc, threads=1), plan["calls"], {"seed": 0}, timeout=120)
    for k, s in enumerate(plan["scheds"]):
        r = ctx.fork(M.session, dict(sc, threads=s["threads"]), plan["calls"], s, timeout=120)
        ctx.merge(r["stats"])
        ctx.state(r["log"])
        ctx.log(k, r["log"])
        for j, (a, b) in enumerate(zip(ser["obs"], r["obs"])):
            M.log_snap(ctx, b)
            ctx.evals += b["snap"]["iteration"] if "snap" in b else 0
            if a["exc"] != b["exc"]:
                raise Violation("outcome-differs", "call %d: serial %s, threads=%r %s" % (j, a["exc"], s["threads"], b["exc"]))
            if a["exc"]:
                raise Violation("unexpected-exception-" + a["exc"][0], "%s raised %s" % (a["op"], a["exc"]))
            d = M.same_run(b["snap"], a["snap"])
            if d:
                raise Violation("differs-from-serial", "call %d (%s) with threads=%r, schedule seed %d: %s"
                                % (j, b["op"], s["threads"], s["seed"], d))
            if a["snap"]["info"] != b["snap"]["info"]:
                raise Violation("run-info-differs", "call %d: %s vs %s" % (j, b["snap"]["info"], a["snap"]["info"]))


def shrink(plan):
    for k in range(len(plan["scheds"])):
        if len(plan["scheds"]) > 1:
            yield dict(plan, scheds=plan["scheds"][:k] + plan["scheds"][k + 1:])
    yield from M.shrink_scenario(plan)
