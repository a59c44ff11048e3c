"""C11: worker processes never outlive the call that needed them"""
from simlib import mcmcsim as M
from simlib import plotsim as P
from simlib.engine import Violation
from simlib.simpool import SIM
from props import c18

ID = "C11"
LEVEL = "fault_enumeration"
RUNS = {"quick": 260, "thorough": 9000}
RULE = (
    "sequences of sampler creation, runs and continuations, and of curve computations and table generations, for all "
    "worker counts (also the default), with a failure of an evaluation, a prior, a worker task, the waiting process, a "
    "console write or an executed line; after every call the pools still open are counted; a case is one call; distinct "
    "counts (call, worker count, fault kind, exception, pools open before and after)"
)
REAL = ["naima.core get_sampler/run_sampler, naima.plot, naima.radiative.generate_lut_pp", "emcee"]
STUB = ["multiprocessing.Pool: forked workers driven in lock-step by a seeded scheduler; open pools counted there",
        "user model and prior functions", "console", "os.cpu_count in some runs"]
ASSUMPTIONS = [
    "an asynchronous interrupt that strikes while the pool is being released cannot be required to release it: faults at "
    "executed lines count only while evaluations are still to come",
]


def prepare():
    P.warm()


def g_fault(rng, sc, n, evals):
    x = rng.random()
    if x < 0.35:
        return {"type": "eval", "at": rng.randint(1, max(1, evals)), "where": rng.choice(["model", "model", "task"]),
                "exc": rng.choice(["ValueError", "RuntimeError", "MemoryError"])}
    if x < 0.5:
        return {"type": "eval", "at": rng.randint(1, max(1, evals)), "where": "parent", "exc": "KeyboardInterrupt"}
    if x < 0.6:
        return {"type": "print", "at": rng.randint(1, 12), "exc": rng.choice(["BrokenPipeError", "OSError", "KeyboardInterrupt"])}
    return {"type": "line", "at": rng.randint(1, int(10 ** rng.uniform(1, 3.2))), "exc": rng.choice(["KeyboardInterrupt", "MemoryError"]),
            "files": ["naima/core.py"]}


def generate(rng, i, tier):
    if rng.random() < 0.3:
        plan = c18.generate(rng, i, tier)
        for op in plan["ops"]:
            if op["op"] == "fit" and rng.random() < 0.3:
                op["fault"] = {"type": "line", "at": rng.randint(1, int(10 ** rng.uniform(1, 2.8))), "files": ["naima/plot.py"],
                               "exc": rng.choice(["KeyboardInterrupt", "MemoryError"])}
        plan["kind"] = "plots"
        return plan
    sc = M.g_scenario(rng, rad=0.05, threads=rng.choice([1, 1, 2, 3, 5, None, "default"]))
    cpu = rng.choice([1, 2, 4])
    nw = sc["nwalkers"]
    par = sc["threads"] != 1
    calls = []

    def fault(n):
        if rng.random() < 0.45:
            f = g_fault(rng, sc, n, nw * (n + 1))
            if f["type"] == "eval" and f["where"] != "model" and not par:
                f["where"] = "model"
            return {"fault": f}
        return {}

    if rng.random() < 0.15:
        calls.append(dict({"op": "getrun", "n": rng.randint(1, 4)}, **fault(4)))
    else:
        calls.append({"op": "get"})
        if sc["nburn"] and rng.random() < 0.35:
            calls[0].update(fault(sc["nburn"]))
    for _ in range(rng.randint(0, 3)):
        n = rng.randint(1, 4)
        calls.append(dict({"op": "run", "n": n, "pos": rng.choice(["state", "last"])}, **fault(n)))
    return {"kind": "runs", "sc": sc, "calls": calls, "sched": {"seed": rng.randrange(2**31), "cpu": cpu}}


def plots(plan):
    import matplotlib
    import tempfile
    import shutil

    matplotlib.use("Agg")
    tmp = plan["tmp"]
    p = P.Post(plan["sc"], plan["sched"], tmp)
    first = {"op": "sampler", "exc": None, "live": len(SIM.live_pools()), "newpools": len(SIM.pools), "maxlive": 0, "fired": False}
    obs = [first]
    for op in plan["ops"]:
        o = p.perform(op)
        o.pop("fig", None)
        obs.append(o)
    return {"obs": obs, "stats": dict(SIM.stats)}


def nthreads(plan):
    t = plan["sc"]["threads"]
    if t in (None, "default"):
        return plan["sched"]["cpu"] if plan["sched"].get("cpu", "real") != "real" else 99
    return t


def execute(plan, ctx):
    if plan["kind"] == "plots":
        r = ctx.fork(plots, dict(plan, tmp=ctx.tmpdir()), timeout=150)
        ctx.merge(r["stats"])
        for k, (op, o) in enumerate(zip([{"op": "sampler"}] + plan["ops"], r["obs"])):
            ctx.evals += 1
            f = op.get("fault")
            lab = "call %d: %s %s, fault %s" % (k, op["op"], op.get("kw"), f)
            ctx.state(op["op"], (op.get("kw") or {}).get("threads"), f and f["type"], f and f.get("where"), o["exc"] and o["exc"][0], o["live"], o.get("where"))
            ctx.log(k, op["op"], o["exc"], o["live"], o["newpools"])
            ctx.count("reached" if o["fired"] else "undisturbed")
            if k == 0:
                if o["newpools"]:
                    raise Violation("needless-workers", "a single-threaded run created %d pools" % o["newpools"])
                continue
            if f and f["type"] == "line" and o["fired"] and o["evals"] and o["firetask"] >= o["evals"]:
                # may have struck while the pool was being released
                if o["live"]:
                    return
            if o["live"]:
                raise Violation("pool-left-open", "%s: ended with %s, %d pools still open" % (lab, o["exc"], o["live"]))
        return
    r = ctx.fork(M.session, plan["sc"], plan["calls"], plan["sched"], timeout=120)
    ctx.merge(r["stats"])
    nt = nthreads(plan)
    for k, (c, o) in enumerate(zip(plan["calls"], r["obs"])):
        ctx.evals += 1
        f = c.get("fault")
        lab = "call %d: %s with threads=%s, fault %s%s" % (k, c["op"], plan["sc"]["threads"], f, " at %s" % (o["where"],) if o["where"] else "")
        ctx.state(c["op"], plan["sc"]["threads"], f and f["type"], f and f.get("where"), o["exc"] and o["exc"][0], o["live"], o["newpools"], o["where"])
        ctx.log(k, c["op"], o["exc"], o["live"], o["newpools"])
        ctx.count("reached" if o["fired"] else "undisturbed")
        if not o["fired"] and o["exc"]:
            raise Violation("unexpected-exception-" + o["exc"][0], "%s: %s" % (lab, o["exc"]))
        if nt == 1 and o["newpools"]:
            raise Violation("needless-workers", "%s: %d pools created" % (lab, o["newpools"]))
        if o["maxlive"] > 1:
            raise Violation("workers-multiplied", "%s: %d pools open at the same time" % (lab, o["maxlive"]))
        if any(w != nt for w in o["workers"]) and nt != 99:
            raise Violation("wrong-worker-count", "%s: pools with %s workers" % (lab, o["workers"]))
        if o["exc"] is None and c["op"] == "get":
            continue
        if o["live"]:
            if f and o["fired"] and o["newpools"] == 0 and o["evals"] == 0 and c["op"] == "run":
                # the run had not begun: the sampler still has its workers
                continue
            if f and f["type"] == "line" and o["fired"] and release_in_progress(plan, k, o, ctx):
                return
            raise Violation("pool-left-open", "%s: ended with %s, %d pools still open" % (lab, o["exc"], o["live"]))


def release_in_progress(plan, k, o, ctx):
    """Whether the interrupt came after the last evaluation of the call"""
    clean = [{a: b for a, b in c.items() if a != "fault"} if j == k else c for j, c in enumerate(plan["calls"][: k + 1])]
    r = ctx.fork(M.session, plan["sc"], clean, plan["sched"], timeout=120)
    total = r["obs"][k]["evals"]
    return o["firetask"] >= total


def shrink(plan):
    if plan["kind"] == "plots":
        yield from c18.shrink(plan)
        return
    for k in range(1, len(plan["calls"])):
        yield dict(plan, calls=plan["calls"][:k] + plan["calls"][k + 1:])
    for k, c in enumerate(plan["calls"]):
        if c.get("fault"):
            yield dict(plan, calls=plan["calls"][:k] + [{a: b for a, b in c.items() if a != "fault"}] + plan["calls"][k + 1:])
        if c.get("n", 1) > 1:
            yield dict(plan, calls=plan["calls"][:k] + [dict(c, n=1)] + plan["calls"][k + 1:])
    yield from M.shrink_scenario(plan)
