"""C10: an interrupted sampling run loses nothing it recorded and can be resumed"""
from simlib import mcmcsim as M
from simlib.engine import Violation

ID = "C10"
LEVEL = "fault_enumeration"
RUNS = {"quick": 240, "thorough": 7000}
RULE = (
    "sampling sessions, serial and on simulated pools, with one planned failure: the model or the prior raises at a "
    "chosen evaluation, the process waiting for the pool is interrupted, a chosen console write fails, or an interrupt "
    "arrives at a chosen executed line of naima.core; then the run is resumed; a case is one failure followed by "
    "resumption; distinct counts different (fault kind, exception, call, step reached, serial or pooled)"
)
REAL = ["naima.core", "emcee", "naima radiative models", "astropy"]
STUB = ["multiprocessing.Pool: forked workers driven in lock-step by a seeded scheduler", "console (sys.stdout)",
        "user model and prior functions"]
ASSUMPTIONS = ["values compared to 1e-9 relative", "in a worker only Exception subclasses are raised (a worker killed by an interrupt hangs the standard library's pool itself)",
               "interrupts arrive between executed lines of naima.core"]

EXC = ["ValueError", "MemoryError", "RuntimeError", "OSError", "ZeroDivisionError", "FloatingPointError"]


def g_fault(rng, threads, nw, n, where=None):
    k = rng.choice(["eval", "eval", "prior", "print", "line"] + (["parent", "parent"] if threads > 1 else []))
    if k in ("eval", "prior"):
        return {"type": "eval", "at": rng.randint(1, nw * (n + 1) + 2), "where": "prior" if k == "prior" else "model",
                "exc": rng.choice(EXC + ([] if threads > 1 else ["KeyboardInterrupt", "SystemExit", "KeyboardInterrupt"]))}
    if k == "parent":
        return {"type": "eval", "at": rng.randint(1, nw * (n + 1) + 2), "where": "parent",
                "exc": rng.choice(["KeyboardInterrupt", "KeyboardInterrupt", "MemoryError", "SystemExit"])}
    if k == "print":
        return {"type": "print", "at": rng.randint(1, 2 + 8 * max(1, n)), "exc": rng.choice(["BrokenPipeError", "OSError", "KeyboardInterrupt", "ValueError"])}
    return {"type": "line", "at": rng.randint(1, 60 + 90 * n), "exc": rng.choice(["KeyboardInterrupt", "MemoryError", "SystemExit"])}


def generate(rng, i, tier):
    sc = M.g_scenario(rng, rad=0.15)
    if rng.random() < 0.1:
        sc["prefit"] = True
    calls = [{"op": "get"}]
    if rng.random() < 0.2:
        calls[0]["fault"] = g_fault(rng, sc["threads"], sc["nwalkers"], max(1, sc["nburn"]))
        return {"sc": sc, "calls": calls, "resume": rng.randint(1, 3), "sched": {"seed": rng.randrange(2**31)}}
    for _ in range(rng.choice([1, 1, 2])):
        calls.append({"op": "run", "n": rng.randint(1, 5), "pos": rng.choice(["state", "coords"])})
    if rng.random() < 0.05 and sc["model"]["kind"] not in M.RAD_P0:
        # a long run
        calls[-1]["n"] = rng.choice([25, 45])
        M.confine(sc)
    calls[-1]["fault"] = g_fault(rng, sc["threads"], sc["nwalkers"], calls[-1]["n"])
    if rng.random() < 0.15:
        calls = [{"op": "getrun", "n": calls[-1]["n"], "fault": calls[-1]["fault"]}]
    return {"sc": sc, "calls": calls, "resume": rng.randint(1, 3), "how": rng.choice(["last", "last", "state"]),
            "sched": {"seed": rng.randrange(2**31)}}


def execute(plan, ctx):
    sc, calls = plan["sc"], plan["calls"]
    clean = [{k: v for k, v in c.items() if k != "fault"} for c in calls]
    ref = ctx.fork(M.session, sc, clean, {"seed": 1}, timeout=120)
    for o in ref["obs"]:
        if o["exc"]:
            raise Violation("unexpected-exception-" + o["exc"][0], "%s raised %s" % (o["op"], o["exc"]))
    k = len(calls) - 1
    f = calls[k]["fault"]
    more = [{"op": "run", "n": plan["resume"], "pos": plan.get("how", "last")}]
    if calls[k]["op"] != "run":
        more = [{"op": "get"}] + more
    # the faulted call may not have made a sampler: the session then goes on
    # with a new one
    r = ctx.fork(session_with_retry, sc, calls, more, plan["sched"], timeout=120)
    ctx.merge(r["stats"])
    o, full = r["obs"][k], ref["obs"][k]
    M.log_snap(ctx, o)
    ctx.evals += 1
    lab = "call %d (%s), threads=%s, fault %s%s" % (k, o["op"], sc["threads"], f, " at %s" % (o["where"],) if o["where"] else "")
    fired = r["firedk"]
    ctx.state(f["type"], f.get("where"), f["exc"], o["op"], len(o["ticks"]), min(2, sc["threads"]), fired, o["where"])
    ctx.count("reached" if fired else "not_reached")
    if not fired:
        if o["exc"]:
            raise Violation("unexpected-exception-" + o["exc"][0], "%s: raised %s without a fault" % (lab, o["exc"]))
        return
    if o["exc"] is None:
        raise Violation("failure-hidden", lab + ": the call returned normally")
    if o["exc"][0] != f["exc"] or "injected" not in o["exc"][1]:
        raise Violation("other-exception", "%s: the call raised %s" % (lab, o["exc"]))
    if calls[k]["op"] == "run":
        s = o["snap"]
        if o["reset"]:
            kdone = len(o["ticks"])
            if f["type"] == "eval":
                at = f["at"]
                want = sum(1 for t in full["ticks"] if t < at)
                if kdone != want:
                    raise Violation("steps-lost", "%s: %d steps completed before the failure, %d stored" % (lab, want, kdone))
            if s["iteration"] != kdone:
                raise Violation("recorded-steps-lost", "%s: %d steps had been stored, %d recorded afterwards" % (lab, kdone, s["iteration"]))
            if kdone:
                d = M.same_run(s, M.rows(full["snap"], 0, kdone))
                if d:
                    raise Violation("recorded-steps-differ", "%s: after %d steps: %s" % (lab, kdone, d))
        else:
            prev = ref["obs"][k - 1]["snap"]
            d = "number of steps" if s["iteration"] != prev["iteration"] else M.same_run(s, prev)
            if d:
                raise Violation("recorded-steps-lost", "%s: the fault came before the new run started but the previous one changed: %s" % (lab, d))
        if len(s["chain"] if s["chain"] is not None else []) != s["iteration"]:
            raise Violation("partial-step", lab)
    # resumption
    snaps = []
    for o2, c in zip(r["more"], r["morecalls"]):
        M.log_snap(ctx, o2)
        if o2["exc"]:
            raise Violation("cannot-resume", "%s: then %s raised %s" % (lab, c, o2["exc"]))
        if c["op"] == "run" and o2["snap"]["iteration"] != c["n"]:
            raise Violation("wrong-number-of-steps", "%s: then %s recorded %d steps" % (lab, c, o2["snap"]["iteration"]))
        snaps.append(o2["snap"])
    oracle = M.oracle_for(sc, ctx, *snaps)
    for s in snaps:
        M.check_recorded(sc, s, ctx, Violation, oracle, lab + ", resumed run: ")


def session_with_retry(sc, calls, more, sched):
    k = len(calls) - 1
    if calls[k]["op"] == "run":
        r = M.session(sc, calls + more, sched)
        obs = r["obs"]
        return dict(r, obs=obs[: k + 1], more=obs[k + 1:], morecalls=more, firedk=obs[k]["fired"])
    a = M.session(sc, calls, sched)
    b = M.session(sc, more, sched)
    return dict(a, more=b["obs"], morecalls=more, firedk=a["obs"][k]["fired"])


def shrink(plan):
    f = plan["calls"][-1]["fault"]
    if len(plan["calls"]) > 2:
        yield dict(plan, calls=[plan["calls"][0], plan["calls"][-1]])
    if plan["resume"] > 1:
        yield dict(plan, resume=1)
    n = plan["calls"][-1].get("n", 0)
    if n > 1:
        yield dict(plan, calls=plan["calls"][:-1] + [dict(plan["calls"][-1], n=n - 1)])
    for at in (1, f["at"] // 2, f["at"] - 1):
        if 0 < at < f["at"]:
            yield dict(plan, calls=plan["calls"][:-1] + [dict(plan["calls"][-1], fault=dict(f, at=at))])
    yield from M.shrink_scenario(plan)
