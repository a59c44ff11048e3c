"""C05: failed or interrupted evaluations"""
from simlib import radsim
from simlib.engine import Violation

ID = "C05"
RUNS = {"quick": 300, "thorough": 8000}
RULE = (
    "seeded histories in which chosen evaluations meet one planned fault: the particle distribution raises at its "
    "n-th call, an interrupt arrives at the n-th executed library line, or an open/read of a packaged data file fails "
    "or is cut short; a case is one evaluation (failing or following) compared with a newly built object in a "
    "pristine process; distinct counts consecutive operation pairs and fault positions reached"
)
REAL = ["naima radiative and absorption models, particle distributions, memoisation, lookup table loading",
        "astropy", "numpy/scipy", "packaged data files read through real system calls"]
STUB = ["particle distributions are subclassed to fail on the planned call",
        "libc open/read of the data directory fail as planned (preloaded shim)"]
ASSUMPTIONS = ["relative tolerance 1e-7"]


def g_fault(rng, kind):
    x = rng.random()
    if kind in ("PPL", "EBL") and x < 0.6:
        mode = rng.choice(["err", "err", "err_on", "cut", "cut"])
        return {"type": "file", "mode": mode, "n": rng.choice([1, 1, 2, 3, 4, 5, 7, 9, 12, 20]),
                "err": rng.choice(["EIO", "ENOENT", "EMFILE", "EACCES", "EIO"])}
    if x < 0.45:
        return {"type": "callback", "n": rng.choice([1, 1, 2, 2, 3, 5]),
                "exc": rng.choice(["SimFault", "ValueError", "KeyboardInterrupt", "MemoryError", "KeyError",
                                   "AttributeError", "TypeError", "ZeroDivisionError", "FloatingPointError", "OSError"])}
    n = rng.choice([rng.randint(1, 25), rng.randint(1, 120), rng.randint(1, 400)])
    return {"type": "line", "n": n, "exc": rng.choice(["KeyboardInterrupt", "KeyboardInterrupt", "MemoryError"])}


def generate(rng, i, tier):
    kinds = rng.choice([radsim.KINDS, ("SY",), ("IC",), ("IC", "SY"), ("BR", "SY"), ("PP",), ("PP",), ("PP", "SY"), ("K06",)])
    g = radsim.Gen(rng, kinds, weights=dict(comp=0.4, setW=0.3, mutres=0.3), faulty=True)
    n = rng.randint(7, 16)
    if "K06" in kinds:
        n = rng.randint(4, 7)
    for _ in range(n):
        if rng.random() < 0.4:
            mid = rng.choice(list(g.m))
            k = g.m[mid]["k"]
            if k == "PP" and g.m[mid]["p"].get("useLUT", True):
                k = "PPL"
                g.m[mid]["p"]["hiEmodel"] = "Pythia8"
                if rng.random() < 0.8:
                    g.ops.append({"op": "setm", "m": mid, "attr": "hiEmodel", "val": "Pythia8"})
                    g.ops.append({"op": "setm", "m": mid, "attr": "nuclear_enhancement", "val": True})
                    g.m[mid]["p"]["nuclear_enhancement"] = True
            g.do_eval(mid, fault=g_fault(rng, k))
            if rng.random() < 0.85:
                g.repeat(mid)
        elif rng.random() < 0.05:
            g.ebl(fault={"type": "file", "mode": rng.choice(["err", "err_on", "cut"]), "n": rng.choice([1, 2, 3, 5, 8]),
                         "err": "EIO"})
            g.ebl()
        else:
            g.step()
    return {"ops": g.ops, "faulty": True}


def execute(plan, ctx):
    obs = radsim.run_history(plan, ctx)
    for o in obs:
        if "moved" in o or o.get("setW"):
            continue
        if o["fault"] and o["fired"]:
            ctx.state("fault", o["kind"], o["fault"]["type"], str(o.get("at")), o["res"][0])
            ctx.evals += 1
            if o["res"][0] == "exc":
                ctx.count("reported_as_exception")
                continue
            # no exception: the result must be right all the same
            if o.get("fellback"):
                if o["fault"]["type"] != "file":
                    raise Violation("wrong-fallback", "op %d: lookup table switched off after %s" % (o["i"], o["fault"]))
                if not o["warned"]:
                    raise Violation("fallback-without-warning", "op %d: %s" % (o["i"], o["fault"]))
                o["ms"]["p"]["useLUT"] = False
                ctx.count("lookup_table_fallbacks")
        radsim.check_eval(o, ctx, Violation, "wrong-result-after-failure")
