"""C22: library calls leave the session's settings as they found them"""
import importlib

from simlib import engine, plotsim as P, session
from simlib.engine import Violation

ID = "C22"
RUNS = {"quick": 260, "thorough": 9000}
RULE = (
    "the seeded simulated sessions of the other properties (evaluations with failing or interrupted parts, threads, "
    "sampling runs with failing models, workers or console, saves, reads and tables on failing disks, plots, diagnostic "
    "plots, fitter windows, Sherpa wrappers), with about 300 settings of the process looked at before and after every "
    "outermost call into the library (Python warning filters, numpy error handling, random states, logging, environment, "
    "signals, streams, matplotlib and astropy settings ...) and around groups of overlapping threads; a case is one call; distinct "
    "counts (entry point, way it ended); in three of four sessions the user has chosen other settings beforehand"
)
REAL = ["every public function, class method and property of naima", "matplotlib (Agg)", "emcee, h5py, astropy, sherpa"]
STUB = ["those of the session used (simulated pools, failing files, model functions)"]
ASSUMPTIONS = [
    "the random state may be advanced by drawing from it only in get_sampler, run_sampler and the plotting and table "
    "functions that sample, and never set",
    "first use of a third-party module is made beforehand",
]
FROM = (["C01"] * 2 + ["C04", "C05", "C05", "C05", "C06", "C06", "C07", "C10", "C10", "C10", "C11", "C12", "C12", "C13", "C14", "C14",
                       "C15", "C15", "C16", "C16", "C16", "C17", "C17", "C18", "C19", "C19", "C20", "C20", "C21", "C21"])
_MODS = {}


class Stop(Exception):
    pass


def sub(pid):
    if pid not in _MODS:
        _MODS[pid] = importlib.import_module("props." + pid.lower())
    return _MODS[pid]


def prepare():
    P.warm()
    import naima

    naima.InteractiveModelFitter  # noqa
    import astropy.io.ascii  # noqa
    import astropy.table  # noqa
    import scipy.integrate  # noqa
    import scipy.interpolate  # noqa
    import scipy.optimize  # noqa
    import yaml  # noqa

    for pid in set(FROM):
        sub(pid)


def generate(rng, i, tier):
    pid = rng.choice(FROM)
    return {"from": pid, "plan": sub(pid).generate(rng, i, "quick"),
            "settings": rng.randrange(2**31) if rng.random() < 0.75 else None}


class Proxy(engine.Ctx):
    """Services for the session, which record what its calls changed"""

    def __init__(self, outer, mod):
        super().__init__(mod)
        self.outer = outer
        self.seen = []
        self.settings = None

    def take(self, res):
        if res[0] != "ok":
            return res
        self.seen.append(res[1][1])
        return ("ok", res[1][0])

    def tmpdir(self):
        return self.outer.tmpdir()

    def fork(self, func, *args, timeout=60.0):
        res = self.take(engine.forked(session.bracketed, (func, args, self.settings), timeout))
        if res[0] == "ok":
            return res[1]
        if res[0] == "exc" and res[4]:
            raise engine.HarnessError(res[3])
        raise Stop(res[:3])

    def reference(self, func, *args, timeout=60.0):
        if self.mod.ID == "C14":
            return super().reference(func, *args, timeout=timeout)
        raise Stop()

    def forked(self, func, args, timeout=60.0, **kw):
        # sessions that start their processes themselves
        return self.take(engine.forked(session.bracketed, (func, args, self.settings), timeout))


def execute(plan, ctx):
    mod = sub(plan["from"])
    p = Proxy(ctx, mod)
    p.settings = plan.get("settings")
    old = mod.__dict__.get("forked")
    if plan["from"] == "C14":
        mod.forked = p.forked
    try:
        mod.execute(plan["plan"], p)
    except (Stop, Violation, engine.RunTimeout):
        # whether the session itself went as it should is for its own property
        pass
    finally:
        if plan["from"] == "C14":
            mod.forked = old
    for s in p.seen:
        for k, n in s["count"].items():
            ctx.evals += n
            ctx.count("calls_" + k.split(".")[0], n)
        for x in s["states"]:
            ctx.state(*x)
            if x[1] != "returned":
                ctx.count("failed_calls")
        ctx.log(sorted(s["count"].items()), s["states"], s["records"])
    ctx.count("sessions_" + plan["from"])
    for s in p.seen:
        for name, how, what, detail in s["records"]:
            raise Violation("session-changed", "a call of %s that %s changed %s: %s (session of %s)" % (name, how, what, detail, plan["from"]))


def shrink(plan):
    mod = sub(plan["from"])
    if plan.get("settings") is not None:
        yield dict(plan, settings=None)
    if hasattr(mod, "shrink"):
        for c in mod.shrink(plan["plan"]):
            yield dict(plan, plan=c)
