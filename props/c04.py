"""C04: setting the total particle energy"""
import numpy as np
from astropy import units as u

from simlib import radsim
from simlib.engine import Violation

ID = "C04"
RUNS = {"quick": 320, "thorough": 8000}
LEVEL = "exploration"
RULE = (
    "seeded histories of set_We/set_Wp, energy-content and flux calls over models sharing distributions, with "
    "failures of the particle distribution at a chosen call, interrupts at a chosen executed line and invalid values; "
    "a case is one call compared with a newly built object or with the amplitude computed from an independent "
    "reference; distinct counts different consecutive operation pairs"
)
REAL = ["naima radiative models, particle distributions, memoisation", "astropy units", "numpy/scipy"]
STUB = ["particle distributions are subclassed to fail on the planned call"]
ASSUMPTIONS = ["relative tolerance 1e-7 for spectra; 1e-5 for energy contents (the library's log-log integration cancels for E^-2)", "an interrupt at an arbitrary library line may leave the request done or not "
               "done; one raised by the particle distribution must leave it not done"]


def generate(rng, i, tier):
    kinds = rng.choice([("SY", "IC", "BR", "PP"), ("SY",), ("PP",), ("IC",), ("BR", "SY"), ("SY", "PP")])
    g = radsim.Gen(rng, kinds, weights=dict(setW=9, comp=0.1, setm=1.5, setd=3, ebl=0, bulk=0.2, mutres=0.3))
    for _ in range(rng.randint(6, 16)):
        r = rng.random()
        mid = rng.choice(list(g.m))
        if r < 0.3 and g.m[mid]["k"] != "K06":
            x = rng.random()
            if x < 0.5:
                f = {"type": "callback", "n": rng.choice([1, 1, 1, 2, 2, 3, 4]),
                     "exc": rng.choice(["SimFault", "ValueError", "KeyboardInterrupt", "MemoryError",
                                        "AttributeError", "TypeError", "ZeroDivisionError"])}
                g.setW(mid, f)
            elif x < 0.75:
                g.setW(mid, {"type": "line", "n": rng.randint(1, 45), "exc": "KeyboardInterrupt"})
            else:
                op = g.setW(mid)
                y = rng.random()
                if y < 0.4:
                    op["W"] = rng.choice([[1e48, "erg/s"], [1e48, "cm"], 3.0])
                elif y < 0.8:
                    op["lo"] = [3.0, "cm"]
                else:
                    op["amp"] = "nosuchname"
                op["bad"] = True
            if g.history:
                g.repeat(mid)
        else:
            g.step()
            if g.ops[-1]["op"] == "setW" and rng.random() < 0.7:
                g.do_eval(mid)
    return {"ops": g.ops, "faulty": True}


def execute(plan, ctx):
    obs = radsim.run_history(plan, ctx)
    for o in obs:
        if "moved" in o:
            continue
        if not o.get("setW"):
            radsim.check_eval(o, ctx, Violation, "wrong-output-after-normalising")
            continue
        check_set(o, ctx)


def desc(o):
    return "op %d: set_W of %s to %s over (%s, %s), amplitude %s; %s" % (
        o["i"], o["kind"], o["W"], o["lo"], o["hi"], o["ampname"], o.get("fault"))


def check_set(o, ctx):
    ctx.evals += 1
    amp = o["ampname"]
    if not amp:
        return
    unchanged = o["amp_before"] == o["amp_after"]
    if o["orig_changed"]:
        raise Violation("amplitude-object-edited", desc(o) + ": the caller's amplitude object was edited in place")
    if o["exc"] is not None:
        f = o.get("fault")
        if f and f["type"] == "line" and o["fired"] and not unchanged:
            expect(o, ctx)
            return
        if not unchanged:
            raise Violation("half-done", desc(o) + ": raised %s but the amplitude changed from %s to %s"
                            % (o["exc"], o["d"]["p"][amp], o["amp_after_v"]))
        if not o["fired"]:
            # an unprovoked failure: only for invalid requests
            r = expect(o, ctx, only_valid=True)
            if r:
                raise Violation("valid-request-failed", desc(o) + ": raised " + o["exc"])
        return
    if o["fired"]:
        raise Violation("failure-hidden", desc(o) + ": no exception although the distribution failed")
    expect(o, ctx)


def expect(o, ctx, only_valid=False):
    W = o["W"]
    ok = isinstance(W, list) and not isinstance(W[0], list) and W[1] in ("erg", "J") \
        and (o["lo"] is None or o["lo"][1] != "cm") and o["given"] != "nosuchname"
    if only_valid:
        return ok
    if not ok:
        raise Violation("invalid-request-accepted", desc(o) + ": no exception")
    meth = "cWp" if o["kind"] == "PP" else "cWe"
    ref = ctx.reference(radsim.ref_eval, o["d"], o["ms"],
                        {"meth": meth, "how": "kw", "lo": o["lo"], "hi": o["hi"]})[1]
    if ref[0] != "q":
        raise Violation("valid-request-failed", desc(o) + ": reference energy content %r" % (ref,))
    old = (ref[1] * u.Unit(ref[2])).to("erg").value
    want = u.Quantity(*W).to("erg").value
    if not np.isfinite(old) or old <= 0:
        return True
    a0 = o["d"]["p"][o["ampname"]]
    a1 = o["amp_after_v"]
    if isinstance(a0, list):
        x0, x1 = u.Quantity(*a0), u.Quantity(*a1) if isinstance(a1, list) else a1
        try:
            x1 = u.Quantity(x1).to(x0.unit).value
        except u.UnitsError:
            raise Violation("wrong-amplitude", desc(o) + ": amplitude became %r" % (a1,))
        x0 = x0.value
    else:
        x0, x1 = a0, (u.Quantity(*a1).to("").value if isinstance(a1, list) else a1)
    exp = x0 * want / old
    if not abs(x1 - exp) <= 1e-5 * abs(exp):
        raise Violation("wrong-amplitude", desc(o) + ": amplitude %r instead of %r" % (x1, exp))
    if o["exc"] is None and "back" in o:
        b = (o["back"][1] * u.Unit(o["back"][2])).to("erg").value
        if not abs(b - want) <= 1e-5 * want:
            raise Violation("energy-content-not-as-set", desc(o) + ": reads back %r erg instead of %r" % (float(b), want))
    return True
