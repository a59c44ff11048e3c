"""C19: the interactive fitter hands back exactly the model it displays"""
import math
import re
import sys
import warnings

import numpy as np
from astropy import units as u

from simlib import mcmcsim as M
from simlib import plotcheck
from simlib import plotsim as P
from simlib.engine import Violation
from simlib.mcmcsim import factor
from simlib.simpool import SIM

ID = "C19"
RUNS = {"quick": 110, "thorough": 8000}
RULE = (
    "sessions of an interactive fitter, stand-alone or inside get_sampler: seeded sequences of 1-9 events (mouse presses, "
    "drags and clicks on the real widgets delivered by a simulated event loop, or calls of the event handlers, also after "
    "the window's loop has ended), chosen events meeting a failure at the n-th model evaluation; after every event the "
    "drawn curve and the stated log-likelihood are recomputed from the parameters handed back, and parameters, flag and "
    "auto-update choice compared with a small reference automaton; a case is one event; distinct counts (event, way, "
    "automaton state, flag, outcome, fault)"
)
REAL = ["naima.model_fitter, naima.core _prefit/get_sampler, naima.extern.minimize", "matplotlib figures, widgets and event processing (Agg canvas)"]
STUB = ["window system: a scripted event loop takes the place of plt.show", "user model functions"]
ASSUMPTIONS = ["a fit is taken as not converged if it used 500 model evaluations, its documented limit"]


def prepare():
    P.warm()
    import naima

    naima.InteractiveModelFitter  # noqa


def generate(rng, i, tier):
    sc = M.g_scenario(rng, rad=0.06, threads=1, prior="none", outs=["flux", "list1", "scalar", "cont", "same", "pair"])
    m = sc["model"]
    simple = m["kind"] in ("pl", "ecpl", "logpl")
    sc["nwalkers"] = 60
    sc["nburn"] = 0
    sc["guess"] = False
    x = rng.random()
    if simple and x < 0.15:
        m["nan_above"] = sc["p0"][1] * rng.choice([1.05, 1.3])
    elif simple and x < 0.25:
        m["rugged"] = rng.choice([0.1, 0.5])
    elif simple and x < 0.37:
        m["noisy"] = rng.choice([0.05, 0.5])
    if rng.random() < 0.3:
        k = rng.randrange(len(sc["p0"]))
        sc["p0"][k] = rng.choice([-sc["p0"][k], sc["p0"][k] * 3, sc["p0"][k] * 0.3])
    for k in range(len(sc["p0"])):
        if rng.random() < 0.4:
            sc["p0"][k] *= rng.choice([0.7, 0.9, 1.2])
    sc["p0form"] = rng.choice(["list", "array", "tuple"])
    if rng.random() < 0.12 and "noisy" not in m:
        # starting values given as whole numbers
        sc["p0form"] = rng.choice(["ints", "intarray"])
        sc["p0"] = [float(round(p) or 1) for p in sc["p0"]]
    mode = rng.choice(["own", "own", "own", "sampler"])
    plan = {"sc": sc, "mode": mode, "calls": [], "kw": {}}
    kw = plan["kw"]
    if mode == "own":
        plan["data"] = rng.random() < 0.8
        if rng.random() < 0.4:
            plan["e_range"] = rng.choice([[0.05, 60, "TeV"], [50, 80000, "GeV"], [1e9, 1e13, "eV"]])
            kw["e_npoints"] = rng.choice([5, 9])
        elif not plan["data"]:
            kw["e_npoints"] = rng.choice([6, 12])
        if rng.random() < 0.5:
            kw["sed"] = rng.random() < 0.5
        if rng.random() < 0.5:
            kw["auto_update"] = rng.random() < 0.5
    else:
        plan["data"] = True
        plan["prefit"] = rng.random() < 0.4
    for _ in range(rng.randint(1, 9)):
        e = rng.choice(["slide", "slide", "slide", "drag", "toggle", "update", "update", "fit", "fit"])
        if e == "fit" and not plan["data"]:
            e = "slide"
        op = {"op": e, "via": rng.choice(["gui", "gui", "direct"])}
        if e in ("slide", "drag"):
            op["k"] = rng.randrange(len(sc["p0"]))
            op["to"] = [rng.choice([rng.uniform(-0.02, 1.02), rng.random(), 0.5])] if e == "slide" else [rng.random() for _ in range(rng.randint(2, 4))]
        if rng.random() < 0.22:
            op["fault"] = {"at": rng.choice([1, 1, 2, 3, rng.randint(1, 40), rng.randint(1, 120)]),
                           "exc": rng.choice(["ValueError", "KeyboardInterrupt", "FloatingPointError", "MemoryError", "ZeroDivisionError"]), "where": "model"}
        plan["calls"].append(op)
    plan["after"] = rng.randint(0, len(plan["calls"])) if mode == "own" else 0
    for op in plan["calls"][len(plan["calls"]) - plan["after"]:]:
        # buttons are served while the window's loop runs
        op["via"] = "gui" if op["op"] in ("slide", "drag") and op["via"] == "gui" else "direct"
    return plan


class Loop:
    """The window system: delivers the planned events, lives on after errors"""

    def __init__(self, plan):
        self.plan, self.obs, self.imf, self.pos = plan, [], None, 0

    def widget_axes(self, text):
        for ax in self.imf.fig.axes:
            for t in ax.texts:
                if t.get_text() == text:
                    return ax
        raise KeyError(text)

    def mouse(self, name, ax, fx, fy):
        from matplotlib.backend_bases import MouseEvent

        x, y = ax.transAxes.transform((fx, fy))
        ev = MouseEvent(name, self.imf.fig.canvas, x, y, button=1)
        self.imf.fig.canvas.callbacks.process(name, ev)

    def press_release(self, ax, fx, fy):
        try:
            self.mouse("button_press_event", ax, fx, fy)
        finally:
            self.mouse("button_release_event", ax, fx, fy)

    def perform(self, op):
        f = self.imf
        gui = op["via"] == "gui"
        if op["op"] in ("slide", "drag"):
            sl = f.parsliders[op["k"]]
            if not gui:
                for fr in op["to"]:
                    sl.set_val(sl.valmin + fr * (sl.valmax - sl.valmin))
                return
            fr = [min(max(x, 0.001), 0.999) for x in op["to"]]
            if op["op"] == "slide":
                return self.press_release(sl.ax, fr[0], 0.5)
            try:
                self.mouse("button_press_event", sl.ax, fr[0], 0.5)
                for x in fr[1:]:
                    self.mouse("motion_notify_event", sl.ax, x, 0.5)
            finally:
                self.mouse("button_release_event", sl.ax, fr[-1], 0.5)
        elif op["op"] == "toggle":
            if gui:
                ax = self.widget_axes("Auto update")
                f.fig.canvas.draw()
                t = [t for t in ax.texts if t.get_text() == "Auto update"][0]
                bb = t.get_window_extent()
                x, y = ax.transAxes.inverted().transform(((bb.x0 + bb.x1) / 2, (bb.y0 + bb.y1) / 2))
                self.press_release(ax, x, y)
            else:
                f.update_autoupdate("Auto update")
        elif op["op"] == "update":
            if gui:
                self.press_release(self.widget_axes("Update model"), 0.5, 0.5)
            else:
                f.update("event")
        elif op["op"] == "fit":
            if gui:
                self.press_release(self.widget_axes("Do Nelder-Mead fit"), 0.5, 0.5)
            else:
                f.do_fit("event")

    def look(self):
        f = self.imf
        txt = getattr(f, "lnprobtxt", None)
        return {
            "pars": [float(x) for x in f.pars], "ml": bool(f.P0_IS_ML), "auto": bool(f.autoupdate),
            "x": np.array(f.line.get_xdata(), dtype=float), "y": np.array(u.Quantity(f.line.get_ydata()).value, dtype=float),
            "txt": txt.get_text() if txt is not None else None, "sliders": [float(s.val) for s in f.parsliders],
            "bounds": [[float(s.valmin), float(s.valmax)] for s in f.parsliders],
            "xlabel": f.fig.axes[0].get_xlabel(),
        }

    def run(self, upto):
        while self.pos < upto:
            op = self.plan["calls"][self.pos]
            self.pos += 1
            self.step(op)

    def step(self, op):
        SIM.fault, SIM.fired = None, False
        base = SIM.task_no
        if op.get("fault"):
            SIM.fault = dict(op["fault"], at=base + op["fault"]["at"])
        exc = None
        try:
            self.perform(op)
        except BaseException as e:  # noqa
            if isinstance(e, KeyError) and "injected" not in str(e):
                raise
            exc = [type(e).__name__, str(e)[:200]]
        SIM.fault = None
        o = self.look()
        o.update(exc=exc, evals=SIM.task_no - base, fired=SIM.fired)
        self.obs.append(o)

    def show(self, *a, **k):
        self.obs.append(dict(self.look(), exc=None, evals=0, fired=False))
        self.run(len(self.plan["calls"]) - self.plan["after"])


def subject(plan):
    import matplotlib.pyplot as plt
    import naima
    import naima.model_fitter as mf

    warnings.simplefilter("ignore")
    sc = plan["sc"]
    SIM.reset(1)
    np.random.seed(4)
    sys.stdout = M.FailingOut()
    loop = Loop(plan)
    plt.show = loop.show
    orig = mf.InteractiveModelFitter

    class Watched(orig):
        def __init__(self, *a, **k):
            loop.imf = self
            super().__init__(*a, **k)

    mf.InteractiveModelFitter = Watched
    data = M.make_data(sc)
    p0 = {"list": list, "tuple": tuple, "array": np.array, "ints": lambda x: [int(p) for p in x],
          "intarray": lambda x: np.array(x).astype(int)}[sc["p0form"]](sc["p0"])
    model = M.SimModel(sc["model"])
    out = {"exc": None}
    try:
        if plan["mode"] == "own":
            kw = dict(plan["kw"])
            if "e_range" in plan:
                a, b, un = plan["e_range"]
                kw["e_range"] = [a * u.Unit(un), b * u.Unit(un)]
            f = Watched(model, p0, data=data if plan["data"] else None, labels=sc["labels"], **kw)
            loop.run(len(plan["calls"]))
            out["final"] = loop.look()
            f.close_fig(None)
            out["closed"] = not plt.get_fignums()
        else:
            s, pos = naima.get_sampler(
                data_table=data, p0=p0, model=model, prior=None, nwalkers=sc["nwalkers"], nburn=0, guess=False,
                labels=sc["labels"], threads=1, data_sed=sc.get("data_sed"), interactive=True, prefit=plan["prefit"])
            out["p0"] = [float(x) for x in s.run_info["p0"]]
            out["pos"] = np.array(pos.coords if hasattr(pos, "coords") else pos)
    except BaseException as e:  # noqa
        import traceback

        out["exc"] = [type(e).__name__, str(e)[:200], traceback.format_exc()[-1500:]]
    out["obs"] = loop.obs
    out["stats"] = dict(SIM.stats)
    return out


def reference(sc, want, energies):
    """Curves at the given energies (TeV) and likelihoods"""
    warnings.simplefilter("ignore")
    e = np.array([p[0] for p in M.raw_points(sc)])
    res = []
    for p, en in zip(want, energies):
        out = M.compute(sc["model"], p, {"energy": u.Quantity(e, "TeV")}, fresh=True)
        like = M.oracle_like(sc, M.model_sed(sc, out))
        out = M.compute(sc["model"], p, {"energy": u.Quantity(np.array(en), "TeV")}, fresh=True)
        spec = out[0] if isinstance(out, (tuple, list)) else out
        res.append((like, np.array(spec.value), spec.unit.to_string()))
    return res


def execute(plan, ctx):
    sc = plan["sc"]
    r = ctx.fork(subject, plan, timeout=120)
    ctx.merge(r["stats"])
    if not r["obs"]:
        # nothing was displayed: the model cannot be drawn at the start
        raise Violation("no-window", "the fitter did not open: %s" % (r["exc"],))
    if sc["p0form"].startswith("int"):
        # whole numbers are numbers: everything as with the same values as floats
        r2 = ctx.fork(subject, dict(plan, sc=dict(sc, p0form="list")), timeout=120)
        for k, (o, o2) in enumerate(zip(r["obs"], r2["obs"])):
            for what in ("pars", "ml", "txt"):
                if repr(o[what]) != repr(o2[what]):
                    raise Violation("integer-start", "event %d: %s with p0 given as whole numbers, %s with the same floats" % (k - 1, o[what], o2[what]))
    sed = plan["kw"].get("sed", True)
    nan = math.nan
    # what the energies of the display are
    if "e_range" in plan:
        a, b, un = plan["e_range"]
        grid = np.logspace(math.log10(a * factor(un, "TeV")), math.log10(b * factor(un, "TeV")), plan["kw"].get("e_npoints", 100))
        xunit = sc_eunit(plan) if plan["data"] else un
    elif plan["data"]:
        grid = np.array([p[0] for p in M.raw_points(sc)])
        xunit = sc_eunit(plan)
    else:
        grid = np.logspace(-4, 2, plan["kw"].get("e_npoints", 100))
        xunit = "TeV"
    obs = list(r["obs"])
    if r.get("final"):
        obs.append(dict(r["final"], exc=None, evals=0, fired=False))
    want = []
    for o in obs:
        want.append(o["pars"])
    res = ctx.raw_fork(reference, sc, want, [grid.tolist()] * len(want), timeout=120)
    if res[0] != "ok":
        raise RuntimeError("reference failed %r" % (res,))
    ops = [None] + list(plan["calls"][: len(r["obs"]) - 1]) + ([{"op": "end", "via": ""}] if r.get("final") else [])
    auto = plan["kw"].get("auto_update", True)
    fitted = None
    prev = None
    for k, (op, o, (like, vals, unit)) in enumerate(zip(ops, obs, res[1])):
        ctx.evals += 1
        lab = "after opening" if op is None else "event %d %s" % (k - 1, op)
        ctx.log(k, o["pars"], o["ml"], o["auto"], o["txt"], o["exc"])
        ctx.state(op and (op["op"], op["via"]), auto, o["ml"], o["exc"] and o["exc"][0], bool(op and op.get("fault") and o["fired"]),
                  plan["mode"], plan["data"], "e_range" in plan, sed)
        if op and op.get("fault") and o["fired"]:
            ctx.count("reached")
        # 1. auto-update changes only with the user
        if op and op["op"] == "toggle" and not (o["exc"]):
            auto = not auto
            ctx.count("toggles")
        if o["auto"] != auto:
            raise Violation("auto-update-changed", "%s: auto-update is %s, the user's choice is %s" % (lab, o["auto"], auto))
        # 2. display = parameters handed back
        if o["x"].shape != grid.shape or not np.allclose(o["x"] * factor(xunit, "TeV"), grid, rtol=1e-9, atol=0):
            raise Violation("wrong-energies", "%s: curve drawn at %s %s instead of %s TeV" % (lab, o["x"].tolist(), xunit, grid.tolist()))
        y = plotcheck.to_plot(vals, unit, grid, sed)
        if not np.allclose(o["y"], y, rtol=1e-7, atol=0, equal_nan=True):
            raise Violation("curve-not-of-parameters", "%s: parameters %s, the drawn curve is %s, the model gives %s"
                            % (lab, o["pars"], o["y"].tolist(), y.tolist()))
        if plan["data"]:
            m = re.search(r"= *(\S+?)\$", o["txt"])
            got = float(m.group(1))
            if not (got != got and like != like) and got != like and not abs(got - like) <= 0.0500001 + 1e-7 * abs(like):
                raise Violation("likelihood-not-of-parameters", "%s: parameters %s, displayed %s, data give %.6g" % (lab, o["pars"], o["txt"], like))
        # 3. what the event has to do
        clean = not (op and op.get("fault") and o["fired"])
        if o["exc"] and clean:
            raise Violation("event-failed", "%s: %s" % (lab, o["exc"]))
        if op is None:
            if not np.array_equal(o["pars"], [float(x) for x in sc["p0"]]):
                raise Violation("wrong-start", "%s: parameters %s instead of %s" % (lab, o["pars"], sc["p0"]))
        elif op["op"] == "update" and clean:
            if o["pars"] != o["sliders"]:
                raise Violation("update-ignored", "%s: parameters %s, sliders %s" % (lab, o["pars"], o["sliders"]))
        elif op["op"] in ("slide", "drag"):
            if auto and clean and o["sliders"] != prev["sliders"] and o["pars"] != o["sliders"]:
                raise Violation("slider-ignored", "%s: parameters %s, sliders %s" % (lab, o["pars"], o["sliders"]))
            if not auto and o["pars"] != prev["pars"]:
                raise Violation("updated-unasked", "%s: auto-update is off, parameters went from %s to %s" % (lab, prev["pars"], o["pars"]))
        elif op["op"] in ("toggle", "end"):
            if o["pars"] != prev["pars"]:
                raise Violation("updated-unasked", "%s: parameters went from %s to %s" % (lab, prev["pars"], o["pars"]))
        elif op["op"] == "fit" and clean:
            ctx.count("fits")
            u_ = 1 if "e_range" not in plan else 2
            fitted = None
            if o["evals"] - 2 - u_ < 500:
                # the converged result is what the parameters are now, unless
                # the sliders could not follow
                fitted = list(o["pars"])
            else:
                ctx.count("fits_not_converged")
            like0 = res[1][k - 1][0] if prev["pars"] == prev["sliders"] else nan
            if o["ml"] and like0 == like0 and not like >= like0 - 1e-7 * abs(like0) - 1e-9:
                raise Violation("fit-got-worse", "%s: log-likelihood %r at %s, before the fit %r" % (lab, like, o["pars"], like0))
            if o["ml"]:
                ctx.count("fits_flagged")
        # 4. flag
        if o["ml"]:
            if fitted is None or o["pars"] != fitted:
                raise Violation("flag-without-fit", "%s: %s flagged as maximum-likelihood, the last converged fit gave %s" % (lab, o["pars"], fitted))
            lims = o["bounds"]
            if op and op["op"] == "fit" and clean and any(
                    p in b and b[0] != b[1] and q != p for p, q, b in zip(o["pars"], prev["sliders"], lims)):
                # at the end of a slider: not where the fit ended
                raise Violation("flag-at-slider-end", "%s: %s flagged as maximum-likelihood, sliders end at %s" % (lab, o["pars"], lims))
        prev = o
    last = obs[-1]
    if plan["mode"] == "sampler":
        if r["exc"]:
            raise Violation("sampler-failed", "%s" % (r["exc"],))
        if not plan["prefit"] or last["ml"]:
            if r["p0"] != last["pars"]:
                raise Violation("handed-back-differs", "sampler starts from %s, the fitter displayed %s" % (r["p0"], last["pars"]))
            pos = r["pos"]
            mu, sd = pos.mean(axis=0), pos.std(axis=0)
            for j, p in enumerate(last["pars"]):
                if not abs(mu[j] - p) <= 6 * sd[j] / math.sqrt(len(pos)) + 1e-12 * abs(p):
                    raise Violation("walkers-elsewhere", "walkers around %s, the fitter displayed %s" % (mu.tolist(), last["pars"]))
    elif r["exc"]:
        raise Violation("fitter-failed", "%s" % (r["exc"],))
    elif not r["closed"]:
        raise Violation("window-left", "the figure is still open after close")


def sc_eunit(plan):
    return plan["sc"]["tables"][0]["eunit"]


def shrink(plan):
    c = plan["calls"]
    n = len(c) - plan["after"]
    for k in range(len(c)):
        if len(c) > 1:
            yield dict(plan, calls=c[:k] + c[k + 1:], after=plan["after"] - (1 if k >= n else 0))
    for k in range(len(c)):
        if c[k].get("fault"):
            yield dict(plan, calls=c[:k] + [{a: b for a, b in c[k].items() if a != "fault"}] + c[k + 1:])
    sc = plan["sc"]
    for a in ("nan_above", "rugged", "noisy"):
        if a in sc["model"]:
            yield dict(plan, sc=dict(sc, model={k: v for k, v in sc["model"].items() if k != a}))
    for cand in M.shrink_scenario(plan):
        if cand["sc"]["nwalkers"] == sc["nwalkers"]:
            yield cand
