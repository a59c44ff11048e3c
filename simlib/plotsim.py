"""What is done with a run afterwards: plotting, tables, saving and reading.

A post-session builds a small sampling run (the real library, simulated pool)
and then performs a list of operations on it.  Figures are read back as plain
data: lines, collections, patches, texts of every axes.
"""
import copy
import math
import os
import pickle
import sys
import warnings

import numpy as np
from astropy import units as u

from . import mcmcsim as M
from . import simpool
from .engine import forked
from .simpool import SIM


# --------------------------------------------------------------- freezing
def freeze(x, depth=0):
    """Plain description of a value, comparable with ==/diff"""
    if depth > 8:
        return "deep"
    if x is None or isinstance(x, (bool, int, str, bytes)):
        return x
    if isinstance(x, float):
        return ("f", repr(x))
    if isinstance(x, u.UnitBase):
        return ("unit", x.to_string())
    if isinstance(x, u.Quantity):
        return ("q", x.unit.to_string(), np.asarray(x.value).tolist(), str(x.dtype))
    from astropy.table import Table

    if isinstance(x, Table):
        return ("table", type(x).__name__, [(c, freeze(x[c], depth + 1)) for c in x.colnames], freeze(dict(x.meta), depth + 1))
    if isinstance(x, np.ndarray):
        un = getattr(x, "unit", None)
        if x.dtype == object:
            return ("oa", x.shape, [freeze(v, depth + 1) for v in x.ravel()])
        return ("a", str(x.dtype), x.shape, None if un is None else str(un), x.tobytes().hex() if x.dtype.kind in "fiub" else x.tolist())
    if isinstance(x, np.generic):
        return ("f", repr(x.item()))
    if isinstance(x, dict):
        return ("d", [(freeze(k, depth + 1), freeze(v, depth + 1)) for k, v in x.items()])
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, [freeze(v, depth + 1) for v in x])
    if hasattr(x, "__dict__") and type(x).__module__.startswith("simlib"):
        return (type(x).__name__, freeze(x.__dict__, depth + 1))
    return type(x).__name__


def sampler_print(s):
    """Everything observable of a sampler (real or read back)"""
    return {
        "chain": freeze(np.array(s.get_chain())),
        "lnp": freeze(np.array(s.get_log_prob())),
        "blobs": freeze(s.get_blobs()),
        "data": freeze(s.data),
        "data_table": freeze(getattr(s, "data_table", None)),
        "labels": freeze(list(s.labels)),
        "info": freeze(dict(s.run_info)),
        "acc": freeze(np.mean(s.acceptance_fraction)),
        "modelfn": freeze(getattr(s, "modelfn", None)),
    }


# ------------------------------------------------------------- extraction
def _arr(x):
    try:
        return np.ma.filled(np.ma.asarray(x, dtype=float), np.nan)
    except Exception:
        return np.array([str(v) for v in np.ravel(x)])


def ex_axes(ax):
    import matplotlib.collections as mc
    from matplotlib.colors import to_rgba

    lines = []
    for ln in ax.lines:
        lines.append({
            "x": _arr(ln.get_xdata(orig=True)), "y": _arr(ln.get_ydata(orig=True)), "ls": str(ln.get_linestyle()),
            "marker": str(ln.get_marker()), "lw": float(ln.get_linewidth()), "color": list(to_rgba(ln.get_color())),
            "alpha": ln.get_alpha(), "ms": float(ln.get_markersize()), "label": str(ln.get_label()),
            "zorder": ln.get_zorder(),
        })
    colls = []
    for c in ax.collections:
        d = {"type": type(c).__name__, "zorder": c.get_zorder(), "alpha": c.get_alpha()}
        try:
            d["paths"] = [np.array(p.vertices) for p in c.get_paths()]
        except Exception:
            d["paths"] = None
        try:
            d["fc"] = np.array(c.get_facecolor())
            d["ec"] = np.array(c.get_edgecolor())
            d["lw"] = np.array(c.get_linewidth(), dtype=float)
        except Exception:
            pass
        colls.append(d)
    patches = []
    for p in ax.patches:
        try:
            v = np.array(p.get_path().transformed(p.get_patch_transform()).vertices)
        except Exception:
            v = None
        patches.append({"type": type(p).__name__, "v": v, "fc": list(p.get_facecolor())})
    return {
        "pos": np.array(ax.get_position().bounds), "title": ax.get_title(), "xlabel": ax.get_xlabel(),
        "ylabel": ax.get_ylabel(), "xscale": ax.get_xscale(), "yscale": ax.get_yscale(), "xlim": np.array(ax.get_xlim()),
        "ylim": np.array(ax.get_ylim()), "lines": lines, "colls": colls, "patches": patches,
        "texts": [(t.get_text(), np.array(t.get_position(), dtype=float)) for t in ax.texts],
    }


def extract(fig):
    return {"axes": [ex_axes(a) for a in fig.axes],
            "texts": [(t.get_text(), np.array(t.get_position(), dtype=float)) for t in fig.texts],
            "size": np.array(fig.get_size_inches())}


def diff(a, b, path="", rtol=1e-9):
    """First difference of two nested descriptions, or None"""
    if isinstance(a, dict) and isinstance(b, dict):
        if list(a) != list(b):
            return "%s: keys %s vs %s" % (path, list(a), list(b))
        for k in a:
            d = diff(a[k], b[k], path + "." + str(k), rtol)
            if d:
                return d
        return None
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        a, b = np.asarray(a), np.asarray(b)
        if a.shape != b.shape:
            return "%s: shape %s vs %s" % (path, a.shape, b.shape)
        if a.dtype.kind in "fiub" and b.dtype.kind in "fiub":
            with np.errstate(all="ignore"):
                scale = np.nanmax(np.abs(np.where(np.isfinite(a.astype(float)), a, 0))) if a.size else 0
                ok = np.isclose(a.astype(float), b.astype(float), rtol=rtol, atol=1e-13 * scale, equal_nan=True)
            if not ok.all():
                i = tuple(int(v) for v in np.argwhere(~ok)[0])
                return "%s%s: %r vs %r" % (path, list(i), a[i].item(), b[i].item())
            return None
        return None if a.tolist() == b.tolist() else "%s: %s vs %s" % (path, a, b)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if len(a) != len(b):
            return "%s: %d vs %d items" % (path, len(a), len(b))
        for i, (x, y) in enumerate(zip(a, b)):
            d = diff(x, y, "%s[%d]" % (path, i), rtol)
            if d:
                return d
        return None
    if isinstance(a, float) or isinstance(b, float):
        try:
            if a == b or (a != a and b != b) or abs(a - b) <= rtol * max(abs(a), abs(b)):
                return None
        except TypeError:
            pass
        return "%s: %r vs %r" % (path, a, b)
    return None if a == b else "%s: %s vs %s" % (path, str(a)[:200], str(b)[:200])


# -------------------------------------------------------------- operations
def val(v, shared):
    """Argument spec -> argument; {"shared": name} is the caller's own object"""
    if isinstance(v, dict) and "shared" in v:
        return shared[v["shared"]]
    if isinstance(v, dict) and "q" in v:
        return u.Quantity(np.array(v["q"][0]), v["q"][1])
    if isinstance(v, dict) and "qf" in v:
        return u.Quantity(np.array(v["qf"][0], dtype=np.float32), v["qf"][1])
    if isinstance(v, dict) and "ql" in v:
        return [u.Quantity(x, un) for x, un in v["ql"]]
    if isinstance(v, dict) and "unit" in v:
        return u.Unit(v["unit"])
    if isinstance(v, dict) and "lit" in v:
        return copy.deepcopy(v["lit"])
    return v


class FigFault:
    """Make the n-th call of a drawing/saving primitive fail"""

    def __init__(self, spec):
        self.spec, self.n, self.fired = spec, 0, False

    def __enter__(self):
        import importlib

        if self.spec["prim"] == "loginfo":
            # the place between two single plots
            import astropy

            self.host, self.name = astropy.log, "info"
            return self._patch()
        mod, cls, name = {
            "savefig": ("matplotlib.figure", "Figure", "savefig"),
            "add_subplot": ("matplotlib.figure", "Figure", "add_subplot"),
            "clf": ("matplotlib.figure", "Figure", "clf"),
            "hist": ("matplotlib.axes", "Axes", "hist"),
            "errorbar": ("matplotlib.axes", "Axes", "errorbar"),
            "loglog": ("matplotlib.axes", "Axes", "loglog"),
            "plot": ("matplotlib.axes", "Axes", "plot"),
            "axvspan": ("matplotlib.axes", "Axes", "axvspan"),
            "text": ("matplotlib.figure", "Figure", "text"),
            "set_xlabel": ("matplotlib.axes", "Axes", "set_xlabel"),
            "kde": ("scipy.stats", "gaussian_kde", "__init__"),
            "corner": ("corner", None, "corner"),
            "pdf": ("matplotlib.backends.backend_pdf", "PdfPages", "savefig"),
            "pdfclose": ("matplotlib.backends.backend_pdf", "PdfPages", "close"),
        }[self.spec["prim"]]
        m = importlib.import_module(mod)
        self.host = getattr(m, cls) if cls else m
        self.name = name
        return self._patch()

    def _patch(self):
        self.orig = getattr(self.host, self.name)
        me = self

        def wrapper(*a, **k):
            me.n += 1
            if me.n == me.spec["at"]:
                me.fired = True
                SIM.count("fault_%s_%s" % (me.spec["prim"], me.spec["exc"]))
                raise simpool.EXCS[me.spec["exc"]]("injected in " + me.spec["prim"])
            return me.orig(*a, **k)

        setattr(self.host, self.name, wrapper)
        return self

    def __exit__(self, *a):
        setattr(self.host, self.name, self.orig)
        return False


class NoFault:
    fired = False

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


def rc_state():
    import matplotlib as mpl

    return {k: repr(v) for k, v in dict.items(mpl.rcParams)}


class Post:
    """State of a post-session"""

    def __init__(self, sc, sched, tmp):
        import naima

        self.naima = naima
        self.sc, self.tmp = sc, tmp
        self.shared = {}
        self.figs = {}
        self.files = {}
        self.copy = None
        warnings.simplefilter("ignore")
        SIM.reset(sched.get("seed", 0), sched.get("chunking", "random"), None)
        M.set_cpus(sched.get("cpu", "real"))
        np.random.seed(sc["seed"] % 2**32)
        self.data = M.make_data(sc)
        self.model = M.SimModel(sc["model"])
        self.prior = M.SimPrior(sc["prior"]) if sc["prior"] is not None else None
        self._out = sys.stdout
        sys.stdout = M.FailingOut()
        try:
            self.s, self.pos = naima.run_sampler(
                nrun=sc["nrun"], data_table=self.data, p0=list(sc["p0"]), model=self.model, prior=self.prior,
                nwalkers=sc["nwalkers"], nburn=sc["nburn"], guess=sc["guess"], labels=sc["labels"],
                threads=1, data_sed=sc.get("data_sed"), prefit=sc.get("prefit", False))
        finally:
            sys.stdout = self._out
        for k, v in (sc.get("shared") or {}).items():
            self.shared[k] = copy.deepcopy(v["lit"]) if "lit" in v else val(v, {})

    def go_on(self, op):
        """Continue the run (the sampler then holds the steps of this call)"""
        np.random.seed(op["rs"])
        SIM.fault, SIM.fired = None, False
        oldout, sys.stdout = sys.stdout, M.FailingOut()
        try:
            self.s, self.pos = self.naima.run_sampler(nrun=op["n"], sampler=self.s, pos=self.pos)
        finally:
            sys.stdout = oldout
        if op.get("save"):
            self.save()

    def save(self):
        path = os.path.join(self.tmp, "run%d.h5" % os.getpid())
        self.naima.save_run(path, self.s, clobber=True)
        self.copy = self.naima.read_run(path, modelfn=self.model)

    def sampler(self, op):
        return self.copy if op.get("copy") and self.copy is not None else self.s

    def perform(self, op):
        """One operation; returns an observation"""
        import matplotlib.pyplot as plt

        o = {"op": op["op"], "copy": bool(op.get("copy") and self.copy is not None)}
        s = self.sampler(op)
        kw = {k: val(v, self.shared) for k, v in op.get("kw", {}).items()}
        figs0 = plt.get_fignums()
        cur = plt.gcf().number if figs0 else None
        userfig = None
        if op.get("figure"):
            userfig = plt.figure(figsize=(5, 4))
            kw["figure"] = userfig
            if op.get("onto"):
                # a figure with an earlier plot in it
                prev = op["onto"]
                np.random.seed(5)
                self.call(prev, s, dict({k: val(v, self.shared) for k, v in prev["kw"].items()}, figure=userfig))
                onto0 = extract(userfig)
            if op["figure"] == "not-current":
                plt.figure()
            figs0 = plt.get_fignums()
        others = {n: extract(plt.figure(n)) for n in figs0 if userfig is None or n != userfig.number} if op.get("watch", True) else {}
        if figs0:
            plt.figure(figs0[-1])
        rc0 = rc_state()
        args0 = {k: freeze(v) for k, v in kw.items() if k != "figure"}
        shared0 = freeze(self.shared)
        sp0 = sampler_print(s)
        inp0 = freeze(self.data)
        npools = len(SIM.pools)
        SIM.fault, SIM.fired = None, False
        f = op.get("fault")
        if f and f["type"] == "eval":
            SIM.fault = {"at": SIM.task_no + f["at"], "exc": f["exc"], "where": f.get("where", "model")}
        guard = FigFault(f) if f and f["type"] == "fig" else (
            M.LineFault(f["at"], f["exc"], tuple(f["files"])) if f and f["type"] == "line" else NoFault())
        fdcount = None
        ret = None
        np.random.seed(op.get("rs", 7))
        base = SIM.task_no
        oldout, sys.stdout = sys.stdout, M.FailingOut()
        try:
            with guard:
                ret = self.call(op, s, kw)
            o["exc"] = None
        except BaseException as e:  # noqa
            o["exc"] = [type(e).__name__, str(e)[:300]]
            if os.environ.get("SIM_DEBUG"):
                import traceback

                traceback.print_exc()
        finally:
            sys.stdout = oldout
        SIM.fault = None
        o["fired"] = bool(guard.fired or SIM.fired)
        o["where"] = guard.fired if isinstance(guard.fired, tuple) else None
        o["evals"] = SIM.task_no - base
        o["live"] = len(SIM.live_pools())
        o["newpools"] = len(SIM.pools) - npools
        o["firetask"] = guard.task - base if o["where"] else None
        o["maxlive"], SIM.maxlive = max(SIM.maxlive, o["live"]), o["live"]
        o["workers"] = [p._processes for p in SIM.pools[npools:]]
        figs1 = plt.get_fignums()
        rc1 = rc_state()
        o["rc"] = [(k, rc0.get(k), rc1.get(k)) for k in rc1 if rc0.get(k) != rc1.get(k)] + \
            [(k, rc0[k], None) for k in rc0 if k not in rc1]
        o["newfigs"] = [n for n in figs1 if n not in figs0]
        o["lostfigs"] = [n for n in figs0 if n not in figs1]
        args1 = {k: freeze(v) for k, v in kw.items() if k != "figure"}
        o["args"] = diff(args0, args1, "argument", 0) or diff(shared0, freeze(self.shared), "caller's container", 0)
        try:
            sp1 = sampler_print(s)
            o["sampler"] = diff(sp0, sp1, "sampler", 0)
        except Exception as e:
            o["sampler"] = "cannot be read any more: %r" % e
        o["input"] = diff(inp0, freeze(self.data), "data table", 0)
        o["otherfigs"] = None
        for n, before in others.items():
            if n in figs1:
                d = diff(before, extract(plt.figure(n)), "figure %d" % n)
                if d:
                    o["otherfigs"] = d
        # what was drawn
        import matplotlib.figure

        if isinstance(ret, matplotlib.figure.Figure):
            o["samefig"] = userfig is None or ret is userfig
            o["fig"] = extract(ret)
            if op.get("onto"):
                a0, a1 = onto0["axes"][0], o["fig"]["axes"][0]
                nl, nc = len(a0["lines"]), len(a0["colls"])
                o["earlier"] = diff(
                    [a0["lines"], a0["colls"]] + [[a["lines"], a["colls"]] for a in onto0["axes"][1:]],
                    [a1["lines"][:nl], a1["colls"][:nc]] + [[a["lines"], a["colls"]] for a in o["fig"]["axes"][1:]],
                    "the earlier plot", 0)
                o["added"] = dict(a1, lines=a1["lines"][nl:], colls=a1["colls"][nc:])
        elif op["op"] == "chainall" and o["exc"] is None:
            o["fig"] = {"figs": [extract(plt.figure(n)) for n in o["newfigs"]]}
        elif ret is not None and not isinstance(ret, (np.ndarray, bool)):
            o["val"] = self.describe(ret)
        elif isinstance(ret, bool):
            o["val"] = ret
        if not op.get("keep"):
            for n in o["newfigs"]:
                plt.close(n)
            if userfig is not None:
                plt.close(userfig)
            if op.get("figure") == "not-current":
                plt.close(figs0[-1])
        return o

    def describe(self, ret):
        from astropy.table import Table

        if isinstance(ret, Table):
            return freeze(ret)
        return freeze(ret) if not hasattr(ret, "get_chain") else sampler_print(ret)

    def call(self, op, s, kw):
        n = self.naima
        k = op["op"]
        if k == "chain":
            return n.plot_chain(s, op["p"], **kw)
        if k == "chainall":
            return n.plot_chain(s, **kw)
        if k == "fit":
            return n.plot_fit(s, **kw)
        if k == "blob":
            return n.plot_blob(s, **kw)
        if k == "corner":
            return n.plot_corner(s, **kw)
        if k == "data":
            src = {"sampler": s, "table": self.data, "validated": s.data}.get(op["src"])
            if src is None:
                src = {c: s.data[c] for c in s.data.colnames if c != "group" or op["src"] == "dict"}
            return n.plot_data(src, **kw)
        if k == "diag":
            n.save_diagnostic_plots(os.path.join(self.tmp, op["out"]), s, **kw)
            return None
        if k == "table":
            return n.save_results_table(os.path.join(self.tmp, op["out"]), s, **kw)
        if k == "save":
            n.save_run(os.path.join(self.tmp, op["out"]), s, **kw)
            return None
        if k == "read":
            r = n.read_run(os.path.join(self.tmp, op["out"]), **({"modelfn": self.model} if op.get("modelfn") else {}))
            self.copy = r
            return r
        if k == "lut":
            n.radiative.generate_lut_pp(
                Ep=u.Quantity(np.array(op["Ep"]), op["epunit"]), Eg=u.Quantity(np.array(op["Eg"]), op["egunit"]),
                out_base=os.path.join(self.tmp, op["out"]), **kw)
            return None
        if k == "rc":
            import matplotlib as mpl

            mpl.rcParams[op["key"]] = op["value"]
            return None
        raise ValueError(k)


def dead_fds():
    return sorted(os.listdir("/proc/self/fd"))


# ---------------------------------------------------------------- generator
def g_run(rng, outs=None, kinds_rad=False, **k):
    sc = M.g_scenario(rng, rad=1.0 if kinds_rad else 0.1, threads=1, outs=outs, prior=rng.choice(["none", "uniform", "tight", "mixed", "user"]), **k)
    sc["nrun"] = rng.randint(3, 6)
    sc["nburn"] = rng.choice([0, 2])
    sc["nwalkers"] = max(sc["nwalkers"], 8)
    return sc


NOUT = {"flux": 2, "list1": 2, "scalar": 2, "npscalar": 2, "cont": 2, "list": 2, "same": 2, "samearr": 2, "pair": 2, "near": 2, "many": 6}


def spectral(sc):
    """Output indices that plot_fit can draw, and scalar ones"""
    out = sc["model"]["out"]
    spec = [0] + ([1] if out in ("same", "pair", "near", "many") else [])
    scal = {"scalar": [1], "npscalar": [1], "cont": [1], "list": [1], "many": [2, 3]}.get(out, [])
    return spec, scal


def g_plot(rng, sc, shared, kinds=None):
    spec, scal = spectral(sc)
    k = rng.choice(kinds or ["fit", "fit", "fit", "blob", "data", "data", "chain", "chain", "corner", "chainall"])
    op = {"op": k, "rs": rng.randrange(2**31), "kw": {}}
    kw = op["kw"]
    if k == "chain":
        op["p"] = rng.randrange(len(sc["p0"]))
        if rng.random() < 0.3:
            kw["last_step"] = True
    elif k == "chainall":
        if rng.random() < 0.3:
            kw["last_step"] = True
    elif k == "corner":
        kw["show_ML"] = rng.random() < 0.6
    elif k in ("fit", "blob"):
        if k == "fit":
            kw["modelidx"] = rng.choice(spec)
        else:
            kw["blobidx"] = rng.choice(spec + scal + scal)
            if kw["blobidx"] in scal:
                if rng.random() < 0.3:
                    kw["last_step"] = True
                if rng.random() < 0.5:
                    kw["label"] = "energy content"
                if rng.random() < 0.3:
                    op["figure"] = rng.choice(["current", "not-current"])
                return op
        if rng.random() < 0.4:
            kw["sed"] = rng.random() < 0.5
        if rng.random() < 0.25:
            kw["last_step"] = True
        x = rng.random()
        if x < 0.4:
            kw["confs"] = {"shared": "confs"} if rng.random() < 0.5 else {"lit": rng.choice([[3, 1], [1], [1, 2, 3], [0.5, 3]])}
        elif x < 0.6:
            kw["n_samples"] = rng.choice([1, 3, 10])
        elif x < 0.7:
            kw["n_samples"] = None
        if rng.random() < 0.3:
            kw["ML_info"] = True
        if rng.random() < 0.4:
            kw["e_unit"] = {"unit": rng.choice(["eV", "keV", "GeV", "erg", "TeV"])}
        if rng.random() < 0.35:
            kw["e_range"] = rng.choice([{"q": [[0.05, 60], "TeV"]}, {"ql": [[50, "GeV"], [80, "TeV"]]}, {"shared": "erange"}])
            kw["e_npoints"] = rng.choice([5, 12])
            kw["threads"] = rng.choice([1, 2, 3, None])
        if rng.random() < 0.2:
            kw["plotdata"] = rng.random() < 0.5
        if rng.random() < 0.2:
            kw["plotresiduals"] = rng.random() < 0.5
            # residuals need the data's and the model's physical type to agree
        if rng.random() < 0.2:
            kw["label"] = "Some label"
        if rng.random() < 0.2:
            kw["ylabel"] = "y"
        if rng.random() < 0.2:
            kw["xlabel"] = "x"
        if rng.random() < 0.35:
            op["figure"] = rng.choice(["current", "not-current"])
    elif k == "data":
        op["src"] = rng.choice(["sampler", "table", "validated", "dict"])
        if op["src"] == "dict" and len(sc["tables"]) == 1 and rng.random() < 0.5:
            op["src"] = "dict-nogroup"
        if rng.random() < 0.5:
            kw["sed"] = rng.random() < 0.5
        if rng.random() < 0.4:
            kw["e_unit"] = {"unit": rng.choice(["eV", "keV", "GeV", "erg"])}
        if rng.random() < 0.3:
            op["figure"] = rng.choice(["current", "not-current"])
            if rng.random() < 0.6:
                # added to an earlier plot, whose energy axis stays as it is
                un = rng.choice(["eV", "keV", "GeV", "erg", "TeV", "MeV"])
                op["onto"] = {"op": rng.choice(["data", "fit"]), "src": "sampler", "kw": {"e_unit": {"unit": un}}}
                if op["onto"]["op"] == "fit":
                    op["onto"]["kw"].update(n_samples=rng.choice([2, None]))
                elif rng.random() < 0.3:
                    op["onto"]["kw"]["xlabel"] = "Energy [%s]" % un
                if "sed" in kw:
                    op["onto"]["kw"]["sed"] = kw["sed"]
                if "e_unit" in kw:
                    kw["e_unit"] = {"unit": un}
    if k in ("fit", "blob", "data"):
        if rng.random() < 0.5:
            kw["errorbar_opts"] = {"shared": "errorbar_opts"}
        if rng.random() < 0.5:
            kw["ulim_opts"] = {"shared": "ulim_opts"}
    return op


def g_shared(rng):
    return {
        "errorbar_opts": {"lit": rng.choice([{}, {"elinewidth": 1}, {"ms": 4, "zorder": 50}, {"color": "r", "elinewidth": 3}])},
        "ulim_opts": {"lit": rng.choice([{}, {"capsize": 3}, {"height_fraction": 0.4, "capsize": 2}])},
        "confs": {"lit": rng.choice([[1, 3], [0.5, 2, 3], [2]])},
        "erange": {"q": [[0.1, 40], "TeV"]},
        "labels": {"lit": rng.choice([["first"], [], ["first", "second"]])},
    }


def warm():
    """Load fonts and drawing code once, in the parent of all simulated runs"""
    import io as _io

    import corner  # noqa
    import matplotlib

    matplotlib.use("Agg")
    import matplotlib.backends.backend_pdf  # noqa
    import matplotlib.pyplot as plt
    from PIL import Image, PngImagePlugin  # noqa

    f = plt.figure(figsize=(2, 2))
    ax = f.add_subplot(111)
    ax.loglog([1, 2, 3], [1, 2, 3])
    ax.set_xlabel(r"$E^2\mathrm{d}N$ [TeV]")
    f.savefig(_io.BytesIO(), dpi=20, format="png")
    f.savefig(_io.BytesIO(), dpi=20, format="pdf")
    plt.close(f)
