"""Histories over live radiative models: generator, interpreter, references.

A history is a list of JSON operations over numbered particle distributions
and models.  The interpreter performs them on real naima objects and keeps a
shadow specification of every object's *current settings*; every evaluation is
recorded together with a snapshot of that specification.  The oracle is the
same request, canonically spelled, on an object newly built from the snapshot
in a pristine process.
"""
import copy
import gc
import itertools
import json
import math
import os
import pickle
import sys
import warnings

import numpy as np
from astropy import units as u

warnings.simplefilter("ignore")

ELECTRON = ("SY", "IC", "BR")
PROTON = ("PP",)
KINDS = ("SY", "IC", "BR", "PP", "K06")


# ------------------------------------------------------------ user models
class SimFault(Exception):
    """Raised by user-supplied distributions on the planned call"""


class _Arm:
    """Countdown to the planned failure inside a particle distribution"""

    left = None
    exc = SimFault
    fired = 0
    calls = 0


def _tick():
    _Arm.calls += 1
    if _Arm.left is not None:
        _Arm.left -= 1
        if _Arm.left == 0:
            _Arm.left = None
            _Arm.fired += 1
            raise _Arm.exc("planned failure of the particle distribution")


class FnDist:
    """User-supplied distribution that does not say what its parameters are"""

    def __init__(self, norm, alpha):
        self.norm, self.alpha = norm, alpha

    def __call__(self, e):
        _tick()
        if isinstance(e, dict) or hasattr(e, "colnames"):
            e = e["energy"]
        x = (u.Quantity(e) / (1 * u.TeV)).decompose().value
        return self.norm * x ** (-self.alpha)


class CcDist:
    """User-supplied distribution following the param_names protocol"""

    param_names = ["norm", "alpha"]

    def __init__(self, norm, alpha):
        self.norm, self.alpha = norm, alpha

    def __call__(self, e):
        _tick()
        if isinstance(e, dict) or hasattr(e, "colnames"):
            e = e["energy"]
        x = (u.Quantity(e) / (1 * u.TeV)).decompose().value
        return self.norm * x ** (-self.alpha) * np.exp(-x / 300.0)


FAULTS = {
    "SimFault": SimFault,
    "ValueError": ValueError,
    "KeyboardInterrupt": KeyboardInterrupt,
    "MemoryError": MemoryError,
    "ZeroDivisionError": ZeroDivisionError,
    "AttributeError": AttributeError,
    "KeyError": KeyError,
    "TypeError": TypeError,
    "FloatingPointError": FloatingPointError,
    "OSError": OSError,
}


def fault_wrap(cls):
    """Subclass of a naima distribution whose calls can be made to fail"""
    def __call__(self, e):
        _tick()
        return cls.__call__(self, e)

    return type("Faulty" + cls.__name__, (cls,), {"__call__": __call__, "__module__": __name__})


_FW = {}


def _distcls(kind, faulty):
    import naima.models as m

    cls = {
        "PL": m.PowerLaw,
        "ECPL": m.ExponentialCutoffPowerLaw,
        "BPL": m.BrokenPowerLaw,
        "ECBPL": m.ExponentialCutoffBrokenPowerLaw,
        "LP": m.LogParabola,
        "TM": m.TableModel,
        "FN": FnDist,
        "CC": CcDist,
    }[kind]
    if faulty and kind not in ("FN", "CC"):
        if kind not in _FW:
            _FW[kind] = fault_wrap(cls)
            globals()[_FW[kind].__name__] = _FW[kind]
        cls = _FW[kind]
    return cls


# ------------------------------------------------------------------ values
def q(v):
    """JSON value -> python value ([x, unit] is a Quantity)"""
    if isinstance(v, list) and len(v) == 2 and isinstance(v[1], str):
        val = v[0]
        if isinstance(val, list):
            val = np.array(val, dtype=float)
        return u.Quantity(val, v[1])
    if isinstance(v, list):
        return np.array(v, dtype=float)
    return v


def unq(v):
    if isinstance(v, u.Quantity):
        val = v.value
        return [val.tolist() if getattr(val, "ndim", 0) else float(val), v.unit.to_string()]
    if isinstance(v, np.ndarray):
        return v.tolist()
    if isinstance(v, np.generic):
        return v.item()
    return v


def build_dist(spec, faulty=False):
    cls = _distcls(spec["k"], faulty)
    p = spec["p"]
    if spec["k"] == "TM":
        return cls(q(p["e"]), q(p["v"]), amplitude=q(p["amplitude"]))
    return cls(**{k: q(v) for k, v in p.items()})


STD = ("CMB", "FIR", "NIR")


def seed_entry(s, shared):
    """spec of one seed field -> what the constructor takes; equal values are
    one object, as where a caller defines them once"""

    def val(v):
        return shared.setdefault(repr(v), q(v))

    if s.get("std"):
        return s["std"]
    e = [s["name"], val(s["T"]) if "T" in s else val(s["E"]), val(s["u"]) if s["u"] != 0 else 0]
    if "theta" in s:
        e.append(val(s["theta"]))
    return e


def build_model(spec, dist, seedlists=None):
    import naima.models as m
    import naima.radiative as r

    k, p = spec["k"], {a: q(v) for a, v in spec["p"].items()}
    if k == "SY":
        return m.Synchrotron(dist, **p)
    if k == "IC":
        shared = {}
        lst = [seed_entry(s, shared) for s in spec["seeds"]]
        if seedlists is not None:
            seedlists.append((lst, _freeze(lst)))
        if spec.get("joined") and seedlists is not None:
            lst = "-".join(lst)
        ic = m.InverseCompton(dist, seed_photon_fields=lst, **p)
        for s in spec["seeds"]:
            # fields of a standard seed changed afterwards
            for f, v in s.get("over", {}).items():
                ic.seed_photon_fields[s["name"]][f] = q(v)
        return ic
    if k == "BR":
        return m.Bremsstrahlung(dist, **p)
    if k == "PP":
        return m.PionDecay(dist, **p)
    if k == "K06":
        return r.PionDecayKelner06(dist, **p)
    if k == "EBL":
        return m.EblAbsorptionModel(**p)
    raise ValueError(k)


# ------------------------------------------------------------------ requests
def spell_energy(E):
    """The energies of a request in the spelling asked for; returns the
    argument and what has to stay unchanged in it"""
    ev = np.array(E["ev"], dtype=float)
    unit = E.get("unit", "eV")
    vals = (ev * u.eV).to(unit)
    sh = E.get("shape", "array")
    if sh == "array":
        return vals
    if sh == "scalar":
        return vals[0]
    if sh == "list":
        return [v for v in vals]
    if sh == "strided":
        buf = np.empty(2 * len(ev))
        buf[::2] = vals.value
        buf[1::2] = -1
        return u.Quantity(buf, unit, copy=False)[::2]
    if sh == "bigendian":
        return u.Quantity(vals.value.astype(">f8"), unit, dtype=">f8")
    if sh == "readonly":
        vals.setflags(write=False)
        return vals
    if sh == "mixed":
        return [v.to(x) for v, x in zip(vals, itertools.cycle(UE))]
    if sh == "reversed":
        return u.Quantity(vals.value[::-1].copy(), unit)[::-1]
    if sh == "dict":
        return {"energy": vals}
    if sh == "tuple":
        return tuple(v for v in vals)
    from astropy.table import Column, QTable, Table

    if sh == "column":
        return Column(vals.value, name="energy", unit=vals.unit)
    if sh == "table":
        t = Table()
        t["energy"] = vals
        return t
    if sh == "qtable":
        t = QTable()
        t["energy"] = vals
        return t
    raise ValueError(sh)


def canon_energy(E):
    ev = np.array(E["ev"], dtype=float) * u.eV
    # a table's energy column is an array, a scalar stays one
    return ev[0] if E.get("shape") == "scalar" else ev


def call(model, req, energy, dist=None):
    """Perform a request; result is a plain python object"""
    m = req["meth"]
    if m in ("flux", "sed"):
        f = getattr(model, m)
        a, k = [], {}
        if "D" in req:
            d = q(req["D"]["v"]) if dist is None else dist
            if req["D"].get("how") == "pos":
                a.append(d)
            else:
                k["distance"] = d
        if "seed" in req:
            if req.get("seedpos") and len(a) == 1:
                a.append(req["seed"])
            else:
                k["seed"] = req["seed"]
        if req.get("ekw"):
            return f(photon_energy=energy, *a, **k) if not a else f(energy, *a, **k)
        return f(energy, *a, **k)
    if m == "We":
        return model.We
    if m == "Wp":
        return model.Wp
    if m in ("cWe", "cWp"):
        lo, hi = q(req.get("lo")), q(req.get("hi"))
        p = "e" if m == "cWe" else "p"
        f = getattr(model, "compute_W" + p)
        if req.get("how") == "pos":
            return f(lo, hi)
        k = {}
        if lo is not None:
            k["E%smin" % p] = lo
        if hi is not None:
            k["E%smax" % p] = hi
        return f(**k)
    if m == "pd":
        return model.particle_distribution(energy)
    if m == "trans":
        return model.transmission(energy)
    if m == "tau":
        return model(energy)
    raise ValueError(m)


def pack(res):
    """Comparable form of a result"""
    if isinstance(res, u.Quantity):
        return ("q", np.array(res.value, dtype=float), res.unit.to_string())
    if isinstance(res, np.ndarray):
        return ("a", np.array(res, dtype=float), "")
    if isinstance(res, (float, int, np.generic)):
        return ("a", np.array(res, dtype=float), "")
    return ("o", type(res).__name__, "")


def ref_eval(dspec, mspec, req):
    """Reference: newly built object, canonical spelling, pristine process"""
    warnings.simplefilter("ignore")
    try:
        dist = build_dist(dspec) if dspec is not None else None
        model = build_model(mspec, dist)
        c = dict(req)
        c.pop("ekw", None)
        c.pop("seedpos", None)
        if "D" in req:
            v = q(req["D"]["v"])
            if isinstance(v, u.Quantity):
                v = v.to("cm")
                c["D"] = {"v": [float(v.value), "cm"]}
            else:
                c["D"] = {"v": 0}
        elif req["meth"] in ("flux", "sed"):
            c["D"] = {"v": [float((1 * u.kpc).to("cm").value), "cm"]}
        energy = canon_energy(req["E"]) if "E" in req else None
        return pack(call(model, c, energy))
    except Exception as e:
        return ("exc", type(e).__name__, str(e)[:200])


def ref_seed(dspec, mspec, req):
    """Reference of one seed component: a model with only that field"""
    m = copy.deepcopy(mspec)
    names = [s["name"] for s in m["seeds"]]
    s = req["seed"]
    if isinstance(s, int):
        if not 0 <= s < len(names):
            return ("exc", "ValueError", "")
        s = names[s]
    if s not in names:
        return ("exc", "ValueError", "")
    m["seeds"] = [x for x in m["seeds"] if x["name"] == s]
    r = {k: v for k, v in req.items() if k != "seed"}
    return ref_eval(dspec, m, r)


RTOL = 1e-7


def same(a, b, rtol=RTOL):
    """Compare packed results; returns None or a description"""
    if a[0] != b[0]:
        return "%s instead of %s" % (_short(a), _short(b))
    if a[0] in ("exc", "o"):
        if a[1] != b[1]:
            return "%s instead of %s" % (a[1:], b[1:])
        return None
    if a[2] != b[2]:
        return "unit %r instead of %r" % (a[2], b[2])
    x, y = a[1], b[1]
    if x.shape != y.shape:
        return "shape %s instead of %s" % (x.shape, y.shape)
    with np.errstate(all="ignore"):
        ok = (
            (x == y)
            | (np.isnan(x) & np.isnan(y))
            | (np.abs(x - y) <= rtol * np.abs(y))
            | ((np.abs(x) < 1e-290) & (np.abs(y) < 1e-290))
        )
    if not np.all(ok):
        k = int(np.argmin(np.ravel(ok)))
        return "value %r instead of %r (element %d of %d)" % (
            float(np.ravel(x)[k]), float(np.ravel(y)[k]), k, x.size)
    return None


def _short(p):
    if p[0] in ("q", "a"):
        return "%s%s" % (np.ravel(p[1])[:2], p[2])
    return repr(p[:2])


# ------------------------------------------------------------------ world
class World:
    def __init__(self, faulty=False):
        self.d, self.dspec = {}, {}
        self.m, self.mspec = {}, {}
        self.results = []  # live results handed out
        self.args = []  # live arguments
        self.obs = []
        self.stats = {}
        self.states = []
        self.faulty = faulty
        self.shallow = set()
        self.seedlists = []

    def count(self, k, n=1):
        self.stats[k] = self.stats.get(k, 0) + n

    def snapshot(self, mid):
        ms = copy.deepcopy(self.mspec[mid])
        d = ms.pop("d", None)
        return (copy.deepcopy(self.dspec[d]) if d is not None else None), ms

    def spec_of_amplitude(self, did):
        """after set_W*: the scaled amplitude, as it is now"""


def _lineinject(n, exc, where="/naima/"):
    """Raise exc at the n-th executed line of naima code from now on"""
    state = {"n": n, "fired": 0, "at": None}

    def local(frame, event, arg):
        if event == "line" and state["n"] > 0:
            state["n"] -= 1
            if state["n"] == 0:
                state["fired"] += 1
                state["at"] = (os.path.basename(frame.f_code.co_filename),
                               frame.f_code.co_name)
                sys.settrace(None)
                raise exc("planned interrupt")
        return local

    def tr(frame, event, arg):
        if where in frame.f_code.co_filename:
            return local
        return None

    sys.settrace(tr)
    return state


def perform_eval(w, i, op):
    mid = op["m"]
    if mid not in w.m:
        return
    req = op["req"]
    model = w.m[mid]
    energy = spell_energy(req["E"]) if "E" in req else None
    before = _freeze(energy)
    darg = q(req["D"]["v"]) if "D" in req else None
    darg0 = _freeze(darg)
    dist_before = _freeze_obj(getattr(model, "particle_distribution", None))
    seeds_before = _freeze(getattr(model, "seed_photon_fields", None))
    f = op.get("fault")
    st = None
    snap = w.snapshot(mid)
    res = raw = None
    warned = []
    try:
        with warnings.catch_warnings(record=True) as warned:
            warnings.simplefilter("always")
            try:
                if f:
                    st = arm_fault(f)
                raw = call(model, req, energy, darg)
            finally:
                fired = disarm_fault(f, st)
        res = pack(raw)
    except BaseException as e:  # noqa
        if isinstance(e, (SystemExit, GeneratorExit)):
            raise
        res = ("exc", type(e).__name__, str(e)[:200])
    if f:
        w.count("fault_armed_" + f["type"])
        if fired:
            w.count("fault_" + f["type"] + "_" + str(f.get("exc") or f.get("mode")))
    else:
        fired = 0
    o = {"i": i, "m": mid, "req": req, "d": snap[0], "ms": snap[1], "res": res,
         "fired": fired, "fault": f, "kind": w.mspec[mid]["k"]}
    if st is not None and isinstance(st, dict):
        o["at"] = st.get("at")
    o["warned"] = [str(x.message)[:80] for x in warned if "LUT" in str(x.message)]
    # the lookup table falls back to the direct calculation for good
    if w.mspec[mid]["k"] == "PP" and fired and getattr(model, "useLUT", None) is False \
            and w.mspec[mid]["p"].get("useLUT", True):
        w.mspec[mid]["p"]["useLUT"] = False
        o["fellback"] = True
    w.obs.append(o)
    w.count("evaluations")
    after = _freeze(energy)
    if before != after:
        o["arg_changed"] = "energy argument"
    if _freeze(darg) != darg0:
        o["arg_changed"] = "distance argument"
    for lst, fz in w.seedlists:
        if _freeze(lst) != fz:
            o["arg_changed"] = "seed field list"
    d2 = _freeze_obj(getattr(model, "particle_distribution", None))
    if d2 != dist_before:
        o["arg_changed"] = "particle distribution"
    if _freeze(getattr(model, "seed_photon_fields", None)) != seeds_before:
        o["arg_changed"] = "seed photon fields"
    if raw is not None and isinstance(raw, np.ndarray):
        w.results.append({"i": i, "obj": raw, "copy": np.array(raw), "mut": False})
        w.args.append(energy)


def _freeze(x):
    if x is None:
        return None
    if isinstance(x, u.Quantity):
        return ("q", str(x.unit), np.asarray(x.value).tobytes(), x.shape)
    if isinstance(x, np.ndarray):
        return ("a", x.tobytes(), x.shape)
    if isinstance(x, dict):
        return ("d", [(k, _freeze(v)) for k, v in x.items()])
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, [_freeze(v) for v in x])
    if hasattr(x, "colnames"):
        return ("t", [(c, _freeze(x[c].data if not isinstance(x[c], u.Quantity) else x[c]),
                       str(x[c].unit)) for c in x.colnames])
    return repr(x)


def _freeze_obj(o):
    if o is None:
        return None
    names = getattr(type(o), "param_names", None) or ["norm", "alpha"]
    out = []
    for n in names:
        if hasattr(o, n):
            out.append((n, _freeze(getattr(o, n))))
    return (type(o).__name__, out)


def arm_fault(f):
    t = f["type"]
    if t == "callback":
        _Arm.left, _Arm.exc, _Arm.fired = f["n"], FAULTS[f["exc"]], 0
        return None
    if t == "line":
        return _lineinject(f["n"], FAULTS[f["exc"]])
    if t == "file":
        from . import shim

        shim.config(data_dir())
        shim.arm(f["mode"], f["n"], f.get("err", "EIO"), f.get("mask", 1 | 8))
        return None
    raise ValueError(t)


def disarm_fault(f, st):
    if not f:
        return 0
    t = f["type"]
    if t == "callback":
        _Arm.left = None
        n, _Arm.fired = _Arm.fired, 0
        return n
    if t == "line":
        sys.settrace(None)
        return st["fired"] if st else 0
    if t == "file":
        from . import shim

        n = shim.fired()
        shim.disarm()
        shim.off()
        return n


def data_dir():
    import naima

    return os.path.join(os.path.dirname(os.path.abspath(naima.__file__)), "data")


def set_attr(obj, attr, val, how):
    v = q(val)
    if how == "inplace" and isinstance(v, u.Quantity):
        cur = getattr(obj, attr)
        if isinstance(cur, u.Quantity) and cur.unit == v.unit:
            # the caller edits the Quantity the object holds
            cur[...] = v
            return
    setattr(obj, attr, v)


def do_op(w, i, op):
    k = op["op"]
    if k == "newd":
        w.d[op["id"]] = build_dist(op["spec"], w.faulty)
        w.dspec[op["id"]] = copy.deepcopy(op["spec"])
    elif k == "newm":
        d = op["spec"].get("d")
        if d is not None and d not in w.d:
            return
        f, st = op.get("fault"), None
        try:
            try:
                if f:
                    st = arm_fault(f)
                w.m[op["id"]] = build_model(op["spec"], w.d.get(d), w.seedlists)
            finally:
                fired = disarm_fault(f, st)
                if fired:
                    w.count("fault_build_" + f["type"])
        except BaseException:
            if not fired:
                raise
            w.m.pop(op["id"], None)
            w.mspec.pop(op["id"], None)
            return
        w.mspec[op["id"]] = copy.deepcopy(op["spec"])
        if w.mspec[op["id"]]["k"] == "EBL" and fired:
            w.count("built_despite_fault")
    elif k == "eval":
        perform_eval(w, i, op)
    elif k == "setm":
        if op["m"] in w.m:
            # shallow copies share the Quantity objects themselves
            how = "assign" if op["m"] in w.shallow else op.get("how")
            set_attr(w.m[op["m"]], op["attr"], op["val"], how)
            w.mspec[op["m"]]["p"][op["attr"]] = op["val"]
    elif k == "setd":
        if op["d"] in w.d and op["attr"] in w.dspec[op["d"]]["p"]:
            set_attr(w.d[op["d"]], op["attr"], op["val"], op.get("how"))
            w.dspec[op["d"]]["p"][op["attr"]] = op["val"]
    elif k == "repl":
        if op["m"] in w.m and op["d"] in w.d and "d" in w.mspec[op["m"]]:
            w.m[op["m"]].particle_distribution = w.d[op["d"]]
            w.mspec[op["m"]]["d"] = op["d"]
    elif k == "seed_edit":
        if op["m"] in w.m:
            for s in w.mspec[op["m"]]["seeds"]:
                if s["name"] == op["name"]:
                    f, v = op["field"], op["val"]
                    ent = w.m[op["m"]].seed_photon_fields[s["name"]]
                    if "E" in s:
                        f, a = ("energy", "E") if op.get("energies") else ("photon_density", "u")
                        fac = np.ones(len(s["E"][0]))
                        if op.get("interior"):
                            # one value in the middle only
                            fac[len(fac) // 2] = op["factor"]
                        else:
                            fac *= op["factor"]
                        # (the entry may hold the caller's own array)
                        ent[f] = ent[f].copy()
                        if a == "E" and len(fac) > 1:
                            # the differential density was fixed when the field was defined
                            s["u"] = [ent["photon_density"].value.tolist(), ent["photon_density"].unit.to_string()]
                        ent[f] *= fac
                        s[a] = [(np.array(s[a][0]) * fac).tolist(), s[a][1]]
                        break
                    if f == "theta" and "theta" not in s:
                        return
                    if f == "T" and s.get("u") == 0:
                        # the density was fixed when the field was defined
                        s["u"] = unq(ent["u"])
                    if op.get("how") == "inplace" and isinstance(ent[f], u.Quantity):
                        if f not in s.setdefault("own", []):
                            # (the entry may hold the caller's own object)
                            ent[f] = ent[f].copy()
                            s["own"].append(f)
                        nv = q(v).to(ent[f].unit)
                        ent[f][...] = nv
                        v = unq(ent[f])
                    else:
                        ent[f] = q(v)
                    if s.get("std"):
                        s.setdefault("over", {})[f] = v
                    else:
                        s[f] = v
    elif k == "seed_del":
        if op["m"] in w.m:
            sp = w.mspec[op["m"]]["seeds"]
            if len(sp) > 1:
                for s in list(sp):
                    if s["name"] == op["name"]:
                        sp.remove(s)
                        del w.m[op["m"]].seed_photon_fields[op["name"]]
    elif k == "seed_take":
        a, b = op["m"], op["src"]
        if a in w.m and b in w.m and w.mspec[b]["k"] == "IC" and a != b:
            w.m[a].seed_photon_fields = copy.deepcopy(w.m[b].seed_photon_fields)
            w.mspec[a]["seeds"] = copy.deepcopy(w.mspec[b]["seeds"])
    elif k == "copy":
        if op["m"] not in w.m:
            return
        src, ms = w.m[op["m"]], w.mspec[op["m"]]
        if op["how"] == "copy":
            w.m[op["new"]] = copy.copy(src)
            w.shallow |= {op["m"], op["new"]}
            new = {"k": ms["k"], "p": dict(ms["p"]), "d": ms.get("d")}
            if "seeds" in ms:
                new["seeds"] = ms["seeds"]  # shared, like the objects
            if new["d"] is None:
                new.pop("d")
            w.mspec[op["new"]] = new
        else:
            if op["how"] == "deepcopy":
                w.m[op["new"]] = copy.deepcopy(src)
            else:
                w.m[op["new"]] = pickle.loads(pickle.dumps(src))
            new = copy.deepcopy(ms)
            if "d" in ms:
                new["d"] = op["newd"]
                w.d[op["newd"]] = w.m[op["new"]].particle_distribution
                w.dspec[op["newd"]] = copy.deepcopy(w.dspec[ms["d"]])
            w.mspec[op["new"]] = new
    elif k == "delm":
        w.m.pop(op["m"], None)
        w.mspec.pop(op["m"], None)
        gc.collect()
    elif k == "setW":
        do_setW(w, i, op)
    elif k == "bulk":
        if op["m"] in w.m:
            m = w.m[op["m"]]
            for j in range(op["n"]):
                try:
                    m.flux(np.array(op["ev"]) * (1 + 0.01 * (j + 1)) * u.eV)
                except Exception:
                    break
            w.count("bulk_evaluations", op["n"])
    elif k == "mutres":
        live = [r for r in w.results if not r["mut"]]
        if live:
            r = live[op["r"] % len(live)]
            mutate(r["obj"], op["how"])
            r["mut"] = True
            w.count("results_edited")
    elif k == "mutarg":
        if w.args:
            a = w.args[op["r"] % len(w.args)]
            if isinstance(a, dict):
                a = a["energy"]
            if isinstance(a, (u.Quantity, np.ndarray)) and a.shape != () and a.flags.writeable:
                mutate(a, op["how"])
                w.count("arguments_edited")
    else:
        raise ValueError(k)


def mutate(a, how):
    if not a.shape:
        a = a.reshape(1) if how != "imul" else a
    if how == "imul":
        a *= 3.0
    elif how == "zero":
        a[...] = 0 * a.unit if isinstance(a, u.Quantity) else 0
    elif how == "one":
        a[0] = a[0] * 7.5
    elif how == "reverse":
        a[...] = a[::-1].copy()
    elif how == "view":
        v = a.view(np.ndarray) if isinstance(a, u.Quantity) else a
        v[...] = 1.0


def do_setW(w, i, op):
    mid = op["m"]
    if mid not in w.m or w.mspec[mid]["k"] == "K06":
        return
    model, ms = w.m[mid], w.mspec[mid]
    pr = "p" if ms["k"] == "PP" else "e"
    did = ms["d"]
    dist = w.d[did]
    dspec0, ms0 = w.snapshot(mid)
    ampname = op.get("amp") if op.get("amp") != "nosuchname" else None
    ampname = ampname or ("norm" if w.dspec[did]["k"] in ("FN", "CC") and op.get("amp") else None)
    ampname = ampname or ("amplitude" if w.dspec[did]["k"] not in ("FN", "CC") else None)
    k = {}
    if op.get("lo") is not None:
        k["E%smin" % pr] = q(op["lo"])
    if op.get("hi") is not None:
        k["E%smax" % pr] = q(op["hi"])
    if op.get("amp"):
        k["amplitude_name"] = op["amp"]
    a0 = _freeze(getattr(dist, ampname)) if ampname else None
    orig = getattr(dist, ampname) if ampname else None
    f, st = op.get("fault"), None
    exc = None
    try:
        try:
            if f:
                st = arm_fault(f)
            getattr(model, "set_W" + pr)(q(op["W"]), **k)
        finally:
            fired = disarm_fault(f, st)
    except BaseException as e:  # noqa
        if isinstance(e, (SystemExit, GeneratorExit)):
            raise
        exc = type(e).__name__
    if f and fired:
        w.count("fault_setW_" + f["type"] + "_" + f["exc"])
    o = {"i": i, "m": mid, "setW": True, "W": op["W"], "lo": op.get("lo"), "hi": op.get("hi"),
         "d": dspec0, "ms": ms0, "exc": exc, "fired": fired, "kind": ms["k"], "fault": f,
         "ampname": ampname, "given": op.get("amp"), "orig_changed": False}
    if ampname:
        o["amp_before"] = a0
        o["amp_after"] = _freeze(getattr(dist, ampname))
        o["amp_after_v"] = unq(getattr(dist, ampname))
        o["orig_changed"] = _freeze(orig) != a0
        w.dspec[did]["p"][ampname] = o["amp_after_v"]
        if exc is None:
            o["back"] = pack(getattr(model, "compute_W" + pr)(
                **{x: y for x, y in k.items() if x != "amplitude_name"}))
    w.obs.append(o)
    w.count("set_W")


def sync_lut(w):
    """Where no lookup table is packaged for the settings the documented
    fallback switches the table off; that becomes the current setting."""
    for mid, ms in w.mspec.items():
        if ms["k"] == "PP" and ms["p"].get("useLUT", True):
            if w.m[mid].useLUT is False:
                f = "PionDecayKafexhiu14_LUT_%s%s.npz" % (
                    "NucEnh_" if ms["p"].get("nuclear_enhancement", True) else "",
                    ms["p"].get("hiEmodel", "Pythia8"))
                if not os.path.exists(os.path.join(data_dir(), f)):
                    ms["p"]["useLUT"] = False


def subject(ops, faulty):
    warnings.simplefilter("ignore")
    w = World(faulty)
    prevkey = None
    for i, op in enumerate(ops):
        do_op(w, i, op)
        sync_lut(w)
        # values handed out earlier must not have moved
        for r in w.results:
            if not r["mut"] and not np.array_equal(
                np.asarray(r["obj"]), np.asarray(r["copy"]), equal_nan=True
            ):
                w.obs.append({"i": i, "moved": r["i"], "by": op["op"]})
                r["mut"] = True
        key = (op["op"], op.get("attr"), op.get("how"),
               (op.get("req") or {}).get("meth"),
               w.mspec.get(op.get("m"), {}).get("k"))
        w.states.append((prevkey, key))
        prevkey = key
    return w.obs, w.stats, w.states


# ------------------------------------------------------------------ generator
UE = ["eV", "keV", "MeV", "GeV", "TeV", "erg", "J"]
ERANGE = {"SY": (-2, 6), "IC": (6, 13.2), "BR": (5.2, 12.5), "PP": (8.3, 13.5), "K06": (9.5, 13.0)}


def g_energy(rng, kind, big=False):
    lo, hi = ERANGE[kind]
    n = rng.choice([2, 3, 4, 6]) if kind != "K06" else rng.choice([1, 2, 3])
    if big and kind in ("SY", "IC"):
        n = 1005
        base = np.logspace(lo + 0.5, hi - 0.5, n) * 1.0137
        ev = base
    else:
        base = sorted(rng.uniform(lo, hi) for _ in range(n))
        ev = [10.0**x for x in base]
    return [float(x) for x in ev]


def g_spelling(rng):
    return {
        "unit": rng.choice(UE),
        "shape": rng.choice(
            ["array"] * 6 + ["list", "strided", "bigendian", "reversed", "readonly", "mixed", "column", "dict", "table", "qtable", "scalar"]
        ),
    }


def g_dist(rng, kind, simple=False):
    """kind: e(lectron) or p(roton)"""
    k = rng.choice(["PL", "ECPL", "ECPL", "BPL", "ECBPL", "LP", "TM", "FN", "CC"]) if not simple \
        else rng.choice(["PL", "ECPL"])
    amp = [rng.choice([1.1e33, 3.7e35, 2.2e36]), rng.choice(["1/eV", "1/TeV", "1/GeV", "1/erg"])]
    al = rng.choice([1.8, 2.0, 2.31, 2.6, 3.1])
    e0 = [rng.choice([1.0, 10.0, 30.0]), "TeV"]
    if k == "PL":
        p = {"amplitude": amp, "e_0": e0, "alpha": max(al, 2.0)}
    elif k == "ECPL":
        p = {"amplitude": amp, "e_0": e0, "alpha": al, "e_cutoff": [rng.choice([8.0, 48.0, 130.0]), "TeV"]}
        if rng.random() < 0.5:
            p["beta"] = rng.choice([0.7, 1.0, 2.0])
        else:
            p["beta"] = 1.0
    elif k == "BPL":
        p = {"amplitude": amp, "e_0": e0, "e_break": [rng.choice([0.3, 2.0]), "TeV"], "alpha_1": 1.9, "alpha_2": 3.1}
    elif k == "ECBPL":
        p = {"amplitude": amp, "e_0": e0, "e_break": [rng.choice([0.3, 2.0]), "TeV"], "alpha_1": 1.9,
             "alpha_2": 2.8, "e_cutoff": [55.0, "TeV"], "beta": 1.0}
    elif k == "LP":
        p = {"amplitude": amp, "e_0": e0, "alpha": al, "beta": 0.13}
    elif k == "TM":
        e = np.logspace(-4, 3.2, 1200 if rng.random() < 0.25 else 24)
        v = 1e36 * e ** (-al) * np.exp(-e / 400)
        p = {"e": [e.tolist(), "TeV"], "v": [v.tolist(), "1/TeV"], "amplitude": rng.choice([1, 2.5])}
        if rng.random() < 0.3:
            # numbers scaled by an amplitude with a unit
            p["v"] = v.tolist()
            p["amplitude"] = [rng.choice([1.0, 2.5]), rng.choice(["1/TeV", "1/GeV"])]
    else:
        p = {"norm": [rng.choice([1e33, 4e34]), "1/eV"], "alpha": max(al, 2.0)}
    return {"k": k, "p": p}


def g_seeds(rng):
    out = []
    names = set()
    for _ in range(rng.choice([1, 2, 2, 3])):
        t = rng.choice(["std", "std", "thermal", "aniso", "mono", "array"])
        if t == "std":
            n = rng.choice(STD)
            s = {"name": n, "std": n}
        elif t == "thermal":
            n = rng.choice(["star", "dust"])
            s = {"name": n, "T": [rng.choice([25.0, 3100.0, 25000.0]), "K"],
                 "u": rng.choice([0, [0.7, "eV/cm3"], [0.4, "eV/cm3"], [2.0e-12, "erg/cm3"]])}
        elif t == "aniso":
            n = rng.choice(["ani", "star"])
            s = {"name": n, "T": [rng.choice([25.0, 3100.0]), "K"], "u": [0.4, "eV/cm3"],
                 "theta": [rng.choice([30.0, 90.0, 120.0]), "deg"]}
        elif t == "mono":
            n = "mono"
            s = {"name": n, "E": [[rng.choice([0.5, 50.0])], "eV"], "u": [[15.0], "eV/cm3"]}
        else:
            n = "arr"
            e = np.logspace(-1, 1, 1100 if rng.random() < 0.12 else 5)
            if rng.random() < 0.5:
                s = {"name": n, "E": [e.tolist(), "eV"], "u": [(3.0 * e**-1.3).tolist(), "1/(eV cm3)"]}
            else:
                s = {"name": n, "E": [e.tolist(), "eV"], "u": [(3.0 * e**0.7).tolist(), rng.choice(["eV/cm3", "erg/m3"])]}
                if s["u"][1] == "erg/m3":
                    s["u"][0] = [x * 1.6e-6 for x in s["u"][0]]
        if n in names:
            continue
        names.add(n)
        out.append(s)
    return out


def g_model(rng, kind, did):
    p = {}
    if kind in ELECTRON:
        p["nEed"] = rng.choice([12, 20, 31])
        if rng.random() < 0.6:
            p["Eemin"] = [rng.choice([1.3, 90.0]), "GeV"]
        if rng.random() < 0.6:
            p["Eemax"] = [rng.choice([60.0, 410.0]), "TeV"]
    if kind == "SY":
        p["B"] = [rng.choice([3.3, 17.0, 120.0]), "uG"]
    elif kind == "BR":
        p["n0"] = [rng.choice([1.0, 12.0]), "1/cm3"]
        if rng.random() < 0.4:
            # down to where electrons are not relativistic
            p["Eemin"] = [rng.choice([0.6, 1.4, 3.0, 40.0]), "MeV"]
        if rng.random() < 0.4:
            p["weight_ee"] = rng.choice([0.0, 1.0, 1.088])
        if rng.random() < 0.3:
            p["weight_ep"] = rng.choice([0.0, 1.4])
    elif kind == "PP":
        p["nEpd"] = rng.choice([11, 17])
        p["nh"] = [rng.choice([1.0, 40.0]), "1/cm3"]
        p["useLUT"] = rng.random() < 0.35
        p["hiEmodel"] = rng.choice(["Pythia8", "Pythia8", "Geant4", "SIBYLL", "QGSJET"])
        p["nuclear_enhancement"] = rng.random() < 0.6
        if rng.random() < 0.4:
            p["Epmax"] = [rng.choice([0.9, 20.0]), "PeV"]
    elif kind == "K06":
        p["nh"] = [rng.choice([1.0, 40.0]), "1/cm3"]
        if rng.random() < 0.6:
            p["Etrans"] = [rng.choice([0.03, 0.1, 0.45]), "TeV"]
    s = {"k": kind, "p": p, "d": did}
    if kind == "IC":
        s["seeds"] = g_seeds(rng)
        if rng.random() < 0.2:
            s["seeds"] = [{"name": n, "std": n} for n in rng.sample(STD, rng.randint(1, 3))]
            s["joined"] = rng.random() < 0.6
    return s


USUB = {
    "Eemax": {"TeV": "PeV", "PeV": "TeV"}, "Eemin": {"GeV": "MeV", "MeV": "GeV"},
    "Epmax": {"PeV": "EeV", "EeV": "PeV"}, "e_0": {"TeV": "GeV", "GeV": "TeV"},
    "e_cutoff": {"TeV": "PeV", "PeV": "TeV"}, "e_break": {"TeV": "GeV", "GeV": "TeV"},
    "Etrans": {"TeV": "GeV", "GeV": "TeV"},
}


def nudge(rng, v, attr=None):
    """A value close to, or easily confused with, v"""
    if attr in USUB and v and v[1] in USUB[attr] and rng.random() < 0.25:
        return [v[0], USUB[attr][v[1]]]
    if isinstance(v, list) and len(v) == 2 and isinstance(v[1], str) and not isinstance(v[0], list):
        r = rng.random()
        if r < 0.45:
            return [v[0] * (1 + rng.choice([1e-6, 3e-5, -4e-6])), v[1]]
        if r < 0.6:
            return [v[0] * rng.choice([0.5, 1.3, 2.0]), v[1]]
        sub = {"TeV": "GeV", "GeV": "TeV", "uG": "mG", "1/eV": "1/keV", "1/cm3": "1/dm3", "K": "K",
               "deg": "deg", "1/TeV": "1/eV", "1/GeV": "1/MeV", "1/erg": "1/J", "eV/cm3": "erg/m3"}
        if v[1] in sub and r < 0.8 and sub[v[1]] != v[1] and v[1] != "TeV" and v[1] != "GeV":
            return [v[0], sub[v[1]]]
        return [v[0] * 1.7, v[1]]
    if isinstance(v, bool):
        return not v
    if isinstance(v, (int, float)):
        return v * rng.choice([1 + 1e-6, 1.03, 1.1]) if isinstance(v, float) else v + 1
    return v


SETTABLE = {
    "SY": ["B", "Eemin", "Eemax", "nEed"],
    "IC": ["Eemin", "Eemax", "nEed"],
    "BR": ["n0", "weight_ee", "weight_ep", "Eemin", "Eemax", "nEed"],
    "PP": ["nh", "nuclear_enhancement", "useLUT", "hiEmodel", "Epmin", "Epmax", "nEpd"],
    "K06": ["nh", "Etrans"],
}
DEFAULTS = {
    "B": [3.3, "uG"], "Eemin": [1.3, "GeV"], "Eemax": [410.0, "TeV"], "nEed": 20, "n0": [1.0, "1/cm3"],
    "weight_ee": 1.088, "weight_ep": 1.263, "nh": [1.0, "1/cm3"], "nuclear_enhancement": True,
    "useLUT": True, "Epmin": [2.1, "GeV"], "Epmax": [20.0, "PeV"], "nEpd": 17, "Etrans": [0.1, "TeV"],
}
DSET = {
    "PL": ["amplitude", "e_0", "alpha"], "ECPL": ["amplitude", "e_0", "alpha", "e_cutoff", "beta"],
    "BPL": ["amplitude", "e_break", "alpha_1", "alpha_2", "e_0"],
    "ECBPL": ["amplitude", "e_break", "alpha_1", "alpha_2", "e_cutoff", "beta"],
    "LP": ["amplitude", "alpha", "beta", "e_0"], "TM": ["amplitude"], "FN": ["norm", "alpha"],
    "CC": ["norm", "alpha"],
}


class Gen:
    """Generates a history; weights decide its flavour"""

    def __init__(self, rng, kinds=KINDS, weights=None, nmodels=None, faulty=False):
        self.rng = rng
        self.ops = []
        self.nd = self.nm = 0
        self.d, self.m = {}, {}
        self.pastE = {}  # kind -> list of energies used
        self.pastD = []
        self.kinds = kinds
        self.w = dict(
            eval=10, again=4, setm=4, setd=4, back=2, repl=1.0, copy=0.8, seed=1.5, bulk=0.4, delm=0.4,
            setW=0.5, mutres=0.0, mutarg=0.0, newm=0.5, twin=1.0, ebl=0.12, lut=0.7,
        )
        self.w.update(weights or {})
        self.history = []
        n = nmodels or rng.choice([1, 2, 2, 3])
        for _ in range(n):
            self.new_model()

    def fam(self, kind):
        return "e" if kind in ELECTRON else "p"

    def new_dist(self, fam):
        i = self.nd
        self.nd += 1
        s = g_dist(self.rng, fam)
        self.d[i] = (fam, s)
        self.ops.append({"op": "newd", "id": i, "spec": s})
        return i

    def ebl(self, fault=None):
        """an absorption model: built, evaluated, built again"""
        rng = self.rng
        i = self.nm
        self.nm += 1
        s = {"k": "EBL", "p": {"redshift": rng.choice([0.005, 0.01, 0.116, 0.5, 0.51, 1.2, 3.0])}}
        op = {"op": "newm", "id": i, "spec": s}
        if fault:
            op["fault"] = fault
        self.ops.append(op)
        for _ in range(rng.choice([1, 1, 2])):
            req = {"meth": rng.choice(["trans", "tau"]),
                   "E": {"ev": [10 ** rng.uniform(9.3, 13.8) for _ in range(rng.choice([2, 4]))],
                         "unit": rng.choice(["GeV", "TeV", "eV"])}}
            self.ops.append({"op": "eval", "m": i, "req": req})

    def new_model(self, kind=None):
        rng = self.rng
        kind = kind or rng.choice(self.kinds)
        fam = self.fam(kind)
        own = [i for i, (f, _) in self.d.items()]
        d = rng.choice(own) if own and rng.random() < 0.6 else self.new_dist(fam)
        i = self.nm
        self.nm += 1
        s = g_model(rng, kind, d)
        self.m[i] = copy.deepcopy(s)
        self.ops.append({"op": "newm", "id": i, "spec": s})
        return i

    def request(self, mid, again=False):
        rng = self.rng
        kind = self.m[mid]["k"]
        r = rng.random()
        if r < 0.08:
            return {"meth": "We" if kind in ELECTRON else "Wp"}
        if r < 0.16 and kind != "K06":
            req = {"meth": "cWe" if kind in ELECTRON else "cWp", "how": rng.choice(["pos", "kw"])}
            if rng.random() < 0.7:
                req["lo"] = rng.choice([[2.0, "GeV"], [100.0, "GeV"], [1.5, "GeV"]])
            if rng.random() < 0.7:
                req["hi"] = rng.choice([[20.0, "TeV"], [77.0, "TeV"], [30.0, "PeV"]])
            return req
        if r < 0.2:
            return {"meth": "pd", "E": {"ev": g_energy(rng, "IC"), "unit": rng.choice(UE)}}
        past = self.pastE.setdefault(kind, [])
        if past and rng.random() < 0.6:
            ev = rng.choice(past)
            x = rng.random()
            if x < 0.15:
                # same length, one interior element differs
                ev = list(ev)
                j = len(ev) // 2
                ev[j] *= 1 + rng.choice([2e-6, 1e-4])
            elif x < 0.2:
                ev = [e * (1 + 1e-6) for e in ev]
        else:
            ev = g_energy(rng, kind, big=rng.random() < 0.06)
            past.append(ev)
        sp = g_spelling(rng) if rng.random() < 0.5 else {"unit": rng.choice(UE[:5])}
        if len(ev) > 50:
            sp["shape"] = "array"
        req = {"meth": rng.choice(["flux", "flux", "sed"]), "E": dict(ev=ev, **sp)}
        if rng.random() < 0.1 and (kind == "IC" or req["meth"] == "sed"):
            req["ekw"] = True
        x = rng.random()
        if x < 0.55:
            if self.pastD and rng.random() < 0.5:
                v = rng.choice(self.pastD)
            else:
                v = [rng.choice([1.0, 2.0, 3.3]), rng.choice(["kpc", "pc", "Mpc", "cm", "lyr"])]
                if v[1] == "cm":
                    v[0] *= 3.0856775814913674e21
                self.pastD.append(v)
            req["D"] = {"v": v, "how": rng.choice(["pos", "kw"])}
        elif x < 0.75:
            req["D"] = {"v": 0, "how": rng.choice(["pos", "kw"])}
        if kind == "IC" and rng.random() < self.w.get("comp", 0.35):
            names = [s["name"] for s in self.m[mid]["seeds"]]
            y = rng.random()
            if y < 0.55:
                req["seed"] = rng.choice(names)
            elif y < 0.9:
                req["seed"] = rng.randrange(len(names))
            else:
                req["seed"] = rng.choice(["nosuch", "CMB", "FIR", len(names), len(names) + 3])
            if rng.random() < 0.3:
                req["seedpos"] = True
        return req

    def do_eval(self, mid, req=None, fault=None):
        req = req or self.request(mid)
        if any("E" in x and len(x["E"][0]) > 50 for m in self.m.values() for x in m.get("seeds", ())) \
                and len(req.get("E", {}).get("ev", ())) > 50:
            # not both long: too much memory
            req = dict(req, E=dict(req["E"], ev=req["E"]["ev"][::300]))
        op = {"op": "eval", "m": mid, "req": req}
        if fault:
            op["fault"] = fault
        self.ops.append(op)
        self.history.append((mid, req))

    def step(self):
        rng = self.rng
        names = [k for k, v in self.w.items() if v > 0 and k not in ("comp", "fault")]
        what = rng.choices(names, [self.w[k] for k in names])[0]
        if what == "ebl":
            return self.ebl()
        mid = rng.choice(list(self.m))
        ms = self.m[mid]
        kind = ms["k"]
        if what == "eval":
            self.do_eval(mid)
        elif what == "again":
            # the same or a related request as earlier, often on another model
            if not self.history:
                return
            m0, req = rng.choice(self.history[-6:])
            if m0 not in self.m:
                return
            req = copy.deepcopy(req)
            req.pop("ekw", None)
            x = rng.random()
            if x < 0.3 and req["meth"] in ("flux", "sed"):
                req["meth"] = "sed" if req["meth"] == "flux" else "flux"
            elif x < 0.5 and "D" in req:
                req.pop("D")
                req.pop("seedpos", None)
            elif x < 0.7 and "E" in req and len(req["E"]["ev"]) < 50:
                req["E"].update(g_spelling(rng))
            elif x < 0.85:
                same = [i for i, s in self.m.items() if s["k"] == self.m[m0]["k"]]
                m0 = rng.choice(same)
            self.do_eval(m0, req)
        elif what == "setm":
            attr = rng.choice(SETTABLE[kind])
            if attr == "hiEmodel":
                val = rng.choice(["Pythia8", "Geant4", "SIBYLL", "QGSJET"])
            else:
                val = nudge(rng, ms["p"].get(attr, DEFAULTS.get(attr)), attr)
            if attr in ("nEed", "nEpd") and isinstance(val, (int, float)) and val > 60:
                return
            self.set_m(mid, attr, val)
        elif what == "setd":
            d = ms["d"]
            f, s = self.d[d]
            attr = rng.choice(DSET[s["k"]])
            val = nudge(rng, s["p"][attr], attr)
            self.set_d(d, attr, val)
        elif what == "back":
            # change, evaluate, change back, evaluate
            req = self.request(mid)
            self.do_eval(mid, req)
            d = ms["d"]
            f, s = self.d[d]
            if rng.random() < 0.5:
                attr = rng.choice(DSET[s["k"]])
                old = s["p"][attr]
                self.set_d(d, attr, nudge(rng, old, attr))
                self.do_eval(mid, copy.deepcopy(req))
                self.set_d(d, attr, old)
            else:
                attr = rng.choice([a for a in SETTABLE[kind] if a != "hiEmodel"] or ["nh"])
                old = ms["p"].get(attr)
                if old is None:
                    return
                self.set_m(mid, attr, nudge(rng, old, attr))
                self.do_eval(mid, copy.deepcopy(req))
                self.set_m(mid, attr, old)
            self.do_eval(mid, copy.deepcopy(req))
        elif what == "repl":
            others = list(self.d)
            d = rng.choice(others) if rng.random() < 0.5 else self.new_dist(self.fam(kind))
            ms["d"] = d
            self.ops.append({"op": "repl", "m": mid, "d": d})
            if self.history and rng.random() < 0.7:
                self.repeat(mid)
        elif what == "twin":
            # the same settings in a distribution of another kind
            f, s = self.d[ms["d"]]
            t = None
            if s["k"] == "ECPL":
                t = {"k": "PL", "p": {x: s["p"][x] for x in ("amplitude", "e_0", "alpha")}}
            elif s["k"] == "PL":
                t = {"k": "LP", "p": dict(s["p"], beta=0.2)}
            elif s["k"] == "FN":
                t = {"k": "CC", "p": dict(s["p"])}
            elif s["k"] == "CC":
                t = {"k": "FN", "p": dict(s["p"])}
            elif s["k"] == "BPL":
                t = {"k": "ECBPL", "p": dict(s["p"], e_cutoff=[30.0, "TeV"], beta=1.0)}
            elif s["k"] == "TM":
                # a table that differs in a single value
                t = copy.deepcopy(s)
                v = t["p"]["v"] if not isinstance(t["p"]["v"][0], list) else t["p"]["v"][0]
                v[int(len(v) * 0.6)] *= rng.choice([1.3, 1.01])
            if t:
                i = self.nd
                self.nd += 1
                self.d[i] = (f, t)
                self.ops.append({"op": "newd", "id": i, "spec": copy.deepcopy(t)})
                self.do_eval(mid)
                ms["d"] = i
                self.ops.append({"op": "repl", "m": mid, "d": i})
                self.repeat(mid)
        elif what == "copy":
            how = rng.choice(["copy", "deepcopy", "pickle"])
            new = self.nm
            self.nm += 1
            op = {"op": "copy", "m": mid, "new": new, "how": how}
            if how != "copy":
                op["newd"] = self.nd
                self.nd += 1
                self.d[op["newd"]] = copy.deepcopy(self.d[ms["d"]])
            self.ops.append(op)
            self.m[new] = copy.deepcopy(ms)
            if how == "copy" and "seeds" in ms:
                self.m[new]["seeds"] = ms["seeds"]
            if how != "copy":
                self.m[new]["d"] = op["newd"]
            if self.history:
                self.repeat(new)
        elif what == "seed":
            if kind != "IC":
                return
            self.seed_op(mid)
        elif what == "bulk":
            if kind == "K06":
                return
            self.do_eval(mid)
            self.ops.append({"op": "bulk", "m": mid, "n": rng.choice([16, 17, 18, 20]),
                             "ev": g_energy(rng, kind)[:2]})
            self.repeat(mid)
        elif what == "lut":
            if kind == "PP":
                self.lut(mid)
        elif what == "delm":
            if len(self.m) > 1:
                del self.m[mid]
                self.ops.append({"op": "delm", "m": mid})
                if rng.random() < 0.7:
                    self.do_eval(self.new_model(kind))
        elif what == "newm":
            if len(self.m) < 5:
                self.new_model()
        elif what == "setW":
            self.setW(mid)
        elif what == "mutres":
            self.ops.append({"op": "mutres", "r": rng.randrange(50),
                             "how": rng.choice(["imul", "zero", "one", "reverse", "view"])})
            if self.history:
                self.repeat(mid)
        elif what == "mutarg":
            self.ops.append({"op": "mutarg", "r": rng.randrange(50),
                             "how": rng.choice(["imul", "one", "reverse"])})
            if self.history:
                self.repeat(mid)

    def lut(self, mid):
        """lookup table on and off, for settings that have one and that do not"""
        rng = self.rng
        req = self.request(mid)
        while req["meth"] not in ("flux", "sed"):
            req = self.request(mid)
        have = {"useLUT": True, "hiEmodel": "Pythia8", "nuclear_enhancement": True}
        for a, v in have.items():
            self.m[mid]["p"][a] = v
            self.ops.append({"op": "setm", "m": mid, "attr": a, "val": v})
        self.do_eval(mid, copy.deepcopy(req))
        for _ in range(rng.choice([1, 2])):
            a, v = rng.choice([("hiEmodel", rng.choice(["Geant4", "SIBYLL", "QGSJET"])), ("nuclear_enhancement", False),
                               ("useLUT", False), ("hiEmodel", "Pythia8"), ("nuclear_enhancement", True), ("useLUT", True)])
            self.m[mid]["p"][a] = v
            self.ops.append({"op": "setm", "m": mid, "attr": a, "val": v})
            if rng.random() < 0.8:
                self.do_eval(mid, copy.deepcopy(req))
        if rng.random() < 0.4:
            for a, v in have.items():
                self.m[mid]["p"][a] = v
                self.ops.append({"op": "setm", "m": mid, "attr": a, "val": v})
            self.do_eval(mid, copy.deepcopy(req))

    def setW(self, mid, fault=None):
        rng = self.rng
        ms = self.m[mid]
        if ms["k"] == "K06":
            return
        dk = self.d[ms["d"]][1]["k"]
        op = {"op": "setW", "m": mid, "W": [rng.choice([1e47, 3.3e48, 7e49]), rng.choice(["erg", "J"])]}
        if rng.random() < 0.4:
            op["lo"] = rng.choice([[5.0, "GeV"], [50.0, "GeV"], [1.5, "GeV"], [3000.0, "MeV"]])
        if rng.random() < 0.4:
            op["hi"] = rng.choice([[10.0, "TeV"], [91.0, "TeV"], [2e5, "GeV"], [30.0, "PeV"]])
        if dk in ("FN", "CC"):
            if rng.random() < 0.88:
                op["amp"] = "norm"
        elif rng.random() < 0.3:
            op["amp"] = "amplitude"
        if fault:
            op["fault"] = fault
        self.ops.append(op)
        return op

    def repeat(self, mid):
        kind = self.m[mid]["k"]
        c = [r for m0, r in self.history if m0 == mid or self.m.get(m0, {}).get("k") == kind]
        if c:
            req = copy.deepcopy(self.rng.choice(c[-4:]))
            req.pop("ekw", None)
            self.do_eval(mid, req)

    def set_m(self, mid, attr, val):
        self.m[mid]["p"][attr] = val
        self.ops.append({"op": "setm", "m": mid, "attr": attr, "val": val,
                         "how": self.rng.choice(["assign", "assign", "inplace"])})
        if self.rng.random() < 0.6:
            self.repeat(mid)

    def set_d(self, d, attr, val):
        self.d[d][1]["p"][attr] = val
        self.ops.append({"op": "setd", "d": d, "attr": attr, "val": val,
                         "how": self.rng.choice(["assign", "assign", "inplace"])})
        if self.rng.random() < 0.6:
            ms = [i for i, s in self.m.items() if s.get("d") == d]
            if ms:
                self.repeat(self.rng.choice(ms))

    def seed_op(self, mid):
        rng = self.rng
        ms = self.m[mid]
        s = rng.choice(ms["seeds"])
        x = rng.random()
        if x < 0.6:
            f = rng.choice(["T", "u", "u", "theta"])
            if f == "theta" and "theta" not in s:
                f = "u"
            v = {"T": [rng.choice([22.0, 2900.0, 31.0]), "K"], "u": [rng.choice([0.3, 1.9]), "eV/cm3"],
                 "theta": [rng.choice([45.0, 150.0]), "deg"]}[f]
            op = {"op": "seed_edit", "m": mid, "name": s["name"], "field": f, "val": v,
                  "factor": rng.choice([2.0, 1 + 1e-5]), "how": rng.choice(["assign", "inplace"])}
            if "E" in s and rng.random() < 0.5:
                op["interior"] = True
                op["factor"] = rng.choice([1.4, 1 + 1e-3])
            if "E" in s and rng.random() < 0.25:
                op["energies"] = True
                op["factor"] = 1 + rng.choice([1e-4, 1e-3])
            if self.history and rng.random() < 0.5:
                self.repeat(mid)
            self.ops.append(op)
        elif x < 0.8:
            if len(ms["seeds"]) > 1:
                ms["seeds"].remove(s)
                self.ops.append({"op": "seed_del", "m": mid, "name": s["name"]})
        else:
            o = [i for i, t in self.m.items() if t["k"] == "IC" and i != mid]
            if o:
                src = rng.choice(o)
                ms["seeds"] = copy.deepcopy(self.m[src]["seeds"])
                self.ops.append({"op": "seed_take", "m": mid, "src": src})
        if self.history:
            self.repeat(mid)


# ------------------------------------------------------------------ checking
def check_eval(o, ctx, Violation, prop):
    """One observation against its reference"""
    if o["req"].get("seed") is not None:
        ref = ctx.reference(ref_seed, o["d"], o["ms"], _clean(o["req"]))
    else:
        ref = ctx.reference(ref_eval, o["d"], o["ms"], _clean(o["req"]))
    if ref[0] != "ok":
        raise Violation("reference-failed", "%s %r" % (o["req"], ref[1:3]))
    ref = ref[1]
    ctx.evals += 1
    # adaptive integration to 1e-3: the last digit of an energy can change the subdivision
    bad = same(o["res"], ref, 2e-3 if o["kind"] == "K06" else RTOL)
    if bad:
        raise Violation(
            prop, "op %d: %s of %s: %s\nrequest %s\nsettings %s\nparticles %s"
            % (o["i"], o["req"]["meth"], o["kind"], bad, json.dumps(o["req"])[:600],
               json.dumps(o["ms"])[:600], json.dumps(o["d"])[:400]))
    return ref


def _clean(req):
    return {k: v for k, v in req.items() if k not in ("ekw", "seedpos")}


def run_history(plan, ctx):
    obs, stats, states = ctx.fork(subject, plan["ops"], plan.get("faulty", False), timeout=120)
    ctx.merge(stats)
    for s in states:
        ctx.state(s)
    ctx.log([_logobs(o) for o in obs])
    return obs


def _logobs(o):
    r = o.get("res")
    if r is None:
        return (o["i"], o.get("exc"), o.get("moved"), str(o.get("amp_after")))
    if r[0] in ("q", "a"):
        return (o["i"], r[0], r[1].tolist() if r[1].size < 50 else float(np.nansum(r[1])), r[2])
    return (o["i"],) + tuple(r)
