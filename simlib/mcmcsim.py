"""Sampling runs under the simulator: data, models, priors, sessions, oracle.

A scenario is a JSON description of data tables, model, prior and arguments.
A session performs get_sampler/run_sampler calls with it on the real library,
with simulated worker pools, a fixed random state, and planned faults; what
was recorded is compared with an independent computation from the scenario.
"""
import builtins
import contextlib
import io
import math
import os
import sys
import warnings

import numpy as np
from astropy import units as u

from . import radsim, simpool
from .simpool import SIM

# ------------------------------------------------------------------ models
KPC = 3.0856775814913674e21
SED_UNITS = ["erg/(cm2 s)", "TeV/(cm2 s)", "eV/(cm2 s)", "W/m2", "keV/(cm2 s)", "erg/(m2 s)"]
DIFF_UNITS = ["1/(cm2 s TeV)", "1/(cm2 s eV)", "1/(m2 s TeV)", "1/(cm2 s erg)", "1/(cm2 s GeV)"]
LSED_UNITS = ["erg/s", "TeV/s", "W"]
LDIFF_UNITS = ["1/(s TeV)", "1/(s eV)", "1/(s erg)"]
EUNITS = ["TeV", "GeV", "MeV", "erg", "eV", "kJ"]


def _num(e, unit):
    return (e.to(unit)).value


class SimModel:
    """User model function: counts as one evaluation, may fail as planned"""

    def __init__(self, cfg):
        self.cfg = cfg

    def __call__(self, pars, data):
        simpool.tick()
        return compute(self.cfg, pars, data)


_RAD = {}
RAD_AMP = {"ic": 1.5e32, "sync": 3e15, "brems": 5e32, "pion": 5e33}


def rad_object(cfg):
    """The radiative model object a user's script would keep at module level"""
    key = cfg["kind"]
    if key not in _RAD:
        import naima

        pd = naima.models.ExponentialCutoffPowerLaw(1e36 / u.eV, 10 * u.TeV, 2.0, 50 * u.TeV)
        if key == "ic":
            _RAD[key] = naima.models.InverseCompton(
                pd, seed_photon_fields=["CMB"], Eemin=100 * u.GeV, Eemax=500 * u.TeV, nEed=8
            )
        elif key == "sync":
            _RAD[key] = naima.models.Synchrotron(pd, B=100 * u.G, Eemin=1 * u.TeV, Eemax=100 * u.PeV, nEed=8)
        elif key == "brems":
            _RAD[key] = naima.models.Bremsstrahlung(pd, n0=10 / u.cm**3, Eemin=10 * u.GeV, Eemax=500 * u.TeV, nEed=8)
        elif key == "pion":
            _RAD[key] = naima.models.PionDecay(pd, nh=10 / u.cm**3, Epmax=1 * u.PeV, nEpd=8, useLUT=False)
    return _RAD[key]


def p10(x):
    """10**x that overflows to infinity instead of raising"""
    try:
        return 10.0**x
    except OverflowError:
        return math.inf


def compute(cfg, pars, data, fresh=False):
    """Output of the user's model function at pars"""
    kind = cfg["kind"]
    energy = data["energy"]
    pars = [float(p) for p in pars]
    if cfg.get("scale"):
        pars = [p / x for p, x in zip(pars, cfg["scale"])]
    if kind in ("ic", "sync", "brems", "pion"):
        import naima

        pd = naima.models.ExponentialCutoffPowerLaw(
            pars[0] * RAD_AMP[kind] / u.eV, 10 * u.TeV, pars[1], 30 * (u.PeV if kind == "sync" else u.TeV)
        )
        if fresh:
            _RAD.clear()
        m = rad_object(cfg)
        m.particle_distribution = pd
        if fresh:
            m._memoize = False
        dist = 0 if cfg.get("lum") else 1 * u.kpc
        flux = m.sed(data, distance=dist) if cfg["sed"] else m.flux(data, distance=dist)
        k = pars[0]
        if cfg["out"] in ("cont", "many"):
            cont = m.compute_Wp(1 * u.TeV) if kind == "pion" else m.compute_We(1 * u.TeV)
        else:
            cont = None
    else:
        e = _num(energy, "TeV")
        if kind == "logpl":
            k = p10(pars[0] / math.log(10) + 11) if cfg.get("ln") else p10(pars[0] + 11)
        else:
            k = pars[0]
        f = k * 1e-11 * e ** -pars[1]
        if kind == "ecpl":
            f = f * np.exp(-e / p10(pars[2]))
        if cfg.get("lum"):
            f = f * 4 * math.pi * KPC**2
        if cfg["sed"]:
            native = "TeV/s" if cfg.get("lum") else "TeV/(cm2 s)"
            f = f * e**2
        else:
            native = "1/(s TeV)" if cfg.get("lum") else "1/(cm2 s TeV)"
        flux = u.Quantity(f, native).to(cfg["unit"])
        cont = u.Quantity(abs(k) * 3e47 * pars[1], "erg")
    if cfg.get("rugged"):
        # many local optima
        flux = flux * (1 + cfg["rugged"] * math.sin(1e3 * sum(pars)))
    if cfg.get("noisy"):
        # jumps at every change of the parameters
        import hashlib

        h = hashlib.sha256(repr(pars).encode()).digest()
        flux = flux * (1 + cfg["noisy"] * (int.from_bytes(h[:4], "little") / 2**32 - 0.5))
    if cfg.get("spike"):
        # far better at one point than anywhere around it
        at, width, factor = cfg["spike"]
        if any(abs(a - b) > width * abs(b) for a, b in zip(pars, at)):
            # not to be made up for by other parameters
            flux = flux * factor ** np.sign(np.sin(5 * np.log(_num(energy, "TeV")) + 1))
    nan = cfg.get("nan_above")
    if nan is not None and pars[1] > nan:
        flux = flux * np.nan
    out = cfg["out"]
    if out == "flux":
        return flux
    if out == "list1":
        return [flux]
    if out == "scalar":
        return flux, float(k * pars[1])
    if out == "npscalar":
        return flux, np.float64(k + pars[1])
    if out == "cont":
        return flux, cont
    if out == "list":
        return [flux, cont if cont is not None else u.Quantity(k, "TeV")]
    if out == "same":
        return flux, flux * 2.5
    if out == "samearr":
        return flux, flux.value * 1.5
    if out == "near":
        # as many points as the data, at other energies
        return flux, (energy.to("TeV") * 1.15, flux * 0.8)
    if isinstance(out, dict):
        items = [extra_item(k, pars, flux) for k in out["items"]]
        return [flux] + items if out.get("list") else (flux, *items)
    grid = np.logspace(-1, 1, 5) * u.TeV
    if kind in ("ic", "sync", "brems", "pion"):
        g = u.Quantity(np.array([1.0, 2.0, 3.0, 4.0, 5.0]) * k, "1/eV")
    else:
        g = u.Quantity(k * 1e-11 * grid.value ** (2 - pars[1]), "TeV/(cm2 s)").to("erg/(cm2 s)")
    if out == "pair":
        return flux, (grid, g)
    if out == "many":
        return flux, (grid, g), cont, float(pars[1]), np.array([k, pars[1]]), u.Quantity([k, 2.0], "mG")
    raise ValueError(out)


ITEMS = {
    # name -> is it one of the formats a saved run can hold
    "f": True, "npf": True, "fnan": True, "q0": True, "qd": True, "q1": True, "q1b": True, "q2": True, "qnan": True,
    "qvary": True, "like": True, "pairq": True, "pairn": True, "pairx": True, "pair0": True, "triple": True, "listq": True,
    "qinf": True, "int": False, "str": False, "none": False, "arr": False, "ragged": False, "tupf": False, "qrag": False,
    "mixlist": False, "q0v": True, "bool": False, "qmec2": True, "qcrab": True, "pairscale": True,
}
MEC2 = "8.187105776823886e-07 erg"
CRAB = u.def_unit("Crab", 3.4567e-11 * u.Unit("erg/(cm2 s)"))


def exact(unit):
    """Text of a unit that says exactly which one it is"""
    text = unit.to_string()
    if isinstance(unit, u.UnitBase):
        try:
            if u.Unit(text).to(unit) == 1.0:
                return text
        except ValueError:
            unit = unit.decompose()
        return "%r %s" % (float(unit.scale), u.CompositeUnit(1, unit.bases, unit.powers).to_string(fraction=False))
    return text


def exotic_units(rng, sc):
    """Data in units with a scale that has many digits"""
    for t in sc["tables"]:
        if t.get("form") in ("ascii.ecsv", "ascii.ipac"):
            t.pop("form")
        if rng.random() < 0.6:
            k = factor(t["eunit"], MEC2)
            t["energy"] = [x * k for x in t["energy"]]
            t["eunit"] = MEC2
        if rng.random() < 0.6:
            new = "1.2345678901234567e-12 " + u.Unit(t["funit"]).to_string(fraction=False)
            for c in ("flux", "flux_ul"):
                if t.get(c) is not None:
                    t[c] = [x / 1.2345678901234567e-12 for x in t[c]]
            t["funit"] = new


def extra_item(k, pars, flux):
    """Further outputs a model function may return"""
    a, b = float(pars[0]), float(pars[1])
    v = np.array([a, b, a * b])
    if k == "f":
        return a - b
    if k == "npf":
        return np.float64(a * 3)
    if k == "fnan":
        return float("nan") if a > b else b
    if k == "q0":
        return u.Quantity(b * 1e30, "erg")
    if k == "qd":
        return u.Quantity(a + b)
    if k == "q1":
        return u.Quantity(v, "mG")
    if k == "q1b":
        return u.Quantity([b], "1/(eV cm3)")
    if k == "q2":
        return u.Quantity(np.outer(v, v[:2]), "m")
    if k == "qnan":
        return u.Quantity(np.where(v > b, np.nan, v), "s")
    if k == "qinf":
        return u.Quantity(np.where(v > b, np.inf, v), "s")
    if k == "qvary":
        return u.Quantity(v[:2], "cm") if int(abs(a) * 1e6) % 2 else u.Quantity(v[:2] / 100, "m")
    if k == "like":
        return flux * 3
    if k == "qmec2":
        return u.Quantity(b * 1e30, MEC2)
    if k == "qcrab":
        return u.Quantity(v[:2], CRAB)
    if k == "pairscale":
        return (u.Quantity(v, MEC2), u.Quantity(v**2, CRAB))
    if k == "pairq":
        return (u.Quantity(v, "TeV"), u.Quantity(v**2, "erg/s"))
    if k == "pairn":
        return (v * 1.5, v * 2.5)
    if k == "pairx":
        return (u.Quantity(v, "TeV"), v + 1)
    if k == "pair0":
        return (u.Quantity(a, "pc"), u.Quantity(b, "kpc"))
    if k == "triple":
        return (u.Quantity(v, "TeV"), u.Quantity(v + 2, "TeV"), u.Quantity(v + 3, "1/eV"))
    if k == "listq":
        return [u.Quantity(v[:2], "GeV"), u.Quantity(v[1:], "K")]
    if k == "q0v":
        return u.Quantity(b * 2, "kpc") if int(abs(a) * 1e6) % 2 else u.Quantity(b * 3000, "pc")
    if k == "bool":
        return a > b
    if k == "int":
        return int(a * 1000)
    if k == "str":
        return "value %.3f" % a
    if k == "none":
        return None
    if k == "arr":
        return v
    if k == "ragged":
        return (v, v[:2])
    if k == "tupf":
        return (a, b)
    if k == "qrag":
        return u.Quantity(v[:2] if int(abs(a) * 1e6) % 2 else v, "m")
    if k == "mixlist":
        return [v, a]
    raise ValueError(k)


OUTS = ["flux", "list1", "scalar", "npscalar", "cont", "list", "same", "samearr", "pair", "near", "many"]


class SimPrior:
    def __init__(self, spec):
        self.spec = spec

    def __call__(self, pars):
        simpool.ptick()
        import naima

        t = 0.0
        for p, s in zip(pars, self.spec):
            if s is None:
                continue
            if s[0] == "u":
                t += naima.uniform_prior(p, s[1], s[2])
            elif s[0] == "n":
                t += naima.normal_prior(p, s[1], s[2])
            elif s[0] == "l":
                t += naima.core.log_uniform_prior(p, *[x for x in s[1:] if x is not None])
            else:
                t += user_prior(p, s)
        return t


def user_prior(p, s):
    """-(p-m)^2/2s^2 inside a window of 4 s, forbidden outside"""
    x = (p - s[1]) / s[2]
    return -np.inf if abs(x) > 4 else -0.5 * x * x


def oracle_prior(spec, pars):
    if spec is None:
        return 0.0
    t = 0.0
    for p, s in zip(pars, spec):
        if s is None:
            continue
        if s[0] == "u":
            t += 0.0 if s[1] <= p <= s[2] else -math.inf
        elif s[0] == "n":
            t += -0.5 * (2 * math.pi * s[2]) - (p - s[1]) ** 2 / (2 * s[2])
        elif s[0] == "l":
            t += 1 / p if p > 0 and (len(s) < 2 or s[1] <= p) and (len(s) < 3 or s[2] is None or p <= s[2]) else -math.inf
        else:
            t += user_prior(p, s)
    return float(t)


# -------------------------------------------------------------------- data
def make_table(t):
    from astropy.table import Table

    tab = Table()
    tab["energy"] = u.Quantity(t["energy"], t["eunit"])
    tab["flux"] = u.Quantity(t["flux"], t["funit"])
    if t["err"] == "sym":
        tab["flux_error"] = u.Quantity(t["ehi"], t["errunit"])
    else:
        tab["flux_error_lo"] = u.Quantity(t["elo"], t["errunit"])
        tab["flux_error_hi"] = u.Quantity(t["ehi"], t["errunit"])
    w = t.get("width")
    if w:
        e = np.array(t["energy"])
        lo, hi = e * 0.1, e * 0.12
        if w == "width":
            tab["energy_width"] = u.Quantity(2 * lo, t["eunit"])
        elif w == "error":
            tab["energy_error"] = u.Quantity(lo, t["eunit"])
        elif w == "lohi":
            tab["energy_error_lo"] = u.Quantity(lo, t["eunit"])
            tab["energy_error_hi"] = u.Quantity(hi, t["eunit"])
        elif w == "edges":
            tab["energy_lo"] = u.Quantity(e - lo, t["eunit"])
            tab["energy_hi"] = u.Quantity(e + hi, t["eunit"])
    if t.get("ul") is not None:
        k = t.get("ulkind", "bool")
        if k == "bool":
            tab["ul"] = np.array(t["ul"], dtype=bool)
        elif k == "int":
            tab["ul"] = np.array(t["ul"], dtype=int)
        else:
            tab["ul"] = np.array([str(bool(x)) for x in t["ul"]])
    if t.get("flux_ul") is not None:
        tab["flux_ul"] = u.Quantity(t["flux_ul"], t["funit"])
    if t.get("cl") is not None:
        tab.meta["keywords"] = {"cl": {"value": t["cl"]}}
    if t.get("comments"):
        tab.meta["comments"] = ["a comment"]
    return reform(tab, t)


def reform(tab, t):
    """The table in another of the forms users have it in"""
    import io

    import naima
    from astropy.table import QTable, Table

    form = t.get("form")
    if form == "qtable":
        return QTable(tab)
    if form in ("ascii.ecsv", "ascii.ipac"):
        out = io.StringIO()
        tab.write(out, format=form)
        return Table.read(out.getvalue(), format=form)
    if form == "valid":
        return naima.utils.validate_data_table(tab)
    if form == "build":
        kw = {c: u.Quantity(tab[c]) for c in tab.colnames if c != "ul"}
        if "ul" in tab.colnames:
            kw["ul"] = t["ul"] if t["ulkind"] == "int" else np.array(tab["ul"])
        return naima.build_data_table(cl=t.get("cl"), **kw)
    return tab


def make_data(sc):
    tabs = [make_table(t) for t in sc["tables"]]
    if len(tabs) == 1 and not sc.get("aslist"):
        return tabs[0]
    return tabs


_F = {}


def factor(unit, to):
    k = (unit, to)
    if k not in _F:
        _F[k] = float(u.Unit(unit).to(u.Unit(to)))
    return _F[k]


def raw_points(sc):
    """Data points in plain numbers: energies in TeV, SED in erg/(cm2 s) or
    erg/s, sorted by energy.  (e, f, elo, ehi, ul, cl, table)"""
    pts = []
    lum = sc["lum"]
    sedu = "erg/s" if lum else "erg/(cm2 s)"
    for g, t in enumerate(sc["tables"]):
        for i, e in enumerate(t["energy"]):
            etev = e * factor(t["eunit"], "TeV")
            isul = bool(t["ul"][i]) if t.get("ul") is not None else False
            val = t["flux"][i]
            if isul and t.get("flux_ul") is not None:
                val = t["flux_ul"][i]

            def conv(v, unit):
                if t["sed"]:
                    return v * factor(unit, sedu)
                d = "1/(s erg)" if lum else "1/(cm2 s erg)"
                return v * factor(unit, d) * (etev * factor("TeV", "erg")) ** 2

            hi = conv(t["ehi"][i], t["errunit"])
            lo = hi if t["err"] == "sym" else conv(t["elo"][i], t["errunit"])
            pts.append((etev, conv(val, t["funit"]), lo, hi, isul,
                        t["cl"] if t.get("cl") is not None else 0.9, g))
    pts.sort()
    return pts


def model_sed(sc, out):
    """First output of the model as plain SED values"""
    spec = out[0] if isinstance(out, (tuple, list)) else out
    unit = spec.unit.to_string()
    v = np.asarray(spec.value, dtype=float)
    lum = sc["lum"]
    if sc["model"]["sed"]:
        return v * factor(unit, "erg/s" if lum else "erg/(cm2 s)")
    e = np.array([p[0] for p in raw_points(sc)]) * factor("TeV", "erg")
    return v * factor(unit, "1/(s erg)" if lum else "1/(cm2 s erg)") * e**2


def oracle_like(sc, sed):
    t = 0.0
    for (e, f, lo, hi, isul, cl, _), m in zip(raw_points(sc), sed):
        if isul:
            if m > f:
                t += math.log(1 - cl)
        else:
            d = m - f
            t += -0.5 * (d / (hi if d > 0 else lo)) ** 2
    return t


def oracle_batch(sc, positions):
    """For every position: (prior, likelihood, packed outputs); run in a
    pristine process"""
    warnings.simplefilter("ignore")
    e = np.array([p[0] for p in raw_points(sc)])
    data = {"energy": u.Quantity(e, "TeV")}
    res = []
    for p in positions:
        out = compute(sc["model"], p, data, fresh=True)
        res.append((
            oracle_prior(sc["prior"], p),
            oracle_like(sc, model_sed(sc, out)),
            pack_out(out),
        ))
    return res


def guess_oracle(sc):
    """The starting values after the guess of the normalisation; run in a
    pristine process"""
    warnings.simplefilter("ignore")
    p0 = [float(p) for p in sc["p0"]]
    labels = ["norm"] if sc["labels"] is None else list(sc["labels"])
    hits = [k for k, x in enumerate(labels[: len(p0)]) if x.lower().startswith(tuple(
        pre + n for n in ("norm", "ampl", "we", "wp") for pre in ("", "log(", "log10(")))]
    if not sc["guess"] or len(hits) != 1:
        return p0
    pts = raw_points(sc)
    out = compute(sc["model"], p0, {"energy": u.Quantity([p[0] for p in pts], "TeV")}, fresh=True)
    m = model_sed(sc, out)

    def area(f):
        y = [v / p[0] for v, p in zip(f, pts)]
        return sum((pts[k + 1][0] - pts[k][0]) * (y[k] + y[k + 1]) / 2 for k in range(len(pts) - 1))

    have, want = area(m), area([p[1] for p in pts])
    ratio = want / have if have else math.inf
    k = hits[0]
    lab = labels[k].lower()
    if lab.startswith("log("):
        p0[k] += math.log(ratio)
    elif lab.startswith("log10("):
        p0[k] += math.log10(ratio)
    else:
        p0[k] *= ratio
    return p0


# ------------------------------------------------------------------ packing
def pack_val(v):
    if isinstance(v, u.Quantity):
        return ("q", np.array(v.value, dtype=float), exact(v.unit))
    if isinstance(v, (tuple, list)):
        return ("t", [pack_val(x) for x in v])
    if isinstance(v, np.ndarray):
        try:
            return ("a", np.array(v, dtype=float))
        except Exception:
            return ("?", repr(v))
    try:
        return ("f", float(v))
    except Exception:
        return ("?", repr(v))


def pack_out(out):
    if isinstance(out, (tuple, list)):
        outs = list(out)
    else:
        outs = [out]
    return [pack_val(x) for x in outs]


def same_val(a, b, rtol=1e-9):
    try:
        return bool(_same_val(a, b, rtol))
    except Exception:
        return False


def _same_val(a, b, rtol):
    if a[0] != b[0]:
        # a bare number may come back as 0-d array
        if {a[0], b[0]} == {"f", "a"}:
            return np.shape(a[1]) == np.shape(b[1]) == () and np.isclose(a[1], b[1], rtol=rtol, atol=0)
        return False
    if a[0] == "q":
        f = 1.0
        if a[2] != b[2]:
            ua, ub = u.Unit(a[2]), u.Unit(b[2])
            if ua != ub:
                return False
            f = ub.to(ua)
        return a[1].shape == b[1].shape and np.allclose(a[1], b[1] * f, rtol=rtol, atol=0, equal_nan=True)
    if a[0] == "t":
        return len(a[1]) == len(b[1]) and all(_same_val(x, y, rtol) for x, y in zip(a[1], b[1]))
    if a[0] == "a":
        return np.shape(a[1]) == np.shape(b[1]) and np.allclose(a[1], b[1], rtol=rtol, atol=0, equal_nan=True)
    if a[0] == "f":
        return np.isclose(a[1], b[1], rtol=rtol, atol=0, equal_nan=True)
    return a == b


def pack_blobs(blobs):
    """blobs[step][walker] -> list of packed outputs"""
    if blobs is None:
        return None
    return [[[pack_val(x) for x in np.atleast_1d(np.asarray(w, dtype=object)) if True]
             if not isinstance(w, np.ndarray) or w.dtype != object else [pack_val(x) for x in w]
             for w in step] for step in blobs]


def short(v):
    s = repr(v)
    return s if len(s) < 400 else s[:400] + "..."


# ------------------------------------------------------------------ session
class FailingOut(io.StringIO):
    """Console whose n-th write fails"""

    def __init__(self, at=None, exc=None):
        super().__init__()
        self.n, self.at, self.exc, self.fired = 0, at, exc, False

    def write(self, s):
        self.n += 1
        if self.at is not None and self.n == self.at:
            self.fired = True
            SIM.count("fault_print_" + self.exc)
            raise simpool.EXCS[self.exc]("injected console failure")
        return len(s)


class LineFault:
    """Raise at the n-th line executed in the given library files"""

    def __init__(self, n, exc, files=("naima/core.py",)):
        self.n, self.exc, self.files, self.count, self.fired = n, exc, files, 0, None
        self.task = None

    def __enter__(self):
        def local(frame, event, arg):
            if event == "line":
                self.count += 1
                if self.count == self.n and not self.fired:
                    self.fired = (frame.f_code.co_name, frame.f_lineno)
                    self.task = SIM.task_no
                    SIM.count("fault_line_" + self.exc)
                    sys.settrace(None)
                    raise simpool.EXCS[self.exc]("injected fault at line")
            return local

        def glob(frame, event, arg):
            if frame.f_code.co_filename.endswith(self.files):
                return local
            return None

        self._old = sys.gettrace()
        sys.settrace(glob)
        return self

    def __exit__(self, *a):
        sys.settrace(self._old)
        return False


class Saves:
    """Counts completed steps at the storage seam of the sampler"""

    def __init__(self):
        self.ticks = []
        self.resets = 0

    def install(self):
        import emcee

        orig = emcee.backends.Backend.save_step
        oreset = emcee.backends.Backend.reset
        me = self

        def save_step(self, state, accepted):
            orig(self, state, accepted)
            me.ticks.append(SIM.task_no)

        def reset(self, *a, **k):
            me.ticks = []
            me.resets += 1
            return oreset(self, *a, **k)

        emcee.backends.Backend.save_step = save_step
        emcee.backends.Backend.reset = reset
        return self


def snapshot(sampler):
    it = sampler.iteration
    d = {"iteration": int(it), "info": dict(sampler.run_info), "labels": list(sampler.labels)}
    if it > 0:
        d["chain"] = np.array(sampler.get_chain())
        d["lnp"] = np.array(sampler.get_log_prob())
        b = sampler.get_blobs()
        d["blobs"] = pack_blobs(b)
    else:
        d["chain"] = d["lnp"] = d["blobs"] = None
    return d


def set_cpus(n):
    """Number of cores the library sees"""
    SIM.cpu = n
    if SIM.cpu != "real":
        import multiprocessing

        os.cpu_count = lambda: SIM.cpu
        if hasattr(os, "process_cpu_count"):
            os.process_cpu_count = lambda: SIM.cpu
        multiprocessing.cpu_count = lambda: SIM.cpu or 1


def session(sc, ops, sched):
    """Perform the calls; returns the list of observations.  Runs in a forked
    child."""
    import naima

    warnings.simplefilter("ignore")
    SIM.reset(sched.get("seed", 0), sched.get("chunking", "random"), None)
    set_cpus(sched.get("cpu", "real"))
    saves = Saves().install()
    np.random.seed(sc["seed"] % 2**32)
    data = make_data(sc)
    model = SimModel(sc["model"])
    prior = SimPrior(sc["prior"]) if sc["prior"] is not None else None
    p0 = list(sc["p0"])
    w = {"sampler": None, "pos": None}
    obs = []
    for op in ops:
        f = op.get("fault")
        SIM.fault = None
        SIM.fired = False
        base = SIM.task_no
        if f and f["type"] == "eval":
            SIM.fault = {"at": base + f["at"], "exc": f["exc"], "where": f.get("where", "model")}
        out = FailingOut(f["at"], f["exc"]) if f and f["type"] == "print" else FailingOut()
        line = LineFault(f["at"], f["exc"], tuple(f.get("files", ["naima/core.py"]))) if f and f["type"] == "line" \
            else contextlib.nullcontext()
        npools = len(SIM.pools)
        nresets = saves.resets
        o = {"op": op["op"], "base": base}
        oldout = sys.stdout
        sys.stdout = out
        started = w["sampler"]
        try:
            with line:
                if op["op"] in ("get", "getrun"):
                    kw = dict(
                        data_table=data, p0=p0, model=model, prior=prior, nwalkers=sc["nwalkers"],
                        nburn=op.get("nburn", sc["nburn"]), guess=sc["guess"], prefit=sc.get("prefit", False),
                        labels=sc["labels"], threads=sc["threads"], data_sed=sc.get("data_sed"),
                    )
                    if sc["threads"] == "default":
                        del kw["threads"]
                    if op["op"] == "get":
                        w["sampler"], w["pos"] = naima.get_sampler(**kw)
                    else:
                        w["sampler"], w["pos"] = naima.run_sampler(nrun=op["n"], **kw)
                elif op["op"] == "run":
                    pos = w["pos"]
                    if op.get("pos") == "coords":
                        pos = np.array(pos.coords if hasattr(pos, "coords") else pos)
                    elif op.get("pos") == "last":
                        s = w["sampler"]
                        if s.iteration > 0:
                            pos = np.array(s.get_chain()[-1])
                        else:
                            pos = np.array(pos.coords if hasattr(pos, "coords") else pos)
                    o["start"] = np.array(pos.coords if hasattr(pos, "coords") else pos)
                    w["sampler"], w["pos"] = naima.run_sampler(nrun=op["n"], sampler=w["sampler"], pos=pos)
            o["exc"] = None
        except BaseException as e:  # noqa
            o["exc"] = [type(e).__name__, str(e)[:200]]
        finally:
            sys.stdout = oldout
        o["evals"] = SIM.task_no - base
        o["prints"] = out.n
        o["fired"] = bool(out.fired or (f and f["type"] == "line" and line.fired)
                          or (f and f["type"] == "eval" and SIM.fired))
        o["where"] = line.fired if f and f["type"] == "line" else None
        o["firetask"] = line.task - base if o["where"] else None
        if f and f["type"] == "line":
            o["lines"] = line.count
        o["ticks"] = [t - base for t in saves.ticks]
        o["reset"] = saves.resets > nresets
        o["live"] = len(SIM.live_pools())
        o["newpools"] = len(SIM.pools) - npools
        o["workers"] = [p._processes for p in SIM.pools[npools:]]
        o["maxlive"], SIM.maxlive = max(SIM.maxlive, o["live"]), o["live"]
        if w["sampler"] is not None:
            o["snap"] = snapshot(w["sampler"])
            o["poolattr"] = w["sampler"].pool is not None
            pos = w["pos"]
            if pos is not None:
                o["pos"] = np.array(pos.coords if hasattr(pos, "coords") else pos)
        obs.append(o)
        if w["sampler"] is None:
            break
    return {"obs": obs, "stats": dict(SIM.stats), "log": list(SIM.log)}


# ---------------------------------------------------------------- generator
def g_tables(rng, lum, ntab=None, npts=None):
    ntab = ntab or rng.choice([1, 1, 1, 2, 3])
    tabs = []
    used = []
    for k in range(ntab):
        sed = rng.random() < 0.5
        n = npts or rng.randint(3, 6)
        ev = []
        while len(ev) < n:
            e = float("%.4g" % 10 ** rng.uniform(-1, 1.7))
            if all(abs(e / x - 1) > (0.02 if npts is None else 0.002) for x in used):
                ev.append(e)
                used.append(e)
        if rng.random() < 0.7:
            ev.sort()
        eunit = rng.choice(["TeV", "TeV"] + EUNITS)
        funit = rng.choice((LSED_UNITS if sed else LDIFF_UNITS) if lum else (SED_UNITS if sed else DIFF_UNITS))
        errunit = funit if rng.random() < 0.7 else rng.choice(
            (LSED_UNITS if sed else LDIFF_UNITS) if lum else (SED_UNITS if sed else DIFF_UNITS))
        nat = ("TeV/s" if sed else "1/(s TeV)") if lum else ("TeV/(cm2 s)" if sed else "1/(cm2 s TeV)")
        norm = 4 * math.pi * KPC**2 if lum else 1.0
        fl, lo, hi = [], [], []
        for e in ev:
            v = 1e-11 * e**-2.2 * norm * (e * e if sed else 1)
            r = rng.choice([0.05, 0.2, 0.5])
            fl.append(v * factor(nat, funit) * rng.lognormvariate(0, r))
            s = v * factor(nat, errunit) * r
            lo.append(s * rng.choice([1, 0.5, 2]))
            hi.append(s * rng.choice([1, 0.5, 2]))
        t = {"sed": sed, "energy": [e * factor("TeV", eunit) for e in ev], "eunit": eunit, "flux": fl,
             "funit": funit, "errunit": errunit, "err": rng.choice(["sym", "asym", "asym"]), "elo": lo, "ehi": hi,
             "width": rng.choice([None, None, "width", "error", "lohi", "edges"])}
        if rng.random() < 0.6:
            t["ul"] = [int(rng.random() < 0.4) for _ in ev]
            t["ulkind"] = rng.choice(["bool", "int", "str"])
            if rng.random() < 0.5:
                t["flux_ul"] = [x * rng.choice([0.7, 1.2, 3]) for x in fl]
            if rng.random() < 0.6:
                t["cl"] = rng.choice([0.95, 0.99, 0.5, 0.6827])
        if rng.random() < 0.2:
            t["comments"] = True
        if rng.random() < 0.35:
            forms = ["qtable", "ascii.ecsv"]
            if ntab == 1:
                # a validated table keeps its group, also in a list of others
                forms.append("valid")
            if t.get("ulkind") != "bool":
                forms.append("ascii.ipac")
            if t.get("flux_ul") is None and t.get("ulkind") != "str" and t["width"] in (None, "width", "edges"):
                forms += ["build"] * 2
            t["form"] = rng.choice(forms)
        tabs.append(t)
    if ntab > 1 and all(t.get("ul") is not None and all(t["ul"]) for t in tabs):
        tabs[0]["ul"][0] = 0
    return tabs


RAD_P0 = ("ic", "sync", "brems", "pion")


def g_scenario(rng, rad=0.25, threads=None, outs=None, prior=None, lum=None):
    lum = (rng.random() < 0.2) if lum is None else lum
    if rng.random() < rad:
        kind = rng.choice(["ic", "ic", "sync", "brems", "pion"])
    else:
        kind = rng.choice(["pl", "pl", "ecpl", "logpl"])
    sed = rng.random() < 0.5
    unit = rng.choice((LSED_UNITS if sed else LDIFF_UNITS) if lum else (SED_UNITS if sed else DIFF_UNITS))
    out = rng.choice(outs or OUTS)
    model = {"kind": kind, "sed": sed, "unit": unit, "out": out, "lum": lum}
    if kind in RAD_P0:
        p0 = [rng.uniform(0.5, 2), rng.uniform(1.8, 2.4)]
        names = ["norm", "alpha"]
    elif kind == "logpl":
        p0 = [-11 + rng.uniform(-0.2, 0.2), 2.2 * rng.uniform(0.9, 1.1)]
        names = ["log10(norm)", "index"]
        if rng.random() < 0.4:
            model["ln"] = True
            p0[0] *= math.log(10)
            names[0] = "log(norm)"
    else:
        p0 = [rng.uniform(0.5, 2), 2.2 * rng.uniform(0.9, 1.1)]
        names = ["norm", "index"]
        if kind == "ecpl":
            p0.append(rng.uniform(0.8, 1.6))
            names.append("log10(cutoff)")
    if rng.random() < 0.4:
        names[0] = names[0].replace("norm", rng.choice(["norm0", "ampl", "Amplitude", "We", "Wp_50", "NORM"]))
    lab = rng.choice(["full", "full", "full", "none", "short", "nonorm"])
    if rng.random() < 0.05:
        names[1] = "norm of index"
    labels = {"full": names, "none": None, "short": names[:1], "nonorm": ["a"] + names[1:]}[lab]
    pr = prior or rng.choice(["none", "uniform", "uniform", "tight", "normal", "mixed", "user"])
    spec = None
    if pr != "none":
        spec = []
        for k, p in enumerate(p0):
            w = abs(p) * 0.12 if p else 1.0
            if pr == "uniform":
                spec.append(["u", p - 3 * w, p + 3 * w])
            elif pr == "tight":
                spec.append(["u", p - rng.choice([0.3, 0.8, 1.5]) * w, p + rng.choice([0.3, 0.8, 1.5]) * w])
            elif pr == "normal":
                spec.append(["n", p, max(0.05, w)])
            elif pr == "user":
                spec.append(["x", p, w * rng.choice([0.3, 1])])
            else:
                spec.append(rng.choice([None, ["u", p - w, p + 2 * w], ["n", p, 0.3],
                                        rng.choice([["l", p * 0.6, p * 1.5], ["l", p * 0.6, p * 1.5], ["l", p * 0.95],
                                                    ["l", 0, p * 1.05], ["l"]]) if p > 0 else None]))
    ndim = len(p0)
    return {
        "seed": rng.randrange(2**31), "lum": lum, "model": model, "prior": spec, "p0": p0, "labels": labels,
        "guess": rng.random() < (0.5 if lab != "nonorm" else 0.2), "tables": g_tables(rng, lum),
        "aslist": rng.random() < 0.3, "data_sed": rng.choice([None, None, True, False]),
        "nwalkers": rng.choice([2 * ndim, 2 * ndim + 1, 2 * ndim + 2, 8, 10]), "nburn": rng.choice([0, 1, 2, 3]),
        "threads": threads if threads is not None else rng.choice([1, 1, 2, 3, 5]),
        "prefit": False,
    }


def rescale(rng, sc):
    """The same run with parameters in other units: far smaller or larger numbers"""
    m = sc["model"]
    x = [1.0 if m["kind"] == "logpl" else rng.choice([1e-12, 1e-7, 1e-4, 1e5, 1e33]),
         rng.choice([1.0, 1e-6, 1e4])] + [1.0] * len(sc["p0"][2:])
    m["scale"] = x
    sc["p0"] = [p * a for p, a in zip(sc["p0"], x)]
    if sc["prior"] is not None:
        sc["prior"] = [s and [s[0]] + [v * a for v in s[1:]] for s, a in zip(sc["prior"], x)]
    return sc


def confine(sc):
    """Keep a long run where the model is a number"""
    sc["prior"] = [s or ["u", p - 3 * abs(p), p + 3 * abs(p)] for s, p in zip(sc["prior"] or [None] * len(sc["p0"]), sc["p0"])]


def enlarge(rng, sc):
    """More of everything than usual: walkers, steps, data points"""
    k = rng.choice(["steps", "walkers", "both", "data"])
    if k in ("steps", "both"):
        sc["nrun"] = rng.choice([40, 70, 110])
        confine(sc)
    if k in ("walkers", "both"):
        sc["nwalkers"] = rng.choice([20, 32, 50, 66, 130])
    if k == "data":
        lum = sc["model"].get("lum")
        sc["tables"] = g_tables(rng, lum, ntab=rng.choice([1, 1, 2]), npts=rng.choice([12, 20, 35]))
    return sc


def shrink_scenario(plan):
    sc = plan["sc"]
    if sc.get("nrun", 0) > 6:
        yield dict(plan, sc=dict(sc, nrun=sc["nrun"] // 2))
    if sc["nwalkers"] > 12:
        yield dict(plan, sc=dict(sc, nwalkers=10))
    if len(sc["tables"]) > 1:
        for k in range(len(sc["tables"])):
            yield dict(plan, sc=dict(sc, tables=sc["tables"][:k] + sc["tables"][k + 1:]))
    if sc["model"]["kind"] in RAD_P0:
        pass
    if sc["prior"] is not None:
        yield dict(plan, sc=dict(sc, prior=None))
    if sc["model"]["out"] != "flux":
        yield dict(plan, sc=dict(sc, model=dict(sc["model"], out="flux")))
    if sc["guess"]:
        yield dict(plan, sc=dict(sc, guess=False))
    if sc["threads"] != 1:
        yield dict(plan, sc=dict(sc, threads=1))
    if sc["nburn"] > 0:
        yield dict(plan, sc=dict(sc, nburn=sc["nburn"] - 1))
    nd = len(sc["p0"])
    if sc["nwalkers"] > 2 * nd:
        yield dict(plan, sc=dict(sc, nwalkers=2 * nd))
    if sc.get("data_sed") is not None:
        yield dict(plan, sc=dict(sc, data_sed=None))
    for k, t in enumerate(sc["tables"]):
        def with_t(nt):
            return dict(plan, sc=dict(sc, tables=sc["tables"][:k] + [nt] + sc["tables"][k + 1:]))
        if t.get("form"):
            yield with_t({a: b for a, b in t.items() if a != "form"})
        for key in ("flux_ul", "cl", "width", "comments", "ul"):
            if t.get(key) is not None:
                if key == "ul" and t.get("flux_ul") is not None:
                    continue
                yield with_t({a: b for a, b in t.items() if a != key})
        if t["err"] == "asym":
            yield with_t(dict(t, err="sym"))


# ------------------------------------------------------------------ oracle
def _like_close(a, b):
    if math.isinf(a) or math.isinf(b):
        return a == b
    return abs(a - b) <= 1e-7 * max(1.0, abs(b))


def check_recorded(sc, snap, ctx, Violation, oracle, label=""):
    """Every recorded row against the independent computation.  oracle maps
    position tuple -> (prior, like, outs)"""
    chain, lnp, blobs = snap["chain"], snap["lnp"], snap["blobs"]
    if chain is None:
        return
    for s in range(chain.shape[0]):
        for w in range(chain.shape[1]):
            ctx.evals += 1
            pos = tuple(float(x) for x in chain[s, w])
            pri, like, outs = oracle[pos]
            want = pri if math.isinf(pri) else pri + like
            got = float(lnp[s, w])
            if not _like_close(got, want):
                # a model value on the edge of an upper limit or data point
                if not near_edge(sc, pos, got - want):
                    raise Violation(
                        "wrong-log-probability",
                        "%sstep %d walker %d at %s: recorded %r, data and prior give %r (prior %r, likelihood %r)"
                        % (label, s, w, pos, got, want, pri, like))
            if blobs is None:
                raise Violation("metadata-missing", "%sno metadata recorded" % label)
            b = blobs[s][w]
            exp = outs
            if len(exp) == 1:
                ok = len(b) >= 1 and same_val(b[0], exp[0])
            else:
                ok = len(b) == len(exp) and all(same_val(x, y) for x, y in zip(b, exp))
            if not ok:
                raise Violation(
                    "wrong-metadata",
                    "%sstep %d walker %d at %s: recorded %s, the model returns %s" % (label, s, w, pos, short(b), short(exp)))


def near_edge(sc, pos, diff):
    return False


def positions(*snaps):
    out = []
    seen = set()
    for s in snaps:
        if s is None or s.get("chain") is None:
            continue
        c = s["chain"]
        for row in c.reshape(-1, c.shape[-1]):
            t = tuple(float(x) for x in row)
            if t not in seen:
                seen.add(t)
                out.append(t)
    return out


def oracle_for(sc, ctx, *snaps):
    pos = positions(*snaps)
    if not pos:
        return {}
    res = ctx.raw_fork(oracle_batch, sc, pos, timeout=120)
    if res[0] != "ok":
        from .engine import HarnessError

        raise HarnessError("oracle failed: %r" % (res,))
    return dict(zip(pos, res[1]))


def same_run(a, b, rtol=1e-9):
    """Names the first difference between two recorded runs, or None"""
    for k in ("chain", "lnp"):
        x, y = a[k], b[k]
        if (x is None) != (y is None):
            return "%s: %s vs %s" % (k, None if x is None else x.shape, None if y is None else y.shape)
        if x is None:
            continue
        if x.shape != y.shape:
            return "%s shape %s vs %s" % (k, x.shape, y.shape)
        bad = ~np.isclose(x, y, rtol=rtol, atol=0, equal_nan=True)
        if bad.any():
            i = tuple(int(v) for v in np.argwhere(bad)[0])
            return "%s%s: %r vs %r" % (k, list(i), float(x[i]), float(y[i]))
    x, y = a["blobs"], b["blobs"]
    if (x is None) != (y is None):
        return "metadata present in one only"
    if x is not None:
        if len(x) != len(y):
            return "metadata of %d vs %d steps" % (len(x), len(y))
        for s, (p, q) in enumerate(zip(x, y)):
            for w, (m, n) in enumerate(zip(p, q)):
                if len(m) != len(n) or not all(same_val(v, z, rtol) for v, z in zip(m, n)):
                    return "metadata step %d walker %d: %s vs %s" % (s, w, short(m), short(n))
    return None


def rows(snap, lo, hi):
    d = dict(snap)
    for k in ("chain", "lnp", "blobs"):
        d[k] = None if snap[k] is None else snap[k][lo:hi]
    return d


def log_snap(ctx, o):
    s = o.get("snap") or {}
    c = s.get("chain")
    ctx.log(o["op"], o["exc"], o["evals"], o["live"], None if c is None else [list(map(float, r)) for r in c.reshape(-1, c.shape[-1])[-3:]])
