"""Independent computation of what a plot must show"""
import math

import numpy as np
from astropy import units as u
from scipy import stats

from . import mcmcsim as M
from .mcmcsim import factor

SEDU = ("erg/(cm2 s)", "erg/s", "erg")
DIFFU = ("1/(cm2 s TeV)", "1/(s TeV)", "1/TeV")


def to_plot(v, unit, etev, sed):
    un = u.Unit(unit)
    etev = np.asarray(etev)
    for s, d in zip(SEDU, DIFFU):
        if un.is_equivalent(u.Unit(s)):
            x = np.asarray(v) * float(un.to(u.Unit(s)))
            return x if sed else x * factor("erg", "TeV") / etev**2
        if un.is_equivalent(u.Unit(d)):
            x = np.asarray(v) * float(un.to(u.Unit(d)))
            return x * etev**2 * factor("TeV", "erg") if sed else x
    raise ValueError(unit)


def eqv(a, b, rtol=1e-7):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    return a.shape == b.shape and np.allclose(a, b, rtol=rtol, atol=0, equal_nan=True)


def models_at(sc, modelidx, pos, energy, eunit):
    """Output modelidx at the positions and energies (reference process):
    list of (grid in TeV, values, unit)"""
    data = {"energy": u.Quantity(np.array(energy), eunit), "flux": None}
    res = []
    for p in pos:
        out = M.compute(sc["model"], p, data, fresh=True)
        outs = list(out) if isinstance(out, (tuple, list)) else [out]
        b = outs[modelidx]
        if isinstance(b, (tuple, list)):
            g, v = b
        else:
            g, v = data["energy"], b
        res.append((g.to("TeV").value, np.array(v.value), v.unit.to_string()))
    return res


def grid_of(kw, eunit_default=None):
    """Energies asked for with e_range, in its own unit and in TeV"""
    er = kw["e_range"]
    if "q" in er:
        (lo, hi), un = er["q"]
    elif "ql" in er:
        (lo, un), (hi, un2) = er["ql"]
        hi = hi * factor(un2, un)
    else:
        lo, hi, un = 0.1, 40, "TeV"
    g = np.logspace(np.log10(lo), np.log10(hi), kw.get("e_npoints", 100))
    return g, un


class Expect:
    """Expected contents for one run"""

    def __init__(self, sc, snap, ctx, shared=None):
        self.sc, self.snap, self.ctx, self.shared = sc, snap, ctx, shared or {}
        self.pts = M.raw_points(sc)
        self.etev = np.array([p[0] for p in self.pts])

    # -- data points
    def data(self, sed, eunit, group):
        r = []
        for e, f, lo, hi, ul, cl, g in self.pts:
            if g != group:
                continue
            k = 1.0 if sed else factor("erg", "TeV") / e**2
            r.append((e * factor("TeV", eunit), f * k, lo * k, hi * k, ul, e))
        return r

    def check_data(self, ax, sed, eunit):
        segs = []
        for c in ax["colls"]:
            if c["paths"]:
                for p in c["paths"]:
                    if len(p) == 2:
                        segs.append(p)
        segs = np.array(segs) if segs else np.zeros((0, 2, 2))

        def seg(x0, y0, x1, y1):
            a = np.array([[x0, y0], [x1, y1]])
            scale = np.abs(a).max(axis=0)
            return len(segs) and (np.abs(segs - a) <= 1e-6 * scale).all(axis=(1, 2)).any()

        for g, t in enumerate(self.sc["tables"]):
            pts = self.data(sed, eunit, g)
            w = t.get("width")
            wl, wh = {"width": (0.1, 0.1), "error": (0.1, 0.1), "lohi": (0.1, 0.12), "edges": (0.1, 0.12)}.get(w, (None, None))
            for ul in (False, True):
                sel = [p for p in pts if bool(p[4]) == ul]
                if not sel:
                    continue
                x, y = [p[0] for p in sel], [p[1] for p in sel]
                if not any(eqv(ln["x"], x) and eqv(ln["y"], y) for ln in ax["lines"]):
                    return "no drawn %s of table %d at x=%s y=%s" % ("upper limits" if ul else "points", g, x, y)
                for p in sel:
                    if wl is not None and not seg(p[0] * (1 - wl), p[1], p[0] * (1 + wh), p[1]):
                        return "no horizontal error bar of width -%g/+%g for point x=%r y=%r of table %d" % (
                            wl * p[0], wh * p[0], p[0], p[1], g)
                    if not ul:
                        lo = p[2] if p[1] - p[2] > 0 else p[1] * (1 - 1e-7)
                        if not seg(p[0], p[1] - lo, p[0], p[1] + p[3]) and not (
                                p[1] - p[2] <= 1e-6 * p[1] and self.near_zero(segs, p)):
                            return "no vertical error bar -%g/+%g for point x=%r y=%r of table %d" % (lo, p[3], p[0], p[1], g)
        return None

    def near_zero(self, segs, p):
        return any(abs(s[:, 1].max() / (p[1] + p[3]) - 1) < 1e-6 and abs(s[0, 0] / p[0] - 1) < 1e-6
                   and s[:, 1].min() < 1e-3 * p[1] for s in segs)

    # -- models
    def ml_index(self):
        lnp = self.snap["lnp"]
        return np.unravel_index(np.argmax(lnp), lnp.shape)

    def blob_model(self, step, walker, modelidx):
        b = self.snap["blobs"][step][walker][modelidx]
        if b[0] == "t":
            g, v = b[1]
            return g[1] * factor(g[2], "TeV"), v[1], v[2]
        return self.etev, b[1], b[2]

    def curves(self, kw, modelidx, sed):
        """(grid in TeV, all allowed curves, ML curve, MLcurve unit) as drawn"""
        chain = self.snap["chain"]
        n = chain.shape[0]
        steps = [n - 1] if kw.get("last_step") else range(n)
        mi = self.ml_index()
        if "e_range" in kw:
            g, un = grid_of(kw)
            pos = [tuple(float(x) for x in chain[s, w]) for s in steps for w in range(chain.shape[1])]
            pos.append(tuple(float(x) for x in chain[mi]))
            r = self.ctx.reference(models_at, self.sc, modelidx, pos, [float(x) for x in g], un)
            if r[0] != "ok":
                raise RuntimeError("reference failed: %r" % (r,))
            r = r[1]
        else:
            r = [self.blob_model(s, w, modelidx) for s in steps for w in range(chain.shape[1])]
            r.append(self.blob_model(mi[0], mi[1], modelidx))
        grid = r[0][0]
        cur = [to_plot(v, un, grid, sed) for _, v, un in r]
        return grid, cur[:-1], cur[-1], r[-1]

    def check_fit(self, op, fig):
        """First discrepancy of a plot_fit figure, or None"""
        kw = op["kw"]
        mi = kw.get("modelidx", kw.get("blobidx", 0))
        sed = kw.get("sed", True)
        eunit = kw["e_unit"]["unit"] if "e_unit" in kw else self.sc["tables"][0]["eunit"]
        n_samples = kw.get("n_samples", 100)
        confs = kw.get("confs")
        if isinstance(confs, dict):
            confs = self.shared["confs"]["lit"] if "shared" in confs else confs["lit"]
        # whether data are drawn
        g0, v0, u0 = self.blob_model(0, 0, mi)
        plotdata = kw.get("plotdata")
        if plotdata is None:
            lum_model = not any(u.Unit(u0).is_equivalent(u.Unit(x)) for x in ("erg/(cm2 s)", "1/(cm2 s TeV)"))
            erg_model = any(u.Unit(u0).is_equivalent(u.Unit(x)) for x in ("erg", "1/TeV"))
            plotdata = len(g0) == len(self.pts) and lum_model == self.sc["lum"] and not erg_model
        resid = kw.get("plotresiduals")
        if resid is None and plotdata and (confs is not None or n_samples):
            resid = True
        if confs is None and not n_samples and plotdata and not resid:
            return self.check_data(fig["axes"][0], sed, eunit)
        ax = fig["axes"][0]
        grid, cur, ml, mlraw = self.curves(kw, mi, sed)
        x = grid * factor("TeV", eunit)
        drawn = [ln["y"] for ln in ax["lines"] if ln["ls"] not in ("None", "none", "", " ") and eqv(ln["x"], x)]
        if not any(eqv(y, ml) for y in drawn):
            return "the best-fit curve %s (recorded position of highest probability) is not drawn; drawn: %s" % (
                ml.tolist(), [y.tolist() for y in drawn[-1:]])
        if confs is None and n_samples:
            if len(drawn) != n_samples + 1:
                return "%d sample curves drawn instead of %d" % (len(drawn) - 1, n_samples)
            allc = np.array(cur + [ml])
            for y in drawn:
                if not np.isclose(allc, y, rtol=1e-7, atol=0, equal_nan=True).all(axis=1).any():
                    return "a drawn curve %s is the model at no recorded position" % y.tolist()
        elif len(drawn) != 1:
            return "%d model curves drawn instead of 1" % len(drawn)
        if confs is not None:
            bands = [c for c in ax["colls"] if c["paths"] and len(c["paths"][0]) >= 2 * len(x)]
            if len(bands) != len(confs):
                return "%d confidence bands drawn instead of %d" % (len(bands), len(confs))
            arr = np.array(cur)
            nn = len(arr) - 1
            for c, conf in zip(bands, sorted(confs, reverse=True)):
                v = np.concatenate(c["paths"])
                for i, xx in enumerate(x):
                    ys = v[np.isclose(v[:, 0], xx, rtol=1e-9, atol=0), 1]
                    srt = np.sort(arr[:, i])
                    if len(ys) == 0:
                        return "confidence band of %g sigma has no point at %g" % (conf, xx)
                    lo, hi = ys.min(), ys.max()
                    if "e_range" in kw:
                        for y in (lo, hi):
                            if not np.isclose(srt, y, rtol=1e-6, atol=0).any():
                                return "band edge %r at x=%r is the model value of no recorded position" % (float(y), xx)
                        continue
                    for y, fr in ((lo, stats.norm.cdf(-conf)), (hi, stats.norm.cdf(conf))):
                        k = int(fr * nn)
                        a, b = srt[max(0, k - 1)], srt[min(nn, k + 1)]
                        if not (a - 1e-7 * abs(a) <= y <= b + 1e-7 * abs(b)):
                            return "%g sigma band edge %r at x=%r is not the %g quantile of the recorded models (%r)" % (
                                conf, float(y), xx, fr, float(srt[k]))
        if plotdata:
            d = self.check_data(ax, sed, eunit)
            if d:
                return d
            if resid:
                return self.check_resid(fig, sed, eunit, mi)
        return None

    def check_resid(self, fig, sed, eunit, mi):
        if len(fig["axes"]) < 2:
            return "no residuals drawn"
        ax = fig["axes"][1]
        idx = self.ml_index()
        grid, v, un = self.blob_model(idx[0], idx[1], mi)
        m = to_plot(v, un, grid, sed)
        o = np.argsort(grid)
        grid, m = grid[o], m[o]
        for g in range(len(self.sc["tables"])):
            pts = [p for p in self.data(sed, eunit, g) if not p[4]]
            if not pts:
                continue
            e = np.array([p[5] for p in pts])
            mm = np.array([m[np.argmin(abs(grid - x))] if np.min(abs(grid / x - 1)) < 1e-9
                           else (np.interp(x, grid, m) if grid[0] <= x <= grid[-1] else np.nan) for x in e])
            y = np.array([(p[1] - q) / (0.5 * (p[2] + p[3])) for p, q in zip(pts, mm)])
            x = [p[0] for p in pts]
            scale = max(1.0, np.nanmax(np.abs(y)) if np.isfinite(y).any() else 1)
            ok = any(eqv(ln["x"], x) and np.allclose(ln["y"], y, rtol=1e-6, atol=1e-6 * scale, equal_nan=True)
                     for ln in ax["lines"] if len(ln["x"]) == len(x))
            if not ok:
                return "residuals %s of table %d are not drawn; drawn: %s" % (
                    y.tolist(), g, [ln["y"].tolist() for ln in ax["lines"] if len(ln["x"]) == len(x)])
        return None

    # -- distributions
    def check_marks(self, ax, dist):
        q = np.percentile(dist, [16, 50, 84])
        if not any(len(ln["x"]) == 2 and eqv(ln["x"], [q[1], q[1]], 1e-6) for ln in ax["lines"]):
            return "median %r is not marked" % float(q[1])
        ok = False
        for p in ax["patches"]:
            if p["v"] is None:
                continue
            x = p["v"][:, 0]
            if np.isclose(x.min(), q[0], rtol=1e-6, atol=1e-9 * abs(q[1])) and np.isclose(x.max(), q[2], rtol=1e-6, atol=1e-9 * abs(q[1])):
                ok = True
        if not ok:
            return "16%%-84%% interval (%r, %r) is not marked" % (float(q[0]), float(q[2]))
        return None

    def check_chain(self, p, fig, last_step):
        chain = self.snap["chain"][:, :, p]
        ax = next((a for a in fig["axes"] if a["title"] == "Walker traces"), fig["axes"][0])
        tr = [ln["y"] for ln in ax["lines"]]
        left = list(tr)
        for w in range(chain.shape[1]):
            k = next((i for i, y in enumerate(left) if eqv(y, chain[:, w], 1e-9)), None)
            if k is None:
                return "trace of walker %d is not drawn" % w
            left.pop(k)
        if left:
            return "%d drawn traces belong to no walker" % len(left)
        ax2 = next((a for a in fig["axes"] if a["title"] == "posterior distribution"), fig["axes"][1])
        return self.check_marks(ax2, chain[-1] if last_step else chain.ravel())

    def check_blobdist(self, idx, fig, last_step):
        bl = self.snap["blobs"]
        steps = [bl[-1]] if last_step else bl
        vals, unit = [], None
        for st in steps:
            for w in st:
                b = w[idx]
                if b[0] == "q":
                    unit = unit or b[2]
                    vals.append(float(b[1]) * float(u.Unit(b[2]).to(u.Unit(unit))))
                else:
                    vals.append(float(b[1]))
        ax = fig["axes"][-1]
        return self.check_marks(ax, np.array(vals))

    def check(self, op, obs):
        kw = op["kw"]
        fig = obs.get("fig")
        if fig is None:
            return None
        k = op["op"]
        scal = self.scalar_idx()
        if k == "fit" or (k == "blob" and kw.get("blobidx") not in scal):
            return self.check_fit(op, fig)
        if k == "blob":
            return self.check_blobdist(kw["blobidx"], fig, kw.get("last_step"))
        if k == "chain":
            return self.check_chain(op["p"], fig, kw.get("last_step"))
        if k == "chainall":
            if len(fig["figs"]) != self.snap["chain"].shape[-1]:
                return "%d chain figures for %d parameters" % (len(fig["figs"]), self.snap["chain"].shape[-1])
            for p, f in enumerate(fig["figs"]):
                d = self.check_chain(p, f, kw.get("last_step"))
                if d:
                    return "parameter %d: %s" % (p, d)
            return None
        if k == "data":
            eunit = kw["e_unit"]["unit"] if "e_unit" in kw else self.sc["tables"][0]["eunit"]
            if op.get("onto"):
                if obs["earlier"]:
                    return obs["earlier"]
                eunit = op["onto"]["kw"]["e_unit"]["unit"]
                d = self.check_data(obs["added"], kw.get("sed", True), eunit)
                return d and "in the unit of the axis (%s): %s" % (eunit, d)
            return self.check_data(fig["axes"][0], kw.get("sed", True), eunit)
        if k == "corner" and kw.get("show_ML", True):
            ml = self.snap["chain"][self.ml_index()]
            n = len(ml)
            for i in range(n):
                if not any(len(ln["x"]) >= 2 and np.allclose(np.asarray(ln["x"], dtype=float), ml[i], rtol=1e-9, atol=0)
                           for a in fig["axes"] for ln in a["lines"]):
                    return "maximum-likelihood value %r of parameter %d is not marked" % (float(ml[i]), i)
        return None

    def scalar_idx(self):
        return {"scalar": [1], "npscalar": [1], "cont": [1], "list": [1], "many": [2, 3]}.get(self.sc["model"]["out"], [])
