"""Saved runs: what a sampler (real or read back) holds, and what must be the
same after saving and reading it."""
import os

import numpy as np
from astropy import units as u

from . import mcmcsim as M


def pack_col(t, c):
    col = t[c]
    if isinstance(col, u.Quantity):
        return ("q", np.array(col.value), M.exact(col.unit))
    un = getattr(col, "unit", None)
    v = np.array(col)
    if un is not None:
        return ("q", v, M.exact(u.Unit(un)))
    return ("a", v)


def pack_val(x):
    if isinstance(x, (int, np.integer)) and not isinstance(x, bool):
        return ("i", int(x))
    if isinstance(x, (bool, np.bool_)):
        return ("?", repr(x))
    return M.pack_val(x)


def run_print(s):
    """Everything a run holds, in plain values"""
    blobs = s.get_blobs()
    d = {
        "chain": np.array(s.get_chain()),
        "lnp": np.array(s.get_log_prob()),
        "blobs": [[[pack_val(x) for x in w] for w in step] for step in blobs],
        "flat": [np.array(s.get_chain(flat=True)), np.array(s.get_log_prob(flat=True))],
        "labels": [str(x) for x in s.labels],
        "info": {str(k): np.asarray(v) for k, v in s.run_info.items()},
        "acc": float(np.mean(s.acceptance_fraction)),
        "cols": [(c,) + pack_col(s.data, c) for c in s.data.colnames],
    }
    fl = s.get_blobs(flat=True)
    d["flatblobs"] = [[pack_val(x) for x in w] for w in fl]
    return d


def table_print(naima, s, tmp, **kw):
    """Statistics table of a run: rows and metadata"""
    t = naima.save_results_table(os.path.join(tmp, "tp"), s, overwrite=True, **kw)
    rows = {}
    for r in t:
        lab = r["label"]
        lab = lab.decode() if isinstance(lab, bytes) else str(lab)
        rows.setdefault(lab, []).append([float(r[c]) for c in ("median", "unc_lo", "unc_hi")])
    return {"rows": rows, "order": list(rows), "meta": {k: np.asarray(v) for k, v in t.meta.items() if k != "keywords"}}


def storable(v):
    return v[0] in ("q", "f") or (v[0] == "t" and all(x[0] in ("q", "a") for x in v[1]))


def same_blob(a, b):
    """Value of the run, value read back"""
    if a[0] == "f":
        if b[0] == "q" and b[1].shape == () and b[2] == "":
            b = ("f", float(b[1]))
    elif a[0] == "t" and b[0] == "t":
        # plain arrays come back as dimensionless quantities
        return len(a[1]) == len(b[1]) and all(
            M.same_val(("q", x[1], "") if x[0] == "a" else x, ("q", y[1], "") if y[0] == "a" else y, 1e-12)
            for x, y in zip(a[1], b[1]))
    if a[0] == b[0] == "q" and a[2] != b[2]:
        # one unit is stored for all steps and walkers
        ua, ub = u.Unit(a[2]), u.Unit(b[2])
        if not ub.is_equivalent(ua):
            return False
        b = ("q", b[1] * ub.to(ua), a[2])
    return M.same_val(a, b, 1e-12)


def storable_indices(p):
    """Outputs that every save can hold: same format and size everywhere"""
    res = []
    flat = [w for step in p["blobs"] for w in step]
    for i in range(len(flat[0])):
        vals = [w[i] for w in flat]
        if not all(storable(v) for v in vals) or len({v[0] for v in vals}) > 1:
            continue
        if vals[0][0] == "q":
            if len({v[1].shape for v in vals}) > 1:
                continue
            us = {v[2] for v in vals}
            if any(not u.Unit(x).is_equivalent(u.Unit(vals[0][2])) for x in us):
                continue
        elif vals[0][0] == "t":
            shapes = {tuple(x[1].shape for x in v[1]) for v in vals}
            if len(shapes) > 1 or len(set(next(iter(shapes)))) != 1:
                continue
        res.append(i)
    return res


def compare(a, b):
    """First difference between a run and what was read back, or None"""
    for k in ("chain", "lnp"):
        if a[k].shape != b[k].shape:
            return "%s has shape %s instead of %s" % (k, b[k].shape, a[k].shape)
        if not np.array_equal(a[k], b[k], equal_nan=True):
            i = tuple(int(x) for x in np.argwhere(~((a[k] == b[k]) | (np.isnan(a[k]) & np.isnan(b[k]))))[0])
            return "%s%s is %r instead of %r" % (k, list(i), float(b[k][i]), float(a[k][i]))
    for i, (x, y) in enumerate(zip(a["flat"], b["flat"])):
        if not np.array_equal(x, y, equal_nan=True):
            return "flattened %s differs" % ("chain", "log-probability")[i]
    if a["labels"] != b["labels"]:
        return "labels %s instead of %s" % (b["labels"], a["labels"])
    for k, v in a["info"].items():
        if k not in b["info"]:
            return "run information %s is missing" % k
        w = b["info"][k]
        if v.shape != w.shape or not (np.array_equal(v, w) if v.dtype.kind in "fiub" else [str(x) for x in np.ravel(v)] == [str(x) for x in np.ravel(w)]):
            if not (v.dtype.kind == "f" and w.dtype.kind == "f" and v.shape == w.shape and np.array_equal(v, w, equal_nan=True)):
                return "run information %s is %r instead of %r" % (k, w, v)
    if not np.isclose(a["acc"], b["acc"], rtol=1e-12, atol=0):
        return "mean acceptance fraction %r instead of %r" % (b["acc"], a["acc"])
    if [c[0] for c in a["cols"]] != [c[0] for c in b["cols"]]:
        return "data columns %s instead of %s" % ([c[0] for c in b["cols"]], [c[0] for c in a["cols"]])
    for x, y in zip(a["cols"], b["cols"]):
        if x[1] != y[1] or (x[1] == "q" and u.Unit(x[3]) != u.Unit(y[3]) and u.Unit(x[3]).to_string() == x[3]):
            return "data column %s: unit %s instead of %s" % (x[0], y[3:], x[3:])
        if x[1] == "q" and u.Unit(x[3]) != u.Unit(y[3]):
            # a unit with a scale of many digits: its base may be used instead
            if not u.Unit(x[3]).is_equivalent(u.Unit(y[3])):
                return "data column %s: unit %s instead of %s" % (x[0], y[3:], x[3:])
            f = float(u.Unit(x[3]).to(u.Unit(y[3])))
            if not np.allclose(x[2] * f, y[2], rtol=1e-12, atol=0):
                return "data column %s is %s %s instead of %s %s" % (x[0], y[2].tolist(), y[3], x[2].tolist(), x[3])
            continue
        if x[2].dtype.kind != y[2].dtype.kind or x[2].shape != y[2].shape or not np.array_equal(x[2], y[2]):
            return "data column %s is %s instead of %s" % (x[0], y[2].tolist(), x[2].tolist())
    keep = storable_indices(a)
    for name in ("blobs", "flatblobs"):
        A = a[name] if name == "blobs" else [a[name]]
        B = b[name] if name == "blobs" else [b[name]]
        if len(A) != len(B):
            return "metadata of %d steps instead of %d" % (len(B), len(A))
        for s, (p, q) in enumerate(zip(A, B)):
            if len(p) != len(q):
                return "metadata of %d walkers instead of %d" % (len(q), len(p))
            for w, (m, n) in enumerate(zip(p, q)):
                for i in keep:
                    if i >= len(n):
                        return "metadata output %d is missing" % i
                    if not same_blob(m[i], n[i]):
                        return "metadata output %d of step %d, walker %d is %s instead of %s" % (i, s, w, M.short(n[i]), M.short(m[i]))
    return None


def compare_tables(a, b, keep):
    """First difference between statistics of a run and of its copy"""
    skip = {"blob%d" % i for i in range(30)} - {"blob%d" % i for i in keep}
    la = [x for x in a["order"] if x not in skip]
    lb = [x for x in b["order"] if x not in skip]
    if la != lb:
        return "rows %s instead of %s" % (lb, la)
    for k in la:
        x, y = np.array(a["rows"][k]), np.array(b["rows"][k])
        if x.shape != y.shape or not np.allclose(x, y, rtol=1e-11, atol=0, equal_nan=True):
            return "row %s is %s instead of %s" % (k, y.tolist(), x.tolist())
    for k, v in a["meta"].items():
        if k.startswith("blob") and k[4:].split("_")[0] in skip:
            continue
        w = b["meta"].get(k)
        if w is None:
            return "metadata %s is missing" % k
        if v.dtype.kind in "fiub":
            if v.shape != w.shape or not np.allclose(v.astype(float), w.astype(float), rtol=1e-11, atol=0, equal_nan=True):
                return "metadata %s is %r instead of %r" % (k, w, v)
        elif str(v) != str(w) and not (k.endswith("_unit") and str(v) == "Crab"):
            return "metadata %s is %r instead of %r" % (k, w, v)
    for k in b["meta"]:
        if k.endswith("_unit") and k not in a["meta"] and str(b["meta"][k]) != "" and k[:-5] not in skip:
            return "metadata %s=%s appeared" % (k, b["meta"][k])
    return None
