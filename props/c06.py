"""C06: concurrent evaluation in threads gives the sequential results"""
import copy
import warnings

from simlib import radsim, threads
from simlib.engine import Violation

ID = "C06"
RUNS = {"quick": 350, "thorough": 8000}
RULE = (
    "2-4 threads, each with 1-4 evaluations on separate or shared models of the same or different class, some with a "
    "shared particle distribution, over warm or full result caches; a seeded scheduler decides at every executed line "
    "(or bytecode) of the library which thread goes on; a case is one evaluation compared with a newly built object in "
    "a pristine process; distinct counts different sequences of preemption sites (function, line, next thread)"
)
MEASURE = "distinct sequences of preemption sites"
REAL = ["naima radiative models, particle distributions, memoisation", "Python threads", "astropy", "numpy/scipy"]
STUB = ["thread scheduling: one thread runs at a time, preempted by a trace function at library lines/bytecodes only"]
ASSUMPTIONS = ["preemption inside numpy/astropy code is not explored", "relative tolerance 1e-7"]

SITES = ["model", "_digest", "_exact_repr", "_spectrum", "flux", "_calc_specic", "_F", "_nelec", "_J", "_gam",
         "_iso_ic_on_planck", "_diffsigma", "_loadLUT", "__init__", "_calc", "eval", "__call__", "_seed_spectrum",
         "_calc_specpp_hiE", "_photon_integrand", "_sigma_ee", "_F_func", "_Amax", "validate_scalar"]


def generate(rng, i, tier):
    x = rng.random()
    if x < 0.4:
        # the user has asked for warnings to be errors
        plan = generate_any(rng, i, tier)
        plan["warn"] = "error"
        return plan
    return generate_any(rng, i, tier)


def generate_any(rng, i, tier):
    x = rng.random()
    if x < 0.08:
        return generate_lut(rng)
    if x < 0.38:
        return generate_twins(rng)
    kinds = rng.choice([("SY",), ("IC",), ("IC",), ("BR",), ("PP",), ("PP",), ("SY", "IC"), ("IC", "PP"), ("K06",),
                        ("SY", "IC", "BR", "PP")])
    g = radsim.Gen(rng, kinds, nmodels=rng.choice([1, 1, 2, 3]), weights=dict(ebl=0))
    # same-class siblings
    if rng.random() < 0.6 and len(g.m) < 3:
        g.new_model(rng.choice([g.m[m]["k"] for m in g.m]))
    for m in g.m.values():
        # the lookup table is slow to load and K06 slow to evaluate
        if m["k"] == "PP" and rng.random() < 0.7:
            m["p"]["useLUT"] = False
            for op in g.ops:
                if op["op"] == "newm" and op["spec"]["k"] == "PP":
                    op["spec"]["p"]["useLUT"] = False
    setup = list(g.ops)
    for m, s in g.m.items():
        if s["k"] != "K06":
            if rng.random() < 0.3:
                g.ops = setup
                g.do_eval(m)
            if rng.random() < 0.25:
                setup.append({"op": "bulk", "m": m, "n": rng.choice([15, 16, 17, 18]),
                              "ev": radsim.g_energy(rng, s["k"])[:2]})
    nth = rng.choice([2, 2, 2, 3, 4])
    ths = []
    for t in range(nth):
        g.ops = []
        for _ in range(rng.choice([1, 1, 2, 3]) if "K06" not in kinds else 1):
            mid = rng.choice(list(g.m))
            if g.history and rng.random() < 0.5:
                g.repeat(mid)
            if not g.ops or rng.random() < 0.5:
                g.do_eval(mid)
        for op in g.ops:
            e = op["req"].get("E")
            if e and len(e["ev"]) > 20:
                e["ev"] = e["ev"][:3]
        ths.append(g.ops)
    g.ops = []
    for m in g.m:
        if g.history:
            g.repeat(m)
    after = g.ops
    x = rng.random()
    pol = {"seed": rng.randrange(2**31), "first": rng.randrange(nth)}
    if x < 0.45:
        pol.update(kind="random", p=rng.choice([0.003, 0.02, 0.1, 0.4]))
    elif x < 0.75:
        top = rng.choice([60, 200, 700])
        pol.update(kind="points", points=sorted(rng.randint(1, top) for _ in range(rng.choice([1, 2, 4, 8]))))
    else:
        pol.update(kind="site", names=rng.sample(SITES, rng.choice([2, 4, 8])), p=rng.choice([0.2, 0.5, 1.0]))
    if rng.random() < 0.25 and "K06" not in kinds and pol["kind"] != "site":
        pol["opcodes"] = True
        if pol["kind"] == "points":
            pol["points"] = [p * 6 for p in pol["points"]]
    return {"setup": setup, "threads": ths, "after": after, "policy": pol}


def generate_twins(rng):
    """models of one class that differ in everything, evaluated in step"""
    kind = rng.choice(["SY", "IC", "IC", "BR", "PP", "PP", "PP", "K06"])
    fam = "p" if kind in ("PP", "K06") else "e"
    n = rng.choice([2, 2, 2, 3])
    setup, ths, evs = [], [], []
    for i in range(n):
        p = {}
        if fam == "e":
            p.update(nEed=[12, 20, 31][i], Eemin=[[1.3, 90.0, 7.0][i], "GeV"], Eemax=[[410.0, 60.0, 200.0][i], "TeV"])
        if kind == "SY":
            p["B"] = [[3.3, 17.0, 120.0][i], "uG"]
        elif kind == "BR":
            p.update(n0=[[1.0, 12.0, 3.0][i], "1/cm3"], weight_ee=[1.0, 0.7, 1.088][i], weight_ep=[1.4, 1.0, 1.263][i])
        elif kind == "PP":
            p.update(nEpd=[11, 17, 23][i], nh=[[1.0, 40.0, 7.0][i], "1/cm3"], useLUT=False, hiEmodel=["Pythia8", "SIBYLL", "Geant4"][i],
                     nuclear_enhancement=i % 2 == 0, Epmin=[[2.1, 9.0, 1.3][i], "GeV"], Epmax=[[20.0, 0.9, 5.0][i], "PeV"])
        elif kind == "K06":
            p.update(nh=[[1.0, 40.0, 7.0][i], "1/cm3"], Etrans=[[0.03, 0.1, 0.45][i], "TeV"])
        if i == 0 or rng.random() < 0.7:
            setup.append({"op": "newd", "id": i, "spec": radsim.g_dist(rng, fam, simple=True)})
            d = i
        spec = {"k": kind, "p": p, "d": d}
        if kind == "IC":
            spec["seeds"] = radsim.g_seeds(rng)
        setup.append({"op": "newm", "id": i, "spec": spec})
        if not evs or rng.random() < 0.5:
            ev = radsim.g_energy(rng, kind)[:3]
            evs.append(ev)
        ths.append([{"op": "eval", "m": i, "req": {"meth": rng.choice(["flux", "sed"]),
                                                   "E": {"ev": [x * (1 + 0.01 * j) for x in rng.choice(evs)], "unit": "GeV"}}}
                    for j in range(rng.choice([1, 1, 2]) if kind != "K06" else 1)])
    pol = {"seed": rng.randrange(2**31), "first": rng.randrange(n)}
    x = rng.random()
    if x < 0.5:
        pol.update(kind="lockstep", lag=rng.choice([0, 0, 1, 2, 3, 6, 12]), p=rng.choice([1.0, 1.0, 0.9]))
    else:
        pol.update(kind="place", p=rng.choice([0.02, 0.05, 0.2]))
    return {"setup": setup, "threads": ths, "after": [dict(t[0]) for t in ths], "policy": pol}


def generate_lut(rng):
    """one pion decay model with its lookup table, shared by the threads"""
    p = {"nEpd": rng.choice([11, 17]), "nh": [1.0, "1/cm3"], "useLUT": True, "hiEmodel": "Pythia8", "nuclear_enhancement": True}
    setup = [{"op": "newd", "id": 0, "spec": radsim.g_dist(rng, "p", simple=True)},
             {"op": "newm", "id": 0, "spec": {"k": "PP", "p": p, "d": 0}}]

    def ev():
        return {"op": "eval", "m": 0, "req": {"meth": rng.choice(["flux", "sed"]), "E": {"ev": radsim.g_energy(rng, "PP")[:2], "unit": "GeV"}}}

    if rng.random() < 0.5:
        setup.append(ev())
    pol = {"seed": rng.randrange(2**31), "first": 0}
    x = rng.random()
    if x < 0.4:
        pol.update(kind="site", names=["__call__"], p=rng.choice([0.3, 0.6]))
    elif x < 0.6:
        pol.update(kind="site", names=["_loadLUT", "__init__", "_spectrum", "__call__"], p=rng.choice([0.1, 0.5]))
    else:
        pol.update(kind="random", p=rng.choice([0.02, 0.1, 0.4]), opcodes=rng.random() < 0.5)
    return {"setup": setup, "threads": [[ev()], [ev()]], "after": [], "policy": pol}


def one(w, op):
    """One evaluation inside a thread"""
    req = op["req"]
    try:
        res = radsim.pack(radsim.call(w.m[op["m"]], req, radsim.spell_energy(req["E"]) if "E" in req else None))
    except Exception as e:
        res = ("exc", type(e).__name__, str(e)[:300])
    return res


def subject(plan, alone=False):
    warnings.simplefilter(plan.get("warn", "ignore"))
    w = radsim.World()
    for i, op in enumerate(plan["setup"]):
        radsim.do_op(w, i, op)
        radsim.sync_lut(w)
    snaps = {m: w.snapshot(m) for m in w.m}
    before = list(warnings.filters)

    def body(ops):
        return [(op["m"], op["req"], one(w, op)) for op in ops if op["m"] in w.m]

    if alone:
        return [body(ops) for ops in plan["threads"]]
    s = threads.Scheduler(len(plan["threads"]), plan["policy"])
    ok = s.run([lambda ops=ops: body(ops) for ops in plan["threads"]])
    filters = warnings.filters == before or "warning filters %s, before the threads %s" % (warnings.filters[:3], before[:3])
    after = body(plan["after"]) if ok else []
    return {"ok": ok, "res": s.results, "after": after, "switches": s.switches, "sites": s.sites, "events": s.events,
            "snaps": snaps, "stalled": s.stalled, "alive": sorted(s.alive), "obs": w.obs,
            "filters": filters}


def execute(plan, ctx):
    plan = copy.deepcopy(plan)
    r = ctx.fork(subject, plan, timeout=120)
    ctx.count("events", r["events"])
    ctx.count("preemptions", len(r["switches"]))
    ctx.count("waits_on_locks", r["stalled"])
    ctx.state([list(s) + [t[1]] for s, t in zip(r["sites"], r["switches"])])
    ctx.log(r["sites"], r["switches"], r["events"])
    upd = {"plan_update": {"policy": {"kind": "explicit", "switches": r["switches"], "first": plan["policy"]["first"],
                                      "opcodes": plan["policy"].get("opcodes", False),
                                      "seed": plan["policy"].get("seed", 0)}}}
    if not r["ok"]:
        raise Violation("threads-stuck", "threads %s did not finish" % r["alive"], **upd)
    if r["filters"] is not True:
        raise Violation("warnings-changed", "%s\npreempted at %s" % (r["filters"], r["sites"][:12]), **upd)
    groups = [("thread %d" % t, x) for t, x in enumerate(r["res"])] + [("afterwards", r["after"])]
    seq = None
    for name, lst in groups:
        for k, (m, req, res) in enumerate(lst or []):
            d, ms = r["snaps"][m]
            ctx.log(radsim._logobs({"i": k, "res": res}))
            if plan.get("warn") == "error" and res[0] == "exc" and res[1].endswith("Warning"):
                # warnings are errors here: does it also warn alone?
                if "reverting to useLUT" in res[2]:
                    continue
                if seq is None:
                    seq = ctx.fork(subject, plan, True, timeout=120)
                if name != "afterwards" and seq[int(name.split()[1])][k][2][:2] == res[:2]:
                    ctx.count("warned_alone_too")
                    continue
            try:
                radsim.check_eval({"i": k, "res": res, "req": req, "d": d, "ms": ms, "kind": ms["k"]}, ctx, Violation,
                                  "thread-result-differs")
            except Violation as v:
                v.detail = "%s: %s\nresult %s\npreempted at %s" % (name, v.detail, str(res)[:300], r["sites"][:12])
                v.extra.update(upd)
                raise


def shrink(plan):
    p = plan["policy"]
    if p["kind"] == "explicit":
        sw = p["switches"]
        n = len(sw)
        size = max(1, n // 2)
        while size >= 1 and n:
            for s in range(0, n, size):
                yield dict(plan, policy=dict(p, switches=sw[:s] + sw[s + size:]))
            size //= 2
    for t in range(len(plan["threads"])):
        ops = plan["threads"][t]
        for k in range(len(ops)):
            if len(ops) > 1:
                yield dict(plan, threads=[o if j != t else ops[:k] + ops[k + 1:] for j, o in enumerate(plan["threads"])])
    for k in range(len(plan["after"])):
        yield dict(plan, after=plan["after"][:k] + plan["after"][k + 1:])
    for k in range(len(plan["setup"])):
        if plan["setup"][k]["op"] not in ("newd", "newm"):
            yield dict(plan, setup=plan["setup"][:k] + plan["setup"][k + 1:])
