"""C03: inverse Compton components"""
import numpy as np

from simlib import radsim
from simlib.engine import Violation

ID = "C03"
RUNS = {"quick": 320, "thorough": 8000}
RULE = (
    "seeded histories of total and per-seed flux/sed requests (by name, index, undefined names) on several inverse "
    "Compton models with changing electrons, grids, distances and seed fields; a case is one evaluation compared with "
    "a newly built model holding only the requested field, in a pristine process; per run the components of one "
    "request are also summed and compared with the total; distinct counts different consecutive operation pairs"
)
REAL = ["naima InverseCompton, particle distributions, memoisation", "astropy units", "numpy/scipy"]
STUB = []
ASSUMPTIONS = ["relative tolerance 1e-7 between the history's result and the reference"]


def generate(rng, i, tier):
    kinds = rng.choice([("IC",), ("IC",), ("IC", "SY")])
    g = radsim.Gen(rng, kinds, weights=dict(comp=0.7, seed=5, setm=2, setd=3, mutres=0.7, ebl=0))
    for _ in range(rng.randint(8, 20)):
        g.step()
    return {"ops": g.ops, "sum": rng.randrange(10**6)}


def execute(plan, ctx):
    obs = radsim.run_history(plan, ctx)
    tot = []
    for o in obs:
        if o.get("setW") or "moved" in o:
            continue
        ref = radsim.check_eval(o, ctx, Violation, "wrong-component")
        if o["kind"] == "IC" and o["req"]["meth"] in ("flux", "sed") and ref[0] == "q" and "seed" not in o["req"]:
            tot.append((o, ref))
    if tot:
        o, _ = tot[plan["sum"] % len(tot)]
        parts = 0.0
        for s in o["ms"]["seeds"]:
            r = dict(radsim._clean(o["req"]), seed=s["name"])
            parts = parts + ctx.reference(radsim.ref_seed, o["d"], o["ms"], r)[1][1]
        bad = radsim.same(("a", np.asarray(o["res"][1]), ""), ("a", np.asarray(parts), ""))
        ctx.count("component_sums")
        if bad:
            raise Violation("components-do-not-add-up", "op %d: %s; request %s, seeds %s"
                            % (o["i"], bad, str(o["req"])[:300], str(o["ms"]["seeds"])[:600]))
