"""C01: model output depends only on current settings"""
from simlib import radsim
from simlib.engine import Violation

ID = "C01"
RUNS = {"quick": 260, "thorough": 6000}
RULE = (
    "seeded histories of 12-40 operations over 1-5 live models (synchrotron, inverse Compton, "
    "bremsstrahlung, pion decay with and without lookup table, Kelner06) sharing particle distributions; "
    "a case is one evaluation compared with a newly built object in a pristine process; distinct counts "
    "different consecutive pairs of operation types (operation, attribute, spelling, model kind)"
)
REAL = ["naima radiative models, particle distributions, memoisation", "astropy units/tables", "numpy/scipy",
        "packaged data files"]
STUB = []
ASSUMPTIONS = ["relative tolerance 1e-7 between the history's result and the reference"]


def generate(rng, i, tier):
    kinds = rng.choice([
        radsim.KINDS, ("SY",), ("IC",), ("IC", "SY"), ("BR", "SY"), ("PP",), ("PP", "SY"), ("PP", "K06"),
        ("K06",), ("SY", "IC", "BR"),
    ])
    g = radsim.Gen(rng, kinds)
    n = rng.randint(8, 22)
    if "K06" in kinds:
        n = rng.randint(5, 10)
    for _ in range(n):
        g.step()
    return {"ops": g.ops}


def execute(plan, ctx):
    obs = radsim.run_history(plan, ctx)
    for o in obs:
        if o.get("setW") or "moved" in o:
            continue
        radsim.check_eval(o, ctx, Violation, "stale-or-wrong-result")
