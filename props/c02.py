"""C02: returned spectra are values the caller owns; inputs are never edited"""
from simlib import radsim
from simlib.engine import Violation

ID = "C02"
RUNS = {"quick": 260, "thorough": 6000}
RULE = (
    "seeded histories in which results handed out and argument arrays are edited in place between evaluations; "
    "a case is one evaluation compared with a newly built object in a pristine process, with all earlier results "
    "and all arguments re-read after every operation; distinct counts different consecutive operation pairs"
)
REAL = ["naima radiative models, particle distributions, memoisation", "astropy units/tables", "numpy/scipy"]
STUB = []
ASSUMPTIONS = ["relative tolerance 1e-7 between the history's result and the reference"]


def generate(rng, i, tier):
    kinds = rng.choice([radsim.KINDS, ("SY",), ("IC",), ("IC", "SY"), ("BR", "SY"), ("PP",), ("K06",), ("SY", "IC", "BR")])
    g = radsim.Gen(rng, kinds, weights=dict(mutres=7, mutarg=3, setm=1.5, setd=2, again=6, bulk=0.3, comp=0.5))
    n = rng.randint(8, 20)
    if "K06" in kinds:
        n = rng.randint(5, 9)
    for _ in range(n):
        g.step()
    return {"ops": g.ops}


def execute(plan, ctx):
    obs = radsim.run_history(plan, ctx)
    for o in obs:
        if "moved" in o:
            raise Violation("result-changed-later", "the result of op %d changed during op %d (%s)"
                            % (o["moved"], o["i"], o["by"]))
        if o.get("setW"):
            continue
        if o.get("arg_changed"):
            raise Violation("input-edited", "op %d: %s of %s changed its %s; request %s"
                            % (o["i"], o["req"]["meth"], o["kind"], o["arg_changed"], str(o["req"])[:400]))
        radsim.check_eval(o, ctx, Violation, "result-affected-by-edit")
