"""Command line: python -m simlib.main ID [--tier T] [--replay FILE] ..."""
import argparse
import ctypes
import importlib
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

from . import boot


def _no_aslr():
    """Same addresses in every execution, where the system allows it"""
    if os.environ.get("SIM_SHIM"):
        return
    try:
        libc = ctypes.CDLL(None)
        cur = libc.personality(0xFFFFFFFF)
        if cur != -1:
            libc.personality(cur | 0x0040000)
    except Exception:
        pass


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("--tier", default=None, choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int, default=None)
    ap.add_argument("--runs", type=int)
    ap.add_argument("--first", type=int, default=0)
    ap.add_argument("--budget", type=float)
    ap.add_argument("--workers", type=int, default=int(os.environ.get("SIM_WORKERS", "8")))
    ap.add_argument("--replay")
    ap.add_argument("--one", type=int, help="execute one run and print its outcome")
    ap.add_argument("--plan", type=int, help="print the plan of a run")
    ap.add_argument("--digests", action="store_true", help="print run digests")
    ap.add_argument("--keep-going", action="store_true")
    ap.add_argument("--no-evidence", action="store_true")
    a = ap.parse_args()
    tier = a.tier or os.environ.get("VERIF_TIER") or "quick"
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = a.seed if a.seed is not None else int(os.environ.get("VERIF_SEED", "1") or 1)

    _no_aslr()
    boot.reexec_with_shim()
    t0 = time.monotonic()
    os.chdir(boot.VERIF)
    from . import engine

    if os.environ.get("SIM_LINES"):
        from . import lines

        engine.LINES = lines.trace
    engine.SCRATCH_ROOT = tempfile.mkdtemp(prefix="naimasim-", dir="/tmp")
    code = 2
    try:
        code = run(a, tier, seed, t0, engine)
    finally:
        shutil.rmtree(engine.SCRATCH_ROOT, ignore_errors=True)
    sys.stdout.flush()
    sys.exit(code)


def run(a, tier, seed, t0, engine):
    modname = "props." + a.id.lower()
    spec = importlib.util.find_spec(modname)
    if spec is None:
        print("no such property module: " + modname)
        return 2
    # matplotlib and friends must not write caches into the real home
    os.environ["MPLCONFIGDIR"] = os.path.join(engine.SCRATCH_ROOT, "mpl")
    try:
        boot.import_naima(sherpa=a.id.upper() in ("C20", "C22"))
    except Exception:
        import traceback

        traceback.print_exc()
        print("cannot import naima from " + boot.SRC)
        return 2
    mod = importlib.import_module(modname)
    if hasattr(mod, "prepare"):
        mod.prepare()
    import gc

    gc.collect()
    gc.freeze()

    if a.plan is not None:
        print(json.dumps(engine.make_plan(mod, seed, a.plan, tier), indent=1))
        return 0
    if a.one is not None:
        plan = engine.make_plan(mod, seed, a.one, tier)
        out = engine.run_plan(mod, plan)
        out["distinct"] = len(out["distinct"])
        print(json.dumps(out, indent=1, default=str))
        if out["violation"]:
            print(out["violation"]["kind"], out["violation"]["detail"])
        if out["harness"]:
            print(out["harness"])
        return 1 if out["violation"] else 2 if out["harness"] else 0
    if a.replay:
        rep = json.load(open(a.replay))
        out = engine.run_plan(mod, rep["plan"])
        if out["harness"]:
            print(out["harness"])
            return 2
        v = out["violation"]
        if v:
            print("%s: %s" % (v["kind"], v["detail"]))
            print("digest %s (recorded %s)" % (out["digest"], rep.get("digest")))
            print("VIOLATION property=%s replay=%s" % (mod.ID, a.replay))
            return 1
        print("replay shows no violation")
        return 0

    nruns = a.runs or mod.RUNS[tier]
    budget = a.budget or (150.0 if tier == "quick" else 700.0)
    agg = engine.search(mod, seed, tier, nruns, budget, a.workers, a.first)
    wall_search = agg["wall"]
    if a.digests:
        for i in sorted(agg["digests"]):
            print(i, agg["digests"][i])

    # the same seed must give the same execution
    determinism = None
    if not agg["violations"] and not agg["harness"] and not a.runs:
        again = engine.search(mod, seed, tier, min(3, nruns), 60.0, min(3, a.workers))
        same = sum(
            again["digests"][i] == agg["digests"].get(i) for i in again["digests"]
        )
        determinism = {"runs_repeated": len(again["digests"]), "identical": same}

    code = 0
    new = []
    known = []
    for i, v in agg["violations"]:
        k = engine.match_known(mod.ID, v, None)
        if k:
            v["known"] = k
            known.append(k)
        else:
            new.append((i, v))
    for k in sorted(set(known)):
        print("KNOWN-FINDING: property=%s %s" % (mod.ID, k))
    unrepro = []
    replay_path = None
    for i, v in new[:3]:
        plan = engine.make_plan(mod, seed, i, tier)
        r1 = None
        for _ in range(2):
            res = engine.forked(engine.run_plan, (mod, plan), 300.0, quiet=False)
            if res[0] == "ok" and res[1]["violation"]:
                r1 = res[1]
                break
        if r1 is None:
            unrepro.append((i, v))
            continue
        small, sv, steps = engine.minimise(mod, plan, r1["violation"])
        rdir = os.path.join(boot.VERIF, "replays")
        os.makedirs(rdir, exist_ok=True)
        replay_path = os.path.join(
            rdir, "%s-%s-%d.json" % (mod.ID, seed, i)
        )

        def write(p, vv):
            out = engine.forked(engine.run_plan, (mod, p), 300.0, quiet=False)
            dg = out[1]["digest"] if out[0] == "ok" else None
            with open(replay_path, "w") as f:
                json.dump(
                    {"property": mod.ID, "seed": seed, "run": i, "tier": tier,
                     "violation": vv, "digest": dg, "minimise_steps": steps,
                     "plan": p},
                    f, indent=1, default=str,
                )

        def fresh():
            env = dict(os.environ)
            env.pop("SIM_SHIM", None)
            env.pop("LD_PRELOAD", None)
            p = subprocess.run(
                [os.path.join(boot.VERIF, "check"), mod.ID, "--replay", replay_path],
                env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                timeout=400,
            )
            return p.returncode == 1

        write(small, sv)
        if not fresh():
            write(plan, r1["violation"])
            sv, small = r1["violation"], plan
            if not fresh():
                print("note: the replay file alone did not reproduce the failure;"
                      " it reproduces from its seed (--one %d)" % i)
        print("%s in run %d: %s" % (sv["kind"], i, sv["detail"][:3000]))
        print("VIOLATION property=%s replay=%s" % (mod.ID, replay_path))
        code = 1
        break
    if code == 0 and unrepro:
        print("unreproducible observation(s), not reported as violations:")
        for i, v in unrepro:
            print("  run %d: %s %s" % (i, v["kind"], v["detail"][:800]))
        code = 2
    if agg["harness"] and code == 0:
        code = 2
    for h in agg["harness"][:3]:
        print("HARNESS: " + h)

    wall = time.monotonic() - t0
    if agg["runs"] and not a.no_evidence:
        write_evidence(mod, tier, seed, agg, wall, wall_search, determinism, code,
                       known, engine, nruns)
    print("%s %s: %d runs, %d cases, %d distinct, %.1f s, %s"
          % (mod.ID, tier, agg["runs"], agg["evals"], len(agg["distinct"]), wall,
             "ok" if code == 0 else "exit %d" % code))
    return code


def write_evidence(mod, tier, seed, agg, wall, ws, determinism, code, known, engine, nruns):
    faults = {k[6:]: v for k, v in agg["stats"].items() if k.startswith("fault_")}
    other = {k: v for k, v in agg["stats"].items() if not k.startswith("fault_")}
    samples = []
    for i in sorted(agg["digests"])[:2]:
        p = engine.make_plan(mod, seed, i, tier)
        s = json.dumps(p)
        samples.append(p if len(s) < 6000 else {"run": i, "plan_head": s[:6000]})
    cov = {
        "evaluations": agg["evals"],
        "distinct_nontrivial": len(agg["distinct"]),
        "rule": mod.RULE,
        "samples": samples,
        "simulated_runs": agg["runs"],
        "runs_planned": nruns,
        "stopped_by": agg["stopped_by"],
        "runs_per_hour": round(agg["runs"] / max(ws, 1e-6) * 3600),
        "seeds_per_hour": round(agg["runs"] / max(ws, 1e-6) * 3600),
        "first_run_seed": engine.run_seed(seed, mod.ID, 0),
        "simulated_time": getattr(
            mod, "SIMTIME", "no clock or timer takes part; progress is counted in operations"
        ),
        "faults_injected": faults,
        "counters": other,
        "distinct_measure": getattr(mod, "MEASURE", mod.RULE),
        "components_real": mod.REAL,
        "components_stub": mod.STUB,
        "determinism": determinism,
        "slowest_run_s": round(agg["slowest"], 2),
        "known_findings_seen": sorted(set(known)),
    }
    ev = {
        "property": mod.ID,
        "tier": tier,
        "seed": seed,
        "level": getattr(mod, "LEVEL", "exploration"),
        "coverage": cov,
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(wall, 2),
        "violations": 1 if code == 1 else 0,
    }
    d = os.path.join(boot.VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    tmp = os.path.join(d, ".%s.tmp" % mod.ID)
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1, default=str)
    os.replace(tmp, os.path.join(d, mod.ID + ".json"))


if __name__ == "__main__":
    main()
