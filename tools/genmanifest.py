"""Write MANIFEST.json from the property modules that exist"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
 "C01": "deterministic simulation: seeded call/mutation histories on live objects, refinement against a newly built object in a pristine process",
 "C02": "deterministic simulation: seeded histories with in-place edits of results and arguments as injected faults, refinement against pristine objects",
 "C03": "deterministic simulation: seeded histories of component requests, refinement against single-field models and a conservation (sum) check",
 "C04": "deterministic simulation with fault injection at distribution calls and executed lines; reference-model check of amplitude and energy content",
 "C05": "deterministic simulation with fault injection: distribution calls, interrupts at executed lines, data-file system calls",
 "C06": "deterministic simulation: seeded thread scheduler preempting at library lines/bytecodes, results compared with sequential ones",
 "C07": "deterministic simulation of sampling runs in a simulated worker pool; recorded history checked against an independent likelihood reference",
 "C08": "deterministic simulation: the same run under many simulated pool schedules (chunking, assignment, order) must give one history",
 "C09": "deterministic simulation: split/continued runs under simulated pools compared with one uninterrupted run",
 "C10": "deterministic simulation with fault injection at evaluations, workers, console output and executed lines; chain-prefix and resume checks",
 "C11": "deterministic simulation with fault injection; live-pool invariant of the simulated pool after every call",
 "C12": "deterministic simulation: seeded call histories over shared argument objects with frozen-copy invariants and repeat-equality",
 "C13": "deterministic simulation: seeded save/read/save histories on a simulated disk, refinement against the run in memory",
 "C14": "deterministic simulation with fault injection at every file operation (errors, short/torn writes, full disk, kill) and read-back in a fresh process",
 "C15": "deterministic simulation with file faults; table compared with statistics recomputed from the recorded history",
 "C16": "deterministic simulation with fault injection at output files, single plots and executed lines; session-state invariants",
 "C17": "deterministic simulation: seeded plot histories, drawn artists compared with a reference drawn in a pristine process and with the run",
 "C18": "deterministic simulation: pool schedules and worker failures for curve recomputation and table generation, compared with serial evaluation",
 "C19": "deterministic simulation of the event loop: seeded widget event sequences with failing models/fits; display/parameter invariants after every event",
 "C20": "deterministic simulation: seeded call histories over several wrappers, refinement against a newly built wrapper in a pristine process",
 "C22": "deterministic simulation with fault injection: session-state invariants around every outermost call of all simulated sessions, threads included",
 "C21": "deterministic simulation with fault injection at evaluations of the search; bounded-progress and never-worse checks against a reference likelihood",
}
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(V, "props", i.lower() + ".py")):
        src = open(os.path.join(V, "props", i.lower() + ".py")).read()
        level = "fault_enumeration" if 'LEVEL = "fault_enumeration"' in src else "exploration"
        checks.append({
            "property": i, "quick_cmd": "./check %s --tier quick" % i, "thorough_cmd": "./check %s --tier thorough" % i,
            "technique": TECH[i], "level": level,
            "level_note": "seeded search over simulated executions of the real code; no exhaustive claim",
        })
    else:
        na.append({"property": i, "reason": "check not built yet"})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), len(na))
