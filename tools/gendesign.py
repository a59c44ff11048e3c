import ast,json,glob,re
P=[json.loads(l) for l in open('/verif/properties.jsonl')]
M={
'C01':("Generator interleaves evaluations (flux, sed, We/Wp, compute_*), settings by attribute or by the parameter object, replaced/shared/copied/pickled distributions and models, cache filling past its limit, energy grids in eight spellings (unit, shape, container, order, adjacent-float nudges), distances in all spellings. Oracle: newly-built reference.",
 "Tests evaluate each model once or twice on one grid; cache-key collisions, stale lookup tables and stale class state need a particular pair of settings in a particular order."),
'C02':("As C01, but the histories edit results and arguments in place (also after the fact), and every earlier result and every argument object is re-read after every operation.",
 "Aliasing shows only when a caller edits an array between two calls that share the cache entry."),
'C03':("As C01 for inverse Compton models with 1-5 seed fields of all forms (named, grey/isotropic/anisotropic, monochromatic, tabulated); requests by name, number, undefined name. Oracle: model with only that field; components are summed and compared with the total.",
 "The per-seed spectra live beside the memoised total, so only request order and history decide whether they are stale."),
'C04':("Normalisation requests (all units, ranges inside, across and beyond the grid, named amplitudes, shared amplitudes), with failures of the distribution at its n-th call, interrupts at the n-th line and invalid values. Oracle: recomputation, amplitude computed from an independent reference, and unchanged amplitude/outputs after a failure.",
 "All-or-nothing needs a failure placed inside the request; the tests never fail one."),
'C05':("One planned fault per evaluation: distribution raises at n-th call; interrupt at n-th line; open/read of data files fails or is cut short at n-th operation. Following evaluations of this and other objects are compared with newly built ones; the failing one must raise (or fall back with a warning for the pion table).",
 "Fault positions are enumerated by seed over the whole evaluation; the tests have no failing evaluation."),
'C06':("2-4 threads on separate/shared models; seeded switches at lines or byte codes: random, priority-based, and a few chosen points. Oracle: newly-built reference per thread, no additional exception, and correct objects afterwards.",
 "The tests are single threaded."),
'C07':("Complete sampling runs with raw tables generated in all documented forms; each recorded (step, walker) is recomputed from the raw scenario, blobs are compared in value and unit, forbidden moves are looked for.",
 "The tests check that a run finishes, not that each row belongs to its position."),
'C08':("One session serial and under 2-3 simulated pools; rows compared. Worker processes are forked for real, so per-process caches and history differ between schedules.",
 "Chunking, assignment and earlier tasks of a worker are outside any test's control."),
'C09':("Twin execution of an uninterrupted run and a seeded split of it.","The number and position of splits, and the form the position is passed back in, are free."),
'C10':("One failure per session (model, prior, waiting parent, console, n-th executed line of core.py), then resumption; recorded prefix against the undisturbed twin.",
 "Failure at any moment; enumerated by seed over all evaluation, write and line numbers."),
'C11':("Pool stand-in counts open pools after every call, with failures at every kind of place, for all worker counts.","A leak needs a failure at a particular place."),
'C12':("Sequences of calls sharing argument objects; deep comparison before/after; each call compared with the same call made first in a pristine process and with its repetition.","Aliasing of defaults and of caller's containers shows in the second call only."),
'C13':("Histories of save/read/save-again/continue/table over a dictionary model of paths.","Round trips of every kind of output at every position, of copies of copies, and after continuing."),
'C14':("Every save meets one fault at the n-th file operation or executed line (n over the measured length of the whole save). Then the path is read in this and in a new process.","Crash points: the tests never interrupt a save."),
'C15':("All table options over new/existing files, from run or copy, with file faults; statistics recomputed in plain Python.","Label/unit/option combinations and failing writes."),
'C16':("A fault at the n-th drawing/saving primitive, line, log message or file operation; files decoded and counted; session state compared.","Tests run the diagnostic plots once, successfully."),
'C17':("Histories of plotting calls sharing option objects; each figure against a pristine-process twin and against an independent reconstruction.","Tests only check that plotting does not raise."),
'C18':("Curves and lookup tables under two schedules and with failing workers.","Completion order and failing workers."),
'C19':("Event sequences delivered to the real widgets by a scripted loop; after every event curve, text, parameters and flags recomputed.","Tests click each button once."),
'C20':("Histories over wrapper instances; reference is the naima model built directly and integrated by an independent rule; returned arrays re-read at the end.","Caching of the host framework is keyed on argument bytes; needs particular pairs of requests."),
'C21':("get_sampler with prefit over generated problems including hostile ones; evaluations counted; start compared by independent likelihood/prior.","The tests prefit one well-behaved problem."),
'C22':("The sessions of all other properties with their faults; about 300 settings of the process compared around every outermost call, the user's settings drawn at random; also around groups of overlapping threads.","The tests look at return values only and run with default settings."),
}
out=["## 3. Properties\n","Cost: quick commands take 15-35 s each on 8 cores (about 8 min for all); thorough ones are limited to 700 s each.\n"]
for p in P:
    i=p['id']; c={}
    for n in ast.parse(open('/verif/props/%s.py'%i.lower()).read()).body:
        if isinstance(n,ast.Assign) and getattr(n.targets[0],'id','') in("RULE","REAL","STUB","ASSUMPTIONS","RUNS","LEVEL"):
            c[n.targets[0].id]=ast.literal_eval(n.value)
    o,w=M[i]
    out.append("### %s %s\n"%(i,p['title']))
    out.append("*Decided by* seeded simulation%s. %s\n"%(" with enumeration of fault positions" if c.get('LEVEL')=='fault_enumeration' else "",o))
    out.append("*Explored*: %s.\n"%c['RULE'])
    out.append("*Why beyond tests*: %s\n"%w)
    out.append("*Bounds*: quick %d runs, thorough %d runs. *Real*: %s. *Stub*: %s. *Assumptions*: %s.\n"%(c['RUNS']['quick'],c['RUNS']['thorough'],'; '.join(c['REAL']),'; '.join(c['STUB']) or 'none','; '.join(c.get('ASSUMPTIONS',[])) or 'none'))

out.append(open('/verif/tools/design/tail.md').read())
out.append("## 6. Planted bugs\n\nIn `seeded/`; `tools/seedcheck.sh ID` confirms one (demonstration clean/patched, stable tests, check).\n\n| bug | property | what breaks | needs | found by |\n|---|---|---|---|---|")
N=json.load(open('/verif/tools/design/seeded_notes.json'))
for f in sorted(glob.glob('/verif/seeded/*/meta.json')):
    m=json.load(open(f)); i=f.split('/')[-2]
    out.append("| %s | %s | %s | %s | %s |"%(i,m['property'],m['what_it_breaks'].replace('|','/'),m['needs'].replace('|','/'),N.get(i,'its own check')))
out.append('')
open('/verif/DESIGN.md','w').write('\n'.join(out))
