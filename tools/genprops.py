import json
R="src/naima/radiative.py"; M="src/naima/models.py"; MU="src/naima/model_utils.py"; C="src/naima/core.py"; A="src/naima/analysis.py"; P="src/naima/plot.py"; F="src/naima/model_fitter.py"; S="src/naima/sherpa_models.py"; U="src/naima/utils.py"
props=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None,hook=None):
    props.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
        anchors=dict(files=files,state=[dict(zip(("name","meaning","where"),s)) for s in (state or [])],mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=hook)))

p("C01","Model output depends only on current settings, never on earlier calls",
 "Whatever sequence of evaluations, parameter changes, particle-distribution changes or replacements, copies and pickles a radiative model object and its siblings have been through, evaluating flux, sed or the particle energy content returns the same values and unit as a newly built object with the same current settings. This holds for every spelling of the same request (energy grids in any unit, shape or container; distance by default, by position, by keyword, zero, or in any length unit).",
 ["histories","inputs"],"all interleaved call/mutation sequences on several live model objects that may share a particle distribution, within one process",
 "Tests evaluate each object once or twice with one grid; stale or colliding cached results need a specific earlier call, a specific parameter change, and often eviction of older entries.",
 [MU,R,M],[("result memoisation keyed on settings",MU+": memoize"),("class/instance caches and queues",R+": BaseElectron, BaseProton, PionDecayKelner06"),("lookup-table reload when settings change",R+": PionDecay._spectrum")],
 ["return values of flux(), sed(), We/Wp, compute_We/compute_Wp"],[("memo cache","previously computed spectra",MU)])
p("C02","Returned spectra are values the caller owns; evaluation never edits inputs",
 "An array returned by a model evaluation never changes afterwards, and whatever the caller does to it in place (or later does to the energy array it passed in) never changes what any later evaluation returns. Evaluating a model leaves the caller's energy grids, tables, distances, seed-field lists and particle distribution unchanged.",
 ["histories","inputs"],"all sequences of evaluations interleaved with in-place edits of returned results and of argument arrays",
 "Tests never modify a result and evaluate again; the corruption appears only on a later call that shares storage with an earlier one.",
 [MU,R,M],[("hand-out of cached arrays",MU+": memoize"),("in-place arithmetic on spectra",R+": BaseRadiative.flux")],["returned Quantity objects before/after later operations","argument objects before/after"])
p("C03","Inverse Compton seed components are current, correct and sum to the total",
 "After any history, asking an inverse Compton model for one seed photon field by name or index returns exactly what a model with only that field and the same current settings would emit at those energies and that distance, and the components add up to the total. Asking for a field that is not defined raises ValueError and disturbs nothing.",
 ["histories","inputs"],"all sequences of total/component flux and sed requests over different grids and distances, interleaved with changes to electrons, energies and seed fields",
 "Tests ask for components right after computing the total on the same grid; component state left by an earlier, different request is only visible in other orders.",
 [R,MU],[("per-seed spectra kept beside the memoised total",R+": InverseCompton._spectrum, flux, sed")],["InverseCompton.flux(..., seed=), sed(..., seed=)"])
p("C04","Normalising the particle energy content is exact and all-or-nothing",
 "After a successful request to set the total particle energy (over the full or a given energy range, with the default or a named amplitude), recomputing the energy content over that range gives the requested value and all later fluxes are those of the rescaled distribution, whatever came before. A request that fails (bad value, an error or interrupt raised by the particle distribution) leaves the distribution's amplitude and all later outputs unchanged.",
 ["histories","fault_sequences"],"sequences of set/compute/evaluate calls with failures injected at any call to the particle distribution",
 "Tests call it once on a fresh object with no failures and no cached spectra.",
 [R,M],[("rescaling of amplitude by ratio of energies",R+": set_We, set_Wp, compute_We, compute_Wp")],["We/Wp, compute_We/compute_Wp, flux after set_We/set_Wp","distribution amplitude"])
p("C05","A failed or interrupted evaluation leaves the model correct",
 "If an evaluation fails part-way (the particle distribution raises, the user interrupts it at any point, a packaged data file cannot be read or is cut short), the failure is either reported as an exception or, for the pion-decay lookup table, replaced by the direct calculation with a warning; it is never turned into a wrong result. After the failure every later evaluation of that object and of any other object equals that of a newly built one with the same settings.",
 ["fault_sequences","crash_points","histories"],"a fault at any callback number, any executed line of the library, or any data-file open/read, anywhere in an evaluation history",
 "Tests inject no failures; a half-updated cache or attribute shows only on the evaluation after the failure.",
 [R,MU,M],[("lookup-table loading with fallback",R+": PionDecay._loadLUT, LookupTable"),("absorption table loading",M+": EblAbsorptionModel"),("cache update order",MU+": memoize")],["exceptions/warnings of the failing call","results of the following calls"])
p("C06","Concurrent evaluation in threads gives the sequential results",
 "When several threads of one process evaluate radiative models at the same time, on separate objects (also of the same class, also sharing a particle distribution) or on one shared object whose settings nobody changes, every thread gets exactly the result it would get running alone, and no thread gets an error it would not get alone. Afterwards all objects still evaluate correctly.",
 ["schedules"],"all interleavings of the library's statements over 2-4 threads, each doing a short list of evaluations",
 "Tests are single-threaded; scratch state kept on classes or instances during an evaluation is only exposed by a preemption between particular statements.",
 [R,MU,M],[("class-level coefficient tables filled per call",R+": PionDecay._F"),("check-then-use of the cache and eviction",MU+": memoize"),("intermediate results on the instance",R+": specic, specpp, nhat, diffsigma")],["per-thread return values and exceptions"])
p("C07","Recorded probabilities and metadata belong to the recorded positions",
 "For every recorded step and walker of a sampling run, the recorded log-probability equals the prior at that position plus the likelihood of the supplied data given the model there (asymmetric errors, upper limits at their confidence level, SED versus differential conversion included), and the recorded metadata are exactly the model function's outputs at that position, units included. A walker never moves to a position the prior forbids.",
 ["histories","inputs","schedules"],"all runs: any data tables, model output form, prior, walker count, worker count and schedule, for every (step, walker) of the history",
 "Tests check shapes or that a run finishes; association of position, probability and metadata must hold for every entry of every chain.",
 [C,U],[("probability and metadata assembly",C+": lnprob, lnprobmodel"),("metadata kept as objects so units survive",C+": get_sampler blobs_dtype")],["sampler.get_chain(), get_log_prob(), get_blobs()"])
p("C08","Sampling results do not depend on worker count or scheduling",
 "With the same inputs and random state, a sampling run produces the same chain, log-probabilities and metadata whether it runs serially or on any number of worker processes, however tasks are split, ordered and assigned to workers and whatever those workers evaluated before. The default worker count changes speed only.",
 ["schedules","configurations"],"all worker counts, chunkings, assignment and completion orders of the evaluation pool",
 "Tests compare nothing across thread counts; the operating system picks one schedule per run.",
 [C,R,MU],[("pool passed to the ensemble sampler",C+": get_sampler"),("per-process model caches",MU+": memoize")],["sampler.get_chain(), get_log_prob(), get_blobs(), run_info"])
p("C09","Continuing a run is the same as never having stopped",
 "Splitting a run into burn-in plus any number of continuation calls, passing back the sampler and the returned position (as state or as plain coordinates), visits exactly the positions of one uninterrupted run with the same random state, for serial and parallel runs alike. After each call the sampler holds exactly the steps of that call, never burn-in or older steps, the returned position is the last recorded step, and the run information states the sizes actually used.",
 ["histories","configurations","schedules"],"all ways to split a run into burn-in and continuation calls, all worker counts",
 "Tests do at most one run per sampler; the second call after the worker pool was released is never exercised.",
 [C],[("reset between runs and pool release",C+": run_sampler"),("burn-in",C+": get_sampler, _run_mcmc")],["chain/log-prob/blobs after each call","returned position","sampler.run_info"])
p("C10","An interrupted sampling run loses nothing it recorded and can be resumed",
 "If the model, the prior, the user's interrupt, or the console output fails at any moment of a run, the call ends with that same exception, the steps completed before it are still recorded and identical to those of an undisturbed run, and no partial step is recorded. Calling again with the same sampler from its last position then works, serially or with workers.",
 ["fault_sequences","crash_points","schedules"],"a failure at any evaluation, in any worker, or at any progress print, at any point of burn-in or run",
 "Tests inject no failures during sampling.",
 [C],[("step loop and progress output",C+": _run_mcmc"),("pool release",C+": run_sampler")],["exception type","recorded chain prefix","result of the following run_sampler call"])
p("C11","Worker processes never outlive the call that needed them",
 "When a run, a plot, or a lookup-table generation returns, or ends in an exception at any point, no worker pool it created is left open, whatever the worker count. While a sampler is still to be run its workers exist once, not once per call, and a single-threaded run creates none.",
 ["fault_sequences","schedules","configurations"],"all worker counts, success and failure at any evaluation, in sampler creation, burn-in, run and curve computation",
 "Tests do not look at processes and inject no failures; leaked pools only show up as leftover processes in long sessions.",
 [C,P,R],[("pool creation and release",C+": get_sampler, run_sampler"),("pool context managers",P+": _read_or_calc_samples; "+R+": generate_lut_pp")],["live pools/processes after each call"])
p("C12","Calls never modify what the caller passed in, and repeat identically",
 "Fitting, prefitting, plotting, saving and interactive fitting leave every object the caller passed (initial positions, label lists, data tables, confidence-level lists, option dictionaries, samplers) with the contents it had before. Repeating a call with the same arguments and random state therefore gives the same result.",
 ["histories","inputs"],"all call sequences over shared argument objects, including p0/labels as list, tuple or array and single or multiple tables",
 "Tests build fresh arguments for each call, so an argument changed by the first call is never reused.",
 [C,P,A,F],[("normalisation guess applied to p0",C+": get_sampler"),("label completion",C+": get_sampler; "+F),("default and option containers",P+": plot_CI, plot_fit, plot_data; "+A+": save_diagnostic_plots")],["argument objects before/after each call","results of the repeated call"])
p("C13","A saved run reads back as the same run",
 "Saving any run and reading it back gives the same chain, log-probabilities, labels, run information, mean acceptance fraction, data table (values, units, flags and confidence levels) and all storable metadata with values and units at their original positions. The result can be read, saved again and read again without further change, and derived results (tables, maximum-likelihood parameters) are the same from the original and from the copy.",
 ["inputs","histories"],"all run shapes (steps, walkers, parameters), metadata forms and orders, unit choices, label texts, compression settings, and save/read/save chains",
 "Tests save one run with one fixed metadata layout.",
 [A],[("HDF5 layout of chain, blobs, units, attributes, table",A+": save_run, read_run")],["fields and methods of the object returned by read_run"])
p("C14","A save that fails or is killed never costs or fakes a run",
 "A save that returns normally has written a file that reads back as that run. If saving fails or the process is killed at any point of the save (full disk, I/O errors, short writes, interrupt, crash), reading the path afterwards gives the complete new run, the complete run that was there before, or an error if there was none; an ordinary failure is raised to the caller, and a save without permission to overwrite never touches an existing file.",
 ["crash_points","fault_sequences"],"every file operation of a save as failure or crash point, over any previously existing file",
 "Tests save to a healthy disk and never stop half-way.",
 [A],[("file creation/truncation and write order",A+": save_run")],["exceptions of save_run","read_run on the path in a fresh process"])
p("C15","The results table states the statistics of the recorded run",
 "For every parameter, converted logarithm and scalar metadata output, the saved table's median and uncertainties are those of the recorded samples selected (whole chain or last step of all walkers), in order and with the right labels and units, and its metadata carry the maximum-likelihood position, log-likelihood and run information of that run; the file on disk says the same as the returned table. An existing table is replaced only when overwriting was asked for, and a write failure is raised.",
 ["histories","inputs","fault_sequences"],"all chains, labels, metadata layouts and options, with file errors at any write",
 "Tests only check that a file appears; the statistics are never compared with the chain.",
 [A,P],[("percentile computation and table assembly",A+": save_results_table"),("maximum-likelihood search",P+": find_ML")],["returned table and file contents"])
p("C16","Diagnostic plotting survives failures and leaves the session as it was",
 "When any file of a diagnostic-plot call cannot be written or any single plot fails, every other plot is still written complete; in all cases, success, error or interrupt, plotting settings of the session are as before, no figure or output file opened by the call stays open, and figures of the caller are untouched.",
 ["fault_sequences","crash_points"],"a failure at any output file, any single plot or any point of the call, png and pdf output",
 "Tests run it once on a healthy disk and do not look at global state afterwards.",
 [A,P],[("per-plot error handling and settings restore",A+": save_diagnostic_plots"),("settings changes inside plots",P+": plot_corner")],["files written","matplotlib settings and open figures after the call"])
p("C17","Plots show the run they are given, whatever was plotted before",
 "What a plotting call draws (data points, limits, best-fit curve, confidence bands, residuals, chain traces, distribution marks) is the same whatever plotting calls came before it, with the same arguments and random state. The best-fit curve is the recorded model output at the recorded position of highest probability, and the drawn data are the run's data in the requested units.",
 ["histories","inputs"],"all sequences of plotting calls with varying options over several runs, original or read back from disk",
 "Tests call each plot function once for coverage and look at no drawn content.",
 [P],[("mutable defaults and option dictionaries",P+": plot_data, plot_fit, plot_CI"),("best-fit selection",P+": find_ML")],["artists in the returned figure"])
p("C18","Curves and tables computed in worker pools match serial evaluation",
 "Model curves recomputed for plotting on a requested energy range, and generated lookup tables, are exactly the model evaluated point by point for the drawn chain positions and requested grids, in order, for any number of workers and any scheduling; a failing worker makes the call fail rather than draw or store something else.",
 ["schedules","configurations","fault_sequences"],"all worker counts, chunkings, completion orders and worker failures",
 "Tests use whatever pool the machine gives and do not check the computed curves.",
 [P,R],[("pool maps over chain samples",P+": _read_or_calc_samples"),("pool map over photon energies",R+": generate_lut_pp")],["drawn curves","contents of the generated file"])
p("C19","The interactive fitter hands back exactly the model it displays",
 "After any sequence of slider moves, auto-update toggles, update and fit clicks, including fits that fail, do not converge or raise, the parameters the fitter hands back produce the displayed curve and the displayed log-likelihood, and are flagged as maximum-likelihood only if they are the converged result of the last fit. The auto-update choice changes only when the user changes it.",
 ["histories","fault_sequences"],"all event sequences on the window, with models that fail or fits that stop early",
 "Tests construct the window and call one or two handlers; event orders and failing fits are not sampled.",
 [F,C],[("event handlers and flags",F+": update, update_if_auto, update_autoupdate, do_fit")],["fitter.pars, P0_IS_ML, autoupdate, displayed line and text"])
p("C20","Sherpa model wrappers return current results for current parameters",
 "After any history of parameter changes, evaluations on points or bins, guesses, other model instances and caching switched on or off, a Sherpa wrapper returns what a newly built wrapper with the same parameter values returns for the same bins, equal to the corresponding naima model in the wrapper's units. Results already returned do not change later.",
 ["histories","inputs"],"all sequences of calls over several wrapper instances and grids",
 "Tests evaluate each wrapper once and run one fit.",
 [S],[("result caching by the host framework",S+": SherpaModel.calc"),("model rebuilt from parameter vector",S+": flux")],["return value of model(x), model(xlo,xhi)"])
p("C21","The starting point of a run is never worse than asked and never forbidden",
 "Prefitting before a run calls the model a bounded number of times and never starts the run from a point that is less likely than the given one by the data or that the prior forbids; when it cannot do so it keeps the given one. Without prefitting the run starts from the given values, of which the guess changes only the normalisation, to match the data's integrated flux. A failure of the model during the search is raised to the caller, and the recorded initial parameters are the ones the walkers were started from.",
 ["fault_sequences","inputs","histories"],"all data/model/prior combinations, including non-convergence and failures at any evaluation of the search",
 "Tests prefit one benign problem.",
 [C,"src/naima/extern/minimize.py"],[("bounded simplex search and prior check",C+": _prefit")],["sampler.run_info['p0'], initial walker positions, number of model calls"])
p("C22","Library calls leave the session's settings as they found them",
 "Whether it returns, fails or is interrupted, no call into the library changes process-wide settings: Python warning filters, numpy error handling and print options, logging levels and handlers, environment, working directory, signal handlers, standard streams, matplotlib and astropy settings stay as the user had them. Calls that need no random numbers leave numpy's random state alone; sampling and the plots that draw samples only draw from it and never set it. The same holds for groups of evaluations overlapping in threads.",
 ["histories","fault_sequences","schedules"],"all calls of the public interface, in any order, with any settings chosen by the user, failing or interrupted at any point, or overlapping in threads",
 "Tests look at return values and files; settings left behind show only after a failure or interrupt, with settings other than the defaults, or with overlapping threads.",
 [R,U,C,A,P,F],[("warnings and numerical errors ignored during integrations",R+": _calc_specic, _spectrum; "+U+": trapz_loglog"),("warnings ignored during the likelihood search",C+": _prefit"),("plot settings during diagnostic plots and interactive fitting",A+": save_diagnostic_plots; "+C+": get_sampler")],["process-wide settings before and after every outermost call"])
with open("/verif/properties.jsonl","w") as f:
    for d in props: f.write(json.dumps(d)+"\n")
print(len(props), [len(d["title"]) for d in props])
