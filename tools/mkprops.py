"""Writes /verif/properties.jsonl (kept as code so the wording stays in one place)."""
import json, pathlib
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

p("C01", "Each sampled configuration is evaluated exactly once across workers",
  "When several workers (processes) share one root directory, every sampled configuration is handed to the user's evaluation function by one worker only, and once only. A worker never fails, skips reporting a finished evaluation, or loses its result merely because other healthy workers sample, start or report trials at the same moment. When all workers have stopped without errors, no trial is left pending or in progress.",
  ["schedules"], "for every number of workers, every interleaving of their file-system and lock operations, every searcher and mix of fresh and previously sampled (pending) trials",
  "the tests drive at most two workers step by step in one process; the interleavings between another worker's scan, claim and write are never exercised",
  ["neps/runtime.py", "neps/state/neps_state.py", "neps/state/filebased.py", "neps/state/protocols.py"],
  [("claim by versioned write of the in-progress state", "neps/runtime.py: DefaultWorker.run"), ("optimistic version check under file lock", "neps/state/protocols.py: VersionedResource.put / Synced.put"), ("pending-trial selection", "neps/state/neps_state.py: get_next_pending_trial; neps/state/filebased.py: TrialRepoInDirectory.pending")],
  [("trial state", "pending / evaluating / finished as stored per trial", "configs/config_<id>/state.txt")],
  ["calls of the user's evaluation function per worker process", "trial directories on disk after all workers exit", "worker exit status"])

p("C02", "Concurrent sampling never duplicates, drops or overwrites a trial",
  "Every trial that any worker samples gets an id no other trial of the run has, and stays on disk with the configuration that was sampled. Each new configuration is proposed with knowledge of every trial recorded before it (finished, in-progress and pending), so sequentially numbered searchers leave no gaps and repeat no number, however many workers sample at once.",
  ["schedules", "histories"], "for every number of concurrent samplers, every interleaving, every searcher",
  "unit tests sample from one thread only",
  ["neps/state/neps_state.py", "neps/state/filebased.py", "neps/optimizers/random_search/optimizer.py", "neps/optimizers/grid_search/optimizer.py"],
  [("optimizer-state lock held across sample and creation", "neps/state/neps_state.py: sample_trial"), ("exclusive creation of the trial directory", "neps/state/filebased.py: TrialRepoInDirectory.put_new")],
  None, ["trials handed to the optimizer at each proposal", "trial directories on disk"])

p("C03", "Evaluation-count limits are respected by any number of workers",
  "With a total limit M, a worker starts no evaluation once M evaluations are finished or, by default, finished plus in progress (errored ones included); with the 'continue until completed' option only finished ones count. A single worker therefore performs exactly M minus those already recorded, W workers together never exceed M+W-1, and once all workers have stopped normally at least M evaluations are recorded. A per-run limit bounds the evaluations of that one call, exactly, whatever other workers do.",
  ["schedules", "histories", "configurations"], "for all limits, numbers of workers, interleavings, mixes of failing evaluations and previously recorded trials",
  "tests check a couple of fixed limits with sequential workers in one process",
  ["neps/runtime.py", "neps/api.py", "neps/state/settings.py"],
  [("stop criterion evaluated before each evaluation", "neps/runtime.py: DefaultWorker._check_if_should_stop"), ("mapping of run arguments to worker settings", "neps/runtime.py: _launch_runtime")],
  None, ["start/end of each call of the evaluation function", "number of recorded reports"])

p("C04", "Cost and time budgets stop new evaluations; spent cost adds up",
  "No evaluation starts once the recorded costs of all finished evaluations (those that failed with a configured error cost included) add up to the maximum total cost, and evaluation keeps going while they do not; the same holds for a worker's own cost, evaluation-time and wall-clock limits and for the total evaluation time. The persisted spent-cost counter always equals the sum of the costs of all reported evaluations, under any interleaving of reports.",
  ["schedules", "histories", "inputs"], "for all cost sequences (missing, zero, negative, integer and float costs), limits, workers and interleavings",
  "tests use one constant cost and sequential workers; lost updates of the shared counter need concurrent reports",
  ["neps/runtime.py", "neps/state/neps_state.py", "neps/state/optimizer.py"],
  [("budget checks", "neps/runtime.py: DefaultWorker._check_if_should_stop"), ("budget accumulation under the optimizer-state lock", "neps/state/neps_state.py: report_trial_evaluation")],
  [("used cost", "sum of costs reported so far", ".optimizer_state/state.yaml")], ["start of each evaluation", "persisted optimizer state"])

p("C05", "What the pipeline returns is what is stored, reloaded and given to searchers",
  "Whatever the evaluation function returns (a number, or a mapping with loss, optional cost, learning curve and extra entries, including infinities, NaN, numpy scalars and nested values), the recorded result has exactly that loss, cost, learning curve and extra data, in memory, on disk and after reloading from another process. The evaluation function receives exactly the sampled configuration, with unchanged values and types, plus only the directories it asks for, and the user's returned object is not modified.",
  ["inputs"], "for all legal return values and all configurations of any search space",
  "tests check one or two literal dictionaries; serialisation and parsing quirks need generated values",
  ["neps/state/_eval.py", "neps/state/trial.py", "neps/state/filebased.py", "neps/utils/files.py"],
  [("parsing of the user's result", "neps/state/_eval.py: parse_user_result"), ("report serialisation", "neps/utils/files.py: serialize / deserialize"), ("trial reader/writer", "neps/state/filebased.py: ReaderWriterTrial")],
  None, ["arguments and return value of the evaluation function", "trials loaded by a second process"])

p("C06", "Errors follow the configured policy and every error is logged once",
  "If the evaluation function raises, the trial is recorded as crashed with the configured error loss and cost (or none), and exactly one entry with that trial's id, worker, error type, message and traceback is added to the shared error log; successful evaluations add none. By default the failing worker raises an error naming the original one, and every other worker sharing the directory stops with an error before starting another evaluation; with errors ignored no worker stops and the failed trial still counts as an evaluation.",
  ["schedules", "histories", "inputs"], "for all error types and messages, all subsets of failing evaluations, all policies, numbers of workers and interleavings",
  "tests check one failure with one or two in-process workers; lost log entries need concurrent failures",
  ["neps/runtime.py", "neps/state/_eval.py", "neps/state/neps_state.py", "neps/state/err_dump.py", "neps/state/filebased.py"],
  [("error policy in the stop criterion", "neps/runtime.py: DefaultWorker._check_if_should_stop"), ("shared error dump under lock", "neps/state/neps_state.py: report_trial_evaluation"), ("jsonl reader/writer", "neps/state/filebased.py: ReaderWriterErrDump")],
  [("error log", "all errors so far", ".errors/all-errors.jsonl")], ["worker outcome", "error log after the run"])

p("C07", "Re-running continues the run: nothing recorded is lost or evaluated again",
  "Calling run again with the same root directory keeps every recorded trial byte-for-byte (configuration, result, metadata), evaluates only trials that were never evaluated (previously sampled, still pending ones first and in the order sampled), and goes on counting from what is recorded; if the limits are already met it evaluates nothing. With the overwrite option the old run is removed completely and the new run is like a fresh one, and nothing outside the root directory is touched.",
  ["histories", "configurations"], "for every sequence of run calls with varying limits, searchers, task and stage ids, errors and pending trials",
  "tests cover one or two hand-written continuations",
  ["neps/api.py", "neps/runtime.py", "neps/state/filebased.py", "neps/state/neps_state.py"],
  [("create-or-load of the shared state", "neps/state/filebased.py: create_or_load_filebased_neps_state"), ("pending trials first", "neps/runtime.py: DefaultWorker._get_next_trial_from_state"), ("directory overwrite", "neps/runtime.py: _launch_runtime")],
  None, ["directory snapshots before and after each run call", "evaluation log"])

p("C08", "One random stream: splitting or resuming a run does not change the samples",
  "For a given initial random state, the sequence of configurations sampled in a root directory is the same whether one call samples them all, several consecutive calls (new processes) continue one another, or several workers take turns sampling: it is the sequence the global generators (Python, NumPy, PyTorch), as they stood when the run was created, give when nothing else draws from them. User code consuming or reseeding the global random generators during evaluation does not change that sequence.",
  ["schedules", "histories", "configurations"], "for all splits of the run over calls and processes, all seeds, all orders in which workers take turns, all searchers that draw randomly",
  "tests only check that a snapshot object survives one save and load",
  ["neps/state/seed_snapshot.py", "neps/state/neps_state.py", "neps/state/filebased.py"],
  [("shared rng snapshot restored before and stored after each sample", "neps/state/neps_state.py: sample_trial"), ("rng snapshot reader/writer", "neps/state/filebased.py: ReaderWriterSeedSnapshot")],
  [("rng snapshot", "python, numpy and torch generator state", ".seed_state/")], ["configurations sampled, in order"])

p("C09", "Shared state is atomic: no lost updates, no torn or stale reads",
  "Every read of a shared item (trial, error log, optimizer state, random state) by any worker returns a complete value that some worker wrote, at least as new as the last write finished before the read began. A write based on an outdated view (what the worker last synchronised) is rejected with a version-mismatch error and changes nothing; of several conflicting writes based on the same view exactly one succeeds, and read-modify-write sections exclude each other.",
  ["schedules"], "for every interleaving of reads, writes and read-modify-write sections of any number of workers",
  "tests call the operations in a fixed order in one thread",
  ["neps/state/protocols.py", "neps/state/filebased.py", "neps/state/neps_state.py"],
  [("file lock", "neps/state/filebased.py: FileLocker"), ("version tag", "neps/state/filebased.py: FileVersioner"), ("synced resource", "neps/state/protocols.py: Synced, VersionedResource")],
  None, ["recorded history of reads and writes with their values"])

p("C10", "A worker killed at any moment does not damage the run",
  "If a worker process is killed at an arbitrary instant (during evaluation, sampling, reporting or any single file write), every evaluation reported before is still there unchanged, the remaining and any newly started workers keep working on the same root directory without failing, and no trial is ever shown as finished without its complete result. The killed worker's locks do not stay held.",
  ["crash_points", "fault_sequences"], "for every crash point between or inside any two file operations of a worker, with any history before it",
  "no test kills a worker; crash points lie between individual system calls",
  ["neps/state/filebased.py", "neps/state/protocols.py", "neps/utils/files.py", "neps/runtime.py"],
  [("OS-released file lock", "neps/state/filebased.py: FileLocker"), ("order of data and version writes", "neps/state/protocols.py: VersionedResource.new / put"), ("file serialisation", "neps/utils/files.py: serialize")],
  None, ["state directory after the kill", "outcome of surviving and new workers"])

p("C11", "Workers may start at the same time; mismatching optimizers are refused",
  "Any number of workers that start simultaneously on a new, empty or existing root directory with the same settings all come up and share one run state, which is initialised exactly once. A worker whose optimizer settings differ from those recorded for the directory is refused with an error and changes no recorded trial, random state or optimizer record.",
  ["schedules", "configurations"], "for all interleavings of simultaneous starts, all initial directory contents a previous start may have left, all pairs of optimizer settings",
  "tests start workers one after another",
  ["neps/state/filebased.py", "neps/api.py", "neps/runtime.py"],
  [("create-or-load under lock", "neps/state/filebased.py: create_or_load_filebased_neps_state"), ("optimizer info check", "neps/state/filebased.py: create_or_load_filebased_neps_state")],
  [("optimizer info", "name, algorithm and arguments of the searcher", ".optimizer_info/info.yaml")], ["outcome of each start", "state directory"])

p("C12", "Trial lifecycle and metadata are always legal",
  "A trial only ever moves from pending through (submitted and) evaluating to one final state, and a final state, its report, its configuration, its id, its location, its predecessor and its sampling time and worker never change afterwards. A trial has a report if and only if it is finished, its reported outcome matches its state, its metadata name the worker that really evaluated it, and its timestamps are ordered (sampled, started, ended), enclose the real evaluation and give a non-negative duration.",
  ["schedules", "histories"], "for all runs, workers and outcomes",
  "tests look at single transitions of single trial objects",
  ["neps/state/trial.py", "neps/runtime.py", "neps/state/_eval.py", "neps/state/filebased.py"],
  [("trial state transitions", "neps/state/trial.py: Trial.set_evaluating / set_complete / reset"), ("metadata persistence", "neps/state/filebased.py: ReaderWriterTrial")],
  None, ["successive on-disk versions of each trial", "evaluation log"])

p("C13", "Pipelines see their own trial, directories and predecessor's checkpoint",
  "While a configuration is evaluated, the in-progress-trial accessor, the pipeline directory and the checkpoint helpers all refer to that very trial; the previous pipeline directory, checkpoint loading and initial-directory lookup refer to the trial it continues (and the first of that chain), in this run's root directory, or to nothing if it continues none. Afterwards, whatever the evaluation's outcome, nothing of it leaks into the next evaluation or a later run in the same process, and end-of-trial callbacks have run exactly once, with that trial, after every evaluation that returned a valid result or raised an error.",
  ["histories", "programs"], "for all sequences of evaluations and runs in a process, outcomes (success, error, invalid result, interrupt), lineage depths and checkpoint contents",
  "tests run a single pipeline once; leaks need consecutive runs and failures",
  ["neps/runtime.py", "neps/utils/common.py", "neps/state/_eval.py"],
  [("global in-progress trial", "neps/runtime.py: _set_global_trial"), ("injected directories", "neps/state/_eval.py: evaluate_trial"), ("checkpoint helpers", "neps/utils/common.py: load_checkpoint, save_checkpoint, get_initial_directory")],
  None, ["values seen inside the evaluation function"])

p("C14", "Status, summary and CSV agree with the recorded trials",
  "For any run directory, the status report and summary count every trial exactly once in the right category (evaluated, errored, pending, in progress), name as best the successfully evaluated trial with the smallest loss below infinity (none if there is none; NaN is never best) together with its loss and configuration, and the CSV files contain exactly one row per trial with its configuration and result. Producing them changes no recorded trial and works for every history, including no trials and only failed ones.",
  ["histories"], "for every reachable set of trials: any mix of states, losses (ties, infinities, NaN), errors, extra result data",
  "tests check one all-success run",
  ["neps/status/status.py", "neps/api.py"],
  [("summary from shared state", "neps/status/status.py: get_summary_dict, status, post_run_csv")],
  None, ["summary dictionary", "CSV files", "printed best configuration"])

p("C15", "Every sampled, mutated, crossed-over or default value is in its domain",
  "For every legal search space, every configuration obtained by sampling (with or without priors or defaults), mutation, crossover or prior-based perturbation has exactly the declared parameters, each value lies within its declared bounds or choices and has the declared type (integers stay integers, constants stay constant, the fidelity stays at its target when ignored), and the parent configurations and the space itself are left unchanged and share nothing with the result. Normalised values of numerical parameters lie in [0, 1], and converting a value to normalised form and back gives the value again (up to floating-point error; exactly for integers and categories). Sampling without priors is uniform on the declared (linear or log) scale and can give every integer and category, sampling with priors concentrates around the default, and mutating a configuration always ends with one that differs from it and can give every other category.",
  ["inputs", "configurations"], "for all bounds (log and linear, tiny, huge, negative, single-point), choices, defaults, prior confidences and random states",
  "tests sample a few fixed spaces; boundary rounding shows for particular bounds only",
  ["neps/search_spaces/search_space.py", "neps/search_spaces/hyperparameters/float.py", "neps/search_spaces/hyperparameters/integer.py", "neps/search_spaces/hyperparameters/numerical.py", "neps/search_spaces/hyperparameters/categorical.py", "neps/search_spaces/hyperparameters/constant.py"],
  [("parameter sampling, mutation, crossover", "neps/search_spaces/hyperparameters/*.py"), ("space-level sampling", "neps/search_spaces/search_space.py: sample, mutate, crossover")],
  None, ["values returned by the sampling operations"])

p("C16", "Numeric encodings of configurations are lossless and stay in the domain",
  "Encoding any list of configurations and decoding it again returns the same configurations (floats up to rounding, integers and categories exactly), every encoded value lies in the encoder's declared domain, and decoding any point of that domain, corners included, yields values inside the parameters' bounds with the right type. Casting between domains is monotone, maps bounds to bounds, keeps relative positions on the declared scales up to the resolution of the two domains, hits every bin of a discretised domain and never leaves the target domain.",
  ["inputs", "configurations"], "for all mixed search spaces, all configurations and all encoded points",
  "tests use a few literal parameters and values",
  ["neps/search_spaces/encoding.py", "neps/search_spaces/domain.py"],
  [("config encoder", "neps/search_spaces/encoding.py: ConfigEncoder, CategoricalToUnitNorm, MinMaxNormalizer"), ("domain casts", "neps/search_spaces/domain.py: Domain.cast / to_unit / from_unit")],
  None, ["encoded tensors and decoded configurations"])

p("C17", "A search space means the same however it is written or copied",
  "A search space written as Python objects, as a YAML file or dictionary, or as a ConfigSpace space denotes the same parameters (types, bounds, log scale, choices, defaults, prior confidence, fidelity). Serialising a configuration to a plain dictionary and loading it back, or cloning it, gives an equal and independent configuration, parameters declared alike are equal and ones declared differently are not, setting a default or its confidence later equals declaring it, reading a definition does not modify it, and illegal definitions or values (inverted bounds, non-positive log bounds, out-of-range defaults, unknown parameters, missing entries of a definition) are rejected, leaving the object as it was.",
  ["inputs", "configurations"], "for all search spaces and configurations expressible in the formats",
  "tests use fixed example files",
  ["neps/search_spaces/search_space.py", "neps/search_spaces/yaml_search_space_utils.py", "neps/search_spaces/hyperparameters/numerical.py"],
  [("yaml translation", "neps/search_spaces/yaml_search_space_utils.py"), ("ConfigSpace translation", "neps/search_spaces/search_space.py: pipeline_space_from_configspace"), ("config load/serialise/clone", "neps/search_spaces/search_space.py: SearchSpace")],
  None, ["parameters built by each route"])

p("C18", "Samplers and priors produce points of the right shape, range and density",
  "Every sampler (uniform, Sobol, border, prior-based, weighted) returns the requested number of points, of the right dimension, inside the target domains given, and identical ones for identical seeds (the border sampler distinct corners); discrete targets receive integers that can take every value. A prior's log density is finite or minus infinity, never NaN, is the sum over its coordinates, is highest at the default for every numerical coordinate that has one, puts the stated confidence on the default of a categorical one, is uniform over coordinates without default, and does not depend on the order in which parameters are given.",
  ["inputs", "configurations"], "for all dimensions, domains, sample shapes, centres, confidences and seeds",
  "tests check shapes for two or three fixed domains",
  ["neps/sampling/samplers.py", "neps/sampling/priors.py", "neps/sampling/distributions.py"],
  [("samplers", "neps/sampling/samplers.py"), ("priors", "neps/sampling/priors.py: Prior.from_parameters, CenteredPrior"), ("truncated normal", "neps/sampling/distributions.py")],
  None, ["sample tensors and log densities"])

p("C19", "Grid search visits every grid point exactly once",
  "Grid search proposes every point of the search space's grid exactly once, in every order of interruption, resumption and change of worker, and then refuses to propose more. The grid itself contains, for every categorical parameter all choices, for every float the requested number of values evenly spaced on its declared scale, for every integer up to that many distinct values (all integers of a linear range that has no more), always including both bounds and nothing outside them, fidelities like other numerical parameters, and all combinations once.",
  ["histories", "configurations"], "for all grid-able search spaces, resolutions, seeds and splits over processes",
  "tests only construct a grid for one space",
  ["neps/optimizers/grid_search/optimizer.py", "neps/search_spaces/search_space.py", "neps/search_spaces/hyperparameters/numerical.py"],
  [("grid enumeration by trial count", "neps/optimizers/grid_search/optimizer.py: GridSearch.ask"), ("grid construction", "neps/search_spaces/search_space.py: get_search_space_grid")],
  None, ["proposals of a full grid-search run"])

p("C20", "Every searcher proposes a legal, fresh trial on every history",
  "Given any legal search space and any history of finished, failed (with errors ignored), in-progress and pending trials it could have produced, every searcher that can run offline returns a configuration with exactly the declared parameters, values in their domains and built-in types, a trial id not yet in use, and, if it names a predecessor, one that exists and that has the same hyperparameters up to the fidelity if it continues it. Searchers that do not use the fidelity leave it at its maximum. No searcher fails or modifies the history it is given.",
  ["histories", "inputs", "configurations"], "for all searchers, spaces, losses (ties, infinities, NaN, very large), costs, failures and orders of completion",
  "tests run each searcher on one toy objective with sequential successes",
  ["neps/optimizers/base_optimizer.py", "neps/optimizers/bayesian_optimization/optimizer.py", "neps/optimizers/multi_fidelity/successive_halving.py", "neps/optimizers/multi_fidelity/hyperband.py", "neps/optimizers/multi_fidelity_prior/priorband.py", "neps/optimizers/multi_fidelity_prior/async_priorband.py", "neps/optimizers/random_search/optimizer.py"],
  [("ask", "neps/optimizers/*: ask"), ("default sampling of the initial design", "neps/optimizers/initial_design.py")],
  None, ["each proposal during long simulated runs"])

p("C21", "Fidelity schedules: geometric rungs, bounded by the fidelity, right counts",
  "Multi-fidelity searchers evaluate only at fidelities of their geometric schedule: the highest rung is the fidelity's upper bound, each lower one is a factor eta smaller, as many rungs as fit above the lower bound, none below it, and integer fidelities are rounded down to integers. The rung in a trial's id matches the fidelity it is evaluated at, new configurations enter at the lowest rung of the active bracket (a requested first default configuration excepted), and synchronous brackets start with the textbook number of configurations (with s_max reductions, a bracket entering at rung s takes floor((s_max+1)/(s_max-s+1))*eta^(s_max-s)) and Hyperband cycles through all brackets.",
  ["configurations", "histories"], "for all fidelity bounds, eta, early-stopping rates, integer and float, linear and log fidelities, numbers of trials",
  "tests use one fidelity range and eta=3",
  ["neps/optimizers/multi_fidelity/successive_halving.py", "neps/optimizers/multi_fidelity/hyperband.py", "neps/optimizers/multi_fidelity_prior/priorband.py"],
  [("rung and config maps", "neps/optimizers/multi_fidelity/successive_halving.py: _get_rung_map, _get_config_map"), ("bracket cycling", "neps/optimizers/multi_fidelity/hyperband.py")],
  None, ["fidelity and id of every proposal"])

p("C22", "Only top-ranked, finished configurations are promoted, once, one rung up",
  "A configuration evaluated at a higher rung has been evaluated at the rung directly below, has exactly the same hyperparameters there except the fidelity, and names that lower evaluation as its predecessor; no configuration is promoted twice to the same rung. Synchronous searchers promote only when the lower rung of the bracket is complete, and only configurations among its best 1/eta (ties aside); asynchronous ones promote the best of the finished configurations waiting at a rung once there are at least eta of them, from the highest such rung first. Failed evaluations and NaN losses rank behind all successful ones (a configured error loss is used if set), and a promotion that is due is made before a new configuration is sampled.",
  ["histories", "schedules"], "for all orders of completion, losses (ties, infinities), failures, parallel workers, asynchronous and synchronous variants",
  "tests do not observe promotions at all",
  ["neps/optimizers/multi_fidelity/successive_halving.py", "neps/optimizers/multi_fidelity/promotion_policy.py", "neps/optimizers/multi_fidelity/hyperband.py"],
  [("promotion policies", "neps/optimizers/multi_fidelity/promotion_policy.py"), ("observed-configuration table", "neps/optimizers/multi_fidelity/successive_halving.py: _load_previous_observations, get_config_and_ids")],
  None, ["each promotion together with the history it was decided on"])

p("C23", "Run arguments mean the same from all sources; the searcher follows the space",
  "Every argument of a run has the same effect whether it is passed to neps.run, given in a run_args settings file or on the command line; an explicit Python argument overrides the file, omitted ones take the documented defaults, and unknown, missing or ill-typed ones are rejected without changing anything on disk. With no searcher named (or None), the choice depends only on whether the space has priors (a default on a parameter other than the fidelity) and a fidelity. A named searcher (string, dictionary, YAML file, class or object) is used with exactly its documented default arguments overridden by those given, whatever form the pipeline space has, and this is what is recorded for the run. SearcherConfigs lists the searchers, algorithms and default arguments that runs use.",
  ["configurations", "inputs"], "for all combinations of arguments, sources, forms of space and forms of searcher",
  "tests check a dozen fixed files",
  ["neps/api.py", "neps/utils/run_args.py", "neps/utils/common.py", "neps/utils/cli.py", "neps/optimizers/__init__.py"],
  [("settings merge", "neps/utils/run_args.py: Settings"), ("searcher selection", "neps/api.py: _run_args")],
  None, ["recorded optimizer info", "arguments reaching the worker and the searcher's constructor"])

p("C24", "Surrogate models are trained on exactly the recorded history",
  "The data given to the surrogate of Bayesian optimization contain one row per evaluated trial with that trial's configuration and loss (failed, NaN or infinite losses replaced by the median of the others, never dropped or attached to another row); trials in progress are passed as pending points only, and the cost model is trained on the costs of the same trials; multi-fidelity searchers with a model use the finished evaluations of one rung, or all, in the same way. Proposals follow from it: losses are minimised, the prior pulls towards the default at first and no longer after many evaluations, cheap configurations are preferred while cost budget is left. Before that the initial design is handed out: the requested number of points, the default first if asked for, spread over the space (or around the priors), each used once.",
  ["histories", "inputs"], "for all spaces, histories, orders of trials and options",
  "tests check only that suggestions are made",
  ["neps/optimizers/bayesian_optimization/models/gp.py", "neps/optimizers/bayesian_optimization/optimizer.py", "neps/optimizers/bayesian_optimization/acquisition_functions", "neps/optimizers/initial_design.py", "neps/optimizers/multi_fidelity/mf_bo.py", "neps/optimizers/multi_fidelity/sampling_policy.py"],
  [("trial encoding", "neps/optimizers/bayesian_optimization/models/gp.py: encode_trials_for_gp"), ("initial design", "neps/optimizers/initial_design.py: make_initial_design"), ("weighting by prior and cost", "neps/optimizers/bayesian_optimization/acquisition_functions/weighted_acquisition.py"), ("model of a rung", "neps/optimizers/multi_fidelity/mf_bo.py: _fit_models")],
  None, ["tensors given to the third-party model and acquisition function next to the history", "proposals by trial number"])

p("C25", "Architectures stay in their grammar and survive being written down",
  "Every architecture string obtained by sampling, mutation or crossover of a grammar-based parameter is derivable in the declared grammar, evaluates to a graph built from the declared primitives, and equals itself after being serialised and loaded again. Mutation and crossover leave their parents unchanged.",
  ["inputs", "programs"], "for all grammars and all derivations, mutations and crossovers",
  "tests sample a handful of architectures",
  ["neps/search_spaces/architecture/cfg.py", "neps/search_spaces/architecture/graph_grammar.py", "neps/search_spaces/architecture/api.py"],
  [("context-free grammar sampler and operators", "neps/search_spaces/architecture/cfg.py"), ("graph grammar", "neps/search_spaces/architecture/graph_grammar.py")],
  None, ["strings and graphs produced"])

p("C26", "Command-line reports agree with the recorded trials",
  "For any run directory, whatever the state of its trials, the form of their ids or the searcher used, `neps status` prints the right number of succeeded, failed, active and pending trials, the best loss and a best trial (if there is one), and lists exactly the trials its filter asks for (or the 7 latest) with their state, time and loss; `neps results` lists exactly the incumbents: the successful trials with a smaller loss than all sampled before them, latest first; `neps info-config ID` shows the configuration, state, metadata and report of that trial, evaluated or not; `neps errors` lists every recorded error once. None of these commands changes anything in the run directory (`results --plot` adds its plot), creates a missing one or fails.",
  ["inputs", "histories"], "for all recorded histories and filters",
  "there is no test of these commands",
  ["neps/utils/cli.py", "neps/status/status.py"],
  [("status", "neps/utils/cli.py: status"), ("results", "neps/utils/cli.py: results"), ("info-config", "neps/utils/cli.py: info_config"), ("errors", "neps/utils/cli.py: load_neps_errors")],
  None, ["printed reports next to the recorded trials", "directory contents before and after"])

p("C27", "ifBO continues configurations step by step and models the recorded trials",
  "Once its initial design (at the lowest fidelity) is handed out, every proposal of ifBO is either a new configuration at the lowest step of the fidelity or the continuation of an existing one: exactly the same hyperparameters, one step_size higher than its latest evaluation, which is reported (not still in progress), below the maximum fidelity and named as the previous trial; no trial id is used twice. The model is given one row per recorded trial with its configuration, its share of the maximum fidelity and the score 1 - loss (failed evaluations the worst score, evaluations in progress the model's own expectation), losses outside [0, 1] are refused, and the proposal is the candidate the model scores best.",
  ["histories", "inputs"], "for all spaces, fidelities, step sizes, histories, completion orders and restarts",
  "there is no test of ifBO's proposals",
  ["neps/optimizers/multi_fidelity/ifbo.py", "neps/optimizers/bayesian_optimization/models/ftpfn.py"],
  [("continuation of a configuration", "neps/optimizers/multi_fidelity/ifbo.py: IFBO.ask"), ("encoding for the model", "neps/optimizers/bayesian_optimization/models/ftpfn.py: encode_ftpfn")],
  None, ["proposals next to the history", "tensors handed to the network"])

p("C28", "Searchers see the complete record; their answers are recorded verbatim",
  "Each time a searcher, built in or user-defined, is asked, it is given every trial recorded for the run, each once, under its id and in its latest recorded form (configuration, state, predecessor, report), and the budget: the limits last configured, the cost and the number of evaluations reported so far; hooks are applied in order before every ask and the searcher they return is the one asked; the global random generators stand where the previous sample left them. The answer becomes exactly one new pending trial with the given id, configuration (values and types), predecessor and its location, sampled by this worker at this time, and a state returned along with it is stored. If the searcher fails, or its answer can not be recorded (unknown predecessor, id in use), nothing recorded changes, no lock stays held, the error names the cause and any worker or later call can go on; what the searcher does with the budget information it is given changes nothing recorded.",
  ["histories", "inputs"], "for all histories, answers, orders of workers, limits and points at which asking fails",
  "tests ask with a fixed optimizer stub in one short history",
  ["neps/state/neps_state.py", "neps/state/filebased.py", "neps/runtime.py"],
  [("sampling a trial", "neps/state/neps_state.py: NePSState.sample_trial"), ("budget accounting", "neps/state/neps_state.py: NePSState.report_trial_evaluation"), ("limits of a call", "neps/runtime.py: _launch_runtime")],
  None, ["arguments of every ask next to the independent record", "directory contents before and after failed asks"])

p("C29", "PriorBand samples from the declared mixture of uniform, prior and incumbent",
  "Whenever a PriorBand searcher samples a new configuration, it draws from a mixture of uniform, prior and incumbent-based sampling with shares that are not negative and sum to one; the uniform share is 1/(1+w), with w = eta^rung (geometric), growing linearly from 1 to eta (linear) or 1 (50-50) at the rung the configuration enters. The incumbent is used only once the finished evaluations (the latest of each configuration that is not being continued) have used the resources of one successive-halving bracket and one configuration was evaluated at the highest fidelity; before that its share goes to the prior, afterwards its share of the rest is as declared: constant 1/(1+eta), or 1 - 2^-floor(used/(eta*max)) (decay). The incumbent is the configuration with the smallest recorded loss (of its latest evaluation, not being continued), it is not changed by sampling around it, and samples around it follow the declared style (mutation rate and spread, gaussian, crossover, hypersphere).",
  ["histories", "inputs"], "for all spaces, histories, rungs, weightings and styles",
  "tests only check that such searchers run",
  ["neps/optimizers/multi_fidelity_prior/priorband.py", "neps/optimizers/multi_fidelity_prior/async_priorband.py", "neps/optimizers/multi_fidelity_prior/utils.py", "neps/optimizers/multi_fidelity/sampling_policy.py"],
  [("shares", "neps/optimizers/multi_fidelity_prior/priorband.py: calc_sampling_args"), ("start of incumbent sampling", "neps/optimizers/multi_fidelity_prior/priorband.py: is_activate_inc"), ("mixture", "neps/optimizers/multi_fidelity/sampling_policy.py: EnsemblePolicy.sample")],
  None, ["weights and incumbent handed to the sampling policy next to the history", "samples drawn"])

p("C30", "What pipelines log to TensorBoard is written once, under their configuration",
  "Everything a pipeline logs through tblogger (losses, extra scalars, hyperparameters, images) is written exactly once, with the given value and step, in the directory of the trial its configuration started with and under that trial's name: all epochs and continuations of a configuration form one curve, no two configurations share one, whatever other trials (interrupted, failed, of other runs in the same process or of other workers) did before; hyperparameters are written with the values the pipeline got, images in the number asked for at the steps asked for. If asked for, each evaluation is followed by one point of the incumbent trajectory of its own run: a number of evaluations and the best loss among them. A disabled logger writes nothing, and logging changes neither the configuration nor the global random generators.",
  ["histories", "schedules"], "for all sequences of runs, outcomes, log calls and numbers of workers",
  "there is no test of the logger",
  ["neps/plot/tensorboard_eval.py", "neps/runtime.py", "neps/utils/common.py"],
  [("logging", "neps/plot/tensorboard_eval.py: tblogger.log"), ("end of a trial", "neps/runtime.py: register_notify_trial_end")],
  None, ["events read back from the event files next to the calls made"])

p("C31", "Plots draw the best losses recorded so far",
  "neps.plot and `python -m neps.plot` write one figure that shows, for each benchmark and algorithm asked for (under its title and label, in that order), the mean and standard error over the seeds of the best loss reached so far: every point drawn at x from the first evaluation on is the smallest loss among the successful evaluations that ended by then, and every evaluation within the range has its point; x is the number of successful evaluations in the order they finished, or their accumulated metric (key_to_extract; a fidelity in units of the largest one), continuations adding only what exceeds their predecessor, or the time since the first trial was sampled (consider_continuations, with one or several workers). Failed and unfinished trials and NaN losses change nothing; seeds may differ in length. Nothing else in the directory changes, there is an error if there is nothing to plot, and the 3D plotter draws each configuration's recorded losses over its steps.",
  ["inputs", "histories"], "for all recorded histories and options",
  "there is no test of plots",
  ["neps/plot/plot.py", "neps/plot/read_results.py", "neps/plot/plotting.py", "neps/plot/plot3D.py"],
  [("reading a run", "neps/plot/read_results.py: process_seed"), ("common axis", "neps/plot/plotting.py: _interpolate_time")],
  None, ["lines and bands of the saved figure next to the recorded trials"])

p("C32", "New configurations come from the declared prior, or uniformly",
  "Searchers that use priors (random_search with use_priors, successive_halving_prior, asha_prior, hyperband_custom_default for half of its configurations, and the initial configurations of pibo) draw each new configuration, with every parameter independent of the others, from the prior the user declared: numbers from a gaussian around the default, truncated to the bounds (on the log scale for log parameters, rounded for integers), with the width of the searcher's prior_confidence if it takes one, else of the parameter's; categoricals with the default 2, 4 or 6 times as likely as each other choice; parameters without default uniformly. With random_interleave_prob p, a share p is uniform, and searchers that use no priors sample uniformly whatever defaults are declared, before and after any history. An asynchronous Hyperband searcher starts a new configuration in bracket s with a probability proportional to eta^(K-s) (K+1)/(K-s+1).",
  ["inputs", "histories", "configurations"], "for all spaces, defaults, confidences and histories",
  "tests check no distribution",
  ["neps/search_spaces", "neps/sampling/priors.py", "neps/optimizers/multi_fidelity/successive_halving.py", "neps/optimizers/multi_fidelity/sampling_policy.py", "neps/optimizers/multi_fidelity/hyperband.py", "neps/optimizers/initial_design.py", "neps/optimizers/random_search/optimizer.py"],
  [("prior of numbers", "neps/search_spaces/hyperparameters/numerical.py: _get_truncnorm_prior_and_std"), ("confidence of the searcher", "neps/optimizers/multi_fidelity/successive_halving.py: _enhance_priors"), ("initial design", "neps/sampling/priors.py: Prior.from_parameters")],
  None, ["values of proposed configurations", "rungs of proposed configurations"])

pathlib.Path("/verif/properties.jsonl").write_text("".join(json.dumps(x) + "\n" for x in P))
