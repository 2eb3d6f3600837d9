# ruff: noqa
prop(
    "C01", "Workers never evaluate a configuration twice and never lose a result",
    "However many workers share a root directory and however their steps interleave, every sampled configuration is evaluated by at most one worker, and the result of every finished evaluation is stored, unaltered, with the configuration it belongs to. No two configurations share an id, and no worker fails merely because other workers are active. The evaluation limits given by the user are respected: with in-progress evaluations counted the total is overshot by no more than the workers that decided at the same moment, and every worker stops once the limit is reached.",
    ["schedules", "configurations"],
    "Every interleaving of the file-system operations of 2-4 workers, with 0-3 failing evaluations, all combinations of per-run and total limits, and workers that join an empty, new or existing directory.",
    "The existing tests run workers one after the other or two at most in a fixed order; races only appear at particular interleavings of file operations.",
    ["neps/runtime.py", "neps/state/neps_state.py", "neps/state/filebased.py", "neps/state/protocols.py"],
    [("claim by versioned write", "neps/runtime.py:DefaultWorker.run"), ("optimistic versioning under a file lock", "neps/state/protocols.py:VersionedResource"), ("trial repository", "neps/state/filebased.py:TrialRepoInDirectory")],
    "schedule fuzzing of real worker processes with a deterministic scheduler, history invariants as oracle",
    "Generated interleavings (random and priority based) of real forked worker processes at file-operation granularity; not exhaustive. Assumes a local file system with working flock.",
    state=[("trial state on disk", "pending, evaluating, success, crashed", "<root>/configs/config_*/")],
    observe=["calls of run_pipeline", "<root>/configs/config_*", "neps.status"],
)
prop(
    "C04", "A worker killed at any point never damages the run",
    "If workers are killed at arbitrary points, the root directory stays readable and later workers carry on from it without manual repair: they reach the requested number of completed evaluations, except for the configurations that were being evaluated at the kill. Results that were already reported stay unchanged, no configuration that was stored is lost, and a configuration is marked as completed only if its result is there.",
    ["crash_points", "histories"],
    "Every crash point between or inside the file-system writes of 1-3 workers, followed by further rounds of workers that may be killed again.",
    "The tests never kill a worker; crash points between two file operations are not reachable by calling functions that return.",
    ["neps/runtime.py", "neps/state/filebased.py", "neps/state/neps_state.py", "neps/utils/files.py"],
    [("write order of trial data, report, state and version", "neps/state/filebased.py:ReaderWriterTrial"), ("atomic file replacement", "neps/utils/files.py:atomic_write"), ("recovery on load", "neps/state/filebased.py:create_or_load_filebased_neps_state")],
    "fault injection fuzzing: kills at generated file-operation points of real worker processes, then recovery against a history model",
    "Kill points are drawn at random over all file operations incl. half-written files; process crashes, not power loss.",
    level="fault_enumeration",
    observe=["<root>/configs/config_*", "neps.run in a later process"],
)
prop(
    "C12", "Casts between numeric domains preserve order, bounds and values",
    "Mapping values between any two numeric domains (float or integer, linear or log, binned or not, the unit interval included) keeps them inside the target bounds, sends bounds to bounds, preserves order, and is undone by the inverse mapping up to rounding, exactly for integers. Casting single values, tensors, and several columns at once give the same results, and a value already in the target domain is unchanged.",
    ["inputs", "configurations"],
    "All pairs of domains (kind, scale, bounds, number of bins) and all values in them, including the end points, in scalar and tensor form.",
    "The tests cover a few fixed domains with a handful of values each.",
    ["neps/search_spaces/domain.py"],
    [("domain casts", "neps/search_spaces/domain.py:Domain.cast"), ("unit interval", "neps/search_spaces/domain.py:Domain.to_unit"), ("columnwise translation", "neps/search_spaces/domain.py:Domain.translate")],
    "property-based testing against an exact scalar reference of the casts, plus round trips and monotonicity",
    "Randomly generated domains and values; 64-bit tensors.",
)
prop(
    "C13", "Encoding configurations into tensors and back loses nothing",
    "Encoding any configurations of a search space and decoding the result gives back the same configurations: integers, categories and constants exactly, floats up to rounding and always within their bounds. Each row depends only on its own configuration and each column only on its own hyperparameter, and every point of the encoded box decodes to a configuration of the space.",
    ["inputs", "configurations"],
    "All search spaces of numeric, categorical and constant parameters, all lists of configurations of them in any order, and arbitrary points of the encoded box.",
    "The tests encode a few hand-written spaces.",
    ["neps/search_spaces/encoding.py", "neps/search_spaces/domain.py"],
    [("configuration encoder", "neps/search_spaces/encoding.py:ConfigEncoder"), ("transformers", "neps/search_spaces/encoding.py:MinMaxNormalizer")],
    "property-based round trip encode/decode with an independent per-column reference",
    "Randomly generated spaces and configurations; tolerance of float rounding only.",
)
prop(
    "C14", "Samplers and priors return values of the requested domains",
    "Every sampler returns a tensor of the requested shape and type whose columns lie in the requested domains, reproducibly for a given seed, and reaches the whole domain with the promised distribution. The log density of a prior is the sum of the densities of its columns, is independent of the domain in which points are given, and is highest at the centers the user gave, more so for higher confidence.",
    ["inputs", "configurations"],
    "All samplers, all lists of target domains, sample sizes, shapes, seeds, centers and confidences.",
    "The tests sample from fixed domains with one seed and check bounds only.",
    ["neps/sampling/samplers.py", "neps/sampling/priors.py", "neps/sampling/distributions.py"],
    [("samplers", "neps/sampling/samplers.py:Sampler"), ("priors", "neps/sampling/priors.py:CenteredPrior"), ("truncated normal", "neps/sampling/distributions.py:TruncatedStandardNormal")],
    "property-based testing with bounds, shape, seed and density oracles (scipy truncated normal as reference)",
    "Randomly generated domains; distribution checks are coarse (coverage of the range), densities are compared with a reference.",
)
prop(
    "C15", "Sampling, mutation and crossover stay in the space and leave inputs alone",
    "Sampling, mutating and recombining configurations always yields configurations of the same search space, with every parameter set to a legal value, constants unchanged and the fidelity treated as requested. A mutation differs from its parent, a crossover hands the categories of the two parents on to the two children and copies what it does not recombine, and neither operation alters the configurations or the space it was given. The normalized position of a value and the value at a normalized position are inverse to each other.",
    ["inputs", "histories"],
    "All search spaces, all parent configurations, all random seeds and sequences of the operations.",
    "The tests try single parameters with fixed seeds and do not look at the parents afterwards.",
    ["neps/search_spaces/search_space.py", "neps/search_spaces/hyperparameters/*.py"],
    [("sampling", "neps/search_spaces/search_space.py:SearchSpace.sample"), ("mutation", "neps/search_spaces/search_space.py:SearchSpace.mutate"), ("crossover", "neps/search_spaces/search_space.py:SearchSpace.crossover")],
    "property-based testing with a membership oracle, snapshots of the inputs and inverse relations",
    "Randomly generated spaces, seeds and operation sequences.",
)

prop(
    "C16", "Configurations survive storing and cloning, and illegal values are refused",
    "A configuration built from a dictionary has exactly the given values and, after writing it to a file and reading it back, is equal to the original in everything a user can see; unknown parameters and illegal values are refused without changing anything. Clones are independent of each other under any later updates of values, defaults and confidences. Two configurations are equal exactly if all their values are up to float rounding, and equality is symmetric.",
    ["inputs", "histories"],
    "All search spaces, configurations, illegal values, and sequences of updates of several clones of one configuration.",
    "The tests serialize and clone a few parameters once; independence of clones is a property of all later updates.",
    ["neps/search_spaces/search_space.py", "neps/search_spaces/parameter.py", "neps/search_spaces/hyperparameters/*.py"],
    [("from a dictionary", "neps/search_spaces/search_space.py:SearchSpace.from_dict"), ("serialization", "neps/search_spaces/search_space.py:SearchSpace.serialize"), ("clones", "neps/search_spaces/search_space.py:SearchSpace.clone"), ("comparison", "neps/search_spaces/search_space.py:SearchSpace.is_equal_value"), ("updates", "neps/search_spaces/search_space.py:SearchSpace.set_hyperparameters_from_dict")],
    "property-based round trips and stateful testing of clones against an explicit model of values, defaults and confidences",
    "Randomly generated spaces and histories of up to ten updates.",
)
prop(
    "C18", "The grid covers the space once, and grid search evaluates exactly the grid",
    "The grid of a search space is the full product of the requested number of evenly spaced values per numeric parameter (fewer if an integer range has fewer) and all categories, contains no configuration twice, includes the bounds, and all its members are legal. Grid search proposes each of these configurations exactly once, however often it is restarted, and then stops with an error that says so.",
    ["inputs", "histories"],
    "All search spaces, grid sizes, and numbers of evaluations before each restart.",
    "The tests build the grid of one space of each kind.",
    ["neps/search_spaces/search_space.py", "neps/optimizers/grid_search/optimizer.py"],
    [("grid", "neps/search_spaces/search_space.py:SearchSpace.get_search_space_grid"), ("grid search", "neps/optimizers/grid_search/optimizer.py:GridSearch")],
    "property-based testing against an independent enumeration of the grid",
    "Randomly generated spaces with grids of up to a few hundred points.",
)
prop(
    "C02", "The shared store refuses stale writes and shows every accepted one",
    "Several workers that hold handles on the same directory see, whenever they synchronize, exactly the accepted writes in order. A write from a worker that has not seen the latest version is refused with a version mismatch and changes nothing, as does creating what exists, an optimizer that fails or proposes a used id, or an operation on a locked resource. A sampled trial, a report, its cost in the budget and its error appear completely for every other worker, and pending trials are handed out in the order in which they were sampled.",
    ["histories", "schedules"],
    "All histories of operations of two or three handles on each kind of shared resource and on the whole state, with stale and fresh views.",
    "The tests exercise one writer and one reader with fixed data.",
    ["neps/state/protocols.py", "neps/state/filebased.py", "neps/state/neps_state.py"],
    [("versioned resources", "neps/state/protocols.py:VersionedResource"), ("locked access", "neps/state/protocols.py:Synced"), ("trial repository", "neps/state/filebased.py:TrialRepoInDirectory"), ("shared state", "neps/state/neps_state.py:NePSState")],
    "stateful model-based testing: generated histories of several handles against a model with version counters",
    "Histories of up to 22 operations of three handles; operations do not overlap in time here (C01 covers that).",
    observe=["Synced.synced/put/acquire", "NePSState.get_all_trials, get_errors, optimizer_state"],
)
prop(
    "C03", "What is stored in the run directory is what later processes read back",
    "Trials with their configuration, metadata, state and report, the list of errors, the optimizer's state and info, and the random state are read back by any later process exactly as they were written, whatever strings, numbers (infinite and not-a-number included), arrays, tensors, nested containers or exceptions they contain; arrays become lists and exceptions keep their message. A value that cannot be stored raises a TypeError and leaves what was stored before unchanged. Restoring the stored random state continues the random sequences of python, numpy and torch exactly where they were.",
    ["inputs", "histories"],
    "All contents of the stored records and all sequences of overwriting them.",
    "The tests write a few fixed records; the values users return are arbitrary.",
    ["neps/state/filebased.py", "neps/utils/files.py", "neps/state/seed_snapshot.py", "neps/state/err_dump.py"],
    [("yaml files", "neps/utils/files.py:serialize"), ("trial files", "neps/state/filebased.py:ReaderWriterTrial"), ("error list", "neps/state/filebased.py:ReaderWriterErrDump"), ("random state", "neps/state/filebased.py:ReaderWriterSeedSnapshot")],
    "property-based round trips with generated contents and an independent conversion to plain values",
    "Generated values of bounded size; strings without lone surrogates; no bytes, sets or objects of other classes.",
)
prop(
    "C05", "A run that is stopped and continued evaluates what it would have without stop",
    "Splitting a run into several calls, with whatever random state the continuing processes start with, whatever random numbers the evaluated function draws itself and whatever errors it raises, evaluates the same configurations under the same ids and in the same order as one uninterrupted run. Continuing neither changes the files of finished trials nor evaluates any of them again, and the total number of evaluations is exactly the requested one. This holds for random search and the (asynchronous) successive halving, hyperband and priorband families with one worker.",
    ["histories", "inputs"],
    "All search spaces, searchers of these families, points at which the run is stopped and ways to limit each call.",
    "The tests never continue a run and compare it with the uninterrupted one.",
    ["neps/state/neps_state.py", "neps/state/seed_snapshot.py", "neps/runtime.py", "neps/optimizers/**/*.py"],
    [("sampling with the stored state", "neps/state/neps_state.py:NePSState.sample_trial"), ("random state", "neps/state/seed_snapshot.py:SeedSnapshot"), ("worker loop", "neps/runtime.py:DefaultWorker.run")],
    "property-based differential testing: the interrupted run against the uninterrupted one",
    "Up to 22 evaluations and five parts; optimizers that fit a model are excluded except for the known finding on the initial design of bayesian optimization.",
)
prop(
    "C20", "Multi-fidelity searchers promote the best configurations, and only those",
    "Synchronous successive halving and hyperband promote from a rung of a bracket only once all its evaluations are done, then exactly its best 1/eta, each once, in the oldest bracket that has something to promote and at the highest possible rung; the asynchronous variants promote as soon as at least eta finished configurations wait in a rung, always one of the best waiting 1/eta of the highest such rung. If nothing can be promoted, they propose a new configuration on the bracket's lowest rung instead of blocking. A promotion keeps all other values, gets the fidelity of the next rung and refers to the trial it continues; failed evaluations and losses of nan count as the worst, or as the loss given for errors.",
    ["histories", "schedules", "inputs"],
    "All histories of proposals and results of several parallel workers, in any order of completion, with ties, infinite losses, failures and restarts of the searcher, for all nine searchers of the successive halving family.",
    "The tests only build these searchers; the decisions depend on the history.",
    ["neps/optimizers/multi_fidelity/*.py", "neps/optimizers/multi_fidelity_prior/*.py"],
    [("observations", "neps/optimizers/multi_fidelity/successive_halving.py:SuccessiveHalvingBase.ask"), ("brackets", "neps/optimizers/multi_fidelity/successive_halving.py:SuccessiveHalving.clear_old_brackets"), ("hyperband", "neps/optimizers/multi_fidelity/hyperband.py:Hyperband.clear_old_brackets"), ("promotions", "neps/optimizers/multi_fidelity/promotion_policy.py:SyncPromotionPolicy.retrieve_promotions, AsyncPromotionPolicy.retrieve_promotions")],
    "stateful model-based testing: generated parallel histories against a reference model of the schedules",
    "Histories of up to 160 steps, up to 15 workers, up to four rungs, eta 2 to 4.",
)
prop(
    "C21", "Rungs and brackets are determined by the fidelity bounds and eta",
    "The highest rung is exactly the maximal fidelity, every rung below is eta times cheaper (rounded down for integers), no rung is below the minimal fidelity, and there are as many rungs as fit between the bounds. Bracket s of hyperband starts on rung s with floor((K+1)/(K-s+1)) * eta^(K-s) configurations, where K is the highest rung, keeps 1/eta of them on each further rung, and the brackets follow each other in cycles; successive halving repeats bracket 0. All searchers of the family agree on this for all bounds.",
    ["inputs", "histories"],
    "All integer and float bounds, exact powers of eta and their neighbours included, and all eta; whole cycles of brackets.",
    "The tests use one range; numbers of rungs are computed with logarithms that are only nearly exact.",
    ["neps/optimizers/multi_fidelity/successive_halving.py", "neps/optimizers/multi_fidelity/hyperband.py"],
    [("rungs", "neps/optimizers/multi_fidelity/successive_halving.py:SuccessiveHalvingBase._get_rung_map"), ("sizes", "neps/optimizers/multi_fidelity/successive_halving.py:SuccessiveHalvingBase._get_config_map"), ("cycle of brackets", "neps/optimizers/multi_fidelity/hyperband.py:HyperbandBase")],
    "property-based testing of the proposals against a schedule computed with exact arithmetic",
    "Up to eleven rungs for single rungs, up to five for whole cycles.",
)
prop(
    "C19", "Whatever the history, every searcher proposes a complete, legal configuration",
    "For every history of finished, failed and pending evaluations, in any number and with any losses (infinite, not-a-number and missing ones included), every searcher answers with a configuration that has exactly the parameters of the space with values inside their bounds, under an id not used before, and refers to a known trial if it continues one. Asking changes none of the trials, and two searchers asked with the same seed and history, in whatever order the trials are read, propose the same. The initial design of bayesian optimization covers the space without duplicates, in its sampling order, and starts with the defaults if that is requested.",
    ["inputs", "histories"],
    "All spaces, all searchers except the one that needs a download, their options, and all histories of results, failures and pending trials.",
    "The tests run a searcher for a few steps on one space with a smooth objective.",
    ["neps/optimizers/**/*.py"],
    [("random search", "neps/optimizers/random_search/optimizer.py:RandomSearch"), ("bayesian optimization", "neps/optimizers/bayesian_optimization/optimizer.py:BayesianOptimization.ask"), ("initial design", "neps/optimizers/initial_design.py:make_initial_design"), ("sampling around the incumbent", "neps/optimizers/multi_fidelity/sampling_policy.py:EnsemblePolicy"), ("multi-fidelity model", "neps/optimizers/multi_fidelity/sampling_policy.py:ModelPolicy")],
    "property-based testing: generated spaces, options and histories; legality oracle and comparison of two searchers",
    "Histories of up to 70 steps for searchers without model and 20 with one; at most 30 combinations of categories for models (documented limit); ifbo is not covered.",
)
prop(
    "C06", "Workers stop exactly when a limit is reached",
    "A worker starts a new evaluation if and only if none of the limits given to it is reached at that moment: evaluations in total (running ones counted or not, as requested), evaluations of this worker or call, total cost and cost of this worker, time spent in evaluations in total and by this worker, and wallclock time. Failed evaluations count, with the cost given for errors; pending trials of others are evaluated first, in the order in which they were sampled. Whatever was done before by this or other workers is taken into account.",
    ["histories", "inputs"],
    "All combinations of limits and all histories of workers, running and pending trials, successes, failures, costs and durations.",
    "The tests check single limits on fresh runs; off-by-one errors and interactions need particular histories.",
    ["neps/runtime.py", "neps/state/settings.py", "neps/api.py"],
    [("stopping", "neps/runtime.py:DefaultWorker._check_if_should_stop"), ("what neps.run passes on", "neps/runtime.py:_launch_runtime"), ("order of pending trials", "neps/state/filebased.py:TrialRepoInDirectory.pending")],
    "stateful model-based testing: generated histories of workers, replayed in a model of all limits",
    "Up to eight steps and 14 evaluations per worker, workers one after the other; time limits are judged with the recorded durations.",
)
prop(
    "C07", "Errors of evaluations are logged and raise, stop or are ignored as requested",
    "An exception in an evaluation marks its trial as crashed, with the exception, its traceback and the loss, cost and learning curve given for errors, and adds exactly one entry with trial, worker, type and message to the error log that all workers see. The worker then raises from this exception, stops silently or carries on exactly as its policy says, for its own errors or those of any worker; neps.run ignores errors if asked to or if both a loss and a cost for errors are given, and otherwise raises. Interruptions are never swallowed and leave the process able to run again.",
    ["histories", "inputs"],
    "All histories of failing and successful evaluations of several workers under all policies, with all kinds of exceptions.",
    "The tests raise one kind of error under each policy on a fresh run.",
    ["neps/runtime.py", "neps/state/_eval.py", "neps/state/neps_state.py", "neps/state/err_dump.py"],
    [("policies", "neps/runtime.py:DefaultWorker._check_if_should_stop"), ("failed evaluations", "neps/state/_eval.py:_eval_trial"), ("error log", "neps/state/neps_state.py:NePSState.report_trial_evaluation")],
    "stateful model-based testing: generated histories of workers and failures against a model of the policies and the log",
    "Up to eight steps and 14 evaluations per worker, workers one after the other.",
)
prop(
    "C08", "The result an evaluation returns is what is stored and shown",
    "Whatever number (python, numpy or torch) or mapping with a loss an evaluation returns, the stored report and the status contain exactly this loss, cost, learning curve (also if given inside info_dict; the loss alone if none is given) and all further values, next to exactly the configuration the function was called with and consistent times. The objects the function returned are not changed, even if it returns the same object again. A result without a proper loss, cost or learning curve is refused with an error and never stored as a success.",
    ["inputs"],
    "All results: number types, mappings, arrays, nested values, missing and additional keys, infinite and not-a-number values.",
    "The tests return a few plain dictionaries.",
    ["neps/state/_eval.py", "neps/state/trial.py", "neps/status/status.py"],
    [("parsing of results", "neps/state/_eval.py:parse_user_result"), ("report", "neps/state/trial.py:Trial.set_complete"), ("status", "neps/state/trial.py:Report.to_deprecate_result_dict")],
    "property-based testing: generated results through neps.run, compared with an independent reading of them",
    "Up to five evaluations with results of bounded size.",
)
prop(
    "C09", "A run touches only its own directory and continues only its own searcher",
    "A run works in <root>[/task_<id>][/dev_<id>] and leaves every other directory, including runs nested inside its root and the user's own files, unchanged. With overwriting it starts from an empty directory; without it continues the trials that are there, if the searcher and its arguments are the same as before, however they are given, and otherwise is refused without changing anything. The arguments given to neps.run are not changed.",
    ["histories", "configurations"],
    "All sequences of runs in overlapping roots, tasks and stages, with equal and different searchers given by name, dictionary, file or instance.",
    "The tests make one run per directory.",
    ["neps/api.py", "neps/runtime.py", "neps/state/filebased.py"],
    [("directories", "neps/api.py:run"), ("overwriting", "neps/runtime.py:_launch_runtime"), ("comparison of the searcher", "neps/state/filebased.py:create_or_load_filebased_neps_state")],
    "stateful property-based testing: generated sequences of runs against a model of directories, with hashes of all files",
    "Up to seven runs of at most three evaluations; searchers without a model.",
)
prop(
    "C10", "The status and the summary files show exactly what is in the run directory",
    "The summary, the printed status and the csv files count finished, failed, running and pending configurations correctly, list each configuration once with its values, loss, cost and further results, and name as best the successful configuration with the lowest loss. Failed configurations are shown as such and are never the best, losses of infinity and not-a-number neither; the trajectories list the improvements in the order in which evaluations ended. Reading changes nothing, and creating the files again replaces them.",
    ["histories", "inputs"],
    "All sets of trials in all states, with ties, negative, infinite and missing losses and unusual strings.",
    "The tests look at the status of successful runs with plain values.",
    ["neps/status/status.py", "neps/utils/types.py"],
    [("summary", "neps/status/status.py:get_summary_dict"), ("printed status", "neps/status/status.py:status"), ("csv files", "neps/status/status.py:post_run_csv")],
    "property-based testing: generated run directories, summary, printed text and csv files against an independent model",
    "Up to seven trials; at most a few parameters.",
)
prop(
    "C11", "Every trial has its own directory, and a continued one finds what it continues",
    "During an evaluation the current trial, its existing directory <root>/configs/config_<id>, the directory of the trial it continues and the directory of the first trial of its lineage are exactly those of this trial in this run, also if one process works on several runs; the directories are passed exactly to functions that ask for them. Loading a checkpoint gives what the continued trial saved, with model and optimizer restored, and nothing if nothing is continued or saved. What evaluations write into their directories is kept.",
    ["histories"],
    "All multi-fidelity searchers and all sequences of runs in several roots within one process.",
    "The tests do not continue trials and use one root per process.",
    ["neps/utils/common.py", "neps/state/neps_state.py", "neps/state/_eval.py", "neps/runtime.py"],
    [("directories", "neps/state/_eval.py:evaluate_trial"), ("lineage", "neps/state/neps_state.py:NePSState.sample_trial"), ("initial directory", "neps/utils/common.py:get_initial_directory"), ("checkpoints", "neps/utils/common.py:load_checkpoint, save_checkpoint")],
    "stateful property-based testing: generated sequences of runs in several roots, each evaluation checks its directories against a model",
    "Up to four runs of nine evaluations in two roots; one worker at a time; absolute root directories.",
)
prop(
    "C17", "A space written in YAML or as ConfigSpace is the space written in Python",
    "A pipeline space given as a YAML file or dictionary, as a ConfigSpace, or as a mixture, is the space whose parameters one would construct in Python: the same names, kinds, bounds, scales, categories, fidelity flags, defaults and confidences, with numbers in every decimal or scientific notation, and it yields the same configurations; the views of a space (parameters by kind, names, fidelities, categories) partition it. A description with a mistake (unknown keys, missing or inconsistent bounds, defaults outside the range, unknown types, conditions or forbidden clauses) is refused instead of being read as another space.",
    ["inputs"],
    "All supported spaces, each in many spellings, and files with one mistake of each of 22 kinds.",
    "The tests read a dozen fixed files; no test reads a ConfigSpace, and a notation or combination of keys that they do not contain is not covered.",
    ["neps/search_spaces/yaml_search_space_utils.py", "neps/search_spaces/search_space.py", "neps/api.py"],
    [("yaml", "neps/search_spaces/search_space.py:pipeline_space_from_yaml"), ("ConfigSpace", "neps/search_spaces/search_space.py:pipeline_space_from_configspace"), ("mixture", "neps/api.py:_search_space")],
    "property-based testing: a generated space is written down in a generated notation and read back; differential against the Python parameters and against ConfigSpace's own legality check",
    "Architecture parameters, quantized or non-uniform ConfigSpace hyperparameters, and ranges that mix an integer and a decimal bound without a type are out of scope.",
)
prop(
    "C22", "A run_args file and function arguments describe the same run, arguments win",
    "What neps.run does depends only on the value in force of each argument: the one passed to the function if there is one (even None), else the one in the run_args file however it is nested, else the default, with searcher arguments merged the same way. The pipeline, space, searcher and hooks may be named by path in the file, and the trials, results, directories and searcher settings are those of the run with the same values passed as arguments. A file with an unknown key, a value of the wrong type, a missing essential argument or an object that cannot be loaded is refused before anything is evaluated or written.",
    ["inputs", "configurations"],
    "All assignments of 16 arguments to function, file, both or neither, nested groupings, searchers by name, settings, file or class, fresh and existing directories.",
    "The tests cover a handful of fixed files and check the parsed settings, not the runs; overriding, nesting and merging are combinatorial.",
    ["neps/utils/run_args.py", "neps/api.py", "neps/utils/common.py"],
    [("merge", "neps/utils/run_args.py:Settings"), ("file", "neps/utils/run_args.py:get_run_args_from_yaml"), ("run", "neps/api.py:run")],
    "differential property-based testing: the run with the file against the run with the values in force as function arguments, plus fault injection into the file",
    "A file that names a searcher class with arguments while the function names another searcher is out of scope (the arguments are merged, as documented).",
)
prop(
    "C25", "A failed evaluation counts as its substitute values or as the worst result",
    "If loss_value_on_error and cost_value_on_error are given, every searcher goes on after a failed evaluation exactly as after one that returned these values, whatever the order of failures and successes, and the cost counts for the budget. If errors are ignored without substitutes, a failed evaluation is never preferred to a successful one: searchers with rungs treat it as the worst result and models are not fitted to it. Failures never keep a searcher from proposing further configurations, and the stored report keeps the failure itself.",
    ["histories", "configurations"],
    "All searchers, spaces and histories in which any subset of the evaluations fails, with and without substitutes, including losses that are infinite or tied.",
    "The tests let no evaluation fail before a searcher proposes again; the effect depends on which evaluations of a history fail.",
    ["neps/optimizers/base_optimizer.py", "neps/optimizers/multi_fidelity/successive_halving.py", "neps/optimizers/bayesian_optimization/optimizer.py", "neps/runtime.py", "neps/state/trial.py"],
    [("loss and cost of a report", "neps/optimizers/base_optimizer.py:BaseOptimizer.get_loss, get_cost"), ("rungs", "neps/optimizers/multi_fidelity/successive_halving.py:SuccessiveHalvingBase._load_previous_observations"), ("model", "neps/optimizers/bayesian_optimization/optimizer.py:BayesianOptimization.ask")],
    "differential property-based testing: two searchers with equal seeds, one sees failures and the other evaluations with the substitute values; plus whole runs with failing evaluations",
    "One worker at a time per searcher; histories of at most a few dozen evaluations, shorter for searchers with a model.",
)
prop(
    "C24", "A default with a confidence is a distribution that searchers with priors follow",
    "The default of a parameter and its confidence define a density: a normal distribution around the default on the parameter's scale (logarithmic or not), cut off at the bounds and narrower the higher the confidence, or a higher weight of the default category; sampling with priors and the density of a configuration both follow it, also after the default or confidence was changed, and sampling without priors is uniform. Searchers that use priors draw new configurations from the prior in the documented proportion, and those around the incumbent from its neighbourhood, and propose the default first, once and at the requested fidelity, exactly if they are told to. The acquisition of a Bayesian searcher with priors is the original one times the density to the power of the exponent (plus, if it is logarithmic).",
    ["inputs", "configurations"],
    "All spaces with any subset of parameters with priors, all eight searchers with priors and their settings.",
    "The tests never look at a distribution of samples, and check the searchers with priors on one space each.",
    ["neps/search_spaces/hyperparameters/numerical.py", "neps/search_spaces/hyperparameters/float.py", "neps/search_spaces/hyperparameters/integer.py", "neps/search_spaces/hyperparameters/categorical.py", "neps/sampling/priors.py", "neps/optimizers/multi_fidelity/sampling_policy.py", "neps/optimizers/multi_fidelity_prior/priorband.py", "neps/optimizers/bayesian_optimization/acquisition_functions/pibo.py"],
    [("density and samples", "neps/search_spaces/hyperparameters/numerical.py:NumericalParameter.compute_prior"), ("proportions", "neps/optimizers/multi_fidelity/sampling_policy.py:EnsemblePolicy"), ("default first", "neps/optimizers/multi_fidelity/successive_halving.py:SuccessiveHalvingBase.get_config_and_ids"), ("acquisition", "neps/optimizers/bayesian_optimization/acquisition_functions/pibo.py:pibo_acquisition")],
    "property-based testing: densities against closed forms, and moments of generated samples against the specified distribution with a bound on the probability of a false alarm",
    "Means of positions and of distances from the default over 250 to 2000 samples with a tolerance; small changes of a distribution are not seen.",
)
prop(
    "C26", "The command line does and shows what the same calls in Python do",
    "neps run with options and searcher arguments evaluates, stores and summarises exactly what neps.run does with the same arguments, options overriding the file given with --run-args. The commands info-config, errors, status and results show, for every run directory and for trials in every state, what is stored in it (configurations, states, times, workers, losses, costs, errors, counts, the best trial, the improvements among successful trials), and neither change it nor fail; unknown trials and directories are reported. neps init writes a template that runs once its blanks are filled, and never overwrites a file.",
    ["inputs", "configurations"],
    "All directories with trials in any state and all combinations of options.",
    "The tests check only that templates are written, and not the commands on anything but a finished run.",
    ["neps/utils/cli.py", "neps/status/status.py"],
    [("run", "neps/utils/cli.py:run_optimization"), ("inspection", "neps/utils/cli.py:status, results, info_config, load_neps_errors"), ("templates", "neps/utils/cli.py:init_config")],
    "differential property-based testing: neps run against neps.run; generated run directories and the printed text against a model; templates filled in with generated values and run",
    "The text is read by labels and columns; commands are called in the process of the check; sample-config is not implemented.",
)
prop(
    "C27", "What an evaluation logs for TensorBoard is found exactly with its configuration",
    "Everything that evaluations log with tblogger (scalars, hyperparameters, images with the requested selection) is found in the event files of their configuration, or of the first one of its lineage, under one name per curve, with every value and step, in order, and nothing else is there: not after failures, interruptions, further runs in the same process, in other or in deleted directories, or while logging is disabled. The incumbent trajectory of a run consists of the number of finished evaluations and the lowest loss among them, with a point for every evaluation that asks for one. Logging does not change the random numbers of the evaluation.",
    ["histories", "inputs"],
    "All sequences of logs, evaluations and runs in several root directories.",
    "No test uses the logger.",
    ["neps/plot/tensorboard_eval.py", "neps/runtime.py", "neps/utils/common.py"],
    [("logging", "neps/plot/tensorboard_eval.py:tblogger.log"), ("writers", "neps/plot/tensorboard_eval.py:tblogger._initialize_writers, end_of_config"), ("trajectory", "neps/plot/tensorboard_eval.py:tblogger._tracking_incumbent_api"), ("end of a trial", "neps/runtime.py:_set_global_trial")],
    "stateful property-based testing: generated runs whose evaluations log generated data, event files read with TensorBoard's loader against a model",
    "One worker at a time; logging starts with the first evaluation of a configuration; values in single precision.",
)
prop(
    "C28", "The plots of a run show the losses that were evaluated",
    "neps.plot writes one figure to the root directory in which, for every benchmark and algorithm, the line at each evaluation (or at the given cost, fidelity scaled to its maximum, and without what a continued configuration had used before) is the lowest loss up to then, averaged over the runs with the standard error as a band; a shorter run keeps its last value, failed and unfinished evaluations do not improve the incumbent and do not prevent the plot. Plotter3D joins the evaluations of every configuration by its steps and losses. The options are followed, and nothing else in the directory changes.",
    ["histories", "configurations"],
    "All run directories with at least one successful evaluation, up to five benchmarks, two algorithms and three seeds each, all options.",
    "The tests only check that a plot of one fixed run is created.",
    ["neps/plot/plot.py", "neps/plot/plotting.py", "neps/plot/read_results.py", "neps/plot/plot3D.py"],
    [("curve", "neps/plot/plotting.py:_plot_incumbent"), ("incumbents", "neps/plot/read_results.py:process_seed"), ("landscape", "neps/plot/plot3D.py:Plotter3D.plot3D")],
    "property-based testing: the data of the lines in the saved figures against a model of the incumbent",
    "Averaged runs have the same costs on the horizontal axis; with a range on the axis the value drawn at its ends may be that of the next evaluation.",
)
prop(
    "C29", "Searchers with a model propose what the finished evaluations suggest",
    "A model-based searcher fits its model to exactly the finished evaluations (those without a usable loss as the median of the others), at the fidelities at which they were made, independent of their order and of the order of parameters and categories, and uses it once there are enough of them. What it proposes then maximises its acquisition over the whole space including all categories: it is clearly better than random configurations when the losses follow a smooth function, keeps away from evaluations that are still running, and with use_cost prefers what costs less, by the acquisition per cost to the power of the share of the budget that is left. Missing or zero costs and losses without a number do not break it.",
    ["histories", "configurations"],
    "All spaces of up to four parameters, histories of losses and costs, the four searchers with a Gaussian process and both ways of modelling fidelities.",
    "The tests only check that bayesian optimization proposes something; whether a model learns is invisible in a run that ends.",
    ["neps/optimizers/bayesian_optimization/optimizer.py", "neps/optimizers/bayesian_optimization/models/gp.py", "neps/optimizers/bayesian_optimization/acquisition_functions/cost_cooling.py", "neps/optimizers/bayesian_optimization/acquisition_functions/weighted_acquisition.py", "neps/optimizers/multi_fidelity/mf_bo.py", "neps/optimizers/multi_fidelity/sampling_policy.py"],
    [("data", "neps/optimizers/bayesian_optimization/models/gp.py:encode_trials_for_gp"), ("maximum", "neps/optimizers/bayesian_optimization/models/gp.py:optimize_acq"), ("costs", "neps/optimizers/bayesian_optimization/acquisition_functions/cost_cooling.py:cost_cooled_acq"), ("fidelities", "neps/optimizers/multi_fidelity/mf_bo.py:MFBOBase._fit_models"), ("sampling", "neps/optimizers/multi_fidelity/sampling_policy.py:ModelPolicy")],
    "property-based testing: training data against a model of the history (recorded by a stand-in for the model), metamorphic relations of the posterior, analytic acquisitions with a known maximum, and the rank of proposals among random configurations",
    "Quality is judged coarsely, with thresholds far from what was measured on hundreds of seeds; spaces of at most four parameters.",
)
prop(
    "C30", "ifBO continues paused configurations one step at a time, or starts new ones",
    "ifBO proposes either a new configuration with the next free number at the lowest fidelity (adjusted so that steps end at the highest), or the next step of a configuration that has finished its previous step and is not running, otherwise unchanged, with the fidelity one step_size higher and never above the highest. After the initial design the model is told all evaluations (score 1 - loss, failures as the worst, running ones as predicted, budgets relative to the highest fidelity), and what it considers best among all paused and many new configurations is proposed. Losses outside [0, 1], whatever else is running, and steps or fidelities that do not fit are refused instead of giving wrong results.",
    ["histories", "configurations"],
    "All spaces with a linear fidelity and step sizes, histories with several workers, failures and restarted searchers.",
    "ifBO downloads its network, so that no test can run it at all; rounding of fractional steps, single configurations and running evaluations depend on the history.",
    ["neps/optimizers/multi_fidelity/ifbo.py", "neps/optimizers/bayesian_optimization/models/ftpfn.py"],
    [("proposal", "neps/optimizers/multi_fidelity/ifbo.py:IFBO.ask"), ("steps", "neps/optimizers/multi_fidelity/ifbo.py:_adjust_pipeline_space_to_match_stepsize"), ("data", "neps/optimizers/bayesian_optimization/models/ftpfn.py:encode_ftpfn"), ("choice", "neps/optimizers/bayesian_optimization/models/ftpfn.py:acquire_next_from_ftpfn")],
    "stateful property-based testing: histories of ifBO with a recording stand-in for the pretrained network that predicts generated values, against a model of the candidates, the data and the best choice",
    "The pretrained network is replaced by a stand-in at the interface of the ifbo package; sample_default_at_target is not covered.",
)
