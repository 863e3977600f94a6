"""Writes /verif/properties.jsonl (single source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if observe:
        d["anchors"]["observe_at"] = [observe]
    P.append(d)

p("C01", "MLMC mean and variance estimate is the telescoping sample-mean estimator",
  "For every set of stored sample pairs, the estimated mean of a quantity is the sum over levels of the sample mean of (fine - coarse), where level 0 uses the fine values only; the reported level variances are the unbiased sample variances of those differences and the reported estimator variance is the sum over levels of level variance divided by the number of used samples. "
  "A sample with a NaN in any component of its fine or coarse part is left out of all of these, for all components at once. "
  "The reported counts of used and removed samples per level are exactly the samples without and with NaN, and a level with exactly one used sample reports an infinite variance.",
  ["inputs", "configurations"],
  "for all real sample values, all NaN patterns, all numbers of levels and samples per level (within the stated bounds) and every way the samples are laid out in chunks",
  "tests run one synthetic simulation and compare with loose statistical tolerances; a wrong denominator, a one-sided NaN mask or a wrong level index stays within their tolerance",
  ["mlmc/quantity/quantity_estimate.py", "mlmc/quantity/quantity.py"],
  [("mean/variance accumulation", "estimate_mean"), ("NaN masking", "mask_nan_samples"), ("combination over levels", "QuantityMean")],
  "returned mean/var/l_means/l_vars/n_samples/n_rm_samples")

p("C02", "Estimates do not depend on batching, chunking or storage backend",
  "The samples seen by the estimation layer, and hence every mean, variance and sample count, are the same whether the same sample pairs were stored in one batch or many, in the memory or in the file backend, before or after the file is reopened, and for every chunk length the file backend chooses to read with. "
  "The chunks of a level partition its collected samples in order: none is missing, repeated or shared between levels.",
  ["inputs", "configurations", "histories"],
  "for all sample values, all splits of the samples into save batches, all chunk lengths and both backends within the bounds",
  "with test-sized data every level fits into a single chunk, so multi-chunk reading is never exercised",
  ["mlmc/tool/hdf5.py", "mlmc/sample_storage.py", "mlmc/sample_storage_hdf.py", "mlmc/quantity/quantity_estimate.py"],
  [("chunk generators", "SampleStorage.chunks / LevelGroup.chunks / Memory._level_chunks"), ("chunk reads", "sample_pairs_level"), ("appending", "LevelGroup._append_dataset")],
  "estimate_mean results and chunk reads on both backends")

p("C03", "Sample storage returns what was stored and its accounting matches the history",
  "After any sequence of scheduling and saving successful and failed samples, both storage backends return for every level exactly the saved result pairs in the order they were saved, component for component, and the scheduled ids in order. "
  "The number of collected samples per level equals the number of saved successful samples and the number of finished samples per level equals saved successful plus failed samples, also for levels that have only failed samples or none yet. "
  "For the file backend the unfinished ids are exactly the scheduled ids without a saved success or failure, the failed ids are the saved ones, and all of this is unchanged by closing and reopening the file.",
  ["histories", "inputs"],
  "for all sequences of storage calls (bounded length, number of levels and batch sizes) with arbitrary result values",
  "tests store one fixed batch with both a success and a failure on every level",
  ["mlmc/sample_storage.py", "mlmc/sample_storage_hdf.py", "mlmc/tool/hdf5.py"],
  [("memory backend", "Memory"), ("file backend", "SampleStorageHDF"), ("datasets of one level", "LevelGroup")],
  "public storage API: sample_pairs, n_finished, get_n_collected, unfinished_ids, failed_samples, load_scheduled_samples")

p("C04", "Scheduling submits exactly the missing samples under unique, recorded ids",
  "After any sequence of target changes, scheduling calls and restarts on the same storage, the samples submitted to the pool on each level number exactly the largest target for which scheduling was called (never fewer, never more), and targets set through the adding interface never decrease. "
  "No sample id is ever submitted twice or belongs to two levels, ids on a level are numbered consecutively from 0, and every submitted id is recorded as scheduled on its level in the storage. "
  "Each sample is submitted with the simulation object of its own level.",
  ["histories", "configurations"],
  "for all sequences of target changes and scheduling calls including a restart from an existing storage, within bounded counts and levels",
  "tests schedule once from scratch with one fixed target vector",
  ["mlmc/sampler.py"],
  [("scheduling loop", "Sampler.schedule_samples"), ("id generation", "Sampler._get_sample_tag"), ("target setting", "Sampler.set_level_target_n_samples / set_initial_n_samples"), ("restart", "Sampler.__init__")],
  "calls received by the sampling pool and the storage")

p("C05", "Adaptive adding of samples is monotone, bounded and makes progress",
  "For every current number of scheduled samples and every estimated requirement, one adding step never lowers the scheduled count of any level, never raises it above the larger of the current count and the requirement, and strictly raises it on every level where the requirement exceeds it. "
  "On a level whose remaining gap is smaller than the adding fraction of the requirement the step schedules exactly the requirement; otherwise it adds that fraction of the gap rounded up. "
  "The step reports completion exactly when no level's scheduled count is still below its requirement after the step.",
  ["inputs", "histories"],
  "for all scheduled counts, estimates and adding fractions in the stated ranges, any number of levels within the bound",
  "tests run a single numeric trajectory and compare final counts with 10% tolerance",
  ["mlmc/sampler.py"],
  [("new target computation", "Sampler.process_adding_samples"), ("waiting", "Sampler.set_scheduled_and_wait")],
  "scheduled counts before and after the call, return value")

p("C06", "Local pools report every scheduled sample exactly once, under every interleaving",
  "For every interleaving of result arrivals with polling in the in-process, multi-process and thread pools, every scheduled sample is reported exactly once over all polls, with its own id, on its own level, either as successful with its own result pair or as failed with an error message. "
  "The reported number of running samples equals the scheduled samples not yet reported, so it reaches zero exactly when everything was reported and polling terminates. "
  "A failing simulation, result check, preparation of the sample workspace or worker call makes that sample reported as failed and affects no other sample.",
  ["schedules", "fault_sequences"],
  "for all arrival points of worker results relative to the polling thread (bounded number of samples) and all success/failure patterns",
  "tests rely on whatever interleaving the machine produces; the window between reading and clearing a queue is a few bytecodes wide",
  ["mlmc/sampling_pool.py"],
  [("result intake", "OneProcessPool._process_result / ProcessPool.res_callback"), ("draining", "OneProcessPool._queues_to_list"), ("worker", "SamplingPool.calculate_sample")],
  "get_finished() results")

p("C07", "PBS pool reports every sample of every job exactly once despite queue faults",
  "For every outcome of the queue commands (submission failing a tolerated number of times, status queries failing, jobs queued, running, finished or killed half way) every scheduled sample is submitted in exactly one accepted job and is reported exactly once, with its own result, or as failed if its job ended without a result for it. "
  "Samples of jobs that have not ended are counted as running at every poll, so the number of running samples is zero only when every accepted job has been collected, and polling does not change the working directory of the process. "
  "A sample computed through a job gives the same result as the same sample computed in process.",
  ["fault_sequences", "schedules", "crash_points"],
  "for all outcomes of queue commands and all points at which a job dies, within bounded numbers of samples, jobs and polls",
  "PBS tests are excluded from the suite: no queue system is available to them",
  ["mlmc/sampling_pool_pbs.py", "mlmc/tool/pbs_job.py"],
  [("packing and submission", "SamplingPoolPBS.schedule_sample / execute"), ("status parsing", "SamplingPoolPBS._qstat_pbs_job"), ("collection", "SamplingPoolPBS._get_result_files / PbsJob.read_results"), ("job body", "PbsJob.calculate_samples")],
  "get_finished() results, qsub/qstat calls")

p("C08", "After a crash of the main process finished PBS samples are recovered, none twice",
  "When the main process dies at any point after the sampler was constructed and a new pool and sampler are created on the same storage and the kept work directory, every sample that was scheduled and recorded but not stored is reported exactly once after the restart, once its job has ended - with its result if the job produced one, as failed otherwise, also when it never reached a job - and no already stored sample is reported again. "
  "New jobs started after the restart never reuse the identity of an earlier job, so they never overwrite or mix with its results.",
  ["crash_points", "histories"],
  "for all crash points between storage operations and polls and all job outcomes, within bounded numbers of samples and jobs",
  "no test restarts a PBS run",
  ["mlmc/sampling_pool_pbs.py", "mlmc/tool/pbs_job.py", "mlmc/sampler.py"],
  [("recovery", "SamplingPoolPBS._collect_unfinished / have_permanent_samples"), ("job numbering", "SamplingPoolPBS._get_job_count"), ("sample to job map", "PbsJob.save_sample_id_job_id")],
  "get_finished() results after restart")

p("C09", "Renewing failed samples resubmits exactly the failed samples",
  "Renewing with the file storage resubmits to the pool every sample recorded as failed exactly once, under its original id and with its own level's simulation, and submits nothing else. "
  "Afterwards those samples are no longer recorded as failed and count as unfinished until a new outcome is stored, while scheduled ids and successful results are untouched. "
  "A sample that succeeds on renewal is then collected exactly like any other.",
  ["histories", "fault_sequences"],
  "for all patterns of failed samples over the levels and all outcomes of the renewed samples, including repeated renewal",
  "tests renew once with a fixed failure fraction",
  ["mlmc/sampler.py", "mlmc/sample_storage_hdf.py", "mlmc/tool/hdf5.py"],
  [("renewal", "Sampler.renew_failed_samples"), ("failed dataset", "LevelGroup.clear_failed_dataset / get_failed_ids")],
  "pool submissions, storage accounting")

p("C10", "Coarse part of a level is the fine part of the previous level, sample by sample",
  "The sampler builds level l with the level parameters of l as fine and those of l-1 as coarse, with no coarse part on level 0. "
  "For the bundled synthetic simulation and every random input, the coarse result on level l computed with a seed equals, in every component, the fine result of level l-1 computed with that seed, so that level means telescope; both parts of a pair use the same random input. "
  "A sample's random seed is a function of its id alone, identical in all pools and across restarts, and the seed reaches the simulation unchanged.",
  ["inputs", "configurations"],
  "for all level parameter sequences, all random inputs and all sample ids within the bounds",
  "tests compare means against broad statistical tolerances; a coupling error biases only the difference",
  ["mlmc/sampler.py", "mlmc/sim/synth_simulation.py", "mlmc/sampling_pool.py"],
  [("level construction", "Sampler._create_level_sim_objects"), ("synthetic simulation", "SynthSimulation.calculate"), ("seed", "SamplingPool.compute_seed")],
  "simulation objects and calculate() results")

p("C11", "Quantity expressions evaluate sample-wise to the expression of their parts",
  "For every stored sample, evaluating a quantity built by arithmetic, constants, numpy functions and composition gives, component by component and separately for fine and coarse, the same expression applied to the values of its parts, with operands in the written order. "
  "Accessing a named quantity, time, location or array entry (in any nesting, also on composed arrays, dictionaries, time series and fields) returns exactly the stored components of that item in their declared layout order, and time interpolation returns the linear interpolant between the neighbouring times for each component. "
  "Quantities of the same structure, taken from one or several stored quantities, can be composed into an array, a time series or a field; composing quantities of different structure, and combining quantities from different selections, is refused.",
  ["inputs", "programs"],
  "for all stored values and all access paths and expression shapes up to the stated nesting",
  "tests check a handful of expressions against the same arithmetic on one random data set whose locations hold equal values",
  ["mlmc/quantity/quantity.py", "mlmc/quantity/quantity_types.py"],
  [("operators", "Quantity.__add__ .. __rmod__ / _method"), ("item access", "Quantity.__getitem__ / QType.get_key"), ("composition", "QArray / QDict / QTimeSeries / QField"), ("interpolation", "TimeSeriesType.time_interpolation")],
  "Quantity.samples")

p("C12", "Selection keeps exactly the samples that satisfy the conditions",
  "Selecting a quantity by conditions keeps, on every level and in the original order, exactly the samples for which every condition holds in all components of both the fine and the coarse part, and drops the sample as a whole otherwise; several conditions mean their conjunction, and combined conditions follow their logical operation. "
  "All comparisons (<, <=, >, >=, ==, !=) have their mathematical meaning with the operands in the written order. "
  "The kept samples' values are unchanged, and estimates of a selected quantity use precisely those samples.",
  ["inputs", "programs"],
  "for all stored values and thresholds and all comparison operators and conjunctions",
  "tests use a few thresholds on continuous random data, where < and <= cannot be told apart",
  ["mlmc/quantity/quantity.py"],
  [("mask", "Quantity._process_mask / _mask_quantity"), ("selection", "Quantity.select")],
  "Quantity.samples / estimate_mean of the selection")

p("C13", "Evaluating a quantity never depends on what was evaluated before",
  "Reading the samples of a quantity or estimating it gives the result determined by the stored data and the quantity alone: it is unaffected by other quantities having been created, evaluated and discarded before, by samples added to the storage in between two estimates, or by the order of reads over chunks and levels. "
  "Results already handed out and the stored samples are not changed by later evaluations.",
  ["histories"],
  "for all bounded sequences of creating, evaluating and discarding quantities, adding samples and estimating",
  "tests evaluate in one fixed order; reuse of an object identity after garbage collection does not show up by chance",
  ["mlmc/quantity/quantity.py", "mlmc/quantity/quantity_estimate.py"],
  [("result cache", "Quantity.samples / get_cache_key"), ("cache reset", "cache_clear")],
  "Quantity.samples, estimate_mean")

p("C14", "Structured estimates: item of the estimate equals estimate of the item",
  "Accessing an item of an estimated mean gives exactly the mean, variance, level means, level variances and sample counts obtained by estimating that item directly (when no sample is masked), for every structure of the quantity. "
  "The moment quantity and the moment-covariance quantity of any structured quantity place the values of the r-th moment (the product of moments r and s) of each component at the position their structure declares, in both the moments-innermost and moments-outermost layouts, so that item access retrieves them. "
  "The single-moment quantity equals the corresponding entry of the moment quantity.",
  ["inputs", "programs"],
  "for all stored values, all structures and access paths up to the stated sizes, and both layouts",
  "tests use data with equal components, so a permuted layout gives the same numbers",
  ["mlmc/quantity/quantity.py", "mlmc/quantity/quantity_estimate.py", "mlmc/quantity/quantity_types.py"],
  [("item of the mean", "QuantityMean.__getitem__"), ("moment layouts", "moments / moment / covariance")],
  "estimate_mean(...)[key]")

p("C15", "Moment functions are consistent, exact in the domain and NaN outside",
  "For every value inside the domain (ends included) each moment family evaluates its defining functions of the linearly (or log-) mapped value, the constant function first, the map sends the domain ends to the reference ends and its inverse undoes it; with safe evaluation every value outside the domain gives NaN in all non-constant moments, never a finite number. "
  "Evaluating all moments, one moment and any smaller number of moments agree, for scalars and arrays of any shape the family accepts, and changing the size keeps domain, scale and options. "
  "Reported derivatives are the derivatives of the evaluated functions with respect to the reference variable, and transformed moments are the given linear combination of the original ones.",
  ["inputs", "configurations"],
  "for all real values, domains, sizes up to the bound and option combinations",
  "tests evaluate a few grids inside the domain",
  ["mlmc/moments.py"],
  [("domain map and clipping", "Moments.transform / clip / linear / inv_linear"), ("families", "Monomial / Fourier / Legendre / TransformedMoments")],
  "eval_all / eval / eval_single_moment / eval_all_der / eval_diff / eval_diff2 / change_size")

p("C16", "Sample allocation follows the optimal MLMC formula for every moment",
  "For all positive costs, non-negative variances and positive targets, the number of samples returned for a level is, taken over the moments, the largest of round(sqrt(V/C) * sum_l sqrt(V_l C_l) / target), limited to V * L / target and never below 2, truncated to an integer. "
  "It therefore never drops below 2, never decreases when the target variance is lowered, and is unaffected by adding a moment of zero variance or by permuting the moments.",
  ["inputs"],
  "for all costs, variances and target variances with up to the stated number of levels and moments",
  "tests only check the effect in one adaptive run with 10% tolerance",
  ["mlmc/estimator.py"],
  [("allocation", "estimate_n_samples_for_target_variance")],
  "returned integer vector")

p("C17", "Level parameters and initial sample counts form the requested geometric series",
  "For every step range and number of levels the level parameters start at the coarsest and end at the finest step, decrease strictly with a constant ratio, and a single level uses the finest step. "
  "Initial sample counts given by one or two numbers are the geometric sequence between the first and last value rounded to integers - endpoints exact, never increasing towards finer levels - and a full vector is used unchanged.",
  ["inputs", "configurations"],
  "for all step ranges, count pairs and numbers of levels within the bounds",
  "tests use one range",
  ["mlmc/estimator.py", "mlmc/sampler.py"],
  [("steps", "determine_level_parameters / calc_level_params"), ("counts", "determine_n_samples / Sampler.set_initial_n_samples / sample_range")],
  "returned sequences")

p("C18", "A sample computation returns its own valid result or a failure, never junk",
  "Computing a sample either returns the fine and coarse results produced by the simulation for that id and seed with an empty error message, or a non-empty error message if the simulation raised or its fine or coarse array result does not have exactly the number of values the result format declares; the id is always returned and no exception escapes. "
  "For simulations that need a workspace a sample that is alone in its process runs in its own directory holding copies of the common files, which after a failure is kept among the failed samples, after success is kept only for the first few samples, and is otherwise removed; directories of other samples are never touched.",
  ["inputs", "fault_sequences"],
  "for all result lengths, result formats, failure points and sample ids within the bounds",
  "tests run simulations with correct lengths; a one-sided or swapped length check passes them",
  ["mlmc/sampling_pool.py", "mlmc/tool/pbs_job.py"],
  [("computation and checks", "SamplingPool.calculate_sample"), ("workspace", "handle_sim_files / move_successful_rm / move_failed_rm")],
  "returned tuple, directory tree")

p("C19", "The stored result format is restored exactly and a different one is refused",
  "A result format saved to a file storage is loaded back equal in names, units, shapes, times and locations, in order, for every valid format. "
  "Opening an existing file and saving a result format that differs in any of these, or in their number or order, is refused with an error before anything is overwritten, and an equal one is accepted. "
  "Level parameters are restored unchanged.",
  ["inputs", "histories"],
  "for all pairs of formats differing in one or more fields (bounded number of quantities, times and locations)",
  "tests try one differing format",
  ["mlmc/sample_storage_hdf.py", "mlmc/tool/hdf5.py", "mlmc/quantity/quantity_spec.py"],
  [("save/compare", "SampleStorageHDF.save_result_format"), ("comparison", "QuantitySpec.__eq__"), ("dtype", "SampleStorageHDF._hdf_result_format")],
  "save_global_data / load_result_format")

p("C20", "Random fields realise the declared covariance, mean, scale and regions",
  "For all point sets and parameters the covariance matrix of the correlated field is the declared stationary kernel of the current points: unit diagonal, symmetric, depending only on point differences, decreasing with distance; a sample is mean + standard deviation * (factor of that matrix, up to the requested precision of the decomposition or the allowed number of terms, applied to standard normal input), exponentiated for log fields, and setting new points discards everything computed for old ones. "
  "In a set of fields every field value lands on exactly the points of its regions (zero elsewhere), constants and dependent fields are evaluated from the current samples of their parameters (which live on the same regions), and only requested fields are returned. "
  "The porosity and conductivity maps stay in their declared ranges and are increasing.",
  ["inputs", "histories", "configurations"],
  "for all point coordinates, means, deviations, correlation lengths and region assignments within the bounds",
  "tests compare sample statistics of a few configurations with tolerances",
  ["mlmc/random/correlated_field.py"],
  [("covariance", "SpatialCorrelatedField.cov_matrix / svd_dcmp"), ("sampling", "RandomFieldBase.sample"), ("regions", "Fields.set_points / sample"), ("maps", "positive_to_range / kozeny_carman")],
  "cov_matrix, sample, Fields.sample")

p("C21", "Density functional, gradient and Hessian are consistent",
  "For every multiplier vector, moment data and quadrature, the gradient used for density fitting is the exact derivative of the minimised functional and the Hessian is the exact derivative of that gradient: symmetric and positive semidefinite. "
  "The density is non-negative everywhere, and equals the exponential of minus the scaled combination of moments limited to the safe exponent range.",
  ["inputs"],
  "for all multipliers, moment means and errors, quadrature weights and moment values with up to the stated number of moments and points",
  "tests only look at the converged density; an inconsistent derivative merely slows or biases convergence",
  ["mlmc/tool/simple_distribution.py"],
  [("functional", "SimpleDistribution._calculate_functional"), ("derivatives", "_calculate_gradient / _calculate_jacobian_matrix"), ("density", "SimpleDistribution.density")],
  "values of the three callbacks handed to the minimiser")

p("C22", "Mesh and field files written are read back unchanged",
  "Writing a mesh and reading it back gives the same nodes, elements (types, tags and node lists) and physical groups for all element types, tag counts and names, and writing element fields and reading them gives the same values for every element id, field and number of components. "
  "Values keep full double precision.",
  ["inputs"],
  "for all meshes and fields within the size bounds, any ids, coordinates, tags and component counts",
  "tests read one mesh and write one field",
  ["mlmc/tool/gmsh_io.py"],
  [("reading", "GmshIO.read"), ("writing", "GmshIO.write_ascii / write_fields")],
  "GmshIO attributes after read")

p("C23", "Subsampling draws the requested number of stored samples",
  "Subsampling a quantity to k of n samples on each level yields exactly k samples on that level in total, however the level is split into chunks, and every drawn sample is one of the level's stored samples with its fine and coarse parts and all components kept together. "
  "Bootstrap estimates are the mean and the unbiased variance over repetitions of the estimates of such subsamples.",
  ["inputs", "configurations"],
  "for all stored values, all k <= n, all chunk layouts and all outcomes of the random draws within the bounds",
  "tests use one chunk per level",
  ["mlmc/quantity/quantity.py", "mlmc/estimator.py"],
  [("drawing", "Quantity.subsample / pick_samples"), ("bootstrap", "Estimate.est_bootstrap")],
  "Quantity.samples of a subsample, est_bootstrap results")

p("C24", "Domain estimate covers the fine samples of all levels",
  "The estimated domain is the interval from the smallest lower quantile to the largest upper quantile of the non-NaN fine values over all levels, each level contributing its own collected samples. "
  "Its lower end never exceeds its upper end.",
  ["inputs"],
  "for all sample values and NaN patterns, numbers of samples per level and quantiles within the bounds",
  "tests use samples with the same distribution on all levels",
  ["mlmc/estimator.py"],
  [("domain", "Estimate.estimate_domain")],
  "returned pair")

p("C25", "Cost per sample equals total measured time over number of measured samples",
  "For every sequence of polls the cost per sample of each level reported by the storage is the total running time of the level's successfully computed samples divided by their number, each sample counted once however often the pool was polled in between. "
  "Both storage backends and all local pools give the same figure, and levels without measured samples report zero.",
  ["histories", "inputs"],
  "for all sequences of sample completions and polls with arbitrary positive running times",
  "tests never compare the cost with the measured times",
  ["mlmc/sampling_pool.py", "mlmc/sample_storage.py", "mlmc/sample_storage_hdf.py"],
  [("time collection", "OneProcessPool._save_running_time / get_finished"), ("cost storage", "save_n_ops / get_n_ops")],
  "SampleStorage.get_n_ops")

p("C26", "Orthogonalised moments have identity covariance and a constant first moment",
  "For every symmetric covariance matrix with its positive eigenvalues above the threshold, the moments returned by orthogonalisation are linear combinations of the original ones whose covariance under that matrix is the identity up to the dropped part, with the first one the constant one. "
  "The returned number of moments equals the number of kept eigenvalues.",
  ["inputs"],
  "for all covariance matrices of the stated size whose decomposition satisfies the eigenvalue and factorisation contracts",
  "tests check it for a few distributions with numerical tolerance",
  ["mlmc/tool/simple_distribution.py"],
  [("orthogonalisation", "construct_ortogonal_moments")],
  "transformed moments and info")

p("C27", "Variance regression is the log-quadratic least-squares fit on levels above zero",
  "With at least three levels and variances above 1e-6, the regressed variance of each non-constant moment on levels above 0 is the exponential of the least-squares fit of log variance by a quadratic polynomial in log step, independently for each moment; level 0 and the constant moment keep their raw variance. "
  "With fewer levels the raw variances are returned unchanged; the fit does not change the input, and exact log-quadratic data are reproduced.",
  ["inputs"],
  "for all positive raw variances and strictly decreasing steps with up to the stated number of levels and moments",
  "tests check only that an adaptive run ends with plausible counts",
  ["mlmc/estimator.py"],
  [("regression", "Estimate.estimate_diff_vars_regression")],
  "returned variances")

p("C28", "Fitted density attains the moment equations",
  "The density returned by the maximum-entropy fit integrates to one over its domain and its moments equal the prescribed moment means within the requested tolerance whenever the fit reports success.",
  ["inputs"],
  "for all attainable moment vectors and domains",
  "tests fit a catalogue of distributions and compare divergences with tolerances",
  ["mlmc/tool/simple_distribution.py", "mlmc/tool/distribution.py"],
  [("fit", "SimpleDistribution.estimate_density_minimize")])

p("C29", "Distinct samples use distinct, statistically independent random inputs",
  "Distinct sample ids get distinct seeds and the random inputs derived from them are independent and identically distributed, so level means are unbiased and the reported variance is the true estimator variance in expectation.",
  ["inputs"],
  "for all pairs of sample ids of a run",
  "a collision or correlation does not show in sample statistics of test size",
  ["mlmc/sampling_pool.py"],
  [("seed", "SamplingPool.compute_seed")])

p("C30", "A flow sample runs both models on one field realisation, reports outflow",
  "For every seed, field realisation, declared fields, pair of planar meshes (extending in two directions) and model output: one flow sample seeds the generator with the sample's seed, draws each declared field once at the centres of the bulk elements of the fine and coarse mesh together, and hands each model run exactly the values of its own mesh's bulk elements, for exactly the fields used by the template. "
  "Each run uses the input prepared for its own step (placeholders replaced, other text kept, time steps tf*h and tf*h**2); its result is minus the sum of outflow fluxes of the outflow regions at time zero of that run, never output left behind by the other run. Missing output, no outflow or a positive inflow raises. The coarsest level runs only the fine model and has a zero coarse result. The same holds when the levels are prepared again without cleaning.",
  ["inputs", "histories"],
  "for all seeds, field values, fluxes and steps within the stated mesh sizes and field sets",
  "the test suite has no flow123d binary and runs no flow sample at all; a swapped slice or a stale file gives plausible numbers",
  ["mlmc/sim/flow_mc.py", "mlmc/tool/flow_mc.py", "mlmc/tool/gmsh_io.py", "mlmc/random/correlated_field.py"],
  [("level preparation", "FlowSim.level_instance"), ("sample", "FlowSim.calculate"), ("result", "FlowSim._extract_result"), ("files", "substitute_placeholders, force_mkdir")],
  "files each model run sees; sample result")

p("C31", "Estimates of the Estimate object are those of its quantity, moments and storage",
  "For every storage content: mean and variance of moments, covariance matrices, level variances with their valid sample counts, and level samples obtained from an Estimate are those of its quantity, storage and moment functions, or of the moment functions passed to the call. "
  "The density is fitted to the estimated means of the moments orthogonalised by the estimated covariance, with a non-scalar quantity refused; the sample counts of a target variance follow from the variances of its bootstrap.",
  ["inputs", "histories"],
  "for all stored values within the stated numbers of levels, samples and moments",
  "tests run it on one random data set and check plausibility",
  ["mlmc/estimator.py", "mlmc/quantity/quantity_estimate.py"],
  [("moments", "Estimate.estimate_moments, estimate_covariance"), ("variances", "Estimate.estimate_diff_vars"), ("density", "Estimate.construct_density"), ("target", "Estimate.est_bootstrap, estimate_n_samples_for_target_variance")],
  "returned estimates")

p("C32", "Reference moments, covariances and density distances are the defining integrals",
  "For every density and moment functions on a domain, the exact and semi-exact moments are the integrals of each moment function times the density over the domain, the exact and semi-exact covariances the integrals of all pairwise products times the density (symmetric), the KL divergence the integral of p log(p/q) - p + q (p log p being zero where p vanishes) bounded below by 1e-10, and the L2 distance the square root of the integral of the squared difference.",
  ["inputs"],
  "for all density and moment values at the nodes of the stated quadratures",
  "tests compare a few smooth distributions with tolerances and never meet a vanishing density",
  ["mlmc/tool/simple_distribution.py"],
  [("moments", "compute_exact_moments, compute_semiexact_moments"), ("covariance", "compute_exact_cov, compute_semiexact_cov"), ("distances", "KL_divergence, L2_distance")],
  "returned integrals")

p("C33", "The sampling loop stores every reported result and waits as long as promised",
  "For every order and grouping in which a pool delivers successful and failed samples over its polls, and every duration of the polls: all that the pool reports to the sampler (result pairs, failures, measured costs) is in the storage on its level exactly once, in the order of delivery, when the waiting call returns. Waiting without a time limit ends at the first poll after which no sample is running; with a positive limit it polls at least once and ends at the first poll after which no sample is running or the limit has passed, and the number of running samples is returned. An adding step returns only when on each level still short of its requirement at least half of the scheduled samples have finished (successful or failed), and it reports completion only when no level is short.",
  ["inputs", "schedules"],
  "for all delivery orders, outcomes, values, measured times and durations within the stated number of samples and polls",
  "tests use pools whose samples are ready at once or after a fixed time, so partial deliveries around the limit are not met",
  ["mlmc/sampler.py", "mlmc/sample_storage.py", "mlmc/sample_storage_hdf.py"],
  [("waiting", "Sampler.ask_sampling_pool_for_samples"), ("storing", "Sampler._store_samples, SampleStorage.save_samples, save_n_ops"), ("adding", "Sampler.process_adding_samples, set_scheduled_and_wait")],
  "storage content and number of polls when a waiting call returns")

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for d in P:
        f.write(json.dumps(d) + "\n")
