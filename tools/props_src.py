W="rt1/_rtprocess_writer.py"; PR="rt1/rtprocess.py"; RES="rt1/rtresults.py"; FIT="rt1/rtfits.py"
GF="rt1/general_functions.py"; CFG="rt1/rtparse.py"; CON="rt1/_containers.py"; RT="rt1/rt1.py"
V="rt1/volume.py"; S="rt1/surface.py"; SC="rt1/scatter.py"; MET="rt1/rtmetrics.py"; PC="rt1/processing_config.py"

prop("P01","Parallel processing stores every successful result exactly once",
 "When a list of IDs is processed in parallel, the output database finally holds, for every input whose processing produced a result, exactly one complete copy of exactly that result under that input's own ID, and nothing for inputs that were skipped or failed. This holds for every number of workers, combiners and writers, every chunk and cache size and every relative speed of the processes, and a failed, skipped or malformed result (one that is no dictionary of tables) never costs another input its stored result. Results that belong to several configurations or that are declared constant over configurations are stored under their configured names, unaltered.",
 ["schedules","configurations","inputs","fault_sequences"],
 "every interleaving of workers, combiners, combine-threads, writers and the main process (including every time-out firing early or late); all sizes; every assignment of ok / skipped / failed / malformed to the inputs",
 "The tests run two real pools with one fixed sizing and only inspect that some output exists; they sample one schedule decided by the OS and never vary chunk/cache sizes, the number of writers, or failures.",
 [W,PR],[("result queue -> combiner batches -> combine threads -> out queue -> locked append",W+": _worker_process, _combiner_process, _combine_results, _save_file_process"),("shutdown order",W+": stop, writer_pool")],
 [("queue/out_queue","results in flight"),("p_totcnt/p_meancnt","progress counters")],["the HDF store after the pool has been left"])

prop("P02","A processing run always terminates, drains and throttles",
 "Entering, using and leaving the processing pool always terminates, also if processing or writing of some results fails or the run is interrupted; combiners stop only after the result queue is drained and writers only after all combined results are written, unless the run was aborted. Once a writer about to fetch finds at least the configured number of combined results waiting, workers start no further inputs until a writer finds fewer waiting. The progress counters never exceed the number of inputs and finally equal the number of handled (and of successfully handled) inputs.",
 ["schedules","fault_sequences","configurations"],
 "every interleaving and time-out order, every single write failure position, every interruption point, all process counts and sizes",
 "A test that passes says nothing about schedules that dead-lock or about a failing writer; no test injects a write failure or an interrupt.",
 [W],[("events should_wait / should_stop / combiner_ready / _stop",W+": _combiner_process, _save_file_process, _worker_process, stop, manual_shutdown"),("counters",W+": _increase_cnt")],
 [("should_wait","throttle"),("should_stop,combiner_ready,_stop","shutdown phases")],["exit of every process", "counter values"])

prop("P03","Re-running only adds what is missing and never renumbers or duplicates",
 "Processing a list of distinct inputs against an existing database processes exactly the inputs whose ID is not stored yet, leaves every stored record unchanged, and afterwards contains every ID once. Every stored ID has one numeric ID, numeric IDs are unique within the database and never change over any sequence of runs with overlapping, permuted or extended input lists. The helper that masks already existing IDs selects the same inputs when given the same rule that turns inputs into IDs.",
 ["histories","inputs","configurations"],
 "every sequence of runs over every choice of input lists (overlaps, permutations, gaps left by failures, IDs that are not valid identifiers, path-like IDs)",
 "The tests process two or three fixed IDs once into an empty folder; no test re-runs on a partially filled database.",
 [W,PC,GF,RES],[("existing-ID check and numbering",W+": _check_IDs; "+PC+": mask_existing_HDF_IDs"),("next free number",GF+": find_missing"),("identifier rule",GF+": isidentifier")],
 [("reader_arg table","ID <-> numeric ID")],["reader_arg table and all other tables after each run"])

prop("P04","An interrupted run can be resumed to the complete database",
 "If a run is killed or fails at any point between two writes of combined results, or is interrupted by a termination signal, the records already written stay readable and complete, and running the same inputs again completes the database to exactly one complete record per input. No interruption point makes a later run skip an input whose record is incomplete.",
 ["crash_points","histories"],
 "every crash point at the granularity of a single table append, every interruption point of the main process, followed by a resume",
 "No test crashes or interrupts a run.",
 [W],[("append order and per-batch write",W+": _save_file_process"),("signal handling",W+": manual_shutdown")],
 [("HDF tables","partially written batch")],["database after the resumed run"])

prop("P05","Stored fits are restored exactly, for the right ID",
 "A fit written to the results database and loaded again by name, by number or by iteration has the same ID (as valid label), dataset, auxiliary data (tables), reader arguments, parameter definitions, model definition, flags (sig0, dB, int_Q), solver settings and fitted results as the fit that was stored, as far as the saving options include them, for single fits as well as for every configuration of a multi-configuration fit, and never mixes in data of another ID or configuration. Dumping a fit to a file and loading it again preserves the same state. Model values computed from the restored fit equal those computed from the original.",
 ["inputs","histories","configurations"],
 "all datasets (lengths, repeated indices, extra columns), parameter definitions, ID spellings, numbers and orders of fits, single and multi-configuration, all saving options",
 "The tests load one or two fits of one configuration and compare only a few attributes.",
 [FIT,RES],[("export to tables",FIT+": _get_fit_to_hdf_dict, _get_init_dict, _get_res_dict_df"),("re-creation",RES+": HDFaccessor._load_fit"),("dump/load",FIT+": dump, load, __getstate__, __setstate__")],None,["public attributes of the loaded fit"])

prop("P06","Reading the database in chunks yields every requested ID once, in order",
 "Iterating over any table of the results database with any number of IDs per step, start offset and internal read size yields the rows of every ID from the start offset on exactly once, complete, unchanged and in database order, and every step except the last covers exactly the requested number of consecutive stored IDs (the rows of those that have any in that table). Fetching a single ID or a list of IDs by name or number and fetching the first IDs returns exactly the rows of those IDs. The ID labels attached to the rows are the labels of the IDs the rows belong to.",
 ["inputs","configurations"],
 "all numbers of stored IDs, IDs per step, start offsets, read sizes, numbers of rows per ID (including none), single- and multi-level tables, labelled or numeric IDs",
 "The tests read one or two IDs; remainders (step not a multiple of the read size, tables with missing IDs) never occur.",
 [RES],[("chunked reader",RES+": _get_nids_iter, _get_vals, _get_vals_with_IDs"),("single ID",RES+": _get_id, _ID_to_IDnum"),("labels",RES+": _subselector.select")],None,["returned DataFrames"])

prop("P07","A fit object always answers for its current definition",
 "After any sequence of assigning datasets, parameter definitions, scattering functions or unit flags to a fit object, interleaved with reading any of its derived quantities, evaluating the model or fitting, every quantity it reports equals that of a newly created fit object with the same current definition. The same holds for the fits of a multi-configuration object when the shared data are replaced. Re-initialised or copied fit objects share no parameter or model definition with their origin: changing one never changes the other.",
 ["histories"],
 "all interleavings of assignments and reads over several values of each definition, on several fit objects alive at the same time",
 "Tests create a fit, fit once and read; caches that are wrongly kept only show on particular histories.",
 [FIT],[("invalidation on assignment",FIT+": Fits.__setattr__, _clear_cache, _cached_props"),("shared data",FIT+": MultiFits.set_dataset"),("copies",FIT+": reinit_object")],
 [("per-object caches","derived quantities")],["index, inc, data, mask, weights, groupings, calc_model, metric values, results table"])

prop("P08","Every observation is assigned to exactly the declared parameter group",
 "For every fitted parameter, each observation belongs to exactly one group, and two observations share a group exactly when the declared variability says so: always (constant), same time interval (offset), same bin of N consecutive unique time stamps with bins as equal as possible, a single bin if there are fewer than N (number), same label (manual), same time stamp (index), or same interval and same label (combined). Each fit-group contains exactly the observations that share the groups of all fitted parameters, every observation is in one fit-group, and the measurement, incidence-angle and weight arrays contain precisely those observations, with only the masked positions being artificial.",
 ["inputs","configurations"],
 "all datasets up to the bounds (repeated and unsorted time stamps, gaps, unequal group sizes), all variability rules and combinations over several parameters",
 "Tests use four fixed datasets with at most three variability rules and check only the fitted values.",
 [FIT,GF],[("grouping",FIT+": param_dyn_dict, _groupindex, _dataset_used, _timescaledict, _manual_dyn_df"),("rectangular arrays",GF+": rectangularize, groupby_unsorted")],None,["param_dyn_dict, index, inc, data, mask, data_weights, calc_model index"])

prop("P09","Fit vector, bounds, start values and results line up with the groups",
 "The values estimated for a parameter are one per group in order of first appearance, the start values and bounds handed to the solver are those declared for that parameter (per-group means of the auxiliary start column where requested), and the residuals contain every non-artificial observation exactly once with its weight. In the results table each time stamp carries, for parameters that are not interpolated, the value of a group its observations belong to (interpolated curves pass through the group values at the mean times of the groups), and the model is evaluated for every observation with exactly these values and the declared constants or auxiliary values, and a parameter's sensitivity is non-zero only for observations of its group.",
 ["inputs","configurations"],
 "all datasets and variability rules of the grouping property, several fitted, constant and auxiliary parameters with different bounds and orders of definition",
 "The tests check that noise-free fits of four fixed set-ups converge; a mis-assigned group or bound that still converges, or only shows for unsorted or repeated labels, is not seen.",
 [FIT,GF],[("value assignment",FIT+": _assignvals, _param_assigns_dataset, _idx_assigns, res_df"),("solver layout",FIT+": performfit, _startvaldict, _boundsvaldict, _calc_jac, _jac_assign_rule"),("splitting",GF+": split_into")],None,["arguments passed to the solver, res_dict, res_df, calc_model"])

prop("P10","Fits respect bounds, never end worse than they started and are reproducible",
 "For every dataset and parameter definition the fitted values lie within the declared bounds, the weighted squared residuals of the result are not larger than those of the start values, the stored results reproduce the solver's final residuals when the model is evaluated with them, and repeating the fit gives the same results. Data generated by the model itself with parameters inside the bounds are reproduced by the fit started at these parameters.",
 ["inputs","configurations"],
 "randomly generated datasets, parameter definitions, unit flags, weights and scattering functions",
 "The tests only fit noise-free data of four set-ups.",
 [FIT],[("least-squares driver",FIT+": performfit, _calc_model, _calc_jac, calc_model")],None,["res_dict, fit_output, calc_model"])

prop("P11","Configuration files are read, typed and overlaid as declared",
 "Every option of a configuration file reaches the fit and processing specifications with the declared type and meaning, missing options get their documented defaults, and options of one configuration section, parameter or processing setting never leak into another. In multi-configuration files a configuration-specific definition replaces the shared one for that configuration only, and shared definitions apply to all configurations. Overriding options at run time changes exactly the named options and keeps all others, including overrides made earlier when updating is requested.",
 ["inputs","configurations","histories"],
 "all combinations of options, present or absent, spellings of numbers, booleans and none, shared and configuration-specific sections, sequences of overrides",
 "Tests parse two fixed files.",
 [CFG,PR],[("parsing and typing",CFG+": _parse_dict, get_config, get_fitobject, get_process_specs"),("overrides",PR+": override_config, setup")],None,["returned specifications and fit objects"])

prop("P12","Existing results are never removed or overwritten without confirmation",
 "Setting up a processing folder deletes or overwrites nothing that already exists in it unless the user asked for removal and confirmed it; a refused or unclear answer stops before anything is changed. The configuration and module copies of an existing folder are kept and are the ones actually used, except that explicitly given overrides are written to the copied configuration (the given configuration with the overrides replaces it). Answering yes keeps all existing files, and confirmed removal removes exactly that processing folder.",
 ["histories","inputs","configurations"],
 "all sequences of set-ups over existing or missing folders, answers to the prompts, overrides, copy options",
 "The tests set up fresh folders with one answer sequence.",
 [PR],[("prompt and removal",PR+": _confirm_input, setup, _remove_dumpfolder"),("copy without overwriting",PR+": _copy_cfg_and_modules, _make_folderstructure")],[("folder contents","files, bytes")],["directory tree before and after"])

prop("P13","The parameter-definition container is consistent in all its views",
 "After any sequence of adding, redefining, editing and removing parameters through any of the supported notations (call, list, dictionary, item or attribute assignment), the container holds exactly the surviving parameters in order of first definition, each with exactly the last values given for it. Its list form, dictionary form, item, attribute and iteration views agree with each other, and converting to either form and back gives an equal container that shares no mutable value with the original.",
 ["histories","inputs"],
 "all operation sequences up to the bound over several parameter names, all six properties and all notations",
 "The tests only pass complete literal dictionaries.",
 [CON],[("container",CON+": _RT1_defdict, _RT1_variable")],[("variables","ordered parameters with six properties")],["to_dict, items, keys, iteration, attribute and item access"])

prop("P14","The model is evaluated independently per observation and per call",
 "The total backscatter is the sum of the surface, volume and (if enabled) interaction contributions, and each of them equals its definition in the documented first-order solution (the interaction term being the integral over the Legendre expansions of the chosen scattering functions). Each element depends only on the geometry and parameter values of that element, and it therefore does not matter how observations are arranged in arrays, batched, broadcast or reordered. Results do not depend on earlier evaluations: after assigning other angles, another geometry, other scattering functions, numeric parameters or values of function parameters to an existing model object, its output equals that of a newly created one. Inputs passed by the user are not modified.",
 ["inputs","histories","configurations"],
 "all histories of changing angles, optical depth, albedo, normalisation, fraction and function parameters and evaluating; all array shapes and permutations; mono- and bistatic geometries",
 "The tests evaluate freshly created models on a few fixed arrays.",
 [RT],[("evaluation",RT+": calc, surface, volume, interaction, _fnevals"),("cached geometry terms",RT+": _mu_0_x, _mu_ex_x, _clear_cache")],None,["calc()"])

prop("P15","Derivatives agree with the model",
 "The parameter derivatives delivered by the model equal the derivatives of the model values, and the Jacobian used by the fit equals the derivative of its (weighted) residuals with respect to the fitted values (of parameters without interpolation), for albedo, optical depth, surface normalisation, bare-soil fraction and every parameter of the scattering functions, in linear and decibel units and for intensity and backscatter normalisation. Slopes and curvatures equal the first and second derivatives with respect to the incidence angle. Where the interaction contribution is enabled the documented approximation (derivatives without it) applies consistently.",
 ["inputs","configurations"],
 "randomly chosen scattering functions, parameter values, angles, geometries, units and arrays",
 "The tests compare no derivative with the model; only converged fits exercise them.",
 [RT,FIT,S,V,SC],[("analytic derivatives",RT+": jacobian, _d_surface_d*, _d_volume_d*, slopes, curvatures"),("chain rule",FIT+": _calc_jac")],None,["jacobian(), tot_slope(), calc()"])

prop("P16","Linear combinations and expansions represent their parts",
 "A linear combination of scattering functions equals, at every geometry and for every symbolic or numeric weight, the weighted sum of its parts, both as a function and as a Legendre expansion, independent of the order of the parts, and re-creating it from its own definition gives the same function. The Legendre expansion of each scattering function uses exactly as many coefficients as declared (within a combination: as many as the largest number declared by the parts that share the definition of the scattering angle), and evaluating it for the different measurement geometries gives the same values wherever these geometries coincide.",
 ["inputs","configurations"],
 "all combinations of the available functions, weights, numbers of coefficients, angles and geometries up to the bounds",
 "The tests check one combination with two parts per kind.",
 [V,S,SC],[("linear combinations",V+": LinCombV; "+S+": LinCombSRF"),("expansion",V+": legexpansion; "+S+": legexpansion, brdf; "+SC+": scat_angle")],None,["p(), brdf(), legexpansion(), init_dict"])

prop("P17","Unit conversions are consistent and invertible",
 "Converting values between linear and decibel units and between intensity and backscatter normalisation gives the same value whichever path is taken, converting back restores the value, and no conversion happens when source and target conventions agree. A fit to the same measurements expressed in any of the four conventions evaluates to the same physical model values.",
 ["inputs","configurations"],
 "all pairs and chains of the four conventions, all value and angle arrays",
 "The tests fit in each convention but never chain conversions or compare conventions.",
 [GF,FIT,RT],[("conversion",GF+": dBsig0convert; "+FIT+": _calc_model; "+RT+": jacobian, slopes")],None,["converted values"])

prop("P18","Performance metrics equal their definitions for all data",
 "Every metric equals its textbook definition for all pairs of equally long series, has the documented sign convention and symmetry, and is consistent with the others (squared rmsd equals squared unbiased rmsd plus squared bias). Metrics requested through a fit are computed on exactly the values of the two requested quantities paired by observation, whatever their sources (columns of the dataset, fitted parameters, model contributions), time stamps and order (two fitted parameters: one pair per time stamp).",
 ["inputs","configurations"],
 "all integer series up to the bounds (ties, constants, negative, zero), all pairings of sources, repeated and unsorted time stamps",
 "The tests compare one random series with library functions.",
 [MET,FIT],[("metrics",MET+": RTmetrics"),("pairing",MET+": _metric_keys, _RTmetrics0, _unify_idx_data")],None,["metric values"])

prop("P19","Exports contain exactly the requested parameters and metrics of every fit",
 "Exporting from the results database writes, for every stored fit and every requested configuration, exactly the requested parameters and metrics with the values that fit has, in the requested units and under the fit's own ID, independent of how many fits are exported, their order and the number of processes. Custom export functions apply to every fit alike, scalar ones as static and series as dynamic values.",
 ["inputs","configurations","histories"],
 "all subsets of parameters (fitted constant, fitted dynamic, constant, auxiliary, dataset columns, model contributions, reader arguments, custom), metrics, unit options, configurations and numbers of fits",
 "One test exports one set of parameters from two fits.",
 [PR],[("export",PR+": export_data_to_HDF, _HDF_export_postprocess, _postprocess_getparams, run_finaloutput, _finalout_reader")],None,["exported tables"])

prop("P20","Array and list helpers keep, order and label every element",
 "The helpers used for grouping, chunking, splitting, padding, counting and rescaling lose, duplicate, reorder or invent no element: grouping partitions by key in order of first appearance, chunks and splits concatenate back to the input with the declared sizes, padding repeats the last element and the mask marks exactly the padding, free-number search yields exactly the numbers not taken in ascending order, and rescaling maps the domain to the requested range linearly and invertibly, and adding further time stamps by interpolation keeps the values of the existing ones. Durations are decomposed into days, hours, minutes and seconds exactly, and the mean of time stamps lies at their arithmetic mean.",
 ["inputs"],
 "all inputs up to the bounds (empty, single, repeated, unsorted elements)",
 "The helpers have no tests of their own.",
 [GF],[("helpers",GF+": rectangularize, groupby_unsorted, split_into, chunkit, pairwise, find_missing, scale, dt_to_hms, meandatetime, update_progress")],None,["return values"])

prop("P21","Multi-configuration objects share data and keep configurations apart",
 "All configurations of a multi-configuration object always see the same dataset, auxiliary data, reader arguments and ID, whichever order configurations are added and shared data are replaced in, and each configuration keeps its own definitions and results: operating on one or on a selection never changes the others. Applying a function or accessing a quantity over the container returns one entry per requested configuration, in order of definition, equal to doing it on that configuration alone.",
 ["histories","configurations"],
 "all sequences of adding, replacing, selecting, applying, setting shared data and reading with up to three configurations",
 "The tests build one two-configuration object and read a few attributes.",
 [FIT],[("container",FIT+": MultiFits, _FitContainer, _MultiAccessors")],[("configs","name -> fit")],["configs, apply, accessor, shared attributes"])

prop("P22","Each input is processed with its own data only",
 "In a processing run every input's stored dataset, auxiliary data, reader arguments and results come from reading and fitting that input alone, independent of which inputs were processed before it in the same process, in single and multi-configuration runs. Inputs that are skipped or raise a data error leave no trace in the database and no influence on later ones, an error while handling one input reaches the error handler once, for that input only, and the fit of an input equals the fit obtained by processing it alone.",
 ["histories","inputs","fault_sequences"],
 "all sequences of inputs with differing datasets, with and without auxiliary data, with each kind of reader or fit error, processed by one or several workers",
 "The tests process a handful of well-formed inputs with identical structure.",
 [PR,PC,FIT],[("per-input evaluation",PR+": _evalfunc, _processfunc, _initializer"),("error handling",PC+": exceptfunc")],None,["database content per ID"])
