"""Writes /verif/properties.jsonl (kept in code form so that long lines stay reviewable)."""
import json, os
R = "src/lightcurvelynx/"
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": [R + f for f in files], "mechanism": [{"name": n, "where": R + w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": R + w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

prop("P01", "Seeded runs are reproducible and use no ambient randomness",
 "When the caller supplies a seeded random generator, everything random in a run (sampled parameters, spectra, band fluxes, simulated survey light curves and their noise) is drawn from that generator alone: repeating the run with an equal generator and an equally built model gives identical results, whatever the operating-system entropy, the process-wide random state, the clock, the hash seed, or the work done earlier in the process. "
 "When instead every random component is given its own explicit seed and no generator is passed, two equally built models sample identical parameters under the same variations, and re-seeding a component restarts its sequence. "
 "Generators of random survey tables given a seed are reproducible in the same sense.",
 ["histories", "configurations", "inputs"],
 "All models built from the provided samplers, effects, host/companion relations and survey tables; all sample counts; all values of ambient entropy, clock, hash seed and preceding work.",
 "Tests compare two runs of a few models inside one process with one entropy source and one hash seed; a component that quietly falls back to OS entropy, global random state or set order passes whenever the test does not evaluate it, or evaluates it only once.",
 ["simulate.py", "base_models.py", "math_nodes/np_random.py", "math_nodes/given_sampler.py", "math_nodes/distribution_sampler.py", "math_nodes/ra_dec_sampler.py", "math_nodes/scipy_random.py", "effects/white_noise.py", "models/physical_model.py", "models/agn.py", "models/multi_object_model.py", "models/snia_host.py", "astro_utils/noise_model.py", "astro_utils/pzflow_node.py", "astro_utils/snia_utils.py", "obstable/opsim.py", "obstable/ztf_obstable.py"],
 [("generator threading through sampling", "base_models.py:_sample_helper"), ("generator threading through evaluation", "models/physical_model.py:_evaluate_single"), ("noise draw", "astro_utils/noise_model.py:apply_noise"), ("fallback seeding from OS entropy", "math_nodes/np_random.py:NumpyRandomFunc.__init__")],
 [("component generator", "per-node fallback random generator", "math_nodes/np_random.py")],
 ["returned parameter states", "returned light-curve frames", "returned flux arrays"])

prop("P02", "Concurrent callers sharing objects each get their solo result",
 "Several threads may use the same model, passband group and survey table at the same time (first-time sampling, sampling, spectrum and band-flux evaluation, survey queries, full simulation), each with its own random generator: every call returns exactly what the same call returns when made alone, and raises only if it raises when made alone, under every interleaving. "
 "No call leaves anything behind in the shared objects that changes a later call's result, and names and values in parameter states sampled earlier stay readable through the shared model.",
 ["schedules", "programs"],
 "All thread interleavings at the granularity of package source lines, for two to four caller threads issuing read-type calls on shared objects.",
 "Every test is single-threaded, so first-use initialisation, scratch values kept on shared objects, and lazily rebuilt caches are only ever seen with one caller.",
 ["base_models.py", "models/physical_model.py", "models/multi_object_model.py", "models/sncomso_models.py", "models/redback_models.py", "models/bayesn.py", "models/snia_host.py", "astro_utils/passbands.py", "obstable/obs_table.py", "simulate.py"],
 [("first-use node naming", "base_models.py:set_graph_positions"), ("parameter push into wrapped source", "models/sncomso_models.py:_update_sncosmo_model_parameters"), ("group wavelength grid", "astro_utils/passbands.py:PassbandGroup")],
 [("node position and name", "assigned on first use, read by every evaluation", "base_models.py:ParameterizedNode"), ("wrapped source", "third-party object whose parameters are set per call", "models/sncomso_models.py")],
 ["return values of each thread's calls"])

prop("P03", "A failed or interrupted call leaves objects and inputs unharmed",
 "If a sampling, evaluation, query or simulation call is cut short at any instant (an exception from user code or a random source, a keyboard interrupt, a failed allocation), the model, effects, passbands, survey tables, random components and the caller's own arguments stay usable, and repeating the call with an equally seeded generator gives exactly the result of a run that was never interrupted. "
 "A construction or configuration call (adding a parameter or effect, filtering rows, changing a radius, reprocessing a passband) that is rejected or fails leaves the object as it was before the call, and a corrected retry succeeds. "
 "Completed calls never modify the arrays, tables, dictionaries or other inputs their caller passed in, and an in-order list takes no entries for a request it rejects.",
 ["crash_points", "fault_sequences", "histories"],
 "Every package source line as an interruption point for KeyboardInterrupt, MemoryError and callback errors, over all model, effect, sampler, passband and survey-table kinds.",
 "Tests check that bad input raises; they never continue to use the object afterwards, and never interrupt a call midway.",
 ["base_models.py", "graph_state.py", "models/physical_model.py", "models/multi_object_model.py", "astro_utils/passbands.py", "obstable/obs_table.py", "math_nodes/given_sampler.py", "models/lightcurve_template_model.py", "obstable/roman_obstable.py"],
 [("first-use node naming", "base_models.py:set_graph_positions"), ("parameter registration", "base_models.py:add_parameter"), ("row filtering", "obstable/obs_table.py:filter_rows"), ("passband reprocessing", "astro_utils/passbands.py:process_transmission_table")],
 [("parameter setters", "registered parameters of a node", "base_models.py:setters"), ("spatial index", "index over the rows of a survey table", "obstable/obs_table.py:_kd_tree")],
 ["rerun results after the fault", "caller-owned inputs"])

prop("P04", "Saved parameter states survive crashes and disk errors",
 "Saving a sampled parameter state and reading it back yields the same nodes, parameters, sample count and values (text up to surrounding white space and line ends), for one or many samples, and the reloaded state drives the model to the same outputs. "
 "If the process dies, the power fails, the save is interrupted, or the disk fills or errors, at any point of a save, the file afterwards is absent or reads back as the complete previous state or the complete new state, or is rejected with an error when read; it never reads back as anything else, and a failed or crashed overwrite never loses the previous state. "
 "A save that is not allowed to overwrite leaves an existing file untouched and raises, and a save that returned normally is complete.",
 ["crash_points", "fault_sequences", "inputs"],
 "Every system-call boundary of a save as crash point with torn and reordered unsynced writes; ENOSPC, EIO and short writes at every write; all states produced by models.",
 "Tests save to a healthy disk and read back in the same process; no test interrupts a write or inspects what a partially written file loads as.",
 ["graph_state.py"],
 [("save", "graph_state.py:save_to_file"), ("load", "graph_state.py:from_file"), ("table conversion", "graph_state.py:to_table")],
 [("saved state file", "ECSV file on disk", "graph_state.py:save_to_file")], ["file contents after crash", "reloaded state"])

prop("P05", "Saved survey tables survive crashes and disk errors",
 "Writing a survey table to a database file or a parquet file and reading it back yields the same rows, columns and survey settings (where the format carries them). "
 "If the process dies, the power fails, the write is interrupted, or the disk fills or errors at any point of the write, a later read yields the complete previous table, the complete new table, or an error; it never yields a partial or empty table, and a failed or crashed overwrite never loses the previous table. "
 "A write that is not allowed to overwrite raises and leaves the existing file untouched, and other tables in the same database are never affected.",
 ["crash_points", "fault_sequences", "histories"],
 "Every system-call boundary of a table write as crash point with torn and reordered unsynced writes; ENOSPC, EIO and short writes; histories of writes, overwrites and reads.",
 "Tests write once to a healthy disk and read back in the same process.",
 ["obstable/obs_table.py", "obstable/opsim.py"],
 [("database write", "obstable/obs_table.py:write_db"), ("database read", "obstable/obs_table.py:from_db"), ("parquet write", "obstable/obs_table.py:write_parquet"), ("parquet read", "obstable/obs_table.py:from_parquet")],
 [("stored observations", "table in a database or parquet file", "obstable/obs_table.py")], ["table read after crash"])

prop("P06", "Numeric data files are never half-written or half-read",
 "Writing a numeric array with the data-file helpers and reading it back yields the same array in every supported format (text formats: the same float64 numbers, single rows and columns as one dimension); after a crash, power cut, interrupt or disk error at any point of a write, a later read yields the complete previous array, the complete new array, or an error, and a failed or crashed overwrite never loses the previous array. "
 "Reading a numeric array, passband, grid or light-curve library file that was cut off, or whose read fails midway, either raises or yields only complete, unaltered records that precede the damage, in order (a plain-text number cut between its digits, in the last place of a whole row, excepted: nothing in the file tells it from a complete one).",
 ["crash_points", "fault_sequences", "inputs"],
 "Every system-call boundary of a write as crash point; every truncation point and read failure of an input file; all supported suffixes including compressed ones.",
 "Tests round-trip intact files only.",
 ["utils/io_utils.py", "astro_utils/passbands.py"],
 [("array write", "utils/io_utils.py:write_numpy_data"), ("array read", "utils/io_utils.py:read_numpy_data"), ("grid read", "utils/io_utils.py:read_grid_data"), ("library read", "utils/io_utils.py:_read_lclib_data_from_open_file")],
 None, ["file contents after crash", "returned arrays and records"])

prop("P07", "The download cache holds a complete file or none",
 "After a cached download of a data file, whether it succeeded, failed through a dropped connection, a short body, a server error, a timeout or a full disk, or the process died in the middle, the cache path holds either the complete bytes the server served or what was there before; a partial file is never left to be taken for a complete one later. "
 "Once the network works again the next call completes, an existing file is used without touching the network unless a fresh download is forced, and a forced download replaces the old copy with the new bytes or, on failure, raises and keeps the old one.",
 ["fault_sequences", "crash_points", "histories"],
 "All sequences of up to several download calls under connection errors, truncated bodies, HTTP errors, timeouts, disk errors and process crashes, for the transmission-table, plain-file and survey-table users of the cache.",
 "Tests replace the downloader with a stub that always succeeds.",
 ["utils/data_download.py", "astro_utils/passbands.py"],
 [("cached download", "utils/data_download.py:download_data_file_if_needed"), ("passband table cache", "astro_utils/passbands.py:load_transmission_table")],
 [("cache file", "downloaded table on disk, reused by later runs", "utils/data_download.py")], ["cache file bytes", "call outcome", "requests seen by the simulated server"])

prop("P08", "Distributed evaluation of a sample set equals local evaluation",
 "Splitting a sampled parameter state into parts, shipping the parts as in-memory copies, dictionaries, files or pickles to workers that evaluate an equally built model, and reassembling by sample order gives the same parameters and fluxes as evaluating the whole state in one process, even when messages are lost, duplicated, delayed or reordered and workers crash and restart. "
 "Evaluating the same part twice gives the same result, evaluating never changes the state, working in place on a copy or a dictionary form never reaches the original, and a parameter state reassembled from its parts equals the original, while one with a damaged part or renamed parameter does not. "
 "A state written by one process means the same to an equally built model in another once that model has assigned its graph positions, whatever other models either process used before.",
 ["fault_sequences", "schedules", "configurations"],
 "All partitions, transports, message fault sequences, worker crash points and process histories; all models without evaluation-time randomness.",
 "Tests evaluate a state only in the process and object that sampled it, in order and once.",
 ["graph_state.py", "models/physical_model.py", "base_models.py", "simulate.py"],
 [("split", "graph_state.py:extract_single_sample"), ("join", "graph_state.py:from_list"), ("dictionary form", "graph_state.py:to_dict"), ("evaluation", "models/physical_model.py:evaluate_bandfluxes"), ("noise-free light curves", "simulate.py:compute_noise_free_lightcurves")],
 None, ["reassembled fluxes and states"])

prop("P09", "Every sampled parameter set is jointly consistent",
 "In every state sampled from a dependency graph, each component is drawn once per sampling call and every parameter equals the value of the parameter, function or sampler it is linked to, sample by sample, so all users of a shared component see the same draw; this holds through sharing, chains, diamonds, function composition, multi-output components, host/companion inheritance and effect parameters. "
 "Values given by the caller for any parameter are kept verbatim and propagate to everything computed from them. "
 "Sampling N at once keeps every parameter at N entries in a common order, and successive samplings, with links changed in between, always reflect the graph as it is at that time.",
 ["programs", "histories", "inputs"],
 "All dependency graphs over the provided component kinds, all caller overrides, all sample counts and all histories of sampling and re-linking.",
 "Tests cover a few hand-made graphs; which draw a value came from is only visible when every draw is attributed to its component.",
 ["base_models.py", "graph_state.py", "models/multi_object_model.py", "models/snia_host.py", "models/physical_model.py", "math_nodes/given_sampler.py", "math_nodes/single_value_node.py"],
 [("graph walk", "base_models.py:_sample_helper"), ("linking", "base_models.py:set_parameter"), ("fixed values", "graph_state.py:set")],
 [("sampled state", "values per node and parameter", "graph_state.py:states")], ["returned states", "draw log of the simulated random source"])

prop("P10", "Simulated light curves are exactly the survey's view of the model",
 "For every simulated object the returned light curve has exactly one row per survey visit whose pointing covers the object's position and whose time lies in the requested window (and, on request, in the model's valid time range), with that visit's time, filter, survey index and requested extra columns, and the row count reported for the object equals it. "
 "Each row's noise-free flux equals the model's band flux for that object's sampled parameters, its uncertainty equals the survey's point-source uncertainty for that flux at that visit, and its noisy flux is one independent Gaussian draw with that uncertainty. "
 "The object table repeats the sampled position, redshift, reference time, full parameters and requested parameter columns of the same sample, for one or many objects and surveys, including objects with no visits. "
 "The example simulation of a single object keeps the same agreement between visits, filters, fluxes, uncertainties and noise.",
 ["histories", "inputs", "configurations"],
 "All combinations of models, survey tables (one or several), windows, masks, saved columns and sample counts, with the random source under simulator control.",
 "Tests check a handful of fixed surveys and models and cannot attribute noise to draws; row misalignment between objects, surveys and columns is invisible unless every row is distinguishable.",
 ["simulate.py", "obstable/obs_table.py", "models/physical_model.py", "astro_utils/noise_model.py", "obstable/opsim.py", "obstable/ztf_obstable.py", "obstable/fake_obs_table.py"],
 [("assembly", "simulate.py:simulate_lightcurves"), ("visit search", "obstable/obs_table.py:range_search"), ("uncertainty", "obstable/opsim.py:bandflux_error_point_source"), ("noise", "astro_utils/noise_model.py:apply_noise")],
 None, ["returned frame"])

prop("P11", "A passband group always agrees with its member passbands",
 "After any history of loading, subsetting, reprocessing and sharing passbands between groups, including failed or interrupted steps, evaluating a group gives for every filter exactly what that member passband gives on its own for the same spectrum, and the group's wavelength grid contains every member's grid in increasing order. "
 "A passband's transmission stays normalised, so a flat spectrum keeps its value, and band fluxes are linear in the spectrum.",
 ["histories", "fault_sequences", "inputs"],
 "All histories of group and passband operations of bounded length, with failures injected into any call a step makes.",
 "Tests build a group once and evaluate it; no test reprocesses a member after the group was built or shares it between groups.",
 ["astro_utils/passbands.py"],
 [("member grids", "astro_utils/passbands.py:_update_internal_data"), ("reprocessing", "astro_utils/passbands.py:process_transmission_table"), ("integration", "astro_utils/passbands.py:fluxes_to_bandflux")],
 [("in-band indices", "positions of a member's grid in the group grid", "astro_utils/passbands.py:_in_band_wave_indices")], ["band fluxes"])

prop("P12", "Survey queries return exactly the matching visits",
 "At every point of a history of edits (row filtering, added or overwritten columns, changed radius, footprint removed, copies saved and reloaded) and faults, querying a survey table by position, radius and time window returns exactly the visits a full scan would select, once each, as valid positions in the current table, for one or many query points and across the right-ascension wrap and the poles. "
 "Observed/not-observed answers, extracted columns, time bounds, the list of filters and sky coverage agree with the same full scan. "
 "A survey oversampled at a pointing has the requested grid of times with the bands in turn, each row repeating a real visit of that band there.",
 ["histories", "inputs", "fault_sequences"],
 "All histories of edits and queries on all survey-table kinds, with failures injected into any call an edit makes.",
 "Tests query small hand-made tables immediately after construction; stale spatial indexes and row/index mix-ups only appear after edits.",
 ["obstable/obs_table.py", "obstable/opsim.py", "obstable/ztf_obstable.py", "obstable/roman_obstable.py", "astro_utils/detector_footprint.py"],
 [("spatial index", "obstable/obs_table.py:_build_kd_tree"), ("query", "obstable/obs_table.py:range_search"), ("edit", "obstable/obs_table.py:filter_rows")],
 [("spatial index", "index over current rows", "obstable/obs_table.py:_kd_tree")], ["returned visit positions and columns"])

prop("P13", "Samplers stay in their support and finish on any random stream",
 "Whatever values the random source delivers, including its extreme outputs at any position, every provided sampler finishes, returns one entry per requested sample with the declared shape, and returns only values of its declared support: given values and table rows only, intervals respected, weights of zero never selected, sky positions valid, positions drawn from a survey or sky map lying inside its coverage (unless the documented number of tries was used up), and in-order lists delivered in order without skips or repeats until exhausted. "
 "For ordinary streams the long-run frequencies follow the declared distribution.",
 ["fault_sequences", "inputs", "histories"],
 "All random streams, with all-zero and all-one outputs placed at any draw position, over all provided samplers, parameters and sample counts.",
 "A typical stream never contains the extreme outputs (probability 2^-53 per draw), so tests cannot meet them.",
 ["math_nodes/np_random.py", "math_nodes/given_sampler.py", "math_nodes/distribution_sampler.py", "math_nodes/ra_dec_sampler.py", "math_nodes/scipy_random.py", "models/snia_host.py", "models/multi_object_model.py", "astro_utils/snia_utils.py"],
 [("rejection loop", "math_nodes/ra_dec_sampler.py:ObsTableUniformRADECSampler.compute"), ("inverse CDF", "math_nodes/distribution_sampler.py:compute"), ("weighted choice", "math_nodes/given_sampler.py:GivenValueSampler.compute")],
 None, ["sampled values", "draw counts"])

prop("P14", "Flux uncertainties follow the photometric noise model",
 "The point-source uncertainty of a visit is the quadrature sum of source, sky, readout and dark noise in the visit's units, and is non-decreasing in each.",
 ["inputs"], "All visit conditions and fluxes.", "Tests check single values.",
 ["astro_utils/noise_model.py", "astro_utils/zeropoint.py"], [("noise", "astro_utils/noise_model.py:poisson_bandflux_std")])
prop("P15", "Redshift, extrapolation and unit conversions are mutually inverse or consistent",
 "Frame changes, wavelength extrapolation and unit and magnitude conversions conserve energy and invert where an inverse exists.",
 ["inputs"], "All finite inputs.", "Tests check single values.",
 ["astro_utils/redshift.py", "astro_utils/unit_utils.py", "astro_utils/mag_flux.py", "utils/wave_extrapolate.py"], [("redshift", "astro_utils/redshift.py:rest_to_obs_flux")])
prop("P16", "Math expressions evaluate only whitelisted arithmetic",
 "An expression given as text either evaluates to the mathematical value of its arithmetic on the named inputs or is rejected when built; it never runs anything else.",
 ["programs"], "All expression texts.", "Tests try a few expressions.",
 ["math_nodes/basic_math_node.py"], [("expression check", "math_nodes/basic_math_node.py:_prepare")])
prop("P17", "Light-curve post-processing columns agree with the fluxes",
 "Whatever was done to a results frame before (empty light curves dropped, objects selected, reordered, repeated, joined or relabelled, the frame copied or reloaded, columns changed, an augmentation cut short or done already), augmenting it gives every light-curve row the signal-to-noise ratio, detection flag, magnitude and magnitude error that follow from that row's own flux and uncertainty, and the time relative to its own object's reference time; rows whose flux or uncertainty is not positive have no signal-to-noise ratio and no magnitude, and are not detections. "
 "No other value, row, label or order changes, objects without rows stay, and dropping empty light curves removes exactly the objects without rows. "
 "Augmenting twice gives the same as augmenting once, and augmenting a single light curve gives the same columns as augmenting it within a frame.",
 ["histories", "fault_sequences", "inputs"],
 "All histories of operations on results frames of simulations (one or many objects, with and without visits, one or several surveys) and of hand-made extreme rows, with augmentations interrupted at any call.",
 "Tests augment one small frame with default labels right after building it; rows matched by label, masked rows and empty light curves only go wrong after earlier steps.",
 ["utils/post_process_results.py"],
 [("augmentation of a frame", "utils/post_process_results.py:results_augment_lightcurves"), ("augmentation of one light curve", "utils/post_process_results.py:augment_single_lightcurve"), ("removal of empty light curves", "utils/post_process_results.py:results_drop_empty")],
 None, ["light-curve columns of the frame after each step"])
prop("P18", "Model spectra match their published formulas",
 "Each physical or template model returns the spectrum its parameters define, zero outside its valid ranges unless extrapolation was requested.",
 ["inputs"], "All parameters, times and wavelengths.", "Tests check reference points.",
 ["models/salt2_jax.py", "models/agn.py", "models/bayesn.py", "models/basic_models.py", "models/periodic_variable_star.py"], [("spectrum", "models/physical_model.py:compute_sed")])

prop("P19", "Evaluated fluxes are composed from the configured parts, however they are asked for",
 "At every point of a history of configuration steps on a model (effects added to it or to its members, some of these steps rejected or cut short by a failure; redshift handling switched on and off; evaluations, some cut short, in between), every flux returned is the model's own spectrum function at the rest-frame time and wavelength, extrapolated as declared where the model is not defined, with every added effect applied exactly once, in the frame it is declared for and in the order of addition, carried to the observer frame; a step that failed leaves nothing behind. "
 "The value at one time and wavelength (or time and filter) of one sample does not depend on which other times, wavelengths, filters or samples are asked for with it, on their order, repetition or container, or on earlier evaluations, and evaluation arguments reach the model's spectrum function. "
 "An additive model returns the weighted sum of its members, a random choice between models returns the member each sample selected (each member can be selected), for spectra and band fluxes alike and for composites of composites.",
 ["histories", "fault_sequences", "inputs"],
 "All histories of configuration steps and evaluations of leaf models, composites and nested composites, with steps rejected or cut at any point, and all ways to split, order, repeat and pass the requested points.",
 "Tests evaluate one fresh model once on one sorted grid; wrong order of effects, leftovers of a rejected step, results depending on the rest of the request and members sharing state only show after several steps or in other request shapes.",
 ["models/physical_model.py", "models/multi_object_model.py", "effects/effect_model.py", "effects/basic_effects.py", "utils/wave_extrapolate.py"],
 [("evaluation of spectra", "models/physical_model.py:evaluate_sed"), ("band fluxes", "models/physical_model.py:evaluate_bandfluxes"), ("adding effects", "models/physical_model.py:add_effect"), ("additive models", "models/multi_object_model.py:AdditiveMultiObjectModel"), ("random models", "models/multi_object_model.py:RandomMultiObjectModel")],
 None, ["returned flux arrays", "raised errors"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
