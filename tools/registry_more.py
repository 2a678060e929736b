prop(
    "C06",
    "Saving and loading a spectrum object loses and changes nothing",
    "Writing any valid power-spectrum object to a file or into a container and reading it back - into a new or an already used "
    "object, over an older file, or a second time - yields the same values, covariances, window functions, statistics, beam "
    "integrals, labels, weighting parameters and all other stored metadata bit for bit; no content of the previously held or "
    "previously stored object survives, and saving does not alter the object.",
    ["inputs", "histories"],
    "every combination of optional content (covariance, window-function kind, statistics, beam integrals, cosmology, weighting parameters, folding) on three shapes, through every storage path",
    "The tests round-trip one or two files; combinations of optional arrays, statistic names and reuse of objects are not covered.",
    [U],
    [("write", U + ":UVPSpec.write_to_group/write_hdf5"), ("read", U + ":UVPSpec.read_from_group/read_hdf5"), ("clear before read", U + ":UVPSpec._clear")],
    "model_checking",
    "exhaustive enumeration of the optional-content lattice, each state written and read back through the real code",
    "bounded object sizes; comparison is bit-exact; one known finding (symmetric_taper is not stored)",
)
prop(
    "C07",
    "Partial and metadata-only reads equal a full read then a selection",
    "Reading a stored object with a choice of windows, baselines, baseline-pairs, times, LSTs or polarization pairs gives exactly "
    "what reading everything and then making the same selection gives, in every array and every piece of metadata (counts, "
    "baseline table, labels, beam integrals, weighting parameters). A metadata-only read gives the same metadata, and a request matching nothing is refused.",
    ["inputs", "configurations"],
    "every subset request on every axis of six small objects (ragged, folded, exact windows, four polarizations) in full, partial and metadata-only form",
    "The tests compare a couple of partial reads on one file; index-list versus slice paths and rarely used optional arrays need all subsets.",
    [U, UU],
    [("selection on a file group", UU + ":_select(h5file=...)"), ("reader", U + ":UVPSpec.read_from_group")],
    "model_checking",
    "exhaustive enumeration of read requests, three real read paths compared with each other and with the relational model",
    "bounded object sizes; comparison is bit-exact",
)
prop(
    "C09",
    "Every spelling of a key reaches the same spectrum and no other",
    "Baseline, baseline-pair and polarization-pair integers decode to exactly the numbers they were made from, for every antenna "
    "and polarization, and conjugation swaps exactly what it says. Every accepted spelling of a window, baseline-pair, "
    "polarization-pair or time (tuple, dictionary, integer, string, list in any order) addresses exactly the rows carrying those "
    "labels, for data, weights, integrations, samples, windows, covariances and statistics; storing a statistic changes only its "
    "own rows, and omitting flagged integrations removes exactly those.",
    ["inputs", "configurations"],
    "all baselines of antennas 0-899, boundary baseline-pairs, all 144 polarization-pairs; every key in every spelling on six objects; all subsets of flagged rows",
    "Tests decode a handful of integers and fetch a few keys from a file with one window and polarization.",
    [U, UU],
    [("encodings", UU + ":_antnums_to_blpair/_blpair_to_antnums/polpair_tuple2int/polpair_int2tuple"), ("key resolution", U + ":UVPSpec.key_to_indices"), ("index functions", U + ":UVPSpec.spw_to_*_indices/time_to_indices")],
    "model_checking",
    "explicit enumeration of the whole encoding space and of every key spelling, compared with label-keyed cells",
    "antenna numbers below 900; bounded object sizes",
)
prop(
    "C17",
    "Two spectrum objects compare equal exactly when their content agrees",
    "Comparing two power-spectrum objects says equal when every registered attribute agrees (a copy, a re-read file, two "
    "metadata-only reads) and unequal as soon as any single entry differs beyond floating-point tolerance: any data, weight, "
    "covariance, window-function or statistic value, any time, baseline-pair, polarization, frequency, label or count, any shape, "
    "any missing or additional window, statistic or optional attribute. The answer is symmetric and comparison never raises.",
    ["inputs"],
    "every single-place mutation of every attribute of three objects covering all optional content",
    "Equality is the oracle most tests lean on; they only ever use it on objects that are equal, so what it ignores is invisible to them.",
    [U],
    [("equality", U + ":UVPSpec.__eq__"), ("parameter registration", U + ":UVPSpec.__init__ (_all_params)")],
    "model_checking",
    "exhaustive enumeration of single-place mutants of each object, each compared in both directions",
    "differences below 1e-5 relative are not distinguished by design; symmetric_taper is not a registered parameter",
)
prop(
    "C10",
    "Splitting and combining spectra are inverse in any order; overlap is refused",
    "Cutting a set of power spectra along one axis (windows, baseline-pair-times or polarization pairs) into any number of objects, "
    "storing each in any internal order, and combining them in any order - in one call, recursively or by addition - returns "
    "every spectrum with its own labels, times, weights, windows, covariances, statistics, normalisation, dataset labels, beam "
    "integrals and weighting parameters, and nothing else; inputs are not altered. Objects that overlap, that differ on several "
    "axes, or whose fixed metadata or normalisations disagree are refused.",
    ["inputs", "schedules"],
    "all set partitions of each axis x all orders of the blocks x internal orders; all 729 pairs (thorough: 19,683 triples) of sub-boxes of a 2x2x2 object",
    "Tests combine two or three fixed pieces in one order; wrong rows or windows only show when the pieces are stored in another order or share a first time.",
    [U, UU],
    [("combination", U + ":combine_uvpspec"), ("overlap decision", U + ":get_uvp_overlap"), ("recursive combination", U + ":recursive_combine_uvpspec")],
    "model_checking",
    "explicit-state enumeration of partitions, permutations and overlaps on the relational model, each replayed on the real code",
    "bounded object sizes; comparison is bit-exact",
)
G = "src/hera_pspec/grouping.py"
prop(
    "C11",
    "Averaging spectra is the documented weighted mean for every grouping",
    "For any grouping of baseline-pairs (ordered, partial, or with repeated members), any relative baseline-pair weights, with or "
    "without averaging over time, and with integration-time or inverse-variance weights, the averaged power, visibility weights, "
    "integration times, window functions, covariances and error statistics are exactly the documented weighted mean of the "
    "samples that went in, sample counts add up, and each result carries the label, times, LSTs (circular mean) and dataset "
    "labels of its group's first baseline-pair. Results do not depend on the units of the statistics; zero-weight samples do not "
    "contribute; the arguments, and without in-place mode the input object, are untouched; inconsistent requests are refused.",
    ["inputs", "configurations"],
    "every ordered list of disjoint ordered groups of three baseline-pairs and every weight vector over a small set, on eleven kinds of object",
    "The tests average a handful of groupings with unit or integer weights on one file, and compare shapes or a single value.",
    [G, U],
    [("averaging", G + ":average_spectra"), ("method", U + ":UVPSpec.average_spectra")],
    "model_checking",
    "exhaustive enumeration of groupings, weights and options on the real code against the weighted mean on a label-keyed view",
    "three baseline-pairs and at most three times per object; comparison to 1e-9 relative",
)
prop(
    "C12",
    "Folding averages matching delays, zeroes the negative half and happens once",
    "Folding a spectrum replaces each positive-delay power by the mean of the powers at plus and minus that delay, combines "
    "covariances, window functions and error statistics over the same pairs of delays, doubles the sample counts, leaves zero "
    "power at negative delays, and changes nothing else; accessors then show positive delays only, all of equal length. This holds "
    "for even and odd numbers of delays and for delay-only or exact window functions; a second fold is refused and changes nothing.",
    ["inputs", "configurations"],
    "every number of delay bins (even and odd, differing between windows) with every combination of optional content",
    "The tests fold two files; the optional arrays and the even/odd branches are mostly not compared with an independent calculation.",
    [G, U],
    [("folding", G + ":fold_spectra"), ("folded accessors", U + ":UVPSpec.get_data/get_cov/get_window_function/get_stats/get_dlys")],
    "model_checking",
    "exhaustive enumeration of delay-axis sizes and optional content on the real code against a reference fold of a label-keyed view",
    "3 to 9 (thorough 14) delay bins per window; the package's own factor 1/4 for folded delay window functions is taken as specified",
)
prop(
    "C13",
    "Sequences of operations on spectra follow one algebra in every order",
    "For any sequence of selecting (by window, polarization pair, baseline-pair, baseline or time), folding, averaging (over times "
    "or baseline-pairs, with either weighting), writing and reading back whole or in part, storing in a container, and cutting "
    "into pieces and recombining, the resulting object holds exactly the spectra, labels and counters that applying each "
    "operation's definition to the labelled spectra gives. So operations that commute by definition commute in fact, storage and "
    "recombination are invisible at any point, and no operation that is not in place changes the object it was applied to.",
    ["histories", "inputs"],
    "all operation sequences over an 18-letter alphabet up to a depth bound from five kinds of object",
    "The tests apply one operation to freshly read files; objects that are already folded, averaged, ragged or recombined are rarely used as inputs.",
    [U, UU, G],
    [("select", UU + ":_select"), ("combine", U + ":combine_uvpspec"), ("average", G + ":average_spectra"), ("fold", G + ":fold_spectra"), ("storage", U + ":UVPSpec.write_to_group/read_from_group")],
    "model_checking",
    "stateful depth-bounded exploration of operation sequences on the real code against an algebraic model on label-keyed views",
    "sequences of at most 3 (thorough 4) operations on objects with at most 3 baseline-pairs, 3 times, 3 windows, 2 polarization pairs",
)
PD = "src/hera_pspec/pspecdata.py"
prop(
    "C19",
    "What the estimator computes depends on its current settings, not on its history",
    "After any sequence of configuration calls on a PSpecData object - spectral window, number of delays, data weighting, filter "
    "parameters, taper and its symmetric form, filter extension, editing or adding datasets - with any quantities computed in "
    "between, every data vector, weight, covariance, weighting matrix, response matrix and unnormalised power equals that of a new "
    "object given only the final datasets and settings. Cached matrices never survive a change that alters them; filter extensions "
    "always stay inside the data range; settings that contradict each other are refused without effect.",
    ["histories", "configurations"],
    "all sequences over 21 configuration calls and 5 data-editing calls up to a depth bound, all matrices evaluated after every call",
    "Tests configure an object once and evaluate it; the caches are keyed by only part of what their contents depend on, so stale values appear only after particular re-configurations.",
    [PD],
    [("setters", PD + ":PSpecData.set_spw/set_weighting/set_taper/set_symmetric_taper/set_filter_extension/set_r_param"), ("caches", PD + ":PSpecData.C_model/I/iC/Y/R/clear_cache"), ("dataset edits", PD + ":PSpecData.Jy_to_mK/trim_dset_lsts/broadcast_dset_flags/add")],
    "model_checking",
    "stateful depth-bounded exploration of call sequences on the real object, each state compared with a fresh object in the model's configuration",
    "sequences of at most 3 (thorough 4) configuration calls; two datasets of 9 channels and 6 times",
)
prop(
    "C21",
    "Power, windows, covariances and weights follow the estimator's formulas",
    "For every baseline-pair, weighting, taper, filter extension, number of delays, normalisation, sampling mode and flag pattern, "
    "pspec() stores the power M q with q_a = 1/2 x1^H R1^H Q_a R2 x2, window functions W = M H with unit rows, the covariance of "
    "the real and imaginary parts that the chosen noise model gives for each integration, and the weights and effective integration "
    "times of that window. The methods it is made of (q_hat, get_G, get_H, get_MW, get_unnormed_E/V, cov_q_hat, scalar_delay_adjustment, get_Q_alt, ...) give "
    "the same called one by one, for any settings, covariance model and list of times. The FFT shortcut gives the same values; beam scalars and exact normalisation enter once; data in small "
    "units scale the result exactly; a flagged sample or zero-sample integration contributes as documented.",
    ["inputs", "configurations"],
    "all combinations of weighting x taper x extension x delays x normalisation x sampling x flag pattern x pair kind on small windows",
    "Tests check a few configurations against stored numbers or statistical expectations; interactions (extensions, time-varying flags, fewer delays, covariance models) are mostly not compared with the definition.",
    [PD],
    [("estimator", PD + ":PSpecData.q_hat/R/get_G/get_H/get_MW/p_hat"), ("covariance", PD + ":PSpecData.get_analytic_covariance/get_unnormed_E/get_unnormed_V"), ("driver", PD + ":PSpecData.pspec")],
    "model_checking",
    "exhaustive enumeration of estimator configurations on the real code against a reference written from the formulas as explicit traces",
    "windows of 4-5 channels plus extensions in 9-channel data, 3-9 times, all 32 channel-flag patterns for identity weighting and 7 structured ones elsewhere",
)
prop(
    "C20",
    "One pspec() call over many windows, pols and pairs equals the single calls",
    "For any ordered lists of spectral windows (each with its own delay count and filter extension), polarization pairs and "
    "baseline-pairs, the object pspec() returns holds in each cell what a call for that window, polarization pair and baseline-pair "
    "alone on a new PSpecData returns, and its metadata (times, LSTs, baseline-pairs, baseline vectors, polarizations, "
    "frequencies, delays, labels, settings, history text) describe exactly those cells. Polarization pairs absent from the data "
    "are left out and change nothing else. Earlier calls or settings on the object do not matter, and neither datasets nor "
    "arguments are modified.",
    ["inputs", "histories", "configurations"],
    "every ordered list of windows up to a length, with lists of polarization and baseline pairs, under every estimator option; all sequences of calls",
    "Tests run a few multi-window calls and look at shapes; matrices cached or settings changed by one window, polarization or pair can leak into the next only in particular combinations.",
    [PD],
    [("driver", PD + ":PSpecData.pspec"), ("identity cache", PD + ":PSpecData._identity_G/_identity_H"), ("polarization check", PD + ":PSpecData.validate_pol")],
    "model_checking",
    "exhaustive enumeration of window / polarization / pair lists and of call sequences on the real code, compared cell by cell with single calls on new objects",
    "five windows (lists of up to 2, thorough 3), six polarization lists, four pair lists, 40 option sets; sequences of 2 (thorough 3) calls out of 12",
)
prop(
    "C22",
    "Broadcasting flags makes them time-independent and flags nothing else",
    "Within each requested spectral window, broadcast_dset_flags flags a channel at all times exactly when the fraction of "
    "integrations flagged there, among those not wholly flagged in the window, exceeds the threshold; any other flagged sample "
    "flags its integration across the window. Flags outside the windows, and data, sample counts and times everywhere, stay as they "
    "were; windows do not influence each other, so their order is irrelevant; a repeated call follows the same rule. Unflagging clears "
    "exactly the flags of the windows.",
    ["inputs"],
    "all flag waterfalls of small size with all window lists and thresholds",
    "Tests broadcast the flags of one file over one window; windows that cover part of the band and rare patterns are not examined.",
    [PD],
    [("broadcast", PD + ":PSpecData.broadcast_dset_flags")],
    "model_checking",
    "exhaustive enumeration of flag patterns x windows x thresholds on the real code against a per-window reference",
    "waterfalls of up to 4x3 and 2x5 (thorough 4x4 and 3x5) cells",
)
prop(
    "C14",
    "Bootstrap samples are averages with the drawn weights; errors are their spread",
    "For any baseline-pair groups and any draw, a bootstrap sample is the average of each group with every member weighted by how "
    "often it was drawn, over one object or several (sharing windows and polarization pairs); weights are whole numbers summing to "
    "the group size, and a seed fixes the draw. bootstrap_resampled_error stores the uniform average with the standard deviation, "
    "robust deviation or percentiles of exactly the returned samples, real and imaginary parts apart. bootstrap_run stores the "
    "average (and samples) of each requested spectrum beside it, leaves all others alone and replaces nothing without leave. Inputs are not modified. "
    "group_baselines cuts its list, in order or shuffled, into equal groups.",
    ["inputs", "schedules", "configurations"],
    "all sequences of draws for small groups, all error options, all container states",
    "Tests run the random sampler with a few seeds and look at shapes or statistics; which member a weight belongs to, objects with different members and reruns over existing outputs are not decided by that.",
    [G, C],
    [("sampler", G + ":bootstrap_average_blpairs"), ("errors", G + ":bootstrap_resampled_error"), ("driver", G + ":bootstrap_run"), ("grouping", G + ":group_baselines/sample_baselines")],
    "model_checking",
    "enumeration of every sequence of draws through a controlled random source on the real code, compared with a label-keyed weighted average",
    "groups of at most three members, at most two groups or two objects; lists of up to nine baselines",
)
prop(
    "C15",
    "The spherical average is the weighted mean of the bandpowers within each |k| bin",
    "For any |k| bins (gappy, unequal, partly empty), baseline-pairs, row order, flagging and weighting (uniform, error bars, "
    "covariance), each bin of each time, window and polarization pair holds the weighted mean of the bandpowers whose "
    "|k| = sqrt(k_perp^2 + k_para^2) lies in it, with error bars, covariance and window functions propagated through the same "
    "matrix, each pair's window rebinned with its own |k|. Times, LSTs, labels and bins describe the result; requested grouping and "
    "time averaging are applied first; integration times are weighted means. Exact spherical windows are per-time means over the "
    "selected bandpowers, normalised to one. Inputs and arguments are not modified.",
    ["inputs", "configurations"],
    "all combinations of layouts, baseline sets, bins, weights and flags of a bounded family",
    "Tests average one file onto one grid and check shapes or approximate values; rows in another order, several times, pairs of different length and empty bins are not compared with the definition.",
    [G],
    [("average", G + ":spherical_average"), ("exact windows", G + ":spherical_wf_from_uvp"), ("k axes", UU + ":UVPSpec.get_kperps/get_kparas")],
    "model_checking",
    "exhaustive enumeration of object layouts x bin families x weightings on the real code, each compared with a least-squares mean written from |k|",
    "up to three baseline-pairs, three times, two windows of at most six delays, eight families of bins",
)
prop(
    "C16",
    "Binning along delay applies one kernel to data, errors, windows and covariance",
    "average_in_delay_bins replaces the delays of each window by bins symmetric about zero delay: data, delays and window functions "
    "by their kernel-weighted mean, covariances by the kernel on both sides, error bars by the kernel-weighted mean square (or, with "
    "a covariance and if asked, through its correlations); incomplete bins and the extra negative delay of an even axis are dropped; "
    "infinite error bars stay infinite. Times, labels, weights and samples stay, counts match the new axes, and the result can be "
    "selected, averaged, stored and reloaded. Inputs and kernels are not modified; folded objects and oversized kernels are refused.",
    ["inputs", "configurations"],
    "all combinations of axis lengths, kernels, zero-delay kernels and stored quantities of a bounded family",
    "Tests use flat kernels on one axis length; asymmetric kernels, even axes, several windows of different length and infinite error bars are not compared with the definition.",
    [G],
    [("binning", G + ":average_in_delay_bins"), ("slices", G + ":_get_delay_slices"), ("kernels", G + ":_bin_data_like_array/_bin_rms_like_array/_bin_cov_like_array")],
    "model_checking",
    "exhaustive enumeration of axis lengths x kernels x stored quantities on the real code against explicit kernel sums on a label-keyed view",
    "5-13 (thorough 5-19) delays, nine kernels, six zero-delay kernels, two windows, two polarization pairs",
)
prop(
    "C18",
    "Common selection keeps exactly the shared cells; subtraction pairs equal labels",
    "select_common restricts each of two or more objects to the windows, baseline-pairs, times, LSTs and polarization pairs that all "
    "of them have (on the requested axes only), unchanged otherwise, and refuses an empty intersection. subtract_uvp returns, for "
    "every window, polarization pair, baseline-pair and LST present in both objects, the first power minus the second with those same "
    "labels, whatever the row, window or polarization order or folding; error bars add in quadrature, samples, integrations and "
    "weights inversely so. Inputs are not modified.",
    ["inputs"],
    "all ordered pairs of objects of a family differing in every axis, order and raggedness, with all 2^5 axis settings",
    "Tests subtract an object from itself or from a copy; equal labels in different rows or positions never meet.",
    [UT],
    [("selection", UT + ":select_common"), ("difference", UT + ":subtract_uvp")],
    "model_checking",
    "exhaustive enumeration of object pairs and settings on the real code against set intersection and difference of label-keyed tables",
    "fourteen objects of at most two windows, two polarization pairs, three baseline-pairs, three times; triples of a sub-family",
)
prop(
    "C04",
    "Merging the spectra of a container combines equal names and loses nothing",
    "combine_psc_spectra (and psc_merge_spectra.py) replaces, in every group, the spectra whose names agree up to the extension by "
    "one spectrum of that base name holding exactly the union of their cells; spectra of other names, however similar, stay as they "
    "are, and spectra that cannot be combined stay under their own names. A base name that exists is replaced only if overwriting "
    "was asked for. It works alike on open, reopened and path containers, is idempotent, and a failure at any HDF5 step of the merge "
    "never removes a stored cell or changes another spectrum.",
    ["inputs", "histories", "crash points"],
    "all sets of names of pools sharing prefixes, substrings and extensions; all fault points of a merge",
    "Tests merge one container with a single well-separated family of names; names that contain each other, reruns and failures part-way are not sampled.",
    [C, UU],
    [("merge", C + ":combine_psc_spectra"), ("combination", UU + ":combine_uvpspec via recursive_combine_uvpspec")],
    "fault_enumeration",
    "exhaustive enumeration of name sets x conventions x container states on the real code against a map model, with a failure injected at every HDF5 step",
    "up to four (thorough five) names; injected failures surface as exceptions",
)
prop(
    "C05",
    "Merging single-baseline files does not depend on batch size or order",
    "fast-merge-baselines turns any set of containers holding one baseline-pair each into one container whose spectra hold exactly "
    "the union of the cells of the inputs with their labels, the same for every batch size and for every order in which the files "
    "are found. Extra attributes map each baseline-pair to the value of its own file. Inputs stay as they are, and so do other "
    "spectra of an existing output.",
    ["inputs", "configurations"],
    "all assignments of files to baseline-pairs, batch sizes and content families up to the bound",
    "The merge order follows file names and batch size; tests run one set of files with one batch size.",
    [CLI, UU],
    [("command", CLI + ":fast_merge_baselines"), ("merge", UU + ":recursive_combine_uvpspec")],
    "model_checking",
    "exhaustive enumeration of file assignments x batch sizes on the real command, compared with the union of label-keyed cells",
    "at most 6 (thorough 8) files of disjoint cells",
)
prop(
    "C23",
    "Redundant baseline-pairs are exactly the admissible pairs, each once",
    "For any antenna layout, pair of datasets and exclusion options, calc_blpair_reds and config_pspec_blpairs return exactly the "
    "ordered pairs of baselines that are redundant within tolerance, present in their dataset (as stored or reversed), within the length and "
    "angle ranges and not excluded by flags, each once, grouped by redundancy, and permutations are excluded exactly when asked. "
    "construct_blpairs returns every pair of a baseline list that its options admit. Redundant groups partition the baselines, and the groups, lengths and "
    "angles of a spectrum object agree with antenna positions for every subset of its baselines.",
    ["inputs", "configurations"],
    "all antenna layouts, baseline sets, flag patterns and option combinations of a bounded family",
    "The pairs decide which data are ever multiplied. Tests use one array and mostly equal baseline sets; reversed or missing baselines, flags in one dataset, thresholds and option combinations are not crossed.",
    [UT, PD],
    [("pairs", UT + ":calc_blpair_reds"), ("lists", PD + ":construct_blpairs"), ("groups", UT + ":get_reds/get_blvec_reds"), ("files", UT + ":config_pspec_blpairs")],
    "model_checking",
    "exhaustive enumeration of layouts x baseline sets x flags x options on the real code against pairs enumerated from antenna positions",
    "at most six antennas; separations well inside or well outside the tolerance",
)
prop(
    "C25",
    "The job monitor runs each failed job again, and only those, and reports the rest",
    "For every sequence of jobs, every schedule of failures and every map function, each job is executed once, each job that failed "
    "is executed again with its own element until it succeeds or the tries are used up, no job that succeeded is executed again, and "
    "the failures returned are exactly the jobs whose last execution failed.",
    ["schedules", "histories"],
    "all failure schedules of up to five (thorough six) jobs under every bound on tries and several map orders",
    "A batch that silently skips or repeats jobs loses data; tests run one job list whose elements equal their indices.",
    [UT],
    [("monitor", UT + ":job_monitor")],
    "model_checking",
    "exhaustive enumeration of failure schedules on the real monitor against a retry model",
    "up to five (thorough six) jobs",
)
prop(
    "C26",
    "Pseudo-Stokes visibilities combine the cells with equal labels, and nothing else",
    "For any two datasets holding linear polarizations in any order, a constructed pseudo-Stokes visibility has in every baseline, "
    "time and channel the documented combination of the two polarizations, is flagged where either is, and carries their combined sample counts; the polarization "
    "convention decides the factor. Datasets that differ in baselines, times, LSTs or frequencies are refused, inputs stay as they "
    "are, and files, objects, integers and strings give the same result, also through the command-line script.",
    ["inputs", "configurations"],
    "all pairs of polarization subsets and orders, all Stokes parameters, flag and sample patterns",
    "Tests combine one dataset in one order; polarizations in another order, partial flags, conventions and the script are not compared with the definition.",
    ["src/hera_pspec/pstokes.py", "scripts/generate_pstokes_run.py"],
    [("construct", "src/hera_pspec/pstokes.py:construct_pstokes"), ("combine", "src/hera_pspec/pstokes.py:_combine_pol"), ("arrays", "src/hera_pspec/pstokes.py:_combine_pol_arrays"), ("filter", "src/hera_pspec/pstokes.py:filter_dset_on_stokes_pol")],
    "model_checking",
    "exhaustive enumeration of polarization sets x orders x flags on the real code against a per-label combination",
    "three baselines, two times, three channels",
)
prop(
    "C27",
    "Delta^2, new cosmologies and noise curves use each bandpower's own k and scalar",
    "In any order with folding, selecting, averaging, storing and reloading: convert_to_deltasq multiplies every bandpower and error bar by "
    "k^3/2pi^2 of its own window, baseline-pair and delay (covariances by the product), and set_cosmology rescales power, errors and "
    "covariances by exactly the change of scalar (and of k^3) in the object's own length units, or does nothing without overwrite. "
    "generate_noise_spectra gives each requested baseline-pair and time the documented P_N from its own Tsys, integration, samples and k, "
    "for every form of the arguments. Distances and conversions agree with the integrals that define them.",
    ["inputs", "histories"],
    "all operation sequences up to depth 3 (thorough 4) over thirteen operations on eight (thorough 72) object kinds; all argument combinations of noise curves; a grid of cosmologies and redshifts",
    "Tests convert one object once; commutation with folding, selection, other cosmologies and unequal baselines is not tested.",
    [U, "src/hera_pspec/conversions.py", "src/hera_pspec/noise.py"],
    [("Delta^2", U + ":UVPSpec.convert_to_deltasq"), ("cosmology", U + ":UVPSpec.set_cosmology/compute_scalar"), ("noise", U + ":UVPSpec.generate_noise_spectra"), ("distances", "src/hera_pspec/conversions.py:Cosmo_Conversions"), ("k", U + ":UVPSpec.get_kparas/get_kperps")],
    "model_checking",
    "exhaustive enumeration of operation sequences and argument combinations on the real code against a label-keyed model with independent distance integrals",
    "two windows, two polarization pairs, three baseline-pairs, two times",
)
prop(
    "C24",
    "The pipeline driver stores exactly what the documented steps produce",
    "For every combination of options, pspec_run stores under the documented group and names, for each dataset pair that has matching baseline-pairs, "
    "exactly the spectra that loading, interleaving, trimming, rephasing, flag broadcasting, unit conversion, pair selection and one pspec call "
    "produce one at a time; nothing else is stored, nothing is overwritten unless asked, contradictory options are refused, and "
    "data given as objects, files, lists of files or patterns, and options given as arguments or command-line words, have the same effect. "
    "Covariances given by the caller pass through unchanged.",
    ["inputs", "configurations"],
    "all single values and all pairs (thorough: also core triples) of the driver's options",
    "Tests run the driver with a handful of option sets and look at names; interactions of options and the stored values are not compared with the steps.",
    [PD, "scripts/pspec_run.py"],
    [("driver", PD + ":pspec_run"), ("loading", PD + ":_load_dsets"), ("options", PD + ":get_pspec_run_argparser"), ("script", "scripts/pspec_run.py")],
    "model_checking",
    "exhaustive enumeration of option values and their pairs on the real driver against the documented steps run one at a time",
    "five baselines, six times, eight channels, two polarizations, up to three datasets",
)
prop(
    "C30",
    "Noise error bars come from each bandpower's own autocorrelations and power",
    "uvp_noise_error gives each baseline-pair, time, window and polarization P_N from the autocorrelations of its own antennas at its own two "
    "times, averaged over unflagged channels with the taper (infinite when all is flagged, never zero), and P_SN from its own power, with the correction "
    "applied once; a precomputed P_N or statistics already present are honoured. uvd_to_Tsys scales each polarization by its own beam; "
    "set_stats_slice cuts exactly the delays beyond the line; add_approximate_covariance has the stated variances and correlations; the script equals the functions.",
    ["inputs", "configurations"],
    "all flag patterns of two baselines over three to six times, all layouts x polarizations x files, all argument combinations",
    "Tests use one unflagged data set with one polarization; flagged times, other orders, interleaved times and single-time fallbacks are not compared.",
    [UT, U, NO, "scripts/auto_noise_run.py"],
    [("P_N, P_SN", UT + ":uvp_noise_error"), ("correction", UT + ":apply_P_SN_correction"), ("Tsys", UT + ":uvd_to_Tsys"), ("cut", U + ":UVPSpec.set_stats_slice"), ("covariance", U + ":UVPSpec.add_approximate_covariance"), ("script", "scripts/auto_noise_run.py")],
    "model_checking",
    "exhaustive enumeration of flag patterns, layouts and arguments on the real code against a per-label computation",
    "three baseline-pairs, up to six times, six channels",
)
prop(
    "C32",
    "The bootstrap script stores what the function stores for every option spelling",
    "For every combination of command-line words, bootstrap_run.py leaves the container exactly as bootstrap_run does when called with the "
    "values the words state (documented defaults where no word is given): same names, data, error bars and histories; it refuses what the "
    "function refuses and words that mean nothing, and then leaves the container as it was.",
    ["inputs", "configurations"],
    "all single option values and all pairs (thorough: triples)",
    "The script is never run by the tests; it failed on every call before it was repaired.",
    [G, "scripts/bootstrap_run.py"],
    [("options", G + ":get_bootstrap_run_argparser"), ("driver", G + ":bootstrap_run"), ("script", "scripts/bootstrap_run.py")],
    "model_checking",
    "exhaustive enumeration of option words and their pairs on the real script against the function called on a copy",
    "three stored spectra in two groups",
)
UW = "src/hera_pspec/uvwindow.py"
prop(
    "C28",
    "Trimming, rephasing and differencing touch the right integrations",
    "trim_dset_lsts leaves in every dataset, and in its weights and standard deviations, exactly the integrations whose LST, within the tolerance and modulo 24 h, every other dataset has too; "
    "nothing else changes. rephase_to_dset multiplies each baseline, polarization, time and channel of every other drift-scan dataset by the fringe of its own "
    "LST offset from the anchor, whatever the order of rows and polarizations; the anchor, flags, weights and datasets that are no drift scans stay as they are, also when repeated. "
    "uvd_time_difference gives (V(t)-V(t'))/sqrt(2) of neighbouring integrations of the same baseline, flagged where either is.",
    ["inputs", "histories"],
    "all windows of a common LST grid for two and three datasets, all anchors, offsets, orders and flag patterns within bounds",
    "Tests rephase identical datasets and trim one pair; other orders of rows or polarizations, rounding boundaries, 24 h wraps and repeated calls are never compared.",
    [PD, UT],
    [("trim", PD + ":PSpecData.trim_dset_lsts"), ("rephase", PD + ":PSpecData.rephase_to_dset"), ("difference", UT + ":uvd_time_difference")],
    "model_checking",
    "exhaustive enumeration of dataset layouts and call sequences on the real code against a label model and a geometric phasor",
    "three datasets, up to nine times, four baselines",
)
prop(
    "C29",
    "Frequency and redshift ranges select exactly the documented channels",
    "spw_range_from_freqs returns the first and last channel with lower <= frequency < upper for one range or a list of ranges, (None, None) when there is none, "
    "and refuses inverted ranges and, with bounds_error, ranges beyond the band; spw_range_from_redshifts does the same through z. The delays, frequencies and window labels of "
    "a spectrum computed on any channel range and number of delays are those of that range.",
    ["inputs"],
    "all bounds on a quarter-channel grid around bands of one to seven channels, all channel ranges and numbers of delays",
    "Tests look up a handful of ranges.",
    [UT, PD],
    [("lookup", UT + ":spw_range_from_freqs"), ("redshifts", UT + ":spw_range_from_redshifts"), ("delays", UT + ":get_delays"), ("window", PD + ":PSpecData.set_spw")],
    "model_checking",
    "exhaustive enumeration of bounds on the real code against a scan of the channels",
    "up to seven channels (thorough nine)",
)
prop(
    "C33",
    "Exact windows follow from the beams, channels and baseline of each spectrum",
    "For every spectrum the exact window function is the one of its own polarization pair's beams, its own window's channels, its taper and its baseline length: the beam interpolated over "
    "the k_perp plane, transformed along frequency, averaged in the stated bins at its own delay, with unit sum. Spherical windows are the weighted means of these. "
    "The result is the same for beams given as file or object, in place or returned, one window or all, and as written to a file; beams and data are not changed.",
    ["inputs", "configurations"],
    "all numbers of channels 3-9 x tapers x beam pairs x lengths x units x bins; all polarization sets, windows and groups of objects",
    "Tests only check shapes and errors, and need data files that are not shipped.",
    [UW, U],
    [("cylindrical", UW + ":UVWindow.get_cylindrical_wf"), ("spherical", UW + ":UVWindow.cylindrical_to_spherical"), ("beam", UW + ":FTBeam.from_file"), ("from spectra", UW + ":UVWindow.from_uvpspec"), ("objects", U + ":UVPSpec.get_exact_window_functions")],
    "model_checking",
    "exhaustive enumeration of configurations on the real code against an independent computation by direct sums",
    "nine-pixel beams, up to nine channels (thorough twelve)",
)
PL = "src/hera_pspec/plot.py"
prop(
    "C31",
    "Beams answer each polarization with its own solid angles; scalars follow",
    "A beam model given as arrays, dict, file, UVBeam or Gaussian returns for every polarization, in every spelling, the solid angles last given for it, at the requested frequencies; it refuses polarizations it does not have; "
    "the caller's arrays, dicts and beams are not changed. The Jy-to-mK factor is that of Omega_P at each frequency, and the power-spectrum scalar the band average of X2Y Omega_P^2/Omega_PP with the taper's and units' factors. "
    "PSpecData.Jy_to_mK converts each dataset in Jy exactly once, with each polarization's own factor, standard deviations included, however often it is called and however datasets share objects; others are unchanged.",
    ["inputs", "configurations", "histories"],
    "all operation sequences to depth 3 (thorough 4) on array beams; all classes x polarizations x frequency arguments x bands; all dataset combinations to three",
    "Tests evaluate one or two beams at one polarization and compare with stored numbers; sequences of additions, spellings, aliasing and mixed datasets are never compared.",
    [BE, PD],
    [("array beam", BE + ":PSpecBeamFromArray"), ("UVBeam", BE + ":PSpecBeamUV"), ("Gaussian", BE + ":PSpecBeamGauss"), ("factor", BE + ":PSpecBeamBase.Jy_to_mK"), ("scalar", BE + ":PSpecBeamBase.compute_pspec_scalar"), ("datasets", PD + ":PSpecData.Jy_to_mK")],
    "model_checking",
    "exhaustive enumeration of operation sequences and configurations on the real code against a map of curves and direct quadrature",
    "seven channels, quadratic solid-angle curves",
)
prop(
    "C34",
    "Plots draw the requested spectra, and only those, at their own coordinates",
    "delay_spectrum, delay_waterfall and delay_wedge draw exactly the spectra requested (baseline-pairs in every spelling, times, window, polarization), averaged, folded and scaled as asked, each at its own delay or k_parallel, LST or "
    "baseline length or k_perp, with its own error bar, flagged integrations blanked, in the asked component, and labelled with the units drawn. plot_uvdata_waterfalls writes one picture per baseline and polarization, of that data. The object is left unchanged.",
    ["inputs", "configurations"],
    "all combinations of the drawing options on small objects (quick: reduced domains of each option)",
    "Tests only check that a figure is made.",
    [PL],
    [("spectra", PL + ":delay_spectrum"), ("waterfall", PL + ":delay_waterfall"), ("wedge", PL + ":delay_wedge"), ("visibilities", PL + ":plot_uvdata_waterfalls")],
    "model_checking",
    "exhaustive enumeration of options on the real code; drawn artists compared with spectra returned by the separately checked operations",
    "up to four baseline-pairs, three times, two windows, two polarizations",
)
LO = "src/hera_pspec/loss.py"
prop(
    "C35",
    "Every dataset key reaches its own data, weights, errors and label",
    "After any sequence of additions (lists, tuples, dicts, single objects, constructor) a PSpecData holds its datasets, weights, errors and labels in order and aligned, labels unique and never renamed; refused additions change nothing. "
    "x, dx and w of any spelling of a key return exactly that dataset's baseline and polarization over the window (with extension), conjugated for a reversed baseline, default weights being unflagged samples; keys that do not exist are refused. "
    "validate_datasets, validate_blpairs and validate_pol refuse or warn for exactly the inconsistent datasets, non-redundant pairs and missing polarizations.",
    ["inputs", "histories"],
    "all sequences of three additions over 17 spellings; all key spellings x windows x row orders; all pairs and triples of dataset variants",
    "Tests add datasets once and read a few keys of one file.",
    [PD],
    [("additions", PD + ":PSpecData.add"), ("labels", PD + ":PSpecData.dset_idx"), ("keys", PD + ":PSpecData.parse_blkey"), ("data", PD + ":PSpecData.x"), ("weights", PD + ":PSpecData.w"), ("datasets", PD + ":PSpecData.validate_datasets"), ("pairs", PD + ":validate_blpairs"), ("polarizations", PD + ":PSpecData.validate_pol")],
    "model_checking",
    "exhaustive enumeration of addition sequences and keys on the real code against a list of rows and label-determined visibilities",
    "five to six channels, up to four polarizations",
)
prop(
    "C36",
    "Sensitivities follow the current cosmology and beam; corrections scale as stated",
    "After any sequence of set_cosmology and set_beam, calc_scalar gives the noise scalar of the current beam, polarization and band in the current cosmology (the beam's own where none was set), and calc_P_N is "
    "scalar (1e3 Tsys)^2/(t Ncoh)/sqrt(Ninc), over sqrt(2) for real or imaginary parts, times k^3/2pi^2 for Delta^2. apply_bias_correction multiplies each window's data by total and data factors, its statistics by the total and covariances by its square, and nothing else; "
    "not in place it leaves the object alone, and a correction lacking a window is refused without change. It commutes with folding, averaging and selecting.",
    ["inputs", "histories"],
    "all operation sequences to depth four (thorough five); all corrections and pairs (thorough triples) of them on every object form",
    "Tests evaluate one scalar and one correction.",
    [NO, LO],
    [("cosmology", NO + ":Sensitivity.set_cosmology"), ("beam", NO + ":Sensitivity.set_beam"), ("scalar", NO + ":Sensitivity.calc_scalar"), ("level", NO + ":calc_P_N"), ("corrections", LO + ":apply_bias_correction")],
    "model_checking",
    "exhaustive enumeration of operation sequences on the real code against a record of what is in force and a label-keyed table",
    "two cosmologies, three beams, two bands; up to two windows",
)
prop(
    "C37",
    "Simulated noise and sky have the level of each visibility's own settings",
    "noise_sim gives every visibility independent complex Gaussian noise of Tsys/sqrt(t_int Nsamples channel width), over sqrt(2) for pseudo-Stokes, in Jy through the beam's own polarization when one is given; visibilities without samples become flagged NaN, all else (times, flags, samples) stays; "
    "extensions repeat the time axis contiguously; in place or not, input or copy. sky_noise_sim's noise follows the geometric mean of the two antennas' autocorrelations and its signal is constant over time and baselines exactly as asked. "
    "uvpspec_from_data equals the PSpecData pipeline on all pairs of different baselines in each group.",
    ["inputs", "configurations"],
    "all combinations of the options and data layouts within reduced (thorough: full) domains",
    "Tests compare the standard deviation of one realization.",
    [TE],
    [("noise", TE + ":noise_sim"), ("autocorrelations", TE + ":sky_noise_jy_autos"), ("sky", TE + ":sky_noise_sim"), ("signal", TE + ":gauss_cov_fg"), ("helper", TE + ":uvpspec_from_data")],
    "model_checking",
    "exhaustive enumeration of configurations on the real code; same-seed noise compared cell by cell after division by the stated level",
    "four baselines, four channels, two times, up to three extensions",
)
prop(
    "C38",
    "Covariances given by the caller are used as given, for error bars only",
    "With pspec(known_cov=...), each error bar is what the trace formulas give for the matrices supplied under its own key - dataset pair, baseline and polarization pair, model name, time index and conjugations - cut to its own window and filter extension, scaled and normalized like the spectrum; "
    "a matrix that vanishes contributes nothing, any one that varies with time makes error bars vary with time, one missing falls back to the data for documented models and is refused for others, and matrices under other keys are ignored. "
    "The spectra, window functions, weights and normalizations, in this call and in later ones on the same container, are those of a call without them, and the caller's matrices are unchanged.",
    ["configurations", "histories"],
    "every set of absent pieces (quick: up to two, or all but two), every varying or missing piece; all pairs of calls on one container",
    "Tests pass one dictionary computed from the data themselves, constant in time, for one pair.",
    [PD],
    [("spectra", PD + ":PSpecData.pspec"), ("error bars", PD + ":PSpecData.get_analytic_covariance"), ("auto pieces", PD + ":PSpecData.C_model"), ("cross pieces", PD + ":PSpecData.cross_covar_model")],
    "model_checking",
    "exhaustive enumeration of supplied-matrix sets and call sequences on the real code against reference trace formulas",
    "three to five channels, two to seven times, two baseline-pairs, two polarization pairs, two windows",
)
prop(
    "C39",
    "Calibration divides every visibility by its own antennas' gains, exactly once",
    "PSpecData(cals=...) and add(cals=..., cal_flag=...) give each dataset V/(g_i g_j^*) (times, for gains of the 'multiply' convention) with the gains of that visibility's own antennas, feeds, time and channel, from that dataset's own calibration - one per dataset, or one for all - and its error set likewise; "
    "gain flags are added to the data's exactly when cal_flag is set; samples, integrations and datasets without calibration stay as they are. The calibration's name is recorded in the dataset. Each dataset is calibrated once, also when one object is given twice, as its own error set or again later: the caller's objects are not changed. "
    "A calibration that does not fit is refused without change. pspec_run(cals=object, list, file, files, lists or patterns) stores what it stores for datasets calibrated beforehand, naming the calibration in the history.",
    ["inputs", "histories", "configurations"],
    "all combinations of gain layouts, flags and conventions; all sequences of two (thorough three) additions over 45 spellings; all sources of calibrations with every option of the driver",
    "Tests divide one baseline of two files by one gain.",
    [PD],
    [("additions", PD + ":PSpecData.add"), ("files", PD + ":_load_cals"), ("driver", PD + ":pspec_run")],
    "model_checking",
    "exhaustive enumeration of calibrations, addition sequences and driver options on the real code against the defining formula on exact label-determined gains",
    "three to four antennas, four to five channels, three to four times, up to six datasets",
)
prop(
    "C40",
    "Files in the formats of earlier versions are read as the same spectra",
    "A spectrum object stored in an earlier file format - polarizations instead of polarization pairs, rows counted as Nblpairts, no record of exact windows, one channel width for all windows, text stored as bytes, "
    "covariances under discontinued names, container headers with a git hash - gives, read in full, metadata only or with any partial selection, singly or from a container, "
    "the object that the same spectra stored in the present format give; what the earlier format cannot provide is left out with a warning. "
    "Written back, the object has the present format and reads the same again.",
    ["inputs", "configurations"],
    "all subsets (quick: up to two differences, or all) of the format differences x object layouts x reads with each kind and pair of kinds of selection",
    "Tests read one old file in full; no old file is read in part or through a container.",
    [U, C],
    [("reader", U + ":UVPSpec.read_from_group"), ("container header", C + ":PSpecContainer._update_header"), ("container load", C + ":PSpecContainer._load_pspec")],
    "model_checking",
    "exhaustive enumeration of format differences and reads on the real reader against the present-format reads",
    "up to three baseline-pairs, two windows, three polarizations, six formats",
)
prop(
    "C41",
    "Operations change only what they are about, keep their inputs and the history",
    "Every operation on power-spectrum objects - selection, averaging, folding, Delta^2, new cosmologies, exact windows, approximate covariances, statistics, spherical and delay binning, bootstrap, "
    "combination, common selection, subtraction - leaves every attribute outside its documented reach (units, weighting, normalization, taper, weighting parameters, scalars, beam integrals, channel widths, axes it does not touch, labels) as it was; "
    "the history keeps the earlier text; the copying form leaves its inputs unchanged, shares no array with them and equals the form in place; what is taken apart and put together has the same cells. "
    "Reading methods, plotting, storing, comparing and checking change nothing and answer the same again.",
    ["inputs", "operation sequences"],
    "all sequences of two (thorough three) operations over an alphabet of 31 from four kinds of object, with 26 reading methods in every state one step away",
    "Tests look at the arrays one operation is about, on an object whose other attributes have default values.",
    [U, G, UU],
    [("selection", UU + ":_select"), ("average", G + ":average_spectra"), ("combination", U + ":combine_uvpspec"), ("subtraction", UU + ":subtract_uvp")],
    "model_checking",
    "exhaustive exploration of operation sequences on the real code with frame conditions checked at every step",
    "up to three baseline-pairs, two times, two windows, two polarizations; values of what changes are the subject of the other properties",
)
prop(
    "C42",
    "Spectra do not depend on whether the channels of the data run up or down",
    "Visibilities whose frequency channels run from high to low give the same power spectra as the same visibilities with channels running from low to high: every band power, window function, covariance, error bar, "
    "weight, scalar and spectral range is found under the same delay, frequency, time and baseline-pair labels, for every weighting, normalization, taper, number of delays, beam and covariance model, "
    "and also after folding (which keeps the positive delays), Delta^2, averaging, spherical binning, noise curves and errors, exact windows, storage, selection, combination and a change of cosmology.",
    ["inputs", "configurations"],
    "all combinations of estimator options x odd and even bands x operations",
    "No test has descending channels.",
    [PD, U, G, "src/hera_pspec/pspecbeam.py"],
    [("scalar", "src/hera_pspec/pspecbeam.py" + ":_compute_pspec_scalar"), ("delays", "src/hera_pspec/utils.py" + ":get_delays"), ("fold", G + ":fold_spectra"), ("ranges", U + ":UVPSpec.get_spw_ranges")],
    "model_checking",
    "exhaustive enumeration of estimator options and operations on the real code, comparing both channel orders cell by cell under their labels",
    "five and six channels, three times, three baseline-pairs, one polarization; evenly spaced channels",
)
prop(
    "C43",
    "Results do not depend on the order in which visibilities are stored",
    "The same visibilities stored with their baselines in another order, with the time or the baseline axis running fastest or neither, with integrations out of order (alike in all datasets), with polarizations "
    "or antennas listed in another order, with baselines stored with their antennas exchanged (and conjugated), or beside further baselines and antennas, give the same result under the same labels: power spectra "
    "with their times, weights, windows and covariances for every pair of layouts of the two datasets; the vectors, weights and matrices PSpecData returns; flag broadcasting, trimming, rephasing and unit "
    "conversion; pseudo-Stokes visibilities; system temperatures, noise variances and error bars; and spectra made directly from data.",
    ["inputs", "configurations"],
    "all layouts and pairs of layouts of bounded datasets x estimator settings and preparation steps",
    "Tests use files in one layout.",
    [PD, "src/hera_pspec/utils.py", "src/hera_pspec/pstokes.py", "src/hera_pspec/testing.py"],
    [("pspec", PD + ":PSpecData.pspec"), ("rephase", PD + ":PSpecData.rephase_to_dset"), ("noise", "src/hera_pspec/utils.py" + ":uvp_noise_error"), ("variance", "src/hera_pspec/utils.py" + ":variance_from_auto_correlations")],
    "model_checking",
    "exhaustive enumeration of storage layouts (row orders, stored conjugations, polarization and antenna orders) and pairs of layouts on the real code, comparing every result with that of one reference layout under its labels",
    "three baselines (of five), three integrations, seven channels, two polarizations; both datasets share the order of integrations; data to be rephased that interleave irregularly are in order of time",
)
