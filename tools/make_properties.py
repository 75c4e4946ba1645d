"""Writes /verif/properties.jsonl (one JSON object per line)."""
import json, os

P = []


def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    d = dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text),
        why_tests_cant=why,
        anchors=dict(
            files=files,
            mechanism=[dict(name=n, where=w) for n, w in mech],
        ),
    )
    if observe:
        d["anchors"]["observe_at"] = observe
    if state:
        d["anchors"]["state"] = state
    d["anchors"]["hook_needed"] = None
    assert len(title) <= 80, (id, len(title))
    P.append(d)


prop(
    "C01", "Star formation history is the documented model at every galaxy and time",
    "For every allowed galaxy, halo, present-day age, baryon fraction and time grid, the returned star formation rate is baryon fraction x halo mass at that time x a mass-dependent efficiency (power-law indices that roll from the low-mass to the high-mass value around the critical mass) x the quenching factor, and is never below the floor of 1e-14 Msun/yr. "
    "The value is always finite and positive, and the single-galaxy and population entry points and the arguments given for age and baryon fraction all obey this one definition, in 32-bit and 64-bit arithmetic.",
    ["inputs", "configurations"],
    "All bounded parameter values including the corners, all halo histories, all ages/baryon fractions, grids of any length, order and spacing, both floating-point modes.",
    "Tests evaluate a few default-parameter galaxies on one 100-point grid and mostly assert shapes and positivity; no test compares with an independent definition or leaves the default age/baryon fraction.",
    ["diffstar/sfh_model.py", "diffstar/kernels/history_kernel_builders.py", "diffstar/kernels/main_sequence_kernels.py", "diffstar/kernels/quenching_kernels.py"],
    [("per-galaxy SFR kernel", "diffstar/kernels/history_kernel_builders.py:_sfh_singlegal_scalar"), ("main-sequence efficiency", "diffstar/kernels/main_sequence_kernels.py:_sfr_eff_plaw"), ("public entry points", "diffstar/sfh_model.py")],
    ["calc_sfh_singlegal", "calc_sfh_galpop"])
prop(
    "C02", "A galaxy's history depends on its own inputs only, at each time separately",
    "In any population call (star formation, stellar mass or gas histories), the result for one galaxy equals the result of calling the single-galaxy function with that galaxy's inputs, whatever the other galaxies are, in whatever order and number they come, and even if other galaxies hold invalid (NaN or infinite) values. "
    "The star formation rate at one time does not depend on which other times are requested or on their order.",
    ["inputs", "configurations"],
    "All populations (1 to thousands of galaxies), permutations, subsets, duplications, poisoned neighbours, and all sub-grids/permutations of the time grid.",
    "One test compares one population with single-galaxy calls; permutations, subsets, neighbours with NaN and other sizes are never tried.",
    ["diffstar/sfh_model.py", "diffstar/mgas_model.py", "diffstar/kernels/history_kernel_builders.py"],
    [("vmap over galaxies and times", "diffstar/kernels/history_kernel_builders.py"), ("population entry points", "diffstar/sfh_model.py:calc_sfh_galpop"), ("population gas histories", "diffstar/mgas_model.py:calc_mgas_galpop")],
    ["calc_sfh_galpop", "calc_mgas_galpop"])
prop(
    "C03", "Quenching multiplies SFR by a bounded drop and rejuvenation and nothing else",
    "The quenching factor is 1 (to rounding) before the event starts, decreases monotonically to 10^drop at the quenching time, then moves monotonically to 10^rejuvenation by the end of the event and stays there, so it always lies between 10^drop and 1; the event is centred on the quenching time and spans the stated duration in log time. "
    "The documented unquenched parameters leave star formation unsuppressed over the whole age of the Universe.",
    ["inputs"],
    "All quenching times, durations, drops and rejuvenations inside the published bounds, and all times from before the event to far beyond it, including the exact edges.",
    "Tests assert the factor lies in [0,1] on a coarse grid for a handful of parameters; monotonicity, onset/end times and the floor value are not asserted.",
    ["diffstar/kernels/quenching_kernels.py", "diffstar/kernels/history_kernel_builders.py"],
    [("triweight drop and rise", "diffstar/kernels/quenching_kernels.py:_quenching_kern"), ("unquenched defaults", "diffstar/kernels/quenching_kernels.py:DEFAULT_Q_PARAMS_UNQUENCHED")],
    ["calc_sfh_singlegal / calc_sfh_galpop with and without quenching", "_quenching_kern"])
prop(
    "C04", "Histories are causal and halo growth stops at the halo's peak time",
    "The star formation rate at a time does not change when only later events change: the halo's peak time if it is later, or the quenching parameters if the event has not begun. "
    "After the halo's peak time the halo mass feeding star formation is frozen at its peak value, so the star formation rate changes only through quenching.",
    ["inputs", "histories"],
    "All galaxies and all positions of peak time and quenching event relative to the requested times, including exactly on a grid point, before the first and after the last.",
    "No test varies the peak time relative to the grid and compares histories before and after it.",
    ["diffstar/kernels/main_sequence_kernels.py", "diffstar/kernels/history_kernel_builders.py", "diffstar/sfh_model.py", "diffstar/mgas_model.py"],
    [("halo mass kernel call", "diffstar/kernels/main_sequence_kernels.py:sfh_ms_kernel"), ("peak time carried through the population path", "diffstar/sfh_model.py:calc_sfh_galpop")],
    ["calc_sfh_singlegal", "calc_sfh_galpop", "calc_mgas_singlegal"])
prop(
    "C05", "Stellar mass history is the running integral of the returned SFR",
    "The stellar mass history returned with a star formation history is its cumulative trapezoidal integral in years, starting from the negligible mass formed since the birth of the Universe at the floor rate; it is positive, never decreases in time, is additive over adjoining intervals and depends only on times up to and including the current one. "
    "Asking for stellar mass never changes the star formation history that is returned.",
    ["inputs"],
    "All non-negative star formation tables and all increasing time grids of one or more points, single galaxies and populations, every caller of the integral.",
    "Tests check one power-law integral to 0.1 dex-level accuracy and shapes; first-point padding, short grids, non-uniform grids and populations are not compared with an independent integral.",
    ["diffstar/utils.py", "diffstar/sfh_model.py", "diffstar/mgas_model.py"],
    [("cumulative trapezoid", "diffstar/utils.py:cumulative_mstar_formed"), ("population version", "diffstar/utils.py:cumulative_mstar_formed_galpop"), ("return_smh branch", "diffstar/sfh_model.py")],
    ["calc_sfh_*(return_smh=True)", "calc_mgas_*", "cumulative_mstar_formed*"])
prop(
    "C06", "Gas budget closes: gas left equals baryons accreted minus stars formed",
    "For every galaxy and time grid, the gas mass returned plus the stellar mass returned equals the baryon fraction times the running integral of the halo accretion rate, which is zero after the halo's peak time, and the star formation and stellar mass histories are the same ones the star-formation functions return. "
    "The gas growth rate returned is the rate of change of that gas mass over each time bin in Msun/yr, for single galaxies and populations alike.",
    ["inputs", "configurations"],
    "All allowed galaxies, halos, ages and baryon fractions, grids of two or more points.",
    "The tests assert shapes and that a few outputs are finite; conservation and the rate definition are never evaluated.",
    ["diffstar/mgas_model.py", "diffstar/utils.py"],
    [("gas mass = accreted - formed", "diffstar/mgas_model.py:calc_mgas_singlegal"), ("population version", "diffstar/mgas_model.py:calc_mgas_galpop"), ("bin widths", "diffstar/utils.py:_jax_get_dt_array")],
    ["calc_mgas_singlegal", "calc_mgas_galpop"])
prop(
    "C07", "Numerical helpers compute what they document on every input grid",
    "The time-averaged star formation rate is the mass formed over the preceding interval divided by its length (with the earliest tabulated mass used before the table starts) and is never negative; time-bin widths are the distances between bin midpoints, sum to the covered interval and agree between the two implementations. "
    "The smooth step function, its inverse, the smooth cumulative kernel and its bin weights, the cumulative trapezoid and the linear interpolator agree with their mathematical definitions, stay within their bounds, and remain exact at their limits.",
    ["inputs"],
    "All increasing grids of two or more points (uniform or not), all mass histories, delays longer and shorter than the table, all arguments of the kernels including far outside the transition region.",
    "Tests use one grid per helper; delays longer than the table, tiny grids, non-uniform grids and out-of-range arguments are not tried.",
    ["diffstar/utils.py", "diffstar/diffstarpop/utils.py"],
    [("fstar", "diffstar/utils.py:compute_fstar"), ("bin widths", "diffstar/utils.py:_get_dt_array"), ("kernels", "diffstar/utils.py:tw_cuml_jax_kern")],
    ["compute_fstar", "_get_dt_array", "_sigmoid", "_inverse_sigmoid", "tw_cuml_jax_kern", "jax_np_interp", "cumtrapz", "get_1d_arrays"])
prop(
    "C08", "Galaxy parameters: unbounded values map one-to-one into the published bounds",
    "Every finite unbounded parameter vector maps to galaxy parameters inside the published bounds, with rejuvenation never below the quenching drop and never above zero, each bounded value increases with its own unbounded value, and no other parameter influences it (except that rejuvenation depends on the drop). "
    "Mapping to bounded and back, or to unbounded and back, returns the starting point for every interior point, and single, population and per-block versions of the mapping agree.",
    ["inputs"],
    "All finite unbounded vectors and all interior bounded vectors, including near the bounds and when drop and rejuvenation nearly coincide.",
    "Tests round-trip a few hundred draws near the centre of the range and do not assert monotonicity, cross-talk or the drop/rejuvenation ordering everywhere.",
    ["diffstar/defaults.py", "diffstar/kernels/main_sequence_kernels.py", "diffstar/kernels/quenching_kernels.py"],
    [("bounding sigmoids", "diffstar/kernels/main_sequence_kernels.py:_get_bounded_sfr_params"), ("drop-dependent rejuvenation bound", "diffstar/kernels/quenching_kernels.py:_get_bounded_lg_rejuv"), ("public transforms", "diffstar/defaults.py")],
    ["get_bounded_diffstar_params", "get_unbounded_diffstar_params"])
prop(
    "C09", "Population parameters map one-to-one into bounds; calibrations are usable",
    "Every finite unbounded population-parameter vector maps inside the published bounds, increasing in its own coordinate and independent of the others, and the bounded and unbounded forms invert each other for every interior point. "
    "Every published calibration (default and per simulation) lies inside those bounds, its bounded and unbounded forms agree, and each one yields a finite population.",
    ["inputs", "configurations"],
    "All finite unbounded vectors, all interior bounded vectors, every shipped calibration and simulation name.",
    "Tests round-trip the defaults and a few random draws; ordering of the fields, per-coordinate independence and agreement of the shipped pairs are not checked for all calibrations.",
    ["diffstar/diffstarpop/kernels/defaults_mgash.py", "diffstar/diffstarpop/kernels/sfh_pdf_mgash.py", "diffstar/diffstarpop/kernels/satquenchpop_model.py", "diffstar/diffstarpop/kernels/params/"],
    [("population transforms", "diffstar/diffstarpop/kernels/defaults_mgash.py:get_bounded_diffstarpop_params"), ("shipped calibrations", "diffstar/diffstarpop/kernels/params/params_diffstarpopfits_mgash.py")],
    ["get_bounded_diffstarpop_params", "get_unbounded_diffstarpop_params", "SIMULATION_FIT_PARAMS"])
prop(
    "C10", "Population means and scatters follow the documented mass and time scalings",
    "For every allowed population parameter set, halo mass and peak time, the mean unbounded parameters of each sequence follow their documented functions (rolling power laws, and straight lines clipped smoothly into fixed bounds, plus the peak-time shift of the quenching time), and every covariance block is the diagonal matrix of squared clipped-line scatters. "
    "All of them are finite for every allowed parameter value including zero slopes, covariances are symmetric and positive definite, and the means and scatters do not depend on the satellite inputs.",
    ["inputs", "configurations"],
    "All interior population parameters including zero slopes and every shipped calibration, halo masses 8 to 16 dex, peak times 0.5 to 15 Gyr.",
    "Tests evaluate the default parameters on a small grid and assert finiteness; the functions' values, zero slopes and the parameter-to-output wiring are not compared with any reference.",
    ["diffstar/diffstarpop/kernels/sfh_pdf_mgash.py", "diffstar/diffstarpop/kernels/diffstarpop_mgash.py", "diffstar/diffstarpop/utils.py"],
    [("means", "diffstar/diffstarpop/kernels/sfh_pdf_mgash.py:_get_mean_u_params_qseq"), ("covariances", "diffstar/diffstarpop/kernels/sfh_pdf_mgash.py:_get_covariance_mseq_ms_block"), ("clipped lines", "diffstar/diffstarpop/utils.py:smoothly_clipped_line")],
    ["_sfh_pdf_scalar_kernel", "_diffstarpop_means_covs", "smoothly_clipped_line"])
prop(
    "C11", "Quenched fractions are probabilities with the documented environment dependence",
    "Every quenched fraction lies in [0,1] and follows its documented dependence on halo mass and peak time; a satellite's fraction is never below the value before environmental quenching, never decreases with time since infall, and approaches it long before infall. "
    "Centrals' fractions, parameters and histories do not depend on the infall inputs, and whether a galaxy is a central is decided only by its parent identifier being -1.",
    ["inputs", "configurations"],
    "All allowed population parameters, halo/host masses, mass ratios, peak and infall times, and all parent identifiers (any sign, size and integer or float type).",
    "Tests evaluate fractions on a few points with default parameters and only parent identifiers -1 and 1.",
    ["diffstar/diffstarpop/kernels/satquenchpop_model.py", "diffstar/diffstarpop/kernels/sfh_pdf_mgash.py", "diffstar/diffstarpop/kernels/diffstarpop_mgash.py"],
    [("satellite boost", "diffstar/diffstarpop/kernels/satquenchpop_model.py:get_qprob_sat"), ("central fraction", "diffstar/diffstarpop/kernels/sfh_pdf_mgash.py:_frac_quench_cen"), ("central/satellite switch", "diffstar/diffstarpop/kernels/diffstarpop_mgash.py")],
    ["mc_diffstar_params_*", "get_qprob_sat", "_diffstarpop_means_covs"])
prop(
    "C12", "Monte Carlo populations are reproducible and internally consistent",
    "A Monte Carlo draw is a deterministic function of its inputs and random key: repeated calls agree exactly, a population draw equals single-galaxy draws made with the keys split from its key, and the parameter-only and history-producing functions draw the same galaxies from the same key. "
    "The returned main-sequence and quenched histories are exactly the histories of the returned parameters for that halo, main-sequence draws carry the documented unquenched parameters, all draws lie within the galaxy-parameter bounds, and a galaxy is flagged quenched only consistently with its returned quenched fraction.",
    ["inputs", "configurations", "histories"],
    "All population parameters and halo catalogues, all keys (old and new style), population sizes 1 to thousands, any sequence of earlier calls.",
    "Tests check shapes and one agreement for one key; single/population agreement, agreement of the parameters with the histories and key styles are not tested over inputs.",
    ["diffstar/diffstarpop/mc_diffstarpop_mgash.py", "diffstar/diffstarpop/kernels/diffstarpop_mgash.py"],
    [("key splitting", "diffstar/diffstarpop/kernels/diffstarpop_mgash.py:mc_diffstar_u_params_singlegal_kernel"), ("history from drawn params", "diffstar/diffstarpop/mc_diffstarpop_mgash.py:mc_diffstar_sfh_galpop")],
    ["mc_diffstar_sfh_galpop", "mc_diffstar_sfh_singlegal", "mc_diffstar_params_galpop", "mc_diffstar_params_singlegal"])
prop(
    "C13", "Monte Carlo draws follow the advertised distribution",
    "Across keys and galaxies, the drawn unbounded parameters are Gaussian with exactly the population's mean and covariance for that halo, independent between parameters, between sequences, between galaxies and from the quenched flag; the flag is true with exactly the returned quenched probability. "
    "This holds for centrals and satellites, for single-galaxy and population calls, and for every key.",
    ["inputs", "configurations", "schedules"],
    "All population parameters, halo properties and keys; tested as statistics over tens of thousands of draws with a false-alarm probability below 1e-8.",
    "Existing tests look at one realisation; a wrong scatter, a reused key or a biased flag leaves every individual draw plausible.",
    ["diffstar/diffstarpop/kernels/diffstarpop_mgash.py", "diffstar/diffstarpop/mc_diffstarpop_mgash.py"],
    [("independent sub-keys per block", "diffstar/diffstarpop/kernels/diffstarpop_mgash.py"), ("one key per galaxy", "diffstar/diffstarpop/mc_diffstarpop_mgash.py:mc_diffstar_u_params_galpop")],
    ["mc_diffstar_params_galpop", "mc_diffstar_params_singlegal", "mc_diffstar_sfh_galpop"])
prop(
    "C14", "Every model prediction is differentiable with correct finite gradients",
    "The gradients of star formation, stellar mass and gas histories, of the parameter mappings, of population means, scatters and quenched fractions, of Monte Carlo histories and of the fitting losses with respect to every parameter are finite wherever the prediction is, and equal the slopes obtained by finite differences. "
    "No parameter that changes a prediction has a gradient that is silently zero or missing.",
    ["inputs"],
    "All interior galaxy, halo and population parameters and times, including saturated tails, clipped regions and times after the peak.",
    "Gradient tests check a few default points for being non-zero/finite; correctness against finite differences and saturated regions are not covered.",
    ["diffstar/sfh_model.py", "diffstar/mgas_model.py", "diffstar/diffstarpop/", "diffstar/fitting_helpers/diffstar_fitting_helpers.py"],
    [("where/cond guards", "diffstar/kernels/quenching_kernels.py:_jax_tw"), ("clipped lines", "diffstar/diffstarpop/utils.py:smoothly_clipped_line"), ("SFR floor", "diffstar/kernels/history_kernel_builders.py")],
    ["jax.grad of the public functions", "loss_grad_default_clipssfrh_np", "loss_*_grad_wrapper"])
prop(
    "C15", "Differentiable histograms conserve weight and average correctly",
    "The smooth histogram of any data in any number of dimensions gives each bin the sum over points of the product of each point's kernel weight in that bin (times its value, when weighted): weights are between 0 and 1, adjacent bins add up to the merged bin, a point well inside a bin counts fully, far outside counts zero, and the order of points does not matter. "
    "The stellar-to-halo-mass estimator is the weighted mean stellar mass per bin, so it lies within the range of the contributing stellar masses and reproduces a constant exactly.",
    ["inputs"],
    "All data sets (1 to thousands of points, 1 to 4 dimensions), scatters, bin edges (uniform or not, overlapping or not) and weights.",
    "Tests use one data set and assert shapes or agreement with one stored relation.",
    ["diffstar/diffstarpop/sumstats/diffndhist.py", "diffstar/diffstarpop/sumstats/smhm.py", "diffstar/diffstarpop/utils.py"],
    [("triweight bin weights", "diffstar/diffstarpop/sumstats/diffndhist.py:tw_ndhist_weighted"), ("SMHM", "diffstar/diffstarpop/sumstats/smhm.py:compute_smhm")],
    ["tw_ndhist", "tw_ndhist_weighted", "compute_smhm"])
prop(
    "C16", "Population losses compare normalised predictions with the targets correctly",
    "The predicted stellar-mass distributions are the abundance-weighted mass histograms, smoothed over the mean bin width, non-negative and summing to one; the predicted specific-SFR distributions at fixed stellar mass are non-negative, sum to one over specific SFR, weight every galaxy by its quenched and unquenched probabilities and every halo-mass bin by the supplied halo abundance. "
    "Each loss is 1000 times the mean squared difference between prediction and target (zero when they agree, positive otherwise), combined losses are the sums of their parts, and the flat-array wrappers return the same loss with its gradient.",
    ["inputs", "configurations"],
    "All population parameters, halo catalogues, keys, observation times, bins, halo abundances and target selections.",
    "Tests evaluate one stored 10-halo data set and assert finiteness, shape and normalisation only.",
    ["diffstar/diffstarpop/loss_kernels/mstar_ssfr_loss_mgash_anyz.py"],
    [("predicted PDFs", "diffstar/diffstarpop/loss_kernels/mstar_ssfr_loss_mgash_anyz.py:mstar_ssfr_kern_tobs"), ("losses", "diffstar/diffstarpop/loss_kernels/mstar_ssfr_loss_mgash_anyz.py:loss_combined_3loss_kern")],
    ["mstar_kern_tobs", "mstar_ssfr_kern_tobs", "mstar_ssfr_sat_kern_tobs", "loss_* and get_pred_* wrappers"])
prop(
    "C17", "Optimiser drivers return the best point found, whatever fails on the way",
    "Whatever sequence of good fits, poor fits, invalid (NaN or infinite) losses and invalid gradients occurs over the random restarts, the fit driver keeps restarting until the tolerance is met or the allowed number of starts is used, and then returns the best finite result with its own loss and a success code of 1; success is -1 with the documented fill loss when no start gave a usable result. "
    "The gradient-descent driver returns the best point of its own recorded trajectory with matching loss, never an invalid one, reports early termination exactly when it happened, and starts from the point it was given.",
    ["fault_sequences", "histories", "configurations"],
    "All sequences over restarts of {converged, poor, NaN loss, infinite loss, NaN gradient}, all tolerances and restart limits, NaN injected at any step of the descent.",
    "Tests run the drivers on one well-behaved toy loss; no test injects an invalid loss or gradient at any position.",
    ["diffstar/fitting_helpers/utils.py", "diffstar/diffstarpop/utils.py"],
    [("restart loop", "diffstar/fitting_helpers/utils.py:minimizer_wrapper"), ("Adam driver", "diffstar/fitting_helpers/utils.py:jax_adam_wrapper_v2"), ("two-stage driver", "diffstar/fitting_helpers/utils.py:minimizer")],
    ["minimizer_wrapper", "jax_adam_wrapper_v2", "minimizer"],
    [dict(name="loss_best_list", meaning="losses of the restarts so far", where="diffstar/fitting_helpers/utils.py:minimizer_wrapper")])
prop(
    "C18", "Fitting a galaxy scores it with the documented loss and honours every option",
    "Fitting returns parameters inside the galaxy bounds whose documented loss against the given history equals the returned loss, and is small for histories the model can produce; the same inputs give the same targets and weights, and the inputs are not modified. "
    "Every option (age, baryon fraction, averaging interval, minimum time, minimum mass, mass range, specific-SFR floor) enters the targets, weights or model as documented, and mass below the cuts or times before the minimum carry no weight.",
    ["inputs", "configurations"],
    "All realistic star formation histories (smooth, bursty, quenched, partly zero), time grids, halo histories and option values.",
    "Tests fit one or two self-generated histories with default options and assert a loss threshold.",
    ["diffstar/fitting_helpers/diffstar_fitting_helpers.py", "diffstar/fitting_helpers/utils.py"],
    [("targets and weights", "diffstar/fitting_helpers/diffstar_fitting_helpers.py:get_loss_data_default"), ("loss", "diffstar/fitting_helpers/diffstar_fitting_helpers.py:loss_default_clipssfrh"), ("fit", "diffstar/fitting_helpers/diffstar_fitting_helpers.py:diffstar_fitter")],
    ["diffstar_fitter", "get_loss_data_default", "loss_default_clipssfrh", "get_weights"])
prop(
    "C19", "Fit results survive the text and HDF5 round trip, galaxy by galaxy",
    "A fit written as a text line, collated with others and written to HDF5 is read back with its exact identifier and success code, its parameters and loss to the printed precision, every column under its own name and every galaxy in its own row. "
    "A galaxy without a fit is recorded with its identifier, the fill values, loss -1 and success -1 and stays distinguishable from every fitted galaxy, and mismatched headers are rejected rather than mislabelled.",
    ["inputs", "histories"],
    "All parameter vectors and losses (tiny, huge, negative), identifiers up to 64-bit integers, any number and mix of fitted and unfitted galaxies.",
    "Tests check the header string or one line; nothing reads back a written file, large identifiers or mixtures.",
    ["diffstar/fitting_helpers/diffstar_fitting_helpers.py", "diffstar/data_loaders/load_smah_data.py", "diffstar/data_loaders/utils.py"],
    [("text line", "diffstar/fitting_helpers/diffstar_fitting_helpers.py:get_outline"), ("no-fit line", "diffstar/fitting_helpers/diffstar_fitting_helpers.py:get_outline_nofit"), ("collation", "diffstar/fitting_helpers/diffstar_fitting_helpers.py:write_collated_data"), ("read back", "diffstar/data_loaders/load_smah_data.py:load_fit_sfh")],
    ["get_header", "get_outline", "get_outline_nofit", "write_collated_data", "load_fit_sfh", "load_flat_hdf5"])
prop(
    "C20", "Catalogue loaders return the right rows and the right derived quantities",
    "Every loader returns, for any row range, exactly the rows of the file in that range in order, with each column under its own name, so that consecutive blocks concatenate to the whole. "
    "Derived quantities are as documented: stellar mass is the integral of the loaded star formation, halo masses are the running maximum in the stated units, tabulated mass increments are turned into rates by the length of their time step, present-day halo mass is the halo model at the stated age, and halos without a usable fit are marked and never passed off as fitted.",
    ["inputs", "configurations"],
    "All catalogues (1 to hundreds of rows, ragged or empty entries, failed fits), all row ranges and key selections.",
    "Tests only import the loaders or read one file in full; row ranges, failed fits and derived quantities are not tested because the data live on a cluster.",
    ["diffstar/data_loaders/utils.py", "diffstar/data_loaders/load_smah_data.py", "diffstar/data_loaders/load_galacticus_sfh.py", "diffstar/data_loaders/extract_galacticus_sfh_data.py"],
    [("flat HDF5", "diffstar/data_loaders/utils.py:load_flat_hdf5"), ("halo fits", "diffstar/data_loaders/load_smah_data.py:load_smdpl_diffmah_fits"), ("Galacticus tables", "diffstar/data_loaders/extract_galacticus_sfh_data.py:extract_galacticus_sfh_tables")],
    ["all load_* and extract_* functions"])
prop(
    "C21", "Calls are pure: no hidden state, call order, threads or array type matter",
    "Every public function returns the same values for the same inputs no matter what was called before, whether it runs compiled or not, inside a larger compiled or vectorised program, or concurrently from many threads, and whether its inputs are NumPy arrays, JAX arrays, scalars of either kind, or read-only arrays or arrays of another memory layout. "
    "No call modifies its inputs, the published defaults or bounds, or the global random state beyond what fitting documents.",
    ["schedules", "histories", "configurations"],
    "All interleavings of calls with different shapes, dtypes, static options and threads; all container and layout variants of the same values.",
    "Tests call each function once per process in a fixed order from one thread with one container type.",
    ["diffstar/sfh_model.py", "diffstar/mgas_model.py", "diffstar/utils.py", "diffstar/diffstarpop/mc_diffstarpop_mgash.py", "diffstar/fitting_helpers/diffstar_fitting_helpers.py"],
    [("pure jitted functions", "diffstar/sfh_model.py"), ("immutable defaults", "diffstar/defaults.py")],
    ["all public functions, call/return events per thread"])
prop(
    "C22", "Parameter merging, selection and correlation algebra are exact",
    "Merging a subset of population parameters into the defaults changes exactly the named fields and no others; selecting between two sets of galaxy parameters takes, galaxy by galaxy and for every parameter, the first set where the flag is true and the second otherwise. "
    "Converting covariance to correlation and back is the identity for every valid covariance of any size, with unit diagonal, symmetric entries in [-1,1] and zero entries kept zero.",
    ["inputs", "configurations"],
    "All subsets of fields in any order, all flag vectors and population sizes, all positive-definite matrices up to 12x12 including nearly singular and badly scaled ones.",
    "Tests replace one field, select once and convert one or two small matrices.",
    ["diffstar/diffstarpop/param_utils.py", "diffstar/diffstarpop/utils.py"],
    [("merge", "diffstar/diffstarpop/param_utils.py:get_all_params_from_varied"), ("select", "diffstar/diffstarpop/param_utils.py:mc_select_diffstar_params"), ("correlation algebra", "diffstar/diffstarpop/utils.py:covariance_from_correlation")],
    ["get_all_params_from_varied", "get_all_diffstarpop_u_params", "mc_select_diffstar_params", "correlation_from_covariance", "covariance_from_correlation"])
prop(
    "C23", "Parallel fitting runs record each galaxy exactly once, in catalogue order",
    "For any number of parallel ranks not exceeding the number of galaxies and any timing between them, a fitting run writes one output file with exactly one row per input galaxy in catalogue order, each row holding the result (or the no-fit record) of that galaxy's own star formation history and halo, and leaves no temporary file behind and no other file touched. "
    "Galaxies below the mass cuts or without a halo fit are recorded as unfitted, and the options given on the command line take effect. "
    "The script that fits halo growth follows the same rules: every halo is fitted once, to its own mass history made non-decreasing and carried on to the present day of the whole catalogue, and short-lived halos are recorded as unfitted.",
    ["schedules", "configurations", "inputs"],
    "All rank counts, delays between ranks at every step, catalogue sizes including one galaxy per rank, mixtures of fitted and unfitted galaxies, and option values.",
    "The scripts are only compiled by the tests, never run; no MPI library is installed.",
    ["scripts/galacticus_diffstar_fitter_script_mgash.py", "scripts/galacticus_diffstar_fitter_script.py", "scripts/history_fitting_script_TNG_mgash.py", "scripts/diffstar_fitting_script_umachine.py", "scripts/diffstar_fitting_script_umachine_mgash.py", "scripts/galacticus_analysis/galacticus_diffmah_fitter_script.py", "diffstar/fitting_helpers/diffstar_fitting_helpers.py"],
    [("row partition per rank", "scripts/galacticus_diffstar_fitter_script_mgash.py"), ("barrier then collation by rank 0", "scripts/history_fitting_script_TNG_mgash.py"), ("collated output", "diffstar/fitting_helpers/diffstar_fitting_helpers.py:write_collated_data")],
    ["files written by the scripts run as subprocesses with a recording communicator"])

prop(
    "C24", "Measured SMHM targets account for every usable halo exactly once",
    "For any number of parallel ranks and any timing between them, the measurement scripts of every simulation write tables that equal plain sums over all the usable halos of the catalogue at each target redshift: every halo with a successful halo fit and galaxy fit is counted once in its own halo-mass bin, with its own stellar mass and specific star formation rate, as a central or a satellite, whichever rank or subvolume it was read by, and halos without such fits count nowhere. "
    "The saved sample of halos holds, for each redshift and mass bin, only halos of that bin, each at most once and with its own fitted parameters and parent id, and as many as the limit allows. No temporary file stays behind and no other file is touched.",
    ["schedules", "configurations", "inputs"],
    "All rank counts, subvolume counts (including empty and missing ones), catalogues with failed fits, mixtures of centrals and satellites, interleavings of the ranks and option values.",
    "The measurement scripts are only compiled by the tests, never run; no MPI library is installed.",
    ["scripts/diffstarpop_scripts/measure_smhm_tng_script_mpi_mgash.py", "scripts/diffstarpop_scripts/measure_smhm_smdpl_script_mpi_mgash.py", "scripts/diffstarpop_scripts/measure_smhm_galacticus_script_mpi_mgash.py", "scripts/diffstarpop_scripts/smhm_utils_tng_mgash.py", "scripts/diffstarpop_scripts/smhm_utils_smdpl_mgash.py", "scripts/diffstarpop_scripts/smhm_utils_galacticus_mgash.py"],
    [("per-rank histograms", "scripts/diffstarpop_scripts/smhm_utils_smdpl_mgash.py"), ("collection by rank 0", "scripts/diffstarpop_scripts/measure_smhm_smdpl_script_mpi_mgash.py")],
    ["HDF5 tables written by the measurement scripts"])
prop(
    "C25", "The population fit sees exactly the measured targets and keeps the best model",
    "The loss data assembled from the measured files hold, for each redshift and halo mass bin, galaxies drawn only from that bin and type (evenly, and without repeats unless there are too few), their own halo histories and infall data (neutral values for centrals), and the measured targets normalised to unit probability and weighted by the right abundances; saving the loss data and reading them back changes nothing. "
    "The population fit saves the parameters of the lowest finite loss it met, whatever non-finite losses or gradients occur on the way, and starts from and stops at what its options say.",
    ["inputs", "histories", "configurations"],
    "All measured catalogues (including bins with fewer galaxies than draws and ragged bin counts), all target kinds, orders of losses and faults of the loss and gradients during the descent.",
    "The population-fit scripts are only compiled by the tests; the helper functions that assemble the loss data are never run.",
    ["scripts/diffstarpop_scripts/fit_get_loss_helpers_mgash.py", "scripts/diffstarpop_scripts/save_loss_data.py", "scripts/diffstarpop_scripts/fit_mstar_ssfr_pdfs_mgash.py"],
    [("assembly of loss data", "scripts/diffstarpop_scripts/fit_get_loss_helpers_mgash.py"), ("descent and saving", "scripts/diffstarpop_scripts/fit_mstar_ssfr_pdfs_mgash.py")],
    ["get_loss_data_* functions", "files written by save_loss_data.py and fit_mstar_ssfr_pdfs_mgash.py"])
prop(
    "C26", "Saved mean histories are averages over the galaxies of each mass bin",
    "The tables of fit quality saved for each simulation hold, for every mass bin and time, the plain averages of stellar mass and star formation rate of the simulated galaxies and of their own fits (with specific rates of positive histories raised to the floor 1e-12 per year) over exactly the successfully fitted galaxies of that mass bin, each counted once across all subvolumes and chunks, on the simulation's own time grid. Bins without galaxies hold no number, and every requested simulation gets its own file and no other file is touched.",
    ["inputs", "configurations"],
    "All catalogues: numbers of galaxies per bin including one and none, failed fits, merging and non-merging histories, each supported simulation and many subvolumes.",
    "The script that computes the averages is only compiled by the tests, never run.",
    ["scripts/diffstarpop_scripts/calculate_quality_diffstar_fits_mgash.py"],
    [("averages per mass bin", "scripts/diffstarpop_scripts/calculate_quality_diffstar_fits_mgash.py")],
    ["tables written by calculate_quality_diffstar_fits_mgash.py"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for d in P:
        f.write(json.dumps(d) + "\n")
print(len(P), out)
