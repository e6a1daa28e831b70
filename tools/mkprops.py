"""Writes /verif/properties.jsonl (run by hand when a property text changes)."""
import json, os
P = []


def p(id, title, statement, over, qtext, why, files, mech, state=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state:
        d["anchors"]["state"] = [dict(name=n, meaning=m) for n, m in state]
    P.append(d)


K = "diffmah/diffmah_kernels.py"
D = "diffmah/diffmahpop_kernels/"
FH = "diffmah/fitting_helpers/"
DL = "diffmah/data_loaders/"

p("C01", "Mass history is the rolling power law, frozen at the peak time",
  "For every halo parameter set and every time t>0, log10 of the halo mass equals logm0 + alpha(t)*(log10 t - log10 t0), where alpha runs from the early to the late index as a sigmoid in log10 t centred at logtc with steepness 3.5; for t >= t_peak it equals its value at t_peak exactly. The single-halo, halo-population and at-one-time entry points all return this same function, element by element, and no halo's result depends on any other halo in the call.",
  ["inputs"], "all halo parameter values (log-mass, logtc, indices, t_peak>0), all times t>0, all z=0 ages, all numbers of halos and times",
  "The tests compare a few halos on a few time grids (mostly early = late or default parameters); the identity must hold for every parameter combination, including t exactly at t_peak, t_peak beyond t0 and any batch size.",
  [K], [("closed form and clipping at t_peak", K + ":_rolling_plaw_vs_logt,_log_mah_kern"), ("public entry points", K + ":mah_singlehalo,mah_halopop,logmh_at_t_obs")])
p("C02", "Accretion rate is the exact time derivative of the mass, zero after the peak",
  "At every time before t_peak the returned accretion rate (Msun/yr, time in Gyr) equals the derivative of the returned halo mass with respect to time divided by 1e9, and at every time after t_peak it is exactly zero. This holds in the single-halo and the population entry points and for the unconstrained parametrisation used by the fitter.",
  ["inputs"], "all halo parameter values, all times on either side of t_peak, all z=0 ages, all batch shapes",
  "Tests use finite differences on a handful of halos with loose tolerance; they cannot see an error confined to a parameter corner or to one side of t_peak.",
  [K], [("automatic differentiation of the mass history", K + ":_dmhdt_noq_kern_scalar"), ("freeze after t_peak", K + ":_dmhdt_kern,_diffmah_kern")])
p("C03", "Every unconstrained parameter vector describes a physical growth history",
  "For every unconstrained parameter vector and every pair of times 0 < t1 <= t2 <= t0, the resulting halo mass never decreases, the accretion rate is never negative, and the mass never exceeds 10**logm0; at t0 the log-mass equals logm0 whenever t_peak >= t0.",
  ["inputs"], "all real unconstrained parameter vectors, all pairs of times up to the z=0 age, all z=0 ages",
  "Monotonicity is a statement about all parameter vectors and all pairs of times; the tests sample a few dozen.",
  [K], [("index ordering early > late > 0", K + ":_get_early_late,get_bounded_mah_params"), ("growth law", K + ":_power_law_index_vs_logt,_rolling_plaw_vs_logt")])
p("C04", "Single-halo parameter transform is a bijection onto the admissible region",
  "Mapping any unconstrained halo parameter vector to physical parameters yields every parameter strictly inside its declared bounds with the early index strictly above the late index, and mapping back returns the original vector; conversely every admissible physical vector survives the round trip. Each physical parameter is a strictly increasing function of its own unconstrained value and, apart from the early index (which also depends on the late one), of no other.",
  ["inputs"], "all real unconstrained vectors; all physical vectors inside the declared bounds with early > late",
  "Round trips are tested at random samples with 1e-3-level tolerances; injectivity, ordering and cross-talk are statements about all vectors.",
  [K], [("bounded/unbounded maps", K + ":get_bounded_mah_params,get_unbounded_mah_params"), ("declared bounds", K + ":MAH_PBDICT")])
p("C05", "Population parameter transforms are bijections onto the declared bounds",
  "For every component of the population model and for the complete parameter set, mapping any unconstrained vector to bounded values puts every parameter strictly inside its declared bounds, and the two maps are inverse to each other in both directions. The bounded value called NAME is a strictly increasing function of the unconstrained value called u_NAME and of nothing else.",
  ["inputs"], "all real unconstrained vectors and all in-bounds vectors for all component modules and the full 90+ parameter set",
  "Tests round-trip the defaults and some random vectors; a swap of two parameters with equal values, or one that only matters far from the defaults, passes.",
  [D + "bimod_censat_params.py", D + "covariance_kernels.py", D + "frac_early_cens.py", D + "early_index_bimod.py", D + "late_index_bimod.py", D + "logtc_bimod.py", D + "bimod_logm0_kernels/logm0_pop_bimod.py", D + "bimod_logm0_sats/logm0_pop_bimod_sats.py", D + "t_peak_kernels/tp_pdf_cens_flex.py", D + "t_peak_kernels/tp_pdf_sats.py", D + "t_peak_kernels/tp_pdf_cens.py", D + "t_peak_kernels/utp_pdf_kernels.py", D + "ftpt0_cens.py", D + "early_index_pop.py"],
  [("per-component maps", "get_bounded_*/get_unbounded_* in each component module"), ("full set", D + "bimod_censat_params.py:get_diffmahpop_params_from_u_params")])
p("C06", "Population parameters reach exactly the model component that declares them",
  "Splitting the full population parameter set gives each component exactly its own named values, for constrained and unconstrained sets alike, and every name of the full set appears once. Replacing a subset of parameters (or excluding a list of names) changes or keeps exactly the named ones. Centrals do not respond to satellite-only parameters and vice versa, and the early-type (late-type) branch does not respond to parameters that only the other branch declares.",
  ["inputs", "configurations"], "all parameter values (all entries pairwise distinct included), all subsets of varied or excluded names, all halo masses and times",
  "Tests check default values and shapes; two parameters with the same default, or a wrong branch's parameter, are indistinguishable there.",
  [D + "bimod_censat_params.py", D + "mc_bimod_cens.py", D + "mc_bimod_sats.py", D + "early_index_bimod.py", D + "late_index_bimod.py", D + "logtc_bimod.py"],
  [("routing by name", D + "bimod_censat_params.py:get_component_model_params,get_component_model_u_params"), ("varied subsets", D + "bimod_censat_params.py:_get_all_diffmahpop_params_from_varied,get_varied_params_by_exclusion")])
p("C07", "Predicted mean halo parameters and fractions stay in their declared ranges",
  "For every in-bounds population parameter set, halo mass, observation time and peak time, the predicted early-type fraction lies in [0,1] and the predicted mean late index and logtc lie strictly inside the halo-parameter bounds, the mean early index, the mean late index and the early-type fraction lie between the smallest and the largest of their own asymptote parameters (the indices as far as the halo-parameter bounds allow), the mean logtc is affine in mass with its own slope parameter wherever it is not held at a bound, and the mean early index exceeds the mean late index, for both early- and late-type halos. The predicted mean logm0 is affine in observed mass: observed mass + zero-point + slope*(mass - 12), with zero-point and slope the declared trend in observation time of their own parameters and never below their declared floor.",
  ["inputs"], "all in-bounds population parameters, all halo masses, observation times and peak times",
  "Tests evaluate default parameters on small grids; a coefficient that leaves its range only in a corner of parameter space is invisible.",
  [D + "frac_early_cens.py", D + "early_index_alpha.py", D + "early_index_beta.py", D + "late_index_alpha.py", D + "late_index_beta.py", D + "logtc_early.py", D + "logtc_late.py", D + "bimod_logm0_kernels/logm0_pop_early.py", D + "bimod_logm0_sats/logm0_pop_early.py"],
  [("prediction kernels", "_pred_*_kern, _frac_early_cens_kern")])
p("C08", "Scatter covariance is symmetric positive definite at every mass",
  "For every in-bounds population parameter set and halo mass, the covariance of the unconstrained halo parameters is symmetric and positive definite, its diagonal is the square of the predicted scatter of each parameter (each strictly inside its declared range), and each off-diagonal entry is the declared correlation of that pair times the two scatters.",
  ["inputs"], "all in-bounds population parameter sets, all real halo masses",
  "Positive definiteness over a continuous parameter box and all masses cannot be sampled; tests check a list of masses and random draws.",
  [D + "covariance_kernels.py"], [("assembly", D + "covariance_kernels.py:_get_diffmahpop_cov"), ("correlation matrix", D + "covariance_kernels.py:_get_corr_matrix"), ("utilities", "diffmah/utils.py:covariance_from_correlation")])
p("C09", "Sampled peak times stay in physical support and follow their distribution",
  "For every in-bounds population parameter set, mass, observation time and random key, a central's peak time lies between 0.05*t0 (t0: the age of the universe at z=0) and t0, and a satellite's between 0.1 and 1 times its observation time. Both are nondecreasing functions of the underlying uniform draw, obtained by inverting a cumulative distribution that is nondecreasing with declared end values.",
  ["inputs"], "all in-bounds population parameters, masses, observation times, ages and keys (all values of the uniform draw)",
  "Tests draw a few thousand values for a few masses; the support bound must hold for every draw and parameter set.",
  [D + "t_peak_kernels/tp_pdf_cens_flex.py", D + "t_peak_kernels/tp_pdf_sats.py", D + "t_peak_kernels/utp_pdf_kernels.py"],
  [("inverse-CDF sampling, centrals", D + "t_peak_kernels/tp_pdf_cens_flex.py:mc_tpeak_singlecen"), ("truncated normal, satellites", D + "t_peak_kernels/utp_pdf_kernels.py:mc_tp_pdf_singlesat")])
p("C10", "Monte Carlo populations are self-consistent halo by halo",
  "In every generated population each halo's parameters are, all five together, either its early-type or its late-type realisation, chosen as early-type exactly when one uniform draw falls below the predicted early-type fraction for its own mass and observation time. The returned mass histories and accretion rates are those of the returned parameters; every realisation lies inside the physical bounds with early > late index; its peak time is the supplied one when one is supplied; and halo i depends only on the inputs of halo i and the random key. Each realisation is the predicted mean plus Gaussian scatter with the predicted covariance, in the unconstrained space. (Precondition: the predicted mean log-mass is inside its physical bounds (0, 17), and a supplied peak time is inside (0.05, 20).)",
  ["inputs"], "all population parameters, all arrays of halo masses and times of every length, all random keys, with and without supplied peak times, centrals and satellites",
  "Tests check shapes, finiteness and aggregate fractions for a couple of keys; a mismatch between one parameter and the halo's branch or history passes.",
  [D + "mc_bimod_cens.py", D + "mc_bimod_sats.py"], [("population generators", D + "mc_bimod_cens.py:mc_cenpop,mc_diffmah_cenpop"), ("", D + "mc_bimod_sats.py:mc_satpop,mc_diffmah_satpop"), ("single realisation", D + "mc_bimod_cens.py:mc_diffmah_params_singlecen")])
p("C11", "No random key is used for two different draws",
  "In every stochastic entry point (single-halo parameters, populations, moment predictions, losses; centrals, satellites and combined) no two different random draws consume the same key, no key is both consumed and split again, and all halos and bins use distinct keys; results are a function of the inputs and the key alone.",
  ["inputs", "configurations"], "all keys, all numbers of halos and mass bins, with and without supplied peak times",
  "Key reuse leaves every single draw correctly distributed; only the joint behaviour is wrong, and no unit test looks at it.",
  [D + "mc_bimod_cens.py", D + "mc_bimod_sats.py", D + "bimod_cens_fithelp.py", D + "bimod_sats_fithelp.py", D + "bimod_censat_fithelp.py"], [("key discipline", "jran.split / consuming calls in the Monte Carlo generators")])
p("C12", "Predicted moments are the mixture mean and standard deviation",
  "At every time, the predicted mean of log-mass is the average over realisations of f*early + (1-f)*late with f the early-type fraction, and the predicted scatter is the square root of the correspondingly weighted mean square deviation from that mean, so it is never negative; the weights are non-negative and sum to one. Centrals and satellites follow the same rule with their own fraction and realisations.",
  ["inputs"], "all population parameters, masses, observation times, time grids, ages and keys",
  "Tests check that the outputs are finite and of plausible size; a weight applied to the wrong branch changes them by percents.",
  [D + "mc_bimod_cens.py", D + "mc_bimod_sats.py"], [("moments", "predict_mah_moments_singlebin in both modules")])
p("C13", "Population losses are the declared mean-square errors, with exact gradients",
  "The training loss of centrals (satellites) equals the mean over mass bins of the mean-square error of predicted mean log-mass plus that of the predicted scatter, each bin using its own mass, time, time grid, key (bin i the i-th split of the given key) and targets; the combined loss is the sum of the central and the satellite loss evaluated with separate keys. The unconstrained versions equal the constrained ones composed with the parameter transform, unvaried parameters keep their default values, and the returned value and gradient belong to the same loss.",
  ["inputs", "configurations"], "all population parameters and subsets of varied parameters, all target data, all numbers of bins, all keys",
  "Tests check that the loss is positive and the gradient finite for one configuration; swapped targets or bins go unnoticed.",
  [D + "bimod_cens_fithelp.py", D + "bimod_sats_fithelp.py", D + "bimod_censat_fithelp.py"], [("losses", "loss_mah_moments_multibin*, loss_and_grads_* in the three modules")])
p("C14", "Fitter uses exactly the admissible snapshots as its target",
  "The fit target consists of exactly the snapshots, in time order, whose log-mass is above both the minimum mass and the final log-mass minus the allowed range and whose time is at or after the minimum fitting time; target masses are the running maximum over the kept snapshots. The fit is skipped exactly when fewer than the required number of target points lie below the last one, the peak time is the first time the final mass is reached unless fixed by the caller, and the loss minimised is the mean-square difference between model log-mass and target. (Precondition: allowed range >= 0, times > 0. With no minimum mass given, zero masses count as 1e-7; otherwise masses at or below 10**lgm_min are clipped to lgm_min, hence never part of the target.)",
  ["inputs"], "all mass histories (zeros, plateaus and non-monotone ones included), time grids, mass cuts, time cuts, and fixed peak times",
  "Tests use smooth model-generated histories where cuts rarely bind; zeros, plateaus and ties are where selection goes wrong.",
  [FH + "diffmah_fitter_helpers.py"], [("selection", FH + "diffmah_fitter_helpers.py:_get_target_data,_get_clipped_log_mah,get_loss_data"), ("loss", FH + "diffmah_fitter_helpers.py:log_mah_loss_uparams")])
p("C15", "Fitter always returns a consistent, admissible outcome",
  "Every fit either is skipped (parameters and loss all filled with -99, algorithm code -1, not terminated) or returns parameters strictly inside the physical bounds with early > late index, peak time equal to the fixed or measured one, a loss equal to the loss of exactly those parameters (or, when nothing finite was found at the first gradient-descent step, the sentinel 999.99 with the starting parameters), and algorithm code 0 exactly when the quasi-Newton minimiser succeeded with a finite positive loss and 1 otherwise. Forcing a skip always skips, and mismatched input shapes are rejected.",
  ["inputs", "histories"], "all mass histories and fitter options, every outcome of the two minimisers",
  "Tests fit well-behaved histories for which the first minimiser succeeds; the fallback, skip and failure paths and their combinations are barely exercised.",
  [FH + "diffmah_fitter_helpers.py", FH + "bfgs_wrapper.py"], [("fitter", FH + "diffmah_fitter_helpers.py:diffmah_fitter"), ("fallback", FH + "bfgs_wrapper.py:bfgs_adam_fallback")])
p("C16", "Gradient-descent wrapper returns the best parameters it evaluated",
  "For every loss function, the returned loss is the smallest finite loss seen before stopping and the returned parameters are the ones it was evaluated at; the loss and parameter histories have one row per evaluated step, in order. The run stops early only when the loss drops below the tolerance or when a non-finite value appears, the termination flag is 0 exactly in the latter case, and no non-finite step enters the histories; a warm-up hands its best finite parameters to the main run.",
  ["inputs", "histories"], "all loss functions (including ones that return NaN or inf at any step), step counts, tolerances, warm-up counts",
  "Tests minimise one parabola; the position at which a NaN or the tolerance hits is a history the tests do not vary.",
  [FH + "fit_utils.py"], [("loop", FH + "fit_utils.py:_jax_adam_wrapper"), ("warm-up", FH + "fit_utils.py:jax_adam_wrapper")])
p("C17", "Fit results survive the text row and the collated file",
  "Writing a fit result as a text row and parsing it back returns every parameter and the loss to the printed precision (6 significant digits) and the integer columns exactly, in the order of the published header; rows carry the halo id first when one is given. Collating any set of rows, with or without halo ids, stores under each column name exactly that column, losing no row and no digit that the rows contain.",
  ["inputs"], "all fit results (successful, skipped), all halo ids, all numbers of rows, both layouts",
  "Tests write one or two rows; column swaps between equal or similar values and large integer ids are not covered.",
  [FH + "diffmah_fitter_helpers.py"], [("text rows", FH + "diffmah_fitter_helpers.py:get_outline,_parse_outline,HEADER"), ("collated file", FH + "diffmah_fitter_helpers.py:write_collated_data")])
p("C18", "HDF5 helpers return exactly what was stored",
  "Loading a flat HDF5 file (or a group inside it, at any depth) returns exactly the requested columns under their own names, each holding exactly the requested contiguous rows in order; omitting the column list returns all columns. Writing any named tuple (with ASCII field names) and loading it returns the same fields in the same order with the same values.",
  ["inputs", "configurations"], "all files, groups, column lists and row ranges (negative and open-ended included); all named tuples of scalars and arrays",
  "Tests read two columns and one row range; nested groups, column subsets and open ranges interact.",
  [DL + "io_utils.py"], [("reader", DL + "io_utils.py:load_flat_hdf5"), ("named tuples", DL + "io_utils.py:write_namedtuple_to_hdf5,load_namedtuple_from_hdf5")])
p("C19", "Matrix utilities are exact inverses with the documented layout",
  "Building a triangular factor from a parameter vector of any triangular length puts the first n values on the diagonal and the remaining ones below it in row order, zeros above. Covariance from correlation and standard deviations is D*corr*D, correlation from covariance has unit diagonal, and the two are inverse to each other (for unit-diagonal correlations and positive standard deviations); symmetric input gives symmetric output.",
  ["inputs"], "all parameter vectors of all triangular lengths, all matrices with positive diagonal of any size",
  "Tests check sizes 1-3 with hand-written numbers; the layout must hold for every size.",
  ["diffmah/utils.py", D + "covariance_kernels.py"], [("triangular layout", "diffmah/utils.py:get_cholesky_from_params"), ("conversions", "diffmah/utils.py:covariance_from_correlation,correlation_from_covariance")])
p("C20", "Numerical building blocks obey their defining laws",
  "The sigmoid stays strictly between its two asymptotes, equals their midpoint at its centre, is monotone with the sign of its step and is inverted exactly by its inverse; the time-step array is all positive on increasing times and consecutive steps tile the time axis; trimmed mean and variance are the mean and the unbiased variance (n-1) of the values between the p-th and (1-p)-th percentiles inclusive, unchanged by reordering; broadcasting scalars, one-element vectors and vectors returns equal-length vectors with the input values.",
  ["inputs"], "all real arguments, slopes, centres and asymptotes; all increasing time arrays of every length; all samples and trim fractions",
  "Tests evaluate a few points; algebraic laws over all arguments and lengths are out of reach of sampling.",
  ["diffmah/utils.py", K], [("sigmoids", "diffmah/utils.py:_sigmoid,_inverse_sigmoid,_sig_slope"), ("time steps", "diffmah/utils.py:get_dt_array"), ("trimmed statistics", "diffmah/utils.py:trimmed_mean,trimmed_mean_and_variance")])
p("C21", "Loaded simulation histories are cumulative maxima of the stored masses",
  "Every simulation loader returns, for each stored halo in file order, the running maximum over time of its stored mass in the documented units (each loader's own conversion applied exactly once; the Galacticus loader returns the stored tables as they are), never decreasing in time, with zero masses at the documented floor, together with the ages of the stored snapshots in their stored order. Restricting to a range of halos, or distributing over ranks, returns exactly the corresponding rows of the full load, with no halo lost or repeated. (Precondition: at least two snapshots; stored masses are zero or at least one, stored log-masses non-negative.)",
  ["inputs", "configurations"], "all stored mass tables (zeros and mass losses included), all row ranges, all numbers of ranks and chunks",
  "The loaders need simulation files the test suite does not have; only one of them has a (conditional) test.",
  [DL + "load_hacc_mahs.py", DL + "load_bpl_um_data.py", DL + "load_tng_mahs.py", DL + "load_diffmah_pub_data.py", DL + "load_galacticus_eps_mahs.py"],
  [("running maximum and units", "load_* functions"), ("distribution over ranks", DL + "load_hacc_mahs.py:load_mahs_per_rank,_scatter_nd")])
p("C22", "Population target data are the statistics of the rescaled sample histories",
  "Target histories are rescaled so that every halo has exactly the sample's final mass, with each halo's shape unchanged; the tabulated means and variances are those of the rescaled sample at each tabulated time. Outlier cleaning keeps a halo exactly when its rescaled history stays within the given number of trimmed standard deviations at every checked time; loading population fit targets keeps exactly the samples passing the mass, time and size cuts, and attached histories belong to the attached parameters.",
  ["inputs"], "all sample histories, output times, masses, cuts and sample files",
  "These functions have no tests at all in the suite.",
  [FH + "measure_mahs.py", D + "load_diffmahpop_fitdata.py"], [("targets", FH + "measure_mahs.py:measure_target_data,get_clean_sample_mask"), ("fit targets", D + "load_diffmahpop_fitdata.py:load_diffmahpop_targets,rescale_target_log_mahs")])

p("C23", "Component calibration losses measure the error of the component's own prediction",
  "For every calibration data set of any size, the training loss of each population component (early index, logtc, zero-point and slope of the mean logm0 of centrals and satellites, peak-time distributions) equals the mean over data points of the squared (multi-mass central peak-time loss: absolute) difference between the component's own prediction for that point, at the bounded values of the given parameters where the loss takes unconstrained ones, and the target of the same point; losses over several data sets (any number) are the sum of the data sets' losses; the returned gradient is that loss's gradient. A component fitter hands exactly that loss, the given data, the start and the settings to the minimiser and returns the parameters found (mapped to their bounds for peak times), their loss, the flag and the code. The peak-time density and cumulative distribution used in calibration are the truncated normal on [0.1, 1] with the given location and scale; for centrals, as a function of t_peak, they are the density and distribution of t_0 times the relative peak times that are drawn.",
  ["inputs"], "all data sets of any number and size, all parameter values, all starts and minimiser outcomes",
  "The component losses are called in tests with one data set at the default parameters, and only for being finite; the fitters of the logm0 components are never called.",
  [D + "early_index_pop.py", D + "logtc_early.py", D + "bimod_logm0_kernels", D + "bimod_logm0_sats", D + "t_peak_kernels"], [("component losses", D + "early_index_pop.py:_loss_kern"), ("logm0 component losses and fitters", D + "bimod_logm0_kernels/logm0_c0_early.py:global_loss_kern,fit_global_c0_model"), ("peak-time fitters", D + "t_peak_kernels/tp_pdf_cens.py:t_peak_cens_fitter")])

p("C24", "Calls leave no trace",
  "No public function changes an array, table or other object its caller passes in, and no call changes anything that a later call reads: whatever calls were made before, with whatever arguments, a call returns what it would return in a fresh process (given the same files and, where a function draws from numpy's global generator, the same generator state).",
  ["inputs", "histories"], "all public functions, all arguments (dtypes and memory layouts included), all histories of earlier calls",
  "A test calls a function once on fresh data; overwriting the caller's array, or returning something remembered from an earlier call, only shows when data are reused or when particular calls follow one another.",
  ["diffmah"], [("loops filling arrays", "diffmah/utils.py:get_dt_array"), ("fit preparation", FH + "diffmah_fitter_helpers.py:get_loss_data"), ("loaders", DL), ("fit targets", D + "load_diffmahpop_fitdata.py:_add_n_sample_column,_attach_samples")],
  [("module objects", "default parameters, bounds and name tables, written only when a module is imported")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for d in P:
        f.write(json.dumps(d) + "\n")
print(len(P))
