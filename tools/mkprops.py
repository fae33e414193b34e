#!/usr/bin/env python3
"""Single source for properties.jsonl and MANIFEST.json.

usage: python3 tools/mkprops.py      (rewrites both files next to it)
"""
import json, os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "src/hera_pspec/"
P = []


def prop(id, title, statement, over, qtext, tests, files, mech, observe, state=(), note="", technique=""):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext,
                  tests=tests, files=files, mech=mech, observe=observe, state=state,
                  note=note, technique=technique))


prop("C01", "A UVPSpec written to HDF5 reads back as the same object",
     "Writing any valid UVPSpec (any number of spectral windows, polarization pairs, baseline-pairs, times; folded or not; with or without covariances, statistics, labels, cosmology, beam, flexible string metadata, approximate or exact window functions) to HDF5 and reading it back gives an object equal in every attribute, including the arrays that the class's own equality ignores. "
     "A metadata-only read gives the same metadata with no data arrays, and a partial read (spectral windows, baseline-pairs, baselines, times, polarization pairs, only_pairs_in_bls) equals a full read followed by the same select.",
     ["inputs"], "all UVPSpec objects x all read options", "tests round-trip one or two canned objects, most of which need data files that are absent here; they compare with ==, which skips several arrays",
     ["uvpspec.py", "uvpspec_utils.py"],
     [("write_hdf5/write_to_group/read_hdf5/read_from_group", "uvpspec.py"), ("selection mapped onto hdf5 datasets", "uvpspec_utils.py:_select")],
     ["UVPSpec.write_hdf5", "UVPSpec.read_hdf5", "UVPSpec.select"],
     note="", technique="property-based testing: generated-object round-trip and differential (partial read vs read+select)")

prop("C02", "PSpecContainer is a map (group, spectrum) -> UVPSpec over any history",
     "After any sequence of open/set/get/list/save/close operations, in both transactional and keep-open modes, a PSpecContainer lists exactly the groups and spectra stored so far and returns for each the object last stored under that name, including from a second reader. "
     "Storing an existing name without overwrite is refused, and writing through a read-only container is refused; a refused or failed store leaves every previously stored spectrum and listing as it was. "
     "Combining split spectra in a container or from several containers (combine_psc_spectra, fast-merge-baselines) gives per dataset pair the spectrum that was split and removes exactly the parts it combined.",
     ["histories", "inputs"], "all operation sequences over a small name space, including failing stores and reopenings", "tests run single scripted sequences",
     ["container.py", "cli.py"],
     [("transactional decorator", "container.py"), ("set_pspec/get_pspec/spectra/groups/tree", "container.py"), ("combine_psc_spectra", "container.py"), ("fast_merge_baselines", "cli.py")],
     ["PSpecContainer", "combine_psc_spectra", "cli fast-merge-baselines"],
     state=[("hdf5 file", "groups -> spectra -> UVPSpec groups", "container.py")],
     technique="stateful model-based testing against a dict model; generated split/merge round-trips")

prop("C03", "UVPSpec.select keeps exactly the requested data, consistently",
     "Selecting by any combination of spectral windows, baselines, baseline-pairs, times or LSTs, and polarization pairs keeps exactly the rows, windows and polarizations requested, each with unchanged data, weights, integrations, nsamples, covariances, statistics, window functions, times, lsts, labels and scalars, and updates all counts and indices so the result passes check. "
     "Independent selections commute and compose, selecting everything is the identity, and a selection that matches nothing is refused.",
     ["inputs"], "all UVPSpec objects x all selection arguments", "no passing test exercises select beyond a couple of fixed arguments",
     ["uvpspec.py", "uvpspec_utils.py"], [("UVPSpec.select", "uvpspec.py"), ("_select", "uvpspec_utils.py"), ("trim_dset/_conj helpers", "uvpspec_utils.py")],
     ["UVPSpec.select"], technique="property-based testing against an independent reference selector; metamorphic (commutation, composition)")

prop("C04", "Combining UVPSpecs inverts splitting, in any order",
     "Splitting a UVPSpec along spectral windows, baseline-pair-times or polarization pairs and combining the pieces in any order (combine_uvpspec, recursive_combine_uvpspec, +) gives back the original data: every (spw, blpair-time, polpair) cell keeps its own data, weights, integration, nsample, statistics, covariance, labels, scalar, frequencies and delays. "
     "Objects that overlap, or that differ in static metadata or along more than one axis, are refused.",
     ["inputs", "histories"], "all objects x all partitions x all orders", "tests combine two canned objects in one order",
     ["uvpspec.py"], [("get_uvp_overlap", "uvpspec.py"), ("combine_uvpspec", "uvpspec.py"), ("recursive_combine_uvpspec", "uvpspec.py")],
     ["combine_uvpspec", "recursive_combine_uvpspec", "UVPSpec.__add__"], technique="property-based testing: split/permute/combine round-trip by content")

prop("C05", "average_spectra is the stated weighted average with propagated errors",
     "Averaging spectra over times and/or baseline-pair groups gives, for every output spectrum, the weighted mean of exactly the input spectra in its group (inverse-variance weights (integration*sqrt(nsample))^2, or 1/error^2 when error_weights is given, multiplied by any group weights), with nsamples summed, integrations and weights combined with the same weights, and statistics and covariances propagated for independent inputs. "
     "Ungrouped baseline-pairs pass through unmixed, fully flagged inputs contribute nothing, averaged times and LSTs are the mean (circular mean) of the inputs, and the result does not depend on the order or the spelling of the groups.",
     ["inputs"], "all UVPSpecs (with flags, uneven weights, several spws/pols) x groupings x time_avg x error options", "average tests need absent data files or use uniform weights",
     ["grouping.py", "uvpspec.py"], [("average_spectra", "grouping.py"), ("UVPSpec.average_spectra", "uvpspec.py")],
     ["UVPSpec.average_spectra", "grouping.average_spectra"], technique="property-based testing against an independent reference implementation")

prop("C06", "Folding averages +/- delays and propagates errors",
     "Folding a UVPSpec replaces each non-zero delay pair by the mean of the +delay and -delay values (dropping the zero delay and the unpaired most negative delay), doubles nsamples, propagates covariances as for the mean of two values and errors in inverse quadrature, folds window functions by averaging their quadrants (both delay axes), and exposes only positive delays through every getter. "
     "A spectrum that is symmetric in delay is unchanged by folding, and folding twice is refused.",
     ["inputs"], "all UVPSpecs, even and odd numbers of delays, with stats/cov/window functions", "fold tests use data files absent here",
     ["grouping.py", "uvpspec.py"], [("fold_spectra", "grouping.py/uvpspec.py"), ("folded getters", "uvpspec.py")],
     ["UVPSpec.fold_spectra", "get_data/get_dlys/get_kparas after folding"], technique="property-based testing against a reference fold; metamorphic symmetry")

prop("C07", "Spherical averaging bins every cylindrical mode exactly once",
     "Averaging a cylindrical UVPSpec onto spherical k bins gives in each bin the weighted mean of exactly those (baseline, delay) modes whose |k|=sqrt(kperp^2+kpara^2) lies in that bin, using the stated inverse weights, with covariance, statistics and window functions propagated through the same linear map (exact window functions are count-rebinned onto the bins and row-normalised). "
     "Modes outside all bins contribute nothing, empty bins are zero, a constant power spectrum stays constant, and the input is not modified.",
     ["inputs"], "all UVPSpecs x bin edges x weighting options x time_avg", "tests need absent data files",
     ["grouping.py"], [("spherical_average", "grouping.py"), ("spherical_wf_from_uvp", "grouping.py")],
     ["grouping.spherical_average", "grouping.spherical_wf_from_uvp"], technique="property-based testing against a reference binning; metamorphic constant-field law")

prop("C08", "Delay-bin averaging applies the stated kernel to data and errors",
     "Averaging a UVPSpec in delay bins replaces each output delay by the kernel-weighted mean of the input delays in its bin, with the covariance, statistics and window function of that linear combination, integrations, weights and nsamples left as they were, and all delay metadata and counts describing the output bins. "
     "The caller's kernel and input object are left alone when not in place.",
     ["inputs"], "all UVPSpecs x kernels", "only canned cases", ["grouping.py"], [("average_in_delay_bins", "grouping.py")], ["grouping.average_in_delay_bins"],
     technique="property-based testing against a reference linear map")

prop("C09", "Key and index accessors agree with the arrays they index",
     "For every valid UVPSpec and every (spw, baseline-pair, polarization-pair) key in any accepted spelling (tuple or dict; integer or antenna-pair tuple; polarization integer, tuple or string), the getters return exactly the rows of the stored arrays for that baseline-pair, window and polarization, in storage order, and omit_flags removes exactly the zero-integration rows. "
     "Integer codes for baselines, baseline-pairs and polarization pairs convert to tuples and back without loss or collision, and lookups of absent keys are refused rather than returning other data.",
     ["inputs"], "all objects x all keys x all spellings; all antennas 0..899 and polarizations", "tests try a few keys on one object",
     ["uvpspec.py", "uvpspec_utils.py"], [("key_to_indices, get_*", "uvpspec.py"), ("_antnums_to_blpair, polpair_tuple2int, ...", "uvpspec_utils.py")],
     ["UVPSpec.get_data/get_wgts/get_integrations/get_nsamples/get_cov/get_stats/get_dlys/get_kparas/get_kperps/get_blpair_seps", "uvpspec_utils integer codes"], technique="property-based testing against brute-force lookup; round-trips")

prop("C10", "Cosmological conversions obey their defining relations",
     "For every valid cosmology and redshift or frequency, redshift<->frequency are mutually inverse, the line-of-sight and transverse conversions agree with the numerically integrated Friedmann distance and expansion rate for the same density parameters, tau<->k_parallel and baseline<->k_perpendicular conversions are linear and mutually inverse, X2Y is the product of the transverse conversion squared and line-of-sight conversion, and little_h only rescales by the stated power of h. "
     "The density parameters used are those given, and two cosmologies are equal exactly when their parameters are.",
     ["inputs"], "all cosmological parameters, redshifts, delays, baselines", "tests pin a handful of numbers at one cosmology",
     ["conversions.py"], [("Cosmo_Conversions, bl_to_kperp, tau_to_kpara, X2Y", "conversions.py"), ("Cosmo_Conversions.__init__", "conversions.py")],
     ["conversions.Cosmo_Conversions"], technique="property-based testing: inverse pairs, linearity, differential vs direct numerical integration")

prop("C11", "Unit, normalization and cosmology changes rescale everything consistently",
     "Converting a UVPSpec to Delta-squared multiplies every data value and statistic by k^3/(2 pi^2) of its own baseline-pair, delay and window (covariances by the product of the two factors, folded or not) and updates the units; changing the cosmology rescales data by the ratio of the power spectrum scalars; bias correction scales data, statistics and covariances by the stated total and data factors. "
     "No conversion touches weights, times, counts or the flagging, out-of-place calls leave the input untouched, and the k values reported equal those computed from the baseline lengths, delays and cosmology.",
     ["inputs"], "all UVPSpecs x cosmologies x corrections", "tests compare one object's norm_units string",
     ["uvpspec.py", "loss.py"], [("convert_to_deltasq", "uvpspec.py"), ("set_cosmology", "uvpspec.py"), ("apply_bias_correction", "loss.py"), ("get_kperps/get_kparas", "uvpspec.py")],
     ["UVPSpec.convert_to_deltasq", "UVPSpec.set_cosmology", "loss.apply_bias_correction"], technique="property-based testing against closed-form rescaling")

prop("C12", "The quadratic estimator matches its matrix definition",
     "For any data, weights, taper and supported weighting or normalization, the unnormalized bandpowers equal 1/2 x1^dag R1^T Q_alpha R2 x2, the response matrices G and H, normalization M, window W=MH and normalized bandpowers M q equal their matrix definitions computed by brute force, and the FFT and explicit code paths agree. "
     "The estimator is bilinear in the two datasets and window functions have unit row sums.",
     ["inputs"], "all small datasets, keys, tapers, R choices (identity, iC), norms, Ndlys, spw ranges, filter extensions", "tests compare a few fixed matrices and need absent data",
     ["pspecdata.py", "utils.py"], [("q_hat/get_G/get_H/get_MW/p_hat", "pspecdata.py"), ("get_Q_alt", "utils.py")],
     ["PSpecData.q_hat", "PSpecData.get_G", "PSpecData.get_H", "PSpecData.get_MW", "PSpecData.p_hat", "PSpecData.scalar"], technique="property-based differential testing against brute-force linear algebra; metamorphic bilinearity")

prop("C13", "pspec() computes each requested spectrum and labels it correctly",
     "For any datasets, baseline lists, polarization pairs, spectral windows and options, pspec() returns exactly one row per requested (spw, baseline-pair, time, polarization pair), whose power spectrum equals the directly evaluated estimator for those visibilities times the scalar and adjustment, and whose times, lsts, baseline vectors, integrations, weights, nsamples, labels, frequencies and delays are those of the visibilities that were multiplied. "
     "The value of a spectrum does not depend on what else is computed in the same call, and the input datasets are not modified.",
     ["inputs", "configurations"], "all dataset pairs x bls x pols x spws x tapers/norms/Ndlys/interleaving", "tests exercise few configurations and rarely check values",
     ["pspecdata.py"], [("PSpecData.pspec", "pspecdata.py"), ("validate_blpairs, set_spw", "pspecdata.py")],
     ["PSpecData.pspec"], technique="property-based testing: reference OQE, metamorphic independence of batch composition, input snapshots")

prop("C14", "Weights and flags decide what enters an estimate, regardless of history",
     "For any flags, external weights and selected window, the weighting applied is the one implied by the current flags, window, taper and data weighting: a channel flagged at all times contributes nothing to the estimate whatever (finite) values it holds, broadcasting flags makes them separable in time and frequency within each given window by the documented rule without ever clearing a flag (after which no flagged sample contributes to an integration that counts), and results do not depend on which keys, windows or weightings were evaluated earlier on the same object. "
     "A fully flagged integration has zero integration time, and trimming to common LSTs or converting to mK acts on data, weights and standard deviations alike.",
     ["inputs", "histories"], "all flag patterns x windows x sequences of setter and getter calls", "tests use unflagged or one hand-made pattern on fresh objects",
     ["pspecdata.py"], [("broadcast_dset_flags", "pspecdata.py"), ("w/Y/R/set_R/set_spw/clear_cache", "pspecdata.py")],
     ["PSpecData.broadcast_dset_flags", "PSpecData.pspec", "PSpecData.R"], state=[("_R/_Y/_C/_iC caches", "memoised weighting matrices", "pspecdata.py")],
     technique="stateful property-based testing against a fresh-object oracle; metamorphic flag-poisoning")

prop("C15", "Beam integrals, pspec scalars and Jy-to-mK factors are the defined integrals",
     "For Gaussian and tabulated beams the beam integrals equal their definitions at every frequency and polarization, compute_pspec_scalar equals the band integral of the stated integrand (scaling as tabulated beam areas, cosmology, taper, number of delays and band width dictate, for both sky and noise scalars), and Jy_to_mK equals the Rayleigh-Jeans factor with the beam's solid angle at each frequency. "
     "Adding or replacing polarizations of a tabulated beam changes only that polarization and never the caller's arrays.",
     ["inputs"], "all beams, bands, tapers, cosmologies, pols", "tests compare one number per quantity to 2-3 digits", ["pspecbeam.py", "conversions.py"],
     [("PSpecBeamBase.compute_pspec_scalar/Jy_to_mK", "pspecbeam.py"), ("PSpecBeamFromArray.add_pol", "pspecbeam.py")],
     ["PSpecBeamGauss", "PSpecBeamFromArray", "compute_pspec_scalar", "Jy_to_mK"], technique="property-based testing against independent quadrature; scaling laws")

prop("C16", "Thermal-noise spectra and error bars follow the radiometer formula",
     "Noise power spectra and per-spectrum error bars equal scalar*Tsys^2/(t_int*Ncoherent*sqrt(Nincoherent)) with the stated real/imaginary and Delta-squared factors using each row's own integration time, samples, Tsys, window and k, and system temperatures are those implied by the autocorrelations. "
     "Signal-plus-noise error bars are sqrt(sqrt(2) P_S P_N + P_N^2) with negative signal clipped at zero, and flagged rows get the documented values without affecting other rows.",
     ["inputs"], "all UVPSpecs x Tsys forms x forms/components", "tests check one configuration",
     ["noise.py", "uvpspec.py", "utils.py"], [("Sensitivity.calc_P_N", "noise.py"), ("generate_noise_spectra", "uvpspec.py"), ("uvp_noise_error/uvd_to_Tsys", "utils.py")],
     ["noise.Sensitivity", "UVPSpec.generate_noise_spectra", "utils.uvp_noise_error", "utils.uvd_to_Tsys"], technique="property-based testing against the closed-form formula")

prop("C17", "Bootstrap resamples are draws of the data and their statistics are reproducible",
     "Bootstrap averages are averages of samples drawn with replacement from exactly the baseline-pairs of each group, reproducible from the seed and independent of data not in the group; the reported standard deviation, robust deviation and confidence intervals are those statistics of the realizations, attached to the all-sample average. "
     "Groups with one member, or with identical members, have zero bootstrap scatter.",
     ["inputs"], "all UVPSpecs x groups x seeds x options", "tests check shapes on one file", ["grouping.py"],
     [("sample_baselines, bootstrap_average_blpairs, bootstrap_resampled_error", "grouping.py")],
     ["grouping.sample_baselines", "grouping.bootstrap_average_blpairs", "grouping.bootstrap_resampled_error"], technique="property-based testing: invariants, differential against average_spectra on drawn samples")

prop("C18", "Pseudo-Stokes construction is the stated linear combination of visibilities",
     "A pseudo-Stokes visibility dataset is the stated linear combination (with pol-convention factor) of the matching linear-polarization visibilities of the two inputs, baseline by baseline, time by time and channel by channel, in whatever order each input stores its polarizations and baseline-times (a pair stored in different baseline-time orders is combined by key or refused); its flags are the union of its inputs' flags and its nsamples the stated combination. "
     "Constructing from missing polarizations or from data with other baselines, times or channels is refused, files stand for the datasets they hold, and the inputs are not modified.",
     ["inputs"], "all UVData pairs, storage orders, Stokes parameters and conventions", "tests use one file and check metadata",
     ["pstokes.py"], [("construct_pstokes/_combine_pol/filter_dset_on_stokes_pol", "pstokes.py")],
     ["pstokes.construct_pstokes", "pstokes.filter_dset_on_stokes_pol"], technique="property-based testing against a reference combination looked up by key")

prop("C19", "Baseline pairing and redundancy grouping are complete and consistent",
     "Redundant groups partition the selected baselines: two baselines share a group exactly when their vectors match within tolerance (length and angle modulo 180 degrees), every selected baseline is in exactly one group with the group's reported length, angle and label, and filters on length, angle, East-West extent and excluded antennas remove exactly what they say. "
     "Baseline-pairs constructed from a list are exactly the requested permutations, combinations and autos, with excluded classes absent, each pair within one redundant group, and grouping preserves the set.",
     ["inputs"], "all antenna layouts x filters x pairing options", "tests use one array layout", ["utils.py", "uvpspec_utils.py", "pspecdata.py"],
     [("construct_blpairs, calc_blpair_reds, get_reds, get_blvec_reds, get_bl_lens_angs, config_to_reds", "utils.py"), ("_get_red_bls/_get_red_blpairs", "uvpspec_utils.py")],
     ["utils.construct_blpairs", "utils.calc_blpair_reds", "utils.get_reds", "utils.get_blvec_reds"], technique="property-based testing against brute-force set construction")

prop("C20", "Exact window functions are normalised, non-negative and consistent",
     "For any beam, baseline length, spectral window, taper and bins, cylindrical window functions are non-negative and sum to one per delay, spherical window functions are the count-weighted rebinning of the cylindrical ones with rows summing to one or zero, identical inputs reached by different routes (beam object or file, per polarization or together) give identical results, and writing and reading window functions is lossless. "
     "Window functions depend on baselines only through their length, and the Fourier beam of a Gaussian beam has its analytic width.",
     ["inputs", "configurations"], "all Gaussian or file beams x windows x baselines x k bins", "tests need an absent beam file",
     ["uvwindow.py"], [("FTBeam", "uvwindow.py"), ("UVWindow.get_cylindrical_wf/cylindrical_to_spherical/get_spherical_wf", "uvwindow.py")],
     ["uvwindow.FTBeam", "uvwindow.UVWindow"], technique="property-based testing: normalisation invariants, differential routes, round-trips")

prop("C21", "Differencing and matching of UVPSpecs act cell by cell on common keys",
     "Subtracting two UVPSpecs gives, for every (spw, baseline-pair, time, polarization) they share, the difference of the two values with combined integrations, weights, samples and statistics as documented, and nothing for keys they do not share. "
     "Selecting what several UVPSpecs have in common keeps in each of them exactly the windows, baseline-pairs, times, lsts and polarizations present in all, leaving the data in them untouched.",
     ["inputs"], "all pairs of overlapping UVPSpecs", "tests use identical objects", ["uvpspec_utils.py"],
     [("subtract_uvp", "uvpspec_utils.py"), ("select_common", "uvpspec_utils.py"), ("_get_blpairs_from_bls, ...", "uvpspec_utils.py")],
     ["uvpspec_utils.subtract_uvp", "uvpspec_utils.select_common"], technique="property-based testing against a dict-of-cells model")

prop("C22", "Out-of-place operations never modify their inputs and match in-place ones",
     "Every operation that returns a new object or takes inplace=False (select, average, fold, spherical and delay-bin average, subtract, unit conversion, bias correction, combine, noise and error-bar computation, container store, file write) leaves its input objects and argument containers bit-for-bit unchanged and the result shares no mutable array with them; with inplace=True the object ends in the same state as the returned object.",
     ["inputs", "histories"], "all operations x all UVPSpecs x sequences", "tests do not compare inputs before and after", ["uvpspec.py", "grouping.py", "uvpspec_utils.py", "loss.py"],
     [("copy.deepcopy before mutation", "uvpspec.py, grouping.py, loss.py")], ["all UVPSpec methods with inplace"], technique="stateful property-based testing with deep snapshots")

prop("C23", "Statistical, spectral-range and orchestration utilities compute what they state",
     "Covariance and variance estimates equal the weighted second moments they define, spectral ranges selected by frequency or redshift contain exactly the channels inside the requested interval, delays are the Fourier dual of the channels, circular LST averages are rotation-equivariant, and the job monitor runs every requested item, re-runs exactly the failed ones and reports exactly those that still fail.",
     ["inputs", "fault_sequences"], "all arrays, intervals, failure patterns", "tests check single values; the monitor is tested with always-succeeding jobs", ["utils.py"],
     [("cov, variance_from_auto_correlations, spw_range_from_freqs, spw_range_from_redshifts, get_delays, job_monitor, log", "utils.py")], ["utils.*"],
     technique="property-based testing against definitions; generated fault patterns for job_monitor")

prop("C24", "Analytic bandpower covariances equal the propagated visibility covariances",
     "For any per-time visibility covariances the analytic bandpower covariance, its variance (diagonal) form and its real/imaginary parts equal the Gaussian propagation of those covariances through the estimator for each time and key, and are Hermitian-consistent and non-negative on the diagonal.",
     ["inputs", "configurations"], "all models (empirical, dsets, autos, foreground_dependent, known) x weightings x norms", "tests compare to themselves on one dataset", ["pspecdata.py"],
     [("get_analytic_covariance, get_unnormed_V, cov_q_hat, cov_p_hat", "pspecdata.py")], ["PSpecData.get_analytic_covariance", "PSpecData.cov_q_hat"],
     technique="property-based differential testing against brute-force traces")

prop("C25", "pspec_run and dataset preparation give the same spectra as doing it by hand",
     "pspec_run on files or loaded datasets produces for each dataset pair exactly the spectra that constructing PSpecData directly with the same options produces, stored under the dataset-pair name, whatever the number of files, batching, interleaving or storage order; preparation steps (LST trimming, rephasing, time interleaving, Jy-to-mK, calibration) act on the samples they name and on no others.",
     ["inputs", "configurations"], "all small dataset collections x run options", "tests are mostly disabled by absent files", ["pspecdata.py"],
     [("pspec_run", "pspecdata.py"), ("trim_dset_lsts, rephase_to_dset, Jy_to_mK", "pspecdata.py")], ["pspecdata.pspec_run", "PSpecData.trim_dset_lsts", "PSpecData.rephase_to_dset"],
     technique="property-based differential testing: end-to-end vs manual pipeline")

prop("C26", "Plots draw the spectra, axes, errors and labels stored in the object",
     "Delay spectra, waterfalls and wedges show, for every baseline-pair, time and redundant group requested, exactly the stored (averaged, folded, converted) bandpowers of the requested component against the stored delays or wavenumbers, baseline lengths and LSTs, with the stored errors and labels naming the data drawn; flagged integrations are blank, a selection restricts the plot to it, and malformed or oversized requests are refused.",
     ["inputs", "configurations"], "all UVPSpecs x plotting options", "tests compare element counts of a few pictures", ["plot.py"],
     [("delay_spectrum, delay_waterfall, delay_wedge, plot_uvdata_waterfalls", "plot.py")], ["plot.delay_spectrum", "plot.delay_waterfall", "plot.delay_wedge", "plot.plot_uvdata_waterfalls"],
     technique="property-based differential testing of the drawn matplotlib artists against the stored arrays")

prop("C27", "Simulated noise and foregrounds have the stated statistics and layout",
     "Simulated thermal noise is white circular Gaussian noise whose level in every sample is the stated one (system temperature or autocorrelations, integration time, samples, channel width, polarization, beam conversion), extension continues baselines, times and LSTs without gap or overlap, foreground draws have the stated covariance and are shared over times and baselines only as asked, and samples, autocorrelations and metadata that are not simulated stay as they were; spectra made from data in one call equal those made step by step.",
     ["inputs", "configurations"], "all datasets x seeds x simulation options", "tests look at one realization of one dataset", ["testing.py"],
     [("noise_sim, gauss_cov_fg, sky_noise_jy_autos, sky_noise_sim, uvpspec_from_data, build_vanilla_uvpspec", "testing.py")],
     ["testing.noise_sim", "testing.sky_noise_sim", "testing.gauss_cov_fg", "testing.uvpspec_from_data"],
     technique="property-based metamorphic testing (same seed, scaled inputs) with statistical oracles; differential testing against the step-by-step pipeline")

prop("C28", "UVPSpec equality is decided by what the objects hold",
     "Two UVPSpecs compare equal exactly when they have the same attributes and entries with the same values: integers, strings and flags (baselines, polarizations, units, history) exactly, times to a fraction of a second, other floating-point arrays to rounding relative to their own scale whatever their units, missing values matching each other; statistics, covariances and window functions count like the spectra. A copy or a re-read object equals its original, the comparison is symmetric, changes neither operand, and comparison with an object of another type or with fewer attributes is False rather than an error. Cosmologies are equal exactly when their parameters are.",
     ["inputs"], "all UVPSpecs x one differing value, entry, shape or attribute", "tests compare a handful of identical objects", ["uvpspec.py", "conversions.py"],
     [("UVPSpec.__eq__", "uvpspec.py"), ("Cosmo_Conversions.__eq__", "conversions.py")],
     ["UVPSpec.__eq__", "Cosmo_Conversions.__eq__"],
     technique="property-based testing: single-difference mutation of generated objects, with copies and file round trips as the equal side")

try:
    from overrides import apply  # optional
    apply(P)
except ImportError:
    pass

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        anchors = dict(files=[S + x for x in p["files"]],
                       mechanism=[dict(name=n, where=", ".join(S + y.strip() for y in w.split(","))) for n, w in p["mech"]],
                       observe_at=list(p["observe"]), hook_needed=None)
        if p["state"]:
            anchors["state"] = [dict(name=a, meaning=b, where=S + c) for a, b, c in p["state"]]
        f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"],
                                quantifier=dict(over=p["over"], text=p["qtext"]),
                                why_tests_cant=p["tests"], anchors=anchors)) + "\n")

checks, na = [], []
for p in P:
    if os.path.exists(os.path.join(HERE, "checks", p["id"].lower() + ".py")):
        cmd = "bash run.sh %s" % p["id"]
        checks.append(dict(property=p["id"], quick_cmd=cmd + " quick", thorough_cmd=cmd + " thorough",
                           technique=p["technique"], level="exploration",
                           level_note=p["note"] or "Random generated-input search against an explicit oracle within the sizes given in DESIGN.md; no exhaustiveness claim. Trusts numpy, h5py, pyuvdata and the reference code in checks/."))
    else:
        na.append(dict(property=p["id"], reason="check not built yet"))
m = dict(version=1, setup_cmd="bash setup.sh", checks=checks, not_applicable=na)
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(P), "properties,", len(checks), "claimed")
