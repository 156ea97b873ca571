#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
S = "src/legwork/"
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=()):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=[S + f for f in files],
            state=[dict(name=n, meaning=m, where=S + w) for n, m, w in state],
            mechanism=[dict(name=n, where=S + w) for n, w in mech],
            observe_at=observe, hook_needed=None)))

prop("C01", "Interpolated sensitivity curve always matches the stored parameters",
 "After any sequence of operations on a collection of sources (setting one or several observation parameters, also in place, assigning a whole new set, using a kept reference to the parameters, SNR calls with explicit settings, masking, copying, evolving, saving and loading), its interpolated sensitivity curve is the power spectral density for exactly the parameters it currently reports, and it is absent exactly when interpolation is switched off (or a re-loaded custom instrument still lacks its function). A change that is rejected with an error (unknown key, unknown instrument or noise model, unsupported mission length) leaves both the reported parameters and the curve exactly as they were.",
 ["histories", "inputs", "configurations"],
 "every finite history of public operations over every set of live collections, every parameter value",
 "The tests change one or two parameters once each and compare one curve; staleness needs a particular order of updates, copies and failures, and the Source tests cannot even run without the large data files.",
 ["source.py"],
 [("SensitivityCurveParams.__setitem__/update/_re_interpolate", "source.py"), ("Source.sc_params setter, Source.set_sc", "source.py"), ("__getitem__ rebinding of parameters", "source.py")],
 ["Source.sc(f)", "Source.sc_params"], [("sc_params", "the six observation parameters", "source.py"), ("sc", "interpolated curve", "source.py")])

prop("C02", "Observation parameters are a closed, complete set with defaults",
 "The observation parameters of a collection always consist of exactly the six keys instrument, custom_psd, t_obs, L, approximate_R and confusion_noise: assigning a new set resets every omitted key to its default (LISA, none, auto, auto, False, auto), changing keys individually or in bulk leaves the others alone, and no operation of the dictionary interface can add an unknown key (KeyError) or remove one (TypeError). The sensitivity curve is re-interpolated at most once per change, only when a value really changes, and never by a plain read, copy or mask.",
 ["histories", "inputs"], "every sequence of dictionary operations (item set, update, |=, setdefault, pop, popitem, clear, del, whole assignment) with any keys and values",
 "Tests try single examples of bad keys; they do not drive every mutating dict method or count re-interpolations over histories.",
 ["source.py"], [("SensitivityCurveParams", "source.py"), ("DEFAULT_SC_PARAMS", "source.py")],
 ["Source.sc_params", "number of PSD evaluations"], [("sc_params", "the six observation parameters", "source.py")])

prop("C03", "Luminosity tolerance fixes harmonic counts and the eccentric threshold",
 "At all times, for the current luminosity tolerance tol, the number of harmonics a collection reports as required for an eccentricity is the smallest whose summed relative power g(n,e) reaches (1 - tol) F(e) (never below 2, never decreasing with eccentricity, up to the resolution and limits of the tabulated grid and rounded up), and the eccentricity threshold is the smallest eccentricity (to 2e-5 in [0, 0.2], 1e-4 above) at which the n=2 harmonic alone misses that tolerance. Assigning a new tolerance updates both, whatever happened before, also on masked, copied, evolved and re-loaded collections; the threshold cannot be assigned directly; the dominant-strain harmonic reported for an eccentricity is the one maximising g(n,e).",
 ["histories", "inputs"], "every tolerance in (0,1), every eccentricity in [0,1), every history of tolerance assignments",
 "A couple of tolerances and eccentricities are sampled in tests that need the missing data file; minimality and monotonicity are universally quantified.",
 ["source.py"], [("gw_lum_tol setter, create_harmonics_functions, find_eccentric_transition", "source.py")],
 ["Source.harmonics_required", "Source.ecc_tol", "Source.max_strain_harmonic"], [("_gw_lum_tol/_ecc_tol/harmonics_required", "cached derived functions", "source.py")])

prop("C04", "Derived source quantities always agree with the stored ones",
 "At every point of every history the chirp mass, semi-major axis and number of sources reported by a collection equal the values computed from its current masses and orbital frequencies (chirp mass (m1 m2)^(3/5)/(m1+m2)^(1/5), Kepler's third law, len); they cannot drift after masses or frequencies are reassigned, after masking, evolving or loading. Assigning a semi-major axis (which must carry units) or constructing from one sets the orbital frequency by Kepler's third law, an explicitly given orbital frequency takes precedence over a semi-major axis, and chirp mass, source count and eccentricity threshold reject assignment.",
 ["histories", "inputs", "configurations"], "every history, all masses, separations, unit systems and array shapes",
 "Tests check one set of sources after one assignment.",
 ["source.py", "utils.py"], [("properties m_c, a, n_sources", "source.py"), ("get_a_from_f_orb/get_f_orb_from_a/chirp_mass", "utils.py")],
 ["Source.m_c", "Source.a", "len(Source)"])

prop("C05", "Indexing a collection follows numpy indexing for every attribute",
 "Indexing a collection with an integer (also negative or numpy), a slice with any step, a list or array of integers (any order, repeats, negative) or a boolean mask returns a collection of the same class in which every per-source attribute (masses, distance, frequency, eccentricity, weights, position, inclination, polarisation, merger time, SNR, dominant harmonic, merged flag) is the numpy-indexed original in the same order with units, and every other setting is unchanged and not recomputed. A boolean mask of the wrong length or an index of another type raises ValueError, and an out-of-range integer raises IndexError.",
 ["inputs", "histories"], "every index expression against every collection in every state of its life (before/after SNR, merger times, evolution)",
 "The tests use a few masks on freshly built sources; combinations of optional attributes, index kinds and life stages are not enumerated.",
 ["source.py"], [("Source.__getitem__, _ARR_ATTRS", "source.py")], ["attributes of sources[ind]"])

prop("C06", "Copies, subsets and evolved collections are isolated from each other",
 "A copy, a subset, an evolved new collection or a loaded collection shares no mutable state with the collection it came from: no later operation on either one (changing parameters or tolerance, in-place edits of arrays, SNR or merger-time calculation, evolution) changes any observable value of the other, and indexing, copying, saving, SNR calculation and evolving into a new collection leave the original as it was apart from their documented recorded results. Default arguments and dictionaries supplied by the caller are never modified, and parameter objects that were replaced no longer influence the collection.",
 ["histories"], "every history over several live collections derived from one another",
 "Isolation failures show only when two related objects are both used after branching; tests look at one object at a time.",
 ["source.py"], [("Source.__getitem__ (copy of values, new parameter object)", "source.py"), ("SensitivityCurveParams(source=...)", "source.py")], ["all attributes of all live collections after each operation"])

prop("C07", "Saving and loading reproduces a collection",
 "Loading a saved collection yields a collection with the same observable state: all per-source values with their units (including optional ones that are absent), merger times, SNRs, dominant harmonics and merged flags already calculated, tolerances, process count, interpolation choices and all observation parameters (strings, booleans, none, and quantities with units), so that every later calculation gives the same result on both. The file name may or may not carry an HDF5 extension.",
 ["histories", "inputs", "configurations"], "every collection reachable by any history, every unit and optional attribute combination",
 "Round trips are tested for two or three configurations and need data files absent from the repository.",
 ["source.py"], [("Source.save, Source.from_file, _write_dataset, _read_dataset", "source.py")], ["HDF5 file round trip"])

prop("C08", "File protocol: permissions, overrides, class and version rules",
 "Saving never touches an existing file unless overwriting was allowed (FileExistsError, content unchanged), appends .h5 when no HDF5 extension is present, and loading a missing file raises FileNotFoundError. Loading through the base class restores the saved subclass when its constructor is compatible, loading through a subclass yields that subclass, explicit overrides for interpolation and process count win over the stored ones, and a file from another version loads with a warning. Custom functions are replaced by the default with a warning, and a custom-instrument collection still loads so that its PSD can be supplied afterwards.",
 ["histories", "inputs", "configurations"], "every sequence of saves and loads over a set of file names, every class and override combination",
 "The tests exercise each rule once in isolation.",
 ["source.py"], [("Source.save / Source.from_file", "source.py")], ["file content", "class and settings of the loaded collection", "standard output warnings"])

prop("C09", "Evolution keeps lifetimes, merged flags and orbits consistent",
 "Evolving a collection by a time (one for all sources or one per source) marks as merged exactly the sources whose remaining merger time does not exceed it, reduces every remaining merger time by that amount with a floor of zero, sets merged sources to zero eccentricity and the 100 Hz sentinel frequency, and moves every other source to the orbit of Peters (1964) after that time (frequency never falls, eccentricity never grows, exactly circular stays circular). Being merged is permanent, evolving in two steps agrees with one combined step, zero time changes nothing for inspiralling sources, and evolving into a new collection gives the same result with all other attributes (weights, position, settings) carried over while the original is not evolved.",
 ["histories", "inputs"], "every sequence of evolutions, masks, merger-time calculations and SNR calls; every time from zero to beyond merger, scalar or per source, in any unit",
 "Composition of steps and absorption of the merged state need multi-step histories; tests evolve once and compare one case.",
 ["source.py", "evol.py"], [("Source.evolve_sources", "source.py"), ("evol_circ, evol_ecc, get_t_merge_ecc", "evol.py")], ["Source.ecc/f_orb/t_merge/merged"], [("t_merge", "remaining lifetime", "source.py"), ("merged", "merged flag", "source.py")])

prop("C10", "Merged sources contribute nothing",
 "A source flagged as merged has zero strain, zero characteristic strain, zero SNR (in every SNR mode, and recorded as zero by a full SNR calculation) and zero merger time, in whatever position of the collection it sits, whatever subset is requested and for any history leading to the merger, and its presence does not change any value of the other sources. Results always come back aligned with the requested subset.",
 ["histories", "inputs"], "every arrangement of merged and inspiralling sources, every subset mask, every harmonic list",
 "Needs partially merged collections after histories; tests have one fixed example.",
 ["source.py"], [("get_h_0_n/get_h_c_n/get_snr*/get_merger_time masks", "source.py")], ["return values and recorded attributes"])

prop("C11", "A source's SNR depends only on itself and the observation settings",
 "The SNR and dominant harmonic reported for a source are those of its own regime (circular or eccentric by the eccentricity threshold, stationary or evolving over the observation time), evaluated with enough harmonics for its eccentricity and the stored or given settings; they do not depend on which other sources share the collection, on their order, on the requested subset, or on the number of processes. The returned values, the recorded SNR and the recorded dominant harmonic agree and are aligned with the sources, and the stationary and evolving classes apply their regime to every source.",
 ["inputs", "histories", "configurations", "schedules"], "every batch of sources mixing all four regimes and all harmonic group sizes, every subset, every process count",
 "Tests compare a homogeneous random batch with the low level functions; permutation, batch and process-count independence are relations over all inputs.",
 ["source.py", "snr.py"], [("get_snr, get_snr_stationary, get_snr_evolving, harmonic groups", "source.py"), ("evol_ecc multiprocessing", "evol.py")], ["get_snr return value", "Source.snr", "Source.max_snr_harmonic"])

prop("C12", "Explicit observation settings win, persist, and others stay as stored",
 "In every SNR calculation each observation setting given explicitly is used and remembered in the stored parameters, and each setting not given is taken from the stored parameters and left as stored (an 'auto' stays 'auto'). An automatic observation time means 4 years for LISA and DECIGO and 5 years for TianQin and custom instruments, consistently in the stationarity split, the signal and the noise, so the result equals that of a fresh collection configured with the same settings, whether or not the curve is interpolated.",
 ["histories", "configurations", "inputs"], "every history of parameter changes and SNR calls with any subset of explicit settings",
 "Tests pass one explicit setting to one call; stickiness and precedence only show over sequences of calls with different settings.",
 ["source.py", "psd.py"], [("get_snr* default resolution and sc_params.update", "source.py"), ("power_spectral_density auto values", "psd.py")], ["get_snr result", "Source.sc_params after the call"])

prop("C13", "Noise curves match their instrument's published formula everywhere",
 "For every frequency, arm length, mission length, response choice and noise model, the power spectral density equals the published expression for the chosen instrument: LISA by Robson et al. (2019) Eq. 12 with the exact or approximate response, TianQin by Huang et al. (2020) with the 10/3 factor, DECIGO by Yagi & Seto, or the caller's custom function called with all settings. When the tabulated response file is not present the approximation is used instead, with a warning. Outside the supported band of LISA ([1e-7, 2] Hz) and DECIGO ([1e-3, 100] Hz by default) it is infinite, automatic settings are the instrument's own, output has the shape of the frequency input in 1/Hz for any frequency unit and shape, and an unknown instrument raises ValueError.",
 ["inputs", "configurations"], "all frequencies (inside, at and outside band edges, scalar to multi-dimensional, any unit) and all setting combinations",
 "Tests compare a few values and curves against each other; they do not pin the formula across the parameter space.",
 ["psd.py"], [("power_spectral_density, lisa_psd, tianqin_psd, decigo_psd, response functions", "psd.py")], ["return values"])

prop("C14", "Galactic confusion noise follows the selected model and mission length",
 "Each confusion noise model returns its published fit (Robson+19, Huang+20 restricted to [1e-4, 1] Hz, Thiele+21, Karnesis+21) in 1/Hz for scalar or array frequencies in any unit, using for tabulated models the coefficients of the nearest tabulated mission length and its own default length for 'auto'; no model gives zero noise, and every value is finite at every positive frequency. Thiele+21 with any length other than 4 years and unknown models raise ValueError, a user function is used as given by every instrument, and the noise adds linearly to the instrument noise.",
 ["inputs", "configurations"], "all frequencies, all models, all mission lengths and units",
 "Tests check that models differ and errors are raised, not the values across lengths.",
 ["psd.py"], [("get_confusion_noise*", "psd.py")], ["return values"])

prop("C15", "Mass and orbit conversions are exact, invertible and unit-safe",
 "For all masses, separations, frequencies and eccentricities in any compatible units, chirp mass, Kepler conversions, Peters' beta, c0 and a(e) equal their defining formulae, are symmetric in the two masses where the formula is, return the documented units, and invert one another (frequency to separation and back, a(e_i) with c0 gives a_i back). Scalars and arrays of any shape give elementwise identical results, and plain arrays without units are accepted where documented for chirp mass and c0.",
 ["inputs"], "all positive values over many orders of magnitude, all unit choices and shapes",
 "Tests check one Kepler round trip on random arrays in one unit system.",
 ["utils.py"], [("chirp_mass, get_a_from_f_orb, get_f_orb_from_a, beta, c_0, get_a_from_ecc", "utils.py")], ["return values and units"])

prop("C16", "Peters' power functions: g(n,e), F(e) and frequency derivatives",
 "For every harmonic n >= 1 and eccentricity in [0,1), g(n,e) equals Peters & Mathews (1963) Eq. 20, is non-negative, reduces to 1 for n=2 and 0 otherwise at e=0, and sums over n to the enhancement factor F(e), elementwise under broadcasting. The rate of change of the n-th harmonic frequency is n times (48/(5 pi)) (G Mc)^(5/3)/c^5 (2 pi f)^(11/3) F(e), and any harmonic below 1 raises ValueError.",
 ["inputs"], "all integer harmonics and eccentricities including both ends of the range, all shapes",
 "A historical defect (a cubed term) survived the tests for years because they sample only low harmonics and mild eccentricities.",
 ["utils.py"], [("peters_g, peters_f, fn_dot", "utils.py")], ["return values"])

prop("C17", "Strain amplitudes match the quadrupole formula for every source and harmonic",
 "For every combination of sources, time steps and harmonics the strain and characteristic strain returned have shape (sources, steps, harmonics) and each entry equals the quadrupole formula for that source, step and harmonic alone: proportional to 1/distance, with (h_c)^2 = f_n^2 / fdot_n * h_0^2, using tabulated g values when supplied (negative interpolation values count as zero). A harmonic below 1 raises ValueError, scalars and single harmonics are accepted, and supplying a sky position with polarisation and inclination multiplies the amplitude by the square root of the detector modulation of that source; the collection-level strain functions return the same values for the requested subset.",
 ["inputs", "configurations"], "all masses, frequencies, eccentricities, distances, harmonics, shapes, unit systems",
 "Tests compare h_c and h_0 on one batch; entrywise independence under broadcasting is universally quantified.",
 ["strain.py", "source.py"], [("h_0_n, h_c_n, amplitude_modulation", "strain.py"), ("Source.get_h_0_n/get_h_c_n", "source.py")], ["return values and shapes"])

prop("C18", "Merger times obey Peters (1964) in every eccentricity regime",
 "For every source the merger time is the Peters (1964) lifetime: exactly a^4/(4 beta) when circular, the small- and large-eccentricity limits beyond the tolerances, and otherwise the full integral (or, when not exact, the fit within 1% of it); it lies between zero and the circular lifetime, decreases with eccentricity within each regime, and is in Gyr. A source has the same merger time alone as inside any array, with beta or masses and with separation or frequency given, in any unit, and missing inputs raise ValueError.",
 ["inputs", "configurations"], "all eccentricities in [0,1) including regime boundaries, all mass/orbit inputs, arrays mixing regimes, custom tolerances (the upper one no larger than its default)",
 "Tests compare scalar and array code on a few values and the fit on a grid, not regime boundaries, mixed arrays or all input forms.",
 ["evol.py"], [("get_t_merge_circ, get_t_merge_ecc, t_merge_mandel_fit, check_mass_freq_input", "evol.py")], ["return values"])

prop("C19", "Circular evolution follows the closed-form inspiral at every step",
 "Evolving circular binaries gives, at every requested time, a(t) = (a0^4 - 4 beta t)^(1/4) and the Kepler frequency of it; once the merger time has passed the separation is zero and the orbital frequency is the 100 Hz sentinel. Outputs come in the requested order and units, one row per source starting at time zero, for evenly spaced steps up to the given (or merger) time or for caller-supplied steps (shared or per source), flat for a single source; the caller's arrays are not modified and inputs that do not determine the orbit raise ValueError.",
 ["inputs", "configurations"], "all binaries, times (before, at and after merger), step specifications, output variable orders, scalar/array inputs",
 "Tests check that outputs agree with each other and shapes for a few random binaries.",
 ["evol.py"], [("evol_circ, create_timesteps_array, check_mass_freq_input", "evol.py")], ["return values"])

prop("C20", "Eccentric evolution satisfies Peters' equations at every step",
 "Evolving eccentric binaries gives eccentricities that never increase, start at the given value and satisfy Peters' (1964) de/dt at every requested time (the time needed from one eccentricity to another equals the Peters integral), with separations following a = c0 e^(12/19)/(1-e^2) (1+121/304 e^2)^(870/2299) and frequencies following Kepler. With merger avoidance, steps closer to the merger than the guard time repeat the last safe step; outputs come in the requested order, units and shape, do not depend on the number of processes or on the other sources, and the caller's arrays are not modified.",
 ["inputs", "configurations", "schedules"], "all eccentricities in (0,1), times up to and past merger, step specifications, output orders, process counts",
 "Tests check output selection and circular limits for small random samples.",
 ["evol.py"], [("de_dt, integrate_de_dt, evol_ecc", "evol.py")], ["return values"])

prop("C21", "Stationary/evolving and circular/eccentric classification is exact",
 "A source is stationary over a time exactly when the fractional change of its orbital frequency, evolved with the closed-form chirp at its initial eccentricity enhancement, does not exceed the tolerance, sources that would merge within the time count as evolving, and evolving the frequency alone returns that closed form or the given merger frequency. The masks of a collection are the elementwise conjunction of the circular/eccentric test (eccentricity at most / above its threshold) and the stationary/evolving test with the stored or given observation time and tolerance; the four exclusive classes partition the sources, and invalid selectors raise ValueError.",
 ["inputs", "configurations"], "all binaries below 1e7 Hz, times, tolerances (the product of tolerance and frequency below the 1e9 Hz that marks a merger) and selector combinations",
 "One comparison in tests; the partition and threshold semantics hold for all inputs.",
 ["evol.py", "source.py"], [("determine_stationarity, evolve_f_orb_circ", "evol.py"), ("Source.get_source_mask", "source.py")], ["return values"])

prop("C22", "Stationary SNR is the per-harmonic sum over the noise curve",
 "For every stationary source the squared SNR is the sum over harmonics 1..N of strain^2 times observation time over the noise power at that harmonic's frequency (harmonic 2 alone for circular sources, with the sky modulation if a position is given); hence it scales as 1/distance and as the square root of the observation time for fixed noise. The per-harmonic breakdown, the total and the reported dominant harmonic (the largest term) agree, for exact or interpolated noise and g, any settings, units, and array sizes.",
 ["inputs", "configurations"], "all sources, harmonics counts, noise settings, units",
 "Tests compare circular and eccentric code at e near 0 for one default noise curve.",
 ["snr.py"], [("snr_circ_stationary, snr_ecc_stationary", "snr.py")], ["return values"])

prop("C23", "Evolving SNR integrates the inspiral over the observed time",
 "For every evolving source the squared SNR is the trapezoidal integral, over the harmonic frequency track sampled at the requested number of time steps from now until the observation ends (or just before merger, whichever is first), of characteristic strain squared over (frequency squared times noise power), summed over harmonics 1..N (harmonic 2 only for circular sources). Total, per-harmonic breakdown and dominant harmonic agree; supplied merger times, interpolated noise, process counts and batch composition do not change the value, and it scales as 1/distance.",
 ["inputs", "configurations", "schedules"], "all sources, observation times shorter or longer than the merger time, step counts, noise settings, units",
 "Tests compare evolving and stationary limits at low precision for random samples.",
 ["snr.py", "evol.py"], [("snr_circ_evolving, snr_ecc_evolving", "snr.py")], ["return values"])

prop("C24", "Detector response factors match Cornish & Larson and average to 3/20",
 "For every sky position and polarisation the plus and cross response factors equal Cornish & Larson (2003) Eq. 44 and the polarisation rotation built from them, are non-negative, their sum is independent of polarisation, they exchange under a polarisation rotation of 45 degrees, and each averages to 3/20 over the sky and polarisation. The amplitude modulation of a source is 5/4 [((1+cos^2 i)/2)^2 F+^2 + cos^2 i Fx^2] evaluated at its own ecliptic co-latitude and longitude, for any coordinate frame the position is supplied in and any angle unit.",
 ["inputs"], "all angles, arrays and frames",
 "One Monte-Carlo average is tested; pointwise identities are not.",
 ["utils.py", "strain.py", "source.py"], [("D_plus_squared, D_cross_squared, D_plus_D_cross, F_plus_squared, F_cross_squared", "utils.py"), ("amplitude_modulation", "strain.py")], ["return values"])

prop("C25", "Sources on the sensitivity plot: right points, height, selection, warnings",
 "Plotting sources over the sensitivity curve draws exactly the stationary, unmerged sources whose SNR exceeds the cutoff, each at its dominant harmonic frequency with height SNR times the root noise power there (times root frequency for characteristic strain) using the collection's own settings, sized by its own weight, over the curve of the same settings. Evolving detectable sources are not drawn but announced with correct counts for the circular and the eccentric ones, a collection without SNR yields an error message instead of a plot, the plotting function given no source above the cutoff an error message and no points, supplied axes and their vertical limits are kept, the curve itself covers the requested frequencies (in Hz) with the requested quantity, filled on request, and no global plotting configuration is changed, even when plotting fails.",
 ["inputs", "configurations", "histories"], "all collections, cutoffs, settings, weights, y quantities",
 "Plotting code is excluded from coverage and untested.",
 ["visualisation.py", "source.py"], [("plot_sources_on_sc, plot_sensitivity_curve", "visualisation.py"), ("Source.plot_sources_on_sc", "source.py")], ["matplotlib artists", "log messages", "rcParams"])

prop("C26", "Construction validates and normalises its inputs",
 "Constructing a collection raises ValueError when neither frequency nor separation is given, when inclination or polarisation comes without a position, when array lengths differ (a single position or separation stands for all sources), or when a position is combined with any non-zero eccentricity, and AssertionError when a mass, distance, frequency or separation lacks units. Otherwise scalars become one-element arrays with their values and units preserved, positions in any frame are stored in the barycentric true ecliptic frame aligned with the sources, and a missing inclination or polarisation is filled, one per source, with finite random values in [0, pi/2] and [0, pi]; no source starts as merged or with an SNR or merger time.",
 ["inputs", "configurations"], "every combination of present/absent, scalar/list/array, unit and frame of the constructor arguments",
 "Tests try a few bad calls; combinations of optional arguments are not covered.",
 ["source.py", "utils.py"], [("Source.__init__", "source.py"), ("ensure_array", "utils.py")], ["constructor result"])

prop("C27", "Distribution plots show the selected data, scaled, labelled and local",
 "Plotting one or two source variables draws exactly the selected unmerged sources' values of the requested variables (in the requested scale, with their weights) on the supplied or a new figure, labels the axes with the quantity and its unit unless given, applies the requested limits, and shows the figure only when asked. Invalid variable names or variables not yet calculated raise ValueError, and no global plotting configuration is changed, even when plotting fails.",
 ["inputs", "configurations"], "all variables, selections, weights, log scalings, plot types, label and limit arguments",
 "Plotting code is excluded from coverage and untested.",
 ["visualisation.py", "source.py"], [("plot_1D_dist, plot_2D_dist, legwork_plot_style", "visualisation.py"), ("Source.plot_source_variables", "source.py")], ["matplotlib artists, labels, rcParams"])

prop("C28", "The g(n,e) choice and the interpolated table do not change the physics",
 "Whether g(n,e) is interpolated or computed directly, the g-function a collection uses is its own setting for its whole life (kept by masking, copying, evolving, saving and loading, and reported correctly), strains and SNRs agree with the direct computation within the interpolation accuracy, negative interpolated values never produce NaN, and switching between the two is complete and reversible.",
 ["histories", "configurations", "inputs"], "every history with either setting, eccentricities and harmonics over the table",
 "Needs the large table missing from the repository, so none of the tests on it run.",
 ["source.py", "strain.py", "snr.py"], [("Source.set_g, interpolate_g", "source.py"), ("interpolated_g paths", "strain.py")], ["Source.g", "strain and SNR values"])

prop("C29", "Messages: one styled line each on stdout, filterable, never duplicated",
 "Every message sent through the logger named LEGWORK, as the package's plotting, evolution and construction messages are, appears exactly once on standard output as 'LEGWORK <level>: <message>', is suppressed exactly when the logger level says so, is coloured by level only when the stream is a terminal, and never reaches the root logger; importing or reloading the package again, in any order with user logging configuration, adds no second handler and keeps a handler the user installed first.",
 ["histories", "configurations"], "every sequence of imports/reloads, level changes, root configuration and messages of any level, terminal or not",
 "Two fixed examples are tested.",
 ["_logging.py"], [("LegworkFormatter, module initialisation", "_logging.py")], ["stdout", "logging handlers"])

prop("C30", "The verification binaries are the published catalogue",
 "Every construction of the verification binaries gives the sixteen systems of the catalogue (Kupfer et al. 2018, tables 1 and 2) in catalogue order, whatever was done to earlier instances: masses, distance, inclination and galactic direction as tabulated (kept as ecliptic position), an orbital frequency of half the tabulated gravitational-wave frequency, zero eccentricity, labels and published SNRs, dominant harmonic 2, random polarisations, nothing merged or computed, default settings; and every calculation on them (SNR with any settings and selection, strain, merger time, masks, evolution, saving and loading, plotting) gives, source by source, what an ordinary collection of the same values gives.",
 ["histories", "inputs"], "every sequence of constructions and changes of earlier instances, every calculation and setting",
 "The tests only check that the class can be constructed.",
 ["source.py", "verification_binaries.npy"], [("VerificationBinaries", "source.py")], ["attributes of VerificationBinaries", "results of its methods"])

prop("C31", "What collections and calculations announce about themselves is true",
 "A verbose SNR calculation (of a collection, its stationary or evolving part, or the stationary and evolving classes) prints the number of requested sources, of already merged ones, and of the stationary and evolving ones with their circular and eccentric parts, exactly as the classification for the requested, unmerged sources and the settings in use gives them, while values and recorded results are the same as without verbose, which prints nothing. The printed form of a collection names its class and its current number of sources. Construction announces random inclinations or polarisations exactly when it fills them in, and warns about interpolating g exactly when that is asked for at most 1000 sources; eccentric evolution with merger avoidance warns exactly when a requested step lies past the merger of its source, and when all steps after the first lie within the guard time.",
 ["histories", "inputs", "configurations"], "every collection, selection, settings and history; every step pattern around the merger",
 "No test reads any of these messages.",
 ["source.py", "evol.py"], [("Source.get_snr, get_snr_stationary, get_snr_evolving (verbose), __repr__, __init__", "source.py"), ("evol_ecc", "evol.py")], ["stdout", "logger LEGWORK", "repr"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P))
