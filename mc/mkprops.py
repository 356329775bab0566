"""Writes /verif/properties.jsonl (kept as code so that the file stays well-formed)."""
import json, os

P = []


def _where(name, files):
    for f in files:
        try:
            for line in open(os.path.join("/repo", f)):
                if line.startswith(("def %s(" % name, "%s =" % name)):
                    return f
        except OSError:
            pass
    return files[0]



def p(id, title, statement, over, text, why, files, symbols):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=x, where=_where(x, files)) for x in symbols],
                               observe_at=list(symbols), hook_needed=None)))


p("C01", "SSP age weights are the exact mass fractions of the tabulated SFH",
  "For every star-formation history tabulated on an increasing time grid, every increasing grid of SSP ages "
  "with well-ordered bins, every sfr_min and every t_obs by which some mass has formed within the grid's range of ages, the stellar-age weights are finite, non-negative, sum to one, and "
  "each one equals the fraction of that mass formed during its age bin's birth-time interval (bin boundaries halfway between "
  "neighbouring log-ages, birth times before 1 Myr clipped, mass from the trapezoidal cumulative mass "
  "interpolated in log-log and held flat outside the table). "
  "They depend on the SFR table only through max(SFR, sfr_min) and not on its overall normalisation above the floor.",
  ["inputs"], "all SFH tables, time grids, SSP age grids, observation times and SFR floors, in every combination",
  "The tests evaluate a handful of smooth or random SFHs at a few t_obs and check the sum; quiescent gaps, bursts, t_obs at, "
  "between and beyond table nodes, irregular grids and non-default floors are combinations no test enumerates.",
  ["dsps/sed/stellar_age_weights.py"], ["calc_age_weights_from_sfh_table"])

p("C02", "Cumulative stellar mass is the running trapezoid of the SFH",
  "For every increasing time table and non-negative SFR table, the cumulative stellar mass is finite, non-decreasing and grows from one node to the "
  "next by exactly the trapezoidal area times 1e9 yr/Gyr, starting from SFR 1e-14 at 1 Myr; the general cumulative and total "
  "trapezoid integrals obey the same step rule for any integrand and agree at the last node. "
  "The mass at a node depends only on the nodes up to it (appending or changing later nodes never changes earlier masses), and the integrals are linear in the integrand and additive over sub-intervals.",
  ["inputs", "histories"], "all SFH node sequences (every history built by appending nodes) and all table lengths",
  "Tests integrate a few random tables and compare to numpy/scipy once; prefix stability and the step rule range over every history.",
  ["dsps/utils.py"], ["cumulative_mstar_formed", "cumtrapz", "trapz"])

p("C03", "Metallicity weights are exact triweight probabilities per SSP bin",
  "For every galaxy metallicity, positive scatter and increasing SSP metallicity grid with well-ordered bins, the lognormal-MDF weights are "
  "finite, non-negative, sum to one and equal the triweight-kernel probability of each SSP bin (outermost bins reaching 10^-10 and 10^10), falling back to all weight in the "
  "nearest outermost bin when the whole kernel lies outside. "
  "With a tabulated metallicity history, the (n_met, n_age) weights have every age column equal to 1/n_age times those weights "
  "evaluated at the metallicity interpolated (linearly in log-time, flat outside the table) at that age's birth time.",
  ["inputs"], "all metallicities, scatters, SSP grids, metallicity histories and observation times",
  "Tests check the sum at a few central values; kernel edges exactly on bin edges, empty kernels, out-of-range metallicities and histories with steps are not enumerated.",
  ["dsps/sed/metallicity_weights.py"], ["calc_lgmet_weights_from_lognormal_mdf", "calc_lgmet_weights_from_lgmet_table"])

p("C04", "Joint SSP weights combine age and metallicity distributions consistently",
  "For every galaxy and SSP grid, the joint SSP weights returned by both metallicity variants are non-negative, have shape (n_met, n_age), sum to one, are "
  "the normalised product of the returned age and metallicity weights, and marginalising them over metallicity recovers the age weights; the "
  "returned age and metallicity weights are the same as those of the stand-alone age-weight and metallicity-weight functions for the same inputs. "
  "A constant metallicity table gives the same joint weights as the lognormal MDF at that metallicity.",
  ["inputs"], "all combinations of SFH, metallicity (history), scatter, SSP grids of every size, t_obs",
  "Tests compare marginals for one or two galaxies on one SSP grid; consistency is a relation over every grid size and input.",
  ["dsps/sed/ssp_weights.py"], ["calc_ssp_weights_sfh_table_lognormal_mdf", "calc_ssp_weights_sfh_table_met_table"])

p("C05", "Rest-frame SED is stellar mass times weighted SSP flux",
  "For every galaxy and SSP library, the rest-frame SED of both metallicity variants is finite and equals the stellar mass formed by t_obs (log-log interpolated trapezoidal mass "
  "with SFR floored at sfr_min) times the sum over SSPs of joint weight times SSP flux, and the weights returned with it are the joint, metallicity and age weights computed with the same sfr_min. "
  "The SED is linear in the SSP flux (wavelength by wavelength) and scales with the SFR normalisation when above the floor. "
  "SFR or metallicity tabulated after the first table node at or beyond t_obs cannot influence it.",
  ["inputs"], "all SFHs, metallicities, SSP fluxes, t_obs and sfr_min",
  "Tests check shapes and one cross-check between variants; linearity, causality and floor consistency quantify over all inputs.",
  ["dsps/sed/stellar_sed.py"], ["calc_rest_sed_sfh_table_lognormal_mdf", "calc_rest_sed_sfh_table_met_table"])

p("C06", "AB magnitudes follow the photon-weighted band integral exactly",
  "For every SED, filter curve and redshift, the rest-frame magnitude is -2.5 log10 of the ratio of the photon-weighted trapezoid integrals on the filter grid of the SED (zero outside its wavelength range) and of the AB reference 1.13492e-13 Lsun/Hz, and the rest flux is that ratio. "
  "The observed magnitude is the same quantity for the spectrum stretched by (1+z), plus distance modulus minus 2.5 log10(1+z). "
  "Hence scaling the SED by c shifts magnitudes by exactly -2.5 log10 c, the throughput normalisation and flux outside the band do not matter, and fluxes add.",
  ["inputs"], "all SEDs, filters (any grid, overlap or partial overlap) and redshifts/cosmologies",
  "Tests check finiteness and one flat SED; the integral identity and scalings range over all SEDs, filters and redshifts.",
  ["dsps/photometry/photometry_kernels.py"], ["calc_obs_mag", "calc_rest_mag", "calc_rest_flux"])

p("C07", "Precomputed photometry tables agree entry by entry with single calls",
  "For every set of SSP spectra, filters and redshifts, each entry of the precomputed observed (z, met, age, filter), rest and k-corrected (met, age, filter) magnitude tables "
  "equals the single-SED, single-filter magnitude for that index, whatever the axis lengths including one, and permuting or slicing an input axis permutes or slices the output; the k-corrected table is the observed one without distance modulus and dimming, and at z_kcorrect=0 it equals the rest table. "
  "Interpolating filter curves to a common length keeps each filter's own wavelength range, order and end-point transmissions, with values linearly interpolated on n equally spaced points (default n: the shortest curve).",
  ["inputs", "configurations"], "all axis lengths, orders and values of the four table axes; all ragged filter collections",
  "Tests compare against looped calls for one shape; transposed or misaligned axes with equal sizes, single-element axes and ragged filters are not enumerated.",
  ["dsps/photometry/photpop.py", "dsps/photometry/utils.py"],
  ["precompute_ssp_obsmags_on_z_table", "precompute_ssp_restmags", "precompute_ssp_restmags_z_kcorrect", "interpolate_filter_trans_curves"])

p("C08", "Cosmological distances satisfy the flat w0wa relations at every redshift",
  "For every flat w0-wa cosmology and redshift 0<=z<=20, comoving distance matches the FLRW distance integral at least as closely as its 256-point trapezoid sum in redshift does, is zero at z=0, strictly increasing in z and inversely proportional to h. "
  "Luminosity and angular-diameter distance are (1+z) times and 1/(1+z) times it, the distance modulus is 5 log10(d_L/10pc), and the differential comoving volume is D_H (1+z)^2 d_A^2 / E(z), the derivative of the comoving volume per steradian. "
  "The array versions equal the scalar versions element by element.",
  ["inputs"], "all redshifts in [0,20], all (Om0,w0,wa,h) on a wide grid, all array lengths",
  "Tests compare with astropy for a few cosmologies at a few redshifts; relations and monotonicity are over all z and all parameters.",
  ["dsps/cosmology/flat_wcdm.py"],
  ["comoving_distance_to_z", "luminosity_distance_to_z", "angular_diameter_distance_to_z", "distance_modulus_to_z", "differential_comoving_volume_at_z"])

p("C09", "Cosmic times, critical density and dynamical time are mutually consistent",
  "For every flat w0-wa cosmology and redshift 0<=z<=20, lookback time matches the FLRW integral at least as closely as its 512-point trapezoid sum in redshift does, is zero at z=0 and increasing, age at z=0 matches the age integral from 1+z=1000 at least as closely as the trapezoid sum over 512 nodes log-spaced in 1+z does, "
  "age(z) is age(0) minus lookback(z), positive and decreasing, and all times are inversely proportional to h; the default age of the Universe is that of the default cosmology. "
  "Critical density is 277.536627 h^2 E(z)^2 and the virial dynamical time is 2^1.5 t_H(z) Delta_vir(z)^-1/2 with Delta_vir the Bryan-Norman overdensity, for scalar and array redshifts alike.",
  ["inputs"], "all redshifts in [0,20], all (Om0,w0,wa,h) on a wide grid, scalar and array calls",
  "Tests compare with astropy for a few cosmologies and only call dynamical time on arrays; the relations range over all z, parameters and call forms.",
  ["dsps/cosmology/flat_wcdm.py", "dsps/cosmology/defaults.py"],
  ["lookback_to_z", "age_at_z0", "age_at_z", "rho_crit", "virial_dynamical_time", "TODAY"])

p("C10", "Dust attenuation never amplifies light and follows the published curves",
  "For every wavelength from 0.0912 to 3 micron and every Av>=0, attenuation A is non-negative, is zero at Av=0, scales linearly with Av, equals Av/4.05 times the published reddening curve clipped at zero (Calzetti00; Leitherer02; Noll09 = piecewise L02 up to and including 0.15 micron and C00 above it, plus Drude bump, times power law; Salim18 = the same with the power law applied before adding the bump; the triweight-sigmoid-slope curve is its documented formula; the bump amplitude for a slope delta is 0.85-1.9 delta), and the transmitted fraction is floor+(1-floor)*10^(-0.4A), always within [floor, 1] and decreasing in Av. "
  "The effective wavelength of a filter is its transmission-weighted mean wavelength divided by (1+z), independent of throughput normalisation and inside the filter's rest-frame range.",
  ["inputs"], "all wavelengths incl. piecewise boundaries, Av, bump amplitudes/positions/widths, slopes, floors; all filters and redshifts",
  "Tests check a few parameter values for finiteness and sign; piecewise boundaries, clipping and the interplay of bump and slope are not enumerated.",
  ["dsps/dust/att_curves.py", "dsps/dust/utils.py"],
  ["calzetti00_att_curve", "leitherer02_att_curve", "noll09_k_att_curve", "sbl18_k_att_curve", "triweight_k_lambda", "get_filter_effective_wavelength"])

p("C11", "Blackbody spectra obey Planck's law over the whole float range",
  "For every frequency/wavelength and temperature for which Planck's law is representable in double precision, the blackbody densities match Planck's law in Lsun/Hz/sr/m2 and Lsun/A/sr/m2 (the two being related by |dnu/dlambda|), "
  "are finite and non-negative everywhere (zero where they underflow), never decrease with temperature, and accept integer or float inputs alike. "
  "Their derivatives with respect to temperature and frequency/wavelength are finite wherever the density itself is.",
  ["inputs"], "all frequencies, wavelengths and temperatures over many decades, scalar/array, integer/float inputs",
  "Tests compare to astropy at a few temperatures in the optical; the Wien and Rayleigh-Jeans extremes, overflow and gradients are not reached.",
  ["dsps/dust/blackbody.py"], ["blackbody_freq_density", "blackbody_wave_density"])

p("C12", "Equivalent width measures exactly the line flux above the continuum",
  "For every spectrum, the continuum is the least-squares quadratic through exactly the pixels inside the two closed continuum windows, the line flux is the trapezoid integral over the closed line window of flux minus continuum (pixels outside contributing zero), and the equivalent width is that divided by the continuum at the line centre. "
  "So a spectrum that is itself a quadratic has zero line flux and its continuum is recovered exactly; line flux is linear in the spectrum and equivalent width is invariant under rescaling it; pixels outside all windows have no effect. "
  "The decomposition variant returns the same two numbers plus that continuum.",
  ["inputs"], "all wavelength grids, window placements (including edges exactly on pixels), continua and line shapes",
  "Tests use one Gaussian line over one continuum; window edges on pixels, asymmetric windows and general continua are not enumerated.",
  ["dsps/em_lines/equivalent_width.py"], ["_ew_kernel", "_continuum_line_decomp_kern"])

p("C13", "Surviving and remnant mass fractions are physical for every IMF",
  "For every stellar age from 10^5 to 10^10.2 yr and each calibrated IMF, the surviving stellar fraction is in (0.5, 1] and non-increasing in age beyond 10^6 yr, the remnant fraction is in [0, surviving] and non-decreasing, and surviving plus returned fraction is exactly one; the default is Chabrier. "
  "At fixed age beyond 10^7 yr, surviving fractions are ordered Salpeter >= Kroupa >= Chabrier >= Van Dokkum, and the remnant fraction of Salpeter is the smallest. "
  "The values are those of the published sigmoid-slope fits for the calibrated parameters.",
  ["inputs"], "all ages in range, all IMF parameter sets, scalar and array calls",
  "Tests evaluate a coarse age grid for bounds; ordering and monotonicity across IMFs and at all ages are not enumerated.",
  ["dsps/imf/surviving_mstar.py", "dsps/imf/remnant_mass.py"], ["surviving_mstar", "remnant_mass"])

p("C14", "Mass-metallicity relation is bounded, monotone and invertible in its params",
  "For every in-bounds parameter set with the high-mass slope below the low-mass slope, mapping to unbounded parameters and back is the identity; for every unbounded parameter set the mapped parameters lie inside their documented bounds with the high-mass slope between its lower bound and the low-mass slope, "
  "and each parameter depends only on its own unbounded partner (the high-mass slope also on the low-mass slope). "
  "For every stellar mass 10^6-10^12.5 and cosmic time, metallicity is finite and equals the t0 relation (the sigmoid-slope formula with solar log Z = log10(0.012)) plus an evolution term that is never positive and does not change after 12.5 Gyr. "
  "For the default parameters the evolution term is zero from 12.5 Gyr on, metallicity is non-decreasing in mass at every time, and in time for masses up to 10^9; the bounded and unbounded modules give the same metallicity whenever the former's x0 and tlook_c are at their defaults of 10.5 and 8.44.",
  ["inputs"], "all bounded/unbounded parameter vectors (grid per parameter incl. extremes), masses, times",
  "Tests round-trip a few random draws; bounds and monotonicity quantify over the whole parameter box and all masses and times.",
  ["dsps/metallicity/mzr.py", "dsps/metallicity/umzr.py"],
  ["mzr_model", "mzr_model_t0", "mzr_evolution_model", "get_bounded_mzr_params", "get_unbounded_mzr_params"])

p("C15", "Burst parameters stay bounded and burst weights conserve total mass",
  "For every unbounded burst parameter vector the burst parameters lie in their bounds (burst fraction in [1e-8, 0.1], peak age in [10^5, 10^8] yr, maximum age between 10x the peak and 10^9 yr), and converting back and forth is the identity in the interior. "
  "For every burst with at least one SSP age inside its support and every smooth age distribution, the combined age weights are fb times a normalised triweight in log-age, supported on [2*peak - max, max], plus (1-fb) times the smooth weights; they are non-negative and sum to one when the smooth weights do. "
  "Bounded and unbounded entry points agree.",
  ["inputs"], "all unbounded vectors incl. extremes, all age grids overlapping the burst, all smooth weights",
  "Tests sample random parameters on the default grid; extreme unbounded values, support boundaries and small grids are not enumerated.",
  ["dsps/sfh/diffburst.py"], ["calc_bursty_age_weights", "calc_bursty_age_weights_from_u_params"])

p("C16", "SSP loader returns exactly what is on disk now, from the requested place",
  "For every history of files being written, replaced or removed and of DSPS_DRN being set, changed or unset, loading SSP templates returns exactly the arrays currently stored in the file selected by the precedence fn, then drn/bn, then DSPS_DRN/bn, never data from an earlier load; loading never modifies the file, and a call with no source raises ValueError, a missing file AssertionError. "
  "Emission lines are returned (as a namedtuple of named float wavelengths in file order and luminosities multiplied by 3.828e33) exactly when the file stores line names, and are None otherwise; a file missing a required dataset, or cut short at any byte, raises instead of returning partial data. "
  "dummy=True returns self-consistent fake templates regardless of files and environment.",
  ["histories", "configurations"], "all op sequences (write variant, delete, set/unset env, load by each route) to a depth; all subsets of datasets in the file",
  "Tests load one file one way; staleness, precedence and partial files depend on histories and configurations.",
  ["dsps/data_loaders/load_ssp_data.py", "dsps/data_loaders/defaults.py"], ["load_ssp_templates"])

p("C17", "Transmission loader picks the unique file and rejects unphysical curves",
  "For every history of filter files and DSPS_DRN settings, loading a transmission curve uses fn if given, else the unique file matching bn_pat in drn, else in DSPS_DRN/filters, and raises (AssertionError for zero or several matches or missing file/directory, ValueError when no location is given) instead of guessing; it returns the current file contents and never alters them; a file cut short at any byte or lacking a dataset raises. "
  "Every curve with any value below -0.01 or above 1.01 raises ValueError; every other curve is returned with the wavelengths untouched and transmission clipped to [0, 1], in-range values unchanged. "
  "Random curves are reproducible for a given key, lie in [0, 1] with peak 1, and are centred where requested.",
  ["histories", "configurations", "inputs"], "all op sequences over files/env to a depth, all patterns, all placements of out-of-range values",
  "Tests load good curves and one negative one; ambiguity, staleness and out-of-range values at every position are not enumerated.",
  ["dsps/data_loaders/load_filter_data.py"], ["load_transmission_curve", "load_random_transmission_curve"])

p("C18", "FSPS retrieval writes a faithful SSP file or leaves the old one intact",
  "For every FSPS library size, nebular setting and emission-line support, retrieval calls the stellar-population model once per metallicity with the user's keyword arguments and returns log10 metallicities, log10 ages in Gyr, wavelengths, fluxes and (when the model provides them) named line wavelengths and luminosities, each stored at its own metallicity and age index. "
  "Writing them to disk with the command-line script and loading the file gives back the same data (line luminosities in erg/s), with or without lines and for every combination of gas options. "
  "If the model fails at any call, the script exits with an error and an existing output file is left unchanged.",
  ["fault_sequences", "configurations"], "all model sizes x line support x options; a failure injected at every model call",
  "python-fsps is not installed where tests run, so retrieval and script are not executed by the tests at all.",
  ["dsps/data_loaders/retrieve_fsps_data.py", "scripts/write_fsps_data_to_disk.py"], ["retrieve_ssp_data_from_fsps", "get_fsps_emline_info"])

p("C19", "Emission-line names, wavelengths and luminosities never get misaligned",
  "For every selection and ordering of distinct emission lines, the subset data contain exactly those lines in the requested order, each with its own wavelength and its own luminosity column for every metallicity and age, all other SSP fields unchanged and the input untouched; unknown names raise ValueError. "
  "The packaged line list parses to valid, unique field names identically in both readers, and naming lines by wavelength gives each wavelength its own name in any order. "
  "Fake SSP data are self-consistent (shapes, line count, finite values) for every requested number of lines.",
  ["inputs", "configurations"], "all ordered selections of lines up to a size; all lines; all wavelength orderings up to a size; all n_line in a range",
  "Tests check one subset and one file; misalignment depends on order, repetition and position of lines.",
  ["dsps/data_loaders/load_emline_info.py", "dsps/data_loaders/retrieve_fsps_data.py", "dsps/data_loaders/retrieve_fake_fsps_data.py"],
  ["get_subset_emline_data", "read_emlines_info_fsps", "load_fake_ssp_data"])

p("C20", "Results never depend on which calls were made before",
  "For every sequence of public calls in one process, with different arguments, shapes and dtypes in any order, each deterministic function returns the same result as in a fresh process, so nothing is cached stale, accumulated or overwritten between calls. "
  "No call modifies its input arrays, previously returned arrays, or the package's public default parameters and constants, and results do not alias the inputs of later calls.",
  ["histories"], "all call sequences over the public API up to a depth",
  "Each test makes few calls in one fixed order and never compares with another order.",
  ["dsps/__init__.py", "dsps/utils.py", "dsps/sed/stellar_sed.py", "dsps/photometry/photpop.py", "dsps/data_loaders/load_ssp_data.py"],
  ["calc_rest_sed_sfh_table_met_table", "precompute_ssp_restmags", "load_ssp_templates"])

p("C21", "JAX transformations leave every kernel's meaning unchanged",
  "For every numerical function of the package and every composition of jit, vmap over any argument, and calling under a JAX trace, the result equals the plain call, element by element. "
  "Forward-mode and reverse-mode derivatives exist, are finite, agree with each other and with finite differences of the plain call at every differentiable point of the documented domain, including quiescent star-formation histories, and vmapped gradients equal looped gradients.",
  ["programs", "inputs"], "all transformation words up to a depth applied to every numerical function, at several argument points",
  "Tests call functions directly and check few gradients; transformation compositions and gradients at edge values are not enumerated.",
  ["dsps/sed/stellar_sed.py", "dsps/photometry/photometry_kernels.py", "dsps/cosmology/flat_wcdm.py", "dsps/dust/att_curves.py", "dsps/sfh/diffburst.py"],
  ["calc_rest_sed_sfh_table_met_table", "calc_obs_mag", "age_at_z"])

p("C22", "Results do not depend on the container, dtype or layout of equal inputs",
  "For every numerical function, passing the same values as a float64 numpy array, JAX array, read-only, non-contiguous or reversed-stride view, float32, or integer (when the values are exactly representable there), and scalars as Python numbers, numpy scalars or 0-d arrays, gives the same result up to rounding of single precision where single-precision inputs are used, and never an error. "
  "In particular integer-valued SSP, time and wavelength grids give the same result as their floating-point equivalents.",
  ["inputs", "configurations"], "all representation variants per argument, singly and in pairs, for every numerical function",
  "Tests always pass float64 numpy arrays.",
  ["dsps/utils.py", "dsps/sed/stellar_age_weights.py", "dsps/dust/blackbody.py", "dsps/photometry/photometry_kernels.py"],
  ["calc_age_weights_from_sfh_table", "blackbody_freq_density", "powerlaw_pdf", "calc_rest_mag"])

p("C23", "Numerical primitives satisfy their defining identities everywhere",
  "For every argument, the triweight cumulative kernel is a non-decreasing function from 0 to 1 that is exact outside three widths, its derivative is the triweight density (which integrates to one), and triweight histograms of every set of bin edges are non-negative and telescope; sigmoid and inverse sigmoid are inverse to each other within the bounds, and the sigmoid-slope functions follow their formula. "
  "Bin edges are each point minus half its midpoint-to-midpoint width (so for neighbouring spacings within a factor of three every point lies in its own bin), and weight-product matrices equal the elementwise outer products index by index. "
  "The power-law density integrates to one on [a, b] for every exponent of either sign and power-law draws lie in [a, b], are reproducible, and are the exact inverse-CDF of their uniform variates.",
  ["inputs"], "all arguments on dense grids incl. support boundaries, all shapes up to a bound, integer and float parameters",
  "Tests check a few values of each helper.",
  ["dsps/utils.py"],
  ["triweighted_histogram", "triweight_gaussian", "powerlaw_pdf", "powerlaw_rvs"])

p("C24", "Import order, precision settings and optional packages never change results",
  "For every order of importing the package's modules, for x64 mode preset on, off or unset through JAX's environment or configuration before import, and whether python-fsps and matplotlib are absent, broken or present, the package imports, and after importing it every function and every public constant (such as TODAY) gives the same double-precision values. "
  "Only retrieving data from FSPS requires python-fsps, and then fails with AssertionError when it is unavailable; matplotlib is needed only for the plotting diagnostics.",
  ["configurations", "histories"], "all ordered pairs/triples of module imports x x64 setting x optional-package states",
  "The tests run in one process with one import order and one environment.",
  ["dsps/__init__.py", "dsps/sed/__init__.py", "dsps/data_loaders/retrieve_fsps_data.py", "dsps/dust/blackbody.py"],
  ["TODAY", "retrieve_ssp_data_from_fsps"])

p("C25", "Every route from star-formation history to magnitude gives the same photometry",
  "For every galaxy (tabulated SFH, metallicity history or lognormal metallicity), SSP library, filter set, redshift, cosmology and dust attenuation, with t_obs the age of the Universe at the redshift, the magnitudes of the composite SED equal those from weighting the precomputed SSP magnitude tables (rest, observed on the redshift table, k-corrected plus distance modulus and dimming) in flux with the joint SSP weights times the stellar mass formed. "
  "Attenuating the SSPs or the composite SED gives the same SED; dust never brightens a band and dims it by at most the largest A in use; the composite is never brighter than its brightest nor fainter than its faintest SSP of the same mass. Adding a burst mixes the smooth and burst populations' light linearly, and templates and filters passed through files and the loaders give the same magnitudes as arrays.",
  ["inputs", "configurations"], "all SFH shapes x metallicities x redshifts x cosmologies x filters x dust laws x floors, by each route",
  "No test composes the SED, dust, cosmology and photometry functions; conventions that disagree between two modules (units, axes, floors, redshift factors) are invisible to per-function tests.",
  ["dsps/sed/stellar_sed.py", "dsps/photometry/photpop.py", "dsps/photometry/photometry_kernels.py", "dsps/cosmology/flat_wcdm.py", "dsps/sfh/diffburst.py"],
  ["calc_rest_sed_sfh_table_lognormal_mdf", "precompute_ssp_obsmags_on_z_table", "calc_obs_mag", "age_at_z", "calc_bursty_age_weights"])

p("C26", "The mass-metallicity diagnostic figure shows the models and data it names",
  "For every two parameter sets, the comparison figure draws the first model with solid and the second (by default the default parameters) with dashed lines at five evenly spaced cosmic times from 2 to 14 Gyr, each curve being mzr_model over the whole axis and each time having one colour, from red (early, labelled z=3) to blue (late, labelled z=0). The Maiolino, Kirby and Gallazzi points are shown on the solar scale of the model, and the legend names every line style and symbol by what is drawn with it (label1 the first model, label2 the second). "
  "The figure is returned, written to fname exactly when one is given, and neither the parameters, the defaults nor matplotlib's settings are changed.",
  ["inputs", "configurations"], "all pairs of parameter sets varying each parameter x labels x output file",
  "The test only checks that the function runs.",
  ["dsps/metallicity/diagnostics/plot_mzr.py"], ["make_mzr_comparison_plot"])

p("C27", "The documented call interface: argument names, order, defaults, exports and records",
  "Every public function gives the same result whether its arguments are passed by position in the documented order or by their documented names, for every split between the two and every order of the keywords (the cosmology functions mapped over a redshift array take positions only). Leaving out any subset of the optional arguments equals passing their documented defaults, and an optional argument that is given is the one that is used. "
  "Every documented name can be imported from every place the documentation imports it from and is the same function, record or constant as where it is defined; DEFAULT_COSMOLOGY is PLANCK15 and TODAY its age at redshift zero. Every record (SSPData, TransmissionCurve, CosmoParams, BurstParams, MZRParams, the SED and weights results) has its documented fields in the documented order, by name and by position, through construction by position or keyword, _make, _replace, pickling and jax.jit, and the loaders return SSPData.",
  ["inputs", "configurations"], "all functions x positional prefixes x keyword orders, all subsets of optional arguments, all (package, name) exports, all records x constructions, all loader argument forms",
  "The tests call each function in one or two argument forms and never compare the forms.",
  ["dsps/__init__.py", "dsps/sed/__init__.py", "dsps/cosmology/flat_wcdm.py", "dsps/dust/att_curves.py", "dsps/imf/surviving_mstar.py", "dsps/data_loaders/defaults.py", "dsps/sfh/diffburst.py"],
  ["SSPData", "CosmoParams", "BurstParams", "sbl18_k_lambda", "surviving_mstar", "calc_rest_sed_sfh_table_met_table"])

p("C28", "Packaged constants, default parameter sets and bounds have their documented values, everywhere and always",
  "Every packaged constant (solar luminosity, SFR floor, time and metallicity limits, SI constants of the blackbody and cosmology modules, AB zero point, critical density), named cosmology, default SSP file name and key list, IMF parameter set (surviving and remnant masses), "
  "mass-metallicity default, bound and comparison table, dust constant and burst default or bound has its documented value in every module that exposes it. Default parameters lie inside their bounds, and the unbounded defaults are the images of the bounded ones. "
  "A model called with its packaged parameter set, whether omitted, passed by position, by keyword in any order or as a copy, gives the same result. Changing or deleting an entry of one packaged dictionary of parameters changes no other packaged set and no other model's default result, and no call of the public API changes any constant. "
  "The fake SSP templates lie on their documented grid (22 metallicities 0.0002-0.03, 94 log-ages -3.5+0.05k, 1963 wavelengths 100-20000 A, power-law templates) and the fake filters are the documented normals in log10 wavelength.",
  ["configurations", "inputs"], "every constant x exposing module, every default x bound, every model x way of passing its set, every dictionary entry x change, every catalogued call, every entry of the fake grids",
  "Tests compare two or three constants with astropy; the others, their copies and their independence are never compared.",
  ["dsps/constants.py", "dsps/cosmology/flat_wcdm.py", "dsps/imf/surviving_mstar.py", "dsps/imf/remnant_mass.py", "dsps/metallicity/mzr.py", "dsps/metallicity/umzr.py", "dsps/sfh/diffburst.py", "dsps/data_loaders/defaults.py", "dsps/data_loaders/retrieve_fake_fsps_data.py"],
  ["L_SUN_CGS", "PLANCK15", "DEFAULT_PARAMS", "DEFAULT_MET_PARAMS", "DEFAULT_MZR_PARAMS", "DEFAULT_BURST_PARAMS", "load_fake_ssp_data"])

p("C29", "Calls from several threads give the results they give alone",
  "Two calls of the public API made at the same time in two threads each return what they return when made alone, whatever the two calls and their arguments are and wherever the interpreter switches between them: loading templates and filter curves by any route, selecting emission lines, interpolating filter sets, drawing random curves and parameters from a key, retrieving from (thread-safe) python-fsps, and every numerical function, compiled, being compiled, or evaluated with compilation disabled. "
  "Neither call waits for ever, and afterwards the environment, the working directory and every later call are as if the two had been made one after the other.",
  ["schedules", "inputs"], "all pairs of calls x all schedules with a bounded number of switches, a switch being possible at every source line of the package",
  "Every test runs in one thread.",
  ["dsps/data_loaders/load_ssp_data.py", "dsps/data_loaders/load_filter_data.py", "dsps/data_loaders/load_emline_info.py", "dsps/data_loaders/retrieve_fsps_data.py", "dsps/photometry/utils.py", "dsps/metallicity/umzr.py"],
  ["load_ssp_templates", "load_transmission_curve", "get_subset_emline_data", "interpolate_filter_trans_curves", "get_ran_t0_params"])

p("C30", "An interrupted call leaves nothing behind",
  "A call that is broken off at any point by KeyboardInterrupt, MemoryError or another exception raised there (data loading, retrieval, numerical functions while evaluated or while being compiled) leaves no trace: every later call, of the same function or another, with the same or other arguments, returns what it returns in an undisturbed process, no HDF5 file stays open, and the environment, the working directory, numpy's error state and JAX's settings are as before the call. "
  "An interrupted import of the package or of any of its modules can be repeated until it succeeds, and the package then behaves as after a plain import, in double precision.",
  ["crash_points", "histories"], "all calls x every source line at which they can be broken off x exceptions, followed by all calls; all modules x every line of their import",
  "No test raises an exception inside a call and goes on.",
  ["dsps/data_loaders/load_ssp_data.py", "dsps/data_loaders/load_filter_data.py", "dsps/data_loaders/retrieve_fsps_data.py", "dsps/data_loaders/retrieve_fake_fsps_data.py", "dsps/photometry/utils.py", "dsps/__init__.py"],
  ["load_ssp_templates", "load_transmission_curve", "retrieve_ssp_data_from_fsps", "interpolate_filter_trans_curves"])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for q in P:
            f.write(json.dumps(q) + "\n")
    print(len(P))
