#!/usr/bin/env python3
"""Source of properties.jsonl (run: python3 tools/props.py > properties.jsonl)."""
import json
P = []


def prop(id, title, statement, over, text, why, files, mech, observe, state=(), hook=None):
    P.append(dict(
        id=id, title=title, statement=" ".join(statement.split()),
        quantifier=dict(over=over, text=" ".join(text.split())),
        why_tests_cant=" ".join(why.split()),
        anchors=dict(files=files,
                     state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mech],
                     observe_at=observe, hook_needed=hook)))


prop("C01", "Aperture photometry sums the usable light inside each ellipse",
     """For any image, centre (x, y), list of radii whose ellipses overlap the image, elongation, orientation and overlap method, the i-th flux is the sum over
     usable pixels (mask True, or no mask) of pixel value times the fraction of the pixel overlapped by the ellipse with semi-major axis r_i
     and semi-minor axis r_i/elongation rotated counter-clockwise by theta (a pixel whose edge the ellipse only touches, or whose corner it passes through exactly, may count with any fraction: a limit of photutils); the i-th area is the same sum for an image of ones and the
     i-th error is the square root of the overlap-weighted sum of squared errors (NaN when no error map is given).
     Every entry depends on its own radius only (not on the other radii, their order or on plotting), is exact to 6 decimal places, and unusable
     pixels (including NaN ones) contribute to none of the three.
     A NaN inside an aperture on a usable pixel is reported with an exception, never returned as a flux.""",
     ["inputs"], "all images (dtype, shape, NaNs, negative values), masks, error maps, centres incl. off-image, radii lists, elongations, angles, methods",
     "test_radial_photometry uses one image of ones, circular apertures, no mask and no error map at a 1% tolerance; masks, theta, errors, methods and edges are never asserted.",
     ["petrofit/photometry.py"],
     [("radial_photometry", "petrofit/photometry.py"), ("radial_elliptical_aperture", "petrofit/photometry.py")],
     ["radial_photometry() return value", "radial_elliptical_aperture()/radial_elliptical_annulus() geometry"])

prop("C02", "Segmentation masks select exactly the requested sources",
     """For any segmentation map and any label, catalogue source, or list of them, the mask is True exactly on pixels belonging to a requested
     source, plus the background pixels unless background masking is requested.
     The masked image equals the input image on those pixels and the fill value (NaN by default) on all others.
     Neither the caller's list of sources, the image nor the segmentation map is changed, so any sequence of such calls sharing
     arguments gives each call the answer it would give alone.""",
     ["inputs", "histories"], "all segmentation maps, label lists (empty background, repeated, absent labels), arrays and CCDData images, call histories that reuse the same list/image/map objects",
     "test_masking_functions makes two calls with one integer label; list arguments, background masking, CCDData and repeated use of one list are never run.",
     ["petrofit/segmentation.py"], [("segm_mask", "petrofit/segmentation.py"), ("masked_segm_image", "petrofit/segmentation.py")],
     ["segm_mask()", "masked_segm_image()", "the caller's list/image/map after the call"],
     [("sources", "caller-owned list of requested sources", "argument of segm_mask")])

prop("C03", "Source photometry measures one source in isolation",
     """Photometry of a catalogued source equals aperture photometry on the full frame, centred on the source's brightest pixel with the source's elongation
     and orientation, in which pixels of other sources, NaN pixels, pixels outside the frame or outside the (square, even-sized) cutout around the source and, if
     requested, all background pixels are unusable; so the result does not depend on the values in unusable pixels, on where in the frame
     the source sits (edges included), or on the cutout size as long as the cutout contains the apertures.
     With background subtraction, the plane fitted to the source-free pixels of the cutout that survive sigma rejection is removed first (sigma clipping; or, for 'bound' rejection, dropping pixels further than the sigma value from the clipped mean and, after subtraction, raising values below minus sigma to minus sigma; nothing is subtracted when the cutout has 10 or fewer source-free pixels, and otherwise an unknown rejection type is an error), so, with sigma clipping, adding
     any planar background to the image leaves the result unchanged.
     Image, error map, segmentation map and catalogue are left unchanged.""",
     ["inputs", "configurations"], "all images with several sources, sources near/over frame edges, cutout sizes (default, odd, even), error maps, background masking on/off, planar backgrounds, overlap methods",
     "test_source_photometry calls the function once and asserts nothing about the returned values.",
     ["petrofit/segmentation.py", "petrofit/photometry.py", "petrofit/modeling/fitting.py"],
     [("source_photometry", "petrofit/segmentation.py"), ("fit_background", "petrofit/modeling/fitting.py")],
     ["source_photometry() return value"])

prop("C04", "Catalogues describe exactly the detected connected sources",
     """The plain segmentation map contains exactly the 8-connected groups of at least npixels pixels above the threshold, each with its own positive label and the background 0;
     deblending only splits those groups: it never adds, drops or joins detected pixels.
     A catalogue has exactly one entry per label of the map in use (the deblended map if deblending is on, else the plain map), measured on the given image.
     Ordering a catalogue by a column returns a permutation of its indices that sorts that column in descending order (ascending on request), and the accessors return the source's
     brightest pixel as (x, y), its elongation, ellipticity and orientation in radians, for a source object and for its table row alike.""",
     ["inputs"], "all images, thresholds (scalar and per-pixel), npixels, deblending parameters, catalogues and sort columns",
     "The tests use one simulated image with three sources and one npixels/threshold pair; the membership of the segments and table rows is not asserted.",
     ["petrofit/segmentation.py"],
     [("make_segments", "petrofit/segmentation.py"), ("make_catalog", "petrofit/segmentation.py"), ("order_cat", "petrofit/segmentation.py")],
     ["make_segments()", "deblend_segments()", "make_catalog()", "order_cat()", "get_source_position/elong/ellip/theta()"])

prop("C05", "Petrosian profile follows its definition at every index",
     """For any curve of growth with non-decreasing areas, the Petrosian value at index i > 0 is the mean surface brightness of the annulus between apertures i-1 and i divided by the mean surface
     brightness inside aperture i; index 0 is NaN, and an aperture that repeats the previous area takes the value of the first aperture with that area without disturbing any other index.
     The result has one value per aperture, does not depend on the units of flux or area nor on whether numbers are passed as integers or floats, and the inputs are not modified.
     The 1-sigma error of each value combines in quadrature the relative errors of the annulus (flux and area, each differenced between its two apertures) and of the enclosed flux and area, treated as independent (a missing error array counts as zero), and fewer than 3 points, unequal lengths or decreasing areas are rejected.""",
     ["inputs"], "all curves of growth: integer/float/list/array inputs, repeated areas anywhere, negative flux differences, error arrays present or missing",
     "test_calculate_petrosian checks lengths and NaN-ness on one float curve with distinct areas; no value is compared with the definition.",
     ["petrofit/petrosian/core.py"], [("calculate_petrosian", "petrofit/petrosian/core.py")],
     ["calculate_petrosian() return value", "Petrosian.petrosian_list / petrosian_err"])

prop("C06", "Petrosian radius is the first crossing of eta",
     """With the profile anchored to 1 at radius 0 (replacing its first entry) and interpolated on a uniform grid by the requested method, or left on the measured radii if interpolation is off, the Petrosian radius is the grid radius
     closest in value to eta among those up to and including the first one at which the profile is at or below eta, and NaN exactly when the profile never gets there.
     It does not depend on the profile after that crossing re-rising, on the flux or area units or on error arrays, it scales with the radius unit, and a larger eta never gives a larger radius.
     The input arrays are not modified.""",
     ["inputs"], "all radius/profile arrays (non-monotone, re-crossing, never crossing), all eta, interpolation kinds incl. None, grid sizes smaller and larger than the data",
     "test_petrosian checks one smooth profile at 5%; non-monotone, non-crossing and non-cubic cases are not run.",
     ["petrofit/petrosian/core.py", "petrofit/utils.py"],
     [("calculate_petrosian_r", "petrofit/petrosian/core.py"), ("closest_value_index", "petrofit/utils.py"), ("get_interpolated_values", "petrofit/utils.py")],
     ["calculate_petrosian_r()", "Petrosian.r_petrosian"])

prop("C07", "Fraction-of-light radii share one definition and saturate to NaN",
     """Let R be epsilon times the Petrosian radius: the radius of a light fraction f is the first radius at which the interpolated curve of growth reaches f/epsilon_fraction times the flux at R (to within one sampling step, and the
     first measured radius if it is reached there already), and, on any curve with enough points for its interpolation (4 for cubic), it is NaN, never an exception, exactly when R lies outside the measured radii, the Petrosian radius is undefined or that flux is never reached.
     Half-light, total-flux, 20/50/80% radii, the fluxes at them and the concentration indices C = 5 log10(r2/r1) all follow this one definition with their own fraction, so a larger fraction never gives a smaller radius, C is invariant under changes of radius or flux unit and radii scale with the radius unit;
     a concentration index is NaN whenever one of its radii is.""",
     ["inputs", "configurations"], "all curves of growth (incl. non-monotone), epsilon, epsilon_fraction, fractions, interpolation kinds incl. None, grid sizes, R inside/at/outside the measured range",
     "test_petrosian checks one curve with default settings at 5%; range limits, other interpolation kinds and the exceptions they raise are not reached.",
     ["petrofit/petrosian/core.py"],
     [("fraction_to_r", "petrofit/petrosian/core.py"), ("calculate_concentration_index", "petrofit/petrosian/core.py"), ("Petrosian", "petrofit/petrosian/core.py")],
     ["fraction_to_r()", "calculate_concentration_index()", "Petrosian.r_half_light, r_50, r_total_flux, total_flux, half_flux, c2080, c5090, concentration_index()"])

prop("C08", "A Petrosian object's answers depend only on its data and current settings",
     """After any sequence of changing eta, epsilon, epsilon_fraction, total_flux_fraction, interpolation kind and number, reading properties in any order, plotting, copying and correcting, every property of a Petrosian object equals that of an object freshly built from the same data with the current settings.
     The object never changes the arrays it was given, is not affected by later changes to those arrays, and neither a copy nor a corrected object shares settings with its original.
     Properties that name the same quantity (r_50 and r_half_light, c2080 and the concentration index of 0.2/0.8, r_epsilon and epsilon times r_petrosian, range flag and bounds) always agree.""",
     ["histories"], "all operation sequences over settings, reads, plots, copies and corrections",
     "The tests build objects once and read properties once; no test changes a setting after reading or compares two objects after a history.",
     ["petrofit/petrosian/core.py", "petrofit/petrosian/correction.py"],
     [("Petrosian property setters/getters", "petrofit/petrosian/core.py"), ("PetrosianCorrection.correct", "petrofit/petrosian/correction.py")],
     ["every public property of Petrosian after each operation"],
     [("eta, epsilon, epsilon_fraction, total_flux_fraction", "measurement settings", "Petrosian"), ("r_list, area_list, flux_list", "measured curve", "Petrosian")])

prop("C09", "Radius and flux error estimates follow their stated bracketing rule",
     """With a profile error, the Petrosian radius error is half the difference between the radii measured on the profile plus and minus its 1-sigma error, NaN if either is undefined or no error is given; the first (anchor) point carries no error.
     The error of a fraction radius is half the difference between the radii where the lowered and raised curves of growth reach the raised and lowered target fluxes, the targets being bracketed by the flux errors and the Petrosian radius error at R; it is NaN, never an exception, when R plus or minus its error leaves the measured range, and asking for errors never changes the radius itself.
     The errors of the total and half-light flux combine in quadrature the flux error of the nearest measured radius and the radius error, and every error property can be read without raising on every object whose radii itself can be read.""",
     ["inputs", "configurations"], "all curves and error arrays (missing, constant, varying, large), interpolation kinds, objects near the range limits",
     "No error value is asserted by any test, and half_flux_err and the out-of-range branches are never read.",
     ["petrofit/petrosian/core.py"],
     [("calculate_petrosian_r", "petrofit/petrosian/core.py"), ("fraction_to_r", "petrofit/petrosian/core.py"), ("total_flux_err/half_flux_err", "petrofit/petrosian/core.py")],
     ["r_petrosian_err, r_half_light_err, r_total_flux_err, total_flux_err, half_flux_err, fraction_flux_to_r_err()"])

prop("C10", "Petrosian corrections use the nearest grid row and change only epsilon",
     """The estimated Sersic index and epsilon come from the grid row nearest to the measured (Petrosian radius at eta 0.2, half-light radius, C2080, the latter two with the profile's own settings), distances being measured in each column's standard deviation over the grid (no column being constant);
     epsilon is that row's corrected radius for the profile's epsilon_fraction (0.5, 0.8 or 0.99) divided by its Petrosian radius for the profile's eta (0.2, 0.3, 0.4 or 0.5), and any other eta or epsilon_fraction is rejected with an error.
     With range enforcement on, a profile outside the grid's range in any of the three quantities is rejected, never extrapolated; with it off the nearest row is used.
     The corrected profile is a new object that differs from the original in epsilon only; the original, the grid and its file are unchanged, and a written grid reads back as the same grid, ready for use with range enforcement on (the default).""",
     ["inputs", "configurations"], "all grids, profiles inside/outside the grid range, supported and unsupported eta/epsilon_fraction, enforcement on/off",
     "test_corrections uses one profile, one grid, eta 0.2 and epsilon_fraction 0.99 with enforcement off.",
     ["petrofit/petrosian/correction.py"], [("PetrosianCorrection", "petrofit/petrosian/correction.py")],
     ["PetrosianCorrection.estimate_n/estimate_epsilon/correct/read/write/unique_grid_values/filter_grid"])

prop("C11", "Correction grids are complete, ordered, self-consistent and schedule-independent",
     """A generated correction grid has exactly one row per (n, r_eff) pair, ordered by n and then r_eff as given, with the same content whether it is computed serially or by any number of worker processes finishing in any order.
     In each row the concentration columns are 5 log10 of the ratio of the row's radii, the Petrosian radii do not decrease as eta falls, every radius ratio column equals the ratio of the row's columns (the corrected epsilon_80 that of the radius holding 80% of the total, i.e. 99%, flux), the uncorrected and ideal radii are those of the row's own (n, r_eff) and the corrected total radius recovers the ideal one (galaxies the image resolves).
     If a file name is given, in a format it or out_format identifies, the file reads back as the returned grid; an existing file is never altered unless overwriting was requested, and a failure to write still returns the complete grid.""",
     ["schedules", "configurations", "fault_sequences"], "all n/r_eff lists (unsorted, repeated, single), worker counts, completion orders, existing/unwritable/unknown-format output files",
     "test_grid_gen runs one serial 3x3 grid with overwrite on and compares columns with a stored file at 1%; n_cpu > 1, row order and file faults are never run.",
     ["petrofit/petrosian/correction.py"],
     [("generate_petrosian_sersic_correction", "petrofit/petrosian/correction.py"), ("_generate_petrosian_correction", "petrofit/petrosian/correction.py")],
     ["returned table", "output file"])

prop("C12", "Model images sample the model at the documented pixel coordinates",
     """An image of size (nx, ny) made from any 2D model has shape (ny, nx) and, in the default mode, pixel [j, i] equals the model at (x_o + i, y_o + j), where the origin is (0, 0), or centre minus floor(size/2) per axis when a centre (in whole or half pixels) is given; the averaging and interpolating modes and their factor
     refer to the same pixel boxes, so model values integrated or averaged over a pixel belong to that pixel.
     A sampling grid of size s and oversampling factor f has s*f points per axis spaced 1/f whose block means over f x f are the s x s pixel centres shifted by the grid origin, x varying along columns.
     Sizes that are not whole numbers or pairs of them are rejected, and the model is not modified.""",
     ["inputs"], "all sizes (square, non-square, scalar/tuple/list), centres, modes and factors, grid origins and factors",
     "The tests only build square images without a centre; test_make_grid checks three grids.",
     ["petrofit/modeling/fitting.py", "petrofit/modeling/models.py"],
     [("model_to_image", "petrofit/modeling/fitting.py"), ("make_grid", "petrofit/modeling/models.py")],
     ["model_to_image()", "make_grid()"])

prop("C13", "PSF-convolved model images equal oversample, convolve, bin",
     """The image of a PSF-convolved model at coordinates spaced by whole pixels (whole numbers when a window is used) equals: the wrapped model sampled at sub-pixel centres over the square region that starts at the smallest coordinates and spans the larger image dimension, averaged to PSF resolution,
     convolved with the PSF (rotated by its position angle; a PSF of even size is centred on the lower of its two middle pixels) taking light outside that region as zero, and averaged to image pixels; without PSF and oversampling it is the wrapped model itself.
     A window (x, y, length, factor) applies its finer sampling exactly to the pixels of the box of that length whose corner is the rounded centre (halves to even) minus half the length (rounded down), in the model's own coordinates, with the centre read from the current value of a parameter if named;
     parts of the window outside the image are ignored, so any window position, image origin and image shape is valid.""",
     ["inputs", "configurations"], "all wrapped models (single/compound), parameters, oversampling rules (none, integer, window numeric/named, partly or wholly off-image), PSFs (odd/even/rectangular, oversampled, rotated), image shapes and origins, subsets of pixels",
     "The tests use square images at origin (0, 0) with a centred window far from the edge and tolerances of 1% to 5%.",
     ["petrofit/modeling/models.py"], [("PSFConvolvedModel2D.evaluate", "petrofit/modeling/models.py"), ("make_grid", "petrofit/modeling/models.py")],
     ["PSFConvolvedModel2D(x, y)", "model_to_image(PSFConvolvedModel2D)"])

prop("C14", "A PSF model's sampling configuration is always valid",
     """At all times the sampling configuration of a PSF-convolved model is valid: oversampling is None, a positive (Python) integer, or four values ending in an integer length and a positive integer factor; PSF oversampling is None or a positive integer
     that divides the oversampling factor (1 if None) and was only accepted while a PSF was set.
     Any assignment or construction that would make it invalid is rejected with an error and leaves the configuration and the images as they were; every other assignment is accepted and reads back as assigned (sequences as tuples).
     Wrapping a non-2D model or an already PSF-convolved model is rejected; an unnormalised PSF is accepted with a warning and a normalised one without.""",
     ["histories", "configurations"], "all sequences of assignments to psf, oversample and psf_oversample with valid and invalid values, and all constructor combinations",
     "test_psf_convolved_model_2d_init walks one fixed sequence of about twenty assignments; state after a rejected assignment is not examined.",
     ["petrofit/modeling/models.py"], [("oversample/psf_oversample/psf setters", "petrofit/modeling/models.py")],
     ["oversample, psf_oversample, psf attributes and exceptions", "images after each step"],
     [("oversample", "sampling rule", "PSFConvolvedModel2D"), ("psf_oversample", "PSF sampling", "PSFConvolvedModel2D"), ("psf", "PSF image", "PSFConvolvedModel2D")])

prop("C15", "Model images do not depend on evaluation history or grid caching",
     """After any sequence of evaluations on different regions, sizes and shapes, changes of parameters, oversampling, PSF or PSF oversampling, copies, and switching grid caching on or off or clearing it, the image of a PSF-convolved model equals that of a freshly
     built model with the same parameters and configuration.
     Images already returned are never changed by later calls, and the coordinate arrays passed in are not modified.
     Only True and False are accepted as caching switch.""",
     ["histories"], "all histories of evaluate/set/clear operations over image sizes, origins, factors and cache states",
     "Tests evaluate each model on one grid; the cache-hit and invalidation paths with changed origin, factor or size are never compared.",
     ["petrofit/modeling/models.py"], [("grid cache in PSFConvolvedModel2D", "petrofit/modeling/models.py")],
     ["model_to_image(PSFConvolvedModel2D) along a history"],
     [("cached sampling grid", "grid reused between evaluations", "PSFConvolvedModel2D")])

prop("C16", "PSF wrapper mirrors and isolates the wrapped model's parameters",
     """A PSF-convolved model exposes the wrapped model's parameters, in order, with their current values, fixed flags and bounds (only an entry overridden at construction differs), followed by a PSF position angle of 0; its sub-model is returned as a new model of the wrapped kind carrying the wrapper's current values, fixed flags and bounds.
     Changing or fitting the wrapper never changes the model it was built from, another wrapper of the same model, or a sub-model already returned, and changing those never changes the wrapper's parameters or images.
     Several wrappers, of equal or different kinds (compound models included), coexist without sharing parameters or constraints.""",
     ["histories", "configurations"], "all interleavings of wrapping, setting values/fixed/bounds on base, wrapper, copies and returned sub-models, single and compound models",
     "Tests wrap one Sersic model at a time and never compare the base or another wrapper after changing one.",
     ["petrofit/modeling/models.py"], [("PSFConvolvedModel2D.__init__/_load_parameters/model", "petrofit/modeling/models.py")],
     ["param_names, parameters, fixed, bounds of wrapper, base and .model"],
     [("parameters, fixed, bounds", "per-instance parameter state", "PSFConvolvedModel2D")])

prop("C17", "Fits use exactly the valid pixels and solve the stated least squares",
     """A fit uses exactly the pixels that are neither NaN nor masked, with x the column and y the row index, and minimises the sum of squared (weight x residual) over them: values and weights at excluded pixels have no influence, an image generated by the model (away from degenerate parameters) is recovered, and for models
     linear in their parameters the solution satisfies the weighted normal equations with every supported fitter (TRF, LevMar, LM, and Linear for models astropy can fit linearly).
     Background fitting excludes exactly the pixels rejected by sigma clipping at the given sigma (none if sigma is None) whatever fitter is used.
     The input image, weights and model (the default background model included) are not modified, weights of a different shape are rejected, fixed parameters keep their value, and the fitter that did the fit is returned with its fit information (parameter uncertainties are attached to the fitted model exactly when asked for).""",
     ["inputs", "configurations"], "all images with NaN/masked pixels, weights, linear and non-linear models, fitters, sigma values, repeated fits",
     "Tests fit noise-free images without NaNs, masks or weights with the default fitter; fit_background is only run inside source_photometry without assertions.",
     ["petrofit/modeling/fitting.py"], [("fit_model", "petrofit/modeling/fitting.py"), ("fit_background", "petrofit/modeling/fitting.py"), ("fit_gaussian2d", "petrofit/modeling/fitting.py")],
     ["fit_model()", "fit_background()", "fit_gaussian2d()", "measure_fwhm()", "plot_fit() images"])

prop("C18", "Analytic Sersic helpers are mutually consistent",
     """For every Sersic index, effective radius, amplitude and ellipticity: the flux enclosed in a radius increases with radius from 0 to a finite total, is half the total at the effective radius, is proportional to the amplitude and to (1 - ellipticity), depends on radius only through r/r_eff times r_eff squared, and its inverse returns the radius it came from;
     its growth between two radii equals the Sersic surface brightness integrated over the elliptical annulus.
     The ideal Petrosian profile equals local over mean enclosed surface brightness, tends to 1 at the centre, decreases with radius and depends on r/r_eff and n only; intensities at the centre and at the effective radius convert into each other and match the Sersic model at those radii.
     The model wrappers of these formulas return the same values as the formulas, and the closed-form approximations agree with the exact relations for indices 0.5 to 10: the index estimated from C2080 within 3%, the concentration correction within 2%, epsilon from the index within 0.2% and epsilon from the Petrosian concentration within 2.5%.""",
     ["inputs"], "all n in the default bounds, radii (scalar, array, infinite), effective radii, amplitudes, ellipticities",
     "Only the grid generator exercises them, for three n, at 1%; ellipticity, inverse consistency and the profile are never asserted.",
     ["petrofit/modeling/models.py"],
     [("sersic_enclosed", "petrofit/modeling/models.py"), ("sersic_enclosed_inv", "petrofit/modeling/models.py"), ("petrosian_profile", "petrofit/modeling/models.py"), ("Ie_to_I0/I0_to_Ie", "petrofit/modeling/models.py")],
     ["sersic_enclosed, sersic_enclosed_inv, sersic_enclosed_model, petrosian_profile, petrosian_model, Ie_to_I0, I0_to_Ie"])

prop("C19", "2D light-profile models have the right isophotes and anchor values",
     """The generalised Sersic model has the value of its amplitude exactly on the isophote of semi-major axis r_eff along theta and semi-minor axis (1 - ellip) r_eff, is constant on every generalised ellipse |x'/a|^(c_0+2) + |y'/b|^(c_0+2) = const, decreases outward, is symmetric under point reflection
     about its centre and mirror reflection about its axes, and coincides with the Sersic model when c_0 = 0.
     The Nuker model is circularly symmetric about its centre with the value of its amplitude at distance r_break, inner and outer logarithmic slopes -gamma and -beta, and NaN only at the exact centre.
     The core-Sersic model (Graham et al. 2003) is constant on ellipses turned by theta, has the value of its amplitude at semi-major axis r_break and inner logarithmic slope -gamma, falls like the Sersic law of index n far outside r_break, and is NaN only at the exact centre.
     Default bounds are returned as fresh dictionaries with overrides applied and never leak from one call to another; boxy models add exactly the boxiness bound.""",
     ["inputs", "histories"], "all parameters and evaluation points; all sequences of bound requests with overrides",
     "No test evaluates GenSersic2D, Nuker2D or the bounds helpers beyond passing them through.",
     ["petrofit/modeling/models.py"], [("GenSersic2D.evaluate", "petrofit/modeling/models.py"), ("Nuker2D", "petrofit/modeling/models.py"), ("get_default_sersic_bounds/get_default_gen_sersic_bounds", "petrofit/modeling/models.py")],
     ["GenSersic2D(x, y)", "Nuker2D(x, y)", "get_default_sersic_bounds()", "get_default_gen_sersic_bounds()"])

prop("C20", "Unit and shape conversions obey their laws and invert each other",
     """Ellipticity e and elongation E satisfy E = 1/(1-e) and e = (E-1)/E in both directions; an elliptical area converts to axes (a, b) with pi*a*b = area and a/b = elongation, and a circular one to r with pi*r^2 = area.
     Angle-to-pixel and pixel-to-angle conversion are inverse and linear for any angular unit and square-pixel WCS, with one pixel equal to the WCS pixel scale in arcseconds, and pixels whose sides differ (by 5% or more, at scales of 0.005 arcsec or more) are rejected; the Petrosian radii in arcseconds are the pixel radii converted (NaN stays NaN).
     AB magnitudes from HST fluxes fall by 2.5 per factor 10 in flux with the zero point of the header, and are NaN exactly for non-positive or NaN fluxes, for Python scalars, numpy scalars, lists and arrays of integer or float type alike, without modifying the input.""",
     ["inputs"], "all scalar/array/Quantity inputs, units, pixel scales and header values",
     "Single values are tested; test_angular_to_pixel's final comparison is not even asserted, and numpy scalars, integer and non-positive array fluxes are not run.",
     ["petrofit/utils.py", "petrofit/petrosian/core.py"],
     [("ellip_to_elong/elong_to_ellip", "petrofit/utils.py"), ("angular_to_pixel/pixel_to_angular", "petrofit/utils.py"), ("hst_flux_to_abmag", "petrofit/utils.py")],
     ["return values of the conversion helpers", "Petrosian.r_half_light_arcsec/r_total_flux_arcsec"])

prop("C21", "Search, sampling and sorting helpers meet their specification",
     """The closest-value search returns None exactly when no element is on the target side of the value (at or below it, or at or above it when growing), and otherwise the index of the element nearest to the value (first on ties, NaN elements ignored) among those up to the first such element.
     Interpolated samples run uniformly from the smallest to the largest x, number the larger of the request and the data length, include both ends and pass through the data for interpolating kinds; with no kind the data are returned as they are.
     Radius lists (n at least 2, maximum above 1 when logarithmic) have exactly n increasing positive values ending at the maximum, evenly spaced (from max/n) or evenly spaced in logarithm (from 1); natural sorting of ASCII strings returns a permutation of the list ordered case-insensitively with digit runs compared as numbers, without changing the input; catalogue matching returns for every entry of the first catalogue the nearest one of the second.""",
     ["inputs"], "all arrays, values, sizes, kinds, string lists and coordinates",
     "A handful of fixed examples are asserted per helper.",
     ["petrofit/utils.py"],
     [("closest_value_index", "petrofit/utils.py"), ("get_interpolated_values", "petrofit/utils.py"), ("make_radius_list", "petrofit/utils.py"), ("natural_sort", "petrofit/utils.py"), ("match_catalogs", "petrofit/utils.py")],
     ["return values of the helpers"])

prop("C22", "API calls have no hidden side effects",
     """No measurement, segmentation, modelling, fitting, conversion or plotting call changes any array, list, table, header, mask, segmentation map, catalogue or model passed to it, any default of a public function, or any numpy or matplotlib setting.
     Therefore repeating any call with the same arguments after any other sequence of calls returns the same result, and asking for plots, printouts or progress never changes returned values.""",
     ["histories"], "all sequences of public calls sharing input objects, with plotting and printing on or off",
     "Tests use each input once and never compare inputs before and after, or results of repeated calls.",
     ["petrofit/photometry.py", "petrofit/segmentation.py", "petrofit/utils.py", "petrofit/petrosian/core.py", "petrofit/petrosian/correction.py", "petrofit/modeling/fitting.py", "petrofit/modeling/models.py"],
     [("copies made of inputs throughout", "petrofit/"), ("immutable use of default arguments", "petrofit/")],
     ["digests of all shared inputs and results along a call history"])

prop("C23", "Cutout subtraction removes exactly the overlapping part of the target",
     """Subtracting a target cutout of any (odd or even) size centred on pixel (x, y) from an image returns a new image in which every pixel covered by the cutout, whose first pixel lands at (x - width//2, y - height//2), is reduced by the corresponding target pixel (images and targets of signed integer or float type),
     and every other pixel is unchanged.
     Parts of the cutout that fall outside the image on any side are ignored, and neither the image nor the target is modified.""",
     ["inputs"], "all image and target shapes, positions inside, on the edge of and outside the image",
     "No test calls it.",
     ["petrofit/utils.py"], [("cutout_subtract", "petrofit/utils.py")], ["cutout_subtract() return value and the arguments after the call"])

prop("C24", "Measuring a synthetic galaxy recovers the light it was made of",
     """For a noise-free Sersic galaxy image (any index, effective radius, ellipticity, orientation, sub-pixel or whole-pixel centre and amplitude within the sampled range), aperture photometry with matching ellipses, the Petrosian profile and its radii agree with the analytic enclosed flux and ideal Petrosian profile of that galaxy within discretisation tolerance;
     correcting with a correction grid containing its (n, r_eff) restores the half-light and total-flux radius.
     The whole chain (segment, catalogue, photometry, profile, correction, fit) is equivariant: translating the galaxy by whole pixels or rotating/transposing the image leaves radii and concentrations unchanged, and multiplying the image by a constant multiplies only fluxes and amplitudes.""",
     ["inputs", "configurations"], "all Sersic parameters within the sampled range, image placements, orientations and scalings",
     "test_petrosian checks one stored circular curve; elliptical, rotated, shifted and rescaled sources are never measured end to end.",
     ["petrofit/photometry.py", "petrofit/segmentation.py", "petrofit/petrosian/core.py", "petrofit/petrosian/correction.py", "petrofit/modeling/models.py", "petrofit/modeling/fitting.py"],
     [("measurement chain", "petrofit/")], ["outputs of the chain on related inputs"])

prop("C25", "Figures show the measured numbers on the axes asked for",
     """A Petrosian profile figure draws the object's profile against its radii with its errors, a horizontal line at eta and a vertical line and a mark (or error bar) at the Petrosian radius; a curve-of-growth figure draws the enclosed flux against radius with its errors and lines and marks at the half-light and total-flux radii and fluxes; an undefined radius is not drawn, no radius is when radii are not requested, and when a legend is shown it quotes each radius drawn.
     Radii overlays are exactly the ellipses whose semi-major axes are the defined ones among the half-light, total-flux, 20% and 80% radii, about the given position. All of them follow the object's settings at the time of the call and change none.
     A correction figure shows every grid row and joins the measured profile to its nearest row in all three planes; a fit figure shows data, model and residual; aperture, photometry, segmentation, residual and target figures show the given image and outline the given apertures, segments or position, and photometry figures draw the returned curve of growth.
     A figure is drawn on the axes given (else on the current ones), and other axes are left as they were.""",
     ["inputs", "configurations", "histories"], "all settings, defined and undefined radii, options, axes given or current",
     "No test looks at what a figure shows.",
     ["petrofit/petrosian/core.py", "petrofit/petrosian/correction.py", "petrofit/photometry.py", "petrofit/segmentation.py", "petrofit/modeling/fitting.py", "petrofit/utils.py"],
     [("Petrosian.plot", "petrofit/petrosian/core.py"), ("PetrosianCorrection.plot_correction", "petrofit/petrosian/correction.py"), ("plot_fit", "petrofit/modeling/fitting.py")],
     ["artists on the axes after each plotting call"])

if __name__ == "__main__":
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        print(json.dumps(p, ensure_ascii=False))
