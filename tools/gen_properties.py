"""writes properties.jsonl (source of truth for the property texts)"""
import json, os
A = "src/rascal/atlas.py"; C = "src/rascal/calibrator.py"; H = "src/rascal/houghtransform.py"
M = "src/rascal/models.py"; P = "src/rascal/plotting.py"; S = "src/rascal/synthetic.py"; U = "src/rascal/util.py"
props = []

def p(id, title, statement, over, qtext, why, files, mech, observe=(), state=()):
    props.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=list(observe),
                     state=[dict(name=n, meaning=m, where=w) for n, m, w in state], hook_needed=None)))

I = ["inputs"]; IC = ["inputs", "configurations"]; HI = ["histories"]; HII = ["histories", "inputs"]

p("C01", "Line lists are filtered exactly as requested",
  "Loading calibration lines from a line list returns exactly the lines of the requested elements (chemical symbols, case insensitive) whose wavelength lies in the closed requested range (when air wavelengths are wanted, the range limits are given in air and compared after conversion to vacuum) and whose intensity is at least the minimum given for that element (one number for all, or one per element), however the list writes its numbers, one line per distinct wavelength (of lines sharing a wavelength the first in the file, also when the file holds a single line). "
  "If a number of brightest lines is requested, the brightest of those are kept, whatever their order in the file. "
  "Each returned element, wavelength and intensity still belong to the same source line.",
  IC, "all line lists, element selections, ranges, intensity limits, brightest-n values and the air/vacuum switch", "The tests load the shipped NIST list with a few settings and look at counts.",
  [U], [("load_calibration_lines", U), ("filter_wavelengths", U), ("filter_intensity", U)], ["load_calibration_lines return value", "Atlas contents"])
p("C02", "Minimum line separation keeps exactly the isolated lines",
  "When a minimum separation is requested, a line survives exactly when every other line that passed the element, range, intensity and brightness filters is at least that far away; for a plain ascending wavelength list the mask returned by the separation filter says the same. "
  "A lone line is kept, an empty list stays empty, and each line is judged on the wavelengths before the air conversion.",
  I, "all wavelength lists, any file order, any separation, any brightest-n", "Tests use a handful of fixed lists; ties, one-line lists and lists reordered by brightness are not reached.",
  [U], [("filter_separation", U), ("load_calibration_lines", U)], ["load_calibration_lines return value", "filter_separation mask"])
p("C03", "Air refraction follows the modified Edlen equation",
  "The refractive index used for air/vacuum conversion is the NIST modified Edlen equation for the given wavelength (Angstrom), temperature, pressure and humidity, with the water vapour saturation pressure of the IAPWS formula at that temperature (about 2339 Pa at 20 C). "
  "The vapour partial pressure is the relative humidity percentage of the saturation pressure.",
  I, "all wavelengths 2000-25000 A, pressures, humidities; temperatures as listed in the bounds", "Tests compare a few points with loose tolerance.",
  [U], [("edlen_refraction", U), ("get_vapour_pressure", U), ("get_vapour_partial_pressure", U)], ["conversion functions"])
p("C04", "Air and vacuum conversions are consistent inverses",
  "Converting vacuum wavelengths to air divides, and air to vacuum multiplies, each wavelength by the refractive index at that wavelength and at the given temperature (Kelvin), pressure and humidity, element by element, for numbers, lists and arrays, without changing the argument. "
  "Air wavelengths are shorter than vacuum wavelengths, the order of lines is preserved, and converting there and back returns the original to better than 0.001 Angstrom.",
  I, "all wavelengths in range and all listed atmospheric conditions", "Tests check one or two wavelengths.",
  [U], [("vacuum_to_air_wavelength", U), ("air_to_vacuum_wavelength", U)], ["conversion functions"])
p("C05", "An atlas holds every added line once, with aligned columns",
  "After any sequence of additions from line lists and from user lists, the atlas contains the lines of every addition in order and nothing else; line wavelengths, elements, intensities and the atlas length always describe the same lines in the same order. "
  "User lines accept lists, arrays or a single line, default to zero intensity, are converted to air only when asked, and inputs of different lengths and wavelength limits that are not finite are rejected without changing the atlas.",
  HII, "all sequences of up to three additions with arbitrary values and argument forms", "Tests add one or two fixed lists.",
  [A], [("Atlas.add", A), ("Atlas.add_user_atlas", A), ("Atlas.get_lines", A)], ["Atlas.get_lines/get_elements/get_intensities/len"])
p("C06", "Removing a wavelength range removes exactly those lines",
  "Removing atlas lines around a wavelength removes every line closer than the tolerance and no other, keeps the order and the element and intensity of the rest, and clearing leaves an empty atlas. The same holds through the calibrator.",
  HII, "all line configurations, centres, tolerances, including neighbouring lines", "The one test removes an isolated line.",
  [A, C], [("Atlas.remove_atlas_lines_range", A), ("Atlas.clear", A)], ["Atlas.get_lines"])
p("C07", "Peak refinement reports peaks in spectrum coordinates",
  "Refining peaks fits each window of the spectrum around a peak (window_width samples before the integer part of the peak and window_width from it on, clipped at the ends, not-finite samples ignored) normalised to its own maximum, and reports the fitted centre in pixel coordinates of the whole spectrum, wherever the window lies and for fractional input peaks. "
  "Peaks whose fit fails, has negative height or a centre outside the spectrum are dropped; neighbouring results that coincide are reported once; the caller's spectrum is not changed and overlapping windows do not affect each other.",
  IC, "all spectra, peak positions, window widths and fit outcomes", "Tests refine clean, interior, well separated peaks.",
  [U], [("refine_peaks", U)], ["refine_peaks return value", "arguments"])
p("C08", "Hough points are exactly the in-range intercepts",
  "Generating Hough points yields, for every pair and every one of the evenly spaced slopes between the slope limits (both included), the point (slope, wavelength - slope*pixel) if and only if its intercept lies within the closed intercept limits, and no other points. The calibrator's transform uses these points, with the number of slopes and the limits set, unless brute force is asked for.",
  I, "all pairs, slope and intercept limits, slope counts", "Tests only check that it runs on one arc.",
  [H], [("HoughTransform.generate_hough_points", H)], ["hough_points"])
p("C09", "Brute-force Hough points are the exact pairwise lines",
  "The brute-force Hough generation yields, for every two pairs with different pixels, the gradient and intercept of the straight line through both if and only if both lie strictly inside the limits, and no other points. The calibrator's transform uses these points when brute force is asked for.",
  I, "all sets of pairs with distinct pixels and all limits", "Tests only check that it runs.",
  [H], [("HoughTransform.generate_hough_points_brute_force", H)], ["hough_points"])
p("C10", "Hough lines are the accumulator cells by falling count",
  "Binning the Hough points produces an accumulator whose cells count each point once (whatever search limits are set), and a list of lines with exactly one line per cell, at the cell centre, in order of non-increasing count.",
  IC, "all sets of Hough points (in a bounded number) and bin numbers, also unequal ones", "Tests only check that it runs with square binning.",
  [H], [("HoughTransform.bin_hough_points", H)], ["hough_lines", "hist", "xedges", "yedges"])
p("C11", "Adding Hough points appends them unchanged",
  "Extending a Hough transform with an array or with another transform appends all its points, in order, after the existing ones, leaves the other transform untouched, and rejects any other type without changing anything. Search limits must be finite and are stored as given.",
  HII, "all point sets and argument kinds", "One test adds one transform.",
  [H], [("HoughTransform.add_hough_points", H), ("HoughTransform.set_constraints", H)], ["hough_points"])
p("C12", "Hough transforms survive saving and loading",
  "A Hough transform saved as npy or json and loaded again has the same points, accumulator, edges and limits, as numeric arrays that can be binned and extended again; the requested formats and no others are written, and with disk writing off the same content is returned instead, also through the calibrator. "
  "A transform loaded into a calibrator is the one the next fit uses.",
  HII, "all point sets and limits; every format string, name form and to-disk setting", "Tests save and load once per format and compare only the in-memory lists.",
  [H, C], [("HoughTransform.save", H), ("HoughTransform.load", H), ("Calibrator.save_hough_transform", C), ("Calibrator.load_hough_transform", C)], ["files", "return values", "hough_points", "hough_lines"])
p("C13", "Settings persist and search limits follow them",
  "Across any sequence of configuration calls (the choice of the plotting library included) a setting keeps the last value given for it, a setting never given keeps its documented default, giving one setting changes no other, and fits leave the settings as they were. "
  "The pixel list follows the number of pixels unless given explicitly, and after every call the intercept and slope limits are those derived from the current wavelength range, tolerances and pixel list: "
  "intercepts min_wavelength -/+ range_tolerance; slopes from ((max_wavelength - R) - (min_wavelength - range_tolerance + R)) to ((max_wavelength + R) - (min_wavelength - range_tolerance - R)) over the span of the pixel list, R = range_tolerance + linearity_tolerance.",
  HII, "all sequences of up to three configuration calls with arbitrary values", "Tests set properties once in one order.",
  [C], [("Calibrator.set_calibrator_properties", C), ("Calibrator.set_hough_properties", C), ("Calibrator.set_ransac_properties", C)], ["calibrator attributes after each call"])
p("C14", "Peak/line pairs always reflect the current atlas",
  "Whenever the calibrator's Hough transform or fit runs, its candidate pairs are exactly every combination of a detected peak with a line currently in the atlas: setting, extending, trimming or clearing the atlas leaves no stale or missing pair.",
  HII, "all peaks, all atlases, all sequences of atlas changes", "Tests set the atlas once.",
  [C], [("Calibrator._generate_pairs", C), ("Calibrator.set_atlas", C), ("Calibrator.remove_atlas_lines_range", C)], ["Calibrator.pairs", "data handed to the Hough transform"])
p("C15", "The polygon constraint keeps exactly the pairs inside",
  "With the polygon constraint on, the pairs kept are exactly those inside the quadrilateral that at pixel zero spans the allowed intercepts and at the last pixel the maximum wavelength plus or minus the range tolerance, each widened by the candidate tolerance.",
  I, "all peaks, lines, ranges and tolerances", "No test checks which pairs survive.",
  [C], [("Calibrator._generate_pairs", C)], ["Calibrator.pairs"])
p("C16", "Candidates are the pairs within tolerance of a trial line",
  "For each Hough line the candidate list holds exactly the peak/line pairs whose wavelength differs from the line's prediction by no more than the candidate tolerance, each with its own weight between 0 and 1 that falls with distance. "
  "With a guess polynomial instead of Hough lines, candidates are likewise the pairs within tolerance of the polynomial shifted by a trial offset no larger than the range tolerance, also when the numbers of peaks and lines differ.",
  IC, "all pairs, trial lines, polynomials, offsets and tolerances", "Tests never look at the candidates.",
  [C], [("Calibrator._get_candidate_points_linear", C), ("Calibrator._get_candidate_points_poly", C)], ["Calibrator.candidates"])
p("C17", "Each peak keeps its most frequent candidate lines",
  "Merging candidates gives every candidate peak its top-N distinct wavelengths by total weight (by number of occurrences when unweighted), no wavelength twice for a peak, and only wavelengths that were candidates of that very peak.",
  IC, "all candidate sets, weights and N", "Tests never look at the ranking.",
  [C], [("Calibrator._get_most_common_candidates", C)], ["candidate peaks and arcs"])
p("C18", "Matching is one-to-one and nearest",
  "Matching peaks to candidate lines gives each peak the candidate closest to its predicted wavelength, then gives each line only to the peak that fits it best: no peak or line appears twice, every line chosen by some peak appears, and the reported errors are those of the reported pairs.",
  I, "all candidate sets and all polynomials", "Tests see only end results of full fits.",
  [C], [("Calibrator._match_bijective", C)], ["returned errors, peaks and lines"])
p("C19", "An accepted fit meets every user constraint",
  "Any solution fit() accepts pairs distinct detected peaks with distinct atlas lines that were candidates of those peaks, has more matches than the polynomial degree, at least the minimum number of matches and the minimum peak utilisation, an rms no smaller than the minimum fit error, and only matches whose error in the sample fit is below the ransac tolerance. "
  "Sample fits with intercept outside the allowed limits or not increasing over the range of the detected peaks, widened by a fifth of its span at both ends, are never accepted.",
  ["inputs", "configurations", "schedules"], "all wavelengths, sample draws, sample and robust fit outcomes and limits, for a bounded number of peaks and samples", "Tests run seeded fits on good data, where the constraints are not near their limits.",
  [C], [("Calibrator._solve_candidate_ransac", C), ("Calibrator.fit", C)], ["fit() result"])
p("C20", "RANSAC returns the best accepted solution it saw",
  "Of the sample fits that meet every constraint, the returned coefficients, matches, rms and residual all come from one with the lowest cost, where the cost is the summed error, each clipped at the ransac tolerance, per degree of freedom and divided by the Hough density weight; a later worse sample never replaces it; a guess given to fit() is compared by the same cost and stays unless a sample is at least as good; and where some sample meets every constraint a solution is returned.",
  ["inputs", "schedules"], "all sequences of up to three samples with arbitrary fits and errors", "A test cannot arrange the order of good and bad samples.",
  [C], [("Calibrator._solve_candidate_ransac", C)], ["fit() result"])
p("C21", "Known pairs take part in every sample fit",
  "Known pixel/wavelength pairs are validated (equal lengths, no NaN) and a rejected call leaves the earlier pairs in place; accepted pairs are all, and unchanged, part of the data of every sample fit, together with the drawn sample of distinct peaks and distinct lines.",
  HII, "all known pairs and all samples", "Tests check only that the call does not raise.",
  [C], [("Calibrator.set_known_pairs", C), ("Calibrator._solve_candidate_ransac", C)], ["data handed to the polynomial fit"])
p("C22", "The fit report is consistent with the solution",
  "fit() returns coefficients of the requested degree (or of the guess's degree), equally many matched peaks and lines, residuals that are the returned polynomial at the matched peaks minus the matched lines (clipped at the ransac tolerance), their root mean square as rms, and utilisations that are the matches divided by the number of peaks and of atlas lines; the calibrator stores the same values. "
  "If nothing acceptable is found it raises an error, or returns the given guess, and reports no other solution's matches.",
  ["inputs", "histories", "schedules"], "all data, draws and outcomes; also a second fit after a first", "Tests check rms and utilisation loosely on good data.",
  [C], [("Calibrator.fit", C)], ["fit() result", "calibrator attributes"])
p("C23", "match_peaks reports exactly the peaks the fit explains",
  "match_peaks matches exactly the peaks that have an atlas line closer than the tolerance to their predicted wavelength (under the refined solution if refinement is on), each with such a line and, where there is a choice, distinct lines giving the smallest total error (a line is shared only where there are not enough); residuals, rms and utilisations agree with the returned coefficients and matches. "
  "With refinement and refitting off the coefficients are returned unchanged, and the caller's coefficients are never modified.",
  IC, "all peaks, lines, coefficients and tolerances; every flag combination", "Tests use unambiguous matches and default flags.",
  [C], [("Calibrator.match_peaks", C)], ["match_peaks result"])
p("C24", "Robust polynomial fits are returned in pixel units",
  "The robust fit hands the optimiser data scaled to unit variance and a residual that is data minus polynomial (under the Huber loss), and returns the optimiser's solution rescaled so that, lowest order first, it describes the original data: any exact optimum of the scaled problem maps to the same curve in original units. "
  "A starting guess is scaled the same way, the solution is used whatever the optimiser says of its own success, and neither the data nor the guess of the caller is modified.",
  I, "all data sets, degrees and optimiser outcomes", "Tests fit one clean polynomial, where the scaling errors cancel or are tolerated.",
  [M], [("robust_polyfit", M), ("poly_cost_function", M), ("normalise_input", M)], ["robust_polyfit result"])
p("C25", "Matched pairs can be edited one at a time",
  "Adding a pixel/wavelength pair inserts exactly that pair, keeps pixel and wavelength lists aligned and leaves sorted pixels sorted; removing position k removes exactly pair k; listing gives every pair with its position. Any sequence of edits equals the same edits on a plain list of pairs, wherever the pair falls and whichever function produced the lists.",
  HII, "all pair lists and all sequences of up to three edits", "Tests add one pair beyond the end and remove one.",
  [C], [("Calibrator.add_pix_wave_pair", C), ("Calibrator.remove_pix_wave_pair", C), ("Calibrator.get_pix_wave_pairs", C)], ["get_pix_wave_pairs()"])
p("C26", "Manual refit reports and stores exactly its own fit",
  "manual_refit fits exactly the given (or stored) pairs with the requested degree, or that of the given or stored coefficients, and returns and stores the new coefficients, those pairs, the residuals data minus polynomial and their root mean square; the stored pairs are copies, which later changes to the caller's lists do not alter; unusable inputs (different lengths, too few points, degree below one) are rejected without changing the stored solution.",
  HII, "all pairs, degrees and fit outcomes; every argument combination", "Tests refit with default arguments and look at coefficients.",
  [C], [("Calibrator.manual_refit", C)], ["manual_refit result", "calibrator attributes"])
p("C27", "Refinement scores a shifted solution correctly",
  "The score used to refine a solution is the sum of squared residuals of the peaks whose nearest atlas line lies within the tolerance of the shifted polynomial, per degree of freedom, and infinite when too few peaks match, when the degrees of freedom run out or when the shifted polynomial is not increasing over the pixels; the input coefficients are not modified.",
  I, "all peaks, lines, coefficients, shifts and limits", "The refine option has no numeric test.",
  [C], [("Calibrator._adjust_polyfit", C)], ["objective value"])
p("C28", "Synthetic spectra invert their wavelength model",
  "For every requested wavelength strictly inside the wavelength limits, and for no other, a synthetic spectrum returns the pixel at which its current model takes that wavelength, in the order given: [intercept, gradient] for two coefficients, highest order first for more. "
  "Replacing the model replaces it completely, and wavelength limits are only replaced by valid ones.",
  HII, "all coefficients, wavelengths, limits and sequences of model changes", "Tests use one linear model.",
  [S, M], [("SyntheticSpectrum.get_pixels", S), ("SyntheticSpectrum.set_model", S), ("polynomial", M)], ["get_pixels result"])
p("C29", "Plotting shows the data and changes nothing",
  "The plotting functions draw the given spectrum, lines and solution at the right positions, report an rms and residuals that match what is drawn, and leave the calibrator and the caller's arrays unchanged, in linear and logarithmic mode; exactly the requested figure types are written, under the given name, and the figure is shown (or returned as json) exactly when asked to.",
  IC, "all spectra, solutions, lines and option combinations", "Tests only check that plotting does not raise.",
  [P], [("plot_arc", P), ("plot_search_space", P), ("plot_fit", P), ("plot_calibration_lines", P)], ["drawn data", "arguments", "written files"])
p("C30", "A seed makes the fit reproducible",
  "Two calibrators built alike, given the same seed (any integer, also 0) and the same calls, draw the same samples and return the same result, whatever random numbers were drawn before.",
  ["inputs", "schedules", "histories"], "all random streams, all seeds listed, arbitrary generator state beforehand", "Tests run one seed once and never compare two runs.",
  [C], [("Calibrator.set_calibrator_properties", C), ("Calibrator._solve_candidate_ransac", C)], ["fit() results of two runs"])
p("C31", "fit() stops after a bounded number of samples",
  "fit() ends, with a solution or an error, for every input: the number of sample fits is bounded by the number of tries (or of combinations in brute force mode) times a fixed number of redraws, even when every sample is rejected.",
  ["inputs", "schedules", "configurations"], "all outcomes of sample fits, including all rejected", "A test cannot show termination for all data; good data hides the endless loop.",
  [C], [("Calibrator._solve_candidate_ransac", C)], ["number of polynomial fits", "fit() returns"])
p("C32", "Brute force tries every combination once",
  "In brute force mode every combination of sample-size many candidate pairs is fitted, each once, and the requested sample size is what is used; the result is the best over all of them.",
  ["inputs", "configurations"], "all candidate sets up to the bound, all fit outcomes", "The option has no test that looks at the samples.",
  [C], [("Calibrator._solve_candidate_ransac", C)], ["data handed to the polynomial fit", "fit() result"])
p("C35", "Every detected peak can be drawn, by the density of its neighbourhood",
  "The sampling probabilities handed to the random draw are valid for every set of peaks (one per candidate peak, positive, summing to one) and inversely proportional to the number of peaks in the peak's own tenth of the peak range, so that crowded regions do not dominate the samples.",
  IC, "all peak positions (any spread, edges and bunches) in a bounded number, all subsets with candidates", "Tests use one set of peaks and never look at the probabilities.",
  [C], [("Calibrator._solve_candidate_ransac", C)], ["probabilities handed to np.random.choice"])
p("C36", "Filtering close lines leaves only well separated candidates",
  "With the filter for close lines on, no two candidate lines that fits draw or match are closer than three ransac tolerances; a line with no such neighbour among the candidates keeps all its pairs, a line is dropped with all its pairs and only for a close neighbour, and of each run of close lines one is kept. With the filter off nothing is dropped.",
  IC, "all wavelengths and ransac tolerances, random and brute force sampling", "No test looks at what the option removes.",
  [C], [("Calibrator._solve_candidate_ransac", C), ("Calibrator.set_ransac_properties", C)], ["data handed to the polynomial fit", "matched lines"])
p("C33", "RANSAC finds the true solution with high probability",
  "On data generated from a true smooth dispersion relation with enough matching lines, fit() with default settings recovers that relation with high probability.",
  ["inputs", "schedules"], "the distribution of random draws and of realistic data", "Tests run a few seeds.", [C], [("Calibrator.fit", C)], ["fit() result"])
p("C34", "Numerical optimisers reach their optimum",
  "The optimisers behind the robust fit, the Gaussian peak fit and the refinement converge to the minimum of their objective for every realistic data set.",
  ["inputs"], "all realistic data", "Tests fit a few clean cases.", [M, U, C], [("robust_polyfit", M), ("refine_peaks", U), ("Calibrator.match_peaks", C)], ["fit results"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for d in props:
        assert len(d["title"]) <= 80, d["id"]
        f.write(json.dumps(d) + "\n")
