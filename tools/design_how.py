HOW = dict(
C01="""`load_calibration_lines` runs on a line list whose wavelengths and intensities are symbolic (in the replay a real file with the model's values is written and read back by numpy). The oracle says for each source line whether it qualifies as a formula over the values (element, closed range, threshold, first of its wavelength, among the n brightest); the solver decides that the returned rows are exactly those, in order and with their own columns.
Tests look at counts on the shipped list; the closed limits, duplicates, ties with a threshold and the interaction of the filters are settled only here.""",
C02="""As C01, with a symbolic minimum separation: a qualifying line is in the result iff all other qualifying lines are at least that far away. `filter_separation` alone is decided for 0 to 5 ascending wavelengths.""",
C03="""The three functions run on symbolic wavelength, pressure and humidity; the result is compared with an independent transcription of the NIST page (Edlen equation and IAPWS saturation pressure, in exact rationals apart from roots at the listed temperatures). Rational functions of three variables: the solver decides the polynomial identity within a tolerance far below any constant's last digit.""",
C04="""Element-wise part: with the refractive index an arbitrary positive function of its arguments, each output must be the input divided (multiplied) by the index at that very wavelength and at the given conditions; the caller's argument is compared afterwards. Order, shorter-in-air and round trip: with the real index at listed conditions and every wavelength (nonlinear real arithmetic).""",
C05="""Histories of additions with symbolic lines; after each step lines, elements, intensities and length are compared with a list kept by the harness. Rejected additions (lengths differ) must leave the atlas as it was.""",
C06="""Removal with symbolic centre and tolerance on a symbolic atlas, twice in a row, directly and through the calibrator; the survivors are compared with the filter stated as a formula.""",
C07="""`refine_peaks` runs with symbolic samples and symbolic peak positions (each feasible integer part is a path); the fit is a stand-in that decides, for each call, that it was handed exactly its window, normalised to its own maximum, and answers with failure or an arbitrary Gaussian. The result must be the arbitrary centres translated to the spectrum, filtered as documented.""",
C08="""Every combination of pairs and slopes is a formula (intercept inside the closed limits); the returned points are compared as a sequence-independent set with multiplicity.""",
C09="""As C08 for every two pairs with different pixels, strict limits.""",
C10="""numpy's `histogram2d` is modelled exactly (edges from symbolic minimum and maximum, last bin closed), the code's own listing of the lines runs on top; counts, centres, order and totals are decided.""",
C11="""Extending with symbolic points and with other transforms; limits in every position finite, NaN or infinite.""",
C12="""Save and load with symbolic content: the content handed to numpy's and json's writers is kept and handed back (arrays as arrays, json as lists of floats), so what the code packs and unpacks is decided; the replay writes and reads real files. Covers format strings, `to_disk`, delimiters, file names with dots, the calibrator's wrappers, and that the next fit uses the loaded lines.""",
C13="""Histories of the three setters with symbolic values. A model of the documented defaults is updated alongside; after every call each public attribute and the derived limits are compared with the model.""",
C14="""Histories of atlas operations, on the calibrator and on the atlas itself; whenever the transform or the fit runs, the pairs it is handed are compared with the full product of the peaks and the lines then in the atlas.""",
C15="""Pairs kept under the polygon constraint are compared with the quadrilateral's two straight edges, stated as formulas over range, tolerance and pixel.""",
C16="""fit() runs up to the sampling with symbolic trial lines (or a symbolic guess and offsets); its candidate lists are compared with "within tolerance of the line".""",
C17="""The merged candidates are decided against the ranking by total weight; directly on arbitrary candidate sets and as fit() produces them.""",
C18="""The matching runs on symbolic wavelengths and coefficients; each path's result is compared with the reference matching stated as formulas (nearest candidate per peak, best peak per line).""",
C19="""fit() runs as a whole with every outcome of the sample fit and of the robust fit symbolic. A returned solution has to come from a sample whose coefficients meet the limits, with matches that are candidates, distinct, and within tolerance.""",
C20="""As C19 with two or three samples; the cost of each sample is stated as a formula over its arbitrary coefficients (clipped errors of the reference matching, degrees of freedom, density weight) and the returned solution must belong to a cheapest acceptable one.""",
C21="""fit() runs with symbolic known pairs; the data of each sample fit is inspected: all known pairs unchanged, plus a sample of the right size of distinct peaks and lines. Histories of accepted and rejected calls of `set_known_pairs`.""",
C22="""fit() with every outcome; the returned tuple is decided consistent in itself and with the attributes; refits with and without success, guesses of other degrees.""",
C23="""match_peaks on symbolic lines and tolerance; matched peaks, the minimal total error of distinct lines, residuals, rms, utilisations and the caller's coefficients are decided, for every flag combination.""",
C24="""The optimiser is a stand-in that evaluates the residual function at a symbolic vector and returns an arbitrary one: the residual must be that of a scaled problem, and the returned coefficients the curve of that vector in original units (compared as polynomials at enough points).""",
C25="""Sequences of edits with symbolic pairs against a plain list of pairs.""",
C26="""manual_refit with an arbitrary robust fit; what was fitted, returned and stored is compared; unusable inputs must leave everything as it was.""",
C27="""The objective function handed to the optimiser is evaluated at symbolic shifts and compared with the score stated as a formula.""",
C28="""get_pixels with an inverse that returns an arbitrary pixel at which the handed function takes the wavelength; the oracle evaluates the model itself there.""",
C29="""matplotlib and plotly are stand-ins that record what they are given. With symbolic spectrum, lines and solution, the recorded coordinates must be those of the data (spectrum, lines at their wavelengths, matched peaks at the solution's values, residuals and the rms in the label), the caller's arrays and the calibrator unchanged, and the files those asked for.""",
C30="""Two calibrators built alike, with symbolic seed and symbolic generator states before each; the draws after seed(s) are functions of s and the position in the stream. All outcomes of the sample fits are arbitrary functions of the data. Results, samples and candidates must coincide term by term.""",
C31="""fit() runs with outcomes that turn down every sample, for each reason and every value causing it; the number of sample fits per try must stay below a bound and fit() has to return or raise an error.""",
C32="""Brute force on symbolic candidates: the set of samples handed to the sample fit is compared with all combinations of candidate pairs.""",
C35="""fit() runs with symbolic peak distances; the probabilities handed to the draw are compared with those of a histogram over ten equal bins.""",
C36="""Brute force on symbolic lines and a symbolic ransac tolerance with outcomes that turn every sample down: the pairs that reach the sample fits are compared, line by line, with the separations of all candidate lines; random samples and accepted solutions likewise.""",
)
COST = {}
