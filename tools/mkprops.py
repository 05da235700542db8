import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,hook=None,state=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=hook)))
R="src/rascal/"
p("C01","Line-list selection returns exactly the requested lines",
 "Loading lines for any set of elements, wavelength limits and intensity threshold yields every catalogue line (built-in or user-supplied line list file) of those elements that lies inside the limits and is at least as bright as the threshold (lines listed at the very same wavelength count once), and nothing else; element symbols are case-insensitive, and a selection that matches nothing is empty, not an error. Each returned line carries its own element and catalogue intensity. Limits and returned wavelengths are air wavelengths for the given pressure, temperature and humidity unless vacuum is requested, when both are vacuum wavelengths.",
 ["inputs","configurations"],"all element subsets, spellings, limits, thresholds (None, scalar, per-element), atmospheric conditions, both media, built-in and custom line lists",
 "tests only assert that a few selections are non-empty",
 [R+"util.py",R+"atlas.py"],[("load_calibration_lines",R+"util.py"),("filter_wavelengths / filter_intensity",R+"util.py"),("Atlas.add / Atlas.__init__",R+"atlas.py")],
 ["return of rascal.util.load_calibration_lines","Atlas.get_lines/get_elements/get_intensities"])
p("C02","Minimum separation and brightest-N filters act on the true neighbours",
 "With a minimum line separation, a loaded selection keeps exactly those lines, among the lines that passed the intensity and brightest-N filters, whose nearest neighbour in wavelength is at least that separation away (an only line is always kept). With a brightest-N limit of N, the lines that survive it are N lines (or all, if fewer) none of which is fainter than a line it discarded. The two filters are applied in the order intensity, brightest-N, separation, whatever the order of the line list.",
 ["inputs","configurations"],"all elements, thresholds, separations and N, in catalogue or shuffled line lists",
 "tests never look at the spacing or brightness of the returned lines",
 [R+"util.py",R+"atlas.py"],[("filter_separation",R+"util.py"),("brightest_n_lines block of load_calibration_lines",R+"util.py")],
 ["return of load_calibration_lines and filter_separation","Atlas accessors"])
p("C03","An atlas is a faithful ordered collection under any edit history",
 "After any sequence of adding catalogue lines, adding user lines (one or many, scalars or sequences), removing a wavelength range and clearing, the atlas contains exactly the lines that sequence implies, in insertion order: removing a range deletes every line strictly closer to the given wavelength than the tolerance and no other, and user lines keep their element, wavelength and intensity (intensity 0 if none was given, wavelength converted to air if vacuum input is declared). The wavelength, element and intensity accessors and the length always describe the same lines.",
 ["histories","inputs"],"all interleavings of atlas operations through the Atlas class and through the calibrator's atlas methods",
 "one test removes one isolated line and clears once",
 [R+"atlas.py",R+"calibrator.py"],[("Atlas",R+"atlas.py"),("Calibrator.add_atlas/add_user_atlas/remove_atlas_lines_range/clear_atlas",R+"calibrator.py")],
 ["Atlas.get_lines/get_elements/get_intensities/len"])
p("C04","Air and vacuum wavelengths convert by the modified Edlen equation",
 "For any optical or infrared wavelength and any physical temperature, pressure and relative humidity, the vacuum-to-air conversion divides and the air-to-vacuum conversion multiplies by the refractive index of moist air given by the NIST modified Edlen equation (saturation vapour pressure included), in the documented units. Hence air wavelengths are shorter than vacuum ones by about 0.03 percent, the two conversions undo each other, and scalars, lists and arrays give the same numbers without changing their input.",
 ["inputs"],"wavelengths 2000 to 20000 Angstrom, temperatures from 273 to 313 K, pressures 50 to 110 kPa, humidities 0 to 100 percent",
 "tests compare eight values with a tolerance of 1000e-8 in n-1, so humidity is not tested at all",
 [R+"util.py"],[("get_vapour_pressure, get_vapour_partial_pressure, edlen_refraction, vacuum_to_air_wavelength, air_to_vacuum_wavelength",R+"util.py")],
 ["return values of those functions"])
p("C05","The Hough transform contains every admissible line and no other",
 "For any pixel-wavelength pairs and constraints, the sampled transform holds, for each of the evenly spaced trial slopes spanning the slope limits (both ends included) and each pair, the line of that slope through that pair exactly when its intercept lies within the intercept limits. The brute-force transform holds exactly one line per pair of points with distinct pixels whose slope and intercept lie strictly inside the limits, independent of input order. Every point it holds is finite and lies inside the limits.",
 ["inputs","configurations"],"all point sets (including repeated pixels and unsorted input), constraints and slope counts",
 "tests generate one transform and check only attribute equality through a no-op assertion",
 [R+"houghtransform.py",R+"calibrator.py"],[("generate_hough_points, generate_hough_points_brute_force, set_constraints",R+"houghtransform.py"),("Calibrator.do_hough_transform",R+"calibrator.py")],
 ["HoughTransform.hough_points","Calibrator.hough_points"])
p("C06","Binning the Hough space conserves points and ranks lines by density",
 "Binning a Hough transform distributes all of its points, including points added from other transforms or arrays, over the requested number of bins so that the counts sum to the number of points and each count equals the number of points inside that bin. The resulting list of lines has one entry per bin, each at the centre of its bin, in order of non-increasing count. Adding points keeps all existing points and appends exactly the new ones.",
 ["inputs","histories"],"all point clouds, bin counts (square and not) and sequences of add and re-bin",
 "tests only check that added values are present",
 [R+"houghtransform.py"],[("bin_hough_points, add_hough_points",R+"houghtransform.py")],
 ["HoughTransform.hist/xedges/yedges/hough_points/hough_lines"])
p("C07","A saved Hough transform loads back complete and usable",
 "Saving a Hough transform to disk or memory in either format, or both at once, and loading it back (directly or through a calibrator) restores the points, the histogram, the bin edges, the constraints and the ranked lines with full precision, so that re-binning, extending, saving again and calibrating behave as with the original. A calibrator that has loaded a transform uses it for the next fit instead of recomputing one. A file that is missing, truncated at any point or of an unknown type is rejected with an error and leaves the receiving transform unchanged.",
 ["inputs","histories","crash_points"],"all transforms, both formats, all truncation points of a saved file, file names with and without extension",
 "the round-trip test asserts a bound method, which is always true, and never uses what it loaded",
 [R+"houghtransform.py",R+"calibrator.py"],[("HoughTransform.save/load",R+"houghtransform.py"),("Calibrator.save_hough_transform/load_hough_transform",R+"calibrator.py")],
 ["files written","HoughTransform attributes after load","Calibrator.hough_points/hough_lines"])
p("C08","Candidate pairs always reflect the current peaks, atlas and limits",
 "Whatever the order of configuration calls, the calibrator's pixel-wavelength pairs are the full product of the current peaks and the current atlas lines, or with the polygonal constraint exactly those pairs inside the quadrilateral spanned at pixel 0 and at the last pixel by the wavelength limits widened by the range and candidate tolerances. Removing or clearing atlas lines through the calibrator, adding lines, or changing the Hough limits updates the pairs, so a line no longer in the atlas can never be matched afterwards.",
 ["histories","configurations","inputs"],"all sequences of set/add/remove/clear atlas, Hough-property and calibrator-property calls",
 "tests never inspect the pairs and edit the atlas once, for a line far outside the spectrum",
 [R+"calibrator.py"],[("_generate_pairs and its callers",R+"calibrator.py")],["Calibrator.pairs"])
p("C09","A fit result is one-to-one, drawn from the inputs and self-consistent",
 "Every successful fit returns fit_deg+1 finite coefficients (or as many as the initial guess had) of a power series, lowest order first, whatever the basis chosen for the trial fits, and equally long lists of matched peaks and lines in which no peak and no line occurs twice, every peak is one of the detected peaks and every line one of the atlas lines. The returned residuals are those of the returned coefficients on the returned pairs, capped at the inlier tolerance, the returned rms is their root mean square, and the peak and atlas utilisation are the number of matches over the number of peaks and of atlas lines. The calibrator's stored results are the returned ones.",
 ["inputs","configurations"],"all spectra (missing lines, spurious peaks, dense atlases), degrees, bases, sampling modes, tolerances and weights",
 "tests look at coefficients and utilisation of a handful of fits",
 [R+"calibrator.py"],[("fit, _solve_candidate_ransac, _match_bijective",R+"calibrator.py")],["return value of Calibrator.fit","Calibrator attributes afterwards"])
p("C10","A fit never returns a solution that violates the acceptance limits",
 "Whenever a fit returns, its solution has at least the requested minimum number of matches (limited to the number of peaks and atlas lines), uses at least the requested fraction of peaks, has an rms no smaller than the minimum fit error and no larger than the inlier tolerance, and matches more lines than the polynomial degree. If no solution satisfies the limits the fit raises an error rather than returning a stale or partial result, also when an earlier fit on the same calibrator succeeded. Limits outside their domain are rejected when set and do not change the configuration.",
 ["inputs","configurations","histories"],"all limit values, hard and unsatisfiable problems, sequences of fits on one calibrator",
 "tests set the limits to values every good fit satisfies",
 [R+"calibrator.py"],[("acceptance block of _solve_candidate_ransac; set_ransac_properties",R+"calibrator.py")],["return or exception of Calibrator.fit"])
p("C11","A well-posed arc is solved to the true dispersion",
 "For a spectrograph within the stated wavelength range, range tolerance and non-linearity, with identified peaks accurate to a fraction of the inlier tolerance and a majority of true lines in a sufficiently large atlas, the fit finds a strictly increasing solution whose predicted wavelength at every true peak is within the inlier tolerance of the truth and whose matches are overwhelmingly the true ones, in all sampling modes (random, brute force, weighted or not, constrained or not, with close-line filtering) and for every polynomial basis offered. The slope search window covers every straight dispersion whose ends lie within the range tolerance of the stated wavelengths at the first and last pixel.",
 ["inputs","configurations"],"families of synthetic spectrographs (range, dispersion, curvature, noise, spurious peaks, missing lines) and settings; decided on fixed seeds with a required success fraction",
 "tests solve two noise-free synthetic spectra and one real one with loose bounds",
 [R+"calibrator.py",R+"houghtransform.py",R+"models.py"],[("the whole pipeline: pairs, Hough transform, candidate selection, RANSAC, robust fit",R+"calibrator.py")],["return value of Calibrator.fit against the generating dispersion"])
p("C12","Fitting always terminates within the requested effort",
 "For every input, including unsolvable ones (unrelated atlas, contradictory known pairs, unsatisfiable acceptance limits, too few or duplicated lines), a fit finishes after an amount of work bounded by the requested number of tries (or the number of combinations when brute force is requested) and a fixed number of retries per try, and then returns or raises an error. It never fails with an error unrelated to the data merely because of where the peaks lie.",
 ["inputs","configurations"],"adversarial peak positions, atlases, known pairs and limits; work counted in executed loop iterations, not in seconds",
 "tests only run solvable problems; changelog issues 35 and 38 report fits that get stuck",
 [R+"calibrator.py"],[("sampling loop of _solve_candidate_ransac",R+"calibrator.py")],["executed backward jumps inside the package during Calibrator.fit (sys.monitoring)"])
p("C13","A seeded calibration is reproducible and leaves its inputs alone",
 "With the same seed, inputs and settings, two calibrations give bit-identical results, in the same process or in different ones, whatever was calibrated before and whatever the progress, logging and plotting settings are. Peaks and spectrum are copied on entry, so later changes by the caller do not affect the calibrator, and no configuration, fitting, matching, refitting, refining or conversion call modifies the arrays, lists or coefficients passed to it. Calibrators and atlases do not share state unless the user shares an atlas.",
 ["inputs","histories","configurations"],"repeated, interleaved and cross-process runs with different logging, hash seeds and prior work; every array argument of the public API fingerprinted",
 "tests never compare two runs nor look at their inputs afterwards",
 [R+"calibrator.py",R+"util.py",R+"models.py"],[("seed handling in set_calibrator_properties; deep copies in Calibrator.__init__ and manual_refit",R+"calibrator.py")],["returned results","argument fingerprints before and after each call"])
p("C14","Matching peaks to a given solution is correct in every mode",
 "Given a solution, matching returns equally long arrays of distinct detected peaks and distinct atlas lines in which each line lies within the tolerance of the solution at its peak (when no refinement is requested), however many lines lie near one peak, and every peak with an atlas line within tolerance that no other peak competes for is matched. With robust refit the returned coefficients are the robust polynomial fit of the requested degree to the returned pairs; with neither refinement nor refit the supplied coefficients are returned unchanged, and refinement alone changes only the requested number of lowest orders. The returned residuals (line minus solution), rms and utilisations are those of the returned coefficients and pairs and equal the stored ones.",
 ["inputs","configurations"],"sparse and dense atlases, tolerances from below to far above the line spacing, all mode combinations, given or stored coefficients",
 "tests call it with atlases so sparse that at most one line is ever near a peak, and never without robust refit",
 [R+"calibrator.py"],[("match_peaks, _adjust_polyfit",R+"calibrator.py")],["return value of Calibrator.match_peaks","Calibrator attributes afterwards"])
p("C15","Manual pair editing and refitting follow the edit history",
 "After any sequence of listing, adding and removing pixel-wavelength pairs on a fitted calibrator, the pairs are those of the last fit plus the added and minus the removed ones, peaks and lines staying aligned and added pairs being inserted in pixel order among sorted pairs, for pixels anywhere including below and above all existing ones; listing numbers them consecutively from 0 as removal expects. A manual refit returns the robust polynomial fit to exactly the current (or supplied) pairs with the requested degree, with residuals and rms of those, and stores what it returns.",
 ["histories","inputs"],"all interleavings of add, remove, list, refit with and without supplied pairs, degree and initial guess",
 "tests remove one pair and add one beyond the last, and do not look at where it went",
 [R+"calibrator.py",R+"models.py"],[("get_pix_wave_pairs, add_pix_wave_pair, remove_pix_wave_pair, manual_refit",R+"calibrator.py")],["get_pix_wave_pairs, matched_peaks, matched_atlas, return value of manual_refit"])
p("C16","Robust polynomial fitting is exact, optimal and order-correct",
 "Fitting points that lie on a polynomial of the requested degree returns that polynomial, lowest order first, for any well-conditioned x and y scale and offset, with or without an initial guess. For noisy data the returned polynomial minimises the Huber loss of the residuals measured in units of the standard deviation of y, so it is never beaten by the least-squares fit or by a perturbation, and the result does not depend on the order of the points. The fits in the Legendre and Chebyshev basis return the power series, lowest order first, of the least-squares polynomial of the requested degree. The polynomial model evaluates to the sum of coefficient times power with the highest order first, for scalars and arrays of any numeric type.",
 ["inputs"],"degrees 1 to 6, point counts, noise, outliers, scales, permutations, initial guesses",
 "tests reach it only through two calibrations",
 [R+"models.py"],[("robust_polyfit, polynomial, poly_cost_function, normalise_input",R+"models.py")],["return values of rascal.models functions"])
p("C17","Refined peaks are the true sub-pixel line centres",
 "For a spectrum of well separated Gaussian lines, refining approximate peak positions returns the true line centres to sub-pixel accuracy, whether estimates are integer or fractional, whether the line is near either end of the spectrum, whatever the amplitude scale and number type of the spectrum (integers, floats, lists), and independently of which other peaks are refined in the same call. Returned positions lie inside the spectrum and are distinct, at most one per estimate, in the order of the estimates, and neither the spectrum nor the estimates are modified.",
 ["inputs"],"line positions (including edges), widths, amplitudes, window widths, dtypes, missing (NaN) samples away from lines, estimate offsets",
 "tests run it on one real image without checking positions",
 [R+"util.py"],[("refine_peaks, gauss",R+"util.py")],["return value of rascal.util.refine_peaks"])
p("C18","Synthetic spectra invert their dispersion model",
 "For a monotonic polynomial dispersion given lowest order first, a synthetic spectrum returns exactly the wavelengths strictly inside its limits, in order, with pixels at which the polynomial takes those wavelengths, for every degree from linear up and whether the coefficients were given at construction or set later. The most recently set coefficients and limits always apply; limits passed as None are retained, and invalid types or a minimum not below the maximum are rejected without changing anything.",
 ["inputs","histories"],"monotonic polynomials of degree 1 to 5, all sequences of model and limit changes, wavelength lists and arrays",
 "tests count returned pixels but never evaluate the model at them",
 [R+"synthetic.py",R+"models.py"],[("SyntheticSpectrum.set_model, set_wavelength_limit, get_pixels",R+"synthetic.py")],["return value of get_pixels"])
p("C19","Plotting observes and never changes the calibration",
 "Every plotting call, with either library, linear or logarithmic, saved or displayed, leaves peaks, spectrum, atlas, pairs, matches, coefficients and all settings of the calibrator, the caller's arrays and the random state as they were. When saving is requested it writes exactly the requested image types that the library supports under the given name (or the default name), and no file when it is not; the figure is displayed when display is on and never when it is off.",
 ["inputs","configurations","histories"],"all plot functions, both libraries, all flags and file types, repeated and interleaved with fitting",
 "tests only check that some plot calls do not raise",
 [R+"plotting.py",R+"calibrator.py"],[("plot_arc, plot_fit, plot_search_space, plot_calibration_lines",R+"plotting.py")],["calibrator snapshot before and after","directory listing before and after"])
p("C20","Plots show the actual data and solution",
 "The plotted arc is the calibrator's spectrum divided by its maximum (or the logarithm of that) over the given pixels with all detected peaks marked; the fit plot shows the spectrum and the solution curve at the wavelengths the given coefficients predict for the pixel list, and the matched peaks (in plotly the peaks with an atlas line within the tolerance) with their residual from that line and its rms. The search-space plot shows, in both libraries, all pixel-wavelength pairs, the pairs supporting the Hough lines, for each peak the N best supported of them, and the solution if given. The calibration-line plot marks exactly the selected lines of each element at their wavelength and intensity, over a simulated arc that is the sum of a Gaussian (of standard deviation 2.5 times the pixel scale) for every line in the range.",
 ["inputs","configurations"],"all plots of random calibrations in both libraries, read back from the figure objects or the JSON",
 "tests never read anything back from a figure",
 [R+"plotting.py",R+"calibrator.py"],[("plot_arc, plot_fit, plot_search_space, plot_calibration_lines",R+"plotting.py"),("_merge_candidates",R+"calibrator.py")],["matplotlib figure artists","plotly JSON traces"])
p("C21","Known pairs are validated and anchor every trial fit",
 "Known pixel-wavelength pairs given as numbers, lists or arrays replace the earlier ones, and an unequal number of pixels and wavelengths or a missing value is rejected with an error and leaves the earlier pairs in force. During fitting every trial polynomial is fitted to its random sample together with all known pairs, so that consistent known pairs never prevent a well-posed arc from being solved, and pairs that contradict the data change or prevent the solution; they are never reported as matched peaks unless they are detected peaks.",
 ["inputs","histories"],"numbers of known pairs 0 to 4, inside and outside the detector, consistent and contradictory, re-set and cleared",
 "tests only check that the values are stored",
 [R+"calibrator.py"],[("set_known_pairs; known-pair insertion in _solve_candidate_ransac",R+"calibrator.py")],["Calibrator.pix_known/wave_known","arguments of the polynomial fits made by Calibrator.fit"])
p("C22","Settings are retained, defaulted and propagated consistently",
 "Every setting passed to the property setters (logging aside) is in force for the transforms and fits computed next and stays so until it is set again; a setting left out keeps its earlier value, or takes its default if it was never set. Derived quantities always follow the current settings whatever the order of calls: the pixel list has the current number of pixels unless one was supplied explicitly, the intercept limits are the minimum wavelength plus and minus the range tolerance, and the slope limits are the wavelength range minus and plus twice the sum of range and linearity tolerance, divided by the extent of the pixel list. The plotting library in force is the one chosen last.",
 ["histories","configurations"],"all sequences of the three property setters and library switches with random subsets of arguments",
 "tests set each property once before use",
 [R+"calibrator.py"],[("set_calibrator_properties, set_hough_properties, set_ransac_properties, use_matplotlib, use_plotly",R+"calibrator.py")],["Calibrator attributes after each call"])
p("C23","Candidates are the pairs near a Hough line, best-supported first",
 "After a fit with linear candidates there is one candidate set per Hough line, holding exactly the pairs whose wavelength is within the candidate tolerance of that line, each weighted by a Gaussian of its distance (1 on the line, with a standard deviation of 1.1775 times the sum of range and linearity tolerance). The pairs that enter sampling are, for each peak that has candidates, its N most supported atlas lines (all, if it has fewer than N), distinct, where support is the summed weight over Hough lines, or the number of lines when weighting is off. With a guessed polynomial instead, there is one shift of the guess per Hough line, spread over plus and minus the range tolerance, and each candidate set holds exactly the pairs within the candidate tolerance of the shifted guess, weighted by a Gaussian of their distance from it (its standard deviation being the range tolerance); empty sets are left out.",
 ["inputs","configurations"],"all pair sets, Hough lines, tolerances, N, weighted or not, integer and float wavelengths",
 "tests see only the final fit",
 [R+"calibrator.py"],[("_get_candidate_points_linear, _get_most_common_candidates",R+"calibrator.py")],["Calibrator.candidates, candidate_peak, candidate_arc after fit","search-space plot"])
p("C24","The best-scoring acceptable trial wins, and only without one a fit fails",
 "Each trial polynomial of a fit passes through a sample of distinct candidate peaks, each with one of its own candidate lines, no line twice (lines closer than three times the inlier tolerance to the next are left out if close lines are filtered); brute force tries every combination of candidate pairs once, and over many tries every candidate pair is drawn, peaks with a probability inverse to the number of peaks in their tenth of the range. A trial is scored on a one-to-one matching (each peak with its nearest candidate line, each line with its nearest peak): the sum of the errors, capped at the inlier tolerance, over the number of matches minus coefficients plus one, divided by the Hough weight times the Hough density along its tangents unless that weight is zero. Trials with the intercept outside its limits, not strictly increasing over the peaks' extent plus 20 per cent, or outside the acceptance limits, do not count. A fit returns the inliers of the lowest-scoring acceptable trial with the robust fit to them, or the initial guess unchanged if nothing scores better, and fails exactly if no trial was acceptable.",
 ["inputs","histories","configurations"],"all trials of random fits: samples, brute force, initial guesses, known pairs, acceptance limits, Hough weights, close-line filtering",
 "tests only see whether a clean arc is solved; the choice among trials is random and internal",
 [R+"calibrator.py"],[("_solve_candidate_ransac, get_cost, _match_bijective",R+"calibrator.py")],["arguments of numpy.polynomial's fits during fit()","result of Calibrator.fit"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
print(len(P))
for x in P:
    assert len(x['title'])<=80,(x['id'],len(x['title']))
