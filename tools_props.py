"""Writes /verif/properties.jsonl (run by hand after editing the list below)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": None}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})
O="src/pybsm/otf/functional.py";R="src/pybsm/radiance/functional.py";M="src/pybsm/metrics/functional.py";S="src/pybsm/simulation/functional.py"
G="src/pybsm/geospatial.py";N="src/pybsm/noise.py";U="src/pybsm/utils.py";SE="src/pybsm/simulation/sensor.py";SC="src/pybsm/simulation/scenario.py";RI="src/pybsm/simulation/ref_image.py"

p("C01","Model calls are pure functions of their arguments, in any order and any thread",
"Every computational function (OTF, radiance, metrics, noise, geospatial, atmosphere lookup, image conversion) returns the same values for the same argument values no matter which calls ran before it, in which thread it runs, or whether a caller later wrote into an earlier result or reused an argument array with new contents. No call changes its array, sensor or reference-image arguments, the process-wide random state, or process-wide settings such as numpy's floating-point error handling, the warning filters and the environment. The only documented exceptions are that image simulation draws from numpy's global random generator and that the NIIRS models overwrite the reflectance and temperature fields of the scenario they are given.",
["histories","schedules","inputs"],"all interleavings of public calls over shared and distinct arguments, single- and multi-threaded",
"Tests call each function once per process on fresh arrays; hidden state, aliasing and mutation only show across sequences and threads.",
[O,R,M,S,G,N,U,SC],[("functions compute from arguments only","whole package"),("copy of the caller's sensor for GIQE 5",M+":niirs5")],["public call boundary: argument bytes before/after, results, np.random state, np.geterr(), warning filters, environment","line events inside the package in worker threads (injected yields)"])

p("C02","Exact atmosphere lookup returns the right database record in SI units",
"For every altitude, ground range and haze mode that the atmosphere database documents, the exact lookup returns a 1371x6 table whose first column is the wavelength grid 0.30 to 14.00 um in 0.01 um steps (in metres) and whose other columns are exactly that condition's record, transmission unchanged and the four radiances converted from W/(sr cm^2 um) to W/(sr m^2 m). Any condition that is not in the database raises IndexError rather than returning another condition's data. The index of conditions to records agrees with the documented list of altitudes, ranges up to the horizon and haze modes.",
["inputs"],"all 3430 documented (altitude, ground range, haze) records and the undocumented conditions around them",
"The suite's database tests cannot even be collected here (their data are Git-LFS stubs), and upstream they sample a handful of records.",
[U,"src/pybsm/atms/fileDecoder.csv"],[("load_database_atmosphere_no_interp",U)],["return value of the exact lookup against an independently regenerated index"])

p("C03","Interpolated atmospheres are bilinear between the bracketing records",
"For altitudes from 2 m to 20 km and ground ranges from 0 to 300 km whose four bracketing records exist, the interpolated atmosphere is the bilinear combination, in altitude and ground range, of those records (equal to the exact record when a coordinate lies on the grid), on an unchanged wavelength grid. It varies continuously, stays between the smallest and largest bracketing value, and never mixes haze modes. Altitudes or ranges outside those limits raise IndexError.",
["inputs"],"all altitudes, ground ranges and haze modes in the documented domain, including every grid cell and both sides of every grid line",
"There are no collected tests for the interpolation; a wrong bracket or weight in one of the ~2500 cells needs that cell to be visited.",
[U],[("load_database_atmosphere",U)],["return value of the interpolating lookup"])

p("C04","A scenario's atmosphere always matches its current parameters",
"After any sequence of reads and assignments of a scenario's altitude, ground range and haze mode, its atmosphere equals what the atmosphere lookup (interpolating or exact, as the scenario was configured) gives for the values now assigned, and the parameters read back exactly as assigned. Assigning other scenario fields (speed, wind, turbulence, reflectances, temperatures, name) does not affect it. Different scenario objects never share or influence each other's atmosphere.",
["histories"],"all sequences of parameter assignments, atmosphere reads and failed lookups on one or several scenario objects",
"Staleness needs a read-change-read sequence per field; tests read a scenario's atmosphere at most once.",
[SC,U],[("cache cleared in the setters",SC)],["Scenario.atm after each step of a history"],[("cached atmosphere","table loaded for the parameters at load time",SC)])

p("C05","Viewing geometry is exact trigonometry on a spherical Earth",
"For heights and ranges from metres to thousands of kilometres, slant range, nadir angle and the height profile along the path are those of the triangle formed by target, sensor and the centre of a sphere of radius 6378.164 km, within the rounding that arithmetic on Earth-radius-sized squares allows. Feasible geometries never give nan, in particular when looking straight down, and the nadir angle recovered from a computed slant range is consistent with it. The path profile starts at the target height at distance 0, ends at the sensor height at the full slant range, and ground sample distance is range times angular pixel size.",
["inputs"],"all target/sensor heights and ground ranges up to orbit and horizon, vertical paths included",
"The geospatial tests need LFS data and are not collected; they use heights of 0 and 1 m only, while rounding failures depend on the particular altitude.",
[G],[("law of cosines helpers",G)],["return values of the geospatial functions"])

p("C06","Aperture OTF equals the autocorrelation of the (obscured) pupil",
"For any wavelength, aperture diameter and obscuration from 0 up to (but not including) 1, the circular-aperture OTF at every spatial frequency equals the normalised autocorrelation of the annular pupil: 1 at zero frequency, between 0 and 1 everywhere, zero beyond D/wavelength, continuous across every region boundary, and dependent only on the radial frequency. With zero obscuration it is the diffraction-limited OTF of a clear circle.",
["inputs"],"all frequencies (in particular on and next to region boundaries), wavelengths, diameters and obscurations",
"Tests check a few 1-2 element arrays, mostly eta of 0 or 1; boundary rounding depends on the exact frequency.",
[O],[("circular_aperture_OTF",O)],["return value"])

p("C07","Defocus OTFs match the defocused pupil and its Gaussian approximation",
"The OTF of a defocused clear aperture agrees with the autocorrelation of the quadratically aberrated pupil (within the truncation of its published series), is even in the sign of the defocus, is 1 at zero frequency, 0 beyond cutoff, and tends to the diffraction-limited OTF as defocus goes to 0. The Gaussian defocus OTF is exp(-(pi^2/4)(wx^2 u^2 + wy^2 v^2)), and the object-space and image-space blur radii are 0.62 D (1/R - 1/R0) and 0.62 D dz / f^2.",
["inputs"],"all frequencies, wavelengths, apertures, focal lengths and defocus distances",
"The defocus tests cover only zero defocus beyond the cutoff and empty arrays.",
[O],[("circular_aperture_OTF_with_defocus",O),("defocus_OTF, object_domain_defocus_radii, image_domain_defocus_radii",O)],["return values"])

p("C08","Wavefront-error and Gaussian-blur OTFs follow their published models",
"The random-wavefront OTF is exp(-pv(1 - exp(-wavelength^2((u/Lx)^2+(v/Ly)^2)))), so it is 1 at zero frequency and decays to exp(-pv); the empirical alternative is 1 - (w/0.18)^2 (1 - 4(rho/cutoff - 1/2)^2); the Gaussian-blur OTF is exp(-pi((bx u)^2+(by v)^2)). Each holds for every frequency array with the x parameters acting on u and the y parameters on v.",
["inputs"],"all frequency arrays and parameter values, x and y parameters different",
"Tests use one or two element arrays with equal x and y parameters, or only empty/nan cases.",
[O],[("wavefront_OTF, wavefront_OTF_2, gaussian_OTF",O)],["return values"])

p("C09","Focal-plane OTFs (detector, aggregation, CTE, TDI, diffusion) fit their models",
"The detector OTF is the transform of a w_x by w_y rectangle; aggregating n x n detectors multiplies it by the transform of n equally spaced samples per axis (n = 1 changes nothing); charge-transfer, TDI and carrier-diffusion OTFs equal the cited closed forms. Each is 1 at zero frequency, never exceeds 1 in magnitude, and each x (y) parameter acts only on u (v).",
["inputs"],"all frequency arrays, detector sizes, pitches, aggregation counts, stages, phases, efficiencies and diffusion lengths",
"Tests use empty arrays and unit parameters, so sums over detectors or stages and x/y mix-ups are unobservable.",
[O],[("detector_OTF, detector_OTF_with_aggregation, cte_OTF, tdi_OTF, diffusion_OTF",O),("dark_current_from_density",O)],["return values"])

p("C10","Motion OTFs: jitter is Gaussian and drift is a linear smear, per axis",
"The jitter OTF is exp(-2 pi^2 (sx^2 u^2 + sy^2 v^2)) and the drift OTF is sinc(ax u) sinc(ay v), for all frequency arrays and amplitudes. Both are 1 at zero frequency and identically 1 when the motion is zero; independent jitters add in variance (the product of two jitter OTFs is the jitter OTF of the root-sum-square), and x motion does not affect v.",
["inputs"],"all frequency arrays and motion amplitudes, x and y different",
"Tests check unit or empty inputs with equal axes.",
[O],[("jitter_OTF, drift_OTF",O)],["return values"])

p("C11","Turbulence model: profile, coherence diameter and exposure-weighted OTF",
"The refractive-index profile is Hufnagel-Valley, the spherical-wave coherence diameter is (0.423 k^2 integral cn2 (z/L)^(5/3) dz)^(-3/5) with z measured from the target, and it scales with wavelength as the 6/5 power. The turbulence OTF is the long/short exposure form weighted by exp(-speed*time/r0) on the short-exposure part, averaged over wavelength with the given weights along the curved-Earth path from ground to sensor. It is 1 at zero frequency, finite inside the aperture cutoff for every feasible geometry, and the band coherence diameter is the same weighted average.",
["inputs"],"all altitudes, ranges, wind speeds, cn2 values, wavelengths, weights, integration times and speeds",
"Tests use unit parameters and one- or two-element arrays; path direction and exposure weighting are invisible there.",
[O,G],[("hufnagel_valley_turbulence_profile, coherence_diameter, turbulence_OTF, wind_speed_turbulence_OTF, polychromatic_turbulence_OTF",O)],["return values"])

p("C12","Wavelength weighting is a normalised weighted average",
"Combining a wavelength-dependent quantity over a band gives the sum over wavelengths of weight times value divided by the sum of weights, each weight applied to its own wavelength. The result does not depend on the scale of the weights or on the order in which wavelength/weight pairs are listed, equals the value itself for a single wavelength, and zero-weight wavelengths do not contribute.",
["inputs"],"all lists of wavelengths (unsorted and with repetitions), weights (including zeros) and weighted functions of any shape",
"Tests use identity functions on two or three sorted wavelengths.",
[O],[("weighted_by_wavelength",O)],["return value and the calls made to the weighted function"])

p("C13","Sharpening kernels: transfer function and noise gain agree with the kernel",
"The OTF of an image-processing kernel is the magnitude of the kernel's discrete Fourier transform at the detector sampling, periodic with the sampling frequency, to within the resolution of its 100-point frequency grid, for kernels of any shape including single rows or columns. The noise gain is the root sum of squares of the kernel entries for every kernel that sums to one up to rounding, and kernels that do not sum to one are rejected with ValueError.",
["inputs"],"all kernels (square or not, odd or even, symmetric or not), frequencies inside and beyond Nyquist, pixel sizes",
"Tests use 1x1 and 1x2 kernels and hand-picked sums; orientation, periodicity and rounding of normalised kernels are not sampled.",
[O,N],[("filter_OTF",O),("noise_gain",N)],["return values"])

p("C14","The system OTF is the product of exactly the configured degradations",
"For any sensor and scenario, the combined OTF equals the pointwise product of aperture, turbulence, detector, jitter, drift, wavefront and filter terms, each computed from the sensor and scenario's own parameters: motion terms over the integration time times TDI stages, wavefront variance rescaled by (reference wavelength / wavelength)^2, wavelength-dependent terms averaged over the band. Turbulence is absent exactly when ground-level cn2 is zero, and filtering exactly when the kernel is a single element. The result is 1 at zero frequency (up to the filter's frequency resolution) and its individual terms are reported alongside.",
["inputs","configurations"],"all sensors (non-square pixels, obscured, TDI, filtered), scenarios, bands and frequency grids",
"Tests compare one unit-valued sensor at one or two frequencies where nearly every term is 0 or 1.",
[O],[("common_OTFs",O)],["fields of the returned OTF object"])

p("C15","OTF to PSF conversion yields the centred, unit-sum inverse transform",
"The blur kernel computed from an OTF is its inverse Fourier transform resampled to the requested angular spacing, sums to 1, and is centred in its array (point-symmetric for a real symmetric OTF) for odd- and even-sized OTFs and for any spacing, also when the kernel is smaller than the default crop window. The crop keeps at least 95% of the kernel's energy whenever the OTF array is large enough to allow it, and a broader OTF never yields a wider kernel.",
["inputs"],"all OTF sizes, frequency spacings and output spacings",
"Tests transform constant OTFs of size 10 to 100, for which centring, tapering and cropping errors are invisible.",
[O],[("otf_to_psf",O)],["returned kernel"])

p("C16","Applying an OTF blurs without moving, brightening or rescaling the scene",
"Applying an OTF to an image convolves it with the OTF's blur kernel at the reference sampling and resamples it from reference to camera pixel spacing: the output has round(size x spacing ratio) pixels per axis (rows and columns handled separately), a uniform image stays uniform at the same level, scene positions stay where they were to within a pixel, and mean brightness is kept. The operation is linear in the image. An all-pass OTF leaves the image unchanged up to the resampling.",
["inputs"],"all image shapes (non-square), contents, ranges, sample spacings and OTFs",
"Tests check output shapes and error cases on tiny constant arrays.",
[O],[("apply_otf_to_image, resample_2D",O)],["returned image and kernel"])

p("C17","OTF slices follow the requested direction at any angle",
"A slice of a two-dimensional OTF at angle a is the OTF sampled at points (r cos a, r sin a) from the centre outwards with the array's own frequency spacing and bilinear interpolation, with columns increasing along u and rows decreasing along v. Its first sample is always the zero-frequency value, angles that differ by a full turn agree, and for a point-symmetric OTF opposite angles agree.",
["inputs"],"all angles in all four quadrants and all square OTF arrays",
"Tests take one sample of a 2x2 array.",
[O],[("slice_otf",O)],["returned slice"])

p("C18","Thermal emission and focal-plane irradiance obey radiometry",
"Blackbody radiance is Planck's law for every wavelength and temperature (increasing in temperature, peaking per Wien's law). Irradiance at the focal plane is radiance times pi/(1+4(f/D)^2), linear in radiance; optics and cold-stop emission fill exactly that cone with their emissivity and transmission factors, and the cold shield fills the rest, so the two solid angles always add to pi and an isothermal black enclosure gives pi times the blackbody radiance.",
["inputs"],"all wavelengths, temperatures, emissivities, transmissions, apertures and focal lengths",
"The radiance tests need LFS data and are not collected here; upstream they compare a few snapshots.",
[R],[("blackbody_radiance, at_focal_plane_irradiance, cold_shield_self_emission, cold_stop_self_emission, optics_self_emission, focal_plane_integrated_irradiance",R)],["return values"])

p("C19","Photons are converted to electrons with correct bookkeeping and band limits",
"The photoelectron rate is the wavelength integral (trapezoidal, on the given grid) of irradiance x detector area x quantum efficiency x wavelength/(hc), plus dark current once; irradiance is transmission times the focal-plane irradiance of the scene plus the other irradiance untransmitted. The reported spectral irradiance and spectral rate are those same integrands. Optical transmission and quantum efficiency are linearly interpolated in wavelength and are zero outside the wavelengths given for them.",
["inputs"],"all spectra, wavelength grids, detector sizes, transmissions and efficiencies",
"Not collected by the suite here; unit-valued upstream snapshots cannot see which factor multiplies which term.",
[R],[("photon_detection_rate, signal_rate, resample_by_wavelength",R)],["return values"])

p("C20","SNR budget: well limit, noise terms and contrast are mutually consistent",
"For any sensor and pair of target and background radiances, electrons are rate x integration time x TDI stages, the integration time is shortened exactly enough that the brighter of the two reaches the allowed well fill (and is untouched otherwise), contrast is target minus background, and SNR is contrast over total noise. Total noise is the root sum of squares of photon noise of the brighter, quantisation noise well/(sqrt(12)(2^bits - 1)), read noise and every other noise entry, and the dark-current and self-emission parts are computed with the shortened time. Bright-scene clipping therefore never reports a well fraction above the allowed fill.",
["inputs","configurations"],"all sensors (TDI, obscured, noisy, small wells) and radiance pairs, target brighter or darker than background",
"Not collected by the suite here; saturation, TDI and other-noise paths each need particular sensors.",
[R,N],[("photon_detector_SNR, check_well_fill",R),("quantization_noise",N)],["fields of the returned SNR object"])

p("C21","Reflectance to photoelectrons is the affine, well-limited in-band response",
"The mapping covers 100 reflectances from 0 to 1 and gives for each the electrons from scene radiance at that reflectance and the requested target temperature, self emission and dark current over the integration time and TDI stages, using only the atmosphere inside the sensor's band. It is affine in reflectance and never exceeds the well capacity; if the brightest value would, the whole curve is scaled so that it just fits. The spectral weights list the in-band wavelengths with relative contribution at full reflectance, largest equal to 1.",
["inputs","configurations"],"all sensors, bands, atmospheres, integration times and target temperatures",
"Not collected by the suite here; target temperature and saturation need non-default values to matter.",
[R],[("reflectance_to_photoelectrons",R)],["return values"])

p("C22","Scene radiance adds path, reflected and emitted parts with the right weights",
"Total apparent radiance of an object is path thermal plus path scattered radiance plus (1 - reflectance) x blackbody(temperature) x transmission plus ground-reflected radiance scaled by reflectance/0.15, for every atmosphere. The GIQE target and background are reflectances 0.15 and 0.07 in reflective bands and 282 K and 280 K blackbodies (reflectance 0) in emissive bands, at 282 K and 280 K.",
["inputs"],"all atmosphere tables, reflectances and temperatures",
"Not collected by the suite here.",
[R],[("total_radiance, giqe_radiance",R)],["return values"])

p("C23","NIIRS equations GIQE 3, 4 and 5 are the published ones",
"The three image-quality equations evaluate the published formulas with ground sample distance converted to inches: GIQE 3, GIQE 4 with its two coefficient sets switching at RER 0.9 and ground-plane projection 1/sqrt(sin elevation), and GIQE 5 with its directional RER combination and fourth-root elevation weighting. Rating never decreases when ground sample distance shrinks, when SNR grows (for combined edge responses up to 1.8, beyond which GIQE 5 itself turns), or (GIQE 3 and 4) when noise gain or overshoot falls; the returned projected GSD and combined RER are the ones used.",
["inputs"],"all edge responses, GSDs, overshoots, gains, SNRs and elevations",
"No collected test evaluates the equations at all.",
[M],[("giqe3, giqe4, giqe5",M)],["return values"])

p("C24","Edge-response metrics are consistent functionals of the MTF slice",
"Edge response at x pixels is 1/2 plus (1/pi) times the integral of MTF(w) sin(2 pi w x ifov)/w over the slice's frequencies; relative edge response is its difference between +1/2 and -1/2 pixel; overshoot is its value at 1.25 pixels for an edge rising from 1 to 3 pixels and otherwise its maximum over quarter-pixel steps there. Geometric-mean RER and overshoot use the u slice with the x pixel and the v slice with the y pixel, and GIQE 5 reports the two directions separately. Ground resolved distance is the larger of two pixels and the period at which the MTF falls to 3/SNR.",
["inputs"],"all MTF slices and arrays (anisotropic), frequency spacings, pixel sizes and SNRs",
"No collected test calls these functions with a non-degenerate MTF.",
[M,O],[("edge_response, relative_edge_response, edge_height_overshoot, giqe_edge_terms, giqe5_RER, ground_resolved_distance",M)],["return values"])

p("C25","NIIRS predictions follow consistently from sensor, scenario and atmosphere",
"For any sensor and scenario the GIQE 3/4 and GIQE 5 models report intermediates and ratings that all follow from the sensor, scenario and in-band atmosphere by the documented component models: curved-Earth slant range, GIQE radiances, single-frame SNR, band weights, system OTF out to the aperture cutoff, pixel and ground sample distances, edge terms, noise gain, and SNR improved by the square root of stacked frames. Scene, path, self-emission and dark-current variances add up to the total photon variance. Sharpening affects GIQE 3/4 but never GIQE 5, the caller's sensor is left unchanged, and the scenario's reflectances or temperatures are set to the standard values actually used (0.15/0.07, or zero reflectance at 282/280 K for emissive bands).",
["inputs","configurations","histories"],"all sensors, scenarios (interpolated or exact), reflective and emissive bands, and repeated evaluations of the same objects",
"End-to-end NIIRS needs the atmosphere database, which the suite cannot read here; upstream it tests one sensor.",
[M],[("niirs, niirs5",M)],["fields of the returned Metrics object; sensor and scenario before/after"])

p("C26","Image simulation is the radiometric chain reflectance-electrons-blur-noise",
"For any reference image, sensor and scenario, the simulated true image maps each pixel's count through the image's reflectance calibration and the reflectance-to-photoelectron curve of that sensor and scenario; the blurred image is the true image blurred by the system OTF at slant range sqrt(altitude^2 + ground range^2) and resampled to the camera's mean pixel angle; all three images are finite and non-empty, the last two of equal shape. Uniform scenes stay uniform. Later simulations reflect every change made to the sensor, scenario or reference image since the previous one.",
["inputs","configurations","histories"],"all reference images (any count range, calibration, non-square), sensors (sharpening, obscuration, motion, TDI), scenarios, and sequences of simulations with changes between them",
"Simulation needs the atmosphere database, which the suite cannot read here; upstream it runs one tank image.",
[S,R,O],[("simulate_image",S)],["the three returned images"])

p("C27","Simulated noise has the modelled statistics and is reproducible by seed",
"The noisy image is the blurred image plus Poisson photon noise and zero-mean Gaussian noise whose variance is read-noise variance plus quantisation-noise variance: across pixels its mean equals the blurred image and its variance equals blurred level plus that sum, independently from pixel to pixel. Seeding numpy's generator makes the noisy image reproducible bit for bit, different seeds give different noise, and the true and blurred images do not depend on the seed.",
["inputs","histories"],"all signal levels, read noises, bit depths, wells and seeds",
"Statistics need thousands of pixels at controlled levels; no collected test runs the simulation.",
[S,N],[("simulate_image",S),("quantization_noise",N)],["noisy minus blurred image"])

p("C28","Image value conversions are monotone, bounded and correctly calibrated",
"Counts map to reflectance by piecewise-linear interpolation through the given calibration points (in any order), extrapolated with the end slopes and clipped to 0..1, for images of any shape and numeric type, leaving the input image unchanged. Contrast stretching maps the chosen lower and upper percentiles to 0 and 255, clips outside, preserves order and shape and returns 8-bit values. Wiener restoration is conj(H)/(|H|^2 + noise-to-signal), and angular pixel size is detector size over focal length.",
["inputs"],"all images, dtypes, calibration tables, percentiles, OTFs and noise ratios",
"The simulation tests are mostly uncollectable here and check 1-2 element arrays.",
[S],[("img_to_reflectance, stretch_contrast_convert_8bit, wiener_filter, instantaneous_FOV",S)],["return values"])

p("C29","Reference-image baseline sensor reproduces the image without degradation",
"The capture parameters estimated for a reference image form a sensor whose pixel footprint at the returned altitude equals the image's sampling distance, looking straight down with no turbulence or motion, and whose diffraction cutoff lies beyond the image's Nyquist frequency. Simulating the image with them keeps its shape and, apart from noise and the edges, its content up to calibration. Without calibration points the 0.2 and 99.8 percentiles are assigned reflectances 0.05 and 0.95; calibration counts without reflectances are rejected with ValueError.",
["inputs","configurations"],"all reference images, sampling distances and altitudes",
"The reference-image tests need an LFS image; the end-to-end baseline is never run.",
[RI,S],[("RefImage, estimate_capture_parameters",RI)],["returned sensor and scenario, simulated images"])

p("C30","Sensor and scenario objects carry their parameters with documented defaults",
"Every constructor argument of a sensor or scenario, given by keyword or in documented order, is stored under its own name and read back unchanged. Omitted pitch and detector sizes default to square pixels with full fill in x and the same fill factor in y; correlation lengths default to the aperture diameter, transmission and quantum efficiency to unity over the given band. Apart from arrays the caller passed in, objects never share mutable state: changing one sensor's or scenario's attributes or arrays leaves every other existing or future object unaffected.",
["inputs","configurations","histories"],"all argument combinations and sequences of constructing and modifying objects",
"Tests set one attribute at a time on unit-valued sensors and never look at a second object.",
[SE,SC],[("Sensor.__init__",SE),("Scenario.__init__",SC)],["attributes of constructed objects"])

p("C31","Everything but image resampling works without OpenCV",
"In an environment where OpenCV cannot be imported, the package imports and every function except the ones that resample images (resampling, OTF-to-kernel conversion, applying an OTF, simulating images) gives the same results as with OpenCV. Those functions raise ImportError with an installation hint and leave their arguments unchanged.",
["configurations","inputs"],"both environments (OpenCV importable or not) and all functions",
"The test suite runs in one environment and mocks one flag for one function.",
[O,S],[("guarded cv2 import and is_usable flag",O)],["results in a process where importing cv2 fails"])

p("C32","Plots complete for any result and show its data",
"Plotting the MTF components or noise terms of any NIIRS result completes without error; the MTF plot shows each of the eight component slices along the requested direction against image-plane frequency in cycles/mm with matching legend entries and marks the Nyquist frequency; the noise plot's bars are the result's total, scene, path, emission, dark-current, quantisation and read noise under those labels. Showing a reference image draws it with physical extents of size times sampling distance centred on zero. The plotted result objects are not changed.",
["inputs","configurations"],"all NIIRS results, slice angles, axis limits and reference images",
"No collected test plots anything.",
[M,RI],[("plot_common_MTFs, plot_noise_terms",M),("RefImage.show",RI)],["matplotlib artists after the call"])

p("C33","Worse conditions never predict a better image",
"With everything else fixed, increasing jitter, drift rate, wavefront variance, turbulence strength or detector size never increases the magnitude of the corresponding OTF component at frequencies inside the aperture cutoff and the first zero of any sinc term, and never increases relative edge response for unsharpened systems whose optical cutoff does not exceed the sampling frequency. Increasing read noise, other noise, dark current or self-emission never increases the magnitude of SNR. For such systems with a target brighter than the background, jitter, wavefront error, turbulence and added read or other noise never increase the GIQE 5 rating, read and other noise never increase the GIQE 3 and 4 ratings, and stacking more frames lowers none of them.",
["inputs","configurations"],"all pairs of sensors/scenarios ordered in one degradation parameter",
"Monotonicity relates pairs of runs over whole parameter ranges; tests compare single outputs to constants.",
[O,R,M],[("component OTFs, SNR and NIIRS models",O+", "+R+", "+M)],["pairs of results"])

p("C34","Documented errors and warnings come exactly when documented",
"Functions that document an error for a degenerate argument raise it whatever their other arguments: ZeroDivisionError for a zero (as a Python number) aperture, wavelength, slant range, focal length, coherence diameter, frequency step, sample spacing or reference range; IndexError for a transfer function, image or atmosphere table without its second dimension, and for wavelength and weight lists that are empty or of different lengths (several wavelengths); ValueError for an empty turbulence path, empty calibration points and spectra whose values and wavelengths differ in number. The refused call changes neither its arguments nor later results. Radiometric functions given an empty spectrum return an empty result (a photoelectron rate of just the dark current) with a UserWarning saying so, also when only one of several one-element spectra is empty, and no function warns about empty inputs that it was not given.",
["inputs"],"all other arguments of each function with a documented degenerate argument",
"The tests try one argument set per documented error, and those of the radiance and geospatial modules cannot run without the database; the guarantee is for every combination of the remaining arguments.",
[O,R,G,S],[("functions with documented errors",O+", "+R+", "+G)],["calls"])

p("C35","Copied and pickled model objects behave like the originals",
"A sensor, scenario, reference image or result object (OTF, SNR and NIIRS metrics) can be copied, deep-copied and pickled under any protocol at any point of its life, such as after a scenario's atmosphere was read or its parameters reassigned. The copy has every public attribute unchanged and gives the same predictions as the original, in this process and in another one; making or using the copy leaves the original as it was. Later changes to a deep or unpickled copy never reach the original, nor the reverse, and assigning attributes of a shallow copy does not affect the original.",
["inputs","histories","configurations"],"all sensors, scenarios, reference images and results, ways of copying and histories before the copy",
"No test copies, pickles or sends an object to another process, as every parallel parameter sweep does.",
[SE,SC,RI,M,"src/pybsm/metrics/metrics.py","src/pybsm/otf/otf.py","src/pybsm/radiance/snr_metrics.py"],[("Sensor, Scenario (with its cached atmosphere), RefImage, OTF, SNRMetrics, Metrics",SE+", "+SC+", "+RI)],["attributes and predictions of copies"])

p("C36","The package leaves the world outside its calls alone",
"Importing the package and its modules, in any order and under any interpreter optimisation level, succeeds, offers the same public names (every public function and class of the otf, radiance, metrics and simulation modules also from its package), prints nothing and changes no process-wide state beyond filters for numpy's numerical messages. No call writes, renames or removes files (apart from temporary files it has removed again), uses the network, starts processes, prints to standard output, changes the working directory or environment, or leaves threads or open files behind; the only data files it reads are the package's own, whatever the current directory holds. Results and documented errors are the same in any such interpreter.",
["configurations","inputs","histories"],"all import orders, interpreter flags, current directories and calls",
"Tests import everything in one order in one interpreter and look at return values only.",
["src/pybsm/__init__.py",O,R,M,S,U],[("module imports","package __init__ files"),("database file access",U)],["audit events, descriptors, threads and output around calls and imports"])

p("C37","Values at a point do not depend on which other points are evaluated",
"Every function evaluated over arrays of spatial frequencies, wavelengths, altitudes, pixels or atmosphere rows acts point by point: the value at a point is the same (to floating-point rounding) when it is evaluated alone, in any subset, order or array shape, or among any number of other or repeated points. This covers every transfer function in the otf module with its u and v arrays, every term of the system OTF, the turbulence profile, blackbody and self-emission spectra, irradiance and photon-rate spectra, resampling onto new wavelengths, scene radiance per table row, calibration of pixels to reflectance and the Wiener filter. The result has one value per point.",
["inputs","configurations"],"all sets, orders, shapes and numbers of evaluation points of each function",
"Tests evaluate each function on one small array; that size, order or company of points does not matter is a relation over all arrays.",
[O,R,S],[("transfer functions and common_OTFs",O),("spectral functions",R),("img_to_reflectance, wiener_filter",S)],["values at points alone and among others"])

p("C38","Results do not depend on the choice of units",
"Formulas are dimensionally consistent over many orders of magnitude. Transfer functions depend only on frequency times angle: multiplying the frequencies and dividing the angular sizes by the same factor, or multiplying all lengths (wavelength, aperture, focal length, pixel pitch, correlation length, coherence diameter, diffusion length) leaves them unchanged (the whole-path turbulence model, with its built-in heights, is not meant); so do edge response, overshoot and relative edge response (frequencies of at least tens of cycles per radian), and PSFs. Coherence diameter scales with length and with turbulence strength to the power -3/5; blackbody radiance at wavelength/k and temperature*k scales with k^5; irradiance, photon rate, signal rate, dark current, quantization noise, defocus radii, resolved distance and sample distance scale linearly in the quantities they are proportional to and do not change when compensating quantities change together; well fill depends only on the ratio; wavelength weights and spectra can be in any unit; GIQE ratings change by the published multiple of the logarithm of the sample distance.",
["inputs","configurations"],"all parameter values and unit changes",
"A unit test fixes one set of magnitudes; an absolute threshold, a unit slip or a saturated term only shows when the same case is posed at other magnitudes.",
[O,R,M,N,G,S],[("transfer functions, PSF, coherence diameter",O),("radiometric functions",R),("edge metrics and GIQE",M)],["pairs of results for rescaled arguments"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
