"""Rewrites the generated part of DESIGN.md: per-property monitors and the table of planted bugs."""
import json
import os
import re

HERE = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(x) for x in open(os.path.join(HERE, "properties.jsonl"))]
srcs = "".join(open(os.path.join(HERE, "checks", f)).read() for f in sorted(os.listdir(os.path.join(HERE, "checks"))) if f.endswith(".py"))
HOW = {
    "C01": "Histories: random sequences over the whole public API (vlib/battery.py, 52 functions) with arguments reused, perturbed in one field, written over in place, results scribbled on; 8 threads running mixed calls on shared arguments with a 10 us switch interval; 4 threads running one function on near-variants with time.sleep injected by a trace hook at lines inside the package. Oracle: a freshly forked interpreter that has made no call evaluates the same arguments (vlib/pristine.py). A profile hook re-reads the caller's objects *during* calls, so a change that is undone before returning is seen too. numpy error state, random states, warning filters, print options, cwd and environment are compared around every call. Tests call each function a handful of times in a fixed order and never concurrently.",
    "C02": "All 3430 documented conditions are looked up (every one, on every quick run) over an overlay of 3430 unmistakable synthetic records; the index of conditions is recomputed from the documented altitude/range/haze lists. Undocumented requests of 12 kinds (near misses, negative, fractional haze, nan, swapped, beyond the horizon) must raise IndexError. Also one call per floating/integer type. The tests cannot read a single record in this checkout (LFS stubs).",
    "C03": "Reference bilinear combination of the four bracketing synthetic records; requests at nodes, one ulp and 1e-9 off nodes, cell centres, limits and outside; continuity between neighbouring requests and range monitors.",
    "C04": "Random histories of reads/assignments (twins of equal and different lookup kind, copies, interleaved objects, tiny moves, assignment before first read, wrong assignment followed by repair) against a sequential model: last assigned values -> expected record.",
    "C05": "Reference geometry in 50-digit decimal/longdouble arithmetic; tolerance is the conditioning of the law of cosines in double (ref.slant_tol), not a guess. Heights/ranges log-uniform from metres to thousands of km, straight down, far side, target above sensor, paths dipping below the target.",
    "C06": "Reference: autocorrelation of the annulus from lens areas of circle pairs (independent of the IBSM formula). Frequencies concentrated at and one ulp around all four region boundaries; eta 0, 1e-6..0.999999; integer, float32-free scalar/0-3-D/non-contiguous arrays. First-difference continuity monitor across boundaries.",
    "C07": "Reference: numerical quadrature of the pupil autocorrelation with quadratic phase; tolerance from the neglected Bessel terms. Sign symmetry, limits, zero frequency on and off axes; closed forms for Gaussian and radii.",
    "C08": "Closed forms recomputed per element in other arithmetic; axes distinguished by unequal parameters; pv from 1e-12 to 30.",
    "C09": "Explicit sums (aggregation: sum of shifted phasors; TDI: complex sum; CTE, diffusion from the cited forms), axis separation, unit DC, magnitude <= 1; integer frequencies of all widths; thick and zero absorption layers.",
    "C10": "Closed forms plus the metamorphic laws (variance addition, axis separation, zero motion), amplitudes 1e-12..1e2 relative to the pixel, integer arrays of all widths.",
    "C11": "Reference profile, independent trapezoid coherence integral, per-wavelength exposure-weighted OTF averaged with the weights along the reference curved path; scaling law 6/5; still platforms, high winds, long exposures, slant ranges to the horizon.",
    "C12": "Explicit sum; random permutations, scalings, zero weights, single entries, nearly equal wavelengths, equal weights, array- and scalar-valued functions.",
    "C13": "Explicit DFT of the kernel at detector sampling, compared within the variation of the DFT over one cell of the documented 100-point grid; periodicity; kernels: sharpening, blur, box, shifts, single rows/columns, 1..130 taps. noise_gain vs root sum of squares and rejection of non-unit sums.",
    "C14": "Every reported term vs the reference term built from the sensor/scenario fields; product; presence/absence of turbulence and filter; sensors with every optional effect on/off; one-wavelength to full bands.",
    "C15": "Reference: explicit inverse DFT, area of support, own resampling options; point symmetry, unit sum, energy kept, ordering of widths; odd/even/rectangular OTFs, tiny crops.",
    "C16": "Reference convolution + resampling (all admissible border conventions), linearity, uniformity, position of blobs, sizes per axis, integer images, kernels larger than the image.",
    "C17": "Reference bilinear sampling of the polar points, arbitrary angles incl. many turns and all quadrants, rectangular and asymmetric arrays.",
    "C18": "Planck in longdouble/expm1 form, Wien peak, monotonicity in T, cavity law (cone + shield = pi), wavelengths 0.1..100 um, 3..6000 K, f-numbers 0.3..100.",
    "C19": "Explicit trapezoid and interpolation sums on irregular grids; linearity, dark current counted once, response outside its grid is zero; integrands reported.",
    "C20": "Reference SNR budget for random sensors/radiances around the well limit; each reported field; never above the allowed fill.",
    "C21": "Reference 100-point curve; affine monitor; well monitor; target temperature by position/keyword/default; dim and bright scenes; band edges on grid nodes.",
    "C22": "Reference sum of the five contributions on synthetic and hostile atmospheres (opaque, zero, mirror), GIQE constants.",
    "C23": "Published equations in scalar arithmetic; RER just below/at/above 0.9; orderings in GSD, SNR, gain, overshoot; SNR 0.05..1e5.",
    "C24": "Independent trapezoid edge integral, overshoot rule on both sides of monotonic, geometric means with unequal pixels, GRD by inverse interpolation.",
    "C25": "Every intermediate of niirs/niirs5 audited against the reference chain for random sensors/scenarios in six band kinds; then a chain in which each of ~40 fields is changed in turn and audited again (catches remembered results whatever field they forget).",
    "C26": "True image, system OTF (random subset of the 1501x1501 grid) and blurred image audited against the reference chain; uniform scenes; re-simulation after changes, and a chain changing each of ~44 fields (sensor, scenario, image, calibration, in-place array writes) one after the other.",
    "C27": "Statistics of the noisy image over >5000 pixels with bounds at >= 6 standard errors: mean, variance, level dependence, skewness, neighbour correlation, chi-square of counts, whole electrons without Gaussian noise; seeds: bit-for-bit repetition, other seeds differ, no seed dependence of the other images. 0.3..1e10 electrons.",
    "C28": "Piecewise-linear calibration recomputed (any order, many points, extrapolation, clip), stretch percentiles, order and shape, Wiener closed form; all numeric dtypes, 1-4-D images.",
    "C29": "Geometry of the estimated parameters, documented defaults, and end-to-end baseline simulation on the overlay.",
    "C30": "Every constructor argument by keyword and by documented position with distinct values; defaults; pairs of objects for shared mutable state.",
    "C31": "Two sub-processes, one whose import of cv2 fails (absent, broken or blocked), run the same calls; results compared, ImportError + hint for the image functions, arguments untouched.",
    "C32": "Figures are drawn (Agg) and read back: lines matched to legend entries by style, bars to tick labels by position, extents; random results, angles, figure sizes and fonts.",
    "C33": "Ordered pairs of systems differing in one degradation; component magnitudes inside cutoff/first zero, RER, SNR, NIIRS.",
    "C34": "The documented error class per degenerate argument; warnings recorded during every call of the battery. (Not claimed: the documented IndexError of common_OTFs for empty frequencies, which returns empty components instead, and a single wavelength with several weights, which the test suite expects to return.)",
    "C35": "Objects with a random past are copied (copy, deepcopy, every pickle protocol); every public attribute and the result of a call on the copy, on the original and in another process are compared; then copy and original are changed in turn, arrays in place, and the other one is observed.",
    "C36": "Sub-processes import the modules in random orders under -O, -OO, -bb, -X utf8 and random hash seeds with process state recorded before and after, and evaluate calls whose results are compared with this process's; in this process every function runs under an audit hook (files, network, processes) in a directory of decoy files, with stdout captured at descriptor level and descriptors and threads counted. scipy's own temporary files are tolerated once removed; the documented oversampling log message of simulate_image is not counted as output.",
    "C37": "Random calls of 30 functions; the same points are then evaluated alone, in subsets, permuted and reshaped, and repeated among up to 200000 others; every value must come out the same (1e-9 relative).",
    "C38": "Pairs of calls whose arguments differ by a change of units (powers of two and of ten, random factors from 1e-6 to 1e6) and whose results must differ by the known power of the factor; one monitor per law. filter_OTF uses factors of two only (its triangulated look-up may pick the other diagonal of a cell otherwise).",
}
out = ["## Per property", ""]
for p in props:
    i = p["id"]
    body = srcs[srcs.index("def %s(" % i):]
    req = re.search(r"ctx\.required = \[(.*?)\]", body, re.S)
    rule = re.search(r'ctx\.rule = "(.*?)"', body)
    names = re.findall(r'"([^"]+)"', req.group(1)) if req else []
    mod = [f for f in sorted(os.listdir(os.path.join(HERE, "checks"))) if f.endswith(".py") and "def %s(" % i in open(os.path.join(HERE, "checks", f)).read()][0]
    out += ["### %s %s" % (i, p["title"]), "", HOW[i], "", "Code: `checks/%s`. Counted: %s. Monitors that must observe something: %s." % (mod, rule.group(1) if rule else "", ", ".join(names)), ""]
res = {}
t = os.path.join(HERE, "seeded_results.txt")
for line in open(t) if os.path.exists(t) else []:
    w = line.split(" ", 3)
    if len(w) >= 3 and w[2].startswith("rc="):
        res[w[0]] = "%s: %s" % (w[1], {"rc=1": "caught", "rc=0": "missed"}.get(w[2].strip(), w[2].strip())) + (" (" + w[3].split(":")[0].strip()[:60] + ")" if len(w) > 3 and w[2] == "rc=1" else "")
out += ["## Planted bugs and the checks that catch them", "", "Quick tier, seed 1. In brackets the monitor that fired first.", "", "| bug | what it breaks | result |", "|---|---|---|"]
for b in sorted(os.listdir(os.path.join(HERE, "seeded"))):
    m = json.load(open(os.path.join(HERE, "seeded", b, "meta.json")))
    out.append("| %s | %s | %s |" % (b, m["what_it_breaks"].replace("|", "/"), res.get(b, "not run yet")))
f = os.path.join(HERE, "DESIGN.md")
s = open(f).read()
mark = "<!-- generated by tools_design.py -->"
s = s.split(mark)[0].rstrip() + "\n\n" + mark + "\n\n" + "\n".join(out) + "\n"
open(f, "w").write(s)
