#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (kept as data here so that it stays readable)."""
import json, os, sys
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

M, IO, C = "src/conviqt_math.cpp", "src/conviqt_io.cpp", "src/cconviqt.cpp"
L = "levels/cxxsupport/"; H = "levels/Healpix_cxx/"; U = "levels/c_utils/"; F = "levels/libfftpack/"

p("C01", "Convolved signal equals the beam-sky overlap integral (temperature)",
  "For an unpolarised convolution the signal returned for a pointing (phi, theta, psi) is the overlap of the sky with the beam rotated to that pointing: the sum over l up to the convolver's lmax, all sky m and beam m up to the convolver's beam mmax of s_lm * conj(b_lm') * exp(i m phi) * d^l_mm'(theta) * exp(i m' (psi+pi)). "
  "It is reproduced to floating-point accuracy for pointings that fall on the interpolation grid (phi = pi/2 + j*2pi/(2 lmax+1), theta a multiple of pi/(lmax+1), any psi), and elsewhere within the error bound of polynomial interpolation of the requested order. "
  "This holds for every lmax >= 1, beam mmax, order, angle (poles, equator, both hemispheres, any phi or psi inside or outside 0..2pi) and any number of samples.",
  ["inputs", "configurations"],
  "every band-limited sky and beam, every lmax / beam mmax / interpolation order, every pointing in the domain",
  "The tests compare ten pointings on one 32-multipole sky and one beam against recorded values at a loose tolerance; they never evaluate the defining sum, other orders, other lmax, the poles or the southern hemisphere in isolation.",
  [M, L + "wigner.cc", F + "ls_fft.c"],
  [("data cube from Wigner d-functions", M + ": conviqt_hemiscm"), ("FFT over sky m per ring", M + ": todAnnulus"),
   ("theta/phi Lagrange interpolation", M + ": conviqt_tod_loop, weight_ncm"), ("ring indexing and hemispheres", M + ": itheta0SetUp, beta_to_itheta")],
  observe=["convolver::convolve, signal column of the pointing array"])

p("C02", "Polarised convolution is the sum of the T, G and C overlaps",
  "With polarisation enabled the signal is the sum of the overlap integrals of the T, G and C expansions of sky and beam (each as in the unpolarised case), to the same accuracy, for all angles, orders and band limits. "
  "With zero G and C on either side it equals the unpolarised result.",
  ["inputs", "configurations"],
  "every polarised sky and beam, lmax, beam mmax, order and pointing",
  "The tests use one polarised sky and one beam file at a handful of pointings with recorded values; a wrong sign or a missing cross term that is small there passes.",
  [M], [("polarised data cube", M + ": conviqt_hemiscm_pol"), ("polarised/unpolarised dispatch", M + ": interpolTOD")],
  observe=["convolver::convolve"])

p("C03", "Results do not depend on the process count, data distribution or threads",
  "Convolving a set of pointings gives the same signal for each pointing (to rounding) whatever the number of MPI processes, however the samples are divided among them (including processes with no samples at all, one process with all of them, and samples concentrated in a few latitudes) and however many OpenMP threads run. "
  "The collective call returns on every process of the communicator and leaves every process with exactly the samples it brought.",
  ["schedules", "inputs", "configurations"],
  "every split of every sample set over 1..N ranks and threads",
  "The MPI tests run one evenly split pointing set on 2 and 4 ranks; empty ranks, skewed latitude distributions and sub-communicators never occur.",
  [M, L + "mpi_support.cc", L + "ls_mpi_support.h"],
  [("latitude load balancing", M + ": distribute_colatitudes"), ("sample redistribution", M + ": fillingBetaSeg, todRedistribution5cm, convolve"),
   ("ring ownership and data cube exchange", M + ": get_latitude_tables, alltoall_datacube"), ("collectives", L + "mpi_support.cc")],
  observe=["convolver::convolve on every rank"])

p("C04", "Samples are independent; pointing and order are preserved",
  "A convolve call leaves longitude, colatitude and position angle of every row bit-for-bit unchanged and in the original order, keeps the number of rows, and writes each row's signal into that row. "
  "A row's signal depends only on that row's three angles: permuting, duplicating, splitting or extending the set of rows, or what the signal and time columns held before, does not change it beyond rounding.",
  ["inputs"],
  "every array of rows, every permutation, subset and split, every previous content of the output columns",
  "The tests use a dozen rows once each in one order and never compare the angle columns or a reordered run.",
  [M, "src/conviqt_util.cpp"],
  [("latitude sort and un-sort", M + ": convolve, todgen, arrFillingcm"), ("heap sorts", "src/conviqt_util.cpp: hpsort_*"), ("ring ranges per sample", M + ": itheta0SetUp")],
  observe=["pointing array before and after convolve"])

p("C05", "Convolution is bilinear and respects the rotation symmetries of the sphere",
  "The signal is linear in the sky and in the beam; rotating the sky about the pole by a whole number of grid steps and shifting phi alike, shifting phi or psi by whole turns, rotating the beam about its axis and shifting psi alike, and mirroring sky, beam and pointing through the equator leave it unchanged to rounding. "
  "These hold at full bandwidth for arbitrary (off-grid) pointings and any interpolation order, for polarised and unpolarised runs.",
  ["inputs", "configurations"],
  "every sky, beam, scale factor, rotation and pointing",
  "No test relates two runs to each other; recorded values at a few pointings cannot see an asymmetry between hemispheres, longitudes or orders.",
  [M], [("hemisphere folding", M + ": conviqt_hemiscm(_pol), arrFillingcm"), ("phi wrap-around", M + ": conviqt_tod_loop")],
  observe=["convolver::convolve"])

p("C06", "Calibration and beam normalisation follow their definition",
  "With calibration requested and a beam that has not been normalised, every signal is multiplied by exactly 2/(1+epsilon) of the current detector; with calibration off, or a normalised beam, no factor is applied. "
  "Normalising scales all beam components by 1/(2 sqrt(pi) b_00) so that the intensity beam integrates to one, returns that factor, marks the beam normalised, is a no-op returning 1 on a normalised beam, and reading new coefficients makes the beam un-normalised again.",
  ["inputs", "histories"],
  "every beam, epsilon, calibrate flag and every order of read / normalise / convolve / set detector",
  "The tests normalise at most once and convolve with one epsilon; repeated and re-read histories never occur.",
  [M, "src/conviqt.hpp", IO],
  [("calibration factor", M + ": convolve"), ("normalisation", M + ": beam::normalize"), ("normalised flag", "src/conviqt.hpp: beam")],
  state=[("normalized_", "beam has unit integral", "src/conviqt.hpp")],
  observe=["convolver::convolve, beam::normalize, beam::normalized"])

p("C07", "A convolver keeps no hidden state between calls",
  "Any history of convolve calls (with different sample sets, including empty ones), sky / beam / detector replacement by objects with the same expansion orders, in-place modification of coefficients, and re-reading gives for each call the same result as a freshly built convolver on the current objects. "
  "Objects not passed to a call are not modified by it.",
  ["histories"],
  "every sequence of operations on sky, beam, detector, pointing and convolver objects",
  "Each test builds its objects once and convolves once or twice with the same inputs.",
  [M, IO], [("cached interpolation weights", M + ": weight_ncm_initialize"), ("object replacement", M + ": set_sky, set_beam, set_detector")],
  state=[("base_wgt", "cached Lagrange denominators", "src/conviqt.hpp")],
  observe=["convolver::convolve sequences"])

p("C08", "Reading a beam or sky delivers the file's coefficients on every process",
  "After reading, the reported lmax and mmax are the requested ones (or the file's own when not requested; mmax is limited to lmax, and a sky always has mmax = lmax), and on every process each T (and, if polarised, G and C) coefficient within them equals the file's value, with zero where the file has none. "
  "Requests beyond the file's expansion orders are refused on every process; polarised components of an unpolarised object are refused.",
  ["inputs", "configurations"],
  "every coefficient file (sparse or dense, any row order, with or without order keywords), every requested lmax / mmax and polarisation flag, every rank count",
  "The tests read two bundled files with one setting of the orders and look only at the convolved output.",
  [IO, H + "alm_fitsio.cc", H + "ls_alm.h"],
  [("beam read and broadcast", IO + ": beam::read"), ("sky read and broadcast", IO + ": sky::read"), ("table parsing", H + "alm_fitsio.cc: read_Alm_from_fits, get_almsize")],
  observe=["beam/sky read, get_lmax, get_mmax, coefficient accessors"])

p("C09", "Sky conditioning touches exactly the coefficients it should",
  "Reading a sky with deconvolution width w arcmin multiplies T coefficients by exp(l(l+1) sigma^2/2) and G and C additionally by the spin-2 factor exp(-2 sigma^2), sigma = w/sqrt(8 ln 2); w = 0 leaves the values bit-identical. "
  "Removing the monopole zeroes only T at l=0, removing the dipole only T at l=1, for every lmax and on every process.",
  ["inputs", "histories"],
  "every sky, width, lmax and order of the conditioning calls",
  "The tests read with one width and never inspect the coefficients.",
  [IO, M, H + "alm_powspec_tools.cc"],
  [("deconvolution", H + "alm_powspec_tools.cc: smoothWithGauss"), ("monopole and dipole removal", M + ": remove_monopole, remove_dipole")],
  observe=["sky coefficient accessors"])

p("C10", "The C interface does what the C++ interface does and never throws",
  "Every sequence of C-interface calls yields bit-identical coefficients, flags, values and convolved samples to the corresponding C++ calls, with data pointers aliasing the object's own storage. "
  "Failures (files that are missing, expansion orders that are too high, illegal angles, polarised components of unpolarised objects) come back as the documented error value (-1 or NULL) without an exception leaving the interface, and the objects stay usable. "
  "The same holds when memory runs out during a call (outside its parallel regions), and a repeated call then succeeds.",
  ["histories", "inputs", "fault_sequences"],
  "every call sequence with valid and failing arguments",
  "The C test walks one successful path; no error path is executed.",
  [C, "src/cconviqt.h"], [("exception containment", C + ": all functions")],
  observe=["conviqt_* functions"])

p("C11", "The Python wrapper mirrors the library",
  "Through the Python classes, reading, normalising, conditioning and convolving give the same numbers as the C interface: array shapes and dtypes match the orders, data set into a pointing comes back unchanged from it, output columns are those of the library, and failed library calls raise a Python exception. "
  "This holds for any array size, layout or type accepted by the setter and for any order of object creation and deletion.",
  ["inputs", "histories"],
  "every array and call sequence through the wrapper",
  "The Python test runs one script at import time with fixed inputs and compares nothing but a few values.",
  ["python/libconviqt_wrapper/__init__.py"],
  [("ctypes signatures and array views", "python/libconviqt_wrapper/__init__.py")],
  observe=["libconviqt_wrapper.Beam/Sky/Detector/Pointing/Convolver"])

p("C12", "Illegal input is refused cleanly on every process",
  "A colatitude outside 0..pi or not a number, an expansion order (or polarisation) above what sky or beam provide, also when one of them was replaced or read again after the convolver was built, and a coefficient file that is missing or malformed make the call fail with an exception on the processes concerned and never with a crash, out-of-bounds access or hang, in any process count. "
  "Everything inside the documented domain, including the exact end points 0, pi/2 and pi, is accepted.",
  ["inputs", "fault_sequences"],
  "every illegal or boundary angle, order, replaced object and file, at every position and on every rank",
  "No test passes an illegal argument.",
  [M, IO], [("angle check", M + ": convolve"), ("order checks", M + ": convolver ctor; " + IO + ": read")],
  observe=["exceptions from read, convolver, convolve"])

p("C13", "The convolution pipeline is free of memory errors and undefined behaviour",
  "For every valid combination of sky, beam, lmax, beam mmax, order, process count and pointing set, reading, conditioning and convolving perform no out-of-bounds access, use of uninitialised or freed memory, signed overflow or other undefined behaviour. "
  "In particular this covers interpolation orders comparable to or larger than the band limit, beams with more azimuthal orders than the convolver's lmax, and processes without samples.",
  ["inputs", "configurations"],
  "every valid configuration and input",
  "The tests are built without sanitizers and use one mid-sized configuration.",
  [M, IO, L + "wigner.cc", L + "ls_arr.h"], [("index arithmetic", M), ("array classes", L + "ls_arr.h")],
  observe=["AddressSanitizer / UndefinedBehaviorSanitizer reports"])

p("L01", "Wigner d-function generator agrees with the definition for all orders",
  "For every l, m, m' with |m|,|m'| <= l <= lmax and every angle (any sign, multiples of pi, beyond 2pi) the generator's value equals the Wigner d-function to near machine precision, and every element it leaves out because it reports a later first l is below the accuracy given at construction. "
  "This holds in any order of (m, m') preparation, and the paired (two-angle) evaluation gives the same as two single ones.",
  ["inputs", "histories"],
  "every lmax, (m, m') sequence, set of angles and accuracy threshold",
  "No existing test evaluates a d-function.",
  [L + "wigner.cc", L + "ls_wigner.h"],
  [("l-recursion with scaling", L + "wigner.cc: wignergen_scalar::calc"), ("incremental preparation", L + "wigner.cc: wignergen_scalar::prepare"), ("SSE pair", L + "wigner.cc: wignergen::calc")],
  observe=["wignergen prepare/calc"])

p("L02", "The recursive Wigner matrices agree with the definition",
  "Each successive matrix delivered by the four Risbo recursions (scalar and threaded, at pi/2 and at an arbitrary angle) contains the Wigner d-matrix of that l to near machine precision, for any thread count.",
  ["inputs", "schedules"],
  "every lmax, angle and thread count",
  "No existing test evaluates them.",
  [L + "wigner.cc"], [("Risbo recursion", L + "wigner.cc: wigner_d_*risbo*::recurse")], observe=["recurse()"])

p("L03", "The FFTs compute the discrete Fourier transform for every length",
  "For every length n >= 1 (products of small primes, large primes, and all in between) forward and backward complex transforms equal the discrete Fourier sum with the documented sign, without normalisation, to O(eps log n); the real transforms deliver the same spectrum in their documented packings and invert each other. "
  "Plans are reusable, copyable and independent of one another.",
  ["inputs", "histories"],
  "every length, data vector, packing format and sequence of plan operations",
  "The existing test only checks that backward(forward(x)) = n x, which any pair of mutually inverse transforms satisfies.",
  [F + "fftpack.c", F + "fftpack_inc.c", F + "bluestein.c", F + "ls_fft.c", L + "ls_fftpack_support.h"],
  [("mixed radix passes", F + "fftpack_inc.c"), ("chirp-z for awkward lengths", F + "bluestein.c"), ("plan selection and packings", F + "ls_fft.c")],
  observe=["cfft, rfft, complex_plan_*, real_plan_*"])

p("L04", "Coefficient files round-trip",
  "Writing a set of spherical-harmonic coefficients to FITS (plain or compressed) and reading it back gives the same values to the stored precision, zero beyond the stored orders, and the stored lmax and mmax; reading with smaller orders gives the truncation, with larger ones zero padding. "
  "It holds for single and double precision, any lmax and mmax, empty and sparse sets, and the polarised three-table layout.",
  ["inputs"],
  "every coefficient set, order pair and column type",
  "The tests only read two existing files.",
  [H + "alm_fitsio.cc", H + "ls_alm_fitsio.h", L + "fitshandle.cc"],
  [("writers", H + "alm_fitsio.cc: write_Alm_to_fits, write_compressed_Alm_to_fits"), ("readers", H + "alm_fitsio.cc: read_Alm_from_fits, get_almsize")],
  observe=["read/write functions"])

p("L05", "FITS tables, images and header keys read back as written",
  "Any sequence of creating tables and images, writing columns (whole or in pieces at any offset), images and header keys of any supported type through the FITS layer yields, on reading back in the same session or after reopening, exactly the values written (converted as FITS types allow), the declared column names, units, types and sizes, and the number of rows and extensions. "
  "Access out of range or to absent items, writing to a file opened for reading, and data that do not fit on the disk are refused with an exception that leaves the handle usable.",
  ["histories", "inputs"],
  "every sequence of write and read operations and all data types",
  "No test writes a FITS file.",
  [L + "fitshandle.cc", L + "ls_fitshandle.h"],
  [("column access", L + "fitshandle.cc: read_col, write_col"), ("images", L + "fitshandle.cc: insert_image, read_image, read_subimage"), ("keys", L + "fitshandle.cc: set_key, get_key")],
  observe=["fitshandle members"])

p("L06", "Rotating harmonic coefficients rotates the function",
  "Rotating coefficients by Euler angles or a rotation matrix represents the same function on the rotated sphere: its value at the rotated direction equals the original's value at the direction, components G and C transform alike, per-l power is preserved, rotating back restores the coefficients, and successive rotations compose like the matrices.",
  ["inputs"],
  "every coefficient set with equal lmax and mmax, every rotation",
  "No test rotates coefficients.",
  [H + "alm_powspec_tools.cc", L + "rotmatrix.cc"], [("rotation by d-matrices", H + "alm_powspec_tools.cc: rotate_alm")], observe=["rotate_alm"])

p("L07", "Power spectra, smoothing and Gaussian realisations match their definition",
  "Auto and cross power spectra equal the mean of the coefficient products over all m (negative ones by symmetry); Gaussian smoothing multiplies by exp(-l(l+1) sigma^2/2) (with the spin-2 correction for G and C) and smoothing by the negative width undoes it; scaling and adding act on every coefficient. "
  "Realisations drawn from a spectrum are reproducible for a seed, vanish where the spectrum does, have real m=0 terms and scatter with the requested auto and cross variances.",
  ["inputs"],
  "every coefficient set, spectrum, width and seed",
  "No test calls these functions except smoothing with one width.",
  [H + "alm_powspec_tools.cc", H + "powspec.cc", H + "ls_alm.h"],
  [("estimators", H + "alm_powspec_tools.cc: extract_powspec, extract_crosspowspec"), ("smoothing", H + "alm_powspec_tools.cc: smoothWithGauss"), ("realisations", H + "alm_powspec_tools.cc: create_alm, create_alm_pol"), ("spectrum container", H + "powspec.cc")],
  observe=["the named functions"])

p("L08", "Rotation matrices obey the algebra of rotations",
  "Matrices made from Euler angles, axis and angle, or axis triples are proper rotations equal to the product of the elementary rotations they name; extraction of axis-angle or Euler angles followed by construction restores the matrix; products act as composition and the transpose as inverse, for all angles including multiples of pi. Matrices, vectors and complex numbers written to a stream give their elements in order.",
  ["inputs"],
  "every angle, axis and sequence of compositions",
  "No test uses the rotation classes.",
  [L + "rotmatrix.cc", L + "ls_rotmatrix.h", L + "ls_vec3.h"],
  [("constructors and extraction", L + "rotmatrix.cc"), ("vector algebra", L + "ls_vec3.h")], observe=["rotmatrix, vec3"])

p("L09", "Wigner 3j symbols agree with the definition for all valid arguments",
  "For every integer l2, l3, m2, m3 with |m2| <= l2, |m3| <= l3 the delivered sequence of 3j symbols over the allowed l1 equals the exact values to near machine precision in sign and magnitude, and satisfies the orthogonality sum.",
  ["inputs"],
  "every argument tuple",
  "No test calls the 3j routine.",
  [U + "wrec3a.c"], [("three-term recursion from both ends", U + "wrec3a.c: wrec3jj")], observe=["wrec3jj"])

p("L10", "The SVD solver solves linear systems and least squares",
  "For every m x n matrix (m >= n, including rank-deficient ones) the decomposition reproduces the matrix with orthonormal factors and non-negative singular values above the cut-off, and the solution satisfies the normal equations with minimal norm.",
  ["inputs"],
  "every matrix, right-hand side and cut-off",
  "No test calls the SVD.",
  [U + "svd_c.c"], [("Householder reduction and QR", U + "svd_c.c: svd_init"), ("back-substitution", U + "svd_c.c: svd_solve")], observe=["svd_init, svd_solve"])

p("L11", "Values survive conversion to text and back; text parsing follows its rules",
  "Converting any boolean, integer of 16 to 64 bits or finite floating-point number to text and back gives the same value (text is preserved up to surrounding blanks), trimming, tokenising, case folding and padding follow their documented rules, and malformed or unrepresentable text is refused with an exception rather than misread. "
  "Parameter files and command lines yield exactly the assigned value of each key, ignoring comments and white space.",
  ["inputs"],
  "every value of every supported type and every text",
  "No test uses the conversion or parser code.",
  [L + "string_utils.cc", L + "ls_string_utils.h"],
  [("conversions", L + "string_utils.cc: dataToString, stringToData"), ("tokenising and files", L + "string_utils.cc: parse_file, split, tokenize")],
  observe=["the named functions"])

p("L12", "Date conversion is a bijection",
  "Converting any date and time, before or after 1958, to seconds since the start of 1958 agrees with the Gregorian calendar, and converting back restores date and time; fields beyond their range carry over as in calendar arithmetic. The result does not depend on the time zone of the environment, which is left as it was.",
  ["inputs"],
  "every date, time and second count in range",
  "No test calls the date conversion.",
  [U + "time_utils.c"], [("calendar arithmetic", U + "time_utils.c")], observe=["dateandtime2planck, planck2dateandtime"])

p("L13", "Array containers behave like their models; sorts sort",
  "Under any sequence of allocation, resizing, filling, copying, swapping, transferring and sorting, the one-, two- and three-dimensional arrays hold exactly the elements a plain model holds and never touch memory outside their own; copies are independent. "
  "The sorting routines return a permutation of their input rows in non-decreasing key order, with companion columns carried along.",
  ["histories", "inputs"],
  "every sequence of container operations; every input to the sorts including ties, empty and single-row ones",
  "The tests allocate one array; sorting is only exercised indirectly on a dozen rows.",
  [L + "ls_arr.h", L + "ls_alloc_utils.h", "src/conviqt_util.cpp"],
  [("containers", L + "ls_arr.h"), ("heap sorts", "src/conviqt_util.cpp: hpsort_*")], observe=["arr, arr2, arr3, hpsort_*"])

p("L14", "Work partitioning and small numerical helpers are exact",
  "Shares of an index range over any number of workers are contiguous, disjoint, cover the range and differ by at most one, and chunk iteration covers every element once; modulo, integer square root, nearest-integer, binary search, interpolation-index and sign helpers return the mathematically defined result over their whole domain, including extremes. "
  "Checked numeric conversions return the same value or refuse.",
  ["inputs"],
  "every range, worker count and argument",
  "No test calls these helpers directly.",
  [L + "ls_share_utils.h", L + "ls_math_utils.h", L + "ls_safe_cast.h"],
  [("shares and chunks", L + "ls_share_utils.h"), ("numerical helpers", L + "ls_math_utils.h"), ("checked casts", L + "ls_safe_cast.h")], observe=["the named helpers"])

p("L15", "The random generator is reproducible and uniform",
  "For any seed the integers are the published xorshift128 sequence (a zero seed word standing for its documented default), uniform variates lie in the documented interval and pass distribution tests, integers fill their range, Gaussian variates have zero mean and unit variance, two generators with the same seed give the same stream whatever was drawn before seeding, and a copy of a generator continues the stream exactly.",
  ["inputs", "histories"],
  "every seed and every interleaving of draw kinds",
  "No test uses the generator.",
  [L + "ls_rng.h"], [("xorshift generator", L + "ls_rng.h")], observe=["planck_rng"])

p("L16", "Collective communication delivers what a serial reference computes",
  "For every element type, count (including zero), root and reduction, the broadcast, gather, reduce, exchange and send/receive operations leave each process with exactly the data a serial model of the same operation predicts, on any communicator size.",
  ["inputs", "schedules"],
  "every operation, type, size, root and rank count",
  "Only the few operations on the convolution path run, with one data shape.",
  [L + "mpi_support.cc", L + "ls_mpi_support.h"], [("MPI wrappers", L + "mpi_support.cc")], observe=["MPI_Manager members"])

p("L17", "Coefficient sets address each coefficient once; complex arithmetic is exact",
  "After any history of resizing, filling, scaling (overall, per l, per m), adding, swapping and copying, a coefficient set has exactly one place for each (l, m) with m <= mmax and l >= m, index(), mstart() and operator() agree on it, and its contents are those of a plain map; a refused operation leaves the set as it was. "
  "Complex numbers add, multiply, divide, rotate, conjugate and convert as the mathematical operations do, to rounding.",
  ["inputs", "histories"],
  "every lmax <= 46339 (int indices) and mmax, every sequence of operations, both precisions, every finite operand",
  "The tests only read and write full sets of one size.",
  [H + "ls_alm.h", L + "ls_xcomplex.h"], [("triangular storage", H + "ls_alm.h: Alm_Base, Alm"), ("complex numbers", L + "ls_xcomplex.h")], observe=["Alm, xcomplex"])

p("L18", "Packed arithmetic is element-wise scalar arithmetic",
  "Every operation of the packed float, double and int types (arithmetic, comparison, selection, bit operations, shifts, conversions, loads and stores at any address) gives in each element the result of the scalar operation on that element, for every bit pattern, and touches no other memory. "
  "any, all and none of a mask are true exactly when some, every or no element of it is set.",
  ["inputs"],
  "every operation and every pair of operand vectors, including not-a-numbers, infinities, denormals and extremes of int",
  "The tests exercise a handful of the operations, through the Wigner recursion, with ordinary numbers.",
  [L + "ls_sse_utils_cxx.h", U + "sse_utils.h"], [("packed types", L + "ls_sse_utils_cxx.h: V4sf, V4si, V2df"), ("C helpers", U + "sse_utils.h")], observe=["members of V4sf, V4si, V2df; v2df helpers"])

p("L19", "Repeating work does not accumulate memory or open files",
  "After the objects of a piece of work have been destroyed, by the C++, C or support interfaces and whether the calls succeeded or were refused, all memory and file handles taken for it have been given back: repeating the same work any number of times leaves the number and size of live allocations and the number of open files unchanged. "
  "This holds on every process of a parallel convolution.",
  ["histories", "inputs"],
  "every history of successful and failing calls, repeated any number of times, on one or several processes",
  "The tests do everything once and exit.",
  [M, IO, C, L + "fitshandle.cc", L + "wigner.cc", F + "ls_fft.c", U + "c_utils.c"],
  [("ownership in the C interface", C), ("plan and table lifetime", F + "ls_fft.c, bluestein.c"), ("file handles and refused reads", L + "fitshandle.cc, " + IO), ("work arrays of a convolution", M)],
  observe=["live allocations and /proc/self/fd"])

p("L20", "C memory helpers and process reports do what callers rely on",
  "Any history of allocations, resizings, growths and frees through the C helpers gives aligned, disjoint blocks of at least the size asked for whose contents survive until they are freed, and empty ones are NULL; a failing assertion, start-up check or impossible allocation ends the process with an error that names the place and message. "
  "The reported resident size and high-water mark are those of the process, the clock advances with real time, and threads share any range completely, without overlap and evenly.",
  ["histories", "inputs"],
  "every history of allocations of any size, every message, every range and thread count",
  "No test calls these helpers directly.",
  [U + "c_utils.c", U + "c_utils.h", U + "memusage.c", U + "walltime_c.c", L + "ls_openmp_support.h"],
  [("allocation helpers and reports", U + "c_utils.c"), ("process memory", U + "memusage.c"), ("clock", U + "walltime_c.c"), ("thread shares", L + "ls_openmp_support.h: openmp_calc_share")],
  observe=["the helpers' results; exit status and output of a child process"])

p("L21", "Data types are named, sized and refused consistently; errors are reported",
  "Every data type constant, name and C++ type map to each other one to one and to the right size, and any other name or constant is refused with an exception. "
  "Errors carry the message given, loud ones report message and place on standard error once raised, quiet ones and satisfied assertions report nothing.",
  ["inputs"],
  "every type, every name and constant, every message and way of raising an error",
  "The tests never name a type or look at an error's message.",
  [L + "ls_datatypes.h", L + "ls_error_handling.h", L + "error_handling.cc"],
  [("type tables", L + "ls_datatypes.h"), ("errors", L + "error_handling.cc")], observe=["type2size, type2string, string2type, ndt2size, LEVELSError"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
for r in P:
    assert len(r["title"]) <= 80, (r["id"], len(r["title"]))
    import re
    n = len(re.findall(r"[.](?: |$)", r["statement"]))
    assert n <= 3, (r["id"], n)
with open(out, "w") as f:
    for r in P: f.write(json.dumps(r) + "\n")
print(len(P), "properties")
