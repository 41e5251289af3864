"""Which harness properties decide which listed property, and how many cases each tier runs.

job(bin, props, quick, thorough, np=1, variant="opt", shards=.., omp=..):
  quick / thorough are case counts per shard and per property group.
"""
def job(bin, props, quick, thorough, np=0, variant="opt", shards=4, omp=1, watchdog=120, big=False, crash_only=False):
    return dict(bin=bin, props=props, quick=quick, thorough=thorough, np=np, variant=variant,
                shards=shards, omp=omp, watchdog=watchdog, big=big, crash_only=crash_only)

CHECKS = {}
# np = 0: plain process without MPI; np >= 1: started by mpirun with that many ranks

CHECKS["C01"] = dict(
    tech='overlap sum vs. an independent long-double model',
    note='Every sample of every generated run is compared with the defining sum evaluated independently in long double, on the interpolation grid to ~1e-10 and off it within the analytic Lagrange error bound. The recorded known finding (elements dropped near the poles) is modelled term by term, so only that exact loss is excused.',
    rule="A case is a generated sky, beam, expansion orders, interpolation order and set of pointings; non-trivial: the overlap sum is non-zero and at least one sample is compared with a tolerance below 1e-3 of the sum of absolute terms (on the interpolation grid, or off it with content far below the band limit). Distinct by the vector of generator choices.",
    jobs=[job("conv_core", ["overlap_T"], 12000, 90000, np=1, shards=6, omp=1),
          job("conv_core", ["overlap_T_high"], 200, 1200, np=1, shards=2, omp=2)],
)
CHECKS["C02"] = dict(
    tech='polarised overlap sum vs. an independent long-double model',
    note='As C01 with T, G and C components; the known finding is modelled term by term.',
    rule="As C01 with three components on either side, some of them zero.",
    jobs=[job("conv_core", ["overlap_TGC"], 12000, 90000, np=1, shards=6, omp=1),
          job("conv_core", ["overlap_TGC_high"], 200, 1200, np=1, shards=2, omp=2)],
)
CHECKS["C04"] = dict(
    tech='metamorphic relations between arrangements of the rows',
    note='Angles compared bitwise, signals of rearranged, duplicated, extended and split row sets compared with the first run.',
    rule="A case is a generated set-up and set of rows, convolved, then convolved again in another arrangement (permuted, subset, duplicated, extended, singly) with arbitrary contents of the output columns; non-trivial: at least two rows and a non-zero signal.",
    jobs=[job("conv_rel", ["rows"], 9000, 90000, np=1, shards=7)],
)
CHECKS["C05"] = dict(
    tech='metamorphic relations (linearity, rotations, mirror)',
    note='Seven algebraic relations between convolutions of generated inputs at full bandwidth, off the grid, to rounding.',
    rule="A case is a generated set-up, set of rows and one of seven relations between two or three convolutions; non-trivial: the signal is not identically zero.",
    jobs=[job("conv_rel", ["symmetry"], 14000, 120000, np=1, shards=7)],
)
CHECKS["C06"] = dict(
    tech='stateful histories against a model of calibration and normalisation',
    note="Histories of read, normalise, set epsilon / detector and convolve against a three-variable model and the file's coefficients.",
    rule="A case is a history of normalize / re-read / set epsilon / set detector / convolve operations on generated beams; non-trivial: at least four operations including a normalisation and a convolution.",
    jobs=[job("conv_rel", ["calibration"], 14000, 150000, np=1, shards=7)],
)
CHECKS["C07"] = dict(
    tech='stateful histories against fresh objects',
    note='Histories of convolve calls, replacements, modifications and re-reads, each compared with a freshly built convolver.',
    rule="A case is a history of convolve calls and object replacements / modifications, each convolve compared with a fresh convolver; non-trivial: at least two convolve calls and a non-zero signal.",
    jobs=[job("conv_rel", ["histories"], 9000, 90000, np=1, shards=7)],
)

CHECKS["C03"] = dict(
    tech="generated row partitions over sub-communicators against a one-process reference",
    note="Rows are distributed over 1-4 processes in generated ways (empty, overloaded, skewed processes), with 1-3 threads each and both halves of a split communicator running at once; every row is compared with the same row convolved alone on MPI_COMM_SELF.",
    rule="A case is a generated set-up and one to three convolve calls with rows distributed over a generated group of processes; non-trivial: more than one process, more than one row, non-zero signal.",
    jobs=[job("conv_mpi", ["distribution"], 4000, 60000, np=4, shards=2, watchdog=60), job("conv_mpi", ["distribution"], 2000, 30000, np=3, shards=1, watchdog=60),
          job("conv_mpi", ["distribution"], 400, 8000, np=7, shards=1, watchdog=60)],
)
CHECKS["C12"] = dict(
    tech="generated illegal and boundary inputs on 1-4 processes with a hang watchdog",
    note="Injects illegal or boundary angles at generated rows of generated processes, too high orders and broken files; demands an exception on the processes concerned, no hang (60 s per case of milliseconds), and that the objects work afterwards.",
    rule="A case is a set-up on a generated group of processes with illegal or boundary angles, orders, or a broken file; non-trivial: something illegal or a boundary value was passed.",
    jobs=[job("conv_mpi", ["angles", "orders", "files", "replaced"], 6000, 40000, np=4, shards=1, watchdog=60), job("conv_mpi", ["angles", "orders", "files", "replaced"], 6000, 40000, np=1, shards=1, watchdog=60)],
)

CHECKS["C08"] = dict(
    tech="generated coefficient files against the values written",
    note="Files of every layout (sparse, shuffled, extra columns, with or without order keywords, tables of different orders, single or double) written with cfitsio; orders and every coefficient compared bitwise on each of 1-3 processes after histories of accepted and refused reads.",
    rule="A case is two generated coefficient files and a history of reads with generated orders; non-trivial: at least one accepted read and a file of more than two rows.",
    jobs=[job("conv_io", ["beam_read", "sky_read"], 10000, 60000, np=3, shards=1, watchdog=60), job("conv_io", ["beam_read", "sky_read"], 18000, 90000, np=1, shards=2, watchdog=60)],
)
CHECKS["C09"] = dict(
    tech="histories of sky reads, deconvolution and removals against closed formulas",
    note="Every coefficient on every process is compared after every step of a history with file value times the analytic factor (bitwise for width 0).",
    rule="A case is a history of reads with generated widths and of monopole / dipole removals; non-trivial: at least one accepted read and one conditioning step.",
    jobs=[job("conv_io", ["conditioning"], 8000, 120000, np=3, shards=1, watchdog=60), job("conv_io", ["conditioning"], 15000, 250000, np=1, shards=4, watchdog=60)],
)

CHECKS["C10"] = dict(
    tech="stateful call histories, C interface against C++ interface in lock step",
    note="The same generated history of successful and failing calls is applied to C handles and C++ objects; all state, return codes and convolved rows are compared bitwise after every call. An escaping exception ends the process and is reported as a crash. A second group lets one chosen allocation (outside parallel regions) of each call fail and demands the error value, no memory left over by constructors, no file left open, and the result of an undisturbed history when the same call is repeated.",
    rule="A case is a history of 6 to 24 C calls on two skies, beams and detectors, one pointing object and a convolver; non-trivial: at least one successful read and a convolution or a failing call; or (c_faults) a path of C calls with allocations failing, non-trivial: at least one allocation failed.",
    jobs=[job("conv_c", ["c_interface"], 8000, 150000, np=1, shards=5, watchdog=60), job("conv_c", ["c_interface"], 1500, 20000, np=2, shards=1, watchdog=60), job("conv_c", ["c_faults"], 4000, 80000, np=1, shards=2, watchdog=60)],
)

_san = dict(variant="san", watchdog=200, crash_only=True)
CHECKS["C13"] = dict(
    tech="the generated cases of the other checks under ASan/UBSan, and repetition with differently filled fresh memory",
    note="Runs the generators of C01-C12 against a build with AddressSanitizer, UndefinedBehaviorSanitizer and glibcxx assertions (oracles of other properties are not judged, only reports and crashes), and repeats convolutions with malloc filling fresh memory with zeros, ones and NaN patterns, where every result must stay the same.",
    rule="A case is one of the other checks' cases, executed in the sanitized build, or a convolution repeated with three memory fill patterns; non-trivial as there.",
    jobs=[job("conv_core", ["overlap_T", "overlap_TGC"], 1200, 3000, np=1, shards=2, **_san),
          job("conv_rel", ["rows", "histories", "calibration"], 1200, 3000, np=1, shards=1, **_san),
          job("conv_mpi", ["distribution", "angles", "files", "replaced"], 400, 900, np=4, shards=1, **_san),
          job("conv_mpi", ["orders"], 60, 800, np=2, shards=1, **_san),
          job("conv_io", ["beam_read", "sky_read", "conditioning"], 1200, 3000, np=1, shards=1, **_san),
          job("conv_c", ["c_interface", "c_faults"], 1500, 4000, np=1, shards=2, **_san),
          job("conv_rel", ["memory_fill"], 800, 12000, np=1, shards=4, watchdog=60)],
)

_s = dict(variant="san", watchdog=200)
CHECKS["L01"] = dict(
    tech="generated preparations and angles against a long-double recursion cross-checked with the explicit sum",
    note="Every element of every generated (lmax, m, m', angle) sequence, single and paired, in generated orders of preparation (sign flips, swaps, repeats), is compared with the Wigner d-function computed in long double; every omitted element is compared with the accuracy of construction.",
    rule="A case is a generator with 1-5 angles and 1-8 preparations, each evaluated 1-4 times; non-trivial: some element compared exceeds 1e-3 in magnitude.",
    jobs=[job("lib_math", ["wigner_gen"], 25000, 600000, shards=6), job("lib_math", ["wigner_gen"], 500, 6000, shards=1, **_s)],
)
CHECKS["L02"] = dict(
    tech="generated recursions against a long-double reference",
    note="All matrices up to the generated l of the four recursion classes, for generated angles and 1-4 threads.",
    rule="A case is one recursion object stepped up to a generated l; non-trivial: l >= 2 and an angle that is not a multiple of pi.",
    jobs=[job("lib_math", ["wigner_risbo"], 10000, 60000, shards=5, omp=4), job("lib_math", ["wigner_risbo"], 300, 4000, shards=1, omp=4, **_s)],
)
CHECKS["L03"] = dict(
    tech="generated lengths and data against the defining sum; histories of plan copies",
    note="Lengths are drawn as products of small primes, primes, twice primes, powers of two and uniform; elements are compared with the sum in long double and the inverse transform with n times the input; plans are assigned, copied and reused in generated histories.",
    rule="A case is a history of up to 8 transforms with up to four plans (complex) or up to two transforms of a real series; non-trivial: length above 2 and non-zero data.",
    jobs=[job("lib_math", ["fft_complex"], 3000, 60000, shards=4), job("lib_math", ["fft_real"], 8000, 150000, shards=3), job("lib_math", ["fft_complex", "fft_real"], 400, 8000, shards=1, **_s)],
)
CHECKS["L08"] = dict(
    tech="generated rotations against long-double matrices and algebraic relations",
    note="Angles include multiples of pi/2 and values within 1e-17..1e-1 of multiples of pi; axes include coordinate axes and nearly degenerate ones.",
    rule="A case is one rotation (Euler, axis-angle or triple), a second one and a vector; non-trivial: the rotation is not about the polar axis only / not the identity. Or a pair of generated vectors with non-zero product.",
    jobs=[job("lib_math", ["rotations"], 200000, 4000000, shards=5), job("lib_math", ["vectors"], 200000, 3000000, shards=2), job("lib_math", ["rotations", "vectors"], 20000, 200000, shards=1, **_s)],
)
CHECKS["L09"] = dict(
    tech="generated quantum numbers against exact multiprecision sums; orthogonality and symmetry for large ones",
    note="Up to l = 30 (60 thorough) every value is compared with the Racah sum in 260-digit arithmetic; up to 400 (1500) normalisation, orthogonality and symmetries. Arguments violating |m| <= l end the process by design and are not generated.",
    rule="A case is a quadruple l2, l3, m2, m3 (integers or half-integers); non-trivial: more than 2 (10) values of l1.",
    jobs=[job("lib_math", ["wigner_3j"], 120000, 600000, shards=4), job("lib_math", ["wigner_3j_large"], 100000, 500000, shards=3), job("lib_math", ["wigner_3j", "wigner_3j_large"], 6000, 60000, shards=1, **_s)],
)
CHECKS["L10"] = dict(
    tech="generated matrices against the defining identities of the decomposition and of least squares",
    note="Matrices up to 36 x 24 of nine kinds (dense, low rank, zero and duplicate columns, diagonal, bidiagonal with zeros, graded, integer, zero rows), scaled by 1e-40..1e40; factors, cut-off, normal equations and minimal norm are checked by residuals.",
    rule="A case is a matrix, a cut-off and a right-hand side; non-trivial: more than one column and not all zero.",
    jobs=[job("lib_math", ["svd"], 150000, 2000000, shards=6), job("lib_math", ["svd"], 10000, 100000, shards=1, **_s)],
)
CHECKS["L11"] = dict(
    tech="generated values and texts: round trip, own grammar as acceptance oracle, reference text helpers",
    note="All convertible types of 16 bits and more including extremes and denormals are converted to text and back; generated well-formed and malformed number texts are judged by a separate grammar and the C library's conversions; trimming, splitting, tokenising, padding, parameter files and command lines are compared with models.",
    rule="A case is one value, text, file or command line; non-trivial: a non-zero value, or text of more than one character / word / key.",
    jobs=[job("lib_util", ["text_roundtrip", "text_malformed", "text_helpers"], 150000, 3000000, shards=4), job("lib_util", ["text_files"], 60000, 1000000, shards=3),
          job("lib_util", ["text_roundtrip", "text_malformed", "text_helpers", "text_files"], 10000, 100000, shards=1, **_s)],
)
CHECKS["L12"] = dict(
    tech="generated dates and seconds under generated time zones against calendar arithmetic by counting leap years",
    note="Dates from year -20000 to 300000, month ends, leap days, the epochs and out-of-range fields, under eight time zone settings; forward, backward and shifted conversions compared exactly; the caller's time zone must be untouched.",
    rule="A case is one date, one offset in seconds and a time zone; every case is non-trivial.",
    jobs=[job("lib_util", ["dates"], 400000, 6000000, shards=7), job("lib_util", ["dates"], 20000, 200000, shards=1, **_s)],
)
CHECKS["L13"] = dict(
    tech="stateful histories of container operations against models; generated inputs to the sorts",
    note="Three arrays of one of eight kinds (owning, aligned and view arrays of int, double, string; two- and three-dimensional ones) go through up to 20 (40) operations including impossible allocations; after every operation all sizes, known elements and outside buffers are compared with a model. Sorted rows must be ascending permutations. Repeated under AddressSanitizer.",
    rule="A case is a history of operations (more than three: non-trivial) or one input to a sort (more than one row: non-trivial).",
    jobs=[job("lib_util", ["containers"], 60000, 1200000, shards=4), job("lib_util", ["sorts"], 40000, 600000, shards=3), job("lib_util", ["containers", "sorts"], 10000, 150000, shards=1, **_s)],
)
CHECKS["L14"] = dict(
    tech="generated arguments against exact arithmetic in wider types",
    note="Shares, chunks, modulo, integer roots and logarithms, rounding, interpolation index, sign helpers and checked conversions between twenty pairs of types, with arguments at the extremes of their types, checked with 128-bit integer and floating-point arithmetic.",
    rule="A case is one call of one helper (or all shares / chunks of one range); ranges with one item or one share are trivial.",
    jobs=[job("lib_util", ["shares"], 60000, 1000000, shards=3), job("lib_util", ["helpers"], 300000, 6000000, shards=4), job("lib_util", ["shares", "helpers"], 15000, 200000, shards=1, **_s)],
)
CHECKS["L15"] = dict(
    tech="generated seeds and draw histories: recurrence, copies, re-seeding; distribution tests at more than seven sigma",
    note="Streams of interleaved draws from generated seeds (including seeds computed so that the first outputs are extreme) are compared with an equally seeded generator, copies and the published recurrence; moments, bits, serial correlation and Kolmogorov distance of 20000 (200000) draws.",
    rule="A case is a history of 3 to 60 draws, copies and re-seedings, or one sample of a distribution; every case is non-trivial.",
    jobs=[job("lib_util", ["rng_streams"], 200000, 3000000, shards=4), job("lib_util", ["rng_distribution"], 2500, 6000, shards=3), job("lib_util", ["rng_streams"], 10000, 100000, shards=1, **_s)],
)
CHECKS["L04"] = dict(
    tech="generated coefficient sets written, inspected with cfitsio, and read back with generated orders",
    note="Sets of any density and magnitude (denormals, zeros, 1e300) with orders up to 24, sometimes up to 180 (260) so that a table has more rows than one chunk, are written plain or compressed, singly or as three tables, in single or double; every row is checked with cfitsio, and every coefficient read back with smaller and larger orders, with and without order keywords, is compared exactly.",
    rule="A case is one to three coefficient sets, a file and 1-3 reads; non-trivial: more than one coefficient in the first table.",
    jobs=[job("lib_fits", ["alm_files"], 15000, 250000, shards=6), job("lib_fits", ["alm_files"], 500, 6000, shards=1, **_s)],
)
CHECKS["L05"] = dict(
    tech="stateful histories of FITS operations against a model of the file, cross-checked with cfitsio; injected full-disk faults",
    note="Histories of up to 30 (60) operations: tables of both kinds with generated columns, images, pieces of columns and sub-images at any offset in any type, header keys, illegal accesses, a reopened read-only file. After every operation the handle's metadata are compared with a model, all data after reopening, and the file is inspected with cfitsio directly. A file-size limit makes writes fail at generated places. Limits of cfitsio itself (see DESIGN.md) are not judged.",
    rule="A case is a history with at least one insertion and one write (non-trivial), or a file written under a size limit that must fail (non-trivial).",
    jobs=[job("lib_fits", ["fits_histories"], 20000, 250000, shards=5), job("lib_fits", ["fits_faults"], 10000, 100000, shards=1), job("lib_fits", ["fits_histories", "fits_faults"], 500, 6000, shards=1, **_s)],
)
CHECKS["L06"] = dict(
    tech="metamorphic: the rotated function at the rotated direction against the original, evaluated term by term; inversion, composition and power",
    note="lmax up to 20, sometimes 120 (250), both precisions, 1 or 3 components, angles including the poles and multiples of pi/2, given as angles or as a matrix. The function is summed in long double from its definition. A matrix within 1e-6 of the poles loses the direction of its tilt, by the documented threshold; the tolerance says so.",
    rule="A case is one rotation; non-trivial if lmax > 0, some coefficient is not zero and theta is not zero.",
    jobs=[job("lib_alm", ["rotate"], 20000, 250000, shards=6), job("lib_alm", ["rotate"], 300, 4000, shards=1, **_s)],
)
CHECKS["L07"] = dict(
    tech="generated coefficient sets and spectra against the defining sums, metamorphic relations between spectra and coefficients, and covariance estimates of realisations",
    note="Spectra, smoothing, realisations for all orders up to 200 in both precisions. Covariances over 800 (4000) realisations are compared with the spectra, within nine standard deviations of the estimate.",
    rule="A case is one set of coefficients or spectra; non-trivial if lmax > 0 and the coefficients are not all zero.",
    jobs=[job("lib_alm", ["spectra", "smoothing", "realisations"], 150000, 3000000, shards=5), job("lib_alm", ["realisation_scatter"], 6000, 30000, shards=2), job("lib_alm", ["spectra", "smoothing", "realisations"], 15000, 200000, shards=1, **_s)],
)
CHECKS["L17"] = dict(
    tech="stateful histories of container operations against a plain map; complex arithmetic against long double",
    note="Histories of up to 20 operations on two sets of lmax up to 12; the index formula also for lmax up to 46338.",
    rule="A case is a history of at least four operations, or one pair of nonzero numbers.",
    jobs=[job("lib_alm", ["alm_container"], 300000, 3000000, shards=5), job("lib_alm", ["complex_arithmetic"], 600000, 6000000, shards=2), job("lib_alm", ["alm_container", "complex_arithmetic"], 40000, 400000, shards=1, **_s)],
)
CHECKS["C11"] = dict(
    tech="stateful histories of the Python classes against the C interface bound independently, with freed memory overwritten",
    note="Histories of up to 24 operations: reading (and failing to read) skies and beams, set_data with arrays of several types and layouts, normalisation, conditioning, detectors with names of any length, pointing objects of any number of rows, convolvers, convolution with legal and illegal rows, and objects dropped in any order. Everything the wrapper returns is compared with C objects treated alike, with prototypes of the check's own.",
    rule="A case is one history; non-trivial: at least two expansions read and more than four operations.",
    jobs=[job("py_wrapper.py", ["wrapper"], 700, 12000, np=1, shards=6, watchdog=60), job("py_wrapper.py", ["wrapper"], 250, 3000, np=2, shards=1, watchdog=60)],
)
CHECKS["L16"] = dict(
    tech="generated sequences of collective and point-to-point operations on generated communicators against a serial model",
    note="Sequences of up to 12 (30) operations of all kinds, ten element types, lengths from 0 to 3000, any root and reduction, on sub-communicators of 1-4 processes in any rank order, with generated delays. Floating-point sums use exactly representable values; character reductions are outside MPI. Barriers are checked with the machine's clock.",
    rule="A case is one sequence of operations; non-trivial if more than one process takes part (or only one exists).",
    jobs=[job("lib_mpi", ["communication"], 6000, 100000, np=4, shards=1, watchdog=60), job("lib_mpi", ["communication"], 6000, 100000, np=3, shards=1, watchdog=60), job("lib_mpi", ["communication"], 6000, 60000, np=1, shards=1, watchdog=60), job("lib_mpi", ["communication"], 800, 10000, np=3, shards=1, variant="san", watchdog=200)],
)
CHECKS["L18"] = dict(
    tech="generated operands against element-wise scalar arithmetic",
    note="Every operation of the packed float, double and int types on any bit patterns (not-a-numbers, infinities, denormals, negative zeros, extremes of int), loads and stores at unaligned addresses with guarded surroundings, masks and their any / all / none.",
    rule="A case is one operation on one or two generated vectors; non-trivial: not all elements are equal.",
    jobs=[job("lib_sys", ["packed_float"], 600000, 10000000, shards=4), job("lib_sys", ["packed_int"], 600000, 10000000, shards=3), job("lib_sys", ["packed_float", "packed_int"], 40000, 400000, shards=1, **_s)],
)
CHECKS["L19"] = dict(
    tech="repetition of generated histories with every allocation and open file counted",
    note="The allocation functions are interposed; a generated history of library calls (accepted and refused ones) is repeated from equal starting points, and live blocks, bytes and open files must come back to the same counts each time.",
    rule="A case is one history repeated until its counts settle, then at least three more times; every case is non-trivial.",
    jobs=[job("leak", ["leaks_library"], 40000, 500000, np=1, shards=3, watchdog=60), job("leak", ["leaks_convolution"], 9000, 130000, np=1, shards=2, watchdog=60), job("leak", ["leaks_convolution"], 3000, 40000, np=3, shards=1, watchdog=60)],
)
CHECKS["L20"] = dict(
    tech="stateful histories of allocations against a model of the blocks; failing calls in child processes; reports compared with the kernel's",
    note="Histories of up to 25 (60) allocations, resizings, growths, two-dimensional arrays and frees with patterned contents; failing assertions, start-up checks and impossible allocations run in a child process, whose exit status and reports are compared with what the caller should see; memory sizes are compared with /proc/self/status, the clock with the monotonic clock, thread shares with their definition.",
    rule="A case is a history (non-trivial if it holds three blocks at once), or one question about memory, time or thread shares.",
    jobs=[job("lib_sys", ["memory_helpers"], 30000, 400000, np=1, shards=4, watchdog=60), job("lib_sys", ["services"], 4000, 50000, np=1, shards=2, watchdog=60), job("lib_sys", ["memory_helpers"], 1500, 15000, np=1, shards=1, variant="san", watchdog=200)],
)
CHECKS["L21"] = dict(
    tech="generated type names, constants and error messages against a table and the standard's sizes",
    note="All type constants and names, names changed by a character, constants out of range, and errors raised by every route: message carried, place reported, quiet ones silent.",
    rule="A case is one question; every case is non-trivial.",
    jobs=[job("lib_sys", ["type_tables"], 60000, 600000, shards=3), job("lib_sys", ["type_tables"], 6000, 60000, shards=1, **_s)],
)
