"""Build configurations and the table of checks."""
import os
HERE = os.path.dirname(os.path.abspath(__file__))
BUILDS = {
    # plain builds: fast, many cases, several standards and optimisation levels
    "gcc11":   dict(cxx="g++", flags=["-std=c++11", "-O1", "-pthread"], order=1),
    "gcc14-O0": dict(cxx="g++", flags=["-std=c++14", "-O0", "-pthread"], order=2),
    # (no vectoriser: gcc 13 compiles some correct code wrongly with it, see DESIGN.md)
    "gcc17-O2": dict(cxx="g++", flags=["-std=c++17", "-O2", "-fno-tree-vectorize", "-DNDEBUG", "-pthread"], order=1),
    "clang14-O2": dict(cxx="clang++", flags=["-std=c++14", "-O2", "-pthread"], order=1),
    # every shape up to a bound (shapes.hpp)
    "dense":   dict(cxx="clang++", flags=["-std=c++11", "-O0", "-pthread"], order=1),
    # sanitizers
    "asan":    dict(cxx="clang++", flags=["-std=c++17", "-O0", "-g1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all",
                                          "-fno-omit-frame-pointer", "-D_GLIBCXX_ASSERTIONS"], order=0),
    "gasan":   dict(cxx="g++", flags=["-std=c++11", "-O1", "-g1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all",
                                      "-fno-omit-frame-pointer", "-D_GLIBCXX_ASSERTIONS"], order=0),
    "msan":    dict(cxx="clang++", flags=["-std=c++14", "-O1", "-g1", "-fsanitize=memory", "-fno-sanitize-recover=all",
                                          "-fno-omit-frame-pointer", "-fsanitize-ignorelist=" + HERE + "/harness/msan.ignore"], order=0),
    "tsan":    dict(cxx="clang++", flags=["-std=c++14", "-O1", "-g1", "-fsanitize=thread", "-pthread"], order=0),
    "valgrind": dict(cxx="g++", flags=["-std=c++11", "-O1", "-g1", "-DMON_VALGRIND"], order=0,
                     wrap=["valgrind", "-q", "--error-exitcode=9", "--exit-on-first-error=yes", "--track-origins=no", "--num-callers=12", "--main-stacksize=268435456"]),
}
QUICK = lambda a, b: [("gcc11", a), ("gcc17-O2", a), ("asan", b)]
THOROUGH = lambda a, b: [("gcc11", a), ("gcc14-O0", b), ("gcc17-O2", a), ("clang14-O2", a), ("asan", b), ("gasan", b)]
R = "every case draws fresh operands (family chosen by case number: small, boundary, sparse, wide, special values) for one call, element type and shape; " \
    "non-trivial: the operands are not constant; distinct: by hash of all operands and the unit"
DENSE = lambda quick, thorough, build="dense": dict(build=build, cases=(quick, thorough))
CHECKS = {
    "C01": dict(src="c01_elementwise.cpp", parts=4, dense=DENSE(60, 400), builds=dict(quick=QUICK(400, 100), thorough=THOROUGH(5000, 1000)), rule=R,
                must_observe=["A+B", "A-B", "A+s", "s+A", "A*s", "s*A", "A/s", "A++", "A--", "abs", "div(A,s)", "up to the limits of the type"]),
    "C02": dict(src="c02_product.cpp", parts=4, dense=DENSE(60, 400), builds=dict(quick=QUICK(800, 100), thorough=THOROUGH(3000, 400)), rule=R,
                must_observe=["mult(A,B)", "A*B", "A=A*B", "B=A*B", "strassen", "judged exactly", "judged with rounding bound", "judged with NaN and infinities", "operands of uneven size", "structured operand", "B is the transpose of A", "complex, judged exactly", "complex, judged with rounding bound"]),
    "C03": dict(src="c03_det.cpp", parts=4, dense=DENSE(300, 1500), builds=dict(quick=QUICK(1500, 250), thorough=THOROUGH(10000, 1500)), rule=R,
                must_observe=["integer det", "integer det, singular", "integer det, zero row or column", "integer det, constructed value",
                              "det, within bound", "det, sign and value determined", "det, zero row or column", "scaled by a power of two"]),
    "C04": dict(src="c04_inv.cpp", parts=4, dense=DENSE(200, 1000), builds=dict(quick=QUICK(2000, 250), thorough=THOROUGH(6000, 800)), rule=R,
                must_observe=["integer inverse exact", "singular integer matrix reported", "singular matrix reported", "inverse within bound", "scaled by a power of two"]),
    "C05": dict(src="c05_lu.cpp", parts=4, dense=DENSE(400, 2000), builds=dict(quick=QUICK(2500, 400), thorough=THOROUGH(8000, 1500)), rule=R,
                must_observe=["zero pivot reported", "factors triangular", "integer factors recovered", "L*U equals A within rounding", "scaled by a power of two"]),
    "C06": dict(src="c06_chol.cpp", parts=4, dense=DENSE(400, 2000), builds=dict(quick=QUICK(2500, 400), thorough=THOROUGH(8000, 1500)), rule=R,
                must_observe=["factor lower triangular, diagonal positive", "integer factor recovered", "L*trans(L) equals A within rounding", "graded scales"]),
    "C07": dict(src="c07_pow.cpp", parts=4, dense=DENSE(400, 2000), builds=dict(quick=QUICK(3500, 400), thorough=THOROUGH(8000, 1000)), rule=R,
                must_observe=["power modulo 2^N", "exponent beyond int", "power, finite order", "negative power, finite order", "most negative exponent", "singular reported",
                              "zeroth and first power of a singular matrix", "integer power", "negative integer power", "power within bound", "negative power within bound"]),
    "C08": dict(src="c08_movement.cpp", parts=4, dense=DENSE(20, 100), builds=dict(quick=QUICK(200, 30), thorough=THOROUGH(1000, 150)), rule=R,
                must_observe=["trans", "trans(trans)", "swap_rows", "swap_cols", "swap of different rows", "getminor"]),
    "C09": dict(src="c09_concat.cpp", parts=4, dense=DENSE(40, 200), builds=dict(quick=QUICK(500, 80), thorough=THOROUGH(2000, 400)), rule=R,
                must_observe=["vertical", "horizontal", "square pair, vertical", "square pair, horizontal", "concatenateV", "concatenateH"]),
    "C10": dict(src="c10_conv.cpp", parts=4, dense=DENSE(60, 300), builds=dict(quick=QUICK(700, 150), thorough=THOROUGH(4000, 800)), rule=R,
                must_observe=["conv2", "conv2_full", "conv2_valid", "one-hot kernel", "structured kernel", "complex", "operands of uneven size", "scaled by powers of two"]),
    "C11": dict(src="c11_histogram.cpp", parts=4, dense=DENSE(40, 200), builds=dict(quick=QUICK(400, 80), thorough=THOROUGH(4000, 800)), rule=R,
                must_observe=["histogram", "cumulative_histogram", "runs", "single among equal ones", "value repeated more than 255 times", "value repeated more than 65535 times"]),
    "C12": dict(src="c12_stats.cpp", parts=4, dense=DENSE(80, 400), builds=dict(quick=QUICK(900, 150), thorough=THOROUGH(6000, 1000)), rule=R,
                must_observe=["integer mean", "integer mean, negative and not exact", "integer median, odd count", "integer median, even count", "integer variance", "integer variance, squares beyond 2^53", "integer standard deviation",
                              "mean", "median, odd count", "median, even count", "variance", "variance under a large offset", "scaled by a power of two", "standard deviation"]),
    "C13": dict(src="c13_make.cpp", parts=4, dense=DENSE(20, 50), builds=dict(quick=QUICK(400, 100), thorough=THOROUGH(1000, 200)), rule=R,
                must_observe=["fill", "zeros", "ones<T,i,j>", "ones<i,j>", "eye", "eye(v)", "ones<T,n>", "ones<n>"]),
    "C14": dict(src="c14_predicates.cpp", parts=4, dense=DENSE(40, 200), builds=dict(quick=QUICK(600, 70), thorough=THOROUGH(2000, 300)), rule=R,
                must_observe=["compare true", "compare false, one element", "compare, special values", "compare false, many elements", "isIdentity false, smallest deviation or NaN", "isSymetric, smallest deviation, NaN and infinities", "compare at the tolerance", "isIdentity true", "isIdentity false, one element",
                              "isSymetric true", "isSymetric false, one element", "isSymetric false, antisymmetric"]),
    "C15": dict(src="c15_print.cpp", parts=4, dense=DENSE(20, 100), builds=dict(quick=QUICK(150, 35), thorough=THOROUGH(2000, 400)), rule=R,
                must_observe=["row printed", "elements printed", "several prints in a row"]),
    "C16": dict(src="c16_errors.cpp", parts=4, builds=dict(quick=QUICK(2000, 150), thorough=THOROUGH(6000, 800)),
                rule="every case is a sequence of 3 to 8 calls, defined and undefined ones mixed, for one element type and size; non-trivial: operands are not constant; distinct: by hash of all operands",
                must_observe=["division by zero", "division by a non-zero scalar", "inverse of a singular matrix", "inverse of an invertible matrix", "negative power of a singular matrix",
                              "non-negative power of a singular matrix", "power of an invertible matrix", "LU with a zero pivot", "LU without a zero pivot", "call after a failure"]),
    "C17": dict(src="c17_alloc.cpp", parts=4, dense=DENSE(20, 100), builds=dict(quick=[("gcc11", 150), ("clang14-O2", 150)], thorough=[("gcc11", 400), ("gcc14-O0", 200), ("gcc17-O2", 400), ("clang14-O2", 400)]),
                rule="every case runs one operation (element type, shape) on fresh valid input with the allocation functions replaced; non-trivial: input not constant; distinct: by hash of the input and the unit",
                must_observe=["operation without allocation", "histogram released everything", "histogram holds its result only", "allocations seen"]),
    "C18": dict(src="c18_memory.cpp", parts=6, dense=DENSE(20, 100, "asan"), builds=dict(quick=[("gcc11", 40), ("gasan", 20), ("asan", 20), ("msan", 20), ("valgrind", 3)],
                                                          thorough=[("gcc11", 400), ("gcc17-O2", 400), ("clang14-O2", 400), ("gcc14-O0", 200), ("gasan", 200), ("asan", 200), ("msan", 200), ("valgrind", 12)]),
                rule="every case runs one operation (element type, shape) on fresh valid input; non-trivial: input not constant; distinct: by hash of the input and the unit",
                must_observe=["result defined (MemorySanitizer)", "result defined (valgrind)", "result inside bounds (AddressSanitizer)", "result independent of stale memory", "guard zones intact"]),
    "C19": dict(src="c19_pure.cpp", parts=4, builds=dict(quick=[("gcc11", 500), ("tsan", 100)], thorough=[("gcc11", 8000), ("gcc17-O2", 8000), ("clang14-O2", 8000), ("tsan", 2500)]),
                rule="every case is a set of 4 to 12 calls (operation, element type, shape, operands), made in a fresh process each, then as a history of 3 rounds or by 8 threads at once; or one operation with up to 300 operands, called up to 70000 times; non-trivial: all; distinct: by hash of all operands and operations",
                must_observe=["operands in read-only pages", "failing call", "call in a history, outcome as in a fresh process", "process-wide settings unchanged", "call among many, outcome as in another order", "concurrent call, outcome as alone", "calls that overlapped another"]),
    "C20": dict(custom="c20", rule="every evaluation is one library call with fixed pseudo-random operands in one build configuration, its result compared bit for bit with the same call in the other configurations; distinct: by call, operands and result",
                assumptions=["gcc 13.3 and clang 18.1 on x86-64, without -ffast-math or FMA"]),
    "C21": dict(custom="c21", rule="every evaluation is one run of one registered benchmark with its own random draws; distinct: by benchmark and seed",
                assumptions=["benchmarks whose estimated work is beyond the tier's limit are listed in not_run_too_long and not run"]),
    "C22": dict(src="c22_programs.cpp", parts=6, builds=dict(quick=[("gcc11", 60000), ("clang14-O2", 60000), ("asan", 4000)], thorough=THOROUGH(60000, 20000)),
                rule="every case is a program of 10 to 40 steps over six registers; non-trivial: an initial register is not constant; distinct: by hash of the initial registers",
                must_observe=["step agreed", "result over an operand", "A+B", "A-B", "A*B", "mult(A,B)", "pow", "trans", "swap_rows", "swap_cols", "getminor", "concatenate", "concatenate squares", "concatenateV", "concatenateH",
                              "conv2", "conv2_full", "conv2_valid", "strassen", "det", "inv", "negative pow", "abs", "mean", "median", "isIdentity", "isSymetric", "A==B", "histogram", "cumulative_histogram", "eye", "fill", "zeros", "ones"]),
}
