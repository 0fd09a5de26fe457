#!/usr/bin/env python3
# Source of properties.jsonl (kept as a script only because JSON lines are hard to edit).
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None, hook=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": ["matrix/" + f if "/" not in f else f for f in files], "state": state or [],
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": observe or ["return value of the public call"], "hook_needed": hook}})

p("C01", "Element-wise arithmetic is the scalar operation applied to every element",
  "For every shape and element type, matrix plus/minus matrix, matrix plus/minus/times scalar (and scalar plus/times matrix), division by a non-zero scalar, post-increment, post-decrement and abs return a matrix of the same shape whose every element is exactly the scalar operation on the corresponding operand element(s), computed in the element type, including NaN, infinities, denormals, extreme values and the sign of zero. The named functions and the operators agree, and assigning the result to one of the operands changes nothing. (Post-increment and post-decrement return A+1 and A-1 and leave A as it is; signed integer inputs are such that no element overflows; abs is for signed, floating and complex elements, division for real ones.)",
  ["inputs", "configurations"], "all operand values, all shapes, element types of every width (signed, unsigned, floating, complex)",
  "The tests add, subtract and multiply three 2x2 float matrices of small integers; subtraction of two matrices and division have no test at all.",
  ["matrix_sum.hpp", "matrix_sub.hpp", "matrix_mult.hpp", "matrix_div.hpp", "matrix_abs.hpp"],
  [("sum / operator+ / operator++", "matrix_sum.hpp"), ("sub / operator- / operator--", "matrix_sub.hpp"), ("mult(matrix, scalar)", "matrix_mult.hpp"), ("div / operator/", "matrix_div.hpp"), ("abs", "matrix_abs.hpp")])

p("C02", "Matrix product is the row-by-column sum of products",
  "For conformable matrices A (n x m) and B (m x p), the product - by function, by operator, and for 2x2 also by the Strassen routine - is the n x p matrix whose element (i,j) is the sum over k of A(i,k)*B(k,j): exact for integers (modulo 2^N for unsigned ones, signed inputs such that nothing overflows) and for floating values whose partial sums are exact, otherwise within the rounding error of summing m products in the element type. Assigning the product to one of its own operands gives the same result.",
  ["inputs", "configurations"], "all values and all n, m, p, including vectors, 1x1, very flat or long and large operands",
  "Two tests multiply one 2x3 by one 3x2 matrix, one checks a single 2x2 Strassen product; nothing is tested above size 3 or with m, n, p all different.",
  ["matrix_mult.hpp", "matrix_strassen.hpp", "matrix_zeros.hpp"],
  [("mult(matrix, matrix) triple loop", "matrix_mult.hpp"), ("operator*", "matrix_mult.hpp"), ("strassen", "matrix_strassen.hpp")])

p("C03", "Determinant is correct for every square matrix",
  "The determinant of an n x n matrix is returned with the right sign and value for every n, whichever entries are zero and whatever row exchanges that forces: exactly for signed integer matrices whose determinant (and, up to 3x3, the products in its expansion) is representable, and for floating matrices within the error of a backward-stable elimination (to first order a small multiple of n^2 * unit roundoff * largest entry * sum of absolute cofactors; up to 3x3, a small multiple of unit roundoff * sum of the absolute products in the expansion), as long as no intermediate overflows or underflows. A matrix with a zero row or column has determinant 0, and the argument is not changed.",
  ["inputs", "configurations"], "all square matrices: triangular, permuted, with zero or tiny leading entries, singular, rank deficient, scaled, large; int, long, float, double, long double",
  "Six fixed float matrices are tested; row exchanges, sign, singular and integer matrices, and 1x1 or large sizes are not reached.",
  ["matrix_det.hpp", "matrix_swap.hpp"],
  [("closed forms for 1x1, 2x2, 3x3", "matrix_det.hpp"), ("elimination with row exchange and sign factor", "matrix_det.hpp"), ("division-free integer determinant", "matrix_det.hpp")])

p("C04", "Inverse times the matrix is the identity",
  "For every invertible n x n floating matrix whose determinant and cofactors neither overflow nor underflow, inv returns the inverse within an error proportional to unit roundoff times n^2, the largest entry of A and the square of the norm of the inverse (up to 3x3, each element within a small multiple of unit roundoff of what the absolute products in its cofactor and in the determinant allow, however different the magnitudes of the entries); for integer matrices of determinant +1 or -1 it is exact. Every matrix with a zero row or column, every singular integer matrix and every singular floating matrix up to 3x3 with small integer entries raises std::overflow_error instead of returning a matrix.",
  ["inputs", "configurations"], "all square matrices, n from 1 up; well and moderately ill conditioned, permuted, triangular, orthogonal, scaled; singular ones of each kind",
  "Three fixed matrices (2x2, 3x3, 4x4) with tolerance 0.01 and a comparison that used to accept NaN; singular input is never tested.",
  ["matrix_inv.hpp", "matrix_det.hpp", "matrix_trans.hpp", "matrix_div.hpp"],
  [("inv 1x1/2x2/3x3 closed forms", "matrix_inv.hpp"), ("inv nxn: transposed cofactors over det", "matrix_inv.hpp"), ("getminor", "matrix_inv.hpp")])

p("C05", "LU factors are triangular and multiply back to the matrix",
  "For every square matrix on which elimination without row exchanges meets no zero pivot, lu returns (L, U) with L exactly unit lower triangular, U exactly upper triangular, and L*U equal to A within n times unit roundoff of |L||U| element by element (exactly when the factors are integers in an integer or floating matrix). When a pivot, including the last one, is exactly zero it raises std::overflow_error.",
  ["inputs", "configurations"], "all square matrices of any size and floating type (and integer ones with integer factors)",
  "One 2x2 and one 3x3 matrix are tested; no zero pivot, no size above 3, no double.",
  ["matrix_lu.hpp", "matrix_eye.hpp", "matrix_zeros.hpp"],
  [("lu (Doolittle)", "matrix_lu.hpp"), ("zero pivot check", "matrix_lu.hpp")])

p("C06", "Cholesky factor is lower triangular and squares back to the matrix",
  "For every symmetric positive definite matrix, chol returns L exactly lower triangular with positive diagonal such that L*trans(L) equals A within n times unit roundoff of |L||L|^T element by element, in the precision of the element type; a matrix that is the square of an integer lower triangular factor yields that factor. Entries of widely different scale do not change this.",
  ["inputs", "configurations"], "all symmetric positive definite matrices of any size, scale and floating type (int too when the factor is integral)",
  "One 3x3 and one 4x4 float matrix with tolerance 0.01.",
  ["matrix_cholesky.hpp"],
  [("chol", "matrix_cholesky.hpp")])

p("C07", "Matrix power equals repeated multiplication, for every exponent",
  "For every square matrix A and every integer exponent p representable in the exponent's type (signed or unsigned, any width): pow(A,0) is the identity, pow(A,1) is A, pow(A,p) for p>1 is A multiplied by itself p times - exact for integers that do not overflow and modulo 2^N for unsigned elements, within rounding (and underflow) otherwise - and pow(A,-p) is the p-th power of the inverse, down to the most negative exponent. A negative power of a singular matrix (singular in the sense of the inverse property) raises std::overflow_error, while its zeroth power is still the identity.",
  ["inputs", "configurations"], "all exponents (0, +-1, odd, even, powers of two and neighbours, the extremes of the exponent type) and all square matrices",
  "One 2x2 float matrix with exponents -5..5.",
  ["matrix_pow.hpp", "matrix_inv.hpp", "matrix_mult.hpp", "matrix_eye.hpp"],
  [("pow by repeated squaring", "matrix_pow.hpp"), ("inverse for negative exponents", "matrix_pow.hpp")])

p("C08", "Transpose, swaps and minors move every element to its place",
  "trans(A)(j,i) is A(i,j) for every shape and trans(trans(A)) is A; swap_rows and swap_cols exchange exactly the two given rows or columns in place, for any two valid indices in either order, leave everything else alone, do nothing for equal indices and undo themselves; getminor(A,i,j) is A without row i and column j, the rest in order. No element is lost, duplicated or altered, whatever its value (NaN and infinities included).",
  ["inputs", "configurations"], "all shapes, all index pairs, all element values and types",
  "Tests swap three fixed row/column pairs, transpose two matrices, and take minors only with i equal to j.",
  ["matrix_trans.hpp", "matrix_swap.hpp", "matrix_inv.hpp"],
  [("trans", "matrix_trans.hpp"), ("swap_rows / swap_cols", "matrix_swap.hpp"), ("getminor", "matrix_inv.hpp")],
  observe=["return value", "the matrix modified in place"])

p("C09", "Concatenation places both operands completely and unchanged",
  "Joining A and B vertically (equal column counts) or horizontally (equal row counts) gives a matrix that consists of A followed by B below it or to its right, each element unchanged and in place, for all shapes. For two square matrices of one size the general call returns both joins (first vertical, second horizontal), and they equal the dedicated vertical and horizontal calls.",
  ["inputs", "configurations"], "all operand shapes and values",
  "Tests check one example per direction; of the pair returned for square matrices only the vertical half is looked at.",
  ["matrix_concatenate.hpp"],
  [("concatenate (three overloads)", "matrix_concatenate.hpp"), ("concatenateV / concatenateH", "matrix_concatenate.hpp")])

p("C10", "2-D convolution matches the mathematical definition for every kernel",
  "Convolution of an image A with a 3x3 kernel K equals the two-dimensional convolution (kernel rotated by 180 degrees, zero outside A): the full variant is the whole (i+2)x(j+2) result, the same variant its central i x j part, and the valid variant its (i-2)x(j-2) part computed without padding. It is exact for integers (modulo 2^N for unsigned) and for exactly representable floating sums, within rounding otherwise, for every image shape - smaller than the kernel, one row or column, not square - and every kernel, symmetric or not.",
  ["inputs", "configurations"], "all images, all shapes from 1x1 up (3x3 up for valid), all kernels",
  "Both tests use 5x5 images and kernels that are symmetric, which cannot tell convolution from correlation, nor rows from columns.",
  ["matrix_conv2.hpp"],
  [("conv2 (same)", "matrix_conv2.hpp"), ("conv2_full", "matrix_conv2.hpp"), ("conv2_valid", "matrix_conv2.hpp"), ("out of range test", "matrix_conv2.hpp")])

p("C11", "Histograms count every element exactly once",
  "The histogram of A has exactly the distinct values of A as keys, each mapped to how often it occurs, so that the counts sum to the number of elements; the cumulative histogram has the same keys, each mapped to the number of elements not greater than it, so that it increases with the key and ends at the number of elements. Both hold for any shape, any number of repetitions (also more than 255) and any orderable element type without NaN.",
  ["inputs", "configurations"], "all matrices without NaN, including constant ones, all-distinct ones, negative values and signed zeros",
  "One 3x3 float matrix for the histogram; the cumulative histogram has no test.",
  ["matrix_histogram.hpp"],
  [("histogram", "matrix_histogram.hpp"), ("cumulative_histogram", "matrix_histogram.hpp")])

p("C12", "Mean, median, variance and standard deviation are the population statistics",
  "For every shape, mean is the sum of the elements divided by their number, median the middle element of the sorted elements (for an even count the average of the two middle ones), var the mean squared deviation from the mean, and stddev its non-negative square root, each within the rounding error of that computation in the element type (deviations are taken before squaring, so a large common offset does not destroy the variance). For integer elements, as long as no sum overflows, mean, median average, var (when the mean is an integer) and stddev (of a variance below 2^52) are the exact values rounded toward zero, also for negative elements; the order of the elements never matters.",
  ["inputs", "configurations"], "all matrices of finite values: odd and even counts, negative, repeated, unsorted, offset; integer and floating types",
  "One test with two 3x3 matrices whose assertions are one-sided (value - expected < eps), so that any result that is too small passes; no even count, no negative, no integer elements.",
  ["matrix_mean.hpp", "matrix_median.hpp", "matrix_var.hpp", "matrix_stddev.hpp"],
  [("mean", "matrix_mean.hpp"), ("median", "matrix_median.hpp"), ("var", "matrix_var.hpp"), ("stddev", "matrix_stddev.hpp")])

p("C13", "Constructors produce exactly the requested shape and contents",
  "fill gives an i x j matrix with every element equal to the given value, zeros every element 0, ones every element 1 (by element type and shape, or by shape alone for unsigned int, with one dimension meaning square), and eye an n x n matrix with the given value (default 1) on the diagonal and 0 elsewhere. Shape, element type and every single element are as requested for every type, shape and value (a NaN or negative zero value included).",
  ["inputs", "configurations"], "all element types, shapes (square or not) and values",
  "Tests look at a few 4x4 or smaller cases; ones is only tested square, where a wrong shape is invisible.",
  ["matrix_fill.hpp", "matrix_zeros.hpp", "matrix_ones.hpp", "matrix_eye.hpp"],
  [("fill", "matrix_fill.hpp"), ("zeros", "matrix_zeros.hpp"), ("ones", "matrix_ones.hpp"), ("eye", "matrix_eye.hpp")])

p("C14", "Comparison and identity/symmetry predicates look at every element",
  "compare(A,B,eps), eps >= 0, is true exactly when every pair of corresponding elements is equal or differs in absolute value by at most eps, so that one differing element anywhere, or a NaN in either matrix, makes it false. isIdentity is true exactly for matrices with every diagonal element equal to 1 and every other equal to 0, for any element type; isSymetric is true exactly when A equals its transpose.",
  ["inputs", "configurations"], "all matrix pairs that differ in any subset of positions by any amount around eps, NaN and infinities; all shapes, signed integer, floating and complex types",
  "Tests compare a few 2x2 matrices that differ in the first element, and identity only for unsigned int.",
  ["matrix_utils.hpp", "matrix_cholesky.hpp", "matrix_eye.hpp"],
  [("compare", "matrix_utils.hpp"), ("isIdentity", "matrix_utils.hpp"), ("isSymetric", "matrix_cholesky.hpp")])

p("C15", "Printing writes every element once, row by row",
  "print writes one line per row to standard output, each holding that row's elements in order separated by blanks, formatted as the stream would format them under its current settings; nothing is missing, merged, reordered or rounded further, and the stream's settings and the matrix are left as they were.",
  ["inputs", "configurations", "histories"], "all matrices and shapes, element types and stream format settings, also several prints in a row",
  "print has no test.",
  ["matrix_print.hpp"],
  [("print", "matrix_print.hpp"), ("print_num / print_endl", "matrix_print.hpp")], observe=["bytes written to std::cout", "std::cout format state"])

p("C16", "Undefined requests raise std::overflow_error, and nothing else does",
  "Dividing a matrix by zero, inverting a matrix with zero determinant (any size), raising it to a negative power, and factorising into LU with a zero pivot each raise a catchable std::overflow_error: the program is never terminated, trapped or left without notice by returning infinities, NaN or garbage. The arguments are unchanged afterwards, the next calls work normally, and requests that are defined (non-zero divisor, non-zero determinant and pivots, non-negative power) never raise.",
  ["inputs", "fault_sequences", "histories"], "all operations with a failure mode, all sizes and element types, in any sequence of failing and succeeding calls",
  "No test makes any call fail.",
  ["matrix_div.hpp", "matrix_inv.hpp", "matrix_lu.hpp", "matrix_pow.hpp"],
  [("zero divisor check", "matrix_div.hpp"), ("detA == 0 checks", "matrix_inv.hpp"), ("zero pivot check", "matrix_lu.hpp")],
  observe=["exception type that leaves the call", "process exit"])

p("C17", "No operation allocates dynamic memory",
  "No matrix operation, at any size and for any element type, allocates heap memory, with the sole exception of the histograms, whose result is a std::map (printing and raising an exception aside); and those release everything they allocated except the result.",
  ["inputs", "configurations"], "every operation, element type and shape, small and large",
  "No test observes the allocator.",
  ["matrix_type.hpp", "matrix_median.hpp", "matrix_histogram.hpp"],
  [("std::array storage", "matrix_type.hpp"), ("results returned by value", "matrix/*.hpp")], observe=["malloc family calls during a call"])

p("C18", "Operations stay inside their operands and read only initialised memory",
  "On every valid input (valid indices, shapes the call accepts, no arithmetic overflow of signed integers) every operation accesses only elements inside its operands and results, row and column bounds included, reads no uninitialised memory, performs no undefined arithmetic, and returns a fully initialised result.",
  ["inputs", "configurations"], "every operation, element type, shape (1x1, single row or column, not square, large) and value",
  "The tests run without sanitizers (the build option exists but is off), at a few shapes, and never with edge shapes of most operations.",
  ["matrix_type.hpp", "matrix_conv2.hpp", "matrix_det.hpp", "matrix_inv.hpp", "matrix_median.hpp", "matrix_concatenate.hpp", "matrix_swap.hpp"],
  [("index arithmetic in every loop nest", "matrix/*.hpp"), ("out of range test", "matrix_conv2.hpp"), ("value initialised results", "matrix/*.hpp")],
  observe=["AddressSanitizer, UndefinedBehaviorSanitizer, MemorySanitizer, libstdc++ assertions, valgrind"])

p("C19", "Calls are pure: same arguments, same result, from any thread",
  "The result of a call depends only on its arguments: not on earlier calls (successful or failed), on what the stack held before, or on calls running at the same time in other threads. Nor do calls change what the rest of the program shares with them (floating-point rounding and traps, the sequence of std::rand, the locale, handlers). Calls never modify their arguments (swap_rows and swap_cols modify only the matrix they are given), and concurrent calls, even on the same operands, involve no data race.",
  ["schedules", "histories", "inputs"], "all interleavings of any operations from any number of threads, all call histories",
  "All tests are single threaded and call each operation once or twice per process.",
  ["matrix/*.hpp"],
  [("no state outside the call", "matrix/*.hpp"), ("const reference parameters", "matrix/*.hpp")], observe=["results in each thread", "ThreadSanitizer", "argument bytes before and after"])

p("C20", "One include, any translation unit, any standard from C++11, same results",
  "Including only the umbrella header is enough to use the whole library, in any number of translation units of one program, with gcc and clang, for C++11 to C++20, at any optimisation level; the program links and every operation gives the same result in each of these builds.",
  ["configurations", "inputs"], "compilers x language standards x optimisation levels x assertions on or off x number of including translation units",
  "Each test is a single translation unit, built by gcc without optimisation, as C++14, after gtest has included most of the standard library.",
  ["matrix.hpp", "matrix_print.hpp", "matrix_median.hpp", "CMakeLists.txt"],
  [("include list of the umbrella header", "matrix.hpp"), ("templates and static inline functions", "matrix_print.hpp")], observe=["result logs of each build, compared"])

p("C21", "The benchmark programs only touch memory they own",
  "Every benchmark shipped with the library runs to completion without reading or writing outside its matrices, whatever random numbers it draws.",
  ["inputs", "configurations"], "all benchmarks and random draws",
  "Benchmarks are built but never run by the tests.",
  ["bench/cache/cache.hpp", "bench/det/det.hpp", "bench/inv/inv.hpp", "bench/multiply/multiply.hpp", "bench/inc/setRand.hpp"],
  [("index distribution in rand_major", "bench/cache/cache.hpp")], observe=["AddressSanitizer, libstdc++ assertions"])

p("C22", "Any program of operations agrees with a reference interpreter",
  "Any sequence of library calls on a set of matrices - each result feeding later calls, or overwriting one of its own operands - leaves every matrix exactly as a plain reference interpreter of matrix algebra does, step by step (unsigned elements: arithmetic modulo 2^N; signed integer and floating elements: while every value involved is an exactly representable integer).",
  ["programs", "histories"], "all straight-line programs over construction, arithmetic, product, power, transpose, swaps, minors, concatenation, convolution, determinant, inverse and negative power of integer matrices with determinant 1 or -1, mean, median, histogram and comparison, on shapes up to 17x17",
  "Tests call one operation at a time on literals and never chain more than two different ones.",
  ["matrix/*.hpp"],
  [("value semantics of Matrix", "matrix_type.hpp"), ("all operations", "matrix/*.hpp")], observe=["state of all matrices after each step"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
