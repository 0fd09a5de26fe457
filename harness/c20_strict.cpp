// C20: a translation unit that includes the umbrella header and nothing else
// (before or after it), and uses the whole library.  It is compiled twice
// (C20_TU 1 and 2) and linked into one program with a third unit.  Every result
// goes to a sink as raw bits; what the sink writes is compared over all builds.
#include "matrix.hpp"
#include "matrix.hpp"

// defined in the third translation unit
extern "C" void c20_bits(const void* p, unsigned long bytes, int is_float);
extern "C" void c20_line(const char* op, const char* type, int r, int c, int k);
extern "C" void c20_note(const char* what);
extern "C" unsigned long long c20_seed();

namespace C20_NS
{
typedef unsigned long long u64;
static u64 g_s;
static u64 rnd() { g_s += 0x9E3779B97F4A7C15ull; u64 x = g_s; x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ull; x = (x ^ (x >> 27)) * 0x94D049BB133111EBull; return x ^ (x >> 31); }
static long small(long lo, long hi) { return lo + static_cast<long>(rnd() % static_cast<u64>(hi - lo + 1)); }

template <class T> struct Ty;
template <> struct Ty<int> { static const char* n() { return "int"; } enum { f = 0, s = 1, bytes = 4 }; };
template <> struct Ty<unsigned> { static const char* n() { return "uint"; } enum { f = 0, s = 0, bytes = 4 }; };
template <> struct Ty<long> { static const char* n() { return "long"; } enum { f = 0, s = 1, bytes = 8 }; };
template <> struct Ty<short> { static const char* n() { return "short"; } enum { f = 0, s = 1, bytes = 2 }; };
template <> struct Ty<unsigned short> { static const char* n() { return "ushort"; } enum { f = 0, s = 0, bytes = 2 }; };
template <> struct Ty<signed char> { static const char* n() { return "schar"; } enum { f = 0, s = 1, bytes = 1 }; };
template <> struct Ty<float> { static const char* n() { return "float"; } enum { f = 1, s = 1, bytes = 4 }; };
template <> struct Ty<double> { static const char* n() { return "double"; } enum { f = 2, s = 1, bytes = 8 }; };
template <> struct Ty<long double> { static const char* n() { return "ldouble"; } enum { f = 3, s = 1, bytes = 10 }; };

// integers: small ones, ones so large that sums of g_cells products just fit, and for unsigned types all
static u64 g_cells = 1;
template <class T> T value(int fam)
{
  if (!Ty<T>::f)
  {
    if (fam < 2) return static_cast<T>(small(Ty<T>::s ? -9 : 0, 9));
    if (!Ty<T>::s) return static_cast<T>(Ty<T>::bytes < 4 ? rnd() % 256 : rnd() >> (rnd() % 64));     // (short operands are promoted to int)
    const int bits = 8 * Ty<T>::bytes - 1;
    u64 b = 1;
    while (4 * b * b * (g_cells > 27 ? g_cells : 27) * 8 < (1ull << (bits - 1)) && b < (1ull << 28)) b *= 2;
    return static_cast<T>(small(-static_cast<long>(b), static_cast<long>(b)));
  }
  if (fam == 0) return static_cast<T>(small(-9, 9));
  if (fam == 3)      // infinities, signed zeros, very large and very small values
  {
    const T inf = static_cast<T>(__builtin_inff()), big = static_cast<T>(1e30f), tiny = static_cast<T>(1e-40f);
    const T v[] = { inf, T(0), big, tiny, T(1), T(T(3) / T(7)), T(big * T(1e5f)), T(tiny / T(64)) };
    const T x = v[rnd() % 8];
    return rnd() & 1 ? -x : x;
  }
  return static_cast<T>(small(-1000003, 1000003)) / static_cast<T>(fam == 1 ? 1024 : 999983);
}
template <class T, unsigned long R, unsigned long C> mlib::Matrix<T, R, C> rmat(int fam)
{
  mlib::Matrix<T, R, C> A;
  for (unsigned long i = 0; i < R; ++i) for (unsigned long j = 0; j < C; ++j) A[i][j] = value<T>(fam);
  return A;
}
template <class T> void out(const T& v) { c20_bits(&v, Ty<T>::bytes, Ty<T>::f); }
static void out(bool v) { const int x = v; c20_bits(&x, 4, 0); }
template <class T, unsigned long R, unsigned long C> void out(const mlib::Matrix<T, R, C>& A) { for (unsigned long i = 0; i < R; ++i) for (unsigned long j = 0; j < C; ++j) out(A[i][j]); }

#define OP(name, expr) do { c20_line(name, Ty<T>::n(), int(R), int(C), k); out(expr); } while (0)
#define TRY(name, stmt) do { c20_line(name, Ty<T>::n(), int(R), int(C), k); try { stmt; } catch (const std::overflow_error&) { c20_note("overflow_error"); } } while (0)

template <class T, unsigned long R, unsigned long C, bool ok> struct Valid { static void run(const mlib::Matrix<T, R, C>&, const mlib::Matrix<T, 3, 3>&, int) {} };
template <class T, unsigned long R, unsigned long C> struct Valid<T, R, C, true>
{ static void run(const mlib::Matrix<T, R, C>& A, const mlib::Matrix<T, 3, 3>& K, int k) { OP("conv2_valid", mlib::conv2_valid(A, K)); } };
template <class T, unsigned long R, unsigned long C, int s> struct Signed
{ static void run(const mlib::Matrix<T, R, C>& A, const mlib::Matrix<T, R, C>& B, int k) { OP("abs", mlib::abs(A)); OP("compare", mlib::compare(A, B, 0.25f)); OP("compare same", mlib::compare(A, A, 0.0f)); } };
template <class T, unsigned long R, unsigned long C> struct Signed<T, R, C, 0> { static void run(const mlib::Matrix<T, R, C>&, const mlib::Matrix<T, R, C>&, int) {} };

template <class T, unsigned long R, unsigned long C> void rect(int cases)
{
  using namespace mlib;
  for (int k = 0; k < cases; ++k)
  {
    g_cells = (R + 2) * (C + 2);
    g_s = c20_seed() + R * 1000003 + C * 10007 + static_cast<u64>(k) * 65537 + Ty<T>::f * 97 + Ty<T>::bytes;
    const Matrix<T, R, C> A = rmat<T, R, C>(k % 4), B = rmat<T, R, C>(k % 4);
    const Matrix<T, C, R> D = rmat<T, C, R>(k % 4);
    const Matrix<T, R + 1, C> E = rmat<T, R + 1, C>(k % 4);
    const Matrix<T, R, C + 1> F = rmat<T, R, C + 1>(k % 4);
    const Matrix<T, 3, 3> K = rmat<T, 3, 3>(k % 4);
    const T s = value<T>(k % 4);
    OP("sum", mlib::sum(A, B)); OP("A+B", A + B); OP("A+s", A + s); OP("s+A", s + A); OP("A++", A++); OP("sum_s", mlib::sum(A, s));
    OP("sub", mlib::sub(A, B)); OP("A-B", A - B); OP("A-s", A - s); OP("A--", A--);
    OP("A*s", A * s); OP("s*A", s * A); OP("mult_s", mlib::mult(A, s)); OP("A*D", A * D); OP("mult", mlib::mult(A, D));
    TRY("A/s", out(A / s)); TRY("div", out(mlib::div(A, s))); TRY("A/0", out(A / T(0)));
    OP("A==B", A == B); OP("A!=B", A != B); OP("A==A", A == A);
    OP("trans", mlib::trans(A));
    { Matrix<T, R, C> G = A; mlib::swap_rows(G, rnd() % R, rnd() % R); OP("swap_rows", G); mlib::swap_cols(G, rnd() % C, rnd() % C); OP("swap_cols", G); }
    OP("conv2", mlib::conv2(A, K)); OP("conv2_full", mlib::conv2_full(A, K)); Valid<T, R, C, (R >= 3 && C >= 3)>::run(A, K, k);
    OP("mean", mlib::mean(A)); OP("median", mlib::median(A)); OP("var", mlib::var(A)); OP("stddev", mlib::stddev(A));
    OP("fill", (mlib::fill<T, R, C>(s))); OP("zeros", (mlib::zeros<T, R, C>())); OP("ones", (mlib::ones<T, R, C>())); OP("ones<i,j>", (mlib::ones<R, C>()));
    OP("vcat", mlib::concatenate(A, E)); OP("hcat", mlib::concatenate(A, F));
    { c20_line("histogram", Ty<T>::n(), int(R), int(C), k); const auto h = mlib::histogram(A); for (auto& p : h) { out(p.first); const unsigned long n = p.second; c20_bits(&n, sizeof n, 0); } }
    { c20_line("cumulative_histogram", Ty<T>::n(), int(R), int(C), k); const auto h = mlib::cumulative_histogram(A); for (auto& p : h) { out(p.first); const unsigned long n = p.second; c20_bits(&n, sizeof n, 0); } }
    Signed<T, R, C, Ty<T>::s>::run(A, B, k);
    if (k < 2) { c20_line("print", Ty<T>::n(), int(R), int(C), k); c20_note(""); mlib::print(A); }
  }
}
template <class T, unsigned long n, int s> struct SqSigned
{
  static void run(const mlib::Matrix<T, n, n>& P, const mlib::Matrix<T, n, n>& Z, const mlib::Matrix<T, n, n>& A, int k)
  {
    const unsigned long R = n, C = n;
    OP("det", mlib::det(P)); OP("det singular", mlib::det(Z));
    if (n <= 3 || Ty<T>::f) OP("det any", mlib::det(A));
    if (n > 24) return;
    TRY("inv", out(mlib::inv(P))); TRY("inv singular", out(mlib::inv(Z)));
    if (Ty<T>::f) TRY("inv any", out(mlib::inv(A)));
    TRY("pow negative", out(mlib::pow(P, -3))); TRY("pow negative singular", out(mlib::pow(Z, -1)));
  }
};
template <class T, unsigned long n> struct SqSigned<T, n, 0> { static void run(const mlib::Matrix<T, n, n>&, const mlib::Matrix<T, n, n>&, const mlib::Matrix<T, n, n>&, int) {} };
template <class T, unsigned long n, bool ok> struct Minor { static void run(const mlib::Matrix<T, n, n>&, int) {} };
template <class T, unsigned long n> struct Minor<T, n, true>
{ static void run(const mlib::Matrix<T, n, n>& A, int k) { const unsigned long R = n, C = n; const unsigned long i = rnd() % n, j = rnd() % n; OP("getminor", mlib::getminor(A, i, j)); } };
template <class T, unsigned long n> struct Str { static void run(const mlib::Matrix<T, n, n>&, const mlib::Matrix<T, n, n>&, int) {} };
template <class T> struct Str<T, 2> { static void run(const mlib::Matrix<T, 2, 2>& A, const mlib::Matrix<T, 2, 2>& B, int k) { const unsigned long R = 2, C = 2; OP("strassen", mlib::strassen(A, B)); } };

template <class T, unsigned long n> void square(int cases)
{
  using namespace mlib;
  const unsigned long R = n, C = n;
  for (int k = 0; k < cases; ++k)
  {
    g_cells = n < 4 ? (Ty<T>::bytes > 4 ? 1ull << 20 : 1ull << 12) : n * n;     // 3x3 determinants multiply three of them
    g_s = c20_seed() + n * 1000033 + static_cast<u64>(k) * 65539 + Ty<T>::f * 89 + Ty<T>::bytes;
    const Matrix<T, n, n> A = rmat<T, n, n>(k % 3), B = rmat<T, n, n>(k % 3);
    Matrix<T, n, n> P = mlib::eye<T, n>(), Z = rmat<T, n, n>(Ty<T>::f ? k % 3 : 0), L = mlib::zeros<T, n, n>(), S = mlib::zeros<T, n, n>();
    for (unsigned long q = n; q-- > 1; ) mlib::swap_rows(P, q, rnd() % (q + 1));
    if (Ty<T>::s) for (unsigned long q = 0; q < n; ++q) if (rnd() & 1) for (unsigned long j = 0; j < n; ++j) P[q][j] = T(0) - P[q][j];
    { const unsigned long z = rnd() % n; for (unsigned long j = 0; j < n; ++j) Z[z][j] = T(0); }
    for (unsigned long i = 0; i < n; ++i) for (unsigned long j = 0; j <= i; ++j) L[i][j] = i == j ? static_cast<T>(1 + rnd() % 3) : Ty<T>::f ? value<T>(k % 3) / static_cast<T>(8) : static_cast<T>(small(0, 2));
    for (unsigned long i = 0; i < n; ++i) for (unsigned long j = 0; j < n; ++j) for (unsigned long q = 0; q < n; ++q) S[i][j] += L[i][q] * L[j][q];
    SqSigned<T, n, Ty<T>::s>::run(P, Z, A, k);
    OP("pow", mlib::pow(P, 13)); OP("pow 0", mlib::pow(A, 0)); OP("pow 2", mlib::pow(A, 2));
    OP("chol", mlib::chol(S)); OP("isSymetric", mlib::isSymetric(S)); OP("isSymetric any", mlib::isSymetric(A));
    TRY("lu", const auto f = mlib::lu(S); out(f.first); out(f.second));
    TRY("lu singular", const auto f = mlib::lu(Z); out(f.first); out(f.second));
    OP("eye", (mlib::eye<T, n>())); OP("eye v", (mlib::eye<T, n>(A[0][0]))); OP("eye special", (mlib::eye<T, n>(value<T>(3)))); OP("ones n", (mlib::ones<T, n>())); OP("isIdentity", mlib::isIdentity(P)); OP("isIdentity eye", mlib::isIdentity(mlib::eye<T, n>()));
    { c20_line("concatenate", Ty<T>::n(), int(R), int(C), k); const auto f = mlib::concatenate(A, B); out(f.first); out(f.second); }
    OP("concatenateV", mlib::concatenateV(A, B)); OP("concatenateH", mlib::concatenateH(A, B));
    Minor<T, n, (n >= 2)>::run(A, k); Str<T, n>::run(A, B, k);
  }
}
template <> void out<unsigned>(const unsigned& v) { c20_bits(&v, 4, 0); }
template <class T> void all(int cases)
{
  rect<T, 1, 1>(cases); rect<T, 1, 3>(cases); rect<T, 4, 1>(cases); rect<T, 2, 2>(cases); rect<T, 2, 3>(cases); rect<T, 3, 3>(cases); rect<T, 5, 4>(cases); rect<T, 9, 8>(cases);
  square<T, 1>(cases); square<T, 2>(cases); square<T, 3>(cases); square<T, 4>(cases); square<T, 5>(cases); square<T, 8>(cases);
}
}
extern "C" void C20_ENTRY(int cases)
{
  using namespace C20_NS;
  // both translation units instantiate these, with the same operands
  rect<int, 2, 3>(cases); square<int, 3>(cases); rect<double, 3, 3>(cases); square<double, 4>(cases); rect<float, 2, 2>(cases);
  c20_note(""); c20_note("%own"); c20_note("");
#if C20_TU == 1
  all<int>(cases); all<unsigned>(cases); all<long>(cases); rect<int, 67, 40>(cases / 2 + 1); square<int, 17>(cases / 2 + 1); square<int, 66>(1); rect<int, 1, 300>(cases / 2 + 1); rect<signed char, 3, 5>(cases); rect<short, 3, 5>(cases); rect<unsigned short, 3, 5>(cases);
#else
  all<float>(cases); all<double>(cases); all<long double>(cases); rect<double, 67, 40>(cases / 2 + 1); square<double, 17>(cases / 2 + 1); square<double, 66>(1); rect<double, 300, 1>(cases / 2 + 1); rect<float, 18, 33>(cases / 2 + 1);
#endif
}
