// C03: determinant.  Oracles: residues modulo two large primes for integers
// (together they identify any representable determinant), elimination with
// complete pivoting in quad precision for floating elements.
#include "shapes.hpp"
#include "families.hpp"
using namespace mon;

template <class T> struct Table { size_t n; T (*det)(const T*); };
template <class T, size_t N> T call(const T* a) { return mlib::det(as<N, N>(a)); }

// ------------------------------------------------------------- integers -----
template <class T> void check(Ctx& c, const Table<T>& t, std::true_type)
{
  const size_t n = t.n;
  const int bits = 8 * sizeof(T) - 1;
  bool zero = false, known = false;
  i64 expect = 0;
  DM<T> A(n, n);
  const int fam = static_cast<int>(c.case_no % (kInt + 2));
  if (n <= 3)
  {
    // every product of the expansion and their partial sums fit
    const i64 b = n == 1 ? static_cast<i64>(lim<T>::hi()) : n == 2 ? static_cast<i64>(std::sqrt((long double)lim<T>::hi() / 2)) : static_cast<i64>(std::cbrt((long double)lim<T>::hi() / 6));
    A = int_family<T>(c.rng, n, fam % kInt, c.rng.chance(1, 2) ? b : std::min<i64>(b, 9), zero);
  }
  else if (fam >= kInt)
  {
    // unit triangular factors times a diagonal: the determinant is known, the entries may be large
    const i64 e = fam == kInt ? 1 : 3;
    DM<i64> L(n, n), U(n, n), P(n, n);
    for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j)
    {
      if (j < i) L(i, j) = c.rng.range(-e, e);
      if (j > i) U(i, j) = c.rng.range(-e, e);
    }
    expect = 1;
    for (size_t i = 0; i < n; ++i)
    {
      L(i, i) = 1;
      i64 d = i + 6 > n ? c.rng.range(-4, 4) : (c.rng.chance(1, 2) ? 1 : -1);
      if (d == 0 && c.rng.chance(2, 3)) d = 1;
      U(i, i) = d;
      expect *= d;
    }
    for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) { i64 s = 0; for (size_t k = 0; k < n; ++k) s += L(i, k) * U(k, j); P(i, j) = s; }
    // a permutation of the rows changes the sign only
    for (size_t k = n; k-- > 1; ) { const size_t o = c.rng.below(k + 1); if (o != k) { expect = -expect; for (size_t j = 0; j < n; ++j) std::swap(P(k, j), P(o, j)); } }
    for (size_t k = 0; k < A.size(); ++k)
    {
      if (P.data()[k] > static_cast<i64>(lim<T>::hi()) || P.data()[k] < lim<T>::lo()) return;
      A.data()[k] = static_cast<T>(P.data()[k]);
    }
    if (bits < 62 && (expect > static_cast<i64>(lim<T>::hi()) || expect < lim<T>::lo())) return;
    known = true;
  }
  else
  {
    i64 b = 9;
    // the largest bound for which Hadamard's inequality keeps the determinant representable
    const long double lb = ((bits - 1) - n / 2.0L * std::log2((long double)n)) / n;
    const i64 big = lb < 0 ? 1 : static_cast<i64>(std::exp2(std::min(lb, 40.0L)));
    if (c.rng.chance(1, 2)) b = std::max<i64>(1, big); else b = std::max<i64>(1, std::min<i64>(b, big));
    A = int_family<T>(c.rng, n, fam, b, zero);
    if (log2_hadamard(A) > bits - 1) { c.event("skipped: may not be representable"); return; }
  }
  c.in(A);
  const DM<T> before = A;
  const T got = t.det(A.data());
  if (!same_mat(A, before)) return c.fail("det changed its argument; A=" + dump(before));
  if (zero && got != T(0)) return c.fail("det is " + str(got) + " for a matrix with a zero row or column; A=" + dump(A));
  if (known)
  {
    if (static_cast<i64>(got) != expect) return c.fail("det is " + str(got) + ", expected " + str(expect) + "; A=" + dump(A));
    return c.event("integer det, constructed value");
  }
  for (u64 p : {kP1, kP2})
  {
    std::vector<std::vector<u64>> m(n, std::vector<u64>(n));
    for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) m[i][j] = tomod(static_cast<i64>(A(i, j)), p);
    const u64 w = detmod(m, p);
    if (tomod(static_cast<i64>(got), p) != w)
      return c.fail("det is " + str(got) + ", which is not the determinant modulo " + str(p) + " (there it is " + str(w) + (w > p / 2 ? " = -" + str(p - w) : std::string()) + "); A=" + dump(A));
  }
  c.event(zero ? "integer det, zero row or column" : got == 0 ? "integer det, singular" : "integer det");
}

// ------------------------------------------------------------- floating -----
template <class T> void check(Ctx& c, const Table<T>& t, std::false_type)
{
  const size_t n = t.n;
  bool zero = false;
  const int fam = static_cast<int>(c.case_no % (kInt + kFlt));
  const i64 b = n <= 4 ? 9 : n <= 9 ? 3 : 1;
  auto A = fam < kInt ? int_family<T>(c.rng, n, fam, b, zero) : float_family<T>(c.rng, n, fam - kInt);
  // keep the determinant of large matrices in range: scale by a power of two
  const long double lh = log2_hadamard(A);
  if (lh > 40) { const int e = -static_cast<int>(lh / n); for (size_t k = 0; k < A.size(); ++k) A.data()[k] = std::ldexp(A.data()[k], e); }
  if (c.rng.chance(1, 3)) { scale_all(A, scale_exponent<T>(c.rng, n)); c.event("scaled by a power of two"); }
  if (n <= 3 && c.rng.chance(1, 4))
  {
    // entries of very different magnitudes: one of them may dwarf the determinant
    for (size_t k = 0; k < A.size(); ++k) A.data()[k] = std::ldexp(A.data()[k], static_cast<int>(c.rng.range(-9, 9)) * (std::is_same<T, float>::value ? 1 : 4));
    c.event("entries of different magnitudes");
  }
  c.in(A);
  const DM<T> before = A;
  const T got = t.det(A.data());
  if (!same_mat(A, before)) return c.fail("det changed its argument; A=" + dump(before));
  if (zero)
  {
    if (!(got == T(0))) return c.fail("det is " + str(got) + " for a matrix with a zero row or column; A=" + dump(A));
    return c.event("det, zero row or column");
  }
  const QM q = toq(A);
  const Q u = static_cast<Q>(eps_of<T>::get());
  Q d = 0;
  if (n == 2) d = q(0, 0) * q(1, 1) - q(0, 1) * q(1, 0);
  else if (n == 3) for (size_t i = 0; i < 3; ++i) d += q(0, i) * (q(1, (i + 1) % 3) * q(2, (i + 2) % 3) - q(1, (i + 2) % 3) * q(2, (i + 1) % 3));
  else d = qdet(q);
  Q cs;
  if (!qcofsum(q, d, cs)) return c.event("skipped: large singular matrix");
  const Q lo = static_cast<Q>(std::numeric_limits<T>::min()) * static_cast<Q>(std::pow(10.0L, std::is_same<T, float>::value ? 12 : 80));
  if (d != 0 && qabs(d) < lo) return c.event("skipped: close to underflow");
  // backward error delta per element: first order through the cofactors; higher orders (all
  // that is left when the rank is n-2 or less) through Hadamard's bound on smaller minors
  const Q delta = Q(4) * Q(n) * Q(n) * u * qmaxabs(q);
  std::vector<long double> norms;
  for (size_t i = 0; i < n; ++i) { Q s = 0; for (size_t j = 0; j < n; ++j) s += q(i, j) * q(i, j); norms.push_back(static_cast<long double>(qsqrt(s))); }
  std::sort(norms.begin(), norms.end(), std::greater<long double>());
  Q high = 0, f = 1;                                       // f = C(n,k)^2 k! delta^k
  for (size_t k = 1; k <= n; ++k)
  {
    f *= Q(n - k + 1) * Q(n - k + 1) / Q(k) * delta;
    if (k < 2) continue;
    Q h = f;
    for (size_t m = 0; m + k < n; ++m) h *= static_cast<Q>(norms[m]);
    high += h;
  }
  Q tol = delta * cs + high;
  if (n <= 3)
  {
    // closed forms: a few roundings of the products themselves
    Q perm = 0;
    if (n == 1) perm = 0;
    else if (n == 2) perm = qabs(q(0, 0) * q(1, 1)) + qabs(q(0, 1) * q(1, 0));
    else for (size_t i = 0; i < 3; ++i) perm += qabs(q(0, i)) * (qabs(q(1, (i + 1) % 3) * q(2, (i + 2) % 3)) + qabs(q(1, (i + 2) % 3) * q(2, (i + 1) % 3)));
    const Q tiny = static_cast<Q>(std::numeric_limits<T>::min());
    tol = std::min(tol, Q(8) * Q(n) * u * perm + (n == 1 ? Q(0) : Q(8) * tiny * (Q(1) + qmaxabs(q))));
    c.event("det, closed form within its roundings");
  }
  c.gauge("det error / bound", static_cast<double>(tol > 0 ? qabs(static_cast<Q>(got) - d) / tol : Q(0)));
  if (!(qabs(static_cast<Q>(got) - d) <= tol))
    return c.fail("det is " + str(got) + ", expected " + str(d) + " within " + str(tol) + "; A=" + dump(A));
  if (tol < qabs(d)) c.event("det, sign and value determined");
  c.event("det, within bound");
}
template <class T> void unit(Ctx& c, const void* p) { check<T>(c, *static_cast<const Table<T>*>(p), std::integral_constant<bool, std::is_integral<T>::value>()); }
template <class T, size_t N> struct Reg
{
  static void reg()
  {
    static const Table<T> t = { N, &call<T, N> };
    add(std::string("det/") + TName<T>::get() + "/" + std::to_string(N), &unit<T>, &t, N <= 8 ? 1 : std::max(0.02, 512.0 / (double(N) * N * N)));
  }
};
typedef Sizes<1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 20, 24, 31, 32, 33> DetSizes;
typedef Sizes<40, 64, 65, 101, 130, 260> BigSizes;
static void reg()
{
#if MON_PART >= 10
  DenseSizes<Reg, 40>::reg();
#elif MON_PART == 0
  each_size<Reg, int>(DetSizes()); each_size<Reg, int>(Sizes<48, 130>());
#elif MON_PART == 1
  each_size<Reg, long long>(DetSizes()); each_size<Reg, short>(FewSizes()); each_size<Reg, long>(RareSizes()); each_size<Reg, signed char>(RareSizes());
#elif MON_PART == 2
  each_size<Reg, double>(DetSizes()); each_size<Reg, double>(BigSizes());
#else
  each_size<Reg, float>(DetSizes()); each_size<Reg, long double>(DetSizes()); each_size<Reg, long double>(BigSizes());
#endif
}
MON_MAIN(reg)
