// C06: Cholesky factorisation.  Oracles: structure, element-wise residual in
// higher precision, the constructed integer factor.
#include "shapes.hpp"
#include "families.hpp"
using namespace mon;

template <class T> struct Table { size_t n; void (*chol)(const T*, T*); };
template <class T, size_t N> void call(const T* a, T* l) { as<N, N>(l) = mlib::chol(as<N, N>(a)); }

template <class T> int grade(Rng& r, int wide) { const int e = std::is_same<T, float>::value ? 45 : std::is_same<T, double>::value ? 400 : 4000; return static_cast<int>(r.range(-e, e) / (wide ? 1 : 6)); }

template <class T> void unit(Ctx& c, const void* p)
{
  const Table<T>& t = *static_cast<const Table<T>*>(p);
  const size_t n = t.n;
  const bool integral = std::is_integral<T>::value;
  const int mode = integral ? 0 : static_cast<int>(c.case_no % 7);
  DM<T> A(n, n), L(n, n), L0(n, n);
  typedef typename std::conditional<std::is_same<T, long double>::value, Q, long double>::type X;
  if (mode == 0)
  {
    const i64 e = sizeof(T) <= 2 ? 1 : 3;
    if (sizeof(T) <= 2 && n > 40) return c.event("skipped: would overflow");
    // powers of two on the diagonal, so that no quotient rounds
    for (size_t i = 0; i < n; ++i) for (size_t j = 0; j <= i; ++j)
      L0(i, j) = i == j ? static_cast<T>(i64(1) << c.rng.below(sizeof(T) <= 2 ? 3 : 5)) : small_int<T>(c.rng, e);
    for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) { T s = T(0); for (size_t k = 0; k < n; ++k) s += L0(i, k) * L0(j, k); A(i, j) = s; }
  }
  else
  {
    DM<T> G(n, n);
    for (size_t k = 0; k < G.size(); ++k) G.data()[k] = static_cast<T>(c.rng.unit() * 2 - 1);
    for (size_t i = 0; i < n; ++i) for (size_t j = 0; j <= i; ++j)
    {
      T s = T(0);
      for (size_t k = 0; k < n; ++k) s += G(i, k) * G(j, k);
      if (i == j) s += static_cast<T>(mode == 2 ? 0.05L : mode == 4 ? 1.0L * n : 1.0L);
      A(i, j) = s;
    }
    if (mode == 1) for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < i; ++j) if (c.rng.chance(1, 2)) A(i, j) /= static_cast<T>(n + 1);   // still dominant enough
    if (mode == 1) for (size_t i = 0; i < n; ++i) A(i, i) += static_cast<T>(2 * n);
    if (mode == 5) for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < i; ++j) A(i, j) = T(0);                       // diagonal
    if (mode == 6)                                                                                                       // min(i,j)+1: classic
      for (size_t i = 0; i < n; ++i) for (size_t j = 0; j <= i; ++j) A(i, j) = static_cast<T>(j + 1);
    if (mode == 3 || mode == 5)
    {
      // entries of widely different scale
      std::vector<int> e(n);
      for (auto& x : e) x = grade<T>(c.rng, c.rng.chance(1, 2));
      for (size_t i = 0; i < n; ++i) for (size_t j = 0; j <= i; ++j) A(i, j) = std::ldexp(A(i, j), e[i] + e[j]);
    }
    for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < i; ++j) A(j, i) = A(i, j);
  }
  c.in(A);
  if (n == 1) c.nontrivial = true;
  const DM<T> before = A;
  for (size_t k = 0; k < L.size(); ++k) L.data()[k] = T(5);
  t.chol(A.data(), L.data());
  if (!same_mat(A, before)) return c.fail("chol changed its argument; A=" + dump(before));
  for (size_t i = 0; i < n; ++i)
  {
    if (!(L(i, i) > T(0))) return c.fail("chol: L(" + std::to_string(i) + "," + std::to_string(i) + ") is " + str(L(i, i)) + ", not positive; A=" + dump(A));
    for (size_t j = i + 1; j < n; ++j) if (!(L(i, j) == T(0))) return c.fail("chol: L(" + std::to_string(i) + "," + std::to_string(j) + ") is " + str(L(i, j)) + ", not 0; A=" + dump(A));
  }
  c.event("factor lower triangular, diagonal positive");
  if (mode == 0)
  {
    if (!same_mat(L, L0)) return c.fail("chol: not the integer factor A was made of; A=" + dump(A) + " L=" + dump(L) + " expected " + dump(L0));
    return c.event("integer factor recovered");
  }
  const X u = static_cast<X>(eps_of<T>::get());
  for (size_t i = 0; i < n; ++i) for (size_t j = 0; j <= i; ++j)
  {
    X s = 0, a = 0;
    for (size_t k = 0; k <= j; ++k) { const X z = static_cast<X>(L(i, k)) * static_cast<X>(L(j, k)); s += z; a += z < 0 ? -z : z; }
    X d = s - static_cast<X>(A(i, j));
    if (d < 0) d = -d;
    const X tol = X(4) * X(n + 1) * u * a + static_cast<X>(std::numeric_limits<T>::denorm_min()) * X(n);
    c.gauge("Cholesky residual / bound", static_cast<double>(d / tol));
    if (!(d <= tol))
      return c.fail("chol: L*trans(L)(" + std::to_string(i) + "," + std::to_string(j) + ") is " + str(static_cast<long double>(s)) + ", A there is " + str(A(i, j)) + ", allowed difference " + str(static_cast<long double>(tol)) + "; A=" + dump(A));
  }
  c.event("L*trans(L) equals A within rounding");
  if (mode == 3 || mode == 5) c.event("graded scales");
}
template <class T, size_t N> struct Reg
{
  static void reg()
  {
    static const Table<T> t = { N, &call<T, N> };
    add(std::string("chol/") + TName<T>::get() + "/" + std::to_string(N), &unit<T>, &t, N <= 8 ? 1 : std::max(0.03, 512.0 / (double(N) * N * N)));
  }
};
static void reg()
{
#if MON_PART >= 10
  DenseSizes<Reg, 40>::reg();
#elif MON_PART == 0
  each_size<Reg, int>(CubeSizes()); each_size<Reg, long long>(FewSizes()); each_size<Reg, short>(FewSizes()); each_size<Reg, long>(RareSizes()); each_size<Reg, signed char>(RareSizes());
#elif MON_PART == 1
  each_size<Reg, float>(CubeSizes()); each_size<Reg, float>(Sizes<64, 101>());
#elif MON_PART == 2
  each_size<Reg, double>(CubeSizes()); each_size<Reg, double>(Sizes<64, 101, 130, 258>());
#else
  each_size<Reg, long double>(CubeSizes());
#endif
}
MON_MAIN(reg)
