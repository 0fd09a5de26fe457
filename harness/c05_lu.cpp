// C05: LU factorisation.  Oracles: structure of the factors, element-wise
// residual in quad precision, the constructed integer factors, and the exception
// for a pivot constructed to be zero.
#include "shapes.hpp"
#include "families.hpp"
using namespace mon;

template <class T> struct Table { size_t n; void (*lu)(const T*, T*, T*); };
template <class T, size_t N> void call(const T* a, T* l, T* u) { const auto r = mlib::lu(as<N, N>(a)); as<N, N>(l) = r.first; as<N, N>(u) = r.second; }

template <class T> void scale(DM<T>&, int, std::true_type) {}
template <class T> void scale(DM<T>& A, int e, std::false_type) { scale_all(A, e); }

template <class T> void unit(Ctx& c, const void* p)
{
  const std::integral_constant<bool, std::is_integral<T>::value> kind;
  const Table<T>& t = *static_cast<const Table<T>*>(p);
  const size_t n = t.n;
  const bool integral = std::is_integral<T>::value;
  const int mode = integral ? static_cast<int>(c.case_no % 2) : static_cast<int>(c.case_no % 8);
  DM<T> A(n, n), L(n, n), U(n, n), L0(n, n), U0(n, n);
  bool zero_pivot = false, constructed = mode <= 1;
  if (constructed)
  {
    // integer factors; powers of two on the diagonal, so that no step rounds
    const i64 e = sizeof(T) <= 2 ? 1 : 3;
    if (sizeof(T) <= 2 && n > 40) return c.event("skipped: would overflow");
    for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j)
    {
      if (j < i) L0(i, j) = small_int<T>(c.rng, e);
      if (j > i) U0(i, j) = small_int<T>(c.rng, e);
      if (j == i) { L0(i, i) = T(1); U0(i, i) = static_cast<T>((c.rng.chance(1, 2) ? 1 : -1) * (1 << c.rng.below(3))); }
    }
    if (mode == 1)
    {
      zero_pivot = true;
      const size_t k = c.rng.chance(1, 3) ? n - 1 : c.rng.below(n);
      U0(k, k) = T(0);
      if (c.rng.chance(1, 3)) U0(c.rng.below(n), c.rng.below(n)) = T(0);
      for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < i; ++j) U0(i, j) = T(0);
    }
    for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) { T s = T(0); for (size_t k = 0; k < n; ++k) s += L0(i, k) * U0(k, j); A(i, j) = s; }
    if (zero_pivot)
    {
      // elimination stops at the first zero pivot; rows below may hold anything
      size_t k = 0;
      while (!(U0(k, k) == T(0))) ++k;
      if (!integral && c.rng.chance(1, 2)) for (size_t i = k + 1; i < n; ++i) for (size_t j = k + 1; j < n; ++j) A(i, j) = static_cast<T>(c.rng.unit());
    }
  }
  else
  {
    for (size_t k = 0; k < A.size(); ++k) A.data()[k] = static_cast<T>(c.rng.unit() * 2 - 1);
    switch (mode)
    {
      case 2: break;
      case 3: for (size_t i = 0; i < n; ++i) A(i, i) += static_cast<T>(n); break;                                   // diagonally dominant
      case 4: for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) A(i, j) = std::ldexp(A(i, j), static_cast<int>((i * 11 + j * 3) % 13) - 6); break;
      case 5: for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) if (i != j && c.rng.chance(2, 3)) A(i, j) = T(0); break;   // sparse
      case 6: A(0, 0) = static_cast<T>(std::pow(10.0L, -3 - 3 * c.rng.unit())); break;                               // small first pivot: growth
      default: for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) if (i > j + 1 || j > i + 1) A(i, j) = T(0);   // banded
    }
  }
  const int e2 = c.rng.chance(1, 3) ? wide_exponent<T>(c.rng, kind) : 0;
  if (e2) { scale(A, e2, kind); scale(U0, e2, kind); c.event("scaled by a power of two"); }
  c.in(A);
  if (n == 1) c.nontrivial = true;
  const DM<T> before = A;
  for (size_t k = 0; k < L.size(); ++k) L.data()[k] = U.data()[k] = T(5);
  const Outcome r = outcome([&] { t.lu(A.data(), L.data(), U.data()); });
  if (!same_mat(A, before)) return c.fail("lu changed its argument; A=" + dump(before));
  if (zero_pivot)
  {
    if (r != Outcome::overflow_error) return c.fail(std::string("lu with a zero pivot gave ") + str(r) + "; A=" + dump(A) + (r == Outcome::value ? " L=" + dump(L) + " U=" + dump(U) : std::string()));
    return c.event("zero pivot reported");
  }
  if (r != Outcome::value)
  {
    if (constructed || r == Outcome::other_exception) return c.fail(std::string("lu without a zero pivot gave ") + str(r) + "; A=" + dump(A));
    // a pivot of a random matrix may be exactly zero; decide in exact enough arithmetic
    DM<T> unscaled = A;
    scale(unscaled, -e2, kind);
    const QM q = toq(unscaled);
    Q smallest = 1;
    for (size_t k = 1; k <= n; ++k)
    {
      QM lead(k, k);
      for (size_t i = 0; i < k; ++i) for (size_t j = 0; j < k; ++j) lead(i, j) = q(i, j);
      const Q d = qabs(qdet(lead));
      if (d < smallest) smallest = d;
    }
    if (smallest > (Q)1e-3L) return c.fail("lu reports a zero pivot, all leading minors are far from zero; A=" + dump(A));
    return c.event("skipped: zero pivot by chance");
  }
  for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j)
  {
    const std::string at = "(" + std::to_string(i) + "," + std::to_string(j) + ")";
    if (i == j && !(L(i, j) == T(1))) return c.fail("lu: L" + at + " is " + str(L(i, j)) + ", not 1; A=" + dump(A));
    if (j > i && !(L(i, j) == T(0))) return c.fail("lu: L" + at + " is " + str(L(i, j)) + ", not 0; A=" + dump(A));
    if (j < i && !(U(i, j) == T(0))) return c.fail("lu: U" + at + " is " + str(U(i, j)) + ", not 0; A=" + dump(A));
  }
  c.event("factors triangular");
  if (constructed)
  {
    if (!same_mat(L, L0) || !same_mat(U, U0)) return c.fail("lu: not the integer factors A was made of; A=" + dump(A) + " L=" + dump(L) + " U=" + dump(U));
    c.event("integer factors recovered");
  }
  else
  {
    typedef typename std::conditional<std::is_same<T, long double>::value, Q, long double>::type X;
    const X u = static_cast<X>(eps_of<T>::get());
    for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j)
    {
      X s = 0, a = 0;
      for (size_t k = 0; k <= std::min(i, j); ++k) { const X z = static_cast<X>(L(i, k)) * static_cast<X>(U(k, j)); s += z; a += z < 0 ? -z : z; }
      X d = s - static_cast<X>(A(i, j));
      if (d < 0) d = -d;
      const X tol = X(4) * X(n + 1) * u * a + static_cast<X>(std::numeric_limits<T>::denorm_min()) * X(n);
      c.gauge("LU residual / bound", static_cast<double>(d / tol));
      if (!(d <= tol))
        return c.fail("lu: L*U(" + std::to_string(i) + "," + std::to_string(j) + ") is " + str(static_cast<long double>(s)) + ", A there is " + str(A(i, j)) + ", allowed difference " + str(static_cast<long double>(tol)) + "; A=" + dump(A));
    }
    c.event("L*U equals A within rounding");
  }
}
template <class T, size_t N> struct Reg
{
  static void reg()
  {
    static const Table<T> t = { N, &call<T, N> };
    add(std::string("lu/") + TName<T>::get() + "/" + std::to_string(N), &unit<T>, &t, N <= 8 ? 1 : std::max(0.03, 512.0 / (double(N) * N * N)));
  }
};
static void reg()
{
#if MON_PART >= 10
  DenseSizes<Reg, 40>::reg();
#elif MON_PART == 0
  each_size<Reg, int>(CubeSizes()); each_size<Reg, long long>(FewSizes()); each_size<Reg, short>(FewSizes()); each_size<Reg, long>(RareSizes()); each_size<Reg, signed char>(RareSizes());
#elif MON_PART == 1
  each_size<Reg, float>(CubeSizes()); each_size<Reg, float>(Sizes<64, 101>());
#elif MON_PART == 2
  each_size<Reg, double>(CubeSizes()); each_size<Reg, double>(Sizes<64, 101, 130, 258>());
#else
  each_size<Reg, long double>(CubeSizes());
#endif
}
MON_MAIN(reg)
