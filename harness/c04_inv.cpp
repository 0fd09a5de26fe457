// C04: inverse.  Oracles: the exact identity A*X = I for integers, the inverse
// in quad precision with a condition-dependent bound for floating elements, and
// the exception for matrices that have no inverse.
#include "shapes.hpp"
#include "families.hpp"
using namespace mon;

template <class T> struct Table { size_t n; void (*inv)(const T*, T*); };
template <class T, size_t N> void call(const T* a, T* o) { as<N, N>(o) = mlib::inv(as<N, N>(a)); }

template <class T> bool must_throw(Ctx& c, const Table<T>& t, const DM<T>& A, const char* what)
{
  DM<T> o(t.n, t.n), in = A;
  for (size_t k = 0; k < o.size(); ++k) o.data()[k] = T(7);
  const Outcome r = outcome([&] { t.inv(in.data(), o.data()); });
  if (r != Outcome::overflow_error) { c.fail(std::string("inv of a singular matrix gave ") + str(r) + (r == Outcome::value ? " " + dump(o) : std::string()) + "; A=" + dump(A)); return false; }
  if (!same_mat(in, A)) { c.fail("inv changed its argument; A=" + dump(A)); return false; }
  c.event(what);
  return true;
}

template <class T> void check(Ctx& c, const Table<T>& t, std::true_type)
{
  const size_t n = t.n;
  bool zero = false;
  if (c.case_no % 3 == 2)
  {
    auto A = int_family<T>(c.rng, n, c.rng.chance(1, 2) ? 5 : 6, 6, zero);
    if (!zero && n == 1) A(0, 0) = T(0);
    c.in(A); c.nontrivial = true;
    must_throw(c, t, A, "singular integer matrix reported");
    return;
  }
  const i64 b = n <= 3 ? (sizeof(T) == 2 ? 14 : 500) : n <= 8 ? 20 : 3;
  auto I = unimodular(c.rng, n, b, c.rng.below(4 * n * n + 1));
  DM<T> A(n, n), o(n, n);
  for (size_t k = 0; k < A.size(); ++k) A.data()[k] = static_cast<T>(I.data()[k]);
  // the exact inverse, to know that it and its cofactors are representable
  QM x(n, n);
  if (!qinv(toq(A), x) || qmaxabs(x) > Q(sizeof(T) == 2 ? 3000 : 1000000)) return c.event("skipped: inverse not representable");
  c.in(A);
  const DM<T> before = A;
  t.inv(A.data(), o.data());
  if (!same_mat(A, before)) return c.fail("inv changed its argument; A=" + dump(before));
  for (int side = 0; side < 2; ++side)
    for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j)
    {
      i64 s = 0;
      for (size_t k = 0; k < n; ++k) s += side ? static_cast<i64>(o(i, k)) * A(k, j) : static_cast<i64>(A(i, k)) * o(k, j);
      if (s != (i == j)) return c.fail("A times inv(A) is not the identity: element (" + std::to_string(i) + "," + std::to_string(j) + ") is " + str(s) + "; A=" + dump(A) + " inv=" + dump(o));
    }
  c.event("integer inverse exact");
}

// up to 3x3: every element of the inverse is a cofactor over the determinant, each with a few
// roundings of its own products, however different the magnitudes of the entries are
template <class T> void small_inverse(Ctx& c, const Table<T>& t, const DM<T>& A, const QM& q)
{
  const size_t n = t.n;
  const Q u = static_cast<Q>(eps_of<T>::get());
  const Q lo = static_cast<Q>(std::numeric_limits<T>::min()) * static_cast<Q>(std::pow(10.0L, std::is_same<T, float>::value ? 6 : 20));
  QM cof(n, n), mag(n, n), x(n, n), tol(n, n);
  Q least = static_cast<Q>(std::numeric_limits<T>::max());
  const auto product = [&](Q a, Q b) { const Q m = a * b; if (m != 0 && qabs(m) < least) least = qabs(m); return m; };
  for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j)
  {
    if (n == 1) { cof(i, j) = mag(i, j) = 1; continue; }
    if (n == 2) { cof(i, j) = (i == j ? Q(1) : Q(-1)) * q(1 - i, 1 - j); mag(i, j) = qabs(cof(i, j)); continue; }
    const Q a = product(q((i + 1) % 3, (j + 1) % 3), q((i + 2) % 3, (j + 2) % 3)), b = product(q((i + 1) % 3, (j + 2) % 3), q((i + 2) % 3, (j + 1) % 3));
    cof(i, j) = a - b;
    mag(i, j) = qabs(a) + qabs(b);
  }
  Q d = 0, perm = 0;
  for (size_t j = 0; j < n; ++j) { d += product(q(0, j), cof(0, j)); perm += qabs(q(0, j)) * mag(0, j); }
  if (d == 0) return c.event("skipped: singular by chance");
  if (least < lo || qabs(d) < lo || perm > static_cast<Q>(std::numeric_limits<T>::max()) * static_cast<Q>(1e-6L)) return c.event("skipped: close to the end of the range");
  const Q k = Q(8) * Q(n) * u;
  if (k * perm > qabs(d) / 4) return c.event("skipped: ill conditioned");
  for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j)
  {
    x(i, j) = cof(j, i) / d;
    if (x(i, j) != 0 && qabs(x(i, j)) < lo) return c.event("skipped: close to the end of the range");
    tol(i, j) = Q(2) * k * (mag(j, i) + qabs(x(i, j)) * perm) / qabs(d);
  }
  c.in(A);
  DM<T> o(n, n);
  const DM<T> before = A;
  const Outcome r = outcome([&] { t.inv(A.data(), o.data()); });
  if (r != Outcome::value) return c.fail(std::string("inv of an invertible matrix gave ") + str(r) + "; A=" + dump(A));
  if (!same_mat(A, before)) return c.fail("inv changed its argument; A=" + dump(before));
  judge_tol(c, "inverse within the roundings of its cofactors", o, [&](size_t i, size_t j) { return x(i, j); }, [&](size_t i, size_t j) { return tol(i, j); }, [&] { return "A=" + dump(A); });
}
template <class T> void check(Ctx& c, const Table<T>& t, std::false_type)
{
  const size_t n = t.n;
  bool zero = false;
  const int fam = static_cast<int>(c.case_no % (kInt + kFlt + 2));
  DM<T> A(n, n);
  if (fam == kInt + kFlt)
  {
    // singular: zero row or column; up to 3x3 also small integers with dependent rows
    A = int_family<T>(c.rng, n, n <= 3 && c.rng.chance(1, 2) ? 6 : 5, 9, zero);
    if (n == 1) A(0, 0) = T(0);
    if (zero && c.rng.chance(1, 3)) scale_all(A, scale_exponent<T>(c.rng, n));
    if (zero && c.rng.chance(1, 2)) for (size_t k = 0; k < A.size(); ++k) A.data()[k] *= static_cast<T>(c.rng.unit());
    c.in(A); c.nontrivial = true;
    must_throw(c, t, A, "singular matrix reported");
    return;
  }
  if (fam == kInt + kFlt + 1)
  {
    auto I = unimodular(c.rng, n, n <= 8 ? 20 : 3, c.rng.below(4 * n * n + 1));
    for (size_t k = 0; k < A.size(); ++k) A.data()[k] = static_cast<T>(I.data()[k]);
  }
  else if (fam < kInt) A = int_family<T>(c.rng, n, fam == 5 || fam == 6 ? 0 : fam, n <= 4 ? 9 : 3, zero);
  else A = float_family<T>(c.rng, n, fam - kInt);
  const long double lh = log2_hadamard(A);
  if (lh > 40) { const int e = -static_cast<int>(lh / n); for (size_t k = 0; k < A.size(); ++k) A.data()[k] = std::ldexp(A.data()[k], e); }
  if (c.rng.chance(1, 3)) { scale_all(A, scale_exponent<T>(c.rng, n)); c.event("scaled by a power of two"); }
  const bool graded = n <= 3 && c.rng.chance(1, 4);
  if (graded)
  {
    for (size_t k = 0; k < A.size(); ++k) A.data()[k] = std::ldexp(A.data()[k], static_cast<int>(c.rng.range(-9, 9)) * (std::is_same<T, float>::value ? 1 : 4));
    c.event("entries of different magnitudes");
  }
  const QM q = toq(A);
  if (n <= 3) return small_inverse(c, t, A, q);
  QM x(n, n);
  const Q d = qdet(q), u = static_cast<Q>(eps_of<T>::get());
  if (d == 0 || !qinv(q, x)) return c.event("skipped: singular by chance");
  // conditioning: the bound must be meaningful, and nothing may leave the range
  const Q f2 = qfro2(x), mx = qmaxabs(q);
  const Q tol = Q(4) * Q(n) * Q(n) * u * mx * f2;
  const Q lo = static_cast<Q>(std::numeric_limits<T>::min()) * static_cast<Q>(std::pow(10.0L, std::is_same<T, float>::value ? 12 : 80));
  Q minc = qabs(d);
  for (auto v : x.v) if (v != 0) { const Q m = qabs(v * d); if (m < minc) minc = m; }
  if (minc < lo) return c.event("skipped: close to underflow");
  if (tol > qmaxabs(x) / 4) return c.event("skipped: ill conditioned");
  c.in(A);
  DM<T> o(n, n);
  const DM<T> before = A;
  const Outcome r = outcome([&] { t.inv(A.data(), o.data()); });
  if (r != Outcome::value) return c.fail(std::string("inv of an invertible matrix gave ") + str(r) + "; A=" + dump(A));
  if (!same_mat(A, before)) return c.fail("inv changed its argument; A=" + dump(before));
  judge_tol(c, "inverse within bound", o, [&](size_t i, size_t j) { return x(i, j); }, [&](size_t, size_t) { return tol; }, [&] { return "A=" + dump(A); });
}
template <class T> void unit(Ctx& c, const void* p) { check<T>(c, *static_cast<const Table<T>*>(p), std::integral_constant<bool, std::is_integral<T>::value>()); }
template <class T, size_t N> struct Reg
{
  static void reg()
  {
    static const Table<T> t = { N, &call<T, N> };
    add(std::string("inv/") + TName<T>::get() + "/" + std::to_string(N), &unit<T>, &t, N <= 6 ? 1 : std::max(0.02, 7776.0 / std::pow(double(N), std::is_integral<T>::value ? 6 : 5)));
  }
};
typedef Sizes<1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 20, 24> InvSizes;
static void reg()
{
#if MON_PART >= 10
  DenseSizes<Reg, 20>::reg();
#elif MON_PART == 0
  each_size<Reg, int>(Sizes<1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 13, 17>()); each_size<Reg, long long>(Sizes<1, 2, 3, 4, 5, 6, 7, 8, 9, 11>());
#elif MON_PART == 1
  each_size<Reg, float>(InvSizes()); each_size<Reg, long>(RareSizes()); each_size<Reg, short>(RareSizes());
#elif MON_PART == 2
  each_size<Reg, double>(InvSizes()); each_size<Reg, double>(Sizes<33>());
#else
  each_size<Reg, long double>(InvSizes());
#endif
}
MON_MAIN(reg)
