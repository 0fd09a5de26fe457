// Families of square matrices shared by the harnesses on determinants and inverses.
#ifndef MON_FAMILIES_HPP_
#define MON_FAMILIES_HPP_
#include "mon.hpp"
namespace mon
{
template <class T> void permute(Rng& r, DM<T>& A, bool rows, bool cols)
{
  const size_t n = A.r;
  for (size_t k = n; k-- > 1; )
  {
    if (rows) { const size_t o = r.below(k + 1); for (size_t j = 0; j < n; ++j) std::swap(A(k, j), A(o, j)); }
    if (cols) { const size_t o = r.below(k + 1); for (size_t i = 0; i < n; ++i) std::swap(A(i, k), A(i, o)); }
  }
}
template <class T> T small_int(Rng& r, i64 b, bool nonzero = false)
{
  i64 v;
  do v = r.range(-b, b); while (nonzero && v == 0);
  return static_cast<T>(v);
}
constexpr int kInt = 10;
// integer-valued families (any element type).  b: largest entry
template <class T> DM<T> int_family(Rng& r, size_t n, int fam, i64 b, bool& zero)
{
  DM<T> A(n, n);
  zero = false;
  auto fill = [&](i64 x) { for (size_t k = 0; k < A.size(); ++k) A.data()[k] = small_int<T>(r, x); };
  switch (fam)
  {
    case 0: fill(b); break;
    case 1: fill(std::min<i64>(b, 2)); break;                                       // many zeros appear during elimination
    case 2: for (size_t k = 0; k < A.size(); ++k) A.data()[k] = r.chance(2, 3) ? T(0) : small_int<T>(r, b); break;   // sparse
    case 3:                                                                         // permuted triangular
      for (size_t i = 0; i < n; ++i) for (size_t j = i; j < n; ++j) A(i, j) = i == j ? small_int<T>(r, n > 12 ? 1 : std::min<i64>(b, 3), true) : small_int<T>(r, b);
      permute(r, A, r.chance(1, 2), r.chance(1, 2));
      break;
    case 4:                                                                         // permuted diagonal
      for (size_t i = 0; i < n; ++i) A(i, i) = small_int<T>(r, n > 12 ? 1 : std::min<i64>(b, 5), true);
      permute(r, A, true, false);
      break;
    case 5:                                                                         // a zero row or column
    {
      fill(b);
      const size_t k = r.below(n);
      const bool row = r.chance(1, 2);
      for (size_t j = 0; j < n; ++j) (row ? A(k, j) : A(j, k)) = T(0);
      zero = true;
      break;
    }
    case 6:                                                                         // a repeated or combined row or column
    {
      fill(std::max<i64>(1, b / 4));
      if (n > 1)
      {
        const size_t k = r.below(n), o = (k + 1 + r.below(n - 1)) % n;
        const bool row = r.chance(1, 2);
        const T f = small_int<T>(r, b >= 4 ? 2 : 1);
        for (size_t j = 0; j < n; ++j) (row ? A(k, j) : A(j, k)) = static_cast<T>(f * (row ? A(o, j) : A(j, o)));
      }
      break;
    }
    case 7:                                                                         // antisymmetric (zero diagonal)
      for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < i; ++j) { A(i, j) = small_int<T>(r, b); A(j, i) = static_cast<T>(-A(i, j)); }
      break;
    case 8:                                                                         // zero leading block, forces exchanges
      fill(b);
      {
        const size_t z = 1 + r.below(n > 1 ? (n + 1) / 2 : 1);
        for (size_t i = 0; i < z; ++i) for (size_t j = 0; j < z; ++j) A(i, j) = T(0);
        if (r.chance(1, 2)) for (size_t i = 0; i + 1 < n; ++i) A(i, 0) = T(0);       // only the last row can lead
      }
      break;
    default:                                                                        // banded
      for (size_t i = 0; i < n; ++i) for (size_t j = (i ? i - 1 : 0); j < n && j <= i + 1; ++j) A(i, j) = small_int<T>(r, b);
      if (r.chance(1, 2)) permute(r, A, true, true);
  }
  return A;
}

constexpr int kFlt = 10;
template <class T> DM<T> float_family(Rng& r, size_t n, int fam)
{
  DM<T> A(n, n);
  auto uni = [&] { return static_cast<T>(r.unit() * 2 - 1); };
  for (size_t k = 0; k < A.size(); ++k) A.data()[k] = uni();
  switch (fam)
  {
    case 0: break;
    case 1: A(0, 0) = static_cast<T>(std::pow(10.0L, -4 - r.unit() * 12)); break;   // tiny first pivot
    case 2:                                                                        // tiny entries anywhere
      for (size_t i = 0; i < n; ++i) if (r.chance(1, 2)) A(i, r.below(n)) *= std::numeric_limits<T>::epsilon();
      break;
    case 3:                                                                        // a pivot vanishes up to rounding
      if (n > 1)
      {
        const size_t k = r.below(n - 1);
        for (size_t j = 0; j <= k + 1 && j < n; ++j) A(k + 1, j) = A(k, j) * T(3) / T(7);
      }
      break;
    case 4:                                                                        // graded rows and columns (powers of two)
      for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) A(i, j) = std::ldexp(A(i, j), static_cast<int>((i * 7 + j * 5) % 9) - 4);
      break;
    case 5:                                                                        // strongly diagonal
      for (size_t i = 0; i < n; ++i) A(i, i) += T(2);
      break;
    case 6:                                                                        // a Householder reflection (orthogonal)
    {
      std::vector<long double> v(n);
      long double s = 0;
      for (auto& x : v) { x = r.unit() * 2 - 1; s += x * x; }
      if (s == 0) s = v[0] = 1;
      for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) A(i, j) = static_cast<T>((i == j ? 1.0L : 0.0L) - 2 * v[i] * v[j] / s);
      break;
    }
    case 7: permute(r, A, true, true); for (size_t k = 0; k < A.size(); ++k) if (r.chance(1, 3)) A.data()[k] = T(0); break;
    case 8:                                                                        // at one step only one or two rows can lead, the others are tiny or zero
      if (n > 1)
      {
        const size_t k = r.chance(1, 3) ? 0 : r.below(n - 1);
        for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < i && j < k; ++j) A(i, j) = T(0);
        for (size_t i = 0; i < k; ++i) A(i, i) = static_cast<T>((r.chance(1, 2) ? 1 : -1) * (0.5L + r.unit() / 2));
        const size_t lead = r.chance(1, 2) ? k + 1 : k + 1 + r.below(n - k - 1);
        const size_t second = r.chance(1, 2) ? lead : k + 1 + r.below(n - k - 1);
        for (size_t i = k; i < n; ++i)
          A(i, k) = i == lead || i == second ? static_cast<T>((r.chance(1, 2) ? 1 : -1) * (0.5L + r.unit() / 2))
                  : i == k || r.chance(1, 4) ? uni() * static_cast<T>(std::pow(10.0L, -4 - r.unit() * 16)) : T(0);
      }
      break;
    default:                                                                       // one scale for all
    {
      const int e = static_cast<int>(r.range(-6, 6));
      if (n <= 8) for (size_t k = 0; k < A.size(); ++k) A.data()[k] = std::ldexp(A.data()[k], e);
    }
  }
  return A;
}
// one power of two for all entries, so that products of n of them stay in range
template <class T> int scale_exponent(Rng& r, size_t n)
{
  const int range = std::is_same<T, float>::value ? 60 : std::is_same<T, double>::value ? 600 : 5000;
  return static_cast<int>(r.range(-range, range) / static_cast<i64>(n));
}
// for operations that multiply no two entries of one scale
template <class T> int wide_exponent(Rng& r, std::true_type) { return 0; }
template <class T> int wide_exponent(Rng& r, std::false_type)
{
  return static_cast<int>(std::is_same<T, float>::value ? r.range(-100, 40) : std::is_same<T, double>::value ? r.range(-900, 400) : r.range(-8000, 4000));
}
template <class T> void scale_all(DM<T>& A, int e) { for (size_t k = 0; k < A.size(); ++k) A.data()[k] = std::ldexp(A.data()[k], e); }
template <class T> long double log2_hadamard(const DM<T>& A)
{
  long double rows = 0, cols = 0;
  for (size_t i = 0; i < A.r; ++i)
  {
    long double s = 0, t = 0;
    for (size_t j = 0; j < A.c; ++j) { s += (long double)A(i, j) * A(i, j); t += (long double)A(j, i) * A(j, i); }
    rows += s > 0 ? std::log2(s) / 2 : -1000; cols += t > 0 ? std::log2(t) / 2 : -1000;
  }
  return std::min(rows, cols);
}

// integer matrix of determinant +1 or -1: random row operations on a permuted
// signed identity, undone where an entry would leave [-b, b]
inline DM<i64> unimodular(Rng& r, size_t n, i64 b, size_t steps)
{
  DM<i64> A(n, n);
  for (size_t i = 0; i < n; ++i) A(i, i) = r.chance(1, 2) ? 1 : -1;
  permute(r, A, true, false);
  if (n > 1) for (size_t s = 0; s < steps; ++s)
  {
    const size_t i = r.below(n), k = (i + 1 + r.below(n - 1)) % n;
    const i64 f = r.range(-2, 2);
    const bool row = r.chance(1, 2);
    bool ok = true;
    for (size_t j = 0; j < n; ++j) { const i64 v = row ? A(i, j) + f * A(k, j) : A(j, i) + f * A(j, k); if (v > b || v < -b) ok = false; }
    if (ok) for (size_t j = 0; j < n; ++j) { if (row) A(i, j) += f * A(k, j); else A(j, i) += f * A(j, k); }
  }
  return A;
}
}
#endif
