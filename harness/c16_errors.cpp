// C16: error reporting.  Each case is a random sequence of calls, some of them
// undefined (zero divisor, singular inverse or negative power, zero pivot), some
// defined; the oracle knows which.  Observed: the kind of outcome (a trap or a
// termination ends the process and is seen by the driver), the arguments
// afterwards, and that defined calls give bit-identical results before and after
// failures.
#include "shapes.hpp"
#include "families.hpp"
using namespace mon;

template <class T> struct Table
{
  size_t n, r, c;
  void (*div)(const T*, T, T*);       // r x c
  void (*over)(const T*, T, T*);
  void (*inv)(const T*, T*);          // n x n
  void (*pow)(const T*, int, T*);
  void (*lu)(const T*, T*, T*);
};
template <class T, size_t N, size_t R, size_t C> struct W
{
  static void div(const T* a, T s, T* o) { as<R, C>(o) = mlib::div(as<R, C>(a), s); }
  static void over(const T* a, T s, T* o) { using namespace mlib; as<R, C>(o) = as<R, C>(a) / s; }
  static void inv(const T* a, T* o) { as<N, N>(o) = mlib::inv(as<N, N>(a)); }
  static void pow(const T* a, int p, T* o) { as<N, N>(o) = mlib::pow(as<N, N>(a), p); }
  static void lu(const T* a, T* l, T* u) { const auto r = mlib::lu(as<N, N>(a)); as<N, N>(l) = r.first; as<N, N>(u) = r.second; }
};
template <class T> bool bits_same(const DM<T>& a, const DM<T>& b)
{
  for (size_t k = 0; k < a.size(); ++k) if (!same(a.data()[k], b.data()[k])) return false;
  return true;
}
// determinant exactly zero whatever the way of computing it
template <class T> DM<T> singular(Rng& r, size_t n)
{
  bool zero;
  DM<T> A(n, n);
  switch (r.below(n <= 3 || std::is_integral<T>::value ? 4 : 3))
  {
    case 0: A = int_family<T>(r, n, 5, 5, zero); break;                 // zero row or column
    case 1: break;                                                      // zero matrix
    case 2:                                                             // upper triangular with a zero on the diagonal
      for (size_t i = 0; i < n; ++i) for (size_t j = i; j < n; ++j) A(i, j) = small_int<T>(r, 3, true);
      { const size_t k = r.below(n); A(k, k) = T(0); }
      break;
    default: A = int_family<T>(r, n, 6, 5, zero); if (n == 1) A(0, 0) = T(0);   // dependent rows
  }
  return A;
}
template <class T> DM<T> invertible(Rng& r, size_t n)
{
  DM<T> A(n, n);
  const auto I = unimodular(r, n, n <= 4 ? 9 : 3, n * n);
  for (size_t k = 0; k < A.size(); ++k) A.data()[k] = static_cast<T>(I.data()[k]);
  return A;
}
template <class T> T tiny_divisor(Rng& r, std::true_type) { return r.chance(1, 2) ? T(1) : static_cast<T>(2 + r.below(5)); }
template <class T> T tiny_divisor(Rng& r, std::false_type)
{
  switch (r.below(5))
  {
    case 0: return std::numeric_limits<T>::denorm_min();
    case 1: return -std::numeric_limits<T>::min();
    case 2: return std::numeric_limits<T>::epsilon();
    case 3: return std::numeric_limits<T>::max();
    default: return T(0.5);
  }
}
template <class T> void scale_by(DM<T>&, int, std::true_type) {}
template <class T> void scale_by(DM<T>& A, int e, std::false_type) { scale_all(A, e); }
template <class T> void scale_if(DM<T>&, Rng&, size_t, std::true_type) {}
template <class T> void scale_if(DM<T>& A, Rng& r, size_t n, std::false_type) { scale_all(A, scale_exponent<T>(r, n)); }
template <class T> void unit(Ctx& c, const void* p)
{
  const Table<T>& t = *static_cast<const Table<T>*>(p);
  const size_t n = t.n;
  const bool sg = std::is_signed<T>::value;
  // a defined call whose result must stay the same throughout the sequence
  const DM<T> G = invertible<T>(c.rng, n);
  c.in(G);
  DM<T> g0(n, n), g1(n, n);
  if (sg) t.inv(G.data(), g0.data()); else t.pow(G.data(), 3, g0.data());
  const int steps = 3 + static_cast<int>(c.rng.below(6));
  std::string trail;
  for (int s = 0; s < steps; ++s)
  {
    const int kind = static_cast<int>(c.rng.below(8));
    Outcome want, got;
    const char* what;
    bool intact = true;
    std::string arg;
    if (kind <= 1)
    {
      DM<T> A = gen_mat<T>(c.rng, t.r, t.c, static_cast<int>(c.rng.below(5)), 100), A0 = A, o(t.r, t.c);
      if (c.rng.chance(1, 4)) for (size_t k = 0; k < A.size(); ++k) A.data()[k] = A0.data()[k] = T(0);       // 0/0
      const bool bad = c.rng.chance(1, 2);
      const T zero = c.rng.chance(1, 2) ? T(0) : static_cast<T>(-0.0);
      const T d = bad ? zero : tiny_divisor<T>(c.rng, std::integral_constant<bool, std::is_integral<T>::value>());
      want = bad ? Outcome::overflow_error : Outcome::value;
      const bool named = c.rng.chance(1, 2);
      got = outcome([&] { if (named) t.div(A.data(), d, o.data()); else t.over(A.data(), d, o.data()); });
      what = bad ? "division by zero" : "division by a non-zero scalar";
      intact = bits_same(A, A0);
      arg = dump(A0) + " / " + str(d);
      c.in(A0); c.in_scalar(d);
    }
    else if (kind <= 3)
    {
      const bool bad = !sg || c.rng.chance(1, 2);
      DM<T> A = bad ? singular<T>(c.rng, n) : invertible<T>(c.rng, n), A0 = A, o(n, n);
      if (!std::is_integral<T>::value && c.rng.chance(1, 2)) { scale_if(A, c.rng, n, std::integral_constant<bool, std::is_integral<T>::value>()); A0 = A; }   // small, not zero
      want = bad ? Outcome::overflow_error : Outcome::value;
      got = outcome([&] { t.inv(A.data(), o.data()); });
      what = bad ? "inverse of a singular matrix" : "inverse of an invertible matrix";
      intact = bits_same(A, A0);
      arg = dump(A0);
      c.in(A0);
    }
    else if (kind <= 5)
    {
      const int e = c.rng.chance(1, 8) ? INT32_MIN : static_cast<int>(c.rng.range(-6, 3));
      bool sing = !sg || c.rng.chance(1, 2);
      DM<T> A = sing ? singular<T>(c.rng, n) : invertible<T>(c.rng, n), A0 = A, o(n, n);
      if (e < -3 || !sing)      // keep the values small: a signed permutation has bounded powers
        if (!sing) { DM<T> P(n, n); for (size_t i = 0; i < n; ++i) P(i, (i * (n > 1 ? 1 : 0) + 1) % n) = c.rng.chance(1, 2) ? T(1) : static_cast<T>(T(0) - T(1)); A = A0 = P; }
      want = sing && e < 0 ? Outcome::overflow_error : Outcome::value;
      got = outcome([&] { t.pow(A.data(), e, o.data()); });
      what = want == Outcome::value ? (sing ? "non-negative power of a singular matrix" : "power of an invertible matrix") : "negative power of a singular matrix";
      intact = bits_same(A, A0);
      arg = dump(A0) + " ^ " + std::to_string(e);
      c.in(A0); c.in_scalar(e);
    }
    else
    {
      DM<T> L(n, n), U(n, n), A(n, n), o1(n, n), o2(n, n);
      const bool bad = c.rng.chance(1, 2);
      for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j)
      {
        // (no negative entries for unsigned elements: their pivots are those of the integers then)
        if (j < i) L(i, j) = static_cast<T>(c.rng.range(sg ? -2 : 0, 2));
        if (j > i) U(i, j) = static_cast<T>(c.rng.range(sg ? -2 : 0, 2));
        if (j == i) { L(i, i) = T(1); U(i, i) = T(1 << c.rng.below(2)); }
      }
      if (bad) { const size_t k = c.rng.chance(1, 3) ? n - 1 : c.rng.below(n); U(k, k) = T(0); }
      for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) { T x = T(0); for (size_t k = 0; k < n; ++k) x += L(i, k) * U(k, j); A(i, j) = x; }
      if (c.rng.chance(1, 2)) scale_by(A, wide_exponent<T>(c.rng, std::integral_constant<bool, std::is_integral<T>::value>()), std::integral_constant<bool, std::is_integral<T>::value>());
      const DM<T> A0 = A;
      want = bad ? Outcome::overflow_error : Outcome::value;
      got = outcome([&] { t.lu(A.data(), o1.data(), o2.data()); });
      what = bad ? "LU with a zero pivot" : "LU without a zero pivot";
      intact = bits_same(A, A0);
      arg = dump(A0);
      c.in(A0);
    }
    trail += std::string(what) + "; ";
    if (got != want) return c.fail(std::string(what) + " gave " + str(got) + ", expected " + str(want) + "; " + arg + "; calls so far: " + trail);
    if (!intact) return c.fail(std::string(what) + " changed its argument " + arg);
    c.event(what);
    if (want != Outcome::value)
    {
      if (sg) t.inv(G.data(), g1.data()); else t.pow(G.data(), 3, g1.data());
      if (!bits_same(g0, g1)) return c.fail("after the failure of " + std::string(what) + " the next call gives " + dump(g1) + " instead of " + dump(g0));
      c.event("call after a failure");
    }
  }
}
template <class T, size_t N> struct Reg
{
  static void reg()
  {
    typedef W<T, N, N, N + 1> w;
    static const Table<T> t = { N, N, N + 1, &w::div, &w::over, &w::inv, &w::pow, &w::lu };
    add(std::string("errors/") + TName<T>::get() + "/" + std::to_string(N), &unit<T>, &t, N <= 4 ? 1 : std::max(0.02, 256.0 / std::pow(double(N), 4.2)));
  }
};
static void reg()
{
#if MON_PART == 0
  each_size<Reg, int>(Sizes<1, 2, 3, 4, 5, 6, 7, 8, 9, 12>()); each_size<Reg, long long>(Sizes<1, 2, 3, 4, 7>());
#elif MON_PART == 1
  each_size<Reg, unsigned>(Sizes<1, 2, 3, 4, 5>()); each_size<Reg, long>(Sizes<1, 2, 3, 4, 5>()); each_size<Reg, short>(Sizes<1, 2, 3, 4>()); each_size<Reg, unsigned long>(Sizes<1, 2, 3, 4>());
#elif MON_PART == 2
  each_size<Reg, double>(Sizes<1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, MON_XN>());
#else
  each_size<Reg, float>(Sizes<1, 2, 3, 4, 5, 6, 7, 8, 10>()); each_size<Reg, long double>(Sizes<1, 2, 3, 4, 6>());
#endif
}
MON_MAIN(reg)
