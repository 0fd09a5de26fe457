// C12: mean, median, variance, standard deviation.  Oracle: the population
// statistics in 64-bit integers or quad precision, with rounding bounds.
#include "shapes.hpp"
using namespace mon;

template <class T> struct Table { size_t r, c; T (*mean)(const T*); T (*median)(const T*); T (*var)(const T*); T (*stddev)(const T*); };
template <class T, size_t R, size_t C> T f_mean(const T* a) { return mlib::mean(as<R, C>(a)); }
template <class T, size_t R, size_t C> T f_median(const T* a) { return mlib::median(as<R, C>(a)); }
template <class T, size_t R, size_t C> T f_var(const T* a) { return mlib::var(as<R, C>(a)); }
template <class T, size_t R, size_t C> T f_stddev(const T* a) { return mlib::stddev(as<R, C>(a)); }

template <class T> void arrange(Rng& r, DM<T>& A, int how)
{
  if (how == 0) std::sort(A.data(), A.data() + A.size());
  else if (how == 1) { std::sort(A.data(), A.data() + A.size()); std::reverse(A.data(), A.data() + A.size()); }
  else for (size_t k = A.size(); k-- > 1; ) std::swap(A.data()[k], A.data()[r.below(k + 1)]);
}
template <class T> void check(Ctx& c, const Table<T>& t, std::true_type)
{
  const size_t n = t.r * t.c;
  DM<T> A(t.r, t.c);
  const u64 hi = lim<T>::hi();
  const bool sg = std::is_signed<T>::value;
  const int mode = static_cast<int>(c.case_no % 4);
  if (mode < 2)
  {
    // sums fit; squares need not: mean and median
    const u64 b = hi / n / (mode == 0 ? 1 : 50);
    if (b == 0) { c.event("skipped: sums do not fit"); return; }
    A = gen_mat<T>(c.rng, t.r, t.c, static_cast<int>(c.rng.below(6)), b);
    if (!sg) for (size_t k = 0; k < n; ++k) A.data()[k] = static_cast<T>(b + 1 ? A.data()[k] % (b + 1) : A.data()[k]);
    c.in(A);
    i64 s = 0; u64 us = 0;
    for (size_t k = 0; k < n; ++k) { if (sg) s += static_cast<i64>(A.data()[k]); else us += static_cast<u64>(A.data()[k]); }
    const T want = sg ? static_cast<T>(s / static_cast<i64>(n)) : static_cast<T>(us / n);
    const DM<T> A0 = A;
    const T got = t.mean(A.data());
    if (got != want) return c.fail("mean is " + str(got) + ", expected " + str(want) + "; A=" + dump(A));
    c.event("integer mean");
    if (sg && s < 0 && s % static_cast<i64>(n)) c.event("integer mean, negative and not exact");
    if (!same_mat(A, A0)) return c.fail("mean changed its argument");
    arrange(c.rng, A, static_cast<int>(c.rng.below(3)));
    if (t.mean(A.data()) != want) return c.fail("mean depends on the order; A=" + dump(A));
  }
  if (mode == 2)
  {
    A = gen_mat<T>(c.rng, t.r, t.c, static_cast<int>(c.rng.below(6)), hi / 2);
    if (!sg) for (size_t k = 0; k < n; ++k) A.data()[k] = static_cast<T>(A.data()[k] % (hi / 2 + 1));
    c.in(A);
  }
  if (mode <= 2)
  {
    std::vector<T> v(A.data(), A.data() + n);
    std::sort(v.begin(), v.end());
    const T want = n % 2 ? v[n / 2] : sg ? static_cast<T>((static_cast<i64>(v[n / 2]) + static_cast<i64>(v[n / 2 - 1])) / 2) : static_cast<T>((static_cast<u64>(v[n / 2]) + static_cast<u64>(v[n / 2 - 1])) / 2);
    for (int how = 0; how < 3; ++how)
    {
      const DM<T> A0 = A;
      const T got = t.median(A.data());
      if (got != want) return c.fail("median is " + str(got) + ", expected " + str(want) + "; A=" + dump(A));
      if (!same_mat(A, A0)) return c.fail("median changed its argument; A=" + dump(A0));
      c.event(n % 2 ? "integer median, odd count" : "integer median, even count");
      arrange(c.rng, A, how);
    }
    return;
  }
  // an integer mean m, and squares whose sum fits: var is floor of the exact value
  {
    const u64 d = static_cast<u64>(std::sqrt((long double)hi / n));
    const bool wide = c.rng.chance(1, 2);                                   // up to the limits of the type
    const u64 dev = std::min<u64>(d ? d / 2 : 0, wide ? u64(1) << 40 : 1000);
    const i64 room = static_cast<i64>(std::min<u64>(hi / n, wide ? u64(1) << 62 : 100000));      // |mean| such that the sum fits
    i64 m = sg ? c.rng.range(-room / 2, room / 2) : c.rng.range(0, room / 2);
    if (dev == 0 || (!sg && m < static_cast<i64>(dev))) m = sg ? m : static_cast<i64>(dev);
    if (!sg && static_cast<u64>(m) * n > hi) { c.event("skipped: sums do not fit"); return; }
    std::vector<i64> x(n, 0);
    // deviations in pairs that cancel
    for (size_t k = 0; k + 1 < n; k += 2) { x[k] = static_cast<i64>(c.rng.below(dev + 1)); x[k + 1] = -x[k]; if (c.rng.chance(1, 2)) std::swap(x[k], x[k + 1]); }
    if (n >= 3 && dev >= 2 && c.rng.chance(1, 2)) { x[0] = 2; x[1] = -1; x[2] = -1; if (n > 3) x[3] = 0; }
    if (n >= 3 && c.rng.chance(1, 4))                                      // one against all others
    {
      x[0] = 0;
      for (size_t k = 1; k < n; ++k) { x[k] = static_cast<i64>(c.rng.below(dev / n + 1)); x[0] -= x[k]; }
    }
    i64 ss = 0, chk = 0;
    for (size_t k = 0; k < n; ++k) { ss += x[k] * x[k]; chk += x[k]; A.data()[k] = static_cast<T>(m + x[k]); }
    if (chk != 0) return;
    arrange(c.rng, A, 2);
    c.in(A);
    const T want = static_cast<T>(ss / static_cast<i64>(n));
    const T got = t.var(A.data());
    if (got != want) return c.fail("var is " + str(got) + ", expected " + str(want) + " (mean " + str(m) + "); A=" + dump(A));
    c.event("integer variance");
    if (ss > (i64(1) << 53)) c.event("integer variance, squares beyond 2^53");
    if (static_cast<u64>(want) >> 52) return;                              // the square root is taken in double
    const T sd = t.stddev(A.data());
    u64 r = static_cast<u64>(std::sqrt(static_cast<long double>(static_cast<u64>(want))));
    while (r * r > static_cast<u64>(want)) --r;
    while ((r + 1) * (r + 1) <= static_cast<u64>(want)) ++r;
    if (static_cast<u64>(sd) != r) return c.fail("stddev is " + str(sd) + ", expected " + str(r) + " for variance " + str(want) + "; A=" + dump(A));
    c.event("integer standard deviation");
  }
}
template <class T> void check(Ctx& c, const Table<T>& t, std::false_type)
{
  const size_t n = t.r * t.c;
  DM<T> A(t.r, t.c);
  const int mode = static_cast<int>(c.case_no % 8);
  switch (mode)
  {
    case 0: A = gen_mat<T>(c.rng, t.r, t.c, 0); break;
    case 1: A = gen_mat<T>(c.rng, t.r, t.c, 1); break;
    case 2: A = gen_mat<T>(c.rng, t.r, t.c, 3); break;
    case 3:                                                  // a large common offset with small deviations, sums exact
    {
      const int bits = std::numeric_limits<T>::digits - 2 - static_cast<int>(std::ceil(std::log2(double(n))));
      const T off = std::ldexp(T(1), std::max(1, std::min(bits, 40)));
      for (size_t k = 0; k < n; ++k) A.data()[k] = off + static_cast<T>(c.rng.range(-1, 1));
      break;
    }
    case 4: { const T v = gen<T>(c.rng, 2); for (size_t k = 0; k < n; ++k) A.data()[k] = v; break; }   // constant
    case 5: A = gen_mat<T>(c.rng, t.r, t.c, 2); for (size_t k = 0; k < n; ++k) A.data()[k] = std::fabs(A.data()[k]); break;
    case 6: { for (size_t k = 0; k < n; ++k) A.data()[k] = -static_cast<T>(c.rng.unit()) - T(5); break; }
    default: A = gen_mat<T>(c.rng, t.r, t.c, 2);
  }
  if (c.rng.chance(1, 3))                                    // squares stay in range
  {
    const int range = std::is_same<T, float>::value ? 36 : std::is_same<T, double>::value ? 380 : 5000, e = static_cast<int>(c.rng.range(-range, range));
    T most = 0;
    for (size_t k = 0; k < n; ++k) most = std::max<T>(most, std::fabs(A.data()[k]));
    if (most < std::ldexp(T(1), 10 + range / 8)) { for (size_t k = 0; k < n; ++k) A.data()[k] = std::ldexp(A.data()[k], e); c.event("scaled by a power of two"); }
  }
  arrange(c.rng, A, static_cast<int>(c.rng.below(4)));
  c.in(A);
  if (mode == 4 && n > 1) c.nontrivial = true;
  const DM<T> A0 = A;
  Q s = 0, sa = 0;
  for (size_t k = 0; k < n; ++k) { const Q x = static_cast<Q>(A.data()[k]); s += x; sa += qabs(x); }
  const Q N = Q(n), m = s / N, u = static_cast<Q>(eps_of<T>::get()), tiny = static_cast<Q>(std::numeric_limits<T>::denorm_min()) * (N + 4);
  const bool exact_sum = mode == 0 || mode == 2 || mode == 3;
  const Q dm = (exact_sum ? Q(2) * u * qabs(m) : Q(2) * (N + 2) * u * sa / N) + tiny;
  const T gm = t.mean(A.data());
  c.gauge("mean", static_cast<double>(qabs(static_cast<Q>(gm) - m) / dm));
  if (!(qabs(static_cast<Q>(gm) - m) <= dm)) return c.fail("mean is " + str(gm) + ", expected " + str(m) + " within " + str(dm) + "; A=" + dump(A));
  c.event("mean");

  std::vector<T> v(A.data(), A.data() + n);
  std::sort(v.begin(), v.end());
  const Q md = n % 2 ? static_cast<Q>(v[n / 2]) : (static_cast<Q>(v[n / 2]) + static_cast<Q>(v[n / 2 - 1])) / 2;
  const Q tmd = n % 2 ? Q(0) : Q(2) * u * (qabs(static_cast<Q>(v[n / 2])) + qabs(static_cast<Q>(v[n / 2 - 1]))) + tiny;
  const T gd = t.median(A.data());
  if (!(qabs(static_cast<Q>(gd) - md) <= tmd)) return c.fail("median is " + str(gd) + ", expected " + str(md) + "; A=" + dump(A));
  c.event(n % 2 ? "median, odd count" : "median, even count");

  Q ss = 0;
  for (size_t k = 0; k < n; ++k) { const Q d = static_cast<Q>(A.data()[k]) - m; ss += d * d; }
  const Q var = ss / N;
  const Q tv = Q(2) * dm * dm + Q(4) * (N + 4) * u * (var + dm * dm) + tiny;
  const T gv = t.var(A.data());
  c.gauge("variance", static_cast<double>(qabs(static_cast<Q>(gv) - var) / tv));
  if (!(qabs(static_cast<Q>(gv) - var) <= tv)) return c.fail("var is " + str(gv) + ", expected " + str(var) + " within " + str(tv) + "; A=" + dump(A));
  c.event("variance");
  if (mode == 3) c.event("variance under a large offset");
  const T gs = t.stddev(A.data());
  const Q q = static_cast<Q>(gs);
  if (!(gs >= T(0)) || !(qabs(q * q - var) <= tv + Q(8) * u * var + tiny)) return c.fail("stddev is " + str(gs) + ", the variance is " + str(var) + "; A=" + dump(A));
  c.event("standard deviation");
  if (!same_mat(A, A0)) return c.fail("a statistic changed its argument; A=" + dump(A0));
}
template <class T> void unit(Ctx& c, const void* p) { check<T>(c, *static_cast<const Table<T>*>(p), std::integral_constant<bool, std::is_integral<T>::value>()); }
template <class T, size_t R, size_t C> struct Reg
{
  static void reg()
  {
    static const Table<T> t = { R, C, &f_mean<T, R, C>, &f_median<T, R, C>, &f_var<T, R, C>, &f_stddev<T, R, C> };
    add(uname<T>("stats", R, C), &unit<T>, &t, w_cost(double(R) * C, 200));
  }
};
static void reg()
{
#if MON_PART >= 10
  DenseShapes<Reg>::reg();
#elif MON_PART == 0
  each_shape<Reg, int>(AllShapes()); each_shape<Reg, int>(Huge()); each_shape<Reg, short>(FewShapes()); each_shape<Reg, unsigned char>(FewShapes());
#elif MON_PART == 1
  each_shape<Reg, unsigned>(FewShapes()); each_shape<Reg, long>(RareShapes()); each_shape<Reg, long long>(FewShapes()); each_shape<Reg, unsigned long>(FewShapes());
#elif MON_PART == 2
  each_shape<Reg, float>(AllShapes()); each_shape<Reg, long double>(FewShapes());
#else
  each_shape<Reg, double>(AllShapes()); each_shape<Reg, double>(Huge()); each_shape<Reg, signed char>(FewShapes());
#endif
}
MON_MAIN(reg)
