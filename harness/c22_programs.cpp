// C22: random straight-line programs over the library, run in lock step with a
// reference interpreter.  Six registers hold matrices (shapes over a set of
// dimensions, 1 to 5 or 1 to 17) in heap blocks of exactly their size; a step calls the library with registers as
// operands and stores into a register, which may be one of the operands.  After
// every step all registers have to equal the interpreter's.
#include "families.hpp"
using namespace mon;
#if MON_PART >= 4
static constexpr size_t X = 7;
#define MON_DIMS(F) F(1) F(2) F(3) F(6) F(8) F(9) F(17)
static constexpr size_t dims[X] = { 1, 2, 3, 6, 8, 9, 17 };
static constexpr size_t ix_of(size_t n) { return n == 1 ? 0 : n == 2 ? 1 : n == 3 ? 2 : n == 6 ? 3 : n == 8 ? 4 : n == 9 ? 5 : n == 17 ? 6 : X; }
#else
static constexpr size_t X = 5;
#define MON_DIMS(F) F(1) F(2) F(3) F(4) F(5)
static constexpr size_t dims[X] = { 1, 2, 3, 4, 5 };
static constexpr size_t ix_of(size_t n) { return n >= 1 && n <= X ? n - 1 : X; }
#endif
static constexpr bool has(size_t n) { return ix_of(n) < X; }

template <class T> struct Lib
{
  typedef void (*F1)(const T* a, T* o, T s, T t);
  typedef void (*F2)(const T* a, const T* b, T* o, T* o2);
  typedef T (*FS)(const T* a, T s);
  typedef void (*FI)(T* a, size_t i, size_t j);
  F1 plus_s[X * X], s_plus[X * X], minus_s[X * X], times_s[X * X], s_times[X * X], over[X * X], inc[X * X], dec[X * X], fill[X * X], zeros[X * X], ones[X * X], trans[X * X], sum_s[X * X], mult_s[X * X], div[X * X];
  F2 plus[X * X], minus[X * X], sum[X * X], sub[X * X], conv[X * X], full[X * X], valid[X * X], cat[X * X * X * X], catv[X], cath[X], strassen;
  F2 prod[X * X * X], mult[X * X * X];
  FI swr[X * X], swc[X * X];
  F1 eye[X], eyev[X], pow[X], minor_[X], inv[X], abs[X * X];
  FS det[X], isid[X], issym[X], hist[X * X], cum[X * X], mean[X * X], median[X * X];
  bool (*eq[X * X])(const T*, const T*);
};
static size_t at(size_t r, size_t c) { return ix_of(r) * X + ix_of(c); }
static i64 g_exponent;

template <class T, size_t R, size_t C> struct Fill
{
  static Lib<T>* L;
  typedef Mat<T, R, C> M;
  static const M& A(const T* a) { return as<R, C>(a); }
  static M& O(T* o) { return as<R, C>(o); }
  template <size_t P> struct Prod
  {
    static void prod(const T* a, const T* b, T* o, T*) { using namespace mlib; as<R, P>(o) = A(a) * as<C, P>(b); }
    static void mult(const T* a, const T* b, T* o, T*) { as<R, P>(o) = mlib::mult(A(a), as<C, P>(b)); }
    static void set(Lib<T>& l) { const size_t k = at(R, C) * X + ix_of(P); l.prod[k] = &prod; l.mult[k] = &mult; }
  };
  template <bool ok, int D> struct Valid { static void set(Lib<T>& l) { l.valid[at(R, C)] = nullptr; } };
  template <int D> struct Valid<true, D>
  {
    static void f(const T* a, const T* b, T* o, T*) { as<R - 2, C - 2>(o) = mlib::conv2_valid(A(a), as<3, 3>(b)); }
    static void set(Lib<T>& l) { l.valid[at(R, C)] = &f; }
  };
  template <bool ok, int D> struct Full { static void set(Lib<T>& l) { l.full[at(R, C)] = nullptr; } };
  template <int D> struct Full<true, D>
  {
    static void f(const T* a, const T* b, T* o, T*) { as<R + 2, C + 2>(o) = mlib::conv2_full(A(a), as<3, 3>(b)); }
    static void set(Lib<T>& l) { l.full[at(R, C)] = &f; }
  };
  // vertical: K more rows, horizontal: K more columns (the two shapes must differ, or the call is the one for squares)
  template <size_t K, bool ok> struct V { static void set(Lib<T>&) {} };
  template <size_t K> struct V<K, true>
  {
    static void f(const T* a, const T* b, T* o, T*) { as<R + K, C>(o) = mlib::concatenate(A(a), as<K, C>(b)); }
    static void set(Lib<T>& l) { l.cat[at(R, C) * X * X + at(K, C)] = &f; }
  };
  template <size_t K, bool ok> struct H { static void set(Lib<T>&) {} };
  template <size_t K> struct H<K, true>
  {
    static void f(const T* a, const T* b, T* o, T*) { as<R, C + K>(o) = mlib::concatenate(A(a), as<R, K>(b)); }
    static void set(Lib<T>& l) { l.cat[at(R, C) * X * X + at(R, K)] = &f; }
  };
  template <bool sq, int D> struct Sq { static void set(Lib<T>&) {} };
  template <int D> struct Sq<true, D>
  {
    template <bool ok, int E> struct Mi { static void set(Lib<T>& l) { l.minor_[ix_of(R)] = nullptr; } };
    template <int E> struct Mi<true, E>
    {
      static void f(const T* a, T* o, T i, T j) { as<R - 1, R - 1>(o) = mlib::getminor(as<R, R>(a), static_cast<size_t>(i), static_cast<size_t>(j)); }
      static void set(Lib<T>& l) { l.minor_[ix_of(R)] = &f; }
    };
    template <bool ok, int E> struct In { static void set(Lib<T>& l) { l.inv[ix_of(R)] = nullptr; } };
    template <int E> struct In<true, E>
    {
      static void f(const T* a, T* o, T, T) { as<R, R>(o) = mlib::inv(as<R, R>(a)); }
      static void set(Lib<T>& l) { l.inv[ix_of(R)] = &f; }
    };
    template <bool ok, int E> struct De { static void set(Lib<T>& l) { l.det[ix_of(R)] = nullptr; } };
    template <int E> struct De<true, E>
    {
      static T f(const T* a, T) { return mlib::det(as<R, R>(a)); }
      static void set(Lib<T>& l) { l.det[ix_of(R)] = &f; }
    };
    template <bool ok, int E> struct St { static void set(Lib<T>&) {} };
    template <int E> struct St<true, E>
    {
      static void f(const T* a, const T* b, T* o, T*) { as<R, R>(o) = mlib::strassen(as<R, R>(a), as<R, R>(b)); }
      static void set(Lib<T>& l) { l.strassen = &f; }
    };
    template <bool ok, int E> struct Cc { static void set(Lib<T>& l) { l.catv[ix_of(R)] = l.cath[ix_of(R)] = nullptr; } };
    template <int E> struct Cc<true, E>
    {
      static void both(const T* a, const T* b, T* o, T* o2) { const auto p = mlib::concatenate(as<R, R>(a), as<R, R>(b)); as<R + R, R>(o) = p.first; as<R, R + R>(o2) = p.second; }
      static void v(const T* a, const T* b, T* o, T*) { as<R + R, R>(o) = mlib::concatenateV(as<R, R>(a), as<R, R>(b)); }
      static void h(const T* a, const T* b, T* o, T*) { as<R, R + R>(o) = mlib::concatenateH(as<R, R>(a), as<R, R>(b)); }
      static void set(Lib<T>& l) { l.cat[at(R, R) * X * X + at(R, R)] = &both; l.catv[ix_of(R)] = &v; l.cath[ix_of(R)] = &h; }
    };
    static void eye(const T*, T* o, T, T) { as<R, R>(o) = mlib::eye<T, R>(); }
    static void eyev(const T*, T* o, T s, T) { as<R, R>(o) = mlib::eye<T, R>(s); }
    static void pow(const T* a, T* o, T, T) { as<R, R>(o) = mlib::pow(as<R, R>(a), static_cast<int>(g_exponent)); }
    static T isid(const T* a, T) { return mlib::isIdentity(as<R, R>(a)); }
    static T issym(const T* a, T) { return mlib::isSymetric(as<R, R>(a)); }
    static void set(Lib<T>& l)
    {
      l.eye[ix_of(R)] = &eye; l.eyev[ix_of(R)] = &eyev; l.pow[ix_of(R)] = &pow; l.isid[ix_of(R)] = &isid; l.issym[ix_of(R)] = &issym;
      Mi<(R >= 2 && has(R - 1)), 0>::set(l); De<(std::is_integral<T>::value && (R <= 3 || std::is_signed<T>::value)), 0>::set(l); In<(std::is_integral<T>::value && std::is_signed<T>::value && R <= 5), 0>::set(l);
      St<(R == 2), 0>::set(l); Cc<has(2 * R), 0>::set(l);
    }
  };
#define U1(name, expr) static void name(const T* a, T* o, T s, T) { using namespace mlib; (void)a; (void)s; O(o) = (expr); }
  U1(plus_s, A(a) + s) U1(s_plus, s + A(a)) U1(minus_s, A(a) - s) U1(times_s, A(a) * s) U1(s_times, s * A(a)) U1(over, A(a) / s) U1(inc, A(a)++) U1(dec, A(a)--)
  U1(fill, (mlib::fill<T, R, C>(s))) U1(zeros, (mlib::zeros<T, R, C>())) U1(ones, (mlib::ones<T, R, C>())) U1(sum_s, mlib::sum(A(a), s)) U1(mult_s, mlib::mult(A(a), s)) U1(div, mlib::div(A(a), s))
  template <bool ok, int E> struct Ab { static void set(Lib<T>& l) { l.abs[at(R, C)] = nullptr; } };
  template <int E> struct Ab<true, E>
  {
    static void f(const T* a, T* o, T, T) { O(o) = mlib::abs(A(a)); }
    static void set(Lib<T>& l) { l.abs[at(R, C)] = &f; }
  };
  static T mean(const T* a, T) { return mlib::mean(A(a)); }
  static T median(const T* a, T) { return mlib::median(A(a)); }
  static void trans(const T* a, T* o, T, T) { as<C, R>(o) = mlib::trans(A(a)); }
#define U2(name, expr) static void name(const T* a, const T* b, T* o, T*) { using namespace mlib; O(o) = (expr); }
  U2(plus, A(a) + A(b)) U2(minus, A(a) - A(b)) U2(sum, mlib::sum(A(a), A(b))) U2(sub, mlib::sub(A(a), A(b))) U2(conv, mlib::conv2(A(a), (as<3, 3>(b))))
  static void swr(T* a, size_t i, size_t j) { mlib::swap_rows(O(a), i, j); }
  static void swc(T* a, size_t i, size_t j) { mlib::swap_cols(O(a), i, j); }
  static T hist(const T* a, T v) { const auto h = mlib::histogram(A(a)); const auto it = h.find(v); return it == h.end() ? T(0) : static_cast<T>(it->second); }
  static T cum(const T* a, T v) { const auto h = mlib::cumulative_histogram(A(a)); const auto it = h.find(v); return it == h.end() ? T(0) : static_cast<T>(it->second); }
  static bool eq(const T* a, const T* b) { return A(a) == A(b); }
  static void set(Lib<T>& l)
  {
    const size_t k = at(R, C);
    l.plus_s[k] = &plus_s; l.s_plus[k] = &s_plus; l.minus_s[k] = &minus_s; l.times_s[k] = &times_s; l.s_times[k] = &s_times; l.over[k] = &over; l.inc[k] = &inc; l.dec[k] = &dec;
    l.fill[k] = &fill; l.zeros[k] = &zeros; l.ones[k] = &ones; l.trans[k] = &trans; l.sum_s[k] = &sum_s; l.mult_s[k] = &mult_s; l.div[k] = &div;
    l.plus[k] = &plus; l.minus[k] = &minus; l.sum[k] = &sum; l.sub[k] = &sub; l.conv[k] = &conv; l.swr[k] = &swr; l.swc[k] = &swc; l.hist[k] = &hist; l.cum[k] = &cum; l.eq[k] = &eq;
    l.mean[k] = &mean; l.median[k] = &median;
#define F(P) Prod<P>::set(l);
    MON_DIMS(F)
#undef F
    Valid<(R >= 3 && C >= 3 && has(R - 2) && has(C - 2)), 0>::set(l); Full<(has(R + 2) && has(C + 2)), 0>::set(l); Ab<std::is_signed<T>::value, 0>::set(l);
#define F(K) V<K, (has(R + K) && R != K)>::set(l); H<K, (has(C + K) && C != K)>::set(l);
    MON_DIMS(F)
#undef F
    Sq<R == C, 0>::set(l);
  }
};
#define F(C) Fill<T, R, C>::set(l);
template <class T, size_t R> void fill_row(Lib<T>& l) { MON_DIMS(F) }
#undef F
template <class T> const Lib<T>& lib()
{
  static Lib<T> l;
  static bool done = false;
#define F(R) fill_row<T, R>(l);
  if (!done) { std::memset(static_cast<void*>(&l), 0, sizeof l); MON_DIMS(F) done = true; }
#undef F
  return l;
}

// ------------------------------------------------- the reference interpreter --
template <class T> DM<T> rmul(const DM<T>& a, const DM<T>& b)
{
  DM<T> o(a.r, b.c);
  for (size_t i = 0; i < a.r; ++i) for (size_t j = 0; j < b.c; ++j) { T s = 0; for (size_t k = 0; k < a.c; ++k) s = static_cast<T>(s + a(i, k) * b(k, j)); o(i, j) = s; }
  return o;
}
template <class T> DM<T> reye(size_t n, T v) { DM<T> o(n, n); for (size_t i = 0; i < n; ++i) o(i, i) = v; return o; }
template <class T> DM<T> rfull(const DM<T>& a, const DM<T>& k)
{
  DM<T> o(a.r + 2, a.c + 2);
  for (size_t i = 0; i < a.r; ++i) for (size_t j = 0; j < a.c; ++j) for (size_t x = 0; x < 3; ++x) for (size_t y = 0; y < 3; ++y) o(i + x, j + y) = static_cast<T>(o(i + x, j + y) + a(i, j) * k(x, y));
  return o;
}
template <class T> DM<T> crop(const DM<T>& a, size_t r0, size_t c0, size_t r, size_t c) { DM<T> o(r, c); for (size_t i = 0; i < r; ++i) for (size_t j = 0; j < c; ++j) o(i, j) = a(r0 + i, c0 + j); return o; }
template <class T> DM<T> rminor(const DM<T>& a, size_t x, size_t y)
{
  DM<T> o(a.r - 1, a.c - 1);
  for (size_t i = 0; i + 1 < a.r; ++i) for (size_t j = 0; j + 1 < a.c; ++j) o(i, j) = a(i + (i >= x), j + (j >= y));
  return o;
}
template <class T> T rdet(const DM<T>& a)
{
  if (a.r == 1) return a(0, 0);
  T d = 0;
  for (size_t j = 0; j < a.c; ++j) { const T t = static_cast<T>(a(0, j) * rdet(rminor(a, 0, j))); d = static_cast<T>(j % 2 ? d - t : d + t); }
  return d;
}
template <class T> DM<T> rcat(const DM<T>& a, const DM<T>& b, bool vertical)
{
  DM<T> o(vertical ? a.r + b.r : a.r, vertical ? a.c : a.c + b.c);
  for (size_t i = 0; i < o.r; ++i) for (size_t j = 0; j < o.c; ++j) o(i, j) = vertical ? (i < a.r ? a(i, j) : b(i - a.r, j)) : (j < a.c ? a(i, j) : b(i, j - a.c));
  return o;
}

// signed and floating elements stay below this in magnitude, intermediates included, so that every result is exact
template <class T> struct Limit { static long double get() { return std::ldexp(1.0L, std::numeric_limits<T>::digits - (std::is_integral<T>::value ? 1 : 0)); } };
template <class T> long double mag(T v) { return std::fabs(static_cast<long double>(v)); }
template <class T> long double mag(const DM<T>& m) { long double x = 0; for (size_t k = 0; k < m.size(); ++k) x = std::max(x, mag(m.data()[k])); return x; }
template <class T> bool divides(T v, T x, std::true_type) { return v != 0; }
template <class T> bool divides(T v, T x, std::false_type) { return v != 0 && std::fmod(x, v) == 0; }

template <class T> void program(Ctx& c, const void*)
{
  constexpr bool bounded = std::is_signed<T>::value, exact_division = std::is_integral<T>::value;
  typedef std::integral_constant<bool, exact_division> Integral;
  auto fits = [](long double m) { return !bounded || m <= Limit<T>::get(); };
  const Lib<T>& L = lib<T>();
  Rng& r = c.rng;
  const size_t NR = 6;
  std::vector<DM<T>> lib_(NR, DM<T>(1, 1)), ref(NR, DM<T>(1, 1));
  T sl = 3, sr = 3;                                         // the scalar register of both sides
  std::string trace;
  for (size_t k = 0; k < NR; ++k)
  {
    size_t R = dims[r.below(X)], C = r.chance(1, 2) ? R : dims[r.below(X)];
    if (k == 0) { R = C = 3; }                              // a kernel
    if (!bounded) ref[k] = gen_mat<T>(r, R, C, static_cast<int>(r.below(6)));
    else if (R == C && r.chance(1, 2))
    {
      const DM<i64> u = unimodular(r, R, 9, 3 + r.below(3 * R));
      ref[k] = DM<T>(R, R);
      for (size_t q = 0; q < u.size(); ++q) ref[k].data()[q] = static_cast<T>(u.data()[q]);
    }
    else
    {
      const i64 b = r.chance(1, 3) ? 200 : 9;
      ref[k] = DM<T>(R, C);
      for (size_t q = 0; q < R * C; ++q) ref[k].data()[q] = static_cast<T>(r.range(-b, b));
    }
    lib_[k] = ref[k];
    c.in(ref[k]);
  }
  const size_t steps = 10 + r.below(31);
  // candidates for an operand
  auto pick = [&](std::function<bool(const DM<T>&)> ok) -> int {
    const size_t o = r.below(NR);
    for (size_t k = 0; k < NR; ++k) if (ok(ref[(o + k) % NR])) return static_cast<int>((o + k) % NR);
    return -1;
  };
  auto any = [](const DM<T>&) { return true; };
  auto square = [](const DM<T>& m) { return m.r == m.c; };
  for (size_t s = 0; s < steps; ++s)
  {
    const char* name = "";
    const T v = r.chance(1, 2) ? sr : bounded ? static_cast<T>(r.range(-9, 9)) : static_cast<T>(r.chance(1, 2) ? r.below(10) : r.next());
    int a = -1, b = -1, d = -1, d2 = -1;
    DM<T> want(1, 1), want2(1, 1);
    bool two = false;
    std::function<void(const T*, const T*, T*, T*)> call;
    auto one = [&](const char* n, typename Lib<T>::F1 f, T x, T y) { name = n; call = [=](const T* p, const T*, T* o, T*) { f(p, o, x, y); }; };
    auto bin = [&](const char* n, typename Lib<T>::F2 f) { name = n; call = f; };
    auto map = [&](std::function<T(T)> f) { want = ref[a]; for (size_t k = 0; k < want.size(); ++k) want.data()[k] = f(want.data()[k]); };
    auto map2 = [&](std::function<T(T, T)> f) { want = ref[a]; for (size_t k = 0; k < want.size(); ++k) want.data()[k] = f(ref[a].data()[k], ref[b].data()[k]); };
    const unsigned op = static_cast<unsigned>(r.below(41));
    a = pick(any);
    size_t ix = at(ref[a].r, ref[a].c);
    const long double ma = mag(ref[a]), mv = mag(v);
    switch (op)
    {
      case 0: if (!fits(ma + mv)) break; one("A+s", L.plus_s[ix], v, 0); map([v](T x) { return static_cast<T>(x + v); }); break;
      case 1: if (!fits(ma + mv)) break; one("s+A", L.s_plus[ix], v, 0); map([v](T x) { return static_cast<T>(x + v); }); break;
      case 2: if (!fits(ma + mv)) break; one("A-s", L.minus_s[ix], v, 0); map([v](T x) { return static_cast<T>(x - v); }); break;
      case 3: if (!fits(ma * mv)) break; one("A*s", L.times_s[ix], v, 0); map([v](T x) { return static_cast<T>(x * v); }); break;
      case 4: if (!fits(ma * mv)) break; one("s*A", L.s_times[ix], v, 0); map([v](T x) { return static_cast<T>(x * v); }); break;
      case 5:
      {
        bool exact = true;
        for (size_t k = 0; k < ref[a].size(); ++k) exact = exact && divides<T>(v, ref[a].data()[k], Integral());
        if (!exact) break;
        one(r.chance(1, 2) ? "A/s" : "div", r.chance(1, 2) ? L.over[ix] : L.div[ix], v, 0); map([v](T x) { return static_cast<T>(x / v); });
        break;
      }
      case 6: if (!fits(ma + 1)) break; one("A++", L.inc[ix], 0, 0); map([](T x) { return static_cast<T>(x + 1); }); break;
      case 7: if (!fits(ma + 1)) break; one("A--", L.dec[ix], 0, 0); map([](T x) { return static_cast<T>(x - 1); }); break;
      case 8: one("fill", L.fill[ix], v, 0); map([v](T) { return v; }); break;
      case 9: one("zeros", L.zeros[ix], 0, 0); map([](T) { return T(0); }); break;
      case 10: one("ones", L.ones[ix], 0, 0); map([](T) { return T(1); }); break;
      case 11: case 12: one("trans", L.trans[ix], 0, 0); want = DM<T>(ref[a].c, ref[a].r); for (size_t i = 0; i < want.r; ++i) for (size_t j = 0; j < want.c; ++j) want(i, j) = ref[a](j, i); break;
      case 13: if (!fits(ma + mv)) break; one("sum(A,s)", L.sum_s[ix], v, 0); map([v](T x) { return static_cast<T>(x + v); }); break;
      case 14: if (!fits(ma * mv)) break; one("mult(A,s)", L.mult_s[ix], v, 0); map([v](T x) { return static_cast<T>(x * v); }); break;
      case 15: case 16: case 17: case 18:
        b = pick([&](const DM<T>& m) { return m.r == ref[a].r && m.c == ref[a].c && (&m != &ref[a] || r.chance(1, 2)); });
        if (b < 0) b = a;
        if (!fits(ma + mag(ref[b]))) break;
        if (op == 15) bin("A+B", L.plus[ix]); else if (op == 16) bin("A-B", L.minus[ix]); else if (op == 17) bin("sum(A,B)", L.sum[ix]); else bin("sub(A,B)", L.sub[ix]);
        if (op == 15 || op == 17) map2([](T x, T y) { return static_cast<T>(x + y); }); else map2([](T x, T y) { return static_cast<T>(x - y); });
        break;
      case 19: case 20: case 21: case 22:
        b = pick([&](const DM<T>& m) { return m.r == ref[a].c; });
        if (b < 0 || !fits(ma * mag(ref[b]) * ref[a].c)) break;
        if (op % 2) bin("A*B", L.prod[ix * X + ix_of(ref[b].c)]); else bin("mult(A,B)", L.mult[ix * X + ix_of(ref[b].c)]);
        want = rmul(ref[a], ref[b]);
        break;
      case 23: case 24: case 25:
        b = pick([](const DM<T>& m) { return m.r == 3 && m.c == 3; });
        if (b < 0 || !fits(ma * mag(ref[b]) * 9)) break;
        if (op == 23) { bin("conv2", L.conv[ix]); want = crop(rfull(ref[a], ref[b]), 1, 1, ref[a].r, ref[a].c); }
        else if (op == 24 && L.full[ix]) { bin("conv2_full", L.full[ix]); want = rfull(ref[a], ref[b]); }
        else if (op == 25 && L.valid[ix]) { bin("conv2_valid", L.valid[ix]); want = crop(rfull(ref[a], ref[b]), 2, 2, ref[a].r - 2, ref[a].c - 2); }
        break;
      case 26: case 27:
        b = pick([&](const DM<T>& m) { return L.cat[ix * X * X + at(m.r, m.c)] != nullptr; });
        if (b < 0) break;
        if (square(ref[a]) && ref[b].r == ref[a].r && ref[b].c == ref[a].c)
        {
          const size_t n = ix_of(ref[a].r);
          if (r.chance(1, 3)) { bin("concatenateV", L.catv[n]); want = rcat(ref[a], ref[b], true); }
          else if (r.chance(1, 2)) { bin("concatenateH", L.cath[n]); want = rcat(ref[a], ref[b], false); }
          else { bin("concatenate squares", L.cat[ix * X * X + ix]); want = rcat(ref[a], ref[b], true); want2 = rcat(ref[a], ref[b], false); two = true; }
        }
        else { bin("concatenate", L.cat[ix * X * X + at(ref[b].r, ref[b].c)]); want = rcat(ref[a], ref[b], ref[a].c == ref[b].c); }
        break;
      case 28: case 29: case 30: case 31:
      {
        a = pick(square);
        if (a < 0) break;
        const size_t n = ref[a].r;
        ix = at(n, n);
        if (op == 28) { const bool one_ = r.chance(1, 2); one("eye", one_ ? L.eye[ix_of(n)] : L.eyev[ix_of(n)], v, 0); want = reye<T>(n, one_ ? T(1) : v); }
        else if (op == 29)
        {
          const unsigned p = static_cast<unsigned>(bounded ? r.below(8) : n > 5 ? r.below(30) : r.chance(3, 4) ? r.below(20) : r.below(2000));
          if (!fits(std::pow(std::max(1.0L, mag(ref[a]) * n), static_cast<long double>(p)))) break;
          g_exponent = p;
          one("pow", L.pow[ix_of(n)], 0, 0);
          want = reye<T>(n, T(1));
          for (unsigned k = 0; k < p; ++k) want = rmul(want, ref[a]);
        }
        else if (op == 30 && L.minor_[ix_of(n)]) { const size_t i = r.below(n), j = r.below(n); one("getminor", L.minor_[ix_of(n)], static_cast<T>(i), static_cast<T>(j)); want = rminor(ref[a], i, j); }
        else if (op == 31)
        {
          b = pick([&](const DM<T>& m) { return m.r == 2 && m.c == 2; });
          a = pick([&](const DM<T>& m) { return m.r == 2 && m.c == 2; });
          if (b < 0 || a < 0 || !fits(16 * mag(ref[a]) * mag(ref[b]))) break;
          bin("strassen", L.strassen); want = rmul(ref[a], ref[b]);
        }
        break;
      }
      case 32: case 33:
      {
        // in place
        const bool rows = op == 32;
        const size_t n = rows ? ref[a].r : ref[a].c, i = r.below(n), j = r.below(n);
        (rows ? L.swr : L.swc)[ix](lib_[a].data(), i, j);
        for (size_t k = 0; k < (rows ? ref[a].c : ref[a].r); ++k) if (rows) std::swap(ref[a](i, k), ref[a](j, k)); else std::swap(ref[a](k, i), ref[a](k, j));
        name = rows ? "swap_rows" : "swap_cols";
        break;
      }
      case 34:
      {
        const size_t q = r.below(4);
        if (q == 0 && square(ref[a]) && L.det[ix_of(ref[a].r)] && ref[a].r <= 5 && fits(std::pow(std::max(1.0L, ma * ref[a].r), static_cast<long double>(ref[a].r)))) { name = "det"; sl = L.det[ix_of(ref[a].r)](lib_[a].data(), 0); sr = rdet(ref[a]); }
        else if (q == 1 && square(ref[a])) { name = "isIdentity"; sl = L.isid[ix_of(ref[a].r)](lib_[a].data(), 0); sr = same_mat(ref[a], reye<T>(ref[a].r, 1)); }
        else if (q == 2 && square(ref[a])) { name = "isSymetric"; sl = L.issym[ix_of(ref[a].r)](lib_[a].data(), 0); sr = 1; for (size_t i = 0; i < ref[a].r; ++i) for (size_t j = 0; j < i; ++j) if (ref[a](i, j) != ref[a](j, i)) sr = 0; }
        else
        {
          b = pick([&](const DM<T>& m) { return m.r == ref[a].r && m.c == ref[a].c; });
          name = "A==B"; sl = L.eq[ix](lib_[a].data(), lib_[b].data()); sr = same_mat(ref[a], ref[b]);
        }
        break;
      }
      case 36: case 37:
      {
        // inverses, and negative powers, of integer matrices with determinant 1 or -1
        a = pick([&](const DM<T>& m) { return square(m) && L.inv[ix_of(m.r)] && fits(std::pow(std::max(1.0L, mag(m) * m.r), static_cast<long double>(m.r))) && mag(rdet(m)) == 1; });
        if (a < 0) break;
        const size_t n = ref[a].r;
        const T d_ = rdet(ref[a]);
        DM<T> w(n, n);
        for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) { const T m = n == 1 ? T(1) : rdet(rminor(ref[a], j, i)); w(i, j) = static_cast<T>((i + j) % 2 ? -m * d_ : m * d_); }
        if (op == 36) { one("inv", L.inv[ix_of(n)], 0, 0); want = w; break; }
        const unsigned p = 1 + static_cast<unsigned>(r.below(4));
        if (!fits(std::pow(std::max(1.0L, mag(w) * n), static_cast<long double>(p)))) break;
        g_exponent = -static_cast<i64>(p);
        one("negative pow", L.pow[ix_of(n)], 0, 0);
        want = reye<T>(n, T(1));
        for (unsigned k = 0; k < p; ++k) want = rmul(want, w);
        break;
      }
      case 38: if (!L.abs[ix]) break; one("abs", L.abs[ix], 0, 0); map([](T x) { return x < T(0) ? static_cast<T>(-x) : x; }); break;
      case 39:
      {
        const size_t n = ref[a].size();
        if (!exact_division) break;
        std::vector<T> w(ref[a].data(), ref[a].data() + n);
        std::sort(w.begin(), w.end());
        if (r.chance(1, 2))
        {
          __int128 t = 0;
          for (size_t k = 0; k < n; ++k) t += static_cast<__int128>(w[k]);
          if (!fits(ma * n) || t > static_cast<__int128>(std::numeric_limits<T>::max())) break;
          name = "mean"; sl = L.mean[ix](lib_[a].data(), 0); sr = static_cast<T>(t / static_cast<__int128>(n));
        }
        else
        {
          const __int128 t = static_cast<__int128>(w[n / 2]) + static_cast<__int128>(w[(n - 1) / 2]);
          if (!fits(2 * ma) || t > static_cast<__int128>(std::numeric_limits<T>::max())) break;
          name = "median"; sl = L.median[ix](lib_[a].data(), 0); sr = static_cast<T>(t / 2);
        }
        break;
      }
      default:
      {
        const T key = ref[a].data()[r.below(ref[a].size())];
        const bool cum = r.chance(1, 2);
        name = cum ? "cumulative_histogram" : "histogram";
        sl = (cum ? L.cum : L.hist)[ix](lib_[a].data(), key);
        sr = 0;
        for (size_t k = 0; k < ref[a].size(); ++k) if (cum ? ref[a].data()[k] <= key : ref[a].data()[k] == key) sr = static_cast<T>(sr + 1);
      }
    }
    if (!*name) continue;
    if (call)
    {
      // the destination: often one of the operands
      const size_t w = r.below(3);
      d = w == 0 ? a : w == 1 && b >= 0 ? b : static_cast<int>(r.below(NR));
      const bool in_place = lib_[d].r == want.r && lib_[d].c == want.c;
      if (in_place && !two)
      {
        call(lib_[a].data(), b < 0 ? nullptr : lib_[b].data(), lib_[d].data(), nullptr);
        if (d == a || d == b) c.event("result over an operand");
      }
      else
      {
        DM<T> o(want.r, want.c), o2(want2.r, want2.c);
        call(lib_[a].data(), b < 0 ? nullptr : lib_[b].data(), o.data(), o2.data());
        lib_[d] = o;
        if (two) { d2 = static_cast<int>((d + 1) % static_cast<int>(NR)); lib_[d2] = o2; }
      }
      ref[d] = want;
      if (two) ref[d2] = want2;
    }
    if (trace.size() < 1500) trace += std::string(trace.empty() ? "" : "; ") + "r" + std::to_string(d) + "=" + name + "(r" + std::to_string(a) + (b >= 0 ? ",r" + std::to_string(b) : "") + ")";
    c.event(name);
    c.event("step agreed");
    if (sl != sr) return c.fail("scalar result " + str(sl) + " instead of " + str(sr) + " after: " + trace + "; operand " + dump(ref[a]));
    for (size_t k = 0; k < NR; ++k)
      if (!same_mat(lib_[k], ref[k])) return c.fail("register r" + std::to_string(k) + " is " + dump(lib_[k]) + " instead of " + dump(ref[k]) + " after: " + trace);
  }
}
static void reg()
{
#if MON_PART == 0
  add("programs/uint", &program<unsigned>);
#elif MON_PART == 1
  add("programs/ulong", &program<unsigned long>); add("programs/uchar", &program<unsigned char>, nullptr, 0.5);
#elif MON_PART == 2
  add("programs/int", &program<int>);
#elif MON_PART == 3
  add("programs/double", &program<double>); add("programs/long", &program<long>, nullptr, 0.5);
#elif MON_PART == 4
  add("programs17/uint", &program<unsigned>, nullptr, 0.3);
#else
  add("programs17/int", &program<int>, nullptr, 0.3);
#endif
}
MON_MAIN(reg)
