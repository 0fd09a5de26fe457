// Runtime-monitor runtime shared by every harness in this directory.
//
// A harness registers UNITS (one library call under one element type and one
// shape, plus the oracle that judges it).  main() runs a fixed number of CASES
// per unit; every case has its own 64-bit seed, so a case is replayed by
// (unit, case seed).  Before a case runs, its identity is written into a shared
// mapping ("crumb"), so that the driver can name the case that crashed, aborted
// in a sanitizer, terminated or hung.  Nothing here looks at the library's
// source: only at what its calls return.
#ifndef MON_HPP_
#define MON_HPP_

#include <algorithm>
#include <array>
#include <cfloat>
#include <cinttypes>
#include <cmath>
#include <complex>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <functional>
#include <limits>
#include <map>
#include <sstream>
#include <stdexcept>
#include <string>
#include <type_traits>
#include <unordered_set>
#include <utility>
#include <vector>

#include <fcntl.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <unistd.h>

#include "matrix.hpp"

namespace mon
{

using std::size_t;
using u64 = std::uint64_t;
using i64 = std::int64_t;
typedef __float128 Q;

template <class T, size_t R, size_t C> using Mat = mlib::Matrix<T, R, C>;

// A matrix whose shape is a run-time value, at the end of a heap block of its size
// (so that AddressSanitizer sees every access outside it), one in four with up to
// seven elements before it: operands lie at every alignment their type allows.  Only the thin
// wrappers around library calls are instantiated per shape; generators and
// oracles are instantiated per element type.
template <class T> class DM
{
public:
  size_t r, c;
  DM(size_t r_, size_t c_) : r(r_), c(c_), p(alloc(r_ * c_)) { for (size_t k = 0; k < r * c; ++k) p[k] = T(); }
  DM(const DM& o) : r(o.r), c(o.c), p(alloc(o.r * o.c)) { copy(o); }
  DM& operator=(const DM& o)
  {
    if (this == &o) return *this;
    if (r * c != o.r * o.c) { std::free(base); p = alloc(o.r * o.c); }
    r = o.r; c = o.c;
    copy(o);
    return *this;
  }
  ~DM() { std::free(base); }
  T& operator()(size_t i, size_t j) { return p[i * c + j]; }
  const T& operator()(size_t i, size_t j) const { return p[i * c + j]; }
  T* data() { return p; }
  const T* data() const { return p; }
  size_t size() const { return r * c; }
private:
  T* alloc(size_t n)
  {
    static u64 turn = 0;
    turn = turn * 6364136223846793005ull + 1442695040888963407ull;
    const size_t before = (turn >> 33) % 4 ? 0 : 1 + (turn >> 40) % 7;
    base = std::malloc((before + n) * sizeof(T));
    if (!base) std::abort();
    return static_cast<T*>(base) + before;
  }
  void copy(const DM& o) { for (size_t k = 0; k < r * c; ++k) p[k] = o.p[k]; }
  void* base;
  T* p;
};
// the library's view of such a block
template <size_t R, size_t C, class T> const Mat<T, R, C>& as(const T* p) { return *reinterpret_cast<const Mat<T, R, C>*>(p); }
template <size_t R, size_t C, class T> Mat<T, R, C>& as(T* p) { return *reinterpret_cast<Mat<T, R, C>*>(p); }

// ---------------------------------------------------------------- random ----
inline u64 mix(u64 x)
{
  x += 0x9E3779B97F4A7C15ull;
  x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ull;
  x = (x ^ (x >> 27)) * 0x94D049BB133111EBull;
  return x ^ (x >> 31);
}
inline u64 hash_str(const char* s)
{
  u64 h = 1469598103934665603ull;
  for (; *s; ++s) { h ^= static_cast<unsigned char>(*s); h *= 1099511628211ull; }
  return h;
}

struct Rng
{
  u64 s;
  explicit Rng(u64 seed = 1) : s(seed) {}
  u64 next() { s += 0x9E3779B97F4A7C15ull; return mix(s); }
  // uniform in [0, n)
  u64 below(u64 n) { return n ? next() % n : 0; }
  i64 range(i64 lo, i64 hi)
  {
    u64 span = static_cast<u64>(hi) - static_cast<u64>(lo) + 1;
    u64 r = span ? next() % span : next();
    return static_cast<i64>(static_cast<u64>(lo) + r);
  }
  bool chance(unsigned num, unsigned den) { return below(den) < num; }
  long double unit() { return static_cast<long double>(next() >> 11) / 9007199254740992.0L; }
};

// ----------------------------------------------------------------- types ----
template <class T> struct TName;
#define MON_TNAME(T, S) template <> struct TName<T> { static const char* get() { return S; } };
MON_TNAME(signed char, "schar")
MON_TNAME(unsigned char, "uchar")
MON_TNAME(short, "short")
MON_TNAME(unsigned short, "ushort")
MON_TNAME(int, "int")
MON_TNAME(unsigned int, "uint")
MON_TNAME(long, "long")
MON_TNAME(unsigned long, "ulong")
MON_TNAME(long long, "llong")
MON_TNAME(unsigned long long, "ullong")
MON_TNAME(char, "char")
MON_TNAME(bool, "bool")
MON_TNAME(float, "float")
MON_TNAME(double, "double")
MON_TNAME(long double, "ldouble")
MON_TNAME(std::complex<float>, "cfloat")
MON_TNAME(std::complex<double>, "cdouble")
MON_TNAME(std::complex<long double>, "cldouble")

template <class T> struct is_cplx : std::false_type {};
template <class T> struct is_cplx<std::complex<T>> : std::true_type {};

template <class T> struct eps_of { static long double get() { return std::numeric_limits<T>::epsilon() / 2; } };

inline Q qabs(Q x) { return x < 0 ? -x : x; }
inline Q qmax(Q a, Q b) { return a < b ? b : a; }
inline Q qsqrt(Q x)
{
  if (!(x > 0)) return 0;
  // scale into the range of long double, then Newton
  Q scale = 1;
  while (x > (Q)1e4000L) { x /= (Q)1e2000L; scale *= (Q)1e1000L; }
  while (x < (Q)1e-4000L) { x *= (Q)1e2000L; scale /= (Q)1e1000L; }
  Q r = std::sqrt(static_cast<long double>(x));
  for (int k = 0; k < 3; ++k) r = (r + x / r) / 2;
  return r * scale;
}
template <class T> bool finite_(T x) { return std::isfinite(x); }

// -------------------------------------------------------------- printing ----
template <class T>
typename std::enable_if<std::is_floating_point<T>::value, std::string>::type str(T v)
{
  char b[64];
  std::snprintf(b, sizeof b, "%.21Lg", static_cast<long double>(v));
  return b;
}
template <class T>
typename std::enable_if<std::is_integral<T>::value && std::is_signed<T>::value, std::string>::type str(T v)
{
  return std::to_string(static_cast<long long>(v));
}
template <class T>
typename std::enable_if<std::is_integral<T>::value && !std::is_signed<T>::value, std::string>::type str(T v)
{
  return std::to_string(static_cast<unsigned long long>(v));
}
template <class T> std::string str(const std::complex<T>& v) { return "(" + str(v.real()) + "," + str(v.imag()) + ")"; }
inline std::string str(Q v) { return str(static_cast<long double>(v)); }

template <class T> std::string dump(const DM<T>& A)
{
  std::string o = "[" + std::to_string(A.r) + "x" + std::to_string(A.c) + "]{";
  size_t n = 0;
  for (size_t i = 0; i < A.r && n < 120; ++i)
  {
    if (i) o += "; ";
    for (size_t j = 0; j < A.c && n < 120; ++j, ++n) { if (j) o += ","; o += str(A(i, j)); }
  }
  if (A.size() > n) o += " ...";
  return o + "}";
}

// ------------------------------------------------------------------- ctx ----
struct Violation { std::string unit, what; u64 case_seed; };

struct State
{
  u64 seed = 1;
  u64 evaluations = 0, oracle_events = 0, trivial = 0;
  std::unordered_set<u64> distinct;
  std::map<std::string, u64> counts;
  std::map<std::string, double> gauges;      // largest value seen, e.g. error over its bound
  std::vector<Violation> violations;
  std::vector<std::string> samples;
  u64 units_run = 0;
  char* crumb = nullptr;
  size_t crumb_size = 0;
  bool verbose = false;
};
inline State& st() { static State s; return s; }

struct Ctx
{
  Rng rng;
  const char* unit;
  u64 case_seed;
  u64 h;
  bool nontrivial = false;
  unsigned fails = 0;
  size_t case_no = 0;
  std::string sample;
  Ctx(u64 s, const char* u) : rng(s), unit(u), case_seed(s), h(hash_str(u)) {}

  // an input of this case: hashed, and its non-triviality decided
  template <class T> void in(const DM<T>& A)
  {
    const T first = A(0, 0);
    for (size_t k = 0; k < A.size(); ++k)
    {
      hash_value(A.data()[k]);
      if (!(A.data()[k] == first)) nontrivial = true;
    }
    if (sample.empty() && st().samples.size() < 6) sample = dump(A);
  }
  template <class T> void in_scalar(T v) { hash_value(v); }
  template <class T> void hash_value(const T& v)
  {
    // long double has padding bytes: hash its printed form's bits instead
    unsigned char b[sizeof(T)];
    std::memset(b, 0, sizeof b);
    std::memcpy(b, &v, std::is_same<T, long double>::value ? 10 : sizeof(T));
    for (size_t k = 0; k < sizeof b; ++k) { h ^= b[k]; h *= 1099511628211ull; }
  }
  // an event judged by an oracle
  void event(const char* cat, u64 n = 1) { st().oracle_events += n; st().counts[cat] += n; }
  // largest observed value of a measurement (a passing one lies in [0, 1])
  void gauge(const char* name, double v) { double& g = st().gauges[name]; if (v > g) g = v; }
  void fail(const std::string& what)
  {
    ++fails;
    if (fails > 3) return;
    if (st().violations.size() < 40) st().violations.push_back(Violation{unit, what, case_seed});
    if (st().verbose) std::fprintf(stderr, "VIOLATED %s case=%" PRIu64 "\n  %s\n", unit, case_seed, what.c_str());
  }
};

typedef void (*UnitFn)(Ctx&, const void* table);
struct Unit { std::string name; UnitFn fn; const void* table; double weight; };
inline std::vector<Unit>& units() { static std::vector<Unit> u; return u; }
inline void add(const std::string& name, UnitFn fn, const void* table = nullptr, double weight = 1) { units().push_back(Unit{name, fn, table, weight}); }

template <class T> std::string uname(const char* op, size_t r, size_t c)
{
  return std::string(op) + "/" + TName<T>::get() + "/" + std::to_string(r) + "x" + std::to_string(c);
}

// cost-aware case count: big shapes get fewer cases
inline double w_cost(double cost, double unit_cost = 256) { return cost <= unit_cost ? 1 : std::max(0.01, unit_cost / cost); }

// ---------------------------------------------------------------- shapes ----
template <size_t R, size_t C> struct Shape {};
template <class... S> struct Shapes {};
template <size_t... N> struct Sizes {};

template <template <class, size_t, size_t> class Reg, class T> void each_shape(Shapes<>) {}
template <template <class, size_t, size_t> class Reg, class T, size_t R, size_t C, class... S>
void each_shape(Shapes<Shape<R, C>, S...>)
{
  Reg<T, R, C>::reg();
  each_shape<Reg, T>(Shapes<S...>());
}
template <template <class, size_t> class Reg, class T> void each_size(Sizes<>) {}
template <template <class, size_t> class Reg, class T, size_t N, size_t... S>
void each_size(Sizes<N, S...>)
{
  Reg<T, N>::reg();
  each_size<Reg, T>(Sizes<S...>());
}

// ------------------------------------------------------------ generators ----
template <class T> struct lim
{
  static i64 lo() { return std::is_signed<T>::value ? (sizeof(T) >= 8 ? INT64_MIN : -(i64(1) << (8 * sizeof(T) - 1))) : 0; }
  static u64 hi() { return std::is_signed<T>::value ? (u64(1) << (8 * sizeof(T) - 1)) - 1 : (sizeof(T) >= 8 ? ~u64(0) : (u64(1) << (8 * sizeof(T))) - 1); }
};

// integer element; |x| <= bound for signed types (bound 0: no bound)
template <class T>
typename std::enable_if<std::is_integral<T>::value, T>::type gen(Rng& r, int fam, u64 bound = 0)
{
  const u64 hi = bound ? std::min<u64>(bound, lim<T>::hi()) : lim<T>::hi();
  u64 mag;
  if (!bound && std::is_signed<T>::value && fam >= 2 && fam != 4 && r.chance(1, 10)) return static_cast<T>(lim<T>::lo());
  switch (fam)
  {
    case 0: mag = r.below(std::min<u64>(hi, 9) + 1); break;
    case 1: mag = r.below(std::min<u64>(hi, 100) + 1); break;
    case 2: mag = hi - r.below(std::min<u64>(hi, 4) + 1); break;                 // near the bound
    case 3: mag = hi == ~u64(0) ? r.next() : r.below(hi + 1); break;            // whole range
    case 4: mag = r.chance(3, 4) ? 0 : 1 + r.below(std::min<u64>(hi, 50)); mag = std::min(mag, hi); break;  // sparse
    default: { unsigned bits = 1 + r.below(64); u64 m = bits >= 64 ? r.next() : r.below(u64(1) << bits); mag = hi == ~u64(0) ? m : m % (hi + 1); }
  }
  if (std::is_signed<T>::value && r.chance(1, 2)) return static_cast<T>(-static_cast<i64>(mag));
  return static_cast<T>(mag);
}
constexpr int kFams = 10;

// floating element. fam: 0 small integers, 1 uniform, 2 wide magnitudes,
// 3 dyadic, 4 sparse, 5 tiny/denormal, 6 specials mixed in, 7 huge, 8 equal-ish,
// 9 integers beyond float/double rounding
template <class T>
typename std::enable_if<std::is_floating_point<T>::value, T>::type gen(Rng& r, int fam, u64 = 0)
{
  const T sgn = r.chance(1, 2) ? T(1) : T(-1);
  switch (fam)
  {
    case 0: return static_cast<T>(r.range(-9, 9));
    case 1: return static_cast<T>(r.unit() * 2 - 1);
    case 2: return sgn * static_cast<T>(std::pow(10.0L, r.unit() * 24 - 12) * (1 + r.unit()));
    case 3: return static_cast<T>(r.range(-64, 64)) / T(8);
    case 4: return r.chance(3, 4) ? T(0) : static_cast<T>(r.range(-20, 20));
    case 5: return sgn * std::numeric_limits<T>::denorm_min() * static_cast<T>(r.below(1000));
    case 6:
      switch (r.below(8))
      {
        case 0: return std::numeric_limits<T>::infinity();
        case 1: return -std::numeric_limits<T>::infinity();
        case 2: return std::numeric_limits<T>::quiet_NaN();
        case 3: return T(-0.0);
        case 4: return std::numeric_limits<T>::max();
        case 5: return std::numeric_limits<T>::min();
        default: return static_cast<T>(r.range(-1000, 1000)) / T(16);
      }
    case 7: return sgn * std::numeric_limits<T>::max() * static_cast<T>(r.unit());
    case 8: return T(1) + static_cast<T>(r.below(4)) * std::numeric_limits<T>::epsilon();
    default: return sgn * static_cast<T>((u64(1) << std::numeric_limits<T>::digits % 64) - 1 - r.below(1000));
  }
}
template <class T> struct is_cplx_t;
template <class T>
typename std::enable_if<is_cplx<T>::value, T>::type gen(Rng& r, int fam, u64 = 0)
{
  using V = typename T::value_type;
  const V a = gen<V>(r, fam), b = gen<V>(r, fam);
  return T(a, b);
}
template <class T> DM<T> gen_mat(Rng& r, size_t R, size_t C, int fam, u64 bound = 0)
{
  DM<T> A(R, C);
  for (size_t k = 0; k < A.size(); ++k) A.data()[k] = gen<T>(r, fam, bound);
  return A;
}

// give a matrix one of the structures that a shortcut might look for; only values it holds, and 0, are used
template <class T> const char* structure(Rng& r, DM<T>& A)
{
  const size_t R = A.r, C = A.c, m = std::min(R, C);
  auto keep = [&](std::function<bool(size_t, size_t)> f) { for (size_t i = 0; i < R; ++i) for (size_t j = 0; j < C; ++j) if (!f(i, j)) A(i, j) = T(0); };
  switch (r.below(16))
  {
    case 0: keep([](size_t i, size_t j) { return i == j; }); return "diagonal";
    case 1: { const T v = A(0, 0); keep([](size_t i, size_t j) { return i == j; }); for (size_t i = 0; i < m; ++i) A(i, i) = v; return "multiple of the identity"; }
    case 2: keep([](size_t i, size_t j) { return i <= j; }); return "upper triangular";
    case 3: keep([](size_t i, size_t j) { return i >= j; }); return "lower triangular";
    case 4: keep([](size_t i, size_t j) { return i + 1 >= j && j + 1 >= i; }); return "tridiagonal";
    case 5: { const T v = A(0, 0); for (size_t k = 0; k < A.size(); ++k) A.data()[k] = v; return "constant"; }
    case 6: for (size_t i = 1; i < R; ++i) for (size_t j = 0; j < C; ++j) A(i, j) = A(0, j); return "equal rows";
    case 7: for (size_t i = 0; i < R; ++i) for (size_t j = 1; j < C; ++j) A(i, j) = A(i, 0); return "equal columns";
    case 8: for (size_t i = 0; i < m; ++i) for (size_t j = 0; j < i; ++j) A(i, j) = A(j, i); return "symmetric";
    case 9: for (size_t i = 0; i < R; ++i) for (size_t j = 0; j < C; ++j) A(i, j) = A(std::min(i, R - 1 - i), std::min(j, C - 1 - j)); return "mirrored both ways";
    case 10: for (size_t k = 0; k < A.size() / 2; ++k) A.data()[A.size() - 1 - k] = A.data()[k]; return "symmetric about the centre";
    case 11: { const size_t x = r.below(R); for (size_t j = 0; j < C; ++j) A(x, j) = T(0); return "zero row"; }
    case 12: { const size_t x = r.below(C); for (size_t i = 0; i < R; ++i) A(i, x) = T(0); return "zero column"; }
    case 13: { const size_t x = r.below(R), y = r.below(C); keep([=](size_t i, size_t j) { return i == x && j == y; }); return "one element"; }
    case 14: for (size_t i = 1; i < R; ++i) for (size_t j = 1; j < C; ++j) A(i, j) = A(i - 1, j - 1); return "constant diagonals";
    default:
    {
      std::vector<size_t> to(C);
      for (size_t j = 0; j < C; ++j) to[j] = j;
      for (size_t j = C; j > 1; --j) std::swap(to[j - 1], to[r.below(j)]);
      keep([&](size_t i, size_t j) { return to[i % C] == j; });
      return "permutation";
    }
  }
}

// equality of elements as values: NaN equals NaN, the sign of zero is ignored
template <class T> typename std::enable_if<std::is_integral<T>::value, bool>::type same(T a, T b) { return a == b; }
template <class T> typename std::enable_if<std::is_floating_point<T>::value, bool>::type same(T a, T b) { return a == b || (std::isnan(a) && std::isnan(b)); }
template <class T> bool same(const std::complex<T>& a, const std::complex<T>& b) { return same(a.real(), b.real()) && same(a.imag(), b.imag()); }

// ... and with the sign of zero (real types only; NaN still equals NaN)
template <class T> typename std::enable_if<std::is_floating_point<T>::value, bool>::type same_zero(T a, T b) { return same(a, b) && (a != T(0) || std::signbit(a) == std::signbit(b)); }
template <class T> typename std::enable_if<!std::is_floating_point<T>::value, bool>::type same_zero(const T& a, const T& b) { return same(a, b); }

template <class T> bool same_mat(const DM<T>& A, const DM<T>& B)
{
  if (A.r != B.r || A.c != B.c) return false;
  for (size_t k = 0; k < A.size(); ++k) if (!same(A.data()[k], B.data()[k])) return false;
  return true;
}
// every cell of `got` against an oracle function of the position
template <class T, class F>
bool judge(Ctx& c, const char* op, const DM<T>& got, F want, const std::function<std::string()>& args)
{
  for (size_t i = 0; i < got.r; ++i) for (size_t j = 0; j < got.c; ++j)
  {
    const T w = want(i, j);
    if (!same(got(i, j), w))
    {
      c.fail(std::string(op) + ": element (" + std::to_string(i) + "," + std::to_string(j) + ") is " + str(got(i, j)) + ", expected " + str(w) + "; " + args());
      return false;
    }
  }
  c.event(op);
  return true;
}
// ... zeros with their sign
template <class T, class F>
bool judge_zero(Ctx& c, const char* op, const DM<T>& got, F want, const std::function<std::string()>& args)
{
  for (size_t i = 0; i < got.r; ++i) for (size_t j = 0; j < got.c; ++j)
  {
    const T w = want(i, j);
    if (!same_zero(got(i, j), w))
    {
      c.fail(std::string(op) + ": element (" + std::to_string(i) + "," + std::to_string(j) + ") is " + str(got(i, j)) + ", expected " + str(w) + "; " + args());
      return false;
    }
  }
  c.event(op);
  return true;
}
// ... within a tolerance that depends on the position
template <class T, class F, class G>
bool judge_tol(Ctx& c, const char* op, const DM<T>& got, F want, G tol, const std::function<std::string()>& args)
{
  for (size_t i = 0; i < got.r; ++i) for (size_t j = 0; j < got.c; ++j)
  {
    const Q w = want(i, j), t = tol(i, j), g = static_cast<Q>(got(i, j));
    if (t > 0) c.gauge(op, static_cast<double>(qabs(g - w) / t));
    if (!(qabs(g - w) <= t))
    {
      c.fail(std::string(op) + ": element (" + std::to_string(i) + "," + std::to_string(j) + ") is " + str(got(i, j)) + ", expected " + str(w) + " within " + str(t) + "; " + args());
      return false;
    }
  }
  c.event(op);
  return true;
}
// a unique, position-revealing id for every cell (data-movement oracles)
template <class T> DM<T> id_mat(size_t R, size_t C, u64 base)
{
  DM<T> A(R, C);
  for (size_t k = 0; k < A.size(); ++k) A.data()[k] = static_cast<T>(base + k);
  return A;
}

// --------------------------------------------------- dynamic Q matrices -----
struct QM
{
  size_t r, c;
  std::vector<Q> v;
  QM(size_t r_, size_t c_) : r(r_), c(c_), v(r_ * c_, Q(0)) {}
  Q& operator()(size_t i, size_t j) { return v[i * c + j]; }
  Q operator()(size_t i, size_t j) const { return v[i * c + j]; }
};
template <class T> QM toq(const DM<T>& A)
{
  QM q(A.r, A.c);
  for (size_t k = 0; k < A.size(); ++k) q.v[k] = static_cast<Q>(A.data()[k]);
  return q;
}
inline QM qeye(size_t n) { QM q(n, n); for (size_t i = 0; i < n; ++i) q(i, i) = 1; return q; }
inline QM qmul(const QM& a, const QM& b)
{
  QM o(a.r, b.c);
  for (size_t i = 0; i < a.r; ++i) for (size_t k = 0; k < a.c; ++k)
  {
    const Q x = a(i, k);
    if (x == 0) continue;
    for (size_t j = 0; j < b.c; ++j) o(i, j) += x * b(k, j);
  }
  return o;
}
inline QM qabsm(const QM& a) { QM o = a; for (auto& x : o.v) x = qabs(x); return o; }
inline Q qmaxabs(const QM& a) { Q m = 0; for (auto x : a.v) m = qmax(m, qabs(x)); return m; }
inline Q qsumabs(const QM& a) { Q m = 0; for (auto x : a.v) m += qabs(x); return m; }
inline Q qfro2(const QM& a) { Q m = 0; for (auto x : a.v) m += x * x; return m; }
inline QM qtrans(const QM& a) { QM o(a.c, a.r); for (size_t i = 0; i < a.r; ++i) for (size_t j = 0; j < a.c; ++j) o(j, i) = a(i, j); return o; }
// determinant by Gaussian elimination with complete pivoting, in quad precision
inline Q qdet(QM a)
{
  const size_t n = a.r;
  Q d = 1;
  for (size_t k = 0; k < n; ++k)
  {
    size_t pi = k, pj = k;
    Q best = 0;
    for (size_t i = k; i < n; ++i) for (size_t j = k; j < n; ++j) if (qabs(a(i, j)) > best) { best = qabs(a(i, j)); pi = i; pj = j; }
    if (best == 0) return 0;
    if (pi != k) { for (size_t j = 0; j < n; ++j) std::swap(a(pi, j), a(k, j)); d = -d; }
    if (pj != k) { for (size_t i = 0; i < n; ++i) std::swap(a(i, pj), a(i, k)); d = -d; }
    d *= a(k, k);
    for (size_t i = k + 1; i < n; ++i)
    {
      const Q f = a(i, k) / a(k, k);
      if (f == 0) continue;
      for (size_t j = k; j < n; ++j) a(i, j) -= f * a(k, j);
    }
  }
  return d;
}
inline QM qminor(const QM& a, size_t i, size_t j)
{
  QM m(a.r - 1, a.c - 1);
  for (size_t r = 0, x = 0; r < a.r; ++r) if (r != i)
  {
    for (size_t c = 0, y = 0; c < a.c; ++c) if (c != j) { m(x, y) = a(r, c); ++y; }
    ++x;
  }
  return m;
}
// inverse by Gauss-Jordan with partial pivoting; false when singular
inline bool qinv(QM a, QM& out)
{
  const size_t n = a.r;
  QM b = qeye(n);
  for (size_t k = 0; k < n; ++k)
  {
    size_t p = k;
    for (size_t i = k + 1; i < n; ++i) if (qabs(a(i, k)) > qabs(a(p, k))) p = i;
    if (a(p, k) == 0) return false;
    if (p != k) for (size_t j = 0; j < n; ++j) { std::swap(a(p, j), a(k, j)); std::swap(b(p, j), b(k, j)); }
    const Q d = a(k, k);
    for (size_t j = 0; j < n; ++j) { a(k, j) /= d; b(k, j) /= d; }
    for (size_t i = 0; i < n; ++i) if (i != k)
    {
      const Q f = a(i, k);
      if (f == 0) continue;
      for (size_t j = 0; j < n; ++j) { a(i, j) -= f * a(k, j); b(i, j) -= f * b(k, j); }
    }
  }
  out = b;
  return true;
}

// sum of the absolute values of all cofactors; false when it was not computed
inline Q qdet(QM a);
inline bool qcofsum(const QM& a, Q det, Q& out)
{
  const size_t n = a.r;
  if (n == 1) { out = 1; return true; }
  // a determinant this far below its scale is zero up to the quad rounding: no inverse then
  Q scale = 1;
  for (size_t i = 0; i < n; ++i) { Q r = 0; for (size_t j = 0; j < n; ++j) r += a(i, j) * a(i, j); scale *= qsqrt(r); }
  const bool singular = !(qabs(det) > scale * (Q)1e-22L);
  if (n <= 7 || (singular && n <= 12))
  {
    out = 0;
    for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) out += qabs(qdet(qminor(a, i, j)));
    return true;
  }
  QM inv(n, n);
  if (singular || !qinv(a, inv)) return false;
  out = qabs(det) * qsumabs(inv);
  return true;
}

// determinant modulo a prime (integer oracle)
inline u64 mulmod(u64 a, u64 b, u64 p) { return static_cast<u64>(static_cast<unsigned __int128>(a) * b % p); }
inline u64 powmod(u64 a, u64 e, u64 p) { u64 r = 1; for (; e; e >>= 1, a = mulmod(a, a, p)) if (e & 1) r = mulmod(r, a, p); return r; }
inline u64 tomod(i64 v, u64 p) { i64 m = static_cast<i64>(v % static_cast<i64>(p)); return m < 0 ? m + p : m; }
inline u64 detmod(std::vector<std::vector<u64>> a, u64 p)
{
  const size_t n = a.size();
  u64 d = 1;
  for (size_t k = 0; k < n; ++k)
  {
    size_t r = k;
    while (r < n && a[r][k] == 0) ++r;
    if (r == n) return 0;
    if (r != k) { std::swap(a[r], a[k]); d = (p - d) % p; }
    d = mulmod(d, a[k][k], p);
    const u64 iv = powmod(a[k][k], p - 2, p);
    for (size_t i = k + 1; i < n; ++i)
    {
      const u64 f = mulmod(a[i][k], iv, p);
      if (!f) continue;
      for (size_t j = k; j < n; ++j) a[i][j] = (a[i][j] + p - mulmod(f, a[k][j], p)) % p;
    }
  }
  return d;
}
constexpr u64 kP1 = 2305843009213693951ull;   // 2^61 - 1
constexpr u64 kP2 = 4611686018427387847ull;   // 2^62 - 57

// --------------------------------------------------------- error outcome ----
enum class Outcome { value, overflow_error, other_exception };
template <class F> Outcome outcome(F f)
{
  try { f(); return Outcome::value; }
  catch (const std::overflow_error&) { return Outcome::overflow_error; }
  catch (...) { return Outcome::other_exception; }
}
inline const char* str(Outcome o) { return o == Outcome::value ? "a value" : o == Outcome::overflow_error ? "std::overflow_error" : "an exception that is not std::overflow_error"; }

// ------------------------------------------------------------------ main ----
inline std::string json_escape(const std::string& s)
{
  std::string o;
  for (char c : s)
  {
    if (c == '"' || c == '\\') { o += '\\'; o += c; }
    else if (static_cast<unsigned char>(c) < 0x20) { char b[8]; std::snprintf(b, sizeof b, "\\u%04x", c); o += b; }
    else o += c;
  }
  return o;
}

inline void crumb(const char* unit, u64 case_seed, u64 serial)
{
  State& s = st();
  if (!s.crumb) return;
  std::snprintf(s.crumb + 8, s.crumb_size - 9, "%s %" PRIu64 "\n", unit, case_seed);
  __atomic_store_n(reinterpret_cast<u64*>(s.crumb), serial, __ATOMIC_RELAXED);
}

inline void write_out(const char* path, bool complete)
{
  State& s = st();
  std::string o = "{\"complete\":";
  o += complete ? "true" : "false";
  o += ",\"units\":" + std::to_string(s.units_run);
  o += ",\"evaluations\":" + std::to_string(s.evaluations);
  o += ",\"oracle_events\":" + std::to_string(s.oracle_events);
  o += ",\"distinct_nontrivial\":" + std::to_string(s.distinct.size());
  o += ",\"counts\":{";
  bool first = true;
  for (auto& c : s.counts) { if (!first) o += ","; first = false; o += "\"" + json_escape(c.first) + "\":" + std::to_string(c.second); }
  o += "},\"gauges\":{";
  first = true;
  for (auto& c : s.gauges) { if (!first) o += ","; first = false; char b[40]; std::snprintf(b, sizeof b, "%.4g", c.second < 1e300 ? c.second : 1e300); o += "\"" + json_escape(c.first) + "\":" + b; }
  o += "},\"samples\":[";
  first = true;
  for (auto& x : s.samples) { if (!first) o += ","; first = false; o += "\"" + json_escape(x) + "\""; }
  o += "],\"violations\":[";
  first = true;
  for (auto& v : s.violations)
  {
    if (!first) o += ",";
    first = false;
    o += "{\"unit\":\"" + json_escape(v.unit) + "\",\"case_seed\":" + std::to_string(v.case_seed) + ",\"what\":\"" + json_escape(v.what) + "\"}";
  }
  o += "]}\n";
  FILE* f = std::fopen(path, "w");
  if (!f) { std::perror(path); std::exit(3); }
  std::fwrite(o.data(), 1, o.size(), f);
  std::fclose(f);
}

inline int run(int argc, char** argv)
{
  State& s = st();
  std::string out = "/dev/stdout", only, crumb_path, skip;
  u64 cases = 50, case_seed = 0;
  bool have_case = false, list = false;
  for (int i = 1; i < argc; ++i)
  {
    std::string a = argv[i];
    auto val = [&]() -> const char* { if (i + 1 >= argc) std::exit(3); return argv[++i]; };
    if (a == "--seed") s.seed = std::strtoull(val(), nullptr, 10);
    else if (a == "--cases") cases = std::strtoull(val(), nullptr, 10);
    else if (a == "--out") out = val();
    else if (a == "--unit") only = val();
    else if (a == "--case") { case_seed = std::strtoull(val(), nullptr, 10); have_case = true; }
    else if (a == "--crumb") crumb_path = val();
    else if (a == "--skip") skip = val();
    else if (a == "--list") list = true;
    else if (a == "-v") s.verbose = true;
    else { std::fprintf(stderr, "unknown option %s\n", a.c_str()); return 3; }
  }
  if (list) { for (auto& u : units()) std::printf("%s\n", u.name.c_str()); return 0; }
  if (!crumb_path.empty())
  {
    int fd = ::open(crumb_path.c_str(), O_RDWR | O_CREAT, 0644);
    if (fd < 0 || ::ftruncate(fd, 4096)) { std::perror("crumb"); return 3; }
    void* p = ::mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    if (p == MAP_FAILED) { std::perror("mmap"); return 3; }
    s.crumb = static_cast<char*>(p);
    s.crumb_size = 4096;
  }
  u64 serial = 0;
  for (auto& u : units())
  {
    if (!only.empty() && u.name != only) continue;
    if (!skip.empty() && ("," + skip + ",").find("," + u.name + ",") != std::string::npos) continue;
    ++s.units_run;
    u64 n = have_case ? 1 : std::max<u64>(2, static_cast<u64>(cases * u.weight));
    unsigned failed_cases = 0;
    for (u64 k = 0; k < n && failed_cases < 3; ++k)
    {
      const u64 cs = have_case ? case_seed : ((mix(s.seed * 0x100000001B3ull ^ hash_str(u.name.c_str())) & ~u64(0xFFFF)) ^ k);
      Ctx c(mix(cs), u.name.c_str());
      c.case_seed = cs;
      c.case_no = cs & 0xFFFF;
      crumb(c.unit, cs, ++serial);
      u.fn(c, u.table);
      ++s.evaluations;
      if (c.nontrivial) s.distinct.insert(c.h); else ++s.trivial;
      if (c.fails) ++failed_cases;
      if (!c.sample.empty() && c.nontrivial && s.samples.size() < 6 && (k == 0) && (s.units_run % 7 == 1))
        s.samples.push_back(u.name + " case " + std::to_string(cs) + " input " + c.sample);
    }
  }
  crumb("(finished)", 0, ++serial);
  write_out(out.c_str(), true);
  return s.violations.empty() ? 0 : 1;
}

}  // namespace mon

#define MON_MAIN(REGISTER)                                       \
  int main(int argc, char** argv) { REGISTER(); return mon::run(argc, argv); }

#endif
