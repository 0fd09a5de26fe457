// Every operation of the library as a function from a block of input elements
// to a block of output elements, with a generator of valid inputs.  Used by the
// harnesses that watch HOW the operations run (memory, allocation, threads,
// configurations) rather than one operation's values.
#ifndef MON_ALLOPS_HPP_
#define MON_ALLOPS_HPP_
#include "shapes.hpp"
#include "families.hpp"
namespace mon
{
enum class In { any, spd, lu, invertible, unimodular, singular, orderable };
struct Op
{
  std::string name;
  const char* family;       // name of the operation alone
  size_t esize, nin, nout;  // element size; number of input and output elements
  size_t r, c;              // shape of the first matrix in the input
  In kind;
  size_t args;              // trailing small arguments (indices, exponent) in the input
  u64 arg_below;
  void (*gen)(const Op&, Rng&, void* in);
  void (*run)(const void* in, void* out);
  bool throws;              // may raise on this input
  bool heap;                // histograms
  bool is_ldouble;
  bool nan_ok;              // NaN and infinities are valid input
  void (*special)(Rng&, void* p, size_t n);   // overwrites some of n elements by special values
};
inline std::vector<Op>& ops() { static std::vector<Op> o; return o; }

template <class T> void gen_input(const Op& op, Rng& r, void* in)
{
  T* p = static_cast<T*>(in);
  const size_t n = op.r, body = op.r * op.c;
  const bool integral = std::is_integral<T>::value;
  auto val = [&]() -> T {
    if (integral) return static_cast<T>(std::is_signed<T>::value ? r.range(-9, 9) : r.range(0, 9));
    switch (r.below(4)) { case 0: return static_cast<T>(r.range(-9, 9)); case 1: return static_cast<T>(r.range(-64, 64)) / T(8); default: return static_cast<T>(r.unit() * 2 - 1); }
  };
  const size_t data = op.nin - op.args;
  for (size_t k = 0; k < data; ++k) p[k] = val();
  switch (op.kind)
  {
    case In::spd:
    {
      DM<T> L(n, n);
      for (size_t i = 0; i < n; ++i) for (size_t j = 0; j <= i; ++j) L(i, j) = i == j ? static_cast<T>(1 << r.below(3)) : integral ? static_cast<T>(r.range(std::is_signed<T>::value ? -2 : 0, 2)) : val() / T(n);
      for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) { T s = T(0); for (size_t k = 0; k < n; ++k) s += L(i, k) * L(j, k); p[i * n + j] = s; }
      break;
    }
    case In::lu:
    {
      DM<T> L(n, n), U(n, n);
      for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j)
      {
        const T v = static_cast<T>(r.range(std::is_signed<T>::value ? -2 : 0, 2));
        if (j < i) L(i, j) = v;
        if (j > i) U(i, j) = v;
        if (j == i) { L(i, i) = T(1); U(i, i) = static_cast<T>(1 + r.below(4)); }
      }
      for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) { T s = T(0); for (size_t k = 0; k < n; ++k) s += L(i, k) * U(k, j); p[i * n + j] = s; }
      break;
    }
    case In::invertible:
      if (!integral)
      {
        for (size_t k = 0; k < body; ++k) p[k] /= T(n);
        for (size_t i = 0; i < n; ++i) p[i * n + i] += T(12);
        for (size_t k = n; k-- > 1; ) { const size_t o = r.below(k + 1); for (size_t j = 0; j < n; ++j) std::swap(p[k * n + j], p[o * n + j]); }
        break;
      }
      // fall through
    case In::unimodular:
    {
      const auto I = unimodular(r, n, op.kind == In::unimodular ? 1 : 4, op.kind == In::unimodular ? 0 : n * n);
      for (size_t k = 0; k < body; ++k) p[k] = static_cast<T>(I.data()[k]);
      break;
    }
    case In::singular:
    {
      const size_t k = r.below(n);
      for (size_t j = 0; j < n; ++j) p[k * n + j] = T(0);
      break;
    }
    default: break;
  }
  for (size_t k = 0; k < op.args; ++k) p[data + k] = static_cast<T>(r.below(op.arg_below));
}

template <class T> typename std::enable_if<std::is_floating_point<T>::value>::type put_special(Rng& r, void* v, size_t n)
{
  T* p = static_cast<T*>(v);
  for (size_t k = 0; k < n; ++k) if (r.chance(1, 3)) p[k] = gen<T>(r, r.chance(1, 2) ? 6 : 5 + 2 * static_cast<int>(r.below(2)));
}
template <class T> typename std::enable_if<!std::is_floating_point<T>::value>::type put_special(Rng&, void*, size_t) {}

template <class T> void push(const char* family, size_t r, size_t c, size_t nin, size_t nout, void (*run)(const void*, void*), In kind = In::any, size_t args = 0, u64 below = 1, bool throws = false, bool heap = false)
{
  Op o;
  o.name = uname<T>(family, r, c); o.family = family; o.esize = sizeof(T); o.nin = nin + args; o.nout = nout; o.r = r; o.c = c; o.kind = kind; o.args = args; o.arg_below = below;
  o.gen = &gen_input<T>; o.run = run; o.throws = throws; o.heap = heap; o.is_ldouble = std::is_same<T, long double>::value;
  const std::string f = family;
  o.special = &put_special<T>;
  o.nan_ok = std::is_floating_point<T>::value && kind == In::any && f != "median" && f != "compare";
  ops().push_back(o);
}

#define MON_OP static void
#define MON_IN const T* a = static_cast<const T*>(vi); T* o = static_cast<T*>(vo); (void)a; (void)o;
template <class T, size_t R, size_t C> struct Ops
{
  static constexpr size_t N = R * C;
  typedef Mat<T, R, C> M;
  static const M& A(const T* a) { return as<R, C>(a); }
  static const M& B(const T* a) { return as<R, C>(a + N); }
  static M& O(T* o) { return as<R, C>(o); }
  MON_OP sum(const void* vi, void* vo) { MON_IN O(o) = mlib::sum(A(a), B(a)); }
  MON_OP plus(const void* vi, void* vo) { MON_IN using namespace mlib; O(o) = A(a) + B(a); }
  MON_OP sum_s(const void* vi, void* vo) { MON_IN O(o) = mlib::sum(A(a), a[N]); }
  MON_OP plus_s(const void* vi, void* vo) { MON_IN using namespace mlib; O(o) = A(a) + a[N]; }
  MON_OP s_plus(const void* vi, void* vo) { MON_IN using namespace mlib; O(o) = a[N] + A(a); }
  MON_OP sub(const void* vi, void* vo) { MON_IN O(o) = mlib::sub(A(a), B(a)); }
  MON_OP minus(const void* vi, void* vo) { MON_IN using namespace mlib; O(o) = A(a) - B(a); }
  MON_OP minus_s(const void* vi, void* vo) { MON_IN using namespace mlib; O(o) = A(a) - a[N]; }
  MON_OP mult_s(const void* vi, void* vo) { MON_IN O(o) = mlib::mult(A(a), a[N]); }
  MON_OP times_s(const void* vi, void* vo) { MON_IN using namespace mlib; O(o) = A(a) * a[N]; }
  MON_OP s_times(const void* vi, void* vo) { MON_IN using namespace mlib; O(o) = a[N] * A(a); }
  MON_OP div(const void* vi, void* vo) { MON_IN O(o) = mlib::div(A(a), a[N]); }
  MON_OP over(const void* vi, void* vo) { MON_IN using namespace mlib; O(o) = A(a) / a[N]; }
  MON_OP inc(const void* vi, void* vo) { MON_IN using namespace mlib; O(o) = A(a)++; }
  MON_OP dec(const void* vi, void* vo) { MON_IN using namespace mlib; O(o) = A(a)--; }
  MON_OP trans(const void* vi, void* vo) { MON_IN as<C, R>(o) = mlib::trans(A(a)); }
  MON_OP swap_rows(const void* vi, void* vo) { MON_IN O(o) = A(a); mlib::swap_rows(O(o), static_cast<size_t>(a[N]), static_cast<size_t>(a[N + 1])); }
  MON_OP swap_cols(const void* vi, void* vo) { MON_IN O(o) = A(a); mlib::swap_cols(O(o), static_cast<size_t>(a[N]), static_cast<size_t>(a[N + 1])); }
  MON_OP conv2(const void* vi, void* vo) { MON_IN O(o) = mlib::conv2(A(a), as<3, 3>(a + N)); }
  MON_OP conv2_full(const void* vi, void* vo) { MON_IN as<R + 2, C + 2>(o) = mlib::conv2_full(A(a), as<3, 3>(a + N)); }
  template <class Map> static void put_map(const Map& m, T* o) { size_t k = 0; for (auto& p : m) { if (k + 1 < 2 * N) { o[k] = p.first; o[k + 1] = static_cast<T>(p.second); } k += 2; } for (; k < 2 * N; ++k) o[k] = T(0); o[2 * N] = static_cast<T>(m.size()); }
  MON_OP histogram(const void* vi, void* vo) { MON_IN put_map(mlib::histogram(A(a)), o); }
  MON_OP cumulative(const void* vi, void* vo) { MON_IN put_map(mlib::cumulative_histogram(A(a)), o); }
  MON_OP mean(const void* vi, void* vo) { MON_IN *o = mlib::mean(A(a)); }
  MON_OP median(const void* vi, void* vo) { MON_IN *o = mlib::median(A(a)); }
  MON_OP var(const void* vi, void* vo) { MON_IN *o = mlib::var(A(a)); }
  MON_OP stddev(const void* vi, void* vo) { MON_IN *o = mlib::stddev(A(a)); }
  MON_OP fill(const void* vi, void* vo) { MON_IN O(o) = mlib::fill<T, R, C>(a[0]); }
  MON_OP zeros(const void* vi, void* vo) { MON_IN O(o) = mlib::zeros<T, R, C>(); }
  MON_OP ones(const void* vi, void* vo) { MON_IN O(o) = mlib::ones<T, R, C>(); }
  MON_OP uones(const void* vi, void* vo) { MON_IN const auto u = mlib::ones<R, C>(); for (size_t i = 0; i < R; ++i) for (size_t j = 0; j < C; ++j) O(o)[i][j] = static_cast<T>(u[i][j]); }
  MON_OP product(const void* vi, void* vo) { MON_IN using namespace mlib; as<R, R>(o) = A(a) * as<C, R>(a + N); }
  MON_OP mult(const void* vi, void* vo) { MON_IN as<R, R>(o) = mlib::mult(A(a), as<C, R>(a + N)); }
  MON_OP vcat(const void* vi, void* vo) { MON_IN as<R + R + 1, C>(o) = mlib::concatenate(A(a), as<R + 1, C>(a + N)); }
  MON_OP hcat(const void* vi, void* vo) { MON_IN as<R, C + C + 1>(o) = mlib::concatenate(A(a), as<R, C + 1>(a + N)); }
  MON_OP abs_(const void* vi, void* vo) { MON_IN O(o) = mlib::abs(A(a)); }
  MON_OP compare(const void* vi, void* vo) { MON_IN *o = T(mlib::compare(A(a), B(a), 0.25f)) + T(2) * T(mlib::compare(A(a), A(a), 0.0f)); }
  static void reg()
  {
    push<T>("sum", R, C, 2 * N, N, &sum); push<T>("A+B", R, C, 2 * N, N, &plus); push<T>("sum_s", R, C, N + 1, N, &sum_s); push<T>("A+s", R, C, N + 1, N, &plus_s); push<T>("s+A", R, C, N + 1, N, &s_plus);
    push<T>("sub", R, C, 2 * N, N, &sub); push<T>("A-B", R, C, 2 * N, N, &minus); push<T>("A-s", R, C, N + 1, N, &minus_s);
    push<T>("mult_s", R, C, N + 1, N, &mult_s); push<T>("A*s", R, C, N + 1, N, &times_s); push<T>("s*A", R, C, N + 1, N, &s_times);
    push<T>("div", R, C, N + 1, N, &div, In::any, 0, 1, true); push<T>("A/s", R, C, N + 1, N, &over, In::any, 0, 1, true);
    push<T>("A++", R, C, N, N, &inc); push<T>("A--", R, C, N, N, &dec);
    push<T>("trans", R, C, N, N, &trans); push<T>("swap_rows", R, C, N, N, &swap_rows, In::any, 2, R); push<T>("swap_cols", R, C, N, N, &swap_cols, In::any, 2, C);
    push<T>("conv2", R, C, N + 9, N, &conv2); push<T>("conv2_full", R, C, N + 9, (R + 2) * (C + 2), &conv2_full);
    push<T>("histogram", R, C, N, 2 * N + 1, &histogram, In::orderable, 0, 1, false, true); push<T>("cumulative_histogram", R, C, N, 2 * N + 1, &cumulative, In::orderable, 0, 1, false, true);
    push<T>("mean", R, C, N, 1, &mean); push<T>("median", R, C, N, 1, &median); push<T>("var", R, C, N, 1, &var); push<T>("stddev", R, C, N, 1, &stddev);
    push<T>("fill", R, C, N, N, &fill); push<T>("zeros", R, C, N, N, &zeros); push<T>("ones", R, C, N, N, &ones); push<T>("ones<i,j>", R, C, N, N, &uones);
    push<T>("A*B", R, C, 2 * N, R * R, &product); push<T>("mult", R, C, 2 * N, R * R, &mult);
    push<T>("concatenate vertically", R, C, N + (R + 1) * C, (2 * R + 1) * C, &vcat); push<T>("concatenate horizontally", R, C, N + R * (C + 1), R * (2 * C + 1), &hcat);
    more(std::integral_constant<bool, std::is_signed<T>::value>());
    valid_(std::integral_constant<bool, (R >= 3 && C >= 3)>());
  }
  static void more(std::false_type) {}
  static void more(std::true_type) { push<T>("abs", R, C, N, N, &abs_); push<T>("compare", R, C, 2 * N, 1, &compare); }
  template <size_t X, size_t Y> struct V { MON_OP run(const void* vi, void* vo) { MON_IN as<X - 2, Y - 2>(o) = mlib::conv2_valid(A(a), as<3, 3>(a + N)); } };
  static void valid_(std::false_type) {}
  static void valid_(std::true_type) { push<T>("conv2_valid", R, C, N + 9, (R - 2) * (C - 2), &V<R, C>::run); }
};
template <class T, size_t n> struct SqOps
{
  static constexpr size_t N = n * n;
  typedef Mat<T, n, n> M;
  static const M& A(const T* a) { return as<n, n>(a); }
  static const M& B(const T* a) { return as<n, n>(a + N); }
  static M& O(T* o) { return as<n, n>(o); }
  MON_OP det(const void* vi, void* vo) { MON_IN *o = mlib::det(A(a)); }
  MON_OP inv(const void* vi, void* vo) { MON_IN O(o) = mlib::inv(A(a)); }
  MON_OP pow(const void* vi, void* vo) { MON_IN O(o) = mlib::pow(A(a), static_cast<int>(a[N])); }
  MON_OP npow(const void* vi, void* vo) { MON_IN O(o) = mlib::pow(A(a), -1 - static_cast<int>(a[N])); }
  MON_OP lu(const void* vi, void* vo) { MON_IN const auto r = mlib::lu(A(a)); O(o) = r.first; O(o + N) = r.second; }
  MON_OP chol(const void* vi, void* vo) { MON_IN O(o) = mlib::chol(A(a)); }
  MON_OP cat2(const void* vi, void* vo) { MON_IN const auto r = mlib::concatenate(A(a), B(a)); as<n + n, n>(o) = r.first; as<n, n + n>(o + 2 * N) = r.second; }
  MON_OP catv(const void* vi, void* vo) { MON_IN as<n + n, n>(o) = mlib::concatenateV(A(a), B(a)); }
  MON_OP cath(const void* vi, void* vo) { MON_IN as<n, n + n>(o) = mlib::concatenateH(A(a), B(a)); }
  MON_OP eye(const void* vi, void* vo) { MON_IN O(o) = mlib::eye<T, n>(); O(o + N) = mlib::eye<T, n>(a[0]); }
  MON_OP onesn(const void* vi, void* vo) { MON_IN O(o) = mlib::ones<T, n>(); }
  MON_OP isid(const void* vi, void* vo) { MON_IN o[0] = T(mlib::isIdentity(A(a))); o[1] = T(mlib::isIdentity(mlib::eye<T, n>())); }
  MON_OP issym(const void* vi, void* vo) { MON_IN *o = T(mlib::isSymetric(A(a))); }
  template <size_t X, bool ok> struct Mi { static void reg() {} };
  template <size_t X> struct Mi<X, true>
  {
    MON_OP run(const void* vi, void* vo) { MON_IN as<X - 1, X - 1>(o) = mlib::getminor(as<X, X>(a), static_cast<size_t>(a[X * X]), static_cast<size_t>(a[X * X + 1])); }
    static void reg() { push<T>("getminor", X, X, X * X, (X - 1) * (X - 1), &run, In::any, 2, X); }
  };
  template <size_t X, class D> struct St { static void reg() {} };
  template <class D> struct St<2, D>
  {
    MON_OP run(const void* vi, void* vo) { MON_IN as<2, 2>(o) = mlib::strassen(as<2, 2>(a), as<2, 2>(a + 4)); }
    static void reg() { push<T>("strassen", 2, 2, 8, 4, &run); }
  };
  static void reg()
  {
    // determinants of large integer matrices are unbounded: signed permutations there
    push<T>("det", n, n, N, 1, &det, std::is_integral<T>::value && n > 4 ? In::unimodular : In::any);
    push<T>("det singular", n, n, N, 1, &det, In::singular);
    if (std::is_signed<T>::value && n <= 17)
    {
      push<T>("inv", n, n, N, N, &inv, In::invertible, 0, 1, true);
      push<T>("inv singular", n, n, N, N, &inv, In::singular, 0, 1, true);
      push<T>("pow negative", n, n, N, N, &npow, In::unimodular, 1, 9, true);
      push<T>("pow negative singular", n, n, N, N, &npow, In::singular, 1, 9, true);
    }
    if (n <= 17) push<T>("pow", n, n, N, N, &pow, In::unimodular, 1, 120);
    push<T>("lu", n, n, N, 2 * N, &lu, In::lu, 0, 1, true);
    push<T>("lu singular", n, n, N, 2 * N, &lu, In::singular, 0, 1, true);
    push<T>("chol", n, n, N, N, &chol, In::spd);
    push<T>("concatenate squares", n, n, 2 * N, 4 * N, &cat2); push<T>("concatenateV", n, n, 2 * N, 2 * N, &catv); push<T>("concatenateH", n, n, 2 * N, 2 * N, &cath);
    push<T>("eye", n, n, N, 2 * N, &eye); push<T>("ones<n>", n, n, N, N, &onesn);
    push<T>("isIdentity", n, n, N, 2, &isid); push<T>("isSymetric", n, n, N, 1, &issym, n % 2 ? In::spd : In::any);
    Mi<n, (n >= 2)>::reg();
    St<n, void>::reg();
  }
};
template <class T, size_t R, size_t C> struct RegOps { static void reg() { Ops<T, R, C>::reg(); } };
template <class T, size_t N> struct RegSq { static void reg() { SqOps<T, N>::reg(); } };

// memory of a case: input and output in blocks of exactly the right size
struct Block
{
  unsigned char* p;
  size_t n;
  explicit Block(size_t bytes) : p(static_cast<unsigned char*>(std::malloc(bytes ? bytes : 1))), n(bytes) { if (!p) std::abort(); }
  ~Block() { std::free(p); }
  Block(const Block&) = delete;
  Block& operator=(const Block&) = delete;
};
// equality of results bit for bit; the padding of long double does not count
inline bool same_out(const Op& op, const unsigned char* a, const unsigned char* b)
{
  if (!op.is_ldouble) return std::memcmp(a, b, op.nout * op.esize) == 0;
  for (size_t k = 0; k < op.nout; ++k) if (std::memcmp(a + k * 16, b + k * 16, 10)) return false;
  return true;
}
inline u64 hash_out(const Op& op, const unsigned char* a)
{
  u64 h = 1469598103934665603ull;
  for (size_t k = 0; k < op.nout * op.esize; ++k) { if (op.is_ldouble && k % 16 >= 10) continue; h ^= a[k]; h *= 1099511628211ull; }
  return h;
}
inline std::string first_diff(const Op& op, const unsigned char* a, const unsigned char* b)
{
  for (size_t k = 0; k < op.nout; ++k) if (std::memcmp(a + k * op.esize, b + k * op.esize, op.is_ldouble ? 10 : op.esize)) return "output element " + std::to_string(k);
  return "(none)";
}
}
#endif
