// C07: matrix power.  Oracle: square-and-multiply of the harness's own, modulo
// 2^64 for unsigned elements, on matrices of finite order for signed and
// floating ones (any exponent, exact), in quad precision with a rounding bound
// for general floating matrices; the exception for singular ones.
#include "shapes.hpp"
#include "families.hpp"
using namespace mon;

template <class T> struct Table
{
  size_t n;
  void (*p_int)(const T*, int, T*);
  void (*p_short)(const T*, short, T*);
  void (*p_schar)(const T*, signed char, T*);
  void (*p_llong)(const T*, long long, T*);
  void (*p_uint)(const T*, unsigned, T*);
  void (*p_size)(const T*, size_t, T*);
  void (*p_uchar)(const T*, unsigned char, T*);
};
template <class T, class P, size_t N> void call(const T* a, P p, T* o) { as<N, N>(o) = mlib::pow(as<N, N>(a), p); }

// an exponent of the type, and the call with it
struct Exp { int type; bool neg; u64 mag; };
template <class P> void limits(u64& lo, u64& hi) { hi = static_cast<u64>(std::numeric_limits<P>::max()); lo = std::is_signed<P>::value ? hi + 1 : 0; }
inline void exp_limits(int type, u64& lo, u64& hi)
{
  switch (type)
  {
    case 0: limits<int>(lo, hi); break;
    case 1: limits<short>(lo, hi); break;
    case 2: limits<signed char>(lo, hi); break;
    case 3: limits<long long>(lo, hi); break;
    case 4: limits<unsigned>(lo, hi); break;
    case 5: limits<size_t>(lo, hi); break;
    default: limits<unsigned char>(lo, hi);
  }
}
template <class T> void invoke(const Table<T>& t, const Exp& e, const T* a, T* o)
{
  const i64 v = e.neg ? static_cast<i64>(0 - e.mag) : static_cast<i64>(e.mag);
  switch (e.type)
  {
    case 0: t.p_int(a, static_cast<int>(v), o); break;
    case 1: t.p_short(a, static_cast<short>(v), o); break;
    case 2: t.p_schar(a, static_cast<signed char>(v), o); break;
    case 3: t.p_llong(a, v, o); break;
    case 4: t.p_uint(a, static_cast<unsigned>(e.mag), o); break;
    case 5: t.p_size(a, static_cast<size_t>(e.mag), o); break;
    default: t.p_uchar(a, static_cast<unsigned char>(e.mag), o);
  }
}
inline std::string str(const Exp& e)
{
  static const char* names[] = {"int", "short", "signed char", "long long", "unsigned", "size_t", "unsigned char"};
  return std::string(e.neg ? "-" : "") + std::to_string(e.mag) + " (" + names[e.type] + ")";
}
inline Exp gen_exp(Rng& r, u64 cap, bool allow_neg)
{
  Exp e;
  e.type = static_cast<int>(r.below(allow_neg ? 4 : 7));
  u64 lo, hi;
  exp_limits(e.type, lo, hi);
  e.neg = allow_neg;
  const u64 top = std::min(cap, e.neg ? lo : hi);
  switch (r.below(8))
  {
    case 0: e.mag = r.below(5); break;
    case 1: case 2: e.mag = r.below(40); break;
    case 3: { const unsigned b = 1 + r.below(63); e.mag = (u64(1) << b) + r.below(3) - 1; break; }     // around a power of two
    case 4: { const unsigned b = 1 + r.below(63); e.mag = (u64(1) << b) - 1 - (r.chance(1, 2) ? u64(1) << r.below(b) : 0); break; }   // many one bits
    case 5: e.mag = top - r.below(3); break;                                                              // the extreme
    default: { const unsigned b = 1 + r.below(64); e.mag = b >= 64 ? r.next() : r.below(u64(1) << b); }
  }
  if (e.mag > top) e.mag = e.mag % (top + 1 ? top + 1 : 1);
  if (e.neg && e.mag == 0) e.mag = 1;
  return e;
}

template <class T> DM<u64> upow(const DM<T>& A, u64 p)
{
  const size_t n = A.r;
  DM<u64> R(n, n), B(n, n);
  for (size_t i = 0; i < n; ++i) R(i, i) = 1;
  for (size_t k = 0; k < A.size(); ++k) B.data()[k] = static_cast<u64>(A.data()[k]);
  auto mul = [n](const DM<u64>& x, const DM<u64>& y) { DM<u64> o(n, n); for (size_t i = 0; i < n; ++i) for (size_t k = 0; k < n; ++k) for (size_t j = 0; j < n; ++j) o(i, j) += x(i, k) * y(k, j); return o; };
  for (; p; p >>= 1) { if (p & 1) R = mul(R, B); if (p > 1) B = mul(B, B); }
  return R;
}
template <class T> bool is_eye(const DM<T>& o)
{
  for (size_t i = 0; i < o.r; ++i) for (size_t j = 0; j < o.c; ++j) if (!(o(i, j) == T(i == j))) return false;
  return true;
}
// modulo 2^N, unsigned elements
template <class T> void unit_unsigned(Ctx& c, const void* p)
{
  const Table<T>& t = *static_cast<const Table<T>*>(p);
  const size_t n = t.n;
  const int fam = static_cast<int>(c.case_no % 6);
  const auto A = gen_mat<T>(c.rng, n, n, fam);
  const Exp e = gen_exp(c.rng, ~u64(0), false);
  c.in(A); c.in_scalar(e.mag); c.in_scalar(e.type);
  if (n == 1) c.nontrivial = true;
  DM<T> o(n, n), in = A;
  invoke(t, e, in.data(), o.data());
  if (!same_mat(in, A)) return c.fail("pow changed its argument");
  const auto W = upow(A, e.mag);
  judge(c, "power modulo 2^N", o, [&](size_t i, size_t j) { return static_cast<T>(W(i, j)); }, [&] { return "A=" + dump(A) + " p=" + str(e); });
  if (e.mag == 0) c.event("zeroth power");
  if (e.mag > 0x7FFFFFFF) c.event("exponent beyond int");
}
// matrices of finite order: signed permutations, exact in every type
template <class T> void finite_order(Ctx& c, const Table<T>& t)
{
  const size_t n = t.n;
  std::vector<size_t> perm(n);
  std::vector<int> sg(n);
  for (size_t i = 0; i < n; ++i) { perm[i] = i; sg[i] = c.rng.chance(1, 2) ? 1 : -1; }
  for (size_t k = n; k-- > 1; ) std::swap(perm[k], perm[c.rng.below(k + 1)]);
  DM<T> A(n, n), o(n, n);
  for (size_t i = 0; i < n; ++i) A(i, perm[i]) = static_cast<T>(sg[i]);       // (A x)_i = sg_i x_perm(i)
  const bool neg = c.rng.chance(2, 3);
  Exp e = gen_exp(c.rng, ~u64(0), neg);
  c.in(A); c.in_scalar(e.mag); c.in_scalar(e.type); c.in_scalar(e.neg);
  if (n == 1) c.nontrivial = true;
  const DM<T> before = A;
  const Outcome r = outcome([&] { invoke(t, e, A.data(), o.data()); });
  if (r != Outcome::value) return c.fail(std::string("pow of an invertible matrix gave ") + mon::str(r) + "; A=" + dump(A) + " p=" + str(e));
  if (!same_mat(A, before)) return c.fail("pow changed its argument");
  // where row i goes after p steps: walk its cycle p mod (2 * length) times
  DM<T> W(n, n);
  for (size_t i = 0; i < n; ++i)
  {
    size_t len = 0, k = i;
    do { k = perm[k]; ++len; } while (k != i);
    u64 steps = e.mag % (2 * len);
    if (e.neg) steps = (2 * len - steps) % (2 * len);
    int s = 1;
    k = i;
    for (u64 x = 0; x < steps; ++x) { s *= sg[k]; k = perm[k]; }
    W(i, k) = static_cast<T>(s);
  }
  judge(c, e.neg ? "negative power, finite order" : "power, finite order", o, [&](size_t i, size_t j) { return W(i, j); }, [&] { return "A=" + dump(A) + " p=" + str(e); });
  u64 lo, hi;
  exp_limits(e.type, lo, hi);
  if (e.neg && e.mag == lo) c.event("most negative exponent");
}
template <class T> void singular(Ctx& c, const Table<T>& t)
{
  const size_t n = t.n;
  bool zero;
  auto A = int_family<T>(c.rng, n, n <= 3 && c.rng.chance(1, 2) ? 6 : 5, 5, zero);
  if (n == 1) A(0, 0) = T(0);
  c.in(A); c.nontrivial = true;
  Exp e = gen_exp(c.rng, ~u64(0), true);
  DM<T> o(n, n), in = A;
  const Outcome r = outcome([&] { invoke(t, e, in.data(), o.data()); });
  if (r != Outcome::overflow_error) return c.fail(std::string("negative power of a singular matrix gave ") + mon::str(r) + "; A=" + dump(A) + " p=" + str(e));
  c.event("singular reported");
  e = Exp{static_cast<int>(c.rng.below(7)), false, 0};
  invoke(t, e, in.data(), o.data());
  if (!is_eye(o)) return c.fail("pow(A,0) is not the identity; A=" + dump(A) + " got " + dump(o));
  e.mag = 1;
  invoke(t, e, in.data(), o.data());
  if (!same_mat(o, A)) return c.fail("pow(A,1) is not A; A=" + dump(A) + " got " + dump(o));
  if (!same_mat(in, A)) return c.fail("pow changed its argument");
  c.event("zeroth and first power of a singular matrix");
}
template <class T> void unit_signed(Ctx& c, const void* p)
{
  const Table<T>& t = *static_cast<const Table<T>*>(p);
  const size_t n = t.n;
  if (c.case_no % 4 == 0) return finite_order(c, t);
  if (c.case_no % 4 == 1) return singular(c, t);
  // growing powers as far as the element type holds them; negative ones of unimodular matrices
  const bool neg = c.case_no % 4 == 3;
  DM<T> A(n, n), o(n, n);
  if (neg) { const auto I = unimodular(c.rng, n, 4, n * n); for (size_t k = 0; k < A.size(); ++k) A.data()[k] = static_cast<T>(I.data()[k]); }
  else A = gen_mat<T>(c.rng, n, n, c.rng.chance(1, 2) ? 0 : 4, 1 + c.rng.below(9));
  QM q = toq(A), base(n, n);
  if (neg)
  {
    if (!qinv(q, base)) return;
    for (auto& x : base.v) x = static_cast<Q>(std::floor(static_cast<long double>(x) + 0.5L));
  }
  else base = q;
  // the powers of |base| bound every intermediate; stop before they leave the type
  const Q top = static_cast<Q>(lim<T>::hi() / 2) / Q(n);
  QM w = qeye(n), a = qeye(n), ab = qabsm(base);
  u64 e_max = 0;
  const u64 want = 1 + c.rng.below(30);
  while (e_max < want)
  {
    QM a2 = qmul(a, ab);
    if (qmaxabs(a2) * qmaxabs(ab) * Q(n) > top) break;
    a = a2; w = qmul(w, base); ++e_max;
  }
  if (e_max == 0) return c.event("skipped: would overflow");
  Exp e = Exp{static_cast<int>(c.rng.below(neg ? 4 : 7)), neg, e_max};
  c.in(A); c.in_scalar(e.mag); c.in_scalar(e.type);
  if (n == 1) c.nontrivial = true;
  const Outcome r = outcome([&] { invoke(t, e, A.data(), o.data()); });
  if (r != Outcome::value) return c.fail(std::string("pow of an invertible matrix gave ") + mon::str(r) + "; A=" + dump(A) + " p=" + str(e));
  judge_tol(c, neg ? "negative integer power" : "integer power", o, [&](size_t i, size_t j) { return w(i, j); }, [](size_t, size_t) { return Q(0); }, [&] { return "A=" + dump(A) + " p=" + str(e); });
}
template <class T> void unit_float(Ctx& c, const void* p)
{
  const Table<T>& t = *static_cast<const Table<T>*>(p);
  const size_t n = t.n;
  if (c.case_no % 4 == 0) return finite_order(c, t);
  if (c.case_no % 4 == 1) return singular(c, t);
  const bool neg = c.case_no % 4 == 3;
  DM<T> A(n, n), o(n, n);
  for (size_t k = 0; k < A.size(); ++k) A.data()[k] = static_cast<T>((c.rng.unit() * 2 - 1) / (neg ? 4.0L * n : std::sqrt((long double)n)));
  if (neg) for (size_t i = 0; i < n; ++i) A(i, i) += (c.rng.chance(1, 2) ? T(1) : T(-1)) * static_cast<T>(0.75L + c.rng.unit() / 2);
  Exp e = Exp{static_cast<int>(c.rng.below(neg ? 4 : 7)), neg, 1 + c.rng.below(24)};
  c.in(A); c.in_scalar(e.mag); c.in_scalar(e.type);
  const QM q = toq(A);
  QM b(n, n);
  if (neg) { if (!qinv(q, b)) return; } else b = q;
  QM w = qeye(n), a = qeye(n);
  const QM ab = qabsm(b);
  const Q u = static_cast<Q>(eps_of<T>::get());
  Q nrm = 0, mxp = 1, prev = 1;
  for (size_t i = 0; i < n; ++i) { Q s = 0; for (size_t j = 0; j < n; ++j) s += ab(i, j); nrm = qmax(nrm, s); }
  for (u64 k = 0; k < e.mag; ++k) { w = qmul(w, b); a = qmul(a, ab); if (k + 1 < e.mag) prev *= qmax(nrm, 1); }
  (void)mxp;
  // first order: p * |error of the base| through |base|^(p-1), plus the rounding of the products
  const Q inv_err = neg ? Q(4) * Q(n) * Q(n) * u * qmaxabs(q) * qfro2(b) : Q(0);
  // products that underflow are off by the smallest denormal, whatever their size
  const Q extra = Q(2) * Q(e.mag) * prev * inv_err * Q(n) + Q(4) * Q(e.mag) * Q(n) * Q(n) * prev * static_cast<Q>(std::numeric_limits<T>::denorm_min());
  const Outcome r = outcome([&] { invoke(t, e, A.data(), o.data()); });
  if (r != Outcome::value) return c.fail(std::string("pow of an invertible matrix gave ") + mon::str(r) + "; A=" + dump(A) + " p=" + str(e));
  judge_tol(c, neg ? "negative power within bound" : "power within bound", o, [&](size_t i, size_t j) { return w(i, j); },
            [&](size_t i, size_t j) { return Q(2) * Q(e.mag) * Q(n + 2) * u * a(i, j) + extra; }, [&] { return "A=" + dump(A) + " p=" + str(e); });
}
template <class T> UnitFn pick() { return std::is_floating_point<T>::value ? &unit_float<typename std::conditional<std::is_floating_point<T>::value, T, double>::type>
                                        : std::is_signed<T>::value ? &unit_signed<typename std::conditional<std::is_integral<T>::value && std::is_signed<T>::value, T, int>::type>
                                        : &unit_unsigned<typename std::conditional<std::is_unsigned<T>::value, T, unsigned>::type>; }
template <class T, size_t N> struct Reg
{
  static void reg()
  {
    static const Table<T> t = { N, &call<T, int, N>, &call<T, short, N>, &call<T, signed char, N>, &call<T, long long, N>, &call<T, unsigned, N>, &call<T, size_t, N>, &call<T, unsigned char, N> };
    add(std::string("pow/") + TName<T>::get() + "/" + std::to_string(N), pick<T>(), &t, N <= 5 ? 1 : std::max(0.02, 625.0 / std::pow(double(N), std::is_unsigned<T>::value ? 3.5 : 4.5)));
  }
};
static void reg()
{
#if MON_PART >= 10
  DenseSizes<Reg, 20, unsigned, double>::reg();
#elif MON_PART == 0
  each_size<Reg, int>(Sizes<1, 2, 3, 4, 5, 6, 7, 8, 9, 10>()); each_size<Reg, long long>(Sizes<1, 2, 3, 4, 5, 6, 7, 8>());
#elif MON_PART == 1
  each_size<Reg, unsigned>(Sizes<1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 16, 17, 33, MON_XN>()); each_size<Reg, unsigned long>(Sizes<1, 2, 3, 4, 6, 10>()); each_size<Reg, long>(Sizes<1, 2, 3, 4, 5>());
#elif MON_PART == 2
  each_size<Reg, double>(Sizes<1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 16>());
#else
  each_size<Reg, float>(Sizes<1, 2, 3, 4, 5, 7>()); each_size<Reg, long double>(Sizes<1, 2, 3, 4, 6, 9>());
#endif
}
MON_MAIN(reg)
