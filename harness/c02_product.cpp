// C02: matrix product.  Oracle: the row-by-column sum, exact modulo 2^64 for
// integers, in quad precision with a rounding bound for floating elements.
#include "shapes.hpp"
using namespace mon;

template <class T> struct Table
{
  size_t n, m, p;
  void (*fun)(const T*, const T*, T*);
  void (*op)(const T*, const T*, T*);
  void (*strassen)(const T*, const T*, T*);   // 2x2 only
};

template <class T> struct kind : std::integral_constant<int, std::is_integral<T>::value ? 0 : is_cplx<T>::value ? 2 : 1> {};
typedef std::integral_constant<int, 0> Int;
typedef std::integral_constant<int, 1> Flt;
typedef std::integral_constant<int, 2> Cpl;

template <class T> std::string show(const DM<T>& A, const DM<T>& B) { return "A=" + dump(A) + " B=" + dump(B); }

template <class T> u64 root_bound(u64 den)
{
  if (!std::is_signed<T>::value) return 0;
  const u64 b = static_cast<u64>(std::sqrt(static_cast<long double>(lim<T>::hi() / den)));
  return b ? b : 1;
}
template <class T> DM<T> int_operand(Ctx& c, size_t r, size_t k, int fam, u64 bound)
{
  auto A = gen_mat<T>(c.rng, r, k, fam, bound);
  return A;
}

template <class T> void check(Ctx& c, const Table<T>& t, Int)
{
  const int fam = static_cast<int>(c.case_no % 6);
  const u64 bound = root_bound<T>(t.m);
  // half of the cases: one operand up to the limits of the type, the other small
  const u64 top = lim<T>::hi() / t.m;
  const unsigned bits = static_cast<unsigned>(c.rng.below(4 * sizeof(T)));
  const bool uneven = bound && c.case_no % 2 && top >> bits, first = c.rng.chance(1, 2);
  const u64 small = uneven ? u64(1) << bits : bound, large = uneven ? top >> bits : bound;
  auto A = int_operand<T>(c, t.n, t.m, fam, first ? large : small);
  auto B = int_operand<T>(c, t.m, t.p, c.rng.chance(1, 3) ? static_cast<int>(c.rng.below(6)) : fam, first ? small : large);
  if (uneven) c.event("operands of uneven size");
  if (c.rng.chance(1, 4)) { structure(c.rng, A); c.event("structured operand"); }
  if (c.rng.chance(1, 4)) structure(c.rng, B);
  if (t.n == t.p && !uneven && c.rng.chance(1, 12))
  {
    for (size_t i = 0; i < t.n; ++i) for (size_t k = 0; k < t.m; ++k) B(k, i) = A(i, k);
    c.event("B is the transpose of A");
  }
  c.in(A); c.in(B);
  auto args = [&] { return show(A, B); };
  DM<T> W(t.n, t.p), o(t.n, t.p);
  for (size_t i = 0; i < t.n; ++i) for (size_t j = 0; j < t.p; ++j)
  {
    u64 s = 0;
    for (size_t k = 0; k < t.m; ++k) s += static_cast<u64>(static_cast<i64>(A(i, k))) * static_cast<u64>(static_cast<i64>(B(k, j)));
    W(i, j) = static_cast<T>(s);
  }
  auto want = [&](size_t i, size_t j) { return W(i, j); };
  t.fun(A.data(), B.data(), o.data()); judge(c, "mult(A,B)", o, want, args);
  t.op(A.data(), B.data(), o.data()); judge(c, "A*B", o, want, args);
  if (t.p == t.m) { o = A; t.op(o.data(), B.data(), o.data()); judge(c, "A=A*B", o, want, args); }
  if (t.n == t.m) { o = B; t.op(A.data(), o.data(), o.data()); judge(c, "B=A*B", o, want, args); }
  if (t.n == t.m && t.m == t.p && !uneven)
  {
    o = A; t.op(o.data(), o.data(), o.data());
    judge(c, "A=A*A", o, [&](size_t i, size_t j) {
      u64 s = 0;
      for (size_t k = 0; k < t.m; ++k) s += static_cast<u64>(static_cast<i64>(A(i, k))) * static_cast<u64>(static_cast<i64>(A(k, j)));
      return static_cast<T>(s); }, args);
  }
  if (t.strassen)
  {
    const u64 b2 = root_bound<T>(32);
    const auto X = int_operand<T>(c, 2, 2, fam, b2), Y = int_operand<T>(c, 2, 2, static_cast<int>(c.rng.below(6)), b2);
    c.in(X); c.in(Y);
    t.strassen(X.data(), Y.data(), o.data());
    judge(c, "strassen", o, [&](size_t i, size_t j) {
      u64 s = 0;
      for (size_t k = 0; k < 2; ++k) s += static_cast<u64>(static_cast<i64>(X(i, k))) * static_cast<u64>(static_cast<i64>(Y(k, j)));
      return static_cast<T>(s); }, [&] { return show(X, Y); });
  }
}

template <class T> void check(Ctx& c, const Table<T>& t, Flt)
{
  const int fam = static_cast<int>(c.case_no % kFams);
  const bool exact = fam == 0 || fam == 3 || fam == 4;
  auto A = gen_mat<T>(c.rng, t.n, t.m, fam);
  auto B = gen_mat<T>(c.rng, t.m, t.p, exact || fam == 6 ? fam : c.rng.chance(1, 3) ? 1 : fam);
  if (fam == 6)
  {
    // a few infinities and NaN among ordinary numbers, zeros included
    for (auto M : {&A, &B}) for (size_t k = 0; k < M->size(); ++k)
    {
      T& x = M->data()[k];
      x = static_cast<T>(c.rng.range(-3, 3));
      if (c.rng.below(2 * t.m) == 0) x = c.rng.chance(1, 3) ? std::numeric_limits<T>::quiet_NaN() : (c.rng.chance(1, 2) ? 1 : -1) * std::numeric_limits<T>::infinity();
    }
  }
  if (c.rng.chance(1, 4)) { structure(c.rng, A); c.event("structured operand"); }
  if (c.rng.chance(1, 4)) structure(c.rng, B);
  if (fam == 7) for (auto M : {&A, &B}) for (size_t k = 0; k < M->size(); ++k) M->data()[k] = std::sqrt(std::fabs(M->data()[k] / T(4 * t.m))) * (c.rng.chance(1, 2) ? 1 : -1);
  c.in(A); c.in(B);
  auto args = [&] { return show(A, B); };
  DM<T> o(t.n, t.p);
  typedef typename std::conditional<std::is_same<T, long double>::value, Q, long double>::type X;   // at least 11 bits more
  const X u = static_cast<X>(eps_of<T>::get());
  std::vector<X> val(t.n * t.p), abv(t.n * t.p);
  std::vector<char> cls(t.n * t.p, 0);    // 0 finite, 1 +inf, 2 -inf, 3 NaN
  for (size_t i = 0; i < t.n; ++i) for (size_t j = 0; j < t.p; ++j)
  {
    X s = 0, a = 0;
    bool pinf = false, ninf = false, nan = false;
    for (size_t k = 0; k < t.m; ++k)
    {
      const T x = A(i, k), y = B(k, j);
      if (fam == 6 && (!std::isfinite(x) || !std::isfinite(y)))
      {
        const T z = x * y;
        if (std::isnan(z)) nan = true; else if (z > 0) pinf = true; else ninf = true;
        continue;
      }
      const X z = static_cast<X>(x) * static_cast<X>(y);
      s += z; a += z < 0 ? -z : z;
    }
    val[i * t.p + j] = s; abv[i * t.p + j] = a;
    cls[i * t.p + j] = nan || (pinf && ninf) ? 3 : pinf ? 1 : ninf ? 2 : 0;
  }
  auto verify = [&](const char* what) {
    for (size_t i = 0; i < t.n; ++i) for (size_t j = 0; j < t.p; ++j)
    {
      const size_t k = i * t.p + j;
      const T g = o(i, j);
      bool ok;
      if (cls[k] == 3) ok = std::isnan(g);
      else if (cls[k]) ok = std::isinf(g) && (g > 0) == (cls[k] == 1);
      else if (exact) ok = static_cast<X>(g) == val[k];
      else
      {
        if (abv[k] > static_cast<X>(std::numeric_limits<T>::max()) / 2) continue;
        const X tol = static_cast<X>(2 * (t.m + 3)) * u * abv[k] + static_cast<X>(t.m + 2) * static_cast<X>(std::numeric_limits<T>::denorm_min());
        const X d = static_cast<X>(g) - val[k];
        ok = (d < 0 ? -d : d) <= tol;
      }
      if (!ok)
      {
        c.fail(std::string(what) + ": element (" + std::to_string(i) + "," + std::to_string(j) + ") is " + str(g) + ", the sum of products is " +
               (cls[k] == 3 ? "nan" : cls[k] == 1 ? "inf" : cls[k] == 2 ? "-inf" : str(static_cast<long double>(val[k]))) + "; " + args());
        return;
      }
    }
    c.event(what);
    c.event(exact ? "judged exactly" : fam == 6 ? "judged with NaN and infinities" : "judged with rounding bound");
  };
  t.fun(A.data(), B.data(), o.data()); verify("mult(A,B)");
  t.op(A.data(), B.data(), o.data()); verify("A*B");
  if (t.p == t.m) { o = A; t.op(o.data(), B.data(), o.data()); verify("A=A*B"); }
  if (t.n == t.m) { o = B; t.op(A.data(), o.data(), o.data()); verify("B=A*B"); }
  if (t.strassen && fam != 6 && fam != 7)
  {
    t.strassen(A.data(), B.data(), o.data());
    X ma = 0, mb = 0;
    for (size_t k = 0; k < 4; ++k)
    {
      const X x = static_cast<X>(std::fabs(A.data()[k])), y = static_cast<X>(std::fabs(B.data()[k]));
      if (x > ma) ma = x;
      if (y > mb) mb = y;
    }
    const X tol = exact ? X(0) : X(60) * u * ma * mb + X(60) * static_cast<X>(std::numeric_limits<T>::denorm_min());
    for (size_t i = 0; i < 2; ++i) for (size_t j = 0; j < 2; ++j)
    {
      const X d = static_cast<X>(o(i, j)) - val[i * 2 + j];
      if (!((d < 0 ? -d : d) <= tol))
      {
        c.fail("strassen: element (" + std::to_string(i) + "," + std::to_string(j) + ") is " + str(o(i, j)) + ", the sum of products is " + str(static_cast<long double>(val[i * 2 + j])) + "; " + args());
        return;
      }
    }
    c.event("strassen");
  }
}

template <class T> void check(Ctx& c, const Table<T>& t, Cpl)
{
  typedef typename T::value_type V;
  typedef typename std::conditional<std::is_same<V, long double>::value, Q, long double>::type X;
  static const int fams[] = {0, 3, 4, 1, 2, 8};
  const int fam = fams[c.case_no % 6];
  const bool exact = c.case_no % 6 < 3;
  const auto A = gen_mat<T>(c.rng, t.n, t.m, fam), B = gen_mat<T>(c.rng, t.m, t.p, exact ? fam : c.rng.chance(1, 3) ? 1 : fam);
  c.in(A); c.in(B);
  DM<T> o(t.n, t.p);
  const X u = static_cast<X>(eps_of<V>::get());
  std::vector<X> re(t.n * t.p), im(t.n * t.p), ab(t.n * t.p);
  auto mag = [](V v) { return static_cast<X>(v < 0 ? -v : v); };
  X ma = 0, mb = 0;
  for (size_t i = 0; i < t.n; ++i) for (size_t j = 0; j < t.p; ++j)
  {
    X r = 0, s = 0, m = 0;
    for (size_t k = 0; k < t.m; ++k)
    {
      const T a = A(i, k), b = B(k, j);
      const X ar = static_cast<X>(a.real()), ai = static_cast<X>(a.imag()), br = static_cast<X>(b.real()), bi = static_cast<X>(b.imag());
      r += ar * br - ai * bi; s += ar * bi + ai * br;
      const X x = mag(a.real()) + mag(a.imag()), y = mag(b.real()) + mag(b.imag());
      m += x * y;
      if (x > ma) ma = x;
      if (y > mb) mb = y;
    }
    re[i * t.p + j] = r; im[i * t.p + j] = s; ab[i * t.p + j] = m;
  }
  auto verify = [&](const char* what, bool wide) {
    for (size_t i = 0; i < t.n; ++i) for (size_t j = 0; j < t.p; ++j)
    {
      const size_t k = i * t.p + j;
      const X tol = exact ? X(0) : wide ? X(120) * u * ma * mb : static_cast<X>(4 * (t.m + 5)) * u * ab[k];
      const X d = static_cast<X>(o(i, j).real()) - re[k], e = static_cast<X>(o(i, j).imag()) - im[k];
      if (!((d < 0 ? -d : d) <= tol && (e < 0 ? -e : e) <= tol))
      {
        c.fail(std::string(what) + ": element (" + std::to_string(i) + "," + std::to_string(j) + ") is " + str(o(i, j)) + ", the sum of products is (" + str(static_cast<long double>(re[k])) + "," + str(static_cast<long double>(im[k])) + "); " + show(A, B));
        return;
      }
    }
    c.event(what);
    c.event(exact ? "complex, judged exactly" : "complex, judged with rounding bound");
  };
  t.fun(A.data(), B.data(), o.data()); verify("mult(A,B)", false);
  t.op(A.data(), B.data(), o.data()); verify("A*B", false);
  if (t.strassen) { t.strassen(A.data(), B.data(), o.data()); verify("strassen", true); }
}
template <class T> void unit(Ctx& c, const void* p) { const Table<T>& t = *static_cast<const Table<T>*>(p); check<T>(c, t, std::integral_constant<int, kind<T>::value>()); }

template <class T, size_t N, size_t M, size_t P> struct W
{
  static void fun(const T* a, const T* b, T* o) { as<N, P>(o) = mlib::mult(as<N, M>(a), as<M, P>(b)); }
  static void op(const T* a, const T* b, T* o) { using namespace mlib; as<N, P>(o) = as<N, M>(a) * as<M, P>(b); }
};
template <class T> void strassen22(const T* a, const T* b, T* o) { as<2, 2>(o) = mlib::strassen(as<2, 2>(a), as<2, 2>(b)); }

template <class T, size_t N, size_t M, size_t P> struct Reg
{
  static void reg()
  {
    static const Table<T> t = { N, M, P, &W<T, N, M, P>::fun, &W<T, N, M, P>::op, N == 2 && M == 2 && P == 2 ? &strassen22<T> : nullptr };
    add(std::string("product/") + TName<T>::get() + "/" + std::to_string(N) + "x" + std::to_string(M) + "x" + std::to_string(P), &unit<T>, &t,
        N == 2 && M == 2 && P == 2 ? 3 : w_cost(double(N) * M * P, 512));
  }
};
static void reg()
{
#if MON_PART >= 10
  DenseTris<Reg, 9>::reg(); DenseLong<Reg>::reg();
#elif MON_PART == 0
  each_tri<Reg, int>(AllTris()); each_tri<Reg, int>(Tris<Tri<260, 5, 257>, Tri<2, 260, 258>, Tri<259, 257, 3>>()); each_tri<Reg, unsigned char>(FewTris()); each_tri<Reg, short>(FewTris());
#elif MON_PART == 1
  each_tri<Reg, unsigned>(AllTris()); each_tri<Reg, long>(RareTris()); each_tri<Reg, signed char>(RareTris()); each_tri<Reg, char>(RareTris()); each_tri<Reg, long long>(FewTris()); each_tri<Reg, unsigned long>(FewTris());
#elif MON_PART == 2
  each_tri<Reg, double>(AllTris()); each_tri<Reg, double>(Tris<Tri<260, 5, 257>, Tri<5, 260, 257>>()); each_tri<Reg, std::complex<long double>>(RareTris()); each_tri<Reg, float>(FewTris());
#else
  each_tri<Reg, float>(AllTris()); each_tri<Reg, long double>(FewTris()); each_tri<Reg, std::complex<float>>(FewTris()); each_tri<Reg, std::complex<double>>(FewTris());
#endif
}
MON_MAIN(reg)
