// C10: two-dimensional convolution.  Oracle: the defining double sum over the
// whole plane, zero outside the image.
#include "shapes.hpp"
using namespace mon;

template <class T> struct Table
{
  size_t r, c;
  void (*same)(const T*, const T*, T*);
  void (*full)(const T*, const T*, T*);
  void (*valid)(const T*, const T*, T*);      // 3x3 up
};
template <class T, size_t R, size_t C> struct W
{
  static void same(const T* a, const T* k, T* o) { as<R, C>(o) = mlib::conv2(as<R, C>(a), as<3, 3>(k)); }
  static void full(const T* a, const T* k, T* o) { as<R + 2, C + 2>(o) = mlib::conv2_full(as<R, C>(a), as<3, 3>(k)); }
};
template <class T, size_t R, size_t C, bool ok> struct V { static void (*get())(const T*, const T*, T*) { return nullptr; } };
template <class T, size_t R, size_t C> struct V<T, R, C, true>
{
  static void valid(const T* a, const T* k, T* o) { as<R - 2, C - 2>(o) = mlib::conv2_valid(as<R, C>(a), as<3, 3>(k)); }
  static void (*get())(const T*, const T*, T*) { return &valid; }
};
template <class T, bool integral> struct Acc { typedef u64 type; static u64 in(T v) { return static_cast<u64>(static_cast<i64>(v)); } };
template <class T> struct Acc<T, false> { typedef typename std::conditional<std::is_same<T, long double>::value, Q, long double>::type type; static type in(T v) { return static_cast<type>(v); } };

template <class T> void unit(Ctx& c, const void* p)
{
  const Table<T>& t = *static_cast<const Table<T>*>(p);
  constexpr bool integral = std::is_integral<T>::value;
  typedef Acc<T, integral> A_;
  typedef typename A_::type X;
  const int fam = static_cast<int>(c.case_no % 6);
  // the nine products and their sums stay in the type (signed)
  const u64 b = std::is_signed<T>::value && integral ? static_cast<u64>(std::sqrt((long double)lim<T>::hi() / 9)) : 0;
  const int gf = integral ? fam : fam == 5 ? 2 : fam == 2 ? 0 : fam;
  const bool exact = integral || gf == 0 || gf == 3 || gf == 4;
  // some of the cases: one operand up to the limits of the type, the other small
  const u64 top = b ? lim<typename std::conditional<integral, T, int>::type>::hi() / 9 : 0;
  const unsigned bits = static_cast<unsigned>(c.rng.below(4 * std::min<size_t>(sizeof(T), 8)));
  const bool uneven = b && c.rng.chance(1, 3) && top >> bits, first = c.rng.chance(1, 2);
  const u64 small = uneven ? u64(1) << bits : b, large = uneven ? top >> bits : b;
  if (uneven) c.event("operands of uneven size");
  auto A = gen_mat<T>(c.rng, t.r, t.c, gf, first ? large : small);
  auto K = gen_mat<T>(c.rng, 3, 3, exact && !integral ? 0 : gf, first ? small : large);
  if (!integral && c.case_no % 3 == 1)      // one scale for the image, one for the kernel
  {
    const int range = std::is_same<T, float>::value ? 50 : std::is_same<T, double>::value ? 450 : 7000;
    const int e = static_cast<int>(c.rng.range(-range, range)), f = static_cast<int>(c.rng.range(-range, range));
    for (size_t k = 0; k < A.size(); ++k) A.data()[k] = static_cast<T>(std::ldexp(static_cast<long double>(A.data()[k]), e));
    for (size_t k = 0; k < 9; ++k) K.data()[k] = static_cast<T>(std::ldexp(static_cast<long double>(K.data()[k]), f));
    c.event("scaled by powers of two");
  }
  if (c.rng.chance(1, 3)) { structure(c.rng, K); c.event("structured kernel"); }
  if (c.rng.chance(1, 6)) structure(c.rng, A);
  if (c.case_no % 7 == 3)      // one-hot kernel: each tap on its own
  {
    for (size_t k = 0; k < 9; ++k) K.data()[k] = T(0);
    K.data()[c.rng.below(9)] = T(1);
  }
  if (c.case_no % 7 == 5)      // one-hot image: the kernel itself, shifted
  {
    for (size_t k = 0; k < A.size(); ++k) A.data()[k] = T(0);
    A.data()[c.rng.chance(1, 3) ? (c.rng.chance(1, 2) ? 0 : A.size() - 1) : c.rng.below(A.size())] = T(1);
  }
  c.in(A); c.in(K);
  const DM<T> A0 = A, K0 = K;
  const size_t FR = t.r + 2, FC = t.c + 2;
  std::vector<X> full(FR * FC, X(0)), mag(FR * FC, X(0));
  for (size_t i = 0; i < t.r; ++i) for (size_t j = 0; j < t.c; ++j) for (size_t x = 0; x < 3; ++x) for (size_t y = 0; y < 3; ++y)
  {
    const X z = A_::in(A(i, j)) * A_::in(K(x, y));
    full[(i + x) * FC + j + y] += z;
    if (!integral) mag[(i + x) * FC + j + y] += z < X(0) ? -z : z;
  }
  const X u = integral ? X(0) : static_cast<X>(eps_of<T>::get());
  auto verify = [&](const char* what, const DM<T>& o, size_t off) {
    for (size_t i = 0; i < o.r; ++i) for (size_t j = 0; j < o.c; ++j)
    {
      const size_t k = (i + off) * FC + j + off;
      bool ok;
      if (integral) ok = o(i, j) == static_cast<T>(full[k]);
      else if (exact) ok = static_cast<X>(o(i, j)) == full[k];
      else
      {
        const X d = static_cast<X>(o(i, j)) - full[k], tol = X(24) * u * mag[k] + X(12) * static_cast<X>(std::numeric_limits<T>::denorm_min());
        ok = (d < X(0) ? -d : d) <= tol;
      }
      if (!ok)
      {
        c.fail(std::string(what) + ": element (" + std::to_string(i) + "," + std::to_string(j) + ") is " + str(o(i, j)) + ", the convolution there is " + str(static_cast<T>(full[k])) + "; A=" + dump(A) + " K=" + dump(K));
        return;
      }
    }
    c.event(what);
  };
  { DM<T> o(t.r, t.c); t.same(A.data(), K.data(), o.data()); verify("conv2", o, 1); }
  { DM<T> o(FR, FC); t.full(A.data(), K.data(), o.data()); verify("conv2_full", o, 0); }
  if (t.valid) { DM<T> o(t.r - 2, t.c - 2); t.valid(A.data(), K.data(), o.data()); verify("conv2_valid", o, 2); }
  { DM<T> o = A; t.same(o.data(), K.data(), o.data()); verify("A=conv2(A,K)", o, 1); }
  if (!same_mat(A, A0) || !same_mat(K, K0)) c.fail("conv2 changed an argument");
  if (c.case_no % 7 == 3) c.event("one-hot kernel");
}
template <class T> void cunit(Ctx& c, const void* p)
{
  const Table<T>& t = *static_cast<const Table<T>*>(p);
  typedef typename T::value_type V;
  typedef typename std::conditional<std::is_same<V, long double>::value, Q, long double>::type X;
  static const int fams[] = {0, 3, 4, 1, 2, 8};
  const int fam = fams[c.case_no % 6];
  const bool exact = c.case_no % 6 < 3;
  const auto A = gen_mat<T>(c.rng, t.r, t.c, fam), K = gen_mat<T>(c.rng, 3, 3, exact ? 0 : fam);
  c.in(A); c.in(K);
  const size_t FR = t.r + 2, FC = t.c + 2;
  std::vector<X> re(FR * FC, X(0)), im(FR * FC, X(0)), mag(FR * FC, X(0));
  auto ab = [](X v) { return v < X(0) ? -v : v; };
  for (size_t i = 0; i < t.r; ++i) for (size_t j = 0; j < t.c; ++j) for (size_t x = 0; x < 3; ++x) for (size_t y = 0; y < 3; ++y)
  {
    const size_t k = (i + x) * FC + j + y;
    const X ar = static_cast<X>(A(i, j).real()), ai = static_cast<X>(A(i, j).imag()), kr = static_cast<X>(K(x, y).real()), ki = static_cast<X>(K(x, y).imag());
    re[k] += ar * kr - ai * ki; im[k] += ar * ki + ai * kr; mag[k] += (ab(ar) + ab(ai)) * (ab(kr) + ab(ki));
  }
  const X u = static_cast<X>(eps_of<V>::get());
  auto verify = [&](const char* what, const DM<T>& o, size_t off) {
    for (size_t i = 0; i < o.r; ++i) for (size_t j = 0; j < o.c; ++j)
    {
      const size_t k = (i + off) * FC + j + off;
      const X tol = exact ? X(0) : X(48) * u * mag[k];
      if (!(ab(static_cast<X>(o(i, j).real()) - re[k]) <= tol && ab(static_cast<X>(o(i, j).imag()) - im[k]) <= tol))
      {
        c.fail(std::string(what) + ": element (" + std::to_string(i) + "," + std::to_string(j) + ") is " + str(o(i, j)) + ", the convolution there is (" + str(static_cast<long double>(re[k])) + "," + str(static_cast<long double>(im[k])) + "); A=" + dump(A) + " K=" + dump(K));
        return;
      }
    }
    c.event(what);
    c.event("complex");
  };
  { DM<T> o(t.r, t.c); t.same(A.data(), K.data(), o.data()); verify("conv2", o, 1); }
  { DM<T> o(FR, FC); t.full(A.data(), K.data(), o.data()); verify("conv2_full", o, 0); }
  if (t.valid) { DM<T> o(t.r - 2, t.c - 2); t.valid(A.data(), K.data(), o.data()); verify("conv2_valid", o, 2); }
}
template <class T, size_t R, size_t C> struct CReg
{
  static void reg()
  {
    static const Table<T> t = { R, C, &W<T, R, C>::same, &W<T, R, C>::full, V<T, R, C, (R >= 3 && C >= 3)>::get() };
    add(uname<T>("conv2", R, C), &cunit<T>, &t, w_cost(double(R) * C * 9, 700));
  }
};
template <class T, size_t R, size_t C> struct Reg
{
  static void reg()
  {
    static const Table<T> t = { R, C, &W<T, R, C>::same, &W<T, R, C>::full, V<T, R, C, (R >= 3 && C >= 3)>::get() };
    add(uname<T>("conv2", R, C), &unit<T>, &t, w_cost(double(R) * C * 9, 700));
  }
};
static void reg()
{
#if MON_PART >= 10
  DenseShapes<Reg>::reg();
#elif MON_PART == 0
  each_shape<Reg, int>(AllShapes()); each_shape<Reg, int>(Huge()); each_shape<Reg, unsigned char>(FewShapes());
#elif MON_PART == 1
  each_shape<Reg, unsigned>(AllShapes()); each_shape<Reg, long>(RareShapes()); each_shape<Reg, signed char>(RareShapes()); each_shape<Reg, long long>(FewShapes()); each_shape<Reg, short>(FewShapes());
#elif MON_PART == 2
  each_shape<Reg, float>(AllShapes()); each_shape<Reg, long double>(FewShapes()); each_shape<CReg, std::complex<float>>(RareShapes()); each_shape<CReg, std::complex<double>>(RareShapes());
#else
  each_shape<Reg, double>(AllShapes()); each_shape<Reg, double>(Huge()); each_shape<Reg, unsigned long>(FewShapes());
#endif
}
MON_MAIN(reg)
