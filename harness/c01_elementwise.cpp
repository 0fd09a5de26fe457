// C01: element-wise arithmetic.  Oracle: the scalar operation, element by element.
#include "shapes.hpp"
using namespace mon;

template <class T> struct Table
{
  size_t r, c;
  void (*sum)(const T*, const T*, T*);
  void (*plus)(const T*, const T*, T*);
  void (*sub)(const T*, const T*, T*);
  void (*minus)(const T*, const T*, T*);
  void (*sum_s)(const T*, T, T*);
  void (*plus_s)(const T*, T, T*);
  void (*s_plus)(const T*, T, T*);
  void (*sub_s)(const T*, T, T*);
  void (*minus_s)(const T*, T, T*);
  void (*mul_s)(const T*, T, T*);
  void (*times_s)(const T*, T, T*);
  void (*s_times)(const T*, T, T*);
  void (*inc)(const T*, T*);
  void (*dec)(const T*, T*);
  void (*div)(const T*, T, T*);      // null for complex
  void (*over)(const T*, T, T*);
  void (*abs)(const T*, T*);         // null for unsigned
};
template <class T> struct has_abs { static constexpr bool value = std::is_signed<T>::value || is_cplx<T>::value; };

template <class T, size_t R, size_t C> struct W
{
  static void sum(const T* a, const T* b, T* o) { as<R, C>(o) = mlib::sum(as<R, C>(a), as<R, C>(b)); }
  static void plus(const T* a, const T* b, T* o) { using namespace mlib; as<R, C>(o) = as<R, C>(a) + as<R, C>(b); }
  static void sub(const T* a, const T* b, T* o) { as<R, C>(o) = mlib::sub(as<R, C>(a), as<R, C>(b)); }
  static void minus(const T* a, const T* b, T* o) { using namespace mlib; as<R, C>(o) = as<R, C>(a) - as<R, C>(b); }
  static void sum_s(const T* a, T s, T* o) { as<R, C>(o) = mlib::sum(as<R, C>(a), s); }
  static void plus_s(const T* a, T s, T* o) { using namespace mlib; as<R, C>(o) = as<R, C>(a) + s; }
  static void s_plus(const T* a, T s, T* o) { using namespace mlib; as<R, C>(o) = s + as<R, C>(a); }
  static void sub_s(const T* a, T s, T* o) { as<R, C>(o) = mlib::sub(as<R, C>(a), s); }
  static void minus_s(const T* a, T s, T* o) { using namespace mlib; as<R, C>(o) = as<R, C>(a) - s; }
  static void mul_s(const T* a, T s, T* o) { as<R, C>(o) = mlib::mult(as<R, C>(a), s); }
  static void times_s(const T* a, T s, T* o) { using namespace mlib; as<R, C>(o) = as<R, C>(a) * s; }
  static void s_times(const T* a, T s, T* o) { using namespace mlib; as<R, C>(o) = s * as<R, C>(a); }
  static void inc(const T* a, T* o) { using namespace mlib; as<R, C>(o) = as<R, C>(a)++; }
  static void dec(const T* a, T* o) { using namespace mlib; as<R, C>(o) = as<R, C>(a)--; }
  static void div(const T* a, T s, T* o) { as<R, C>(o) = mlib::div(as<R, C>(a), s); }
  static void over(const T* a, T s, T* o) { using namespace mlib; as<R, C>(o) = as<R, C>(a) / s; }
  static void abs_(const T* a, T* o) { as<R, C>(o) = mlib::abs(as<R, C>(a)); }
  static void set_abs(Table<T>& t, std::true_type) { t.abs = &abs_; }
  static void set_abs(Table<T>&, std::false_type) {}
  static void set_div(Table<T>& t, std::true_type) { t.div = &div; t.over = &over; }
  static void set_div(Table<T>&, std::false_type) {}
};

template <class T> struct Dom
{
  static constexpr bool bounded = std::is_integral<T>::value && std::is_signed<T>::value && sizeof(T) >= sizeof(int);
  static u64 add() { return bounded ? lim<T>::hi() / 2 : 0; }
  static u64 mul() { return std::is_same<T, unsigned short>::value ? 46340 : bounded ? (u64(1) << (4 * sizeof(T) - 1)) - 1 : 0; }
};
template <class T> typename std::enable_if<!is_cplx<T>::value, T>::type absval(T v) { return static_cast<T>(v < T(0) ? -v : v == T(0) ? T(0) : v); }
template <class T> T absval(const std::complex<T>& v) { return std::abs(v); }
template <class T> typename std::enable_if<!is_cplx<T>::value, T>::type quot(T a, T b) { return static_cast<T>(a / b); }
template <class T> typename std::enable_if<is_cplx<T>::value, T>::type quot(T a, T) { return a; }

// a scalar that a shortcut may treat apart, whatever the matrix holds
template <class T> T scalar(Ctx& c, int fam, u64 bound)
{
  if (!c.rng.chance(1, 3)) return gen<T>(c.rng, fam, bound);
  switch (c.rng.below(8))
  {
    case 0: return T(0);
    case 1: return std::is_integral<T>::value ? T(0) : T(T(0) * T(-1));       // -0.0
    case 2: return T(1);
    case 3: return std::is_same<T, unsigned short>::value ? T(46340) : std::is_unsigned<T>::value ? T(T(0) - T(1)) : T(-1);
    case 4: return T(2);
    case 5: return std::is_integral<T>::value ? T(4) : T(T(1) / T(2));
    case 6: return gen<T>(c.rng, 6, bound);
    default: return gen<T>(c.rng, static_cast<int>(c.rng.below(kFams)), bound);
  }
}
// integers up to the limits of the type whose sum and difference still fit
template <class T> typename std::enable_if<std::is_integral<T>::value && std::is_signed<T>::value, void>::type fit(Ctx& c, DM<T>& A, DM<T>& B)
{
  for (size_t k = 0; k < A.size(); ++k)
  {
    const T a = gen<T>(c.rng, 2 + static_cast<int>(c.rng.below(4)));
    const bool lowest = a == static_cast<T>(lim<T>::lo());
    const u64 room = lowest ? 0 : lim<T>::hi() - static_cast<u64>(a < T(0) ? -a : a);
    A.data()[k] = a;
    B.data()[k] = static_cast<T>((c.rng.chance(1, 2) ? -1 : 1) * static_cast<i64>(c.rng.chance(1, 2) ? room : c.rng.below(room + 1)));
    if (!lowest && c.rng.chance(1, 2)) std::swap(A.data()[k], B.data()[k]);
  }
}
template <class T> typename std::enable_if<!(std::is_integral<T>::value && std::is_signed<T>::value), void>::type fit(Ctx&, DM<T>&, DM<T>&) {}
template <class T> typename std::enable_if<std::is_integral<T>::value, bool>::type beyond(T s, u64 b) { return static_cast<u64>(s < T(0) ? -s : s) > b; }
template <class T> typename std::enable_if<!std::is_integral<T>::value, bool>::type beyond(const T&, u64) { return false; }
// the share of the scalar when matrix and scalar together must stay below the limit
inline u64 share(Rng& r, u64 hi)
{
  const unsigned bits = static_cast<unsigned>(r.below(64));
  const u64 b = u64(1) << bits;
  return b > hi / 2 ? 1 : b;
}
template <class T> void unit(Ctx& c, const void* p)
{
  const Table<T>& t = *static_cast<const Table<T>*>(p);
  const size_t R = t.r, C = t.c;
  const int fam = static_cast<int>(c.case_no % kFams);
  DM<T> o(R, C);
  {
    const u64 bs = Dom<T>::bounded && c.case_no % 2 ? share(c.rng, lim<T>::hi()) : Dom<T>::add();
    auto A = gen_mat<T>(c.rng, R, C, fam, Dom<T>::bounded ? lim<T>::hi() - bs : 0);
    auto B = gen_mat<T>(c.rng, R, C, c.rng.chance(1, 3) ? static_cast<int>(c.rng.below(kFams)) : fam, Dom<T>::bounded ? bs : 0);
    T s = scalar<T>(c, fam, bs);
    if (Dom<T>::bounded && beyond(s, bs)) s = T(1);
    c.in(A); c.in(B); c.in_scalar(s);
    auto ab = [&] { return "A=" + dump(A) + " B=" + dump(B); };
    auto as_ = [&] { return "A=" + dump(A) + " scalar=" + str(s); };
    auto add_ab = [&](size_t i, size_t j) { return static_cast<T>(A(i, j) + B(i, j)); };
    auto sub_ab = [&](size_t i, size_t j) { return static_cast<T>(A(i, j) - B(i, j)); };
    auto add_s = [&](size_t i, size_t j) { return static_cast<T>(A(i, j) + s); };
    auto sub_s = [&](size_t i, size_t j) { return static_cast<T>(A(i, j) - s); };
    t.sum(A.data(), B.data(), o.data()); judge_zero(c, "sum(A,B)", o, add_ab, ab);
    t.plus(A.data(), B.data(), o.data()); judge_zero(c, "A+B", o, add_ab, ab);
    t.sub(A.data(), B.data(), o.data()); judge_zero(c, "sub(A,B)", o, sub_ab, ab);
    t.minus(A.data(), B.data(), o.data()); judge_zero(c, "A-B", o, sub_ab, ab);
    t.minus(A.data(), A.data(), o.data()); judge_zero(c, "A-A", o, [&](size_t i, size_t j) { return static_cast<T>(A(i, j) - A(i, j)); }, ab);
    o = A; t.plus(o.data(), B.data(), o.data()); judge_zero(c, "A=A+B", o, add_ab, ab);
    o = B; t.minus(A.data(), o.data(), o.data()); judge_zero(c, "B=A-B", o, sub_ab, ab);
    t.sum_s(A.data(), s, o.data()); judge_zero(c, "sum(A,s)", o, add_s, as_);
    t.plus_s(A.data(), s, o.data()); judge_zero(c, "A+s", o, add_s, as_);
    t.s_plus(A.data(), s, o.data()); judge_zero(c, "s+A", o, add_s, as_);
    t.sub_s(A.data(), s, o.data()); judge_zero(c, "sub(A,s)", o, sub_s, as_);
    t.minus_s(A.data(), s, o.data()); judge_zero(c, "A-s", o, sub_s, as_);
    t.inc(A.data(), o.data()); judge_zero(c, "A++", o, [&](size_t i, size_t j) { return static_cast<T>(A(i, j) + T(1)); }, as_);
    t.dec(A.data(), o.data()); judge_zero(c, "A--", o, [&](size_t i, size_t j) { return static_cast<T>(A(i, j) - T(1)); }, as_);
    if (t.abs) { t.abs(A.data(), o.data()); judge_zero(c, "abs", o, [&](size_t i, size_t j) { return static_cast<T>(absval(A(i, j))); }, as_); }
  }
  if (Dom<T>::bounded)
  {
    DM<T> A(R, C), B(R, C);
    fit<T>(c, A, B);
    c.in(A); c.in(B);
    auto ab = [&] { return "A=" + dump(A) + " B=" + dump(B); };
    auto add_ab = [&](size_t i, size_t j) { return static_cast<T>(A(i, j) + B(i, j)); };
    auto sub_ab = [&](size_t i, size_t j) { return static_cast<T>(A(i, j) - B(i, j)); };
    t.sum(A.data(), B.data(), o.data()); judge(c, "sum(A,B)", o, add_ab, ab);
    t.plus(A.data(), B.data(), o.data()); judge(c, "A+B", o, add_ab, ab);
    t.sub(A.data(), B.data(), o.data()); judge(c, "sub(A,B)", o, sub_ab, ab);
    t.minus(A.data(), B.data(), o.data()); judge(c, "A-B", o, sub_ab, ab);
    c.event("up to the limits of the type");
  }
  if (!(is_cplx<T>::value && fam == 6))
  {
    const bool uneven = Dom<T>::bounded && c.case_no % 2;
    const u64 bs = uneven ? share(c.rng, lim<T>::hi()) : Dom<T>::mul();
    const auto A = gen_mat<T>(c.rng, R, C, fam, uneven ? lim<T>::hi() / bs : Dom<T>::mul());
    T s = is_cplx<T>::value ? gen<T>(c.rng, c.rng.chance(1, 3) ? 0 : fam, bs) : scalar<T>(c, c.rng.chance(1, 3) ? 0 : fam, bs);
    if (uneven && beyond(s, bs)) s = T(1);
    c.in(A); c.in_scalar(s);
    auto as_ = [&] { return "A=" + dump(A) + " scalar=" + str(s); };
    auto mul_s = [&](size_t i, size_t j) { return static_cast<T>(A(i, j) * s); };
    t.mul_s(A.data(), s, o.data()); judge_zero(c, "mult(A,s)", o, mul_s, as_);
    t.times_s(A.data(), s, o.data()); judge_zero(c, "A*s", o, mul_s, as_);
    t.s_times(A.data(), s, o.data()); judge_zero(c, "s*A", o, mul_s, as_);
  }
  if (t.div)
  {
    const auto A = gen_mat<T>(c.rng, R, C, fam, Dom<T>::bounded ? lim<T>::hi() : 0);
    T s = scalar<T>(c, c.rng.chance(1, 2) ? 0 : fam, 0);
    if (s == T(0)) s = T(3);
    c.in(A); c.in_scalar(s);
    auto as_ = [&] { return "A=" + dump(A) + " scalar=" + str(s); };
    auto div_s = [&](size_t i, size_t j) { return quot(A(i, j), s); };
    t.div(A.data(), s, o.data()); judge_zero(c, "div(A,s)", o, div_s, as_);
    t.over(A.data(), s, o.data()); judge_zero(c, "A/s", o, div_s, as_);
  }
}

template <class T, size_t R, size_t C> struct Reg
{
  static void reg()
  {
    typedef W<T, R, C> w;
    static Table<T> t = { R, C, &w::sum, &w::plus, &w::sub, &w::minus, &w::sum_s, &w::plus_s, &w::s_plus, &w::sub_s, &w::minus_s,
                          &w::mul_s, &w::times_s, &w::s_times, &w::inc, &w::dec, nullptr, nullptr, nullptr };
    w::set_abs(t, std::integral_constant<bool, has_abs<T>::value>());
    w::set_div(t, std::integral_constant<bool, !is_cplx<T>::value>());
    add(uname<T>("elementwise", R, C), &unit<T>, &t, w_cost(double(R) * C));
  }
};

static void reg()
{
#if MON_PART >= 10
  DenseShapes<Reg>::reg();
#elif MON_PART == 0
  each_shape<Reg, int>(AllShapes()); each_shape<Reg, int>(Huge()); each_shape<Reg, short>(FewShapes()); each_shape<Reg, signed char>(FewShapes());
#elif MON_PART == 1
  each_shape<Reg, long long>(FewShapes()); each_shape<Reg, unsigned>(FewShapes()); each_shape<Reg, unsigned char>(RareShapes()); each_shape<Reg, unsigned short>(RareShapes()); each_shape<Reg, long>(RareShapes()); each_shape<Reg, char>(RareShapes()); each_shape<Reg, unsigned long>(FewShapes());
#elif MON_PART == 2
  each_shape<Reg, float>(AllShapes()); each_shape<Reg, long double>(FewShapes()); each_shape<Reg, std::complex<long double>>(RareShapes());
#else
  each_shape<Reg, double>(AllShapes()); each_shape<Reg, double>(Huge()); each_shape<Reg, std::complex<float>>(FewShapes()); each_shape<Reg, std::complex<double>>(FewShapes());
#endif
}
MON_MAIN(reg)
