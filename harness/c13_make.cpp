// C13: fill, zeros, ones, eye.  Oracle: the requested contents, element by
// element; shape and element type are fixed by the wrappers' declarations.
#include "shapes.hpp"
using namespace mon;

template <class T> struct Table
{
  size_t r, c;
  void (*fill)(T, T*);
  void (*zeros)(T*);
  void (*ones)(T*);
  void (*uones)(unsigned*);
  void (*eye)(T*);            // square
  void (*eye_v)(T, T*);
  void (*ones_n)(T*);
  void (*uones_n)(unsigned*);
};
template <class T, size_t R, size_t C> struct W
{
  static void fill(T v, T* o) { const Mat<T, R, C> m = mlib::fill<T, R, C>(v); as<R, C>(o) = m; }
  static void zeros(T* o) { const Mat<T, R, C> m = mlib::zeros<T, R, C>(); as<R, C>(o) = m; }
  static void ones(T* o) { const Mat<T, R, C> m = mlib::ones<T, R, C>(); as<R, C>(o) = m; }
  static void uones(unsigned* o) { const Mat<unsigned, R, C> m = mlib::ones<R, C>(); as<R, C>(o) = m; }
};
template <class T, size_t R, size_t C> struct Sq { static void put(Table<T>&) {} };
template <class T, size_t N> struct Sq<T, N, N>
{
  static void eye(T* o) { const Mat<T, N, N> m = mlib::eye<T, N>(); as<N, N>(o) = m; }
  static void eye_v(T v, T* o) { const Mat<T, N, N> m = mlib::eye<T, N>(v); as<N, N>(o) = m; }
  static void ones(T* o) { const Mat<T, N, N> m = mlib::ones<T, N>(); as<N, N>(o) = m; }
  static void uones(unsigned* o) { const Mat<unsigned, N, N> m = mlib::ones<N>(); as<N, N>(o) = m; }
  static void put(Table<T>& t) { t.eye = &eye; t.eye_v = &eye_v; t.ones_n = &ones; t.uones_n = &uones; }
};
template <class T> void soil(DM<T>& o) { for (size_t k = 0; k < o.size(); ++k) o.data()[k] = T(9); }
template <class T> void unit(Ctx& c, const void* p)
{
  const Table<T>& t = *static_cast<const Table<T>*>(p);
  const T v = gen<T>(c.rng, static_cast<int>(c.case_no % kFams));
  c.in_scalar(v);
  c.nontrivial = !(v == T(0));
  DM<T> o(t.r, t.c);
  auto none = [&] { return "value " + str(v); };
  soil(o); t.fill(v, o.data()); judge_zero(c, "fill", o, [&](size_t, size_t) { return v; }, none);
  soil(o); t.zeros(o.data()); judge(c, "zeros", o, [&](size_t, size_t) { return T(0); }, none);
  soil(o); t.ones(o.data()); judge(c, "ones<T,i,j>", o, [&](size_t, size_t) { return T(1); }, none);
  DM<unsigned> u(t.r, t.c);
  soil(u); t.uones(u.data()); judge(c, "ones<i,j>", u, [&](size_t, size_t) { return 1u; }, none);
  if (t.eye)
  {
    soil(o); t.eye(o.data()); judge(c, "eye", o, [&](size_t i, size_t j) { return i == j ? T(1) : T(0); }, none);
    soil(o); t.eye_v(v, o.data()); judge(c, "eye(v)", o, [&](size_t i, size_t j) { return i == j ? v : T(0); }, none);
    for (size_t i = 0; i < t.r; ++i) if (!same_zero(o(i, i), v)) { c.fail("eye: diagonal element " + std::to_string(i) + " is " + str(o(i, i)) + ", expected " + str(v)); break; }
    soil(o); t.ones_n(o.data()); judge(c, "ones<T,n>", o, [&](size_t, size_t) { return T(1); }, none);
    soil(u); t.uones_n(u.data()); judge(c, "ones<n>", u, [&](size_t, size_t) { return 1u; }, none);
  }
}
template <class T, size_t R, size_t C> struct Reg
{
  static void reg()
  {
    typedef W<T, R, C> w;
    static Table<T> t = { R, C, &w::fill, &w::zeros, &w::ones, &w::uones, nullptr, nullptr, nullptr, nullptr };
    Sq<T, R, C>::put(t);
    add(uname<T>("make", R, C), &unit<T>, &t, w_cost(double(R) * C));
  }
};
typedef Shapes<Shape<65, 65>, Shape<101, 101>, Shape<7, 7>, Shape<9, 9>, Shape<10, 10>, Shape<17, 17>> MoreSquares;
static void reg()
{
#if MON_PART >= 10
  DenseShapes<Reg>::reg();
#elif MON_PART == 0
  each_shape<Reg, int>(AllShapes()); each_shape<Reg, int>(Huge()); each_shape<Reg, unsigned char>(FewShapes()); each_shape<Reg, int>(MoreSquares());
#elif MON_PART == 1
  each_shape<Reg, unsigned>(AllShapes()); each_shape<Reg, long long>(FewShapes()); each_shape<Reg, bool>(RareShapes()); each_shape<Reg, char>(RareShapes()); each_shape<Reg, signed char>(RareShapes()); each_shape<Reg, unsigned short>(RareShapes()); each_shape<Reg, long>(RareShapes()); each_shape<Reg, unsigned long>(RareShapes()); each_shape<Reg, std::complex<long double>>(RareShapes()); each_shape<Reg, short>(FewShapes());
#elif MON_PART == 2
  each_shape<Reg, float>(AllShapes()); each_shape<Reg, long double>(FewShapes()); each_shape<Reg, float>(MoreSquares());
#else
  each_shape<Reg, double>(AllShapes()); each_shape<Reg, double>(Huge()); each_shape<Reg, std::complex<float>>(FewShapes()); each_shape<Reg, std::complex<double>>(FewShapes());
#endif
}
MON_MAIN(reg)
