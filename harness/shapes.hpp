// Shapes and sizes the harnesses instantiate.  The driver adds seed-dependent
// ones through MON_XS (a comma separated list of Shape<R,C>), MON_XN (sizes)
// and MON_XT (Tri<N,M,P>).
#ifndef MON_SHAPES_HPP_
#define MON_SHAPES_HPP_
#include "mon.hpp"
#ifndef MON_XS
#define MON_XS Shape<6, 11>, Shape<13, 4>
#endif
#ifndef MON_XN
#define MON_XN 11, 13
#endif
#ifndef MON_XT
#define MON_XT Tri<6, 11, 4>, Tri<13, 7, 10>
#endif
namespace mon
{
// rectangular and square, degenerate to large; used by the cheap operations
typedef Shapes<Shape<1, 1>, Shape<1, 2>, Shape<2, 1>, Shape<2, 2>, Shape<1, 3>, Shape<3, 1>, Shape<2, 3>, Shape<3, 2>,
               Shape<3, 3>, Shape<3, 4>, Shape<4, 3>, Shape<2, 5>, Shape<4, 4>, Shape<5, 5>, Shape<6, 6>, Shape<7, 3>,
               Shape<8, 8>, Shape<1, 9>, Shape<9, 1>, Shape<16, 16>, Shape<17, 5>, Shape<5, 33>, Shape<32, 32>, Shape<33, 34>,
               Shape<65, 64>, Shape<1, 300>, Shape<270, 2>, Shape<129, 101>,
               // every row and column count up to 20, and those around powers of two
               Shape<7, 10>, Shape<10, 7>, Shape<11, 14>, Shape<12, 15>, Shape<13, 12>, Shape<14, 19>, Shape<15, 18>, Shape<18, 13>, Shape<19, 20>, Shape<20, 23>,
               Shape<24, 17>, Shape<6, 24>, Shape<25, 31>, Shape<31, 6>, Shape<4, 11>, Shape<48, 47>, Shape<63, 63>, Shape<127, 128>, Shape<128, 127>, Shape<255, 2>,
               Shape<2, 256>, Shape<257, 3>, Shape<100, 100>, MON_XS> AllShapes;
typedef Shapes<Shape<260, 257>> Huge;         // more than 65536 elements
typedef Shapes<Shape<1, 1>, Shape<1, 2>, Shape<2, 1>, Shape<2, 2>, Shape<2, 3>, Shape<3, 2>, Shape<3, 3>, Shape<4, 3>,
               Shape<4, 4>, Shape<5, 7>, Shape<8, 8>, Shape<10, 9>, Shape<16, 15>, Shape<17, 5>, Shape<33, 34>, Shape<64, 3>, Shape<129, 101>, Shape<2, 258>, MON_XS> FewShapes;
typedef Sizes<1, 2, 3, 4, 5, 6, 7, 8, 9, 16, 17, 33, 65, 101, MON_XN> AllSizes;
// cubic-cost operations
typedef Sizes<1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 20, 24, 31, 32, 33, 65> CubeSizes;
typedef Sizes<1, 2, 3, 4, 5, 6, 7, 8, 9, 17, 33, MON_XN> FewSizes;

// for the less usual element types
typedef Shapes<Shape<1, 1>, Shape<2, 3>, Shape<3, 3>, Shape<4, 2>, Shape<5, 7>, Shape<9, 9>, Shape<17, 18>, Shape<2, 40>> RareShapes;
typedef Sizes<1, 2, 3, 4, 5, 6, 9> RareSizes;

template <size_t N, size_t M, size_t P> struct Tri {};
template <class... S> struct Tris {};
template <template <class, size_t, size_t, size_t> class Reg, class T> void each_tri(Tris<>) {}
template <template <class, size_t, size_t, size_t> class Reg, class T, size_t N, size_t M, size_t P, class... S>
void each_tri(Tris<Tri<N, M, P>, S...>)
{
  Reg<T, N, M, P>::reg();
  each_tri<Reg, T>(Tris<S...>());
}
typedef Tris<Tri<1, 1, 1>, Tri<1, 2, 1>, Tri<2, 1, 2>, Tri<2, 2, 2>, Tri<1, 3, 2>, Tri<3, 1, 1>, Tri<2, 3, 4>, Tri<4, 3, 2>,
             Tri<3, 3, 3>, Tri<3, 2, 3>, Tri<4, 4, 4>, Tri<5, 5, 5>, Tri<5, 2, 7>, Tri<7, 5, 2>, Tri<6, 6, 6>, Tri<8, 8, 8>,
             Tri<9, 7, 5>, Tri<1, 17, 1>, Tri<16, 16, 16>, Tri<17, 17, 17>, Tri<1, 33, 5>, Tri<31, 2, 33>, Tri<32, 32, 32>,
             Tri<33, 34, 35>, Tri<64, 64, 64>, Tri<65, 66, 67>, Tri<2, 129, 3>, Tri<130, 1, 3>, Tri<1, 1, 130>, Tri<100, 100, 100>,
             Tri<10, 11, 12>, Tri<11, 13, 14>, Tri<12, 10, 15>, Tri<13, 14, 18>, Tri<14, 15, 11>, Tri<15, 12, 20>, Tri<18, 19, 13>, Tri<19, 20, 10>, Tri<20, 18, 19>, Tri<24, 31, 6>,
             Tri<6, 24, 31>, Tri<8, 6, 63>, Tri<63, 8, 24>, Tri<3, 63, 8>, Tri<3, 128, 2>, Tri<128, 4, 127>, Tri<2, 256, 2>, Tri<257, 3, 2>, Tri<2, 4, 258>, MON_XT> AllTris;
typedef Tris<Tri<1, 1, 1>, Tri<2, 3, 4>, Tri<2, 2, 2>, Tri<3, 3, 3>, Tri<5, 9, 7>, Tri<17, 4, 3>> RareTris;
typedef Tris<Tri<1, 1, 1>, Tri<1, 3, 2>, Tri<2, 2, 2>, Tri<2, 3, 4>, Tri<3, 3, 3>, Tri<4, 4, 4>, Tri<5, 2, 7>, Tri<8, 8, 8>,
             Tri<1, 17, 1>, Tri<9, 7, 5>, Tri<33, 34, 35>, Tri<2, 65, 3>, Tri<6, 10, 7>, Tri<16, 15, 12>, Tri<3, 257, 2>, MON_XT> FewTris;

// Dense sweeps (parts 10 and up, build "dense"): every shape, not a selection of them.
#if MON_PART >= 10
#define MON_DENSE_PART (MON_PART - 10)
#define MON_DENSE_PARTS 4
template <size_t K, size_t Step, size_t End, bool more = (K < End)> struct DenseWalk
{
  template <class F> static void go() { F::template at<K>(); DenseWalk<K + Step, Step, End>::template go<F>(); }
};
template <size_t K, size_t Step, size_t End> struct DenseWalk<K, Step, End, false> { template <class F> static void go() {} };
template <size_t K> struct DenseType { typedef typename std::conditional<K % 2 == 0, int, double>::type type; };

// all RxC up to Max x Max, then the long ones up to 2xLong and Longx2
template <template <class, size_t, size_t> class Reg, size_t Max = 20, size_t Long = 64> struct DenseShapes
{
  template <size_t K> static void at()
  {
    constexpr size_t all = Max * Max, more = Long - Max;
    constexpr size_t r = K < all ? K / Max + 1 : K < all + more ? 2 : K - all - more + Max + 1, c = K < all ? K % Max + 1 : K < all + more ? K - all + Max + 1 : 2;
    Reg<typename DenseType<r + c>::type, r, c>::reg();
  }
  // and a few with a dimension in the thousands
  static void reg()
  {
    DenseWalk<MON_DENSE_PART, MON_DENSE_PARTS, Max * Max + 2 * (Long - Max)>::template go<DenseShapes>();
#if MON_DENSE_PART == 0
    Reg<int, 1, 1100>::reg(); Reg<double, 2, 2101>::reg();
#elif MON_DENSE_PART == 1
    Reg<double, 1100, 1>::reg(); Reg<int, 2101, 2>::reg();
#elif MON_DENSE_PART == 2
    Reg<int, 3, 4200>::reg(); Reg<int, 1, 1025>::reg();
#else
    Reg<double, 4200, 3>::reg(); Reg<double, 1025, 1>::reg();
#endif
  }
};
// all sizes from 1 to Max
template <template <class, size_t> class Reg, size_t Max, class T1 = int, class T2 = double> struct DenseSizes
{
  template <size_t K> static void at() { Reg<T1, K + 1>::reg(); Reg<T2, K + 1>::reg(); }
  static void reg() { DenseWalk<MON_DENSE_PART, MON_DENSE_PARTS, Max>::template go<DenseSizes>(); }
};
// all triples up to Max
template <template <class, size_t, size_t, size_t> class Reg, size_t Max> struct DenseTris
{
  template <size_t K> static void at()
  {
    constexpr size_t n = K / (Max * Max) + 1, m = K / Max % Max + 1, p = K % Max + 1;
    Reg<typename DenseType<n + m + p>::type, n, m, p>::reg();
  }
  static void reg() { DenseWalk<MON_DENSE_PART, MON_DENSE_PARTS, Max * Max * Max>::template go<DenseTris>(); }
};
// every inner (or middle) dimension from 10 to 64
template <template <class, size_t, size_t, size_t> class Reg> struct DenseLong
{
  template <size_t K> static void at()
  {
    typedef typename DenseType<K>::type T;
    Reg<T, 2, K + 10, 3>::reg(); Reg<T, K + 10, 3, 2>::reg(); Reg<T, 3, 2, K + 10>::reg();
  }
  static void reg()
  {
    DenseWalk<MON_DENSE_PART, MON_DENSE_PARTS, 55>::template go<DenseLong>();
#if MON_DENSE_PART == 0
    Reg<int, 2, 1100, 3>::reg(); Reg<double, 1, 2101, 1>::reg();
#elif MON_DENSE_PART == 1
    Reg<double, 1, 4200, 2>::reg(); Reg<double, 3, 1025, 1>::reg();
#elif MON_DENSE_PART == 2
    Reg<int, 1100, 2, 3>::reg(); Reg<double, 2101, 3, 1>::reg();
#else
    Reg<double, 3, 2, 1100>::reg(); Reg<int, 2, 1, 2101>::reg();
#endif
  }
};
#endif
}
#endif
