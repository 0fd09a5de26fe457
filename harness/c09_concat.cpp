// C09: concatenation.  Oracle: where each element of both operands must be.
#include "shapes.hpp"
using namespace mon;

// Tri<X,Y,Z>: vertical X x Z over Y x Z, horizontal Z x X beside Z x Y, square X
template <class T> struct Table
{
  size_t x, y, z;
  void (*v)(const T*, const T*, T*);
  void (*h)(const T*, const T*, T*);
  void (*pair)(const T*, const T*, T*, T*);
  void (*sv)(const T*, const T*, T*);
  void (*sh)(const T*, const T*, T*);
};
template <class T> bool bits_same(const T& a, const T& b) { return std::memcmp(&a, &b, std::is_same<T, long double>::value ? 10 : sizeof(T)) == 0; }
template <class T> bool join(Ctx& c, const char* what, bool vertical, const DM<T>& A, const DM<T>& B, const DM<T>& o)
{
  for (size_t i = 0; i < o.r; ++i) for (size_t j = 0; j < o.c; ++j)
  {
    const T w = vertical ? (i < A.r ? A(i, j) : B(i - A.r, j)) : (j < A.c ? A(i, j) : B(i, j - A.c));
    if (!bits_same(o(i, j), w))
    {
      c.fail(std::string(what) + ": element (" + std::to_string(i) + "," + std::to_string(j) + ") is " + str(o(i, j)) + ", expected " + str(w) + "; A=" + dump(A) + " B=" + dump(B));
      return false;
    }
  }
  c.event(what);
  return true;
}
template <class T> DM<T> operand(Ctx& c, size_t r, size_t k, u64 base) { return c.case_no % 2 ? gen_mat<T>(c.rng, r, k, static_cast<int>(c.rng.below(kFams))) : id_mat<T>(r, k, base); }

template <class T> void unit(Ctx& c, const void* p)
{
  const Table<T>& t = *static_cast<const Table<T>*>(p);
  if (t.v)
  {
    const auto A = operand<T>(c, t.x, t.z, 1), B = operand<T>(c, t.y, t.z, 1 + t.x * t.z);
    c.in(A); c.in(B);
    DM<T> o(t.x + t.y, t.z), a = A, b = B;
    t.v(a.data(), b.data(), o.data());
    join(c, "vertical", true, A, B, o);
    const auto C = operand<T>(c, t.z, t.x, 3), D = operand<T>(c, t.z, t.y, 3 + t.x * t.z);
    c.in(C); c.in(D);
    DM<T> q(t.z, t.x + t.y);
    t.h(C.data(), D.data(), q.data());
    join(c, "horizontal", false, C, D, q);
  }
  const size_t n = t.x;
  const auto A = operand<T>(c, n, n, 5), B = operand<T>(c, n, n, 5 + n * n);
  c.in(A); c.in(B);
  DM<T> v(n + n, n), h(n, n + n);
  t.pair(A.data(), B.data(), v.data(), h.data());
  join(c, "square pair, vertical", true, A, B, v);
  join(c, "square pair, horizontal", false, A, B, h);
  for (size_t k = 0; k < v.size(); ++k) v.data()[k] = h.data()[k] = T(77);
  t.sv(A.data(), B.data(), v.data()); join(c, "concatenateV", true, A, B, v);
  t.sh(A.data(), B.data(), h.data()); join(c, "concatenateH", false, A, B, h);
  t.pair(A.data(), A.data(), v.data(), h.data());
  join(c, "square pair with itself, vertical", true, A, A, v);
  join(c, "square pair with itself, horizontal", false, A, A, h);
}
template <class T, size_t X, size_t Y, size_t Z> struct W
{
  static void v(const T* a, const T* b, T* o) { as<X + Y, Z>(o) = mlib::concatenate(as<X, Z>(a), as<Y, Z>(b)); }
  static void h(const T* a, const T* b, T* o) { as<Z, X + Y>(o) = mlib::concatenate(as<Z, X>(a), as<Z, Y>(b)); }
};
template <class T, size_t N> struct S
{
  static void pair(const T* a, const T* b, T* v, T* h) { const auto r = mlib::concatenate(as<N, N>(a), as<N, N>(b)); as<N + N, N>(v) = r.first; as<N, N + N>(h) = r.second; }
  static void sv(const T* a, const T* b, T* o) { as<N + N, N>(o) = mlib::concatenateV(as<N, N>(a), as<N, N>(b)); }
  static void sh(const T* a, const T* b, T* o) { as<N, N + N>(o) = mlib::concatenateH(as<N, N>(a), as<N, N>(b)); }
};
template <class T, size_t X, size_t Y, size_t Z> struct Get { static void put(Table<T>& t) { t.v = &W<T, X, Y, Z>::v; t.h = &W<T, X, Y, Z>::h; } };
template <class T, size_t X, size_t Z> struct Get<T, X, X, Z> { static void put(Table<T>&) {} };
template <class T, size_t X, size_t Y, size_t Z> struct Reg
{
  static void reg()
  {
    static Table<T> t = { X, Y, Z, nullptr, nullptr, &S<T, X>::pair, &S<T, X>::sv, &S<T, X>::sh };
    Get<T, X, Y, Z>::put(t);
    add(std::string("concat/") + TName<T>::get() + "/" + std::to_string(X) + "+" + std::to_string(Y) + "x" + std::to_string(Z), &unit<T>, &t, w_cost(double(X + Y) * (X + Z), 256));
  }
};
typedef Tris<Tri<1, 1, 1>, Tri<1, 2, 1>, Tri<2, 1, 1>, Tri<2, 1, 2>, Tri<1, 2, 3>, Tri<3, 2, 2>, Tri<3, 1, 3>, Tri<2, 5, 3>, Tri<4, 3, 4>, Tri<5, 4, 1>, Tri<7, 2, 5>,
             Tri<8, 9, 6>, Tri<1, 9, 9>, Tri<9, 1, 17>, Tri<16, 15, 2>, Tri<33, 32, 31>, Tri<65, 3, 40>, Tri<2, 130, 5>, Tri<3, 2, 129>,
             Tri<4, 6, 2>, Tri<6, 7, 9>, Tri<10, 11, 12>, Tri<11, 13, 14>, Tri<12, 10, 7>, Tri<13, 16, 8>, Tri<14, 5, 10>, Tri<15, 14, 11>, Tri<2, 4, 257>, Tri<257, 2, 3>, Tri<3, 258, 4>> Cats;
static void reg()
{
#if MON_PART >= 10
  DenseTris<Reg, 8>::reg(); DenseLong<Reg>::reg();
#elif MON_PART == 0
  each_tri<Reg, int>(Cats()); each_tri<Reg, int>(Tris<Tri<130, 260, 257>>()); each_tri<Reg, unsigned char>(Cats()); each_tri<Reg, int>(Tris<MON_XT>());
#elif MON_PART == 1
  each_tri<Reg, unsigned>(Cats()); each_tri<Reg, bool>(RareTris()); each_tri<Reg, char>(RareTris()); each_tri<Reg, long>(RareTris()); each_tri<Reg, unsigned short>(RareTris()); each_tri<Reg, std::complex<float>>(RareTris()); each_tri<Reg, long double>(Cats()); each_tri<Reg, short>(Tris<MON_XT>());
#elif MON_PART == 2
  each_tri<Reg, float>(Cats()); each_tri<Reg, long long>(Cats()); each_tri<Reg, float>(Tris<MON_XT>());
#else
  each_tri<Reg, double>(Cats()); each_tri<Reg, double>(Tris<Tri<257, 20, 255>>()); each_tri<Reg, std::complex<double>>(Cats()); each_tri<Reg, double>(Tris<MON_XT>());
#endif
}
MON_MAIN(reg)
