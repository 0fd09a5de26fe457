// C08: transpose, row and column swaps, minors.  Oracle: where each element
// (a unique id, or a special value) must be afterwards.
#include "shapes.hpp"
using namespace mon;

template <class T> struct Table
{
  size_t r, c;
  void (*trans)(const T*, T*);
  void (*trans2)(const T*, T*);
  void (*rows)(T*, size_t, size_t);
  void (*cols)(T*, size_t, size_t);
  void (*minor)(const T*, size_t, size_t, T*);    // square, n >= 2
};
template <class T, size_t R, size_t C> struct W
{
  static void trans(const T* a, T* o) { as<C, R>(o) = mlib::trans(as<R, C>(a)); }
  static void trans2(const T* a, T* o) { as<R, C>(o) = mlib::trans(mlib::trans(as<R, C>(a))); }
  static void rows(T* a, size_t x, size_t y) { mlib::swap_rows(as<R, C>(a), x, y); }
  static void cols(T* a, size_t x, size_t y) { mlib::swap_cols(as<R, C>(a), x, y); }
};
template <class T, size_t N> void minor_(const T* a, size_t i, size_t j, T* o) { as<N - 1, N - 1>(o) = mlib::getminor(as<N, N>(a), i, j); }
template <class T, size_t R, size_t C, bool sq> struct MinorOf { static void (*get())(const T*, size_t, size_t, T*) { return nullptr; } };
template <class T, size_t N> struct MinorOf<T, N, N, true> { static void (*get())(const T*, size_t, size_t, T*) { return &minor_<T, N>; } };

// bit-identical, so that NaN payloads and signed zeros must survive too
template <class T> bool bits_same(const T& a, const T& b) { return std::memcmp(&a, &b, std::is_same<T, long double>::value ? 10 : sizeof(T)) == 0; }
template <class T, class F> bool placed(Ctx& c, const char* what, const DM<T>& o, F from, const std::string& args, const DM<T>& A)
{
  for (size_t i = 0; i < o.r; ++i) for (size_t j = 0; j < o.c; ++j)
    if (!bits_same(o(i, j), from(i, j)))
    {
      c.fail(std::string(what) + args + ": element (" + std::to_string(i) + "," + std::to_string(j) + ") is " + str(o(i, j)) + ", expected " + str(from(i, j)) + "; A=" + dump(A));
      return false;
    }
  c.event(what);
  return true;
}
template <class T> void unit(Ctx& c, const void* p)
{
  const Table<T>& t = *static_cast<const Table<T>*>(p);
  const size_t R = t.r, C = t.c;
  const DM<T> A = c.case_no % 2 == 0 ? id_mat<T>(R, C, 1 + c.rng.below(100)) : gen_mat<T>(c.rng, R, C, static_cast<int>(c.rng.below(kFams)));
  c.in(A);
  { DM<T> o(C, R); DM<T> in = A; t.trans(in.data(), o.data()); placed(c, "trans", o, [&](size_t i, size_t j) { return A(j, i); }, "", A);
    if (!placed(c, "trans left its argument alone", in, [&](size_t i, size_t j) { return A(i, j); }, "", A)) return; }
  { DM<T> o(R, C); t.trans2(A.data(), o.data()); placed(c, "trans(trans)", o, [&](size_t i, size_t j) { return A(i, j); }, "", A); }
  // all index pairs of small shapes, a random choice for large ones
  const size_t all = R * R, want = std::min<size_t>(all, 40);
  for (size_t k = 0; k < want; ++k)
  {
    const size_t x = all <= 40 ? k / R : c.rng.below(R), y = all <= 40 ? k % R : (c.rng.chance(1, 4) ? (c.rng.chance(1, 2) ? 0 : R - 1) : c.rng.below(R));
    DM<T> B = A;
    const std::string args = "(A," + std::to_string(x) + "," + std::to_string(y) + ")";
    t.rows(B.data(), x, y);
    if (!placed(c, "swap_rows", B, [&](size_t i, size_t j) { return A(i == x ? y : i == y ? x : i, j); }, args, A)) return;
    t.rows(B.data(), y, x);
    if (!placed(c, "swap_rows undone", B, [&](size_t i, size_t j) { return A(i, j); }, args, A)) return;
    if (x != y) c.event("swap of different rows");
  }
  const size_t allc = C * C, wantc = std::min<size_t>(allc, 40);
  for (size_t k = 0; k < wantc; ++k)
  {
    const size_t x = allc <= 40 ? k / C : c.rng.below(C), y = allc <= 40 ? k % C : (c.rng.chance(1, 4) ? (c.rng.chance(1, 2) ? 0 : C - 1) : c.rng.below(C));
    DM<T> B = A;
    const std::string args = "(A," + std::to_string(x) + "," + std::to_string(y) + ")";
    t.cols(B.data(), x, y);
    if (!placed(c, "swap_cols", B, [&](size_t i, size_t j) { return A(i, j == x ? y : j == y ? x : j); }, args, A)) return;
    t.cols(B.data(), y, x);
    if (!placed(c, "swap_cols undone", B, [&](size_t i, size_t j) { return A(i, j); }, args, A)) return;
  }
  if (t.minor)
  {
    const size_t wm = std::min<size_t>(R * R, 100);
    for (size_t k = 0; k < wm; ++k)
    {
      const size_t x = R * R <= 100 ? k / R : c.rng.chance(1, 4) ? R - 1 : c.rng.below(R), y = R * R <= 100 ? k % R : c.rng.chance(1, 4) ? R - 1 : c.rng.below(R);
      DM<T> o(R - 1, R - 1);
      t.minor(A.data(), x, y, o.data());
      if (!placed(c, "getminor", o, [&](size_t i, size_t j) { return A(i < x ? i : i + 1, j < y ? j : j + 1); }, "(A," + std::to_string(x) + "," + std::to_string(y) + ")", A)) return;
    }
  }
}
template <class T, size_t R, size_t C> struct Reg
{
  static void reg()
  {
    typedef W<T, R, C> w;
    static const Table<T> t = { R, C, &w::trans, &w::trans2, &w::rows, &w::cols, MinorOf<T, R, C, (R == C && R > 1)>::get() };
    add(uname<T>("movement", R, C), &unit<T>, &t, w_cost(double(R) * C * std::max(R, C), 256));
  }
};
static void reg()
{
#if MON_PART >= 10
  DenseShapes<Reg>::reg();
#elif MON_PART == 0
  each_shape<Reg, int>(AllShapes()); each_shape<Reg, int>(Huge()); each_shape<Reg, signed char>(FewShapes()); each_shape<Reg, unsigned short>(FewShapes());
#elif MON_PART == 1
  each_shape<Reg, unsigned>(FewShapes()); each_shape<Reg, bool>(RareShapes()); each_shape<Reg, char>(RareShapes()); each_shape<Reg, long>(RareShapes()); each_shape<Reg, unsigned char>(RareShapes()); each_shape<Reg, long long>(FewShapes()); each_shape<Reg, long double>(FewShapes());
#elif MON_PART == 2
  each_shape<Reg, float>(AllShapes()); each_shape<Reg, std::complex<float>>(FewShapes());
#else
  each_shape<Reg, double>(AllShapes()); each_shape<Reg, double>(Huge()); each_shape<Reg, std::complex<double>>(FewShapes());
#endif
}
MON_MAIN(reg)
