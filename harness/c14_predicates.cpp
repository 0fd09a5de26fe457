// C14: compare, isIdentity, isSymetric.  Oracle: the quantified definition,
// evaluated over all positions; a single deviating element is planted anywhere.
#include "shapes.hpp"
using namespace mon;

template <class T> struct Table
{
  size_t r, c;
  bool (*compare)(const T*, const T*, float);   // null for unsigned
  bool (*identity)(const T*);                   // square
  bool (*symetric)(const T*);
};
template <class T, size_t R, size_t C> bool f_compare(const T* a, const T* b, float e) { return mlib::compare(as<R, C>(a), as<R, C>(b), e); }
template <class T, size_t N> bool f_id(const T* a) { return mlib::isIdentity(as<N, N>(a)); }
template <class T, size_t N> bool f_sym(const T* a) { return mlib::isSymetric(as<N, N>(a)); }
template <class T, size_t R, size_t C, bool ok> struct Cmp { static void put(Table<T>&) {} };
template <class T, size_t R, size_t C> struct Cmp<T, R, C, true> { static void put(Table<T>& t) { t.compare = &f_compare<T, R, C>; } };
template <class T, size_t R, size_t C> struct Sq { static void put(Table<T>&) {} };
template <class T, size_t N> struct Sq<T, N, N> { static void put(Table<T>& t) { t.identity = &f_id<T, N>; t.symetric = &f_sym<T, N>; } };

// a difference of exactly k quarters (floating) or k units (integer)
template <class T> typename std::enable_if<std::is_integral<T>::value, T>::type step(i64 k) { return static_cast<T>(k); }
template <class T> typename std::enable_if<std::is_floating_point<T>::value, T>::type step(i64 k) { return static_cast<T>(k) / T(4); }
template <class T> typename std::enable_if<is_cplx<T>::value, T>::type step(i64 k) { typedef typename T::value_type V; return k % 2 ? T(V(k) / V(4), 0) : T(0, V(k) / V(4)); }
template <class T> long double unit_of() { return std::is_integral<T>::value ? 1.0L : 0.25L; }

template <class T> void special(Ctx&, const Table<T>&, const DM<T>&, std::false_type) {}
template <class T> void special(Ctx& c, const Table<T>& t, const DM<T>& A, std::true_type)
{
  const T inf = std::numeric_limits<T>::infinity(), nan = std::numeric_limits<T>::quiet_NaN();
  const size_t k = c.rng.below(A.size());
  const float eps = c.rng.chance(1, 2) ? 0.0f : 0.5f;
  struct { T a, b; bool want; const char* what; } rows[] = {
    {nan, T(1), false, "NaN in A"}, {T(1), nan, false, "NaN in B"}, {nan, nan, false, "NaN in both"}, {inf, inf, true, "equal infinities"}, {-inf, -inf, true, "equal negative infinities"},
    {inf, -inf, false, "opposite infinities"}, {T(0), T(-0.0), true, "signed zeros"}, {inf, T(1), false, "infinity against a number"}, {T(1), -inf, false, "a number against infinity"},
    {std::numeric_limits<T>::max(), std::numeric_limits<T>::max(), true, "largest values"}, {std::numeric_limits<T>::max(), -std::numeric_limits<T>::max(), false, "largest values, opposite"},
    {std::numeric_limits<T>::denorm_min(), T(0), eps > 0, "smallest difference"} };
  for (auto& r : rows)
  {
    DM<T> X = A, Y = A;
    X.data()[k] = r.a; Y.data()[k] = r.b;
    if (t.compare(X.data(), Y.data(), eps) != r.want) { c.fail(std::string("compare is ") + (r.want ? "false" : "true") + " with " + r.what + " at element " + std::to_string(k) + ", eps " + str(eps) + "; A=" + dump(X) + " B=" + dump(Y)); return; }
    c.event("compare, special values");
  }
  // very large tolerances
  {
    DM<T> X = A, Y = A;
    const float big = c.rng.chance(1, 2) ? 1e30f : std::numeric_limits<float>::infinity();
    X.data()[k] = T(1e29f); Y.data()[k] = T(-1e29f);
    if (!t.compare(X.data(), Y.data(), big)) return c.fail("compare is false for a difference of 2e29, eps " + str(big));
    Y.data()[k] = nan;
    if (t.compare(X.data(), Y.data(), big)) return c.fail("compare is true with NaN, eps " + str(big));
    c.event("compare, very large tolerance", 2);
  }
  // a tolerance that is not a binary fraction; the difference is it exactly, just below or just above
  const float e2 = static_cast<float>(std::pow(10.0L, -1 - 4 * c.rng.unit()));
  DM<T> X = A, Y = A;
  X.data()[k] = T(0);
  const T exact = static_cast<T>(e2);
  Y.data()[k] = c.rng.chance(1, 2) ? exact : -exact;
  if (!t.compare(X.data(), Y.data(), e2)) return c.fail("compare is false for a difference of exactly eps " + str(e2) + "; B=" + dump(Y));
  const T above = std::nextafter(exact, inf);
  Y.data()[k] = c.rng.chance(1, 2) ? above : -above;
  if (t.compare(X.data(), Y.data(), e2)) return c.fail("compare is true for a difference just above eps " + str(e2) + "; B=" + dump(Y));
  c.event("compare at the tolerance", 2);
}

// the smallest deviations a floating type has, and NaN
template <class T> void tiny(Ctx&, const Table<T>&, const DM<T>&, std::false_type) {}
template <class T> void tiny(Ctx& c, const Table<T>& t, const DM<T>& S, std::true_type)
{
  const size_t N = t.r;
  const T inf = std::numeric_limits<T>::infinity(), nan = std::numeric_limits<T>::quiet_NaN();
  for (int k = 0; k < 4; ++k)
  {
    DM<T> I(N, N);
    for (size_t i = 0; i < N; ++i) I(i, i) = T(1);
    const size_t i = c.rng.below(N), j = c.rng.below(N);
    T& x = I(i, j);
    x = k == 0 ? std::nextafter(x, inf) : k == 1 ? std::nextafter(x, -inf) : k == 2 ? nan : inf;
    if (t.identity(I.data())) return c.fail("isIdentity is true although element (" + std::to_string(i) + "," + std::to_string(j) + ") is " + str(x));
    c.event("isIdentity false, smallest deviation or NaN");
    if (N < 2) continue;
    DM<T> D = S;
    const size_t a = c.rng.below(N), b = (a + 1 + c.rng.below(N - 1)) % N;
    T& y = D(a, b);
    y = k == 0 ? std::nextafter(y, inf) : k == 1 ? std::nextafter(y, -inf) : k == 2 ? nan : inf;
    if (k == 2 && c.rng.chance(1, 2)) D(b, a) = nan;
    if (t.symetric(D.data())) return c.fail("isSymetric is true although (" + std::to_string(a) + "," + std::to_string(b) + ") is " + str(y) + " and the opposite element " + str(D(b, a)));
    if (k == 3)
    {
      D(b, a) = inf;
      if (!t.symetric(D.data())) return c.fail("isSymetric is false with equal infinities");
      D(b, a) = T(0); y = T(-0.0);
      if (!t.symetric(D.data())) return c.fail("isSymetric is false with zeros of different sign");
    }
    c.event("isSymetric, smallest deviation, NaN and infinities");
  }
}

template <class T> void unit(Ctx& c, const void* p)
{
  const Table<T>& t = *static_cast<const Table<T>*>(p);
  const size_t n = t.r * t.c;
  DM<T> A = gen_mat<T>(c.rng, t.r, t.c, c.rng.chance(1, 2) ? 0 : 3, 100);
  // differences between large values: lost if the elements are converted first
  if (std::is_signed<T>::value && sizeof(T) >= 4 && c.rng.chance(1, 3))
  {
    const int bits = std::is_integral<T>::value ? static_cast<int>(8 * sizeof(T) - 3) : std::numeric_limits<T>::digits - 5;
    const T base = static_cast<T>(std::ldexp(c.rng.chance(1, 2) ? 1.0L : -1.0L, bits - static_cast<int>(c.rng.below(4))));
    for (size_t k = 0; k < n; ++k) A.data()[k] = static_cast<T>(A.data()[k] + base);
    c.event("large elements");
  }
  c.in(A);
  if (n == 1) c.nontrivial = true;
  if (t.compare)
  {
    // B differs from A by up to `lim` steps everywhere, and by one more step in a few places
    const i64 lim = c.rng.range(0, 3);
    const float eps = static_cast<float>(lim * unit_of<T>()) + (std::is_integral<T>::value && c.rng.chance(1, 2) ? 0.5f : 0.0f);
    DM<T> B = A;
    for (size_t k = 0; k < n; ++k) B.data()[k] = A.data()[k] + step<T>(c.rng.range(-lim, lim));
    if (!t.compare(A.data(), B.data(), eps)) return c.fail("compare is false, no element differs by more than eps " + str(eps) + "; A=" + dump(A) + " B=" + dump(B));
    if (!t.compare(B.data(), A.data(), eps)) return c.fail("compare(B,A) is false, no element differs by more than eps " + str(eps) + "; A=" + dump(A) + " B=" + dump(B));
    c.event("compare true", 2);
    const size_t tries = n <= 40 ? n : 24;
    for (size_t k = 0; k < tries; ++k)
    {
      const size_t at = n <= 40 ? k : k == 0 ? 0 : k == 1 ? n - 1 : c.rng.below(n);
      DM<T> D = B;
      D.data()[at] = A.data()[at] + step<T>((lim + 1 + (c.rng.chance(1, 3) ? 50 : 0)) * (c.rng.chance(1, 2) ? 1 : -1));
      if (t.compare(A.data(), D.data(), eps) || t.compare(D.data(), A.data(), eps))
        return c.fail("compare is true although element " + std::to_string(at) + " differs by more than eps " + str(eps) + ": " + str(A.data()[at]) + " and " + str(D.data()[at]) + "; shape " + std::to_string(t.r) + "x" + std::to_string(t.c));
      c.event("compare false, one element", 2);
    }
    // many deviating elements, of both signs: a count or a sum of them may wrap or cancel
    for (int rep = 0; rep < 2; ++rep)
    {
      size_t m = rep ? n : n >= 256 ? 256 * (1 + c.rng.below(n / 256)) : n / 2 * 2;
      if (n == 1 && rep == 0) continue;
      DM<T> D = A;
      std::vector<size_t> at(n);
      for (size_t k = 0; k < n; ++k) at[k] = k;
      for (size_t k = n; k-- > 1; ) std::swap(at[k], at[c.rng.below(k + 1)]);
      for (size_t k = 0; k < m; ++k) D.data()[at[k]] = A.data()[at[k]] + step<T>((lim + 1) * (k % 2 ? 1 : -1));
      if (t.compare(A.data(), D.data(), eps) || t.compare(D.data(), A.data(), eps))
        return c.fail("compare is true although " + std::to_string(m) + " elements differ by more than eps " + str(eps) + "; shape " + std::to_string(t.r) + "x" + std::to_string(t.c));
      c.event("compare false, many elements", 2);
    }
    special(c, t, A, std::integral_constant<bool, std::is_floating_point<T>::value>());
  }
  if (t.identity)
  {
    const size_t N = t.r;
    DM<T> I(N, N);
    for (size_t i = 0; i < N; ++i) I(i, i) = T(1);
    if (!t.identity(I.data())) return c.fail("isIdentity is false for the identity");
    c.event("isIdentity true");
    const size_t tries = n <= 40 ? n : 24;
    for (size_t k = 0; k < tries; ++k)
    {
      const size_t at = n <= 40 ? k : k == 0 ? n - 1 : k == 1 ? 1 : k == 2 ? N - 1 : c.rng.below(n);
      DM<T> D = I;
      const bool diag = at / N == at % N;
      switch (c.rng.below(4))
      {
        case 0: D.data()[at] = diag ? T(0) : T(1); break;
        case 1: D.data()[at] = T(2); break;
        case 2: D.data()[at] = std::is_unsigned<T>::value ? T(3) : T(T(0) - T(1)); break;
        default: D.data()[at] = D.data()[at] + step<T>(1);
      }
      if (t.identity(D.data())) return c.fail("isIdentity is true although element " + std::to_string(at) + " is " + str(D.data()[at]));
      c.event("isIdentity false, one element");
    }
    // two deviations that cancel in a sum or product
    if (N >= 2)
    {
      DM<T> D = I;
      D(0, 0) = T(2); D(1, 1) = T(0);
      if (t.identity(D.data())) return c.fail("isIdentity is true for diag(2,0,1...)");
      for (size_t i = 0; i < N; ++i) D(i, i) = T(3);
      if (t.identity(D.data())) return c.fail("isIdentity is true for 3*I");
      DM<T> P(N, N);
      for (size_t i = 0; i < N; ++i) P(i, N - 1 - i) = T(1);
      if (t.identity(P.data())) return c.fail("isIdentity is true for the reversal permutation");
      c.event("isIdentity false, several", 3);
    }
  }
  if (t.symetric)
  {
    const size_t N = t.r;
    DM<T> S = A;
    for (size_t i = 0; i < N; ++i) for (size_t j = 0; j < i; ++j) S(j, i) = S(i, j);
    if (!t.symetric(S.data())) return c.fail("isSymetric is false; A=" + dump(S));
    c.event("isSymetric true");
    const size_t tries = n <= 40 ? n : 24;
    for (size_t k = 0; k < tries; ++k)
    {
      const size_t at = n <= 40 ? k : k == 0 ? N - 1 : k == 1 ? N * (N - 1) : k == 2 ? 1 : c.rng.below(n);
      DM<T> D = S;
      D.data()[at] = D.data()[at] + step<T>(1);
      const bool want = at / N == at % N;
      if (t.symetric(D.data()) != want) return c.fail(std::string("isSymetric is ") + (want ? "false" : "true") + " after changing element " + std::to_string(at) + "; A=" + dump(D));
      if (!want) c.event("isSymetric false, one element");
    }
    tiny(c, t, S, std::integral_constant<bool, std::is_floating_point<T>::value>());
    if (!std::is_unsigned<T>::value && N >= 2)
    {
      DM<T> D(N, N);
      for (size_t i = 0; i < N; ++i) for (size_t j = 0; j < i; ++j) { D(i, j) = step<T>(4); D(j, i) = T(T(0) - D(i, j)); }
      if (t.symetric(D.data())) return c.fail("isSymetric is true for an antisymmetric matrix; A=" + dump(D));
      c.event("isSymetric false, antisymmetric");
    }
  }
}
template <class T, size_t R, size_t C> struct Reg
{
  static void reg()
  {
    static Table<T> t = { R, C, nullptr, nullptr, nullptr };
    Cmp<T, R, C, (std::is_signed<T>::value || is_cplx<T>::value)>::put(t);
    Sq<T, R, C>::put(t);
    add(uname<T>("predicates", R, C), &unit<T>, &t, w_cost(double(R) * C * 40, 1000));
  }
};
typedef Shapes<Shape<65, 65>, Shape<7, 7>, Shape<9, 9>, Shape<10, 10>, Shape<17, 17>> MoreSquares;
static void reg()
{
#if MON_PART >= 10
  DenseShapes<Reg>::reg();
#elif MON_PART == 0
  each_shape<Reg, int>(AllShapes()); each_shape<Reg, int>(Huge()); each_shape<Reg, short>(FewShapes()); each_shape<Reg, int>(MoreSquares());
#elif MON_PART == 1
  each_shape<Reg, unsigned>(FewShapes()); each_shape<Reg, long>(RareShapes()); each_shape<Reg, signed char>(RareShapes()); each_shape<Reg, char>(RareShapes()); each_shape<Reg, unsigned short>(RareShapes()); each_shape<Reg, unsigned long>(RareShapes()); each_shape<Reg, long long>(FewShapes()); each_shape<Reg, unsigned char>(FewShapes()); each_shape<Reg, double>(MoreSquares());
#elif MON_PART == 2
  each_shape<Reg, float>(AllShapes()); each_shape<Reg, long double>(FewShapes());
#else
  each_shape<Reg, double>(AllShapes()); each_shape<Reg, double>(Huge()); each_shape<Reg, std::complex<float>>(FewShapes()); each_shape<Reg, std::complex<double>>(FewShapes());
#endif
}
MON_MAIN(reg)
