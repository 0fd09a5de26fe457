// C11: histograms.  Oracle: counting in the sorted sequence of the elements.
#include "shapes.hpp"
using namespace mon;

template <class T> struct Table { size_t r, c; std::map<T, size_t> (*hist)(const T*); std::map<T, size_t> (*cum)(const T*); };
template <class T, size_t R, size_t C> std::map<T, size_t> hist(const T* a) { return mlib::histogram(as<R, C>(a)); }
template <class T, size_t R, size_t C> std::map<T, size_t> cum(const T* a) { return mlib::cumulative_histogram(as<R, C>(a)); }

template <class T> std::string show(const std::map<T, size_t>& m) { std::string o = "{"; size_t n = 0; for (auto& p : m) { if (++n > 40) { o += "..."; break; } o += str(p.first) + ":" + std::to_string(p.second) + " "; } return o + "}"; }

template <class T> T nonan(T v) { return v == v ? v : T(0); }
template <class T> void unit(Ctx& c, const void* p)
{
  const Table<T>& t = *static_cast<const Table<T>*>(p);
  DM<T> A(t.r, t.c);
  const int mode = static_cast<int>(c.case_no % 13);
  switch (mode)
  {
    case 0: A = gen_mat<T>(c.rng, t.r, t.c, 0); break;                                    // many repetitions
    case 1: { const T v = nonan(gen<T>(c.rng, static_cast<int>(c.rng.below(kFams)))); for (size_t k = 0; k < A.size(); ++k) A.data()[k] = v; break; }   // constant
    case 2: A = id_mat<T>(t.r, t.c, 3); break;                                            // distinct (modulo the type)
    case 3: { const T v = nonan(gen<T>(c.rng, 1)), w = nonan(gen<T>(c.rng, 1)); for (size_t k = 0; k < A.size(); ++k) A.data()[k] = c.rng.chance(1, 2) ? v : w; break; }
    case 4: { for (size_t k = 0; k < A.size(); ++k) A.data()[k] = static_cast<T>(k % 5 == 0 ? -T(3) : T(A.size() - k)); break; }   // decreasing
    case 5: case 6:                                                                       // runs of equal elements, of any length
    {
      const T pool[] = { nonan(gen<T>(c.rng, 1)), nonan(gen<T>(c.rng, 1)), nonan(gen<T>(c.rng, 0)), nonan(gen<T>(c.rng, 0)) };
      const size_t longest = size_t(1) << c.rng.below(12);
      for (size_t k = 0, left = 0, v = 0; k < A.size(); ++k, --left) { if (left == 0) { left = 1 + c.rng.below(longest); v = c.rng.below(4); } A.data()[k] = pool[v]; }
      c.event("runs");
      break;
    }
    case 7:                                                                               // one or two elements among equal ones
    {
      const T v = nonan(gen<T>(c.rng, 1)), w = nonan(gen<T>(c.rng, 1));
      for (size_t k = 0; k < A.size(); ++k) A.data()[k] = v;
      A.data()[c.rng.chance(1, 3) ? A.size() - 1 : c.rng.below(A.size())] = w;
      if (c.rng.chance(1, 2)) A.data()[c.rng.below(A.size())] = w;
      c.event("single among equal ones");
      break;
    }
    case 8:                                                                               // sorted, either way
      A = gen_mat<T>(c.rng, t.r, t.c, static_cast<int>(c.rng.below(kFams)));
      for (size_t k = 0; k < A.size(); ++k) A.data()[k] = nonan(A.data()[k]);
      std::sort(A.data(), A.data() + A.size());
      if (c.rng.chance(1, 2)) std::reverse(A.data(), A.data() + A.size());
      break;
    case 9:                                                                               // equal rows or columns
    {
      A = gen_mat<T>(c.rng, t.r, t.c, static_cast<int>(c.rng.below(kFams)));
      const bool rows = c.rng.chance(1, 2);
      for (size_t i = 0; i < t.r; ++i) for (size_t j = 0; j < t.c; ++j) A(i, j) = rows ? A(0, j) : A(i, 0);
      break;
    }
    default: A = gen_mat<T>(c.rng, t.r, t.c, static_cast<int>(c.rng.below(kFams)));
  }
  for (size_t k = 0; k < A.size(); ++k) A.data()[k] = nonan(A.data()[k]);
  c.in(A);
  if (mode == 1 && A.size() > 1) c.nontrivial = true;
  const DM<T> A0 = A;
  const auto h = t.hist(A.data());
  const auto g = t.cum(A.data());
  if (!same_mat(A, A0)) return c.fail("histogram changed its argument");
  std::vector<T> s(A.data(), A.data() + A.size());
  std::sort(s.begin(), s.end());
  size_t k = 0, total = 0, keys = 0;
  auto hi = h.begin();
  auto gi = g.begin();
  while (k < s.size())
  {
    size_t n = 1;
    while (k + n < s.size() && !(s[k] < s[k + n])) ++n;
    total += n; ++keys;
    if (hi == h.end() || hi->first < s[k] || s[k] < hi->first || hi->second != n)
      return c.fail("histogram: value " + str(s[k]) + " occurs " + std::to_string(n) + " times; histogram " + show(h) + "; A=" + dump(A));
    if (gi == g.end() || gi->first < s[k] || s[k] < gi->first || gi->second != total)
      return c.fail("cumulative_histogram: " + std::to_string(total) + " elements are not greater than " + str(s[k]) + "; got " + show(g) + "; A=" + dump(A));
    ++hi; ++gi; k += n;
    if (n > 255) c.event("value repeated more than 255 times");
    if (n > 65535) c.event("value repeated more than 65535 times");
  }
  if (hi != h.end()) return c.fail("histogram has keys that do not occur: " + show(h) + "; A=" + dump(A));
  if (gi != g.end()) return c.fail("cumulative_histogram has keys that do not occur: " + show(g) + "; A=" + dump(A));
  c.event("histogram"); c.event("cumulative_histogram"); c.event("keys compared", keys);
}
template <class T, size_t R, size_t C> struct Reg
{
  static void reg()
  {
    static const Table<T> t = { R, C, &hist<T, R, C>, &cum<T, R, C> };
    add(uname<T>("histogram", R, C), &unit<T>, &t, w_cost(double(R) * C, 200));
  }
};
static void reg()
{
#if MON_PART >= 10
  DenseShapes<Reg>::reg();
#elif MON_PART == 0
  each_shape<Reg, int>(AllShapes()); each_shape<Reg, unsigned char>(AllShapes()); each_shape<Reg, unsigned char>(Huge()); each_shape<Reg, int>(Huge());
#elif MON_PART == 1
  each_shape<Reg, unsigned>(FewShapes()); each_shape<Reg, bool>(RareShapes()); each_shape<Reg, char>(RareShapes()); each_shape<Reg, long>(RareShapes()); each_shape<Reg, short>(RareShapes()); each_shape<Reg, unsigned long>(RareShapes()); each_shape<Reg, long long>(FewShapes()); each_shape<Reg, signed char>(FewShapes());
#elif MON_PART == 2
  each_shape<Reg, float>(AllShapes()); each_shape<Reg, float>(Huge()); each_shape<Reg, unsigned short>(FewShapes());
#else
  each_shape<Reg, double>(AllShapes()); each_shape<Reg, long double>(FewShapes());
#endif
}
MON_MAIN(reg)
