// C17: no dynamic memory.  The allocation functions of the C library are
// replaced; while an operation runs every request is counted.
#include "allops.hpp"
#include <atomic>
#include <new>

static volatile bool g_armed = false;
static volatile long g_allocs = 0, g_frees = 0;
static volatile size_t g_bytes = 0, g_last = 0;
static inline void note(size_t n) { if (g_armed) { g_allocs = g_allocs + 1; g_bytes = g_bytes + n; g_last = n; } }
extern "C" {
void* __libc_malloc(size_t); void __libc_free(void*); void* __libc_calloc(size_t, size_t); void* __libc_realloc(void*, size_t); void* __libc_memalign(size_t, size_t);
void* malloc(size_t n) { note(n); return __libc_malloc(n); }
void free(void* p) { if (g_armed && p) g_frees = g_frees + 1; __libc_free(p); }
void* calloc(size_t a, size_t b) { note(a * b); return __libc_calloc(a, b); }
void* realloc(void* p, size_t n) { note(n); return __libc_realloc(p, n); }
void* memalign(size_t a, size_t n) { note(n); return __libc_memalign(a, n); }
void* aligned_alloc(size_t a, size_t n) { note(n); return __libc_memalign(a, n); }
int posix_memalign(void** p, size_t a, size_t n) { note(n); *p = __libc_memalign(a, n); return *p ? 0 : 12; }
}
using namespace mon;

static void unit(Ctx& c, const void* t)
{
  const Op& op = *static_cast<const Op*>(t);
  Block in(op.nin * op.esize), out(op.nout * op.esize);
  op.gen(op, c.rng, in.p);
  for (size_t k = 0; k < in.n; ++k) { c.h ^= in.p[k]; c.h *= 1099511628211ull; if (in.p[k] != in.p[k % op.esize]) c.nontrivial = true; }
  bool threw = false;
  g_allocs = g_frees = 0; g_bytes = 0; g_last = 0;
  g_armed = true;
  try { op.run(in.p, out.p); } catch (...) { threw = true; }
  g_armed = false;
  const long allocs = g_allocs, frees = g_frees;
  if (threw) { if (!op.throws) c.fail(op.name + " raised an exception"); c.event("exception raised (not judged)"); return; }
  if (!op.heap)
  {
    if (allocs || frees) return c.fail(op.name + " allocated heap memory: " + std::to_string(allocs) + " requests, " + std::to_string(static_cast<size_t>(g_bytes)) + " bytes, last " + std::to_string(static_cast<size_t>(g_last)));
    c.event("operation without allocation");
    c.event(op.family);
  }
  else
  {
    if (allocs == 0) return c.fail(op.name + ": the monitor saw no allocation of the histogram (monitor broken?)");
    if (allocs != frees) return c.fail(op.name + " leaked: " + std::to_string(allocs) + " allocations, " + std::to_string(frees) + " releases after its result is gone");
    c.event("histogram released everything");
    c.event("allocations seen", static_cast<u64>(allocs));
  }
}
// while the result of a histogram lives, nothing but its nodes may be allocated
template <class T, size_t R, size_t C> void held(Ctx& c, const void*)
{
  DM<T> A = gen_mat<T>(c.rng, R, C, static_cast<int>(c.case_no % 4), 20);
  for (size_t k = 0; k < A.size(); ++k) if (!(A.data()[k] == A.data()[k])) A.data()[k] = T(0);
  c.in(A);
  for (int cum = 0; cum < 2; ++cum)
  {
    g_allocs = g_frees = 0; g_bytes = 0;
    g_armed = true;
    {
      const auto m = cum ? mlib::cumulative_histogram(as<R, C>(A.data())) : mlib::histogram(as<R, C>(A.data()));
      g_armed = false;
      const long live = g_allocs - g_frees;
      if (live != static_cast<long>(m.size())) return c.fail(std::string(cum ? "cumulative_histogram" : "histogram") + " holds " + std::to_string(live) + " blocks for a result of " + std::to_string(m.size()) + " entries");
    }
    c.event("histogram holds its result only");
  }
}
template <class T, size_t R, size_t C> struct RegHeld { static void reg() { add(uname<T>("held", R, C), &held<T, R, C>, nullptr, w_cost(double(R) * C)); } };

typedef Shapes<Shape<1, 1>, Shape<1, 3>, Shape<3, 1>, Shape<2, 2>, Shape<2, 3>, Shape<3, 3>, Shape<4, 4>, Shape<5, 5>, Shape<8, 8>, Shape<16, 5>, Shape<33, 32>, Shape<64, 64>, Shape<100, 101>, Shape<2, 300>, Shape<300, 2>, Shape<1, 2000>, Shape<260, 257>, MON_XS> S;
typedef Shapes<Shape<1, 1>, Shape<2, 3>, Shape<3, 3>, Shape<5, 4>, Shape<17, 16>, Shape<2, 140>, Shape<64, 65>> S2;
typedef Sizes<1, 2, 3, 4, 5, 6, 8, 10, 16, 17, 33, 64, 100, 130, MON_XN> N;
typedef Sizes<1, 2, 3, 4, 5, 8, 17, 40> N2;
static void reg()
{
#if MON_PART >= 10
  DenseShapes<RegOps, 9, 24>::reg(); DenseSizes<RegSq, 20>::reg();
#elif MON_PART == 0
  each_shape<RegOps, int>(S()); each_size<RegSq, int>(N()); each_shape<RegOps, long double>(S2()); each_size<RegSq, long double>(N2());
#elif MON_PART == 1
  each_shape<RegOps, double>(S()); each_size<RegSq, double>(N()); each_shape<RegOps, long long>(S2()); each_size<RegSq, long long>(N2());
#elif MON_PART == 2
  each_shape<RegOps, float>(S()); each_size<RegSq, float>(N()); each_shape<RegOps, short>(S2()); each_shape<RegHeld, float>(S());
#else
  each_shape<RegOps, unsigned>(S()); each_size<RegSq, unsigned>(N()); each_shape<RegOps, unsigned char>(S2()); each_shape<RegHeld, int>(S());
#endif
  for (auto& o : ops()) add(o.name, &unit, &o, w_cost(double(o.nin) * (o.kind == In::any ? 1 : 10), 200));
}
MON_MAIN(reg)
