// C18: memory discipline of every operation.  Three monitors, by build:
//  - sanitizer builds (AddressSanitizer + UndefinedBehaviorSanitizer, libstdc++
//    assertions): operands and results in heap blocks of exactly their size;
//  - MemorySanitizer and valgrind builds: the result block starts undefined and
//    must be defined, element by element, when the call returns;
//  - plain builds: the call is repeated with its result block and the stack
//    below it filled with different patterns, between guard zones.  Any bit of
//    the result that follows a pattern was read from memory nobody wrote, any
//    changed guard or operand byte is an access outside the result.
#include "allops.hpp"
#if defined(__has_feature)
#if __has_feature(memory_sanitizer)
#include <sanitizer/msan_interface.h>
#define MON_MSAN 1
#endif
#if __has_feature(address_sanitizer)
#define MON_ASAN 1
#endif
#endif
#if defined(__SANITIZE_ADDRESS__)
#define MON_ASAN 1
#endif
#ifdef MON_VALGRIND
#include <valgrind/memcheck.h>
#endif
using namespace mon;

#if !defined(MON_MSAN) && !defined(MON_ASAN) && !defined(MON_VALGRIND)
#define MON_PLAIN 1
#endif

__attribute__((noinline)) static void scribble(int pat, size_t bytes)
{
  volatile unsigned char* p = static_cast<volatile unsigned char*>(__builtin_alloca(bytes));
  for (size_t k = 0; k < bytes; ++k) p[k] = static_cast<unsigned char>(pat == 3 ? (k * 37 + 11) : pat == 2 ? 0x7F : pat == 1 ? 0xFF : 0);
}
static Outcome call(const Op& op, const void* in, void* out) { return outcome([&] { op.run(in, out); }); }

static void unit(Ctx& c, const void* t)
{
  const Op& op = *static_cast<const Op*>(t);
#if defined(MON_MSAN)
  if (op.heap) { return; }      // the red-black tree of the (uninstrumented) C++ library
#endif
  Block in(op.nin * op.esize);
  std::memset(in.p, 0, in.n);
  op.gen(op, c.rng, in.p);
  if (op.nan_ok && c.case_no % 3 == 2) { op.special(c.rng, in.p, op.nin - op.args); c.event("special floating values"); }
  for (size_t k = 0; k < in.n; ++k) { c.h ^= in.p[k]; c.h *= 1099511628211ull; if (in.p[k] != in.p[k % op.esize]) c.nontrivial = true; }
#ifndef MON_PLAIN
  Block out(op.nout * op.esize), keep(in.n);
  std::memcpy(keep.p, in.p, in.n);
#ifdef MON_ASAN
  std::memset(out.p, 0xFF, out.n);
#endif
#ifdef MON_MSAN
  __msan_poison(out.p, out.n);
#endif
  const Outcome o = call(op, in.p, out.p);
#ifdef MON_MSAN
  struct Clean { Block& b; ~Clean() { __msan_unpoison(b.p, b.n); } } clean{out};
#endif
  if (o == Outcome::other_exception || (o != Outcome::value && !op.throws)) return c.fail(op.name + " ended with " + str(o));
  if (o == Outcome::value)
  {
#if defined(MON_MSAN)
    if (op.is_ldouble) { for (size_t k = 0; k < op.nout; ++k) __msan_check_mem_is_initialized(out.p + 16 * k, 10); }
    else __msan_check_mem_is_initialized(out.p, out.n);
    c.event("result defined (MemorySanitizer)", op.nout);
#elif defined(MON_VALGRIND)
    for (size_t k = 0; k < op.nout; ++k) if (VALGRIND_CHECK_MEM_IS_DEFINED(out.p + k * op.esize, op.is_ldouble ? 10 : op.esize)) return c.fail(op.name + ": result element " + std::to_string(k) + " is undefined");
    c.event("result defined (valgrind)", op.nout);
#else
    c.event("result inside bounds (AddressSanitizer)", op.nout);
#endif
  }
  else c.event("raised");
  if (std::memcmp(keep.p, in.p, in.n)) return c.fail(op.name + " changed its operands");
  c.event(op.family);
#else
  const size_t G = 4096, n = op.nout * op.esize;
  Block a(in.n + 2 * G), b(n + 2 * G), first(n ? n : 1);
  Outcome o0 = Outcome::value;
  for (int pat = 0; pat < 4; ++pat)
  {
    std::memset(a.p, 0x5A, a.n);
    std::memcpy(a.p + G, in.p, in.n);
    std::memset(b.p, 0xC3, b.n);
    for (size_t k = 0; k < n; ++k) b.p[G + k] = static_cast<unsigned char>(pat == 3 ? k * 37 + 11 : pat == 2 ? 0x7F : pat == 1 ? 0xFF : 0);
    // the frames of a call hold a few matrices of its size
    scribble(pat, std::min<size_t>(600000, 8 * (in.n + n) + 4096));
    const Outcome o = call(op, a.p + G, b.p + G);
    if (o == Outcome::other_exception || (o != Outcome::value && !op.throws)) return c.fail(op.name + " ended with " + str(o));
    for (size_t k = 0; k < G; ++k)
    {
      if (b.p[k] != 0xC3 || b.p[G + n + k] != 0xC3) return c.fail(op.name + " wrote outside its result");
      if (a.p[k] != 0x5A || a.p[G + in.n + k] != 0x5A) return c.fail(op.name + " wrote outside its operands");
    }
    if (std::memcmp(a.p + G, in.p, in.n)) return c.fail(op.name + " changed its operands");
    if (pat == 0) { o0 = o; std::memcpy(first.p, b.p + G, n); continue; }
    if (o != o0) return c.fail(op.name + ": the outcome depends on stale memory");
    if (o == Outcome::value && !same_out(op, first.p, b.p + G)) return c.fail(op.name + ": the result depends on stale memory, " + first_diff(op, first.p, b.p + G));
  }
  if (o0 == Outcome::value) c.event("result independent of stale memory", op.nout);
  else c.event("raised");
  c.event("guard zones intact");
  c.event(op.family);
#endif
}

#ifdef MON_VALGRIND
typedef Shapes<Shape<1, 1>, Shape<1, 3>, Shape<3, 1>, Shape<2, 3>, Shape<3, 3>, Shape<4, 5>, MON_XS> S;
typedef Sizes<1, 2, 3, 4, 5, 7> N;
typedef Shapes<Shape<2, 3>, Shape<3, 3>> S2;
#else
typedef Shapes<Shape<1, 1>, Shape<1, 2>, Shape<3, 1>, Shape<2, 2>, Shape<2, 3>, Shape<3, 2>, Shape<3, 3>, Shape<4, 4>, Shape<5, 3>, Shape<8, 8>, Shape<17, 5>, Shape<33, 34>, Shape<6, 7>, Shape<7, 15>, Shape<65, 66>, Shape<3, 129>, Shape<2, 300>, Shape<260, 2>, MON_XS> S;
typedef Sizes<1, 2, 3, 4, 5, 6, 7, 8, 9, 16, 17, 33, 65, MON_XN> N;
typedef Shapes<Shape<1, 1>, Shape<2, 3>, Shape<3, 3>, Shape<5, 4>, Shape<17, 16>> S2;
#endif
static void reg()
{
#if MON_PART >= 10
  DenseShapes<RegOps, 9, 24>::reg(); DenseSizes<RegSq, 20>::reg();
#elif MON_PART == 0
  each_shape<RegOps, int>(S()); each_size<RegSq, int>(N());
#elif MON_PART == 1
  each_shape<RegOps, double>(S()); each_size<RegSq, double>(N());
#elif MON_PART == 2
  each_shape<RegOps, float>(S()); each_size<RegSq, float>(N());
#elif MON_PART == 3
  each_shape<RegOps, unsigned>(S()); each_size<RegSq, unsigned>(N());
#elif MON_PART == 4
  each_shape<RegOps, short>(S2()); each_shape<RegOps, unsigned char>(S2()); each_shape<RegOps, long>(S2()); each_shape<RegOps, unsigned long>(S2()); each_shape<RegOps, signed char>(S2());
#else
  each_size<RegSq, long>(Sizes<1, 2, 3, 4, 5, 8>());
#ifndef MON_MSAN
  each_shape<RegOps, long double>(S2()); each_size<RegSq, long double>(Sizes<1, 2, 3, 4, 5, 8>());
#endif
#endif
  for (auto& o : ops())
  {
    // sums of squares leave the range of one byte
    if (o.esize == 1 && (o.family == std::string("var") || o.family == std::string("stddev"))) continue;
#ifdef MON_MSAN
    if (o.heap) continue;
#endif
    add(o.name, &unit, &o, w_cost(double(o.nin) * (o.kind == In::any ? 1 : 10), 400));
  }
}
MON_MAIN(reg)
