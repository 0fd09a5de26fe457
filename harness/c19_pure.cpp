// C19: purity.  A case is a set of calls (operation, element type, shape,
// operands); operands live in pages that are made read-only.  The reference of
// every call is its outcome as the FIRST library call of a fresh process.
//   history:    one process makes all calls several times, in random orders,
//               failing ones in between, the stack scribbled before each;
//   many:       one operation, hundreds of operands (among them pairs that differ
//               in one element or in the order of two), each copied in turn to the
//               same address; thousands of calls in one process, in two orders;
//   concurrent: eight threads make all calls at the same time, on the same
//               operands, in different orders.
// Every outcome has to be the reference, bit for bit.  Under ThreadSanitizer
// (no fresh processes there) the same threads run inside the harness.
#include "allops.hpp"
#include <atomic>
#include <cfenv>
#include <clocale>
#include <cstdlib>
#include <exception>
#include <new>
#include <memory>
#include <sys/wait.h>
#include <thread>
#if defined(__has_feature)
#if __has_feature(thread_sanitizer)
#define MON_TSAN 1
#endif
#endif
using namespace mon;

static std::vector<size_t> g_by_kind[2];   // indices of ops: 0 all, 1 raising ones

struct Pages
{
  unsigned char* p; size_t n;
  explicit Pages(size_t bytes, bool shared = false) : n((bytes + 4095) / 4096 * 4096 + 4096)
  {
    void* q = ::mmap(nullptr, n, PROT_READ | PROT_WRITE, (shared ? MAP_SHARED : MAP_PRIVATE) | MAP_ANONYMOUS, -1, 0);
    if (q == MAP_FAILED) { std::perror("mmap"); std::exit(3); }
    p = static_cast<unsigned char*>(q);
  }
  void freeze() { if (::mprotect(p, n, PROT_READ)) { std::perror("mprotect"); std::exit(3); } }
  ~Pages() { ::munmap(p, n); }
  Pages(const Pages&) = delete;
};
struct Call { const Op* op; const unsigned char* in; size_t slot; };   // slot: offset of its result
struct Shared { volatile int status; volatile int which; volatile int how; char msg[240]; };
enum { kOutcome = 16 };                                                 // bytes before a result

__attribute__((noinline)) static void scribble(u64 pat, size_t bytes)
{
  volatile unsigned char* p = static_cast<volatile unsigned char*>(__builtin_alloca(bytes));
  for (size_t k = 0; k < bytes; ++k) p[k] = static_cast<unsigned char>(pat >> (8 * (k & 7)));
}
static void make(const Call& c, unsigned char* to)
{
  const Outcome o = outcome([&] { c.op->run(c.in, to + kOutcome); });
  *reinterpret_cast<u64*>(to) = static_cast<u64>(o);
}
static bool agrees(const Call& c, const unsigned char* ref, const unsigned char* got)
{
  const u64 a = *reinterpret_cast<const u64*>(ref), b = *reinterpret_cast<const u64*>(got);
  return a == b && (a != static_cast<u64>(Outcome::value) || same_out(*c.op, ref + kOutcome, got + kOutcome));
}
static size_t slot_size(const Op& op) { return (kOutcome + op.nout * op.esize + 63) / 64 * 64; }

// what a program shares with the library besides operands and results
struct Globals
{
  unsigned next; int traps; std::string loc; std::terminate_handler th; std::new_handler nh;
  Globals() : next(0), traps(::fegetexcept()), loc(std::setlocale(LC_ALL, nullptr)), th(std::get_terminate()), nh(std::get_new_handler())
  {
    std::srand(20261118); next = static_cast<unsigned>(std::rand()); std::srand(20261118);
  }
  // draws the first number of the sequence and starts it again
  int changed() const
  {
    const unsigned got = static_cast<unsigned>(std::rand());
    std::srand(20261118);
    return got != next ? 1 : ::fegetexcept() != traps ? 2 : loc != std::setlocale(LC_ALL, nullptr) ? 3 : std::get_terminate() != th || std::get_new_handler() != nh ? 4 : 0;
  }
};

// runs f in a child process; false (and a message) when the child did not end normally
template <class F> static bool in_child(F f, std::string& why)
{
  std::fflush(nullptr);
  const pid_t pid = ::fork();
  if (pid < 0) { std::perror("fork"); std::exit(3); }
  if (pid == 0) { f(); ::_exit(0); }
  int st = 0;
  while (::waitpid(pid, &st, 0) < 0) {}
  if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return true;
  if (WIFEXITED(st) && WEXITSTATUS(st) == 3) std::exit(3);
  why = WIFSIGNALED(st) ? std::string("killed by signal ") + std::to_string(WTERMSIG(st)) + " (11: writes to an operand, or a wild access)" : "exit status " + std::to_string(WEXITSTATUS(st));
  return false;
}

struct Plan { char kind; const Op* focus; };
#ifndef MON_TSAN
static void many(Ctx& c, const Op& op)
{
  const size_t nb = op.nin * op.esize, body = op.nin - op.args;
  const size_t K = std::max<size_t>(3, std::min<size_t>(300, 12000 / (op.nin + 1)));
  Pages in(K * nb), ref(K * slot_size(op), true), shp(sizeof(Shared), true);
  Shared* sh = reinterpret_cast<Shared*>(shp.p);
  for (size_t k = 0; k < K; ++k)
  {
    unsigned char* p = in.p + k * nb;
    // close relatives of earlier operands where any input is valid
    if (k && op.kind == In::any && op.family != std::string("det") && c.rng.chance(1, 2))
    {
      std::memcpy(p, in.p + c.rng.below(k) * nb, nb);
      const size_t x = c.rng.below(body), y = c.rng.below(body);
      if (c.rng.chance(1, 2)) for (size_t b = 0; b < op.esize; ++b) std::swap(p[x * op.esize + b], p[y * op.esize + b]);
      else { std::vector<unsigned char> fresh(nb); op.gen(op, c.rng, fresh.data()); std::memcpy(p + x * op.esize, fresh.data() + x * op.esize, op.esize); }
    }
    else
    {
      op.gen(op, c.rng, p);
      if (op.nan_ok && c.rng.chance(1, 6)) op.special(c.rng, p, body);
    }
    for (size_t b = 0; b < nb; ++b) { c.h ^= p[b]; c.h *= 1099511628211ull; }
  }
  c.nontrivial = true;
  in.freeze();
  c.event("operands in read-only pages", K);
  std::string why;
  // first order: every operand where it lies
  auto forward = [&] { for (size_t k = 0; k < K; ++k) make(Call{&op, in.p + k * nb, 0}, ref.p + k * slot_size(op)); };
  if (!in_child(forward, why)) return c.fail(op.name + ", many calls: " + why);
  const u64 seed = c.rng.next();
  const size_t calls = std::max<size_t>(2 * K, std::min<size_t>(c.case_no == 0 ? 70000 : 3000, 700000 / (op.nin * op.nin / std::max<size_t>(op.r, 1) + op.nin + 1)));
  auto mixed = [&] {
    Rng r(seed);
    std::vector<unsigned char> work(nb + 64), got(slot_size(op));
    unsigned char* a = work.data() + (64 - reinterpret_cast<std::uintptr_t>(work.data()) % 64) % 64;
    for (size_t q = 0; q < calls; ++q)
    {
      const size_t k = q < K ? K - 1 - q : r.below(K);
      const unsigned char* x = in.p + k * nb;
      if (q % 4 != 3) { std::memcpy(a, x, nb); make(Call{&op, a, 0}, got.data()); if (std::memcmp(a, x, nb)) { sh->status = 2; sh->which = static_cast<int>(k); break; } }
      else make(Call{&op, x, 0}, got.data());
      if (!agrees(Call{&op, x, 0}, ref.p + k * slot_size(op), got.data())) { sh->status = 1; sh->which = static_cast<int>(k); sh->how = static_cast<int>(q); break; }
    }
  };
  if (!in_child(mixed, why)) return c.fail(op.name + ", " + std::to_string(calls) + " calls in one process: " + why);
  if (sh->status == 1) return c.fail(op.name + ": the outcome for operands number " + std::to_string(static_cast<int>(sh->which)) + " differs after " + std::to_string(static_cast<int>(sh->how)) + " other calls of the same operation");
  if (sh->status) return c.fail(op.name + " changed its operand");
  c.event(op.family);
  c.event("call among many, outcome as in another order", calls);
}
#endif
static void unit(Ctx& c, const void* t)
{
  const Plan& plan = *static_cast<const Plan*>(t);
#ifndef MON_TSAN
  if (plan.kind == 'm') return many(c, *plan.focus);
#endif
  const bool threads = plan.kind == 'c';
  const size_t ncalls = 4 + c.rng.below(9);
  std::vector<Call> calls;
  size_t in_bytes = 0, out_bytes = 0;
  for (size_t k = 0; k < ncalls; ++k)
  {
    // one operation often appears several times, with other operands; some calls raise
    const Op* op;
    if (k < 2 && plan.focus) op = plan.focus;
    else if (k && c.rng.chance(1, 3)) op = calls[c.rng.below(k)].op;
    else if (c.rng.chance(1, 5)) op = &ops()[g_by_kind[1][c.rng.below(g_by_kind[1].size())]];
    else op = &ops()[g_by_kind[0][c.rng.below(g_by_kind[0].size())]];
    calls.push_back(Call{op, nullptr, out_bytes});
    in_bytes += (op->nin * op->esize + 63) / 64 * 64;
    out_bytes += slot_size(*op);
  }
  Pages in(in_bytes);
  size_t at = 0;
  for (auto& x : calls)
  {
    x.op->gen(*x.op, c.rng, in.p + at);
    if (x.op->nan_ok && c.rng.chance(1, 4)) x.op->special(c.rng, in.p + at, x.op->nin - x.op->args);
    x.in = in.p + at;
    c.h ^= hash_str(x.op->name.c_str());
    for (size_t k = 0; k < x.op->nin * x.op->esize; ++k) { c.h ^= x.in[k]; c.h *= 1099511628211ull; }
    at += (x.op->nin * x.op->esize + 63) / 64 * 64;
  }
  c.nontrivial = true;
  in.freeze();
  c.event("operands in read-only pages", ncalls);
  Pages ref(out_bytes, true), shp(sizeof(Shared), true);
  Shared* sh = reinterpret_cast<Shared*>(shp.p);
  std::string why;
  // references
#ifdef MON_TSAN
  for (auto& x : calls) make(x, ref.p + x.slot);
#else
  for (auto& x : calls)
    if (!in_child([&] { make(x, ref.p + x.slot); }, why)) return c.fail(x.op->name + ", first call of a process: " + why);
#endif
  for (auto& x : calls)
  {
    const u64 o = *reinterpret_cast<const u64*>(ref.p + x.slot);
    if (o == static_cast<u64>(Outcome::other_exception) || (o == static_cast<u64>(Outcome::overflow_error) && !x.op->throws)) return c.fail(x.op->name + " ended with " + str(static_cast<Outcome>(o)));
    if (o != static_cast<u64>(Outcome::value)) c.event("failing call");
    c.event(x.op->family);
  }
  const u64 seed = c.rng.next();
  if (!threads)
  {
    const int rounds = 3;
    auto body = [&] {
      Rng r(seed);
      std::vector<size_t> order;
      for (int k = 0; k < rounds; ++k) for (size_t q = 0; q < calls.size(); ++q) order.push_back(q);
      for (size_t k = order.size(); k-- > 1; ) std::swap(order[k], order[r.below(k + 1)]);
      std::vector<unsigned char> buf, work(in_bytes + 512);
      const Globals before;
      for (size_t k = 0; k < order.size(); ++k)
      {
        const Call& x = calls[order[k]];
        buf.assign(slot_size(*x.op), static_cast<unsigned char>(r.next()));
        if (r.chance(2, 3)) scribble(r.next(), 256 + r.below(60000));
        if (r.chance(1, 2))
        {
          // the same operands at another place, where others were before
          const size_t nb = x.op->nin * x.op->esize;
          unsigned char* a = work.data() + (64 - reinterpret_cast<std::uintptr_t>(work.data()) % 64) % 64 + r.below(9) * x.op->esize;
          std::memcpy(a, x.in, nb);
          make(Call{x.op, a, 0}, buf.data());
          if (std::memcmp(a, x.in, nb)) { sh->status = 3; sh->which = static_cast<int>(order[k]); break; }
        }
        else make(x, buf.data());
        if (!agrees(x, ref.p + x.slot, buf.data())) { sh->status = 1; sh->which = static_cast<int>(order[k]); sh->how = static_cast<int>(k); break; }
        if (const int g = before.changed()) { sh->status = 3 + g; sh->which = static_cast<int>(order[k]); break; }
        if (std::fegetround() != FE_TONEAREST) { sh->status = 2; sh->which = static_cast<int>(order[k]); break; }
      }
    };
#ifdef MON_TSAN
    body();
#else
    if (!in_child(body, why)) return c.fail("a history of " + std::to_string(calls.size()) + " calls starting with " + calls[0].op->name + " made the process end: " + why);
#endif
    if (sh->status == 1) return c.fail(calls[static_cast<size_t>(sh->which)].op->name + ": outcome differs from that of the same call in a fresh process, after " + std::to_string(static_cast<int>(sh->how)) + " other calls");
    if (sh->status) return c.fail(calls[static_cast<size_t>(sh->which)].op->name + (sh->status == 2 ? " changed the rounding mode" : sh->status == 3 ? " changed its operand" : sh->status == 4 ? " drew from or seeded the program's std::rand" : sh->status == 5 ? " changed the floating-point traps" : sh->status == 6 ? " changed the locale" : " replaced a handler of the program"));
    c.event("process-wide settings unchanged", rounds * calls.size());
    c.event("call in a history, outcome as in a fresh process", rounds * calls.size());
  }
  else
  {
    const unsigned T = 8;
    std::atomic<u64> overlaps(0);
#ifdef MON_TSAN
    const int rounds = 2;
#else
    const int rounds = 12;
#endif
    u64* ov = reinterpret_cast<u64*>(shp.p + 512);
    auto body = [&] {
      std::atomic<unsigned> ready(0), inside(0);
      std::atomic<int> bad(-1);
      u64 local = 0;
      std::atomic<u64> seen(0);
      auto worker = [&](unsigned id) {
        Rng r(seed + (c.case_no % 2 ? id : 0));     // odd cases: different orders; even: everybody makes the same call at once
        std::vector<std::vector<unsigned char>> buf;
        for (auto& x : calls) buf.emplace_back(slot_size(*x.op), static_cast<unsigned char>(id));
        ready.fetch_add(1);
        while (ready.load() < T) std::this_thread::yield();
        for (int k = 0; k < rounds; ++k) for (size_t q = 0; q < calls.size(); ++q)
        {
          const size_t w = r.below(calls.size());
          const unsigned others = inside.fetch_add(1, std::memory_order_relaxed);
          make(calls[w], buf[w].data());
          inside.fetch_sub(1, std::memory_order_relaxed);
          if (others) seen.fetch_add(1, std::memory_order_relaxed);
          if (!agrees(calls[w], ref.p + calls[w].slot, buf[w].data())) bad.store(static_cast<int>(w), std::memory_order_relaxed);
        }
      };
      std::vector<std::thread> th;
      for (unsigned id = 0; id < T; ++id) th.emplace_back(worker, id);
      for (auto& x : th) x.join();
      local = seen.load();
      *ov = local;
      if (bad.load() >= 0) { sh->status = 1; sh->which = bad.load(); }
    };
#ifdef MON_TSAN
    body();
#else
    if (!in_child(body, why)) return c.fail("concurrent calls starting with " + calls[0].op->name + " made the process end: " + why);
#endif
    if (sh->status) return c.fail(calls[static_cast<size_t>(sh->which)].op->name + ": outcome of a concurrent call differs from that of the same call alone");
    c.event("concurrent call, outcome as alone", static_cast<u64>(T) * rounds * calls.size());
    c.event("calls that overlapped another", *ov);
  }
}

typedef Shapes<Shape<1, 1>, Shape<2, 2>, Shape<2, 3>, Shape<3, 3>, Shape<4, 5>, Shape<8, 8>, Shape<16, 17>, Shape<33, 40>, Shape<64, 65>, Shape<2, 140>, Shape<150, 3>, MON_XS> S;
typedef Sizes<1, 2, 3, 4, 5, 6, 8, 16, 33, 64, MON_XN> N;
static void reg()
{
#if MON_PART == 0
  each_shape<RegOps, int>(S()); each_size<RegSq, int>(N());
#elif MON_PART == 1
  each_shape<RegOps, double>(S()); each_size<RegSq, double>(N());
#elif MON_PART == 2
  each_shape<RegOps, float>(S()); each_size<RegSq, float>(N());
#else
  each_shape<RegOps, unsigned>(S()); each_size<RegSq, unsigned>(N()); each_shape<RegOps, long>(S());
#endif
  // every operation at every shape gets its own unit, in which it is called most
  for (size_t k = 0; k < ops().size(); ++k)
  {
    const Op& o = ops()[k];
    if (o.nin > 700 && (o.family == std::string("inv") || o.family == std::string("pow negative"))) continue;
    g_by_kind[0].push_back(k);
    if (o.throws) g_by_kind[1].push_back(k);
  }
  static std::vector<Plan> plans;
  plans.reserve(3 * g_by_kind[0].size() + 2);
  auto plan = [&](const std::string& name, char kind, const Op* focus, double w) { plans.push_back(Plan{kind, focus}); add(name, &unit, &plans.back(), w); };
  plan("history", 'h', nullptr, 1);
  plan("concurrent", 'c', nullptr, 0.4);
  for (size_t k : g_by_kind[0])
  {
    const Op& o = ops()[k];
#ifndef MON_TSAN
    plan("history of " + o.name, 'h', &o, 0.004);
    plan("many " + o.name, 'm', &o, 0.002);
#endif
    plan("concurrent " + o.name, 'c', &o, 0.004);
  }
}
MON_MAIN(reg)
