// Forced in front of the benchmark programs: their random_device becomes a
// generator seeded from MON_BENCH_SEED, so that a run can be repeated, and the
// engines they draw from yield their extreme values unusually often (never in
// every third seed, in one draw of eight, or in every other draw).
#include <algorithm>
#include <cstdlib>
#include <random>
namespace std
{
inline unsigned long long mon_bench_seed()
{
  return std::getenv("MON_BENCH_SEED") ? std::strtoull(std::getenv("MON_BENCH_SEED"), nullptr, 10) : 0;
}
inline unsigned long long mon_bench_next()
{
  static unsigned long long s = mon_bench_seed() * 7919 + 1;
  s += 0x9E3779B97F4A7C15ull;
  unsigned long long x = s;
  x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ull;
  x = (x ^ (x >> 27)) * 0x94D049BB133111EBull;
  return x ^ (x >> 31);
}
struct mon_random_device
{
  typedef unsigned int result_type;
  mon_random_device() {}
  template <class S> explicit mon_random_device(const S&) {}
  static constexpr result_type min() { return 0; }
  static constexpr result_type max() { return ~0u; }
  double entropy() const { return 32; }
  result_type operator()() { return static_cast<result_type>(mon_bench_next()); }
};
template <class E> struct mon_engine : E
{
  using E::E;
  typedef typename E::result_type result_type;
  result_type operator()()
  {
    const result_type v = E::operator()();
    const unsigned long long mode = mon_bench_seed() % 3, x = mode ? mon_bench_next() >> 8 : 0;
    if (mode == 0 || (x % (mode == 1 ? 8 : 2)) != 0)
      return v;
    return (x & 4096) ? E::max() : E::min();
  }
};
typedef mon_engine<default_random_engine> mon_default_random_engine;
typedef mon_engine<mt19937> mon_mt19937;
typedef mon_engine<mt19937_64> mon_mt19937_64;
typedef mon_engine<minstd_rand> mon_minstd_rand;
}
#define random_device mon_random_device
#define default_random_engine mon_default_random_engine
#define mt19937 mon_mt19937
#define mt19937_64 mon_mt19937_64
#define minstd_rand mon_minstd_rand
