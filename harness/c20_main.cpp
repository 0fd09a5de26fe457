// C20, third translation unit: the sink.  One line per call: its name and the
// raw bits of its result (any NaN is written as "nan").
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include "matrix.hpp"
extern "C" void c20_tu1(int); extern "C" void c20_tu2(int);
static unsigned long long g_seed = 0;
extern "C" unsigned long long c20_seed() { return g_seed; }
static bool g_open = false;
extern "C" void c20_line(const char* op, const char* type, int r, int c, int k) { std::printf("%s%s/%s/%dx%d#%d ", g_open ? "\n" : "", op, type, r, c, k); g_open = true; }
extern "C" void c20_note(const char* what) { std::printf("%s", what); if (!*what) { std::printf("\n"); g_open = false; std::fflush(stdout); } }
extern "C" void c20_bits(const void* p, unsigned long bytes, int f)
{
  bool nan = false;
  if (f == 1) { float v; std::memcpy(&v, p, 4); nan = v != v; }
  if (f == 2) { double v; std::memcpy(&v, p, 8); nan = v != v; }
  if (f == 3) { long double v; std::memcpy(&v, p, 10); nan = v != v; }
  if (nan) { std::printf("nan "); return; }
  for (unsigned long k = bytes; k-- > 0; ) std::printf("%02x", static_cast<const unsigned char*>(p)[k]);
  std::printf(" ");
}
int main(int argc, char** argv)
{
  const int cases = argc > 1 ? std::atoi(argv[1]) : 4;
  if (argc > 2) g_seed = std::strtoull(argv[2], nullptr, 10) * 1000000007ull;
  const mlib::Matrix<double, 2, 2> I = mlib::eye<double, 2>();      // this unit uses the library as well
  if (!mlib::isIdentity(I)) return 4;
  std::printf("%%TU 1\n"); c20_tu1(cases); std::printf("\n"); g_open = false;
  std::fflush(stdout);
  std::printf("%%TU 2\n"); c20_tu2(cases); std::printf("\n");
  return 0;
}
