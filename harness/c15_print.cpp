// C15: print.  The stream buffer of std::cout is replaced by a recording one;
// the recorded text is parsed and compared, token by token, with what the
// stream itself makes of each element under the same settings.
#include "shapes.hpp"
#include <iostream>
#include <iomanip>
#include <locale>
using namespace mon;

template <class T> struct Table { size_t r, c; void (*print)(const T*); };
template <class T, size_t R, size_t C> void f_print(const T* a) { mlib::print(as<R, C>(a)); }

struct Grouping : std::numpunct<char>
{
  char do_thousands_sep() const override { return '\''; }
  std::string do_grouping() const override { return "\3"; }
  char do_decimal_point() const override { return ','; }
};
struct Settings { std::ios_base::fmtflags flags; std::streamsize prec, width; char fill; std::string loc; };
static Settings settings() { return Settings{std::cout.flags(), std::cout.precision(), std::cout.width(), std::cout.fill(), std::cout.getloc().name()}; }
static bool operator==(const Settings& a, const Settings& b) { return a.flags == b.flags && a.prec == b.prec && a.width == b.width && a.fill == b.fill && a.loc == b.loc; }

struct Capture
{
  std::ostringstream buf;
  std::streambuf* old;
  Capture() : old(std::cout.rdbuf(buf.rdbuf())) {}
  ~Capture() { std::cout.rdbuf(old); }
};
struct Restore
{
  std::ios keep;
  Restore() : keep(nullptr) { keep.copyfmt(std::cout); }
  ~Restore() { std::cout.copyfmt(keep); std::cout.clear(); }
};
static std::vector<std::string> split(const std::string& line)
{
  std::vector<std::string> t;
  size_t i = 0;
  while (i < line.size())
  {
    while (i < line.size() && (line[i] == ' ' || line[i] == '\t')) ++i;
    size_t j = i;
    while (j < line.size() && line[j] != ' ' && line[j] != '\t') ++j;
    if (j > i) t.push_back(line.substr(i, j - i));
    i = j;
  }
  return t;
}
static void vary(Ctx& c)
{
  using std::cout;
  switch (c.rng.below(12))
  {
    case 0: cout << std::fixed; break;
    case 1: cout << std::scientific; break;
    case 2: cout << std::hex << std::showbase; break;
    case 3: cout << std::oct; break;
    case 4: cout << std::showpos; break;
    case 5: cout << std::uppercase << std::scientific; break;
    case 6: cout << std::showpoint; break;
    case 7: cout.imbue(std::locale(std::locale::classic(), new Grouping)); break;
    case 8: cout << std::hex << std::uppercase; break;
    case 9: cout << std::boolalpha; break;
    default: break;
  }
  if (c.rng.chance(2, 3)) { const int p[] = {0, 1, 2, 3, 6, 9, 10, 15, 17, 21}; cout.precision(p[c.rng.below(10)]); }
  if (c.rng.chance(1, 4)) cout.fill('*');
}
template <class T> DM<T> operand(Ctx& c, size_t r, size_t k)
{
  DM<T> A = gen_mat<T>(c.rng, r, k, static_cast<int>(c.case_no % kFams));
  if (sizeof(T) == 1 && !std::is_same<T, bool>::value) for (size_t k = 0; k < A.size(); ++k) A.data()[k] = static_cast<T>(c.rng.range(33, 126));   // visible characters
  return A;
}
template <class T> void unit(Ctx& c, const void* p)
{
  const Table<T>& t = *static_cast<const Table<T>*>(p);
  Restore restore;
  std::vector<DM<T>> ms;
  const size_t prints = 1 + c.rng.below(3);
  vary(c);
  for (size_t k = 0; k < prints; ++k) { ms.push_back(operand<T>(c, t.r, t.c)); c.in(ms.back()); }
  if (t.r * t.c == 1) c.nontrivial = true;
  const Settings before = settings();
  std::string text;
  const std::vector<DM<T>> orig = ms;
  {
    Capture cap;
    for (size_t k = 0; k < prints; ++k) t.print(ms[k].data());
    text = cap.buf.str();
  }
  if (!(settings() == before)) return c.fail("print changed the settings of the stream");
  if (!std::cout.good()) return c.fail("print left the stream in a failed state");
  for (size_t k = 0; k < prints; ++k) if (!same_mat(ms[k], orig[k])) return c.fail("print changed its argument; A=" + dump(orig[k]));
  // lines
  std::vector<std::string> lines;
  size_t at = 0;
  while (at < text.size())
  {
    const size_t nl = text.find('\n', at);
    if (nl == std::string::npos) return c.fail("print: the last line is not ended; text: " + text.substr(0, 400));
    lines.push_back(text.substr(at, nl - at));
    at = nl + 1;
  }
  if (lines.size() != prints * t.r) return c.fail("print wrote " + std::to_string(lines.size()) + " lines for " + std::to_string(prints) + " matrices of " + std::to_string(t.r) + " rows; text: " + text.substr(0, 400));
  std::ostringstream one;
  one.copyfmt(std::cout);
  for (size_t k = 0; k < prints; ++k) for (size_t i = 0; i < t.r; ++i)
  {
    const auto tok = split(lines[k * t.r + i]);
    if (tok.size() != t.c) return c.fail("print: row " + std::to_string(i) + " has " + std::to_string(tok.size()) + " elements instead of " + std::to_string(t.c) + ": " + lines[k * t.r + i].substr(0, 400));
    for (size_t j = 0; j < t.c; ++j)
    {
      one.str("");
      one << orig[k](i, j);
      if (tok[j] != one.str()) return c.fail("print: element (" + std::to_string(i) + "," + std::to_string(j) + ") is written " + tok[j] + ", the stream writes " + one.str() + "; A=" + dump(orig[k]));
    }
    c.event("row printed");
    c.event("elements printed", t.c);
  }
  if (prints > 1) c.event("several prints in a row");
}
template <class T, size_t R, size_t C> struct Reg
{
  static void reg()
  {
    static const Table<T> t = { R, C, &f_print<T, R, C> };
    add(uname<T>("print", R, C), &unit<T>, &t, w_cost(double(R) * C, 40));
  }
};
static void reg()
{
#if MON_PART >= 10
  DenseShapes<Reg>::reg();
#elif MON_PART == 0
  each_shape<Reg, int>(AllShapes()); each_shape<Reg, int>(Huge()); each_shape<Reg, short>(FewShapes());
#elif MON_PART == 1
  each_shape<Reg, unsigned>(FewShapes()); each_shape<Reg, char>(RareShapes()); each_shape<Reg, bool>(RareShapes()); each_shape<Reg, long>(RareShapes()); each_shape<Reg, signed char>(RareShapes()); each_shape<Reg, unsigned char>(RareShapes()); each_shape<Reg, unsigned short>(RareShapes()); each_shape<Reg, std::complex<float>>(RareShapes()); each_shape<Reg, long long>(FewShapes()); each_shape<Reg, unsigned long>(FewShapes());
#elif MON_PART == 2
  each_shape<Reg, float>(AllShapes()); each_shape<Reg, long double>(FewShapes());
#else
  each_shape<Reg, double>(AllShapes()); each_shape<Reg, double>(Huge()); each_shape<Reg, std::complex<double>>(FewShapes());
#endif
}
MON_MAIN(reg)
