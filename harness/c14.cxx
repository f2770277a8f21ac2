// C14: char2str / buf2str on all bytes, all pairs, all short buffers over representatives, several stream states.
#include "cwd_sys.h"
#include <libcwd/debug.h>
#include <libcwd/char2str.h>
#include <libcwd/buf2str.h>
#include "vx.h"
#include <iomanip>
#include <memory>
#include <sstream>
#include <string_view>
using libcwd::buf2str;
using libcwd::char2str;

// The reference: what one byte looks like.
static std::string ref(unsigned char c)
{
  switch (c)
  {
    case 7: return "\\a"; case 8: return "\\b"; case 9: return "\\t"; case 10: return "\\n"; case 11: return "\\v";
    case 12: return "\\f"; case 13: return "\\r"; case 27: return "\\e"; case '\\': return "\\\\";
  }
  if (c >= 0x20 && c <= 0x7e) return std::string(1, (char)c);
  static char const* H = "0123456789ABCDEF";
  return std::string("\\x") + H[c >> 4] + H[c & 15];
}
static std::string ref(std::string const& s) { std::string r; for (char c : s) r += ref((unsigned char)c); return r; }

static char const* state_names[] = {"default", "hex|showbase|uppercase", "width 12 left fill *", "oct boolalpha precision 2", "width 3 internal"};
static int const nstates = 5;
static void prepare(std::ostream& os, int st)
{
  switch (st)
  {
    case 1: os << std::hex << std::showbase << std::uppercase; break;
    case 2: os << std::setfill('*') << std::left << std::setw(12); break;
    case 3: os << std::oct << std::boolalpha << std::setprecision(2); break;
    case 4: os << std::internal << std::setw(3); break;
  }
}
static std::string hexs(std::string const& s) { std::string r; char b[8]; for (unsigned char c : s) { snprintf(b, sizeof b, "%02x ", c); r += b; } return r; }

template <class F>
static void one(char const* what, std::string const& in, int st, F print)
{
  if (!vx::take()) return;
  std::ostringstream os;
  prepare(os, st);
  auto flags = os.flags(); auto fill = os.fill(); auto prec = os.precision();
  print(os);
  std::string got = os.str(), want = ref(in);
  ++vx::g.transitions; ++vx::g.traces; ++vx::g.evals;
  vx::state(vx::hash(in, st + 1));
  vx::outcome(got);
  std::string d = std::string(what) + " of bytes " + hexs(in) + "stream state: " + state_names[st];
  if (vx::verbose()) vx::describe(d);
  if (got != want) { vx::describe(d); vx::fail(d, "printed \"" + got + "\" instead of \"" + want + "\""); }
  if (os.flags() != flags || os.fill() != fill || os.precision() != prec || !os.good()) { vx::describe(d); vx::fail(d, "stream formatting state changed"); }
  if (vx::g.samples.empty() && in.size() > 1) vx::sample(d + " -> " + got);
}

int main(int argc, char** argv)
{
  vx::init(argc, argv);
  auto exact = [](std::string const& s) { std::unique_ptr<char[]> p(new char[s.size() ? s.size() : 1]); memcpy(p.get(), s.data(), s.size()); return p; };
  for (int st = 0; st < nstates; ++st)
    for (int c = 0; c < 256; ++c)
    {
      one("char2str", std::string(1, (char)c), st, [c](std::ostream& os) { os << char2str((char)c); });
      one("char2str from char variable", std::string(1, (char)c), st, [c](std::ostream& os) { char const v = (char)c; char2str const x(v); os << x; });
    }
  auto buffer = [&](std::string const& s, int st) {
    auto p = exact(s);
    one("buf2str(ptr,size)", s, st, [&](std::ostream& os) { os << buf2str(p.get(), s.size()); });
    if (s.size() <= 2) {
      one("buf2str(string)", s, st, [&](std::ostream& os) { os << buf2str(s); });
      one("buf2str(string_view)", s, st, [&](std::ostream& os) { os << buf2str(std::string_view(p.get(), s.size())); });
      one("buf2str twice", s + s, st, [&](std::ostream& os) { buf2str b(p.get(), s.size()); os << b << b; });
    }
  };
  for (int st = 0; st < nstates; ++st) buffer("", st);
  for (int st = 0; st < nstates; ++st)
    for (int a = 0; a < 256; ++a)
      for (int b = 0; b < 256; ++b) buffer(std::string{(char)a, (char)b}, st);
  static unsigned char const rep[] = {0, 1, 6, 7, 10, 13, 14, 26, 27, 28, 31, 32, '0', 'A', 'n', 'x', '\\', 126, 127, 128, 159, 160, 200, 255};
  unsigned const n = sizeof rep;
  vx::sequences(n, 3, vx::g.thorough ? 5 : 4, [&](std::vector<unsigned> const& v) {
    std::string s;
    for (unsigned k : v) s += (char)rep[k];
    buffer(s, v.size() == 3 ? 1 : 0);
  });
  // Long buffers: every position of a special byte in a long run.
  for (unsigned len : {255u, 256u, 257u, 4096u, 70000u})
    for (int sp : {0, 10, 92, 255})
      for (unsigned pos : {0u, 1u, len / 2, len - 1}) { std::string s(len, 'a'); s[pos] = (char)sp; buffer(s, 0); }
  vx::done();
}
