// C11: masks of the rcfile against many channel labels, through RcFile::read().
#include "lw.h"
#include <fstream>
#include <memory>

static bool eq(char a, char b) { return toupper((unsigned char)a) == toupper((unsigned char)b); }
// The definition: '*' is any sequence, everything else is itself, ignoring case.
static bool glob(std::string const& m, std::string const& l)
{
  std::vector<std::vector<char>> t(m.size() + 1, std::vector<char>(l.size() + 1, 0));
  t[0][0] = 1;
  for (size_t i = 1; i <= m.size(); ++i)
    for (size_t j = 0; j <= l.size(); ++j)
      t[i][j] = m[i - 1] == '*' ? (t[i - 1][j] || (j && t[i][j - 1])) : (j && t[i - 1][j - 1] && eq(m[i - 1], l[j - 1]));
  return t[m.size()][l.size()];
}

static std::vector<std::string> labels;
static std::vector<libcwd::Channel*> chans;

static void run(std::string const& value, std::vector<std::string> const& masks, char const* keyword, bool initially_on)
{
  if (!vx::take()) return;
  std::string d = std::string(initially_on ? "channels_default = on, " : "channels_default = off, ") + keyword + " = " + value;
  if (vx::verbose()) vx::describe(d);
  {
    std::ofstream f("rc");
    f << "silent = on\nchannels_default = " << (initially_on ? "on" : "off") << '\n' << keyword << " = " << value << '\n';
  }
  std::string err;
  lw::fresh([&] {
    libcwd::RcFile rc;
    rc.read();
    std::string bits;
    for (unsigned i = 0; i < labels.size() && err.empty(); ++i)
    {
      if (labels[i] == "ELFUTILS") continue;    // Special: C10.
      bool want = initially_on;
      for (auto const& m : masks)
        if (glob(m, labels[i])) want = !strcmp(keyword, "channels_on") ? true : !strcmp(keyword, "channels_off") ? false : !want;
      bool got = chans[i]->is_on();
      ++vx::g.evals;
      bits += got ? '1' : '0';
      if (got != want) err = "channel \"" + labels[i] + "\" is " + (got ? "on" : "off");
    }
    ++vx::g.traces; ++vx::g.transitions;
    vx::outcome(bits);
    vx::state(vx::hash(d));
  });
  if (!err.empty()) { vx::describe(d); vx::fail(d, err); }
  if (vx::g.samples.empty() && value.size() > 3) vx::sample(d);
}

int main(int argc, char** argv)
{
  vx::init(argc, argv);
  setenv("LIBCWD_RCFILE_NAME", "rc", 1);
  Debug(main_reached());
  // Labels: all strings over {A,b} of length 1..4, alternating the case of equal letters by position, and some others.
  for (int len = 1; len <= 4; ++len)
    for (int k = 0; k < 1 << len; ++k)
    {
      std::string s;
      for (int i = 0; i < len; ++i) s += (k >> i & 1) ? ((i + k) & 1 ? 'b' : 'B') : ((i + k) & 1 ? 'A' : 'a');
      labels.push_back(s);
    }
  for (auto s : {"AABAAB", "abababab", "BBBBBBBA", "A*B", "*", "A.B", "?", "[A]"}) labels.push_back(s);
  // Every other printable character, as label and as mask, must only match itself (or the same letter).
  std::string rest;
  for (int c = 33; c < 127; ++c) if (!strchr("#,*?aAbB", c) && c != toupper(c)) rest += (char)c;
  for (char const* c = "!$%&'()+-./09:;<=>@[\\]^_`{|}~"; *c; ++c) rest += *c;
  for (char c : rest) labels.push_back(std::string(1, c));
  // Number of channels is limited by the library's tables.
  for (auto const& s : labels)
    chans.push_back(lw::new_channel(s.c_str()));
  std::vector<std::string> masks;
  static char const al[] = {'A', 'b', '*', 'a'};
  unsigned maxlen = vx::g.thorough ? 7 : 5;
  for (unsigned n : {3u, 4u})
    vx::sequences(n, n == 3 ? 1 : 1, n == 3 ? maxlen : maxlen - 1, [&](std::vector<unsigned> const& v) {
      std::string s; bool has4 = false;
      for (unsigned k : v) { s += al[k]; has4 |= k == 3; }
      if (n == 4 && !has4) return;
      masks.push_back(s);
    });
  for (auto s : {"?", "[A]", "A.B", "A?B", "a**b", "*******", "*A*A*A*A*A*B", "AABAABX", "*ABABABAB", "ABABABAB*", "\\*", "ELF*"}) masks.push_back(s);
  for (int c = 33; c < 256; ++c) if (!strchr("#,*", c) && c != 127) for (auto& pat : {"x", "*x", "x*", "xx"}) { std::string m; for (char const* p = pat; *p; ++p) m += *p == 'x' ? (char)c : *p; masks.push_back(m); }
  for (auto const& m : masks)
    for (char const* kw : {"channels_on", "channels_off", "channels_toggle"})
      run(m, {m}, kw, kw[9] == 'o' && kw[10] == 'f');
  // Lists of two and three masks with all separators.
  static char const* seps[] = {",", " ", ", ", "\t", " ,\v", ",,"};
  std::vector<std::string> small = {"A", "b*", "*a", "*", "aB", "A*B", "x"};
  for (auto const& a : small) for (auto const& b : small)
    for (auto s : seps) for (char const* kw : {"channels_on", "channels_off", "channels_toggle"})
    {
      run(a + s + b, {a, b}, kw, kw[10] == 'f');
      run(s + a + s + b + s + a, {a, b, a}, kw, kw[9] == 't');
    }
  vx::done();
}
