// C02: the layout of a line for all subsets of control flags and combinations of settings.
#include "lw.h"
#include <cerrno>
#include <libcwd/strerrno.h>
using namespace libcwd;

struct F { control_flag_t f; char const* name; };
static F const flags[] = {{nonewline_cf, "nonewline_cf"}, {noprefix_cf, "noprefix_cf"}, {nolabel_cf, "nolabel_cf"}, {blank_margin_cf, "blank_margin_cf"}, {blank_label_cf, "blank_label_cf"},
  {blank_marker_cf, "blank_marker_cf"}, {cerr_cf, "cerr_cf"}, {flush_cf, "flush_cf"}, {error_cf, "error_cf"}, {wait_cf, "wait_cf"}};
static unsigned const NF = 10;

struct Set { std::string margin, marker, color_on, color_off; unsigned short indent; bool always_flush; bool to_cerr; };

static std::string const L = "SHORT       ", W = "TWELVE_CHARS";      // Width 12.

static std::string line(Set const& s, control_flag_t f, std::string const& label, std::string const& data, int err, unsigned extra = 0)
{
  std::string r = s.color_on;
  auto blank = [](std::string const& t, bool b) { return b ? std::string(t.size(), ' ') : t; };
  if (!(f & noprefix_cf))
  {
    r += blank(s.margin, f & blank_margin_cf);
    if (!(f & nolabel_cf))
    {
      r += blank(label, f & blank_label_cf);
      r += blank(s.marker, f & blank_marker_cf);
      r += std::string(s.indent + extra, ' ');
    }
  }
  r += data;
  if (f & error_cf) r += std::string(": ") + strerrno(err) + " (" + strerror(err) + ")";
  if (!(f & nonewline_cf)) r += s.color_off + "\n";
  return r;
}

static std::string describe(Set const& s, control_flag_t f, std::string const& data)
{
  std::string r = "flags:";
  for (auto& x : flags) if (f & x.f) r += std::string(" ") + x.name;
  auto cut = [](std::string const& t) { return t.size() > 40 ? lw::quoted(t.substr(0, 20)) + "...(" + std::to_string(t.size()) + ")" : lw::quoted(t); };
  return r + "; margin " + cut(s.margin) + " marker " + cut(s.marker) + " indent " + std::to_string(s.indent) + (s.color_on.empty() ? "" : " colors") + (s.always_flush ? " always_flush" : "") +
    (s.to_cerr ? " set_ostream(&std::cerr)" : "") + " data " + cut(data);
}

static Channel *cs, *cw, *coff;
static lw::Rec rec, erec;
static std::mutex mut;

// Ways in which the flags are combined with channels.
static char const* const forms[] = {"", " [off|flags|on]", " [off|on|flags]", " [on|flags|off]", " [on|flags|other]", " [on|flags, one by one, with a channel that is off in between]", " [off|half of the flags|on|other half]", " [on(true)|flags]", " [off(false)|flags|on]"};
static void dout(int form, control_flag_t f, std::string const& data)
{
  control_flag_t h = f & 0x15555, g = f & ~h;
  auto one = [&](int i) { return f & flags[i].f; };
  switch (form)
  {
    case 0: LibcwDout(libcwd::channels, libcw_do, *cs | f, data); break;
    case 1: LibcwDout(libcwd::channels, libcw_do, *coff | f | *cs, data); break;
    case 2: LibcwDout(libcwd::channels, libcw_do, *coff | *cs | f, data); break;
    case 3: LibcwDout(libcwd::channels, libcw_do, *cs | f | *coff, data); break;
    case 4: LibcwDout(libcwd::channels, libcw_do, *cs | f | *cw, data); break;
    case 5: LibcwDout(libcwd::channels, libcw_do, *cs | one(0) | one(1) | one(2) | one(3) | *coff | one(4) | one(5) | one(6) | one(7) | one(8) | one(9), data); break;
    case 6: LibcwDout(libcwd::channels, libcw_do, *coff | h | *cs | g, data); break;
    case 7: LibcwDout(libcwd::channels, libcw_do, (*cs)(true) | f, data); break;
    case 8: LibcwDout(libcwd::channels, libcw_do, (*cw)(false) | f | *cs, data); break;
  }
}
static void run(Set const& s, control_flag_t f, std::string const& data, int form = 0)
{
  if (!vx::take()) return;
  auto describe = [&](Set const& s, control_flag_t f, std::string const& data) { return ::describe(s, f, data) + forms[form]; };
  if (vx::verbose()) vx::describe(describe(s, f, data));
  std::string err;
  static std::ostream os(&rec);
  lw::fresh([&] {
    rec.clear(); erec.clear();
    libcw_do.set_ostream(s.to_cerr ? &std::cerr : &os, &mut);
    Debug(libcw_do.on()); cs->on(); cw->on(); if (coff->is_on()) coff->off();
    libcw_do.margin().assign(s.margin); libcw_do.marker().assign(s.marker.data(), s.marker.size());
    if (!s.color_on.empty()) { libcw_do.color_on().assign(s.color_on); libcw_do.color_off().assign(s.color_off); }
    libcw_do.set_indent(s.indent);
    if (s.always_flush) libcw_do.always_flush_on();
    std::stringbuf in("abc\nrest\n");
    std::streambuf* oldin = std::cin.rdbuf(&in);
    std::cin.clear();
    errno = 17;
    dout(form, f, data);
    int after = errno;
    std::string mid = rec.marked;
    errno = 0;
    LibcwDout(libcwd::channels, libcw_do, *cw, "Z" << true << 7);
    std::cin.rdbuf(oldin);
    if (s.always_flush) libcw_do.always_flush_off();
    bool ce = (f & cerr_cf) || s.to_cerr;
    std::string first = line(s, f, L, data, 17), wait = f & wait_cf ? "(type return)" : "";
    std::string second = line(s, 0, W, "Ztrue7", 0);
    std::string want_os = (ce ? "" : first + wait) + (s.to_cerr ? "" : second), want_err = (ce ? first + wait : "") + (s.to_cerr ? second : "");
    ++vx::g.evals; ++vx::g.traces; vx::g.transitions += 2;
    if (rec.text != want_os) err = "wrote " + lw::quoted(rec.text) + " instead of " + lw::quoted(want_os);
    else if (erec.text != want_err) err = "wrote to std::cerr " + lw::quoted(erec.text) + " instead of " + lw::quoted(want_err);
    else if (after != 17) err = "errno was changed to " + std::to_string(after);
    else if (!s.to_cerr && !ce && !(f & wait_cf))
    {
      // Flushed after the complete line if asked for, and not otherwise.
      bool fl = (f & flush_cf) || s.always_flush;
      std::string want = first + (fl ? "\1" : "") + wait;
      if (mid != want) err = "flushes: " + lw::quoted(mid) + " instead of " + lw::quoted(want);
    }
    size_t consumed = in.in_avail();
    // With wait_cf the program waits for a complete line of input (of an interactive destination, others are unspecified).
    bool ok = f & wait_cf ? consumed == 5u || (consumed == 9u && !s.to_cerr) : consumed == 9u;
    if (err.empty() && !ok) err = "input consumed: " + std::to_string(9 - consumed) + " characters";
    vx::outcome(rec.marked + "\2" + erec.text);
    vx::state(vx::hash(describe(s, f, data)));
  });
  if (!err.empty()) { vx::describe(describe(s, f, data)); vx::fail(describe(s, f, data), err); }
  if (vx::g.samples.empty() && __builtin_popcount(f) > 3) vx::sample(describe(s, f, data) + " -> " + lw::quoted(rec.text).substr(0, 300));
}

int main(int argc, char** argv)
{
  vx::init(argc, argv);
  Debug(main_reached());
  cs = lw::new_channel("SHORT"); cw = lw::new_channel("TWELVE_CHARS"); coff = lw::new_channel("OFF");
  std::cerr.rdbuf(&erec);
  std::vector<std::string> margins = {"", "M: "}, markers = {": ", ""}, data = {"", "x", "two\nlines\n", std::string("nul\0byte", 8), std::string(5000, 'd')};
  std::vector<unsigned short> indents = {0, 3};
  if (vx::g.thorough) { margins.push_back(std::string(700, 'm')); markers.push_back("|   |"); indents.push_back(300); data.push_back("\033[0m tab\t"); data.push_back(std::string(513, 'e')); }
  for (unsigned b = 0; b < 1u << NF; ++b)
  {
    control_flag_t f = 0;
    for (unsigned i = 0; i < NF; ++i) if (b >> i & 1) f |= flags[i].f;
    for (auto& mg : margins) for (auto& mk : markers) for (auto in : indents) for (int col = 0; col < 2; ++col) for (auto& d : data)
      run({mg, mk, col ? "\033[31m" : "", col ? "\033[0m" : "", in, false, false}, f, d);
    for (int v = 1; v < 4; ++v)
      run({"m", "|", "", "", 1, bool(v & 1), bool(v & 2)}, f, "data");
    for (int form = 1; form < 9; ++form) for (int v = 0; v < 4; ++v)
      run({"m", "|", v & 1 ? "\033[31m" : "", v & 1 ? "\033[0m" : "", (unsigned short)v, bool(v & 2), false}, f, "data", form);
  }
  // Long margins and markers around the sizes at which storage grows; several indents.
  for (unsigned n : {15u, 16u, 63u, 64u, 65u, 511u, 512u, 513u, 1000u})
    for (unsigned b = 0; b < 64; ++b)
      for (unsigned short ind : {0, 7, 8, 9, 100, 1000})
      {
        control_flag_t f = 0;
        for (unsigned i = 0; i < 6; ++i) if (b >> i & 1) f |= flags[i].f;
        run({std::string(n, 'm'), std::string(n + 1, 'k'), "", "", ind, false, false}, f, "d");
      }
  // The end of the input also ends waiting.
  if (vx::take())
  {
    vx::describe("wait_cf on an interactive stream, standard input at end of file");
    lw::Child c = lw::forked([&] {
      std::stringbuf in("abc"); std::cin.rdbuf(&in); std::cin.clear();
      libcw_do.set_ostream(&std::cerr, &mut);
      Debug(libcw_do.on()); cs->on();
      LibcwDout(libcwd::channels, libcw_do, *cs | wait_cf, "x");
    }, 10);
    if (!c.exited(77)) vx::fail("wait_cf-at-eof", c.how());
  }
  // The conditional flags.
  if (vx::take())
  {
    vx::describe("conditional control flags");
    struct { control_flag_t (*f)(bool); control_flag_t v; } const t[] = {{cond_nonewline_cf, nonewline_cf}, {cond_noprefix_cf, noprefix_cf}, {cond_nolabel_cf, nolabel_cf}, {conf_blank_margin_cf, blank_margin_cf},
      {conf_blank_label_cf, blank_label_cf}, {conf_blank_marker_cf, blank_marker_cf}, {conf_cerr_cf, cerr_cf}, {conf_flush_cf, flush_cf}, {conf_wait_cf, wait_cf}, {cond_error_cf, error_cf}};
    for (auto& x : t) if (x.f(true) != x.v || x.f(false) != 0) vx::fail("conditional flags", "a conditional flag gives another flag");
  }
  vx::done();
}
