// C06 (one thread at a time): all control flags, states and contexts of a fatal message.
#include "lw.h"
#include <atomic>
using namespace libcwd;
static lw::Rec rec;
NAMESPACE_DEBUG_CHANNELS_START
Channel bla("BLA");
Channel boo("BOO");
NAMESPACE_DEBUG_CHANNELS_END
static DebugObject other;
static std::mutex mtx, mtx2;
struct Flag { control_flag_t f; char const* n; };
static Flag const flags[] = {{nonewline_cf, "nonewline_cf"}, {noprefix_cf, "noprefix_cf"}, {nolabel_cf, "nolabel_cf"}, {blank_margin_cf, "blank_margin_cf"}, {blank_label_cf, "blank_label_cf"},
  {blank_marker_cf, "blank_marker_cf"}, {cerr_cf, "cerr_cf"}, {flush_cf, "flush_cf"}, {wait_cf, "wait_cf"}, {error_cf, "error_cf"}};
enum Ctx { PLAIN, NESTED, CONTINUED, THREAD, FRESH_THREAD, OTHER_OBJECT, NESTED_OTHER, FATAL_IN_FATAL, FATAL_IN_CORE, INDENTED, AFTER_NONEWLINE, WITH_ON, WITH_OFF, NCTX };
static char const* ctx_names[] = {"plain", "in the operand of a message", "while a continued message is not finished", "in a second thread", "in a thread in which everything is off", "on a second debug object", "on a second debug object, in the operand of a message",
  "in the operand of a fatal message", "in the operand of a core message", "with margin, marker and indentation", "after a message without newline",
  "together with a channel that is on", "together with a channel that is off"};

struct Case { bool core; control_flag_t cf; int off; int ctx; bool color; };
static void doit(Case const& c)
{
  errno = ENOENT;
  if (c.ctx == OTHER_OBJECT || c.ctx == NESTED_OTHER)
  {
    if (c.core) LibcwDoutFatal(LIBCWD_DEBUG_CHANNELS, other, dc::core | c.cf, "message " << 42); 
    else LibcwDoutFatal(LIBCWD_DEBUG_CHANNELS, other, dc::fatal | c.cf, "message " << 42);
  }
  else if (c.ctx == WITH_ON)
  {
    if (c.core) DoutFatal(dc::core | dc::bla | c.cf, "message " << 42);
    else DoutFatal(dc::fatal | dc::bla | c.cf, "message " << 42);
  }
  else if (c.ctx == WITH_OFF)
  {
    if (c.core) DoutFatal(dc::core | c.cf | dc::boo, "message " << 42);
    else DoutFatal(dc::fatal | c.cf | dc::boo, "message " << 42);
  }
  else if (c.core) DoutFatal(dc::core | c.cf, "message " << 42);
  else DoutFatal(dc::fatal | c.cf, "message " << 42);
  std::cout << "[CONTINUES]";
}
static char const* text(Case const& c) { doit(c); return "text"; }
static void run(Case const& c)
{
  Debug(libcw_do.set_ostream(&std::cout, &mtx));
  Debug(other.set_ostream(&std::cout, &mtx));
  Debug(other.on());
  Debug(libcw_do.on());
  Debug(dc::bla.on());
  auto body = [&](bool fresh) {
    if (!fresh && c.color) { Debug(libcw_do.color_on().assign("<on>", 4)); Debug(libcw_do.color_off().assign("<off>", 5)); }
    if (c.ctx == INDENTED) { Debug(libcw_do.margin().assign("mrg", 3)); Debug(libcw_do.marker().assign("mk", 2)); Debug(libcw_do.set_indent(3)); }
    if (c.ctx == CONTINUED) { Dout(dc::bla | continued_cf, "start "); }
    if (c.ctx == AFTER_NONEWLINE) { Dout(dc::bla | nonewline_cf, "start "); }
    if (!fresh) for (int i = 0; i < c.off; ++i) { Debug(libcw_do.off()); Debug(other.off()); }
    switch (c.ctx)
    {
      case NESTED: case NESTED_OTHER:
        if (c.off) { for (int i = 0; i < c.off; ++i) Debug(libcw_do.on()); }
        Dout(dc::bla, text(c));
        break;
      case FATAL_IN_FATAL: DoutFatal(dc::fatal, text(c)); break;
      case FATAL_IN_CORE: DoutFatal(dc::core, text(c)); break;
      default: doit(c);
    }
    std::cout << "[CONTINUES]";
  };
  if (c.ctx == THREAD) std::thread([&] { Debug(libcw_do.on()); Debug(dc::bla.on()); Debug(other.on()); body(false); }).join();
  else if (c.ctx == FRESH_THREAD) std::thread([&] { body(true); }).join();
  else body(false);
}
static void check(Case const& c)
{
  if (!vx::take()) return;
  std::string d = std::string("DoutFatal(dc::") + (c.core ? "core" : "fatal");
  for (auto& f : flags) if (c.cf & f.f) d += std::string("|") + f.n;
  d += std::string(", \"message \" << 42) ") + ctx_names[c.ctx] + ", the debug object is off " + std::to_string(c.off) + " times" + (c.color ? ", with colors" : "");
  vx::describe(d);
  vx::sample(d);
  ++vx::g.extra_states;
  ++vx::g.transitions;
  auto p = lw::forked([&] { run(c); });
  std::string margin = c.ctx == INDENTED ? "mrg" : "", marker = c.ctx == INDENTED ? "mk" : ": ", label = c.core ? "COREDUMP" : "FATAL   ";
  int indent = c.ctx == INDENTED ? 3 : c.ctx == NESTED || c.ctx == FATAL_IN_FATAL || c.ctx == FATAL_IN_CORE || c.ctx == CONTINUED ? 4 : 0;
  bool color = c.color && c.ctx != OTHER_OBJECT && c.ctx != NESTED_OTHER && c.ctx != FRESH_THREAD;
  std::string m;
  if (!(c.cf & noprefix_cf))
  {
    m += c.cf & blank_margin_cf ? std::string(margin.size(), ' ') : margin;
    if (!(c.cf & nolabel_cf))
    {
      m += c.cf & blank_label_cf ? std::string(label.size(), ' ') : label;
      m += c.cf & blank_marker_cf ? std::string(marker.size(), ' ') : marker;
      m += std::string(indent, ' ');
    }
  }
  std::string on = color ? "<on>" : "", off = color ? "<off>" : "";
  m = on + m + "message 42";
  if (c.cf & error_cf) m += ": ENOENT (No such file or directory)";
  if (!(c.cf & nonewline_cf)) m += off + "\n";
  // What precedes it (on the same stream).
  std::string pre;
  if (c.ctx == CONTINUED) pre = on + "BLA     : start " + (c.off ? "" : ""), pre += off + "<unfinished>\n";
  if (c.ctx == AFTER_NONEWLINE) pre = on + "BLA     : start ";
  std::string out = c.cf & cerr_cf ? pre : pre + m, err = c.cf & cerr_cf ? m : "";
  bool end = c.core ? p.signaled(SIGABRT) : p.exited(180);
  if (!end) vx::fail("fatal", std::string("should end with ") + (c.core ? "SIGABRT" : "exit status 180") + " but ends with " + p.how() + "; it wrote " + lw::quoted(p.out) + ", and to cerr " + lw::quoted(p.err.substr(0, 2000)));
  if (p.out != out || p.err != err) vx::fail("fatal", "wrote " + lw::quoted(p.out) + " instead of " + lw::quoted(out) + ", and to cerr " + lw::quoted(p.err.substr(0, 2000)) + " instead of " + lw::quoted(err));
  vx::outcome(m + p.how());
}
int main(int argc, char** argv)
{
  vx::init(argc, argv);
  Debug(main_reached());
  bool th = vx::g.thorough;
  for (int ctx = 0; ctx < NCTX; ++ctx)
    for (int off = 0; off < 3; ++off)
      for (bool core : {false, true})
        for (int color = 0; color < 2; ++color)
          for (unsigned m = 0; m < 1u << 10; ++m)
          {
            control_flag_t cf = 0;
            for (int i = 0; i < 10; ++i) if (m >> i & 1) cf |= flags[i].f;
            // Quick: all flags in the plain context; elsewhere at most two.
            if (!th && (ctx != PLAIN || off == 2 || color) && __builtin_popcount(m) > 1 && m != 0x3ff) continue;
            if (ctx == CONTINUED && off) continue;      // The state of the debug object may not be changed inside a continued message.
            if (ctx == NESTED_OTHER && color) continue;
            check({core, cf, off, ctx, (bool)color});
          }
  // core_dump().
  for (int off = 0; off < 2; ++off)
  {
    if (!vx::take()) continue;
    auto p = lw::forked([&] { Debug(libcw_do.set_ostream(&std::cout)); if (!off) Debug(libcw_do.on()); Dout(dc::notice, "before"); core_dump(); std::cout << "[CONTINUES]"; });
    if (!p.signaled(SIGABRT)) vx::fail("core_dump", p.how() + p.out);
  }
  vx::done();
}
