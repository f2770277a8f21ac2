// Operations on the debug state of a thread (C07).
#pragma once
#include <libcwd/Location.h>
#include <libcwd/init_functions.h>
#include <string>
using namespace libcwd;
static Channel *c1, *c2;
static DebugObject other;

// Anything not listed here has no precondition.
enum Op { PLAIN, NEST, START, FIN, ON, OFF, CH_ON, CH_OFF, C2_ON, MARGIN, MARKER, PUSH, POP, IND, COLOR, FORMAT, OTHER_ON, OTHER_MSG, FORCE, WARN_OFF, INIT_OFF, SCOPE, END, NOPS };
static char const* const opname[] = {"message", "nested message", "continued_cf", "finish", "libcw_do.on", "libcw_do.off", "channel 1 on", "channel 1 off", "channel 2 on", "margin", "marker", "push_margin and push_marker", "pop_margin and pop_marker", "inc_indent", "colors", "location_format",
  "other.on", "message to other", "force_on", "warning channel off", "thread name", "Indent scope", "ends"};
// What must be known to exclude programming errors.
struct Abs { int off = 0, coff = 0, open = 0, pushed = 0, ooff = 0; };
static Abs const fresh_abs;

static std::string state()
{
  LIBCWD_TSD_DECLARATION;
  std::string r;
  for (DebugObject* d : {&libcw_do, &other})
  {
    char b[60];
    snprintf(b, sizeof b, "{%d,%d,", d->is_on(LIBCWD_TSD), (int)d->get_indent());
    r += b + std::string(d->margin().c_str(), d->margin().size()) + "," + std::string(d->marker().c_str(), d->marker().size()) + "," +
      std::string(d->color_on().c_str(), d->color_on().size()) + "," + std::string(d->color_off().c_str(), d->color_off().size()) + "}";
  }
  r += '0' + (int)__libcwd_tsd.format;
  for (Channel* c : {c1, c2, &channels::dc::warning, &channels::dc::notice, &channels::dc::debug}) r += c->is_on() ? '1' : '0';
  return r;
}
static char const* nested(int op) { LibcwDout(libcwd::channels, libcw_do, *c1, "inner"); return "outer"; }
static void real(int op)
{
#define OUT(d, cntrl, ...) LibcwDout(libcwd::channels, d, cntrl, __VA_ARGS__)
  switch (op)
  {
    case PLAIN: OUT(libcw_do, *c1, "one"); OUT(libcw_do, *c2, "two"); OUT(libcw_do, *c1|*c2, "either"); break;
    case NEST: OUT(libcw_do, *c1, nested(op)); break;
    case START: OUT(libcw_do, *c1 | continued_cf, "start "); break;
    case FIN: OUT(libcw_do, dc::finish, "fin"); break;
    case ON: libcw_do.on(); break;
    case OFF: libcw_do.off(); break;
    case CH_ON: c1->on(); break;
    case CH_OFF: c1->off(); break;
    case C2_ON: c2->is_on() ? c2->off() : c2->on(); break;
    case MARGIN: libcw_do.margin().append("m", 1); break;
    case MARKER: libcw_do.marker().prepend("<", 1); break;
    case PUSH:
    {
      libcw_do.push_margin(); libcw_do.margin().append("p", 1);
      libcw_do.push_marker();
      std::string m(libcw_do.marker().c_str(), libcw_do.marker().size());       // A marker of the same length.
      libcw_do.marker().assign(std::string(m.rbegin(), m.rend()));
      break;
    }
    case POP: libcw_do.pop_margin(); libcw_do.pop_marker(); break;
    case IND: libcw_do.inc_indent(2); other.inc_indent(1); break;
    case COLOR: libcw_do.color_on().append("{", 1); libcw_do.color_off().append("}", 1); break;
    case FORMAT: location_format(show_path); break;
    case OTHER_ON: other.on(); break;
    case OTHER_MSG: OUT(other, *c1, "to other"); break;
    case FORCE: { DebugObject::OnOffState s; libcw_do.force_on(s); Channel::OnOffState cs; c1->force_on(cs, "ONE"); OUT(libcw_do, *c1, "forced"); c1->restore(cs); libcw_do.restore(s); break; }
    case WARN_OFF: OUT(libcw_do, dc::warning, "warning"); if (channels::dc::warning.is_on()) channels::dc::warning.off(); else channels::dc::warning.on(); break;
    case INIT_OFF: init_thread("NAME", debug_off); break;
    case SCOPE: { libcwd::Indent i(3); OUT(libcw_do, *c1, "scoped"); break; }
  }
}

static bool allowed(Abs& a, int op)
{
  bool vis = a.off < 0 && a.coff < 0;
  switch (op)
  {
    case START: if (vis) ++a.open; return true;
    case FIN: if (a.off >= 0) return true; if (a.open == 0) return false; --a.open; return true;
    case ON: return a.off-- >= 0;
    case OFF: ++a.off; return true;
    case CH_ON: return a.coff-- >= 0;
    case CH_OFF: ++a.coff; return true;
    case PUSH: ++a.pushed; return true;
    case POP: return a.pushed-- > 0;
    case OTHER_ON: return a.ooff-- >= 0;
  }
  return true;
}
