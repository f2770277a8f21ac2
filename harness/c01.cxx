// C01: all sequences of on/off/force_on/restore on a debug object and two channels, with every kind of Dout statement after each step.
#include "lw.h"

static libcwd::Channel* chA; static libcwd::Channel* chB;
static libcwd::DebugObject* obj;
namespace chans { namespace channels { namespace dc {
using namespace libcwd::channels::dc;
#define CA (*chA)
#define CB (*chB)
} } }

enum { OON, OOFF, OFORCE, ORESTORE, AON, AOFF, AFORCE, ARESTORE, BON, BOFF, NOPS };
static char const* const names[] = {"object.on", "object.off", "object.force_on", "object.restore", "A.on", "A.off", "A.force_on", "A.restore", "B.on", "B.off"};

struct Model
{
  int o = 0, a = 0, b = 0;              // Number of off()'s minus on()'s; below zero is on.
  std::vector<int> so, sa;              // What force_on() saved.
  bool allowed(int op) const
  {
    switch (op)
    {
      case ORESTORE: return !so.empty() && o == -1;     // on/off must have been called in pairs since.
      case ARESTORE: return !sa.empty() && a == -1;
      case AON: return a >= 0;                          // Documented fatal error otherwise.
      case BON: return b >= 0;
      case OON: return o > -3;
      default: return true;
    }
  }
  void apply(int op)
  {
    switch (op)
    {
      case OON: --o; break; case OOFF: ++o; break;
      case OFORCE: so.push_back(o); o = -1; break; case ORESTORE: o = so.back(); so.pop_back(); break;
      case AON: --a; break; case AOFF: ++a; break;
      case AFORCE: sa.push_back(a); a = -1; break; case ARESTORE: a = sa.back(); sa.pop_back(); break;
      case BON: --b; break; case BOFF: ++b; break;
    }
  }
};

struct Real
{
  std::vector<libcwd::DebugObject::OnOffState> so; std::vector<libcwd::Channel::OnOffState> sa;
  void apply(int op)
  {
    switch (op)
    {
      case OON: obj->on(); break; case OOFF: obj->off(); break;
      case OFORCE: so.emplace_back(); obj->force_on(so.back()); break;
      case ORESTORE: obj->restore(so.back()); so.pop_back(); break;
      case AON: chA->on(); break; case AOFF: chA->off(); break;
      case AFORCE: sa.emplace_back(); chA->force_on(sa.back(), chA->get_label()); break;
      case ARESTORE: chA->restore(sa.back()); sa.pop_back(); break;
      case BON: chB->on(); break; case BOFF: chB->off(); break;
    }
  }
};

static lw::Rec rec;
static int evaluated;
struct Count { }; 
static std::ostream& operator<<(std::ostream& os, Count) { return os << "x"; }
static Count ev() { ++evaluated; return {}; }

// Every kind of statement: the name, the statement, which channels it names (in order), always on.
struct Probe { char const* name; void (*f)(); char const* ch; };
#define D(cntrl) LibcwDout(chans::channels, *obj, cntrl, ev())
static Probe const probes[] = {
  {"Dout(A)", [] { D(CA); }, "A"}, {"Dout(B)", [] { D(CB); }, "B"}, {"Dout(A|B)", [] { D(CA | CB); }, "AB"}, {"Dout(B|A)", [] { D(CB | CA); }, "BA"},
  {"Dout(always)", [] { D(dc::always); }, "*"}, {"Dout(always|A)", [] { D(dc::always | CA); }, "*A"}, {"Dout(A(false)|B)", [] { D(CA(false) | CB); }, "B"},
  {"Dout(A(true))", [] { D(CA(true)); }, "A"}, {"Dout(B(false))", [] { D(CB(false)); }, ""}, {"Dout(A|B|flush_cf)", [] { D(CA | CB | libcwd::flush_cf); }, "AB"},
  {"Dout(B|blank_margin_cf|A)", [] { D(CB | libcwd::blank_margin_cf | CA); }, "BA"}, {"Dout(A|B|A)", [] { D(CA | CB | CA); }, "ABA"},
  {"LibcwDoutScopeBegin(A|B)", [] { LibcwDoutScopeBegin(chans::channels, *obj, CA | CB) LibcwDoutStream << ev(); LibcwDoutScopeEnd; }, "AB"},
};
static std::string la, lb, lalways;

static std::string expect(Probe const& p, Model const& m)
{
  if (m.o >= 0) return {};
  for (char const* c = p.ch; *c; ++c)
  {
    if (*c == 'A' && m.a < 0) return la + ": x\n";
    if (*c == 'B' && m.b < 0) return lb + ": x\n";
    if (*c == '*') return lalways + ": x\n";
  }
  return {};
}

static std::string text(std::vector<unsigned> const& s) { std::string r; for (unsigned k : s) { if (!r.empty()) r += ", "; r += names[k]; } return r; }

static std::string check(Model const& m, std::string& trace)
{
  for (auto const& p : probes)
  {
    rec.clear(); evaluated = 0;
    p.f();
    ++vx::g.evals;
    std::string want = expect(p, m);
    if (rec.text != want) return std::string(p.name) + " wrote \"" + rec.text + "\", expected \"" + want + "\"";
    if (evaluated != !want.empty()) return std::string(p.name) + " evaluated its operands " + std::to_string(evaluated) + " times";
    trace += want.empty() ? '0' : '1';
  }
  { LIBCWD_TSD_DECLARATION; if (obj->is_on(LIBCWD_TSD) != (m.o < 0)) return "is_on() of the object is wrong"; }
  if (chA->is_on() != (m.a < 0)) return "A.is_on() is wrong";
  if (chB->is_on() != (m.b < 0)) return "B.is_on() is wrong";
  return {};
}

static void run(std::vector<unsigned> const& s)
{
  Model m;
  for (unsigned k : s) { if (!m.allowed(k)) return; m.apply(k); }
  if (!vx::take()) return;
  if (vx::verbose()) vx::describe(text(s));
  std::string err, trace;
  static std::ostream os(&rec); static std::mutex mut;
  lw::fresh([&] {
    Model m; Real r;
    for (unsigned i = 0; i < s.size() && err.empty(); ++i)
    {
      m.apply(s[i]); r.apply(s[i]);
      ++vx::g.transitions;
      int key[] = {m.o, m.a, m.b, (int)m.so.size(), (int)m.sa.size(), m.so.empty() ? 9 : m.so.back(), m.sa.empty() ? 9 : m.sa.back()};
      vx::state(vx::hash(key, sizeof key));
      err = check(m, trace);
      if (!err.empty()) err = "after " + std::to_string(i + 1) + " operations: " + err;
    }
    // An operation inside the operands of a statement: the message is written all the same.
    if (err.empty())
      for (int op = 0; op < NOPS && err.empty(); ++op)
      {
        if (!m.allowed(op)) continue;
        rec.clear(); evaluated = 0;
        bool done = false;
        auto in = [&] { r.apply(op); done = true; return "y"; };
        std::string want = m.o < 0 && m.a < 0 ? la + ": y\n" : m.o < 0 && m.b < 0 ? lb + ": y\n" : "";
        LibcwDout(chans::channels, *obj, CA | CB, in());
        if (rec.text != want || done != !want.empty()) err = std::string("Dout(A|B, ") + names[op] + ") wrote \"" + rec.text + "\"";
        if (done) m.apply(op);
        if (err.empty()) err = check(m, trace);
        if (!err.empty()) err = std::string("after Dout(A|B, ") + names[op] + ") at the end: " + err;
      }
  });
  ++vx::g.traces;
  vx::outcome(trace);
  if (!err.empty()) { vx::describe(text(s)); vx::fail(text(s), err); }
  if (vx::g.samples.empty() && s.size() >= 4) vx::sample(text(s) + " -> " + trace.substr(0, 200));
}

static libcwd::DebugObject my_object;

int main(int argc, char** argv)
{
  vx::init(argc, argv);
  Debug(main_reached());
  chA = lw::new_channel("ALPHA"); chB = lw::new_channel("BETA");
  la = "ALPHA   "; lb = "BETA    "; lalways = ">>>>>>>>";
  static std::ostream os(&rec); static std::mutex mut;
  unsigned depth = vx::g.thorough ? 7 : 6;
  for (auto* o : {&libcwd::libcw_do, &my_object})
  {
    obj = o;
    o->set_ostream(&os, &mut);
    unsigned d = o == &libcwd::libcw_do ? depth : depth - 2;
    vx::sequences(NOPS, d, d, run);
  }
  // Many calls: n off()'s are undone by n on()'s, also for large n.
  for (int n : {1, 2, 10, 1000, 70000})
  {
    if (!vx::take()) continue;
    std::string d = std::to_string(n) + " calls of off() and of on()", err;
    vx::describe(d);
    lw::fresh([&] {
      Model m; std::string t; Real r;
      r.apply(OON); r.apply(AON); r.apply(BON); m.o = m.a = m.b = -1;
      for (int what = 0; what < 2 && err.empty(); ++what)
      {
        for (int i = 0; i < n; ++i) { int op = what ? OOFF : AOFF; m.apply(op); r.apply(op); }
        err = check(m, t);
        for (int i = 0; i < n && err.empty(); ++i) { int op = what ? OON : AON; m.apply(op); r.apply(op); if (i >= n - 2) err = check(m, t); }
      }
    });
    if (!err.empty()) vx::fail(d, err);
  }
  // Turning on a channel that is on is a fatal error.
  if (vx::take())
  {
    vx::describe("A.on() twice");
    lw::Child c = lw::forked([&] { libcwd::libcw_do.set_ostream(&std::cerr, &mut); chA->on(); chA->on(); });
    if (!c.signaled(SIGABRT) || c.err.find("Channel::on() more often") == std::string::npos) vx::fail("A.on() twice", c.how() + " " + lw::quoted(c.err));
  }
  vx::done();
}
