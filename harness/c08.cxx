// C08: threads that end at any point of their output.  All histories of operations of up to three threads, one operation at a time.
#include "lw.h"
#include "mtmodel.h"
#include "workers.h"
#include <memory>
using namespace libcwd;

static lw::Rec rec;
static std::ostream os(&rec);
static std::mutex mut;
static Channel* ch;
static std::string const LABEL = "CHANNEL ";

enum Op { P, N, S, SF, C, CF, F, FN, FE, NEST, FL, COL, END, NOPS };
static char const* const opname[] = {"message", "message|nonewline_cf", "continued_cf", "continued_cf|flush_cf", "continued", "continued|flush_cf", "finish", "finish|nonewline_cf", "finish|nonewline_cf without text", "message in a message", "message|flush_cf", "sets colors and pushes margins and the marker", "ends"};
struct Step { int t, op; };
static std::string str(std::vector<Step> const& h)
{
  std::string r;
  for (auto& s : h) { if (!r.empty()) r += "; "; r += std::string("thread ") + (char)('A' + s.t) + ": " + opname[s.op]; }
  return r;
}

static char const* nested(char const* txt) { LibcwDout(libcwd::channels, libcw_do, *ch, txt << "nested"); return ""; }
static void real(int op, char const* l)
{
#define OUT(cntrl, ...) LibcwDout(libcwd::channels, libcw_do, cntrl, __VA_ARGS__)
  switch (op)
  {
    case P: OUT(*ch, l << "plain"); break;
    case N: OUT(*ch | nonewline_cf, l << "nonl"); break;
    case S: OUT(*ch | continued_cf, l << "start"); break;
    case SF: OUT(*ch | continued_cf | flush_cf, l << "startf"); break;
    case C: OUT(dc::continued, l << "cont"); break;
    case CF: OUT(dc::continued | flush_cf, l << "contf"); break;
    case F: OUT(dc::finish, l << "fin"); break;
    case FN: OUT(dc::finish | nonewline_cf, l << "finn"); break;
    case FE: OUT(dc::finish | nonewline_cf, ""); break;
    case NEST: OUT(*ch, l << "outer" << nested(l)); break;
    case FL: OUT(*ch | flush_cf, l << "flush"); break;
    case COL: libcw_do.color_on().assign("{", 1); libcw_do.color_off().assign(std::string(l) + "}"); libcw_do.push_margin(); libcw_do.push_marker(); libcw_do.push_margin(); break;
  }
}
template <class T> static void model(T& t, int op, std::string const& l)
{
  switch (op)
  {
    case P: t.message(l + "plain", false, false); break;
    case N: t.message(l + "nonl", true, false); break;
    case S: t.begin(l + "start", false); break;
    case SF: t.begin(l + "startf", true); break;
    case C: t.cont(l + "cont", false); break;
    case CF: t.cont(l + "contf", true); break;
    case F: t.finish(l + "fin", false, false); break;
    case FN: t.finish(l + "finn", true, false); break;
    case FE: t.finish("", true, false); break;
    case NEST: t.message(l + "outer", false, false, [&] { t.message(l + "nested", false, false); }); break;
    case FL: t.message(l + "flush", false, true); break;
    case COL: t.c.con = "{"; t.c.coff = l + "}"; break;
  }
}

struct Sink { mt::Stream* s; void operator()(mt::Write const& w) const { s->apply(w); } };

static bool legal(std::vector<Step> const& h)
{
  int open[3] = {}, used = 0;
  bool alive[3] = {};
  for (auto& s : h)
  {
    // The first threads to act are A, B, C in that order.
    if (s.t > used) return false;
    if (s.t == used) ++used;
    if (s.op == END) { if (!alive[s.t]) return false; alive[s.t] = false; open[s.t] = 0; continue; }
    alive[s.t] = true;
    if (s.op == S || s.op == SF) ++open[s.t];
    if (s.op == C || s.op == CF) { if (!open[s.t]) return false; }
    if (s.op == F || s.op == FN || s.op == FE) { if (!open[s.t]) return false; --open[s.t]; }
  }
  return true;
}

static bool require_end = true;
static void check(std::vector<Step> const& h)
{
  if (!legal(h)) return;
  bool ends = false;
  for (auto& s : h) if (s.op == END) ends = true;
  if (require_end && !ends) return;
  if (!vx::take()) return;
  if (vx::verbose()) vx::describe(str(h));
  else vx::g.desc.clear();
  vx::state(vx::hash(str(h)));
  if (vx::g.samples.size() < 3 && h.size() > 2) vx::sample(str(h));
  std::string err;
  mt::Stream ms;
  rec.clear();
  libcw_do.set_ostream(&os, &mut);
  std::unique_ptr<lw::Worker> w[4];
  std::unique_ptr<mt::Thread<Sink>> m[4];
  int next_tid = 1;
  auto begin = [&](int t) {
    w[t].reset(new lw::Worker);
    w[t]->run([] { libcw_do.on(); ch->on(); });
    m[t].reset(new mt::Thread<Sink>(next_tid++, LABEL, mt::Cfg(), Sink{&ms}));
  };
  static char const* const letters[] = {"a", "b", "c", "z"};
  int n = 0;
  auto compare = [&] {
    ++vx::g.transitions;
    ++n;
    if (err.empty() && rec.marked != ms.out) err = "after operation " + std::to_string(n) + " the stream is\n" + rec.marked + "\ninstead of\n" + ms.out;
  };
  for (auto& s : h)
  {
    if (s.op == END) { w[s.t]->end(); w[s.t].reset(); m[s.t].reset(); compare(); continue; }
    if (!w[s.t]) begin(s.t);
    w[s.t]->run([&] { real(s.op, letters[s.t]); });
    model(*m[s.t], s.op, letters[s.t]);
    compare();
  }
  // Another thread writes; then all that are left finish what they have, and end; and another thread writes again.
  for (int k = 0; k < 2; ++k)
  {
    begin(3);
    w[3]->run([&] { real(P, "z"); });
    model(*m[3], P, "z");
    compare();
    w[3]->end();
    w[3].reset();
    if (k == 0)
      for (int t = 0; t < 3; ++t)
        if (w[t])
        {
          while (!m[t]->open.empty()) { w[t]->run([&] { real(F, letters[t]); }); model(*m[t], F, letters[t]); compare(); }
          w[t]->end(); w[t].reset(); m[t].reset();
          compare();
        }
  }
  vx::outcome(rec.marked);
  if (!err.empty()) { vx::describe(str(h)); vx::fail("thread-end", err); }
}

int main(int argc, char** argv)
{
  vx::init(argc, argv);
  Debug(main_reached());
  ch = lw::new_channel("CHANNEL");
  bool th = vx::g.thorough;
  auto explore = [&](int nt, std::vector<int> const& ops, unsigned from, unsigned to) {
    std::vector<Step> al;
    for (int t = 0; t < nt; ++t) for (int op : ops) al.push_back({t, op});
    vx::sequences(al.size(), from, to, [&](std::vector<unsigned> const& s) {
      std::vector<Step> h;
      for (unsigned i : s) h.push_back(al[i]);
      check(h);
    });
  };
  std::vector<int> every;
  for (int i = 0; i < NOPS; ++i) every.push_back(i);
  explore(3, every, 1, 3);
  explore(2, every, 4, th ? 5 : 4);
  explore(3, {P, N, SF, CF, F, END}, 4, th ? 5 : 4);
  explore(2, {P, N, SF, CF, FE, COL, END}, 5, th ? 6 : 5);
  explore(2, {N, SF, F, END}, 6, th ? 7 : 6);
  vx::done();
}
