// C04: all schedules of small programs of several threads that write to one debug object.
// C08 (part ends): the same, with threads that end while others write, one that starts when another one ended, and
// output of destructors of thread_local objects.
#include "mc.h"
#include "mtmodel.h"
#include "cwd_sys.h"
#include <libcwd/debug.h>
#include "newch.h"
#include <iostream>
#include <map>
#include <mutex>
#include <thread>
using namespace libcwd;

// A mutex that knows its owner.
struct Mut
{
  std::mutex m;
  int owner = -1;
  void lock() { m.lock(); owner = mc_tid(); }
  bool try_lock() { if (!m.try_lock()) return false; owner = mc_tid(); return true; }
  void unlock() { owner = -1; m.unlock(); }
};
static Mut mut;
struct Buf : std::streambuf
{
  void check() { if (mc_controlled() && mut.owner != mc_tid()) mc_fail("writes to the stream without holding its mutex"); }
  int overflow(int c) override { check(); char ch = c; mc_log(&ch, 1); return c; }
  std::streamsize xsputn(char const* s, std::streamsize n) override { check(); mc_log(s, n); return n; }
  int sync() override { check(); mc_log("\1", 1); return 0; }
};
static Buf buf;
static std::ostream os(&buf);
static Channel* ch;
static std::string const LABEL = "CHANNEL ";

enum Op { P, N, S, SF, C, CF, F, FN, FE, NEST, FL, COL, EMPTY, TLA, TLB, TLC, NOPS };
static char const* const opname[] = {"message", "message|nonewline_cf", "continued_cf", "continued_cf|flush_cf", "continued", "continued|flush_cf", "finish", "finish|nonewline_cf", "finish|nonewline_cf without text", "message in a message", "message|flush_cf", "colors", "message|nonewline_cf|noprefix_cf without text", "thread_local object (destructor: message)", "thread_local object made before the library is used (destructor: message)", "thread_local object (destructor: continued_cf|flush_cf)"};
typedef std::vector<int> Prog;
static std::string str(Prog const& p) { std::string r; for (int o : p) { if (!r.empty()) r += "; "; r += opname[o]; } return r; }

static void real(int op, char const* l);
// Only the ones that are made are destroyed.
struct AtEnd { int op; char const* l; ~AtEnd() { if (l) real(op, l); } };
static void at_end(int which, char const* l)
{
  if (which == 0) { static thread_local AtEnd a{P, nullptr}; a.l = l; }
  else if (which == 1) { static thread_local AtEnd b{P, nullptr}; b.l = l; }
  else { static thread_local AtEnd c{SF, nullptr}; c.l = l; }
}
static char const* nested(char const* txt) { LibcwDout(libcwd::channels, libcw_do, *ch, txt << "nested"); return ""; }
static void real(int op, char const* l)
{
#define OUT(cntrl, ...) LibcwDout(libcwd::channels, libcw_do, cntrl, __VA_ARGS__)
  switch (op)
  {
    case P: OUT(*ch, l << "plain"); break;
    case N: OUT(*ch | nonewline_cf, l << "nonl"); break;
    case S: OUT(*ch | continued_cf, l << "start"); break;
    case SF: OUT(*ch | continued_cf | flush_cf, l << "startf"); break;
    case C: OUT(dc::continued, l << "cont"); break;
    case CF: OUT(dc::continued | flush_cf, l << "contf"); break;
    case F: OUT(dc::finish, l << "fin"); break;
    case FN: OUT(dc::finish | nonewline_cf, l << "finn"); break;
    case FE: OUT(dc::finish | nonewline_cf, ""); break;
    case NEST: OUT(*ch, l << "outer" << nested(l)); break;
    case FL: OUT(*ch | flush_cf, l << "flush"); break;
    case TLA: at_end(0, l); break;
    case TLC: at_end(2, l); break;
    case COL: libcw_do.color_on().assign("{", 1); libcw_do.color_off().assign(std::string(l) + "}"); break;
  }
}
template <class T> static void model(T& t, int op, std::string const& l)
{
  switch (op)
  {
    case P: t.message(l + "plain", false, false); break;
    case N: t.message(l + "nonl", true, false); break;
    case S: t.begin(l + "start", false); break;
    case SF: t.begin(l + "startf", true); break;
    case C: t.cont(l + "cont", false); break;
    case CF: t.cont(l + "contf", true); break;
    case F: t.finish(l + "fin", false, false); break;
    case FN: t.finish(l + "finn", true, false); break;
    case FE: t.finish("", true, false); break;
    case NEST: t.message(l + "outer", false, false, [&] { t.message(l + "nested", false, false); }); break;
    case FL: t.message(l + "flush", false, true); break;
    case COL: t.c.con = "{"; t.c.coff = l + "}"; break;
  }
}
static bool legal(Prog const& p)
{
  int open = 0;
  for (int o : p)
  {
    if (o == S || o == SF) ++open;
    if ((o == C || o == CF) && !open) return false;
    if (o == F || o == FN || o == FE) { if (!open) return false; --open; }
  }
  return true;
}

// Is there an order of the writes that gives this output?
struct Merge
{
  std::vector<std::vector<mt::Write>> w;        // Per thread.
  std::vector<std::vector<mt::Msg>> fresh;
  std::string const& out;
  std::vector<int> order;
  std::vector<size_t> pos;
  size_t best = 0;
  uint64_t nodes = 0;
  size_t late = 0;
  Merge(std::string const& out) : out(out) { }
  // Apply order to a clean state.
  bool prefix_ok(std::string& got)
  {
    for (auto& t : w) for (auto& x : t) { x.msg->needs_cont = x.msg->closed = false; }
    mt::Stream s;
    std::vector<size_t> p(w.size(), 0);
    for (int t : order) s.apply(w[t][p[t]++]);
    got = s.out;
    if (got.size() > out.size() || out.compare(0, got.size(), got)) return false;
    best = std::max(best, got.size());
    return true;
  }
  bool search()
  {
    ++nodes;
    bool all = true;
    for (size_t t = 0; t < w.size(); ++t)
      if (pos[t] < w[t].size())
      {
        // The last thread comes after all others.
        if (t + 1 == w.size()) { bool others = false; for (size_t k = 0; k + 1 < w.size(); ++k) if (pos[k] < w[k].size()) others = true; if (others) { all = false; continue; } }
        // And the late one after the first.
        if (late && t == late && pos[0] < w[0].size()) { all = false; continue; }
        all = false;
        order.push_back(t); ++pos[t];
        std::string got;
        if (prefix_ok(got) && search()) return true;
        order.pop_back(); --pos[t];
      }
    if (!all) return false;
    std::string got;
    return prefix_ok(got) && got == out;
  }
};
struct Sink { std::vector<mt::Write>* v; void operator()(mt::Write const& w) const { v->push_back(w); } };
static char const* const letters[] = {"a", "b", "c", "z"};

// The program of a thread that is started when the first one ended, while the others run.
static Prog const none;
static void check(std::vector<Prog> progs, int bound, Prog const& late = none)
{
  if (!vx::take()) return;
  std::string d;
  for (size_t i = 0; i < progs.size(); ++i) d += (i ? " | " : "") + str(progs[i]);
  size_t const n_early = progs.size();
  if (!late.empty()) { d += " | when the first has ended: " + str(late); progs.push_back(late); }
  vx::describe(d + " (up to " + std::to_string(bound) + " preemptions)");
  if (progs.size() > 2) vx::sample(vx::g.desc);
  std::map<std::string, std::string> seen;
  auto body = [&] {
    std::vector<std::thread> th;
    for (size_t i = 0; i < progs.size(); ++i)
    {
      if (i == n_early) th[0].join();
      th.emplace_back([&, i] {
        for (int o : progs[i]) if (o == TLB) at_end(1, letters[i]);
        libcw_do.on(); ch->on();
        for (int o : progs[i]) real(o, letters[i]);
      });
    }
    for (auto& t : th) if (t.joinable()) t.join();
    real(P, "z");
    mc_log("\2", 1);
  };
  auto oracle = [&](mc::Result const& r) -> std::string {
    if (!r.finished()) return "the program " + r.str();
    auto f = seen.find(r.log);
    if (f != seen.end()) return f->second;
    std::string e;
    if (r.log.empty() || r.log.back() != '\2') e = "the program did not get to its end";
    else
    {
      std::string out = r.log.substr(0, r.log.size() - 1);
      Merge m(out);
      if (!late.empty()) m.late = n_early;
      m.w.resize(progs.size() + 1);
      for (size_t i = 0; i <= progs.size(); ++i)
      {
        mt::Thread<Sink> t(i + 1, LABEL, mt::Cfg(), Sink{&m.w[i]});
        if (i < progs.size())
        {
          for (int o : progs[i]) model(t, o, letters[i]);
          // In the reverse order.
          for (size_t k = progs[i].size(); k-- > 0;) if (progs[i][k] == TLA || progs[i][k] == TLC) model(t, progs[i][k] == TLA ? P : SF, letters[i]);
        }
        else model(t, P, "z");
      }
      m.pos.assign(m.w.size(), 0);
      if (!m.search()) e = "no order of the parts written by each thread gives this output; the first " + std::to_string(m.best) + " characters are right";
    }
    seen[r.log] = e;
    return e;
  };
  mc::report_races(bound <= 2 && n_early == 2);
  mc::explore(body, oracle, bound);
}

int main(int argc, char** argv)
{
  vx::init(argc, argv);
  Debug(main_reached());
  ch = lw::new_channel("CHANNEL");
  Debug(libcw_do.on());
  ch->on();
  libcw_do.set_ostream(&os, &mut);
  while (channels::dc::warning.is_on()) channels::dc::warning.off();
  { char b[8]; snprintf(b, sizeof b, "%s", ch->get_label()); }
  bool th = vx::g.thorough;
  auto progs = [&](std::vector<int> const& al, unsigned from, unsigned to) {
    std::vector<Prog> r;
    vx::sequences(al.size(), from, to, [&](std::vector<unsigned> const& s) {
      Prog p;
      for (unsigned i : s) p.push_back(al[i]);
      if (legal(p) && p.back() != COL) r.push_back(p);
    });
    return r;
  };
#ifdef ENDS
  auto tl = [](std::vector<Prog> v, std::vector<int> which) { std::vector<Prog> r; for (auto& p : v) for (int w : which) { Prog q{w}; q.insert(q.end(), p.begin(), p.end()); r.push_back(q); if (w != TLB) { q.erase(q.begin()); q.push_back(w); r.push_back(q); } } return r; };
  std::vector<Prog> open1{{N}, {SF}, {S}, {COL, N}, {COL, SF}, {SF, CF}, {SF, N}, {N, S}, {SF, SF}}, other{{P}, {SF, F}, {N, P}, {NEST}};
  std::vector<Prog> fresh{{P}, {N}, {SF, F}};
  for (auto& a : open1) for (auto& o : other) check({a, o}, th ? 4 : 3);
  for (size_t i = 0; i < open1.size(); ++i) for (size_t j = i; j < open1.size(); ++j) check({open1[i], open1[j]}, th ? 3 : 2);
  for (auto& a : open1) for (auto& o : other) for (auto& f : fresh) check({a, o}, th ? 3 : 2, f);
  for (auto& a : {Prog{N}, Prog{SF}, Prog{COL, N}}) for (auto& b : {Prog{N}, Prog{SF}}) for (auto& f : fresh) check({a, b}, th ? 3 : 2, f);
  // A chain of threads without others.
  for (auto& a : open1) for (auto& b : open1) check({a}, 1, b);
  // Three threads.
  for (size_t i = 0; i < 5; ++i) for (size_t j = i; j < 3; ++j) for (auto& o : {Prog{P}, Prog{SF, F}}) check({open1[i], open1[j], o}, th ? 2 : 1);
  // Destructors.
  auto d1 = tl({{P}, {N}, {SF}, {SF, F}}, {TLA, TLB, TLC});
  for (auto& a : d1) for (auto& o : {Prog{P}, Prog{SF, F}}) { check({a, o}, th ? 3 : 2); if (a.front() != TLC && a.back() != TLC) check({a, o}, th ? 2 : 1, {N}); }
  for (size_t i = 0; i < d1.size(); ++i) for (size_t j = i; j < d1.size(); ++j) check({d1[i], d1[j]}, th ? 2 : 1);
  vx::done();
#endif
  std::vector<int> all{P, N, S, SF, C, CF, F, FN, FE, NEST, FL, COL};
  auto pairs = [&](std::vector<Prog> const& a, std::vector<Prog> const& b, int bound) { for (size_t i = 0; i < a.size(); ++i) for (size_t j = 0; j < b.size(); ++j) check({a[i], b[j]}, bound); };
  auto p1 = progs({P, N, S, SF, NEST, FL}, 1, 1);
  auto p2 = progs(all, 1, 2);
  pairs(p1, p2, th ? 4 : 3);
  auto p2s = progs({P, N, SF, CF, F, FN, S, NEST}, 2, 2);
  for (size_t i = 0; i < p2s.size(); ++i) for (size_t j = i; j < p2s.size(); ++j) check({p2s[i], p2s[j]}, th ? 3 : 2);
  pairs(progs({P, N}, 1, 1), progs({S, SF, C, CF, F, FN, FE, P, COL}, 3, 3), 2);
  pairs(progs({P, N, SF}, 1, 1), progs({SF, CF, F, P, N}, 4, 4), 2);
  // Three threads.
  for (size_t i = 0; i < p1.size(); ++i) for (size_t j = i; j < p1.size(); ++j) for (size_t k = j; k < p1.size(); ++k) check({p1[i], p1[j], p1[k]}, th ? 3 : 2);
  auto p2t = progs({SF, CF, F, N, P}, 2, 2);
  for (size_t i = 0; i < p2t.size(); ++i) for (size_t j = 0; j < p1.size(); ++j) for (size_t k = j; k < p1.size(); ++k) check({p2t[i], p1[j], p1[k]}, th ? 2 : 1);
  vx::done();
}
