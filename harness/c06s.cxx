// C06: all schedules of threads that end the process while others write.
#include "mc.h"
#include "mtmodel.h"
#include "cwd_sys.h"
#include <libcwd/debug.h>
#include "newch.h"
#include <algorithm>
#include <iostream>
#include <map>
#include <mutex>
#include <thread>
using namespace libcwd;

// A mutex that knows its owner.
struct Mut
{
  std::mutex m;
  int owner = -1;
  void lock() { m.lock(); owner = mc_tid(); }
  bool try_lock() { if (!m.try_lock()) return false; owner = mc_tid(); return true; }
  void unlock() { owner = -1; m.unlock(); }
};
static Mut mut;
struct Buf : std::streambuf
{
  void check() { if (mc_controlled() && mut.owner != mc_tid()) mc_fail("writes to the stream without holding its mutex"); }
  int overflow(int c) override { check(); char ch = c; mc_log(&ch, 1); return c; }
  std::streamsize xsputn(char const* s, std::streamsize n) override { check(); mc_log(s, n); return n; }
  int sync() override { check(); mc_log("\1", 1); return 0; }
};
static Buf buf;
static std::ostream os(&buf);
static Channel* ch;
static std::string const LABEL = "CHANNEL ", FATAL = "FATAL   ", CORE = "COREDUMP";

enum Op { P, N, S, SF, C, F, X, XN, XF, K, XNEST, CD, NOPS };
static char const* const opname[] = {"message", "message|nonewline_cf", "continued_cf", "continued_cf|flush_cf", "continued", "finish", "fatal", "fatal|nonewline_cf", "fatal|flush_cf", "core", "message with a fatal one in its operand", "core_dump()"};
typedef std::vector<int> Prog;
static std::string str(Prog const& p) { std::string r; for (int o : p) { if (!r.empty()) r += "; "; r += opname[o]; } return r; }
static bool terminal(int o) { return o >= X; }
static void goes_on() { mc_log("\3", 1); }

static char const* nested(char const* l) { LibcwDoutFatal(libcwd::channels, libcw_do, dc::fatal, l << "dead"); goes_on(); return ""; }
static void real(int op, char const* l)
{
#define OUT(cntrl, ...) LibcwDout(libcwd::channels, libcw_do, cntrl, __VA_ARGS__)
#define DIE(cntrl, ...) do { LibcwDoutFatal(libcwd::channels, libcw_do, cntrl, __VA_ARGS__); goes_on(); } while (0)
  switch (op)
  {
    case P: OUT(*ch, l << "plain"); break;
    case N: OUT(*ch | nonewline_cf, l << "nonl"); break;
    case S: OUT(*ch | continued_cf, l << "start"); break;
    case SF: OUT(*ch | continued_cf | flush_cf, l << "startf"); break;
    case C: OUT(dc::continued, l << "cont"); break;
    case F: OUT(dc::finish, l << "fin"); break;
    case X: DIE(dc::fatal, l << "dead"); break;
    case XN: DIE(dc::fatal | nonewline_cf, l << "dead"); break;
    case XF: DIE(dc::fatal | flush_cf, l << "dead"); break;
    case K: DIE(dc::core, l << "dead"); break;
    case XNEST: OUT(*ch, l << "outer" << nested(l)); break;
    case CD: core_dump(); goes_on(); break;
  }
}
template <class T> static void model(T& t, int op, std::string const& l)
{
  auto die = [&](std::string const& label, bool nonl, bool flush) { t.label = label; t.message(l + "dead", nonl, flush); };
  switch (op)
  {
    case P: t.message(l + "plain", false, false); break;
    case N: t.message(l + "nonl", true, false); break;
    case S: t.begin(l + "start", false); break;
    case SF: t.begin(l + "startf", true); break;
    case C: t.cont(l + "cont", false); break;
    case F: t.finish(l + "fin", false, false); break;
    case X: die(FATAL, false, false); break;
    case XN: die(FATAL, true, false); break;
    case XF: die(FATAL, false, true); break;
    case K: die(CORE, false, false); break;
    case XNEST: t.start(false, false)->pend += l + "outer"; die(FATAL, false, false); break;
    case CD: break;
  }
}
static bool legal(Prog const& p)
{
  int open = 0;
  for (size_t i = 0; i < p.size(); ++i)
  {
    int o = p[i];
    if (terminal(o) && i + 1 < p.size()) return false;
    if (o == S || o == SF) ++open;
    if (o == C && !open) return false;
    if (o == F) { if (!open) return false; --open; }
  }
  return true;
}

// Is there an order of the writes up to the end of the process that gives this output?  The thread that ended it did everything.
static std::string no_flush(std::string s) { s.erase(std::remove(s.begin(), s.end(), '\1'), s.end()); return s; }
struct Merge
{
  std::vector<std::vector<mt::Write>> w;        // Per thread.
  std::string const& out;
  size_t last;
  std::vector<int> order;
  std::vector<size_t> pos;
  size_t best = 0;
  Merge(std::string const& out, size_t last) : out(out), last(last) { }
  bool prefix_ok(std::string& got)
  {
    for (auto& t : w) for (auto& x : t) { x.msg->needs_cont = x.msg->closed = false; }
    mt::Stream s;
    std::vector<size_t> p(w.size(), 0);
    for (int t : order) s.apply(w[t][p[t]++]);
    got = no_flush(s.out);
    if (got.size() > out.size() || out.compare(0, got.size(), got)) return false;
    best = std::max(best, got.size());
    return true;
  }
  bool search()
  {
    std::string got;
    if (!prefix_ok(got)) return false;
    if (pos[last] == w[last].size() && got == out) return true;
    for (size_t t = 0; t < w.size(); ++t)
      if (pos[t] < w[t].size())
      {
        order.push_back(t); ++pos[t];
        if (search()) return true;
        order.pop_back(); --pos[t];
      }
    return false;
  }
};
struct Sink { std::vector<mt::Write>* v; void operator()(mt::Write const& w) const { v->push_back(w); } };
static char const* const letters[] = {"a", "b", "c"};

static void check(std::vector<Prog> const& progs, int bound)
{
  if (!vx::take()) return;
  std::string d;
  for (size_t i = 0; i < progs.size(); ++i) d += (i ? " | " : "") + str(progs[i]);
  vx::describe(d + " (the first one is the main thread, up to " + std::to_string(bound) + " preemptions)");
  if (progs.size() > 2) vx::sample(vx::g.desc);
  std::map<std::string, std::string> seen;
  auto body = [&] {
    std::vector<std::thread> th;
    for (size_t i = 1; i < progs.size(); ++i)
      th.emplace_back([&, i] {
        libcw_do.on(); ch->on();
        for (int o : progs[i]) real(o, letters[i]);
      });
    for (int o : progs[0]) real(o, letters[0]);
    for (auto& t : th) t.join();
    mc_log("\2", 1);
  };
  auto oracle = [&](mc::Result const& r) -> std::string {
    std::string k = r.log + char('0' + r.tid) + char('0' + r.status) + std::to_string(r.code);
    auto f = seen.find(k);
    if (f != seen.end()) return f->second;
    std::string& e = seen[k];
    if (r.status != mcrt::EXITED && r.status != mcrt::ABORTED) return e = "the program is not ended by a fatal message: " + r.str();
    if (r.tid < 0 || r.tid >= (int)progs.size() || !terminal(progs[r.tid].back())) return e = "the process is ended by a thread without fatal message: " + r.str();
    int o = progs[r.tid].back();
    bool core = o == K || o == CD;
    if (core ? r.status != mcrt::ABORTED : r.status != mcrt::EXITED || r.code != 180) return e = "the process ends in the wrong way: " + r.str();
    if (r.log.find('\3') != std::string::npos) return e = "a thread goes on after its fatal message";
    std::string out = no_flush(r.log);
    Merge m(out, r.tid);
    m.w.resize(progs.size());
    for (size_t i = 0; i < progs.size(); ++i)
    {
      mt::Thread<Sink> t(i + 1, LABEL, mt::Cfg(), Sink{&m.w[i]});
      for (int o : progs[i]) model(t, o, letters[i]);
    }
    m.pos.assign(m.w.size(), 0);
    if (!m.search()) e = "no order of the parts written by each thread, up to and including all of thread " + std::to_string(r.tid) + ", gives this output; the first " + std::to_string(m.best) + " characters can be right";
    return e;
  };
  mc::report_races(progs.size() == 2);
  mc::explore(body, oracle, bound);
}

int main(int argc, char** argv)
{
  vx::init(argc, argv);
  Debug(main_reached());
  ch = lw::new_channel("CHANNEL");
  Debug(libcw_do.on());
  ch->on();
  libcw_do.set_ostream(&os, &mut);
  while (channels::dc::warning.is_on()) channels::dc::warning.off();
  bool th = vx::g.thorough;
  auto progs = [&](std::vector<int> const& al, unsigned from, unsigned to) {
    std::vector<Prog> r;
    vx::sequences(al.size(), from, to, [&](std::vector<unsigned> const& s) {
      Prog p;
      for (unsigned i : s) p.push_back(al[i]);
      if (legal(p)) r.push_back(p);
    });
    return r;
  };
  auto dies = [](Prog const& p) { return terminal(p.back()); };
  std::vector<int> all{P, N, S, SF, C, F, X, XN, XF, K, XNEST, CD};
  // Two threads, at least one of which ends the process.
  auto p2 = progs(all, 1, 2);
  for (auto& a : p2) for (auto& b : p2) if (dies(a) || dies(b)) check({a, b}, a.size() + b.size() > 3 && !th ? 2 : 3);
  // Three threads.
  auto p1 = progs({P, N, SF, X, K, XNEST}, 1, 1);
  for (auto& a : p1) for (size_t j = 0; j < p1.size(); ++j) for (size_t k = j; k < p1.size(); ++k) if (dies(a) || dies(p1[j]) || dies(p1[k])) check({a, p1[j], p1[k]}, th ? 3 : 2);
  auto pt = progs({SF, N, P, X, K}, 2, 2);
  for (auto& a : pt) for (size_t j = 0; j < p1.size(); ++j) for (size_t k = j; k < p1.size(); ++k) if (dies(a) && dies(p1[k])) check({a, p1[j], p1[k]}, th ? 2 : 1);
  vx::done();
}
