// C07: all schedules of threads that change and use their debug state at the same time.
#include "mc.h"
#include "cwd_sys.h"
#include <libcwd/debug.h>
#include "newch.h"
#include "c07ops.h"
#include <iostream>
#include <mutex>
#include <thread>

static void log(char kind, std::string const& s) { std::string t = std::to_string(mc_controlled() ? mc_tid() : 0) + kind + s + '\x1e'; mc_log(t.data(), t.size()); }
static std::mutex mut;
struct Buf : std::streambuf
{
  int overflow(int c) override { log('W', std::string(1, c)); return c; }
  std::streamsize xsputn(char const* s, std::streamsize n) override { log('W', std::string(s, n)); return n; }
};
static Buf buf;
static std::ostream os(&buf);
typedef std::vector<int> Prog;
static std::string str(Prog const& p) { std::string r; for (int o : p) { if (!r.empty()) r += "; "; r += opname[o]; } return r; }
static void run(Prog const& p)
{
  log('S', state());
  for (int op : p) { real(op); log('S', state()); }
}
// What every thread did.
static std::vector<std::string> split(std::string const& l, size_t n)
{
  std::vector<std::string> r(n);
  for (size_t p = 0, q; p < l.size(); p = q + 1)
  {
    q = l.find('\x1e', p);
    size_t t = l[p] - '0';
    if (t < n) r[t] += l.substr(p + (l[p + 1] == 'W' ? 2 : 1), q - p - 1 - (l[p + 1] == 'W')) + (l[p + 1] == 'W' ? "" : "\n");
  }
  return r;
}
static std::map<Prog, std::string> memo;
static std::string const& alone(Prog const& p)
{
  auto it = memo.find(p);
  if (it != memo.end()) return it->second;
  std::string* e = &memo[p];
  std::function<void()> body = [&] { std::thread([&] { run(p); }).join(); };
  mc::Runner r(body, 1);
  mc::Result res = r.run({}, 0);
  if (!res.finished()) vx::fail("alone", "the program " + res.str());
  *e = split(res.log, 2)[1];
  return *e;
}
static std::string const initial = "S{0,0,,: ,,}{0,0,,: ,,}000000";

// The last program is that of the first thread.
static void check(std::vector<Prog> const& progs, int bound, Prog const& first = {})
{
  if (!vx::take()) return;
  std::string d;
  for (auto& p : progs) d += (d.empty() ? "" : " | ") + str(p);
  if (!first.empty()) d += " | first thread: " + str(first);
  vx::describe(d + " (up to " + std::to_string(bound) + " preemptions)");
  vx::sample(vx::g.desc);
  std::vector<std::string> want;
  for (auto& p : progs)
  {
    want.push_back(alone(p));
    if (want.back().compare(0, initial.size(), initial)) vx::fail("new-thread", "a new thread starts with the state " + want.back().substr(0, initial.size()));
  }
  std::map<std::string, std::string> seen;
  std::string main_alone;
  mc::report_races(true);
  mc::explore([&] {
    std::vector<std::thread> th;
    for (auto& p : progs) th.emplace_back([&] { run(p); });
    run(first);
    for (auto& t : th) t.join();
    log('S', state());
  }, [&](mc::Result const& r) -> std::string {
    if (!r.finished()) return "the program " + r.str();
    auto f = seen.find(r.log);
    if (f != seen.end()) return f->second;
    std::string e;
    auto got = split(r.log, progs.size() + 1);
    for (size_t i = 0; i < progs.size() && e.empty(); ++i)
      if (got[i + 1] != want[i]) e = "thread " + std::to_string(i + 1) + " printed and reported\n" + got[i + 1] + "\ninstead of\n" + want[i] + "\nwhich it does when it is alone";
    if (main_alone.empty()) main_alone = got[0];        // The first schedule has no preemptions.
    if (e.empty() && got[0] != main_alone) e = "the first thread printed and reported\n" + got[0] + "\ninstead of\n" + main_alone;
    if (e.empty() && first.empty())
    {
      size_t h = got[0].size() / 2;
      if (got[0].substr(0, h) != got[0].substr(h)) e = "the state of the first thread changed from " + got[0].substr(0, h) + " to " + got[0].substr(h);
    }
    return seen[r.log] = e;
  }, bound);
}

int main(int argc, char** argv)
{
  vx::init(argc, argv);
  Debug(main_reached());
  c1 = lw::new_channel("ONE");
  c2 = lw::new_channel("TWO");
  libcw_do.set_ostream(&os, &mut);
  other.set_ostream(&os, &mut);
  while (channels::dc::warning.is_on()) channels::dc::warning.off();
  bool th = vx::g.thorough;
  // Switch on, do things, write.
  auto prog = [](std::vector<int> ops) {
    Prog p{ON, CH_ON};
    p.insert(p.end(), ops.begin(), ops.end());
    p.push_back(PLAIN);
    return p;
  };
  auto legal = [](Prog const& p) { Abs a; for (int o : p) if (!allowed(a, o)) return false; return true; };
  std::vector<Prog> one, two, raw;
  for (int o = 0; o < END; ++o)
  {
    Prog p = prog({o});
    if (o == FIN) p = prog({START, FIN});
    if (o == POP) p = prog({PUSH, POP});
    if (legal(p)) one.push_back(p);
    if (legal({o})) raw.push_back({o, PLAIN});
  }
  for (int a : {PUSH, MARGIN, IND, COLOR, START, NEST, FORCE, C2_ON}) for (int b : {PUSH, POP, MARKER, IND, FIN, NEST, SCOPE, FORMAT}) { Prog p = prog({a, b}); if (legal(p)) two.push_back(p); }
  auto pairs = [&](std::vector<Prog> const& v, int bound) { for (size_t i = 0; i < v.size(); ++i) for (size_t j = i; j < v.size(); ++j) check({v[i], v[j]}, bound); };
  pairs(one, th ? 3 : 2);
  pairs(raw, th ? 3 : 2);
  pairs(two, th ? 2 : 1);
  for (auto& p : one) for (auto& q : {Prog{MARGIN, PLAIN}, Prog{PUSH, IND, NEST, POP}, Prog{COLOR, FORCE}, Prog{FORMAT, C2_ON}}) check({p}, th ? 3 : 2, q);
  vx::done();
}
