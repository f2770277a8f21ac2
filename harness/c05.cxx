// C05: switching stream and mutex of a debug object.
//
// Part schedules: all schedules of small programs of threads that write, switch, and ask.
// Part histories: all sequences of the set and get functions by one thread.
#include "mc.h"
#include "cwd_sys.h"
#include <libcwd/debug.h>
#include "newch.h"
#include <iostream>
#include <mutex>
#include <set>
#include <thread>
using namespace libcwd;

static std::string hist;
static void ev(std::string const& s) { std::string e = s + '\x1e'; if (mc_controlled()) mc_log(e.data(), e.size()); else hist += e; }

#define NOT_INSTRUMENTED __attribute__((no_sanitize("thread"), noinline))
static int me() { return mc_controlled() ? mc_tid() : 0; }
struct Mut
{
  std::mutex m;
  int owner = -2;
  NOT_INSTRUMENTED void own(int o) { owner = o; }
  NOT_INSTRUMENTED bool mine() const { return owner == me(); }
  void lock() { m.lock(); own(me()); }
  bool try_lock() { if (!m.try_lock()) return false; own(me()); return true; }
  void unlock() { own(-2); m.unlock(); }
};
// A different type, as set_ostream is a template.
struct Mut2 : Mut { };
static Mut m0;
static Mut2 m1;
static Mut* const mut[] = {&m0, &m1};
// The memory of a stream: it is free for other use when set_ostream for another stream returned (see retire).
static int cell[2];
static bool retire;
struct Buf : std::streambuf
{
  char id;
  Buf(char id) : id(id) { }
  void w(char const* s, size_t n)
  {
    std::string e = "W";
    e += char('0' + me()); e += id;
    for (Mut* m : mut) e += m->mine() ? '1' : '0';
    ev(e + std::string(s, n));
    ++cell[id - '0'];
  }
  int overflow(int c) override { char ch = c; w(&ch, 1); return c; }
  std::streamsize xsputn(char const* s, std::streamsize n) override { w(s, n); return n; }
};
static Buf b0('0'), b1('1');
static std::ostream os0(&b0), os1(&b1);
static std::ostream* const os[] = {&os0, &os1};
static Channel* ch;
static DebugObject second_do;
static std::string const LABEL = "CHANNEL";
static std::string const LONG(600, 'x');

enum Op { P, NEST, FL, LNG, SFIN, Q, APP, APPGET, SET00, SET11, SET01, SET10, SET0, SET1, GET, HAS };
static char const* const opname[] = {"message", "message in a message", "message|flush_cf", "long message", "continued_cf, finish", "message on another debug object", "application writes to stream 0", "application writes to stream 0 and calls get_ostream() and has_mutex() holding the mutex",
  "set_ostream(0, mutex 0)", "set_ostream(1, mutex 1)", "set_ostream(0, mutex 1)", "set_ostream(1, mutex 0)", "set_ostream(0)", "set_ostream(1)", "get_ostream()", "has_mutex()"};
typedef std::vector<int> Prog;
static std::string str(Prog const& p) { std::string r; for (int o : p) { if (!r.empty()) r += "; "; r += opname[o]; } return r; }

static char const* nested(std::string const& txt) { LibcwDout(libcwd::channels, libcw_do, *ch, txt << "nested"); return ""; }
static void real(int op, std::string const& l, int id)
{
  auto set = [&](int s, int m, auto f) { ev("S" + std::to_string(id) + std::to_string(s) + (m < 0 ? "k" : std::to_string(m))); f(); ev("s" + std::to_string(id)); if (retire) cell[!s] = 0; };
  auto get = [&] { ev("G" + std::to_string(id)); std::ostream* o = libcw_do.get_ostream(); ev("g" + std::to_string(id) + (o == &os0 ? "0" : o == &os1 ? "1" : "?")); };
  auto has = [&] { if (!libcw_do.has_mutex()) ev("H"); };
  switch (op)
  {
    case P: LibcwDout(libcwd::channels, libcw_do, *ch, l << "plain"); break;
    case NEST: LibcwDout(libcwd::channels, libcw_do, *ch, l << "outer" << nested(l)); break;
    case FL: LibcwDout(libcwd::channels, libcw_do, *ch | flush_cf, l << "flush"); break;
    case LNG: LibcwDout(libcwd::channels, libcw_do, *ch, l << "long" << LONG); break;
    case SFIN: LibcwDout(libcwd::channels, libcw_do, *ch | continued_cf, l << "start"); LibcwDout(libcwd::channels, libcw_do, dc::finish, "finish"); break;
    case Q: LibcwDout(libcwd::channels, second_do, *ch, l << "second"); break;
    case APP: m0.lock(); os0 << (l + "app\n"); m0.unlock(); break;
    case APPGET: m0.lock(); os0 << (l + "appget\n"); get(); has(); m0.unlock(); break;
    case SET00: set(0, 0, [] { libcw_do.set_ostream(&os0, &m0); }); break;
    case SET11: set(1, 1, [] { libcw_do.set_ostream(&os1, &m1); }); break;
    case SET01: set(0, 1, [] { libcw_do.set_ostream(&os0, &m1); }); break;
    case SET10: set(1, 0, [] { libcw_do.set_ostream(&os1, &m0); }); break;
    case SET0: set(0, -1, [] { libcw_do.set_ostream(&os0); }); break;
    case SET1: set(1, -1, [] { libcw_do.set_ostream(&os1); }); break;
    case GET: get(); break;
    case HAS: has(); break;
  }
}
// The lines of a statement; first = 1 for the application and the other debug object, that use stream 0 and mutex 0.
static std::vector<std::pair<int, std::string>> lines(int op, std::string const& l)
{
  std::string p = LABEL + ": ";
  switch (op)
  {
    case P: return {{0, p + l + "plain\n"}};
    case NEST: return {{0, p + "    " + l + "nested\n"}, {0, p + l + "outer\n"}};
    case FL: return {{0, p + l + "flush\n"}};
    case LNG: return {{0, p + l + "long" + LONG + "\n"}};
    case SFIN: return {{0, p + l + "startfinish\n"}};
    case Q: return {{1, p + l + "second\n"}};
    case APP: return {{2, l + "app\n"}};
    case APPGET: return {{2, l + "appget\n"}};
    default: return {};
  }
}

// What a stream and mutex may be at a moment.
struct State
{
  char stream, mutex;
  std::map<std::string, std::string> pending;                   // Calls that did not have their effect yet.
  std::map<std::string, std::vector<std::string>> linger;       // Calls that did not return yet: what they replaced.
  bool operator<(State const& b) const { return std::tie(stream, mutex, pending, linger) < std::tie(b.stream, b.mutex, b.pending, b.linger); }
};
static void close(std::set<State>& ss)
{
  std::vector<State> todo(ss.begin(), ss.end());
  while (!todo.empty())
  {
    State s = todo.back(); todo.pop_back();
    for (auto& p : s.pending)
    {
      State n = s;
      n.pending.erase(p.first);
      if (p.second[0] == 'G') { if (s.stream != p.second[1]) continue; }
      else
      {
        n.linger[p.first].push_back({s.stream, s.mutex});
        for (auto& l : s.linger) n.linger[p.first].insert(n.linger[p.first].end(), l.second.begin(), l.second.end());
        n.stream = p.second[0];
        if (p.second[1] != 'k') n.mutex = p.second[1];
      }
      if (ss.insert(n).second) todo.push_back(n);
    }
  }
}
static std::string judge(std::string const& log, std::vector<Prog> const& progs, char s0, char mu0)
{
  std::vector<std::string> e;
  for (size_t p = 0, q; p < log.size(); p = q + 1) { q = log.find('\x1e', p); e.push_back(log.substr(p, q - p)); }
  std::vector<std::string> expected_own;
  std::set<State> ss{{s0, mu0, {}, {}}};
  // Collect the lines.
  std::string cur[2];           // Per stream.
  char who[2] = {0, 0};
  size_t next[8] = {};
  std::vector<std::vector<std::pair<int, std::string>>> want(progs.size());
  for (size_t i = 0; i < progs.size(); ++i) for (size_t k = 0; k < progs[i].size(); ++k) for (auto& l : lines(progs[i][k], std::string(1, 'a' + i) + std::to_string(k))) want[i].push_back(l);
  for (size_t i = 0; i < e.size(); ++i)
  {
    std::string const& x = e[i];
    std::set<State> n;
    switch (x[0])
    {
      case 'S': for (State s : ss) { s.pending[x.substr(1, 1)] = x.substr(2); n.insert(s); } break;
      case 'G':
      {
        size_t j = i + 1;
        while (j < e.size() && e[j].compare(0, 2, "g" + x.substr(1, 1))) ++j;
        if (j == e.size()) return "get_ostream() did not return";
        for (State s : ss) { s.pending[x.substr(1, 1)] = "G" + e[j].substr(2); n.insert(s); }
        break;
      }
      case 's': case 'g':
        close(ss);
        for (State s : ss) if (!s.pending.count(x.substr(1, 1))) { s.linger.erase(x.substr(1, 1)); n.insert(s); }
        if (n.empty()) return x[0] == 's' ? "no order of the calls explains the events up to the return of a set_ostream" : "get_ostream() returned stream " + x.substr(2) + ", which was not set at any time during the call";
        break;
      case 'H': return "has_mutex() returns false";
      case 'W':
      {
        int t = x[1] - '0', st = x[2] - '0';
        std::string txt = x.substr(5);
        if (!cur[st].empty() && who[st] != x[1]) return "thread " + std::to_string(t) + " wrote \"" + vx::esc(txt) + "\" to stream " + x[2] + " after an incomplete line \"" + vx::esc(cur[st]) + "\" of thread " + who[st];
        who[st] = x[1];
        cur[st] += txt;
        // Which line is this?
        int ti = t == 0 ? (int)progs.size() - 1 : t - 1;
        if (next[ti] >= want[ti].size()) return "thread " + std::to_string(t) + " writes \"" + vx::esc(txt) + "\" after everything that it should have written";
        auto& w = want[ti][next[ti]];
        if (w.second.compare(0, cur[st].size(), cur[st])) return "thread " + std::to_string(t) + " wrote \"" + vx::esc(cur[st]) + "\" to stream " + x[2] + " where \"" + vx::esc(w.second) + "\" is expected";
        if (cur[st] == w.second) { cur[st].clear(); ++next[ti]; }
        if (w.first)
        {
          if (st != 0 || x[3] != '1') return "a line of " + std::string(w.first == 1 ? "another debug object" : "the application") + " is on stream " + x[2] + (x[3] == '1' ? "" : " without its mutex");
          n = ss;
        }
        else
        {
          close(ss);
          bool stream_ok = false;
          for (State const& s : ss)
          {
            bool ok = false;
            auto may = [&](char st, char m) { if (st == x[2]) { stream_ok = true; if (m == 'n' || x[3 + m - '0'] == '1') ok = true; } };
            may(s.stream, s.mutex);
            for (auto& l : s.linger) for (auto& v : l.second) may(v[0], v[1]);
            if (ok) n.insert(s);
          }
          if (n.empty()) return "thread " + std::to_string(t) + " writes \"" + vx::esc(txt) + "\" to stream " + x[2] + (stream_ok ? " without holding the mutex that belongs to it" : ", which is not the one that was set");
        }
        break;
      }
    }
    ss = n;
  }
  for (size_t i = 0; i < progs.size(); ++i) if (next[i] != want[i].size()) return "thread " + std::to_string(i + 1 == progs.size() ? 0 : i + 1) + " did not write \"" + vx::esc(want[i][next[i]].second) + "\"";
  return "";
}

static void check(std::vector<Prog> progs, int bound)
{
  // A stream that is used by others too has to keep its mutex.
  bool shared = false, other = false;
  for (auto& p : progs) for (int o : p) { if (o == Q || o == APP || o == APPGET) shared = true; if (o == SET01) other = true; }
  if (shared && other) return;
  if (!vx::take()) return;
  std::string d;
  for (size_t i = 0; i < progs.size(); ++i) d += (i ? " | " : "") + str(progs[i]);
  vx::describe(d + " (up to " + std::to_string(bound) + " preemptions)");
  if (progs.size() > 2) vx::sample(vx::g.desc);
  // When one thread switches, and only the debug object writes, then the stream that was replaced is no longer in use.
  int switching = 0;
  for (auto& p : progs) { bool sw = false; for (int o : p) if (o >= SET00 && o <= SET1) sw = true; switching += sw; }
  retire = switching <= 1 && !shared;
  progs.push_back({GET, HAS, P, SET00, P});      // Of the main thread, in the end.
  std::map<std::string, std::string> seen;
  mc::report_races(bound <= 2 || progs.size() == 3);
  mc::explore([&] {
    std::vector<std::thread> th;
    for (size_t i = 0; i + 1 < progs.size(); ++i)
      th.emplace_back([&, i] {
        libcw_do.on(); second_do.on(); ch->on();
        for (size_t k = 0; k < progs[i].size(); ++k) real(progs[i][k], std::string(1, 'a' + i) + std::to_string(k), i + 1);
      });
    for (auto& t : th) t.join();
    for (size_t k = 0; k < progs.back().size(); ++k) real(progs.back()[k], std::string(1, 'a' + progs.size() - 1) + std::to_string(k), 0);
  }, [&](mc::Result const& r) -> std::string {
    if (!r.finished()) return "the program " + r.str();
    auto f = seen.find(r.log);
    if (f != seen.end()) return f->second;
    return seen[r.log] = judge(r.log, progs, '0', '0');
  }, bound);
}

int main(int argc, char** argv)
{
  vx::init(argc, argv);
  Debug(main_reached());
  ch = lw::new_channel("CHANNEL");
  Debug(libcw_do.on());
  second_do.on();
  ch->on();
  while (channels::dc::warning.is_on()) channels::dc::warning.off();
  { std::string l(ch->get_label(), strcspn(ch->get_label(), " ")); const_cast<std::string&>(LABEL) = ch->get_label(); }
  second_do.set_ostream(&os0, &m0);
  bool th = vx::g.thorough;
  if (argc > 1 && !strcmp(argv[1], "histories"))
  {
    // One thread; the first set_ostream is without or with a mutex.
    mc_setup(0);
    std::vector<int> al{P, SFIN, SET00, SET11, SET01, SET10, SET0, SET1};
    vx::sequences(al.size(), 1, th ? 6 : 5, [&](std::vector<unsigned> const& s) {
      if (!vx::take()) return;
      std::string d;
      Prog p;
      for (unsigned i : s) { p.push_back(al[i]); d += std::string(d.empty() ? "" : "; ") + opname[al[i]]; }
      vx::describe(d);
      hist.clear();
      // A debug object can not forget its mutex; it has one after the first call with a mutex.
      libcw_do.set_ostream(&os0, &m0);
      Prog q;
      for (int o : p) { q.push_back(o); if (o >= SET00) { q.push_back(GET); q.push_back(HAS); q.push_back(P); } }
      for (size_t k = 0; k < q.size(); ++k) real(q[k], "a" + std::to_string(k), 0);
      ++vx::g.cases; vx::g.transitions += q.size();
      vx::state(vx::hash(hist)); vx::outcome(hist);
      std::string e = judge(hist, {q}, '0', '0');
      if (!e.empty()) vx::fail("history", e + "\n  events: " + vx::esc(hist));
    });
    vx::done();
  }
  libcw_do.set_ostream(&os0, &m0);
  auto progs = [&](std::vector<int> const& al, unsigned n) {
    std::vector<Prog> r;
    vx::sequences(al.size(), n, n, [&](std::vector<unsigned> const& s) { Prog p; for (unsigned i : s) p.push_back(al[i]); r.push_back(p); });
    return r;
  };
  std::vector<Prog> w1 = progs({P, NEST, FL, LNG, SFIN, Q, APP, APPGET}, 1), s1 = progs({SET00, SET11, SET01, SET10, SET0, SET1, GET, HAS}, 1), s2 = progs({SET00, SET11, SET01, SET10, SET0, SET1, GET}, 2);
  auto sw2 = progs({P, SET11, SET1, SET00, GET}, 2);
  int b = th ? 4 : 3;
  for (auto& w : w1) for (auto& s : s1) check({w, s}, b);
  for (auto& w : w1) for (auto& s : s2) check({w, s}, b);
  for (auto& w : progs({P, Q, APPGET, SFIN}, 2)) for (auto& s : s1) check({w, s}, b);
  // Two threads that switch.
  for (size_t i = 0; i < s1.size(); ++i) for (size_t j = i; j < s1.size(); ++j) check({s1[i], s1[j]}, b);
  for (size_t i = 0; i < sw2.size(); ++i) for (size_t j = i; j < sw2.size(); ++j) check({sw2[i], sw2[j]}, b);
  // Three threads.
  auto w3 = progs({P, SFIN, Q, APPGET}, 1), s3 = progs({SET11, SET01, SET1, GET}, 1);
  for (size_t i = 0; i < w3.size(); ++i) for (size_t j = i; j < w3.size(); ++j) for (auto& s : s3) check({w3[i], w3[j], s}, th ? 3 : 2);
  for (auto& w : w3) for (size_t i = 0; i < s3.size(); ++i) for (size_t j = i; j < s3.size(); ++j) check({w, s3[i], s3[j]}, th ? 3 : 2);
  for (auto& s : s2) check({{P}, {P}, s}, th ? 2 : 1);
  vx::done();
}
