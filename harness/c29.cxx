// C29: reference counted objects: every sequence of operations on three pointers; every schedule of threads that share an object.
#ifdef VX_MC
#include "mc.h"
#include <thread>
#else
#include "vx.h"
#endif
#include "cwd_sys.h"
#include "utils/AIRefCount.h"
#include <memory>
#include <optional>

typedef std::vector<int> Prog;

#ifdef VX_MC
static void log(char c) { mc_log(&c, 1); }
struct Obj : AIRefCount { int volatile payload = 42; Obj() { } ~Obj() { log('d'); payload = 0; } };
typedef boost::intrusive_ptr<Obj> Ptr;
enum Op { COPY, DROP, READ, INHIBIT, ALLOW, ALLOW2, DEFER, MOVE };
static char const* const opname[] = {"copy", "drop", "use", "inhibit_deletion", "allow_deletion", "allow_deletion(2)", "allow_deletion(deferred)", "move"};
static std::string str(Prog const& p) { std::string r; for (int o : p) { if (!r.empty()) r += "; "; r += opname[o]; } return r.empty() ? "drop all" : r; }
struct User
{
  std::vector<Ptr> h;
  Obj* o = nullptr;
  int inhibited = 0;
  void drop() { log('-'); h.pop_back(); }
  // A reference is logged as soon as it exists, and as soon as it is going to be dropped.
  void allow(int count, bool defer)
  {
    for (int i = 0; i < count; ++i) log('-');
    inhibited -= count;
    int prev = o->allow_deletion(defer, count);
    if (prev < count) mc_fail("allow_deletion returns less than there were");
    if (defer && prev == count) { o->mark_deleted(); delete o; }
  }
  bool legal(Prog const& p) const
  {
    int n = h.size(), i = inhibited;
    for (int o : p)
    {
      if ((o == COPY || o == READ || o == DROP || o == MOVE) && !n) return false;
      if (o == INHIBIT && n + i == 0) return false;
      if ((o == ALLOW || o == DEFER) && !i) return false;
      if (o == ALLOW2 && i < 2) return false;
      n += (o == COPY) - (o == DROP); i += (o == INHIBIT) - (o == ALLOW || o == DEFER) - 2 * (o == ALLOW2);
    }
    return true;
  }
  void run(int op)
  {
    switch (op)
    {
      case COPY: log('+'); h.emplace_back(h.back()); break;
      case DROP: drop(); break;
      case READ: if (h.back()->payload != 42) mc_fail("the object was destroyed"); break;
      case INHIBIT: { log('+'); int prev = o->inhibit_deletion(); if (prev < 1) mc_fail("inhibit_deletion returns less than one"); ++inhibited; break; }
      case ALLOW: allow(1, false); break;
      case ALLOW2: allow(2, false); break;
      case DEFER: allow(1, true); break;
      case MOVE: { Ptr p(std::move(h.back())); h.back() = std::move(p); break; }
    }
  }
  void end() { while (!h.empty()) drop(); while (inhibited) allow(1, false); }
};
static void check(std::vector<Prog> const& progs, int bound)
{
  std::string d;
  for (auto& p : progs) { User u; u.h.resize(1); if (!u.legal(p)) return; d += (d.empty() ? "" : " | ") + str(p); }
  if (!vx::take()) return;
  vx::describe(d + " (up to " + std::to_string(bound) + " preemptions)");
  vx::sample(vx::g.desc);
  mc::report_races(true);
  mc::explore([&] {
    // Every thread gets one reference; main drops its own somewhere.
    std::vector<User> u(progs.size());
    std::vector<std::thread> th;
    {
      Ptr p(new Obj);
      log('+');
      for (auto& x : u) { x.o = p.get(); x.h.reserve(8); x.h.push_back(p); log('+'); }
      for (size_t i = 0; i < progs.size(); ++i) th.emplace_back([&, i] { for (int o : progs[i]) u[i].run(o); u[i].end(); });
      log('-');
    }
    for (auto& t : th) t.join();
    log('.');
  }, [&](mc::Result const& r) -> std::string {
    if (!r.finished()) return "the program " + r.str();
    int refs = 0, deleted = 0;
    for (char c : r.log)
    {
      if (c == '+') ++refs;
      if (c == '-') --refs;
      if (c == 'd' && ++deleted > 1) return "the object is destroyed twice";
      if (c == 'd' && refs > 0) return "the object is destroyed while there are " + std::to_string(refs) + " references";
    }
    return deleted == 1 ? "" : "the object is not destroyed";
  }, bound);
}
int main(int argc, char** argv)
{
  vx::init(argc, argv);
  bool th = vx::g.thorough;
  std::vector<Prog> p[4];
  p[0].push_back({});
  for (int n = 1; n < 4; ++n) vx::sequences(8, n, n, [&](std::vector<unsigned> const& s) { p[n].push_back(Prog(s.begin(), s.end())); });
  auto upto = [&](int n) { std::vector<Prog> r; for (int i = 0; i <= n; ++i) for (auto& x : p[i]) { User u; u.h.resize(1); if (u.legal(x)) r.push_back(x); } return r; };
  auto a = upto(2), b = upto(3);
  for (size_t i = 0; i < a.size(); ++i) for (size_t j = i; j < a.size(); ++j) check({a[i], a[j]}, th ? 6 : 4);
  for (auto& x : p[3]) for (auto& y : upto(1)) check({x, y}, th ? 5 : 3);
  auto c = upto(1);
  for (size_t i = 0; i < c.size(); ++i) for (size_t j = i; j < c.size(); ++j) for (size_t k = j; k < c.size(); ++k) check({c[i], c[j], c[k]}, th ? 4 : 3);
  if (th) for (size_t i = 0; i < b.size(); ++i) for (size_t j = i; j < b.size(); ++j) check({b[i], b[j]}, 3);
  vx::done();
}
#else
struct Reg { int deleted[16]; int n; };
static Reg reg;
struct Obj : AIRefCount
{
  int id;
  Obj() : id(reg.n++) { }
  Obj(Obj const& o) : AIRefCount(o), id(reg.n++) { }
  Obj& operator=(Obj const& o) { AIRefCount::operator=(o); return *this; }
  ~Obj() { ++reg.deleted[id]; }
};
typedef boost::intrusive_ptr<Obj> Ptr;
enum { NEW, CP, CLR, MV, SWAP, INH, ALW, ALW2, DEF, COPYOBJ, ASSIGNOBJ };
struct O { int k, i, j; };
static std::string str(O const& o)
{
  std::string i = std::to_string(o.i), j = std::to_string(o.j);
  switch (o.k)
  {
    case NEW: return "p" + i + " = new";
    case CP: return "p" + i + " = p" + j;
    case CLR: return "p" + i + " = null";
    case MV: return "p" + i + " = move(p" + j + ")";
    case SWAP: return "swap(p" + i + ", p" + j + ")";
    case INH: return "p" + i + "->inhibit_deletion()";
    case ALW: return "object" + i + ".allow_deletion()";
    case ALW2: return "object" + i + ".allow_deletion(false, 2)";
    case DEF: return "object" + i + ".allow_deletion(true)";
    case COPYOBJ: return "p" + i + " = new copy of *p" + j;
    default: return "*p" + i + " = *p" + j;
  }
}
constexpr int MAXOBJ = 3;
int main(int argc, char** argv)
{
  vx::init(argc, argv);
  std::vector<O> ops;
  for (int i = 0; i < 3; ++i)
  {
    for (int k : {NEW, CLR, INH, ALW, ALW2, DEF}) ops.push_back({k, i, 0});
    for (int j = 0; j < 3; ++j) { ops.push_back({CP, i, j}); ops.push_back({MV, i, j}); if (i < j) ops.push_back({SWAP, i, j}); if (i != j) { ops.push_back({ASSIGNOBJ, i, j}); ops.push_back({COPYOBJ, i, j}); } }
  }
  // The state of the model.
  struct M { int p[3] = {-1, -1, -1}; int inh[MAXOBJ] = {}; bool dead[MAXOBJ] = {}; int n = 0;
    int refs(int o) const { int r = inh[o]; for (int x : p) r += x == o; return r; } };
  auto apply = [](M& m, O const& o, int& prev, bool& del) -> bool {
    prev = -1; del = false;
    switch (o.k)
    {
      case NEW: if (m.n == MAXOBJ) return false; m.p[o.i] = m.n++; break;
      case CP: m.p[o.i] = m.p[o.j]; break;
      case CLR: if (m.p[o.i] < 0) return false; m.p[o.i] = -1; break;
      case MV: if (o.i == o.j) return false; m.p[o.i] = m.p[o.j]; m.p[o.j] = -1; break;
      case SWAP: std::swap(m.p[o.i], m.p[o.j]); break;
      case INH: if (m.p[o.i] < 0 || m.inh[m.p[o.i]] == 3) return false; prev = m.refs(m.p[o.i]); ++m.inh[m.p[o.i]]; break;
      case ALW: case DEF: case ALW2: { int c = o.k == ALW2 ? 2 : 1; if (o.i >= m.n || m.inh[o.i] < c) return false; prev = m.refs(o.i); m.inh[o.i] -= c; del = o.k == DEF && m.refs(o.i) == 0; break; }
      case COPYOBJ: if (m.n == MAXOBJ || m.p[o.j] < 0) return false; m.p[o.i] = m.n++; break;
      case ASSIGNOBJ: if (m.p[o.i] < 0 || m.p[o.j] < 0) return false; break;
    }
    for (int i = 0; i < m.n; ++i) if (m.refs(i) == 0) m.dead[i] = true;
    return true;
  };
  unsigned depth = vx::g.thorough ? 6 : 5;
  // Depth first over the applicable sequences; every maximal sequence is executed from the start.
  std::vector<O> seq;
  auto execute = [&] {
    if (!vx::take()) return;
    auto describe = [&] { std::string d; for (auto& o : seq) d += (d.empty() ? "" : "; ") + str(o); return d; };
    vx::describe(describe());
    vx::sample(vx::g.desc);
    memset(&reg, 0, sizeof reg);
    M m;
    Obj* raw[MAXOBJ] = {};
    std::string hist;
    auto compare = [&](char const* when) {
      for (int i = 0; i < m.n; ++i)
      {
        ++vx::g.evals;
        if (reg.deleted[i] != m.dead[i]) vx::fail("history", std::string(when) + ": object" + std::to_string(i) + " is destroyed " + std::to_string(reg.deleted[i]) + " times while " + std::to_string(m.refs(i)) + " references to it exist");
        if (!m.dead[i] && raw[i]->read_count_racy() != m.refs(i)) vx::fail("history", std::string(when) + ": object" + std::to_string(i) + " counts " + std::to_string(raw[i]->read_count_racy()) + " references instead of " + std::to_string(m.refs(i)));
        if (!m.dead[i] && raw[i]->is_destructed()) vx::fail("history", std::string(when) + ": is_destructed() of object" + std::to_string(i) + " is true");
        hist += std::to_string(m.dead[i] ? -1 : m.refs(i)) + ",";
      }
      vx::state(vx::hash(hist));
    };
    {
      Ptr p[3];
      for (O const& o : seq)
      {
        int want, got = -1; bool del;
        if (!apply(m, o, want, del)) abort();
        switch (o.k)
        {
          case NEW: { Obj* x = new Obj; raw[x->id] = x; p[o.i] = x; break; }
          case CP: p[o.i] = p[o.j]; break;
          case CLR: p[o.i] = nullptr; break;
          case MV: p[o.i] = std::move(p[o.j]); break;
          case SWAP: p[o.i].swap(p[o.j]); break;
          case INH: got = p[o.i]->inhibit_deletion(); break;
          case ALW: got = raw[o.i]->allow_deletion(); break;
          case ALW2: got = raw[o.i]->allow_deletion(false, 2); break;
          case DEF: got = raw[o.i]->allow_deletion(true); if (del) { if (reg.deleted[o.i]) vx::fail("history", "deferred deletion: the object is destroyed already"); raw[o.i]->mark_deleted(); if (!raw[o.i]->is_destructed()) vx::fail("history", "is_destructed() is false"); delete raw[o.i]; } break;
          case COPYOBJ: { Obj* x = new Obj(*p[o.j]); raw[x->id] = x; p[o.i] = x; break; }
          case ASSIGNOBJ: *p[o.i] = *p[o.j]; break;
        }
        ++vx::g.transitions;
        if (got != want) vx::fail("history", str(o) + " returns " + std::to_string(got) + " instead of " + std::to_string(want));
        compare(str(o).c_str());
      }
      for (int& x : m.p) x = -1;
      for (int i = 0; i < m.n; ++i) if (m.refs(i) == 0) m.dead[i] = true;
    }
    compare("after the end of all pointers");
    for (int i = 0; i < m.n; ++i) while (m.inh[i] > 0) { if (--m.inh[i] == 0) m.dead[i] = true; raw[i]->allow_deletion(); }
    compare("after allowing deletion");
    ++vx::g.traces;
    vx::outcome(hist);
  };
  std::function<void(M const&, unsigned)> rec = [&](M const& m, unsigned d) {
    if (d == depth) { execute(); return; }
    bool any = false;
    for (O const& o : ops)
    {
      M n = m;
      int prev; bool del;
      if (!apply(n, o, prev, del)) continue;
      any = true;
      seq.push_back(o);
      rec(n, d + 1);
      seq.pop_back();
    }
    if (!any) execute();
  };
  rec(M(), 0);
  vx::done();
}
#endif
