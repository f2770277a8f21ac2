// C16: every operation sequence over three lockable_auto_ptr's, single-object and array form.
#include "cwd_sys.h"
#include <cstddef>
#include <libcwd/lockable_auto_ptr.h>
#include "vx.h"
#include <new>
#include <optional>
using libcwd::lockable_auto_ptr;

struct Reg { int live[64]; int deleted[64]; int n; };
static Reg reg;
struct Base { int id; Base() : id(-1) { } Base(int i) : id(i) { } virtual ~Base() { if (id >= 0) { ++reg.deleted[id]; } } };
struct Derived : Base { using Base::Base; Derived() { } int pad[3]; };

// The reference model: what each pointer points at, owns and whether it is locked.
struct MP { bool exists = true; int obj = -1; bool owner = false, locked = false; };

struct Op { int kind, i, j; };
enum { NEW, DEL, COPY, ASSIGN, RESET, RELEASE, ADOPT, LOCK, UNLOCK, DEFAULT };
static char const* names[] = {"new", "destroy", "copy-construct", "assign", "reset", "release", "adopt", "lock", "unlock", "default-construct"};

template <bool ARR>
struct System
{
  using P = lockable_auto_ptr<Base, ARR>;
  using D = lockable_auto_ptr<Derived, ARR>;
  std::optional<P> p[2];
  std::optional<D> d;           // Third pointer: derived type (single object form only) .
  std::optional<P> pa;          // Third pointer in the array form.
  MP m[3];
  int orphan = -1;              // Released object, to be adopted.
  Base* orphan_ptr = nullptr;
  Base* objs[64];
  int expect_deleted[64];
  std::string err;

  System() { memset(&reg, 0, sizeof reg); memset(expect_deleted, 0, sizeof expect_deleted); for (int i = 0; i < 3; ++i) m[i].exists = false; }
  template <class T> T* make(int& id)
  {
    id = reg.n++;
    T* r;
    if (ARR) { r = new T[2]; r[0].id = id; }      // Only the first element counts.
    else r = new T(id);
    objs[id] = r;
    return r;
  }
  // Apply f to pointer number i.
  template <class F> void with(int i, F f)
  {
    if (i < 2) f(*p[i]);
    else if constexpr (ARR) f(*pa);
    else f(*d);
  }
  void model_drop(MP& x) { if (x.owner) ++expect_deleted[x.obj]; x.owner = false; }
  bool applicable(Op const& o) const
  {
    switch (o.kind)
    {
      case NEW: case DEFAULT: case ADOPT: return !m[o.i].exists && (o.kind != ADOPT || (orphan >= 0 && (ARR || o.i < 2)));
      case COPY: return !m[o.i].exists && m[o.j].exists && o.i != o.j && (ARR || o.i < 2);
      case ASSIGN: return m[o.i].exists && m[o.j].exists && (ARR || o.i < 2 || o.j == 2);
      case RELEASE: return m[o.i].exists && m[o.i].owner && orphan < 0;
      case LOCK: return m[o.i].exists && m[o.i].owner;
      default: return m[o.i].exists;
    }
  }
  void apply(Op const& o)
  {
    MP& x = m[o.i];
    switch (o.kind)
    {
      case DEFAULT:
        if (o.i < 2) p[o.i].emplace(); else if constexpr (ARR) pa.emplace(); else d.emplace();
        x = MP(); break;
      case NEW:
      {
        int id;
        if (o.i < 2) p[o.i].emplace(make<Base>(id)); else if constexpr (ARR) pa.emplace(make<Base>(id)); else d.emplace(make<Derived>(id));
        x = MP(); x.obj = id; x.owner = true; break;
      }
      case ADOPT:
        if (o.i < 2) p[o.i].emplace(orphan_ptr); else if constexpr (ARR) pa.emplace(orphan_ptr);
        x = MP(); x.obj = orphan; x.owner = true; orphan = -1; break;
      case DEL:
        if (o.i < 2) p[o.i].reset(); else if constexpr (ARR) pa.reset(); else d.reset();
        model_drop(x); x = MP(); x.exists = false; break;
      case COPY:
      {
        MP& y = m[o.j];
        with(o.j, [&](auto& src) {
          if (o.i < 2) p[o.i].emplace(src);
          else if constexpr (ARR) pa.emplace(src);
        });
        x = MP(); x.obj = y.obj; x.owner = y.owner && !y.locked; if (!y.locked) y.owner = false; break;
      }
      case ASSIGN:
      {
        MP& y = m[o.j];
        with(o.j, [&](auto& src) {
          if (o.i < 2) { auto& r = (*p[o.i] = src); if (&r != &*p[o.i]) err = "assignment returns another object"; }
          else if constexpr (ARR) *pa = src;
          else if constexpr (std::is_same_v<std::decay_t<decltype(src)>, D>) *d = src;
        });
        if (o.i != o.j)
        {
          model_drop(x);
          x.obj = y.obj;
          x.owner = y.owner && !y.locked;
          if (!y.locked) y.owner = false;
        }
        break;
      }
      case RESET: with(o.i, [](auto& q) { q.reset(); }); model_drop(x); x.obj = -1; break;
      case RELEASE:
        with(o.i, [&](auto& q) { orphan_ptr = q.release(); });
        orphan = x.obj; x.owner = false;
        if (orphan_ptr != (x.obj < 0 ? nullptr : objs[x.obj])) err = "release() returns another pointer";
        break;
      case LOCK: with(o.i, [](auto& q) { q.lock(); }); x.locked = true; break;
      case UNLOCK: with(o.i, [](auto& q) { q.unlock(); }); x.locked = false; break;
    }
  }
  std::string check()
  {
    if (!err.empty()) return err;
    for (int k = 0; k < reg.n; ++k)
      if (reg.deleted[k] != expect_deleted[k])
        return "object " + std::to_string(k) + " deleted " + std::to_string(reg.deleted[k]) + " times, expected " + std::to_string(expect_deleted[k]);
    for (int i = 0; i < 3; ++i)
    {
      if (!m[i].exists) continue;
      std::string e;
      with(i, [&](auto& q) {
        ++vx::g.evals;
        Base* want = m[i].obj < 0 ? nullptr : objs[m[i].obj];
        if ((Base*)q.get() != want) e = "get() differs";
        else if (want && !expect_deleted[m[i].obj] && (&*q != want || q.operator->() != want)) e = "* or -> differs";
        else if (q.is_owner() != m[i].owner) e = "is_owner() is " + std::to_string(q.is_owner());
        else if (m[i].owner && q.strict_owner() != m[i].locked) e = "strict_owner() is " + std::to_string(q.strict_owner());
      });
      if (!e.empty()) return "pointer " + std::to_string(i) + ": " + e;
    }
    return {};
  }
  uint64_t state() const
  {
    // Canonical: objects renamed in order of first use.
    int ren[64], n = 0; memset(ren, -1, sizeof ren);
    char b[32]; int l = 0;
    for (int i = 0; i < 3; ++i)
    {
      int o = m[i].obj;
      if (o >= 0 && ren[o] < 0) ren[o] = n++;
      b[l++] = m[i].exists; b[l++] = o < 0 ? -1 : ren[o]; b[l++] = m[i].owner; b[l++] = m[i].locked; b[l++] = o < 0 ? 0 : expect_deleted[o];
    }
    b[l++] = orphan < 0 ? -1 : ren[orphan] ; b[l++] = ARR;
    return vx::hash(b, l);
  }
  std::string finish()
  {
    for (int i = 0; i < 3; ++i) if (m[i].exists) apply({DEL, i, 0});
    if (orphan >= 0) { if (ARR) delete[] orphan_ptr; else delete orphan_ptr; ++expect_deleted[orphan]; orphan = -1; }
    std::string e = check();
    if (!e.empty()) return e;
    for (int k = 0; k < reg.n; ++k) if (reg.deleted[k] != 1) return "at the end object " + std::to_string(k) + " was deleted " + std::to_string(reg.deleted[k]) + " times";
    return {};
  }
};

static std::vector<Op> ops;
static std::string text(std::vector<unsigned> const& s, bool arr)
{
  std::string r = arr ? "array form:" : "single form:";
  for (unsigned k : s) { r += std::string(" ") + names[ops[k].kind] + "(p" + std::to_string(ops[k].i); if (ops[k].j >= 0) r += ", p" + std::to_string(ops[k].j); r += ")"; }
  return r;
}

template <bool ARR>
static void go(std::vector<unsigned> const& s)
{
  // Skip sequences with an inapplicable operation, using the model only.
  if (!vx::take()) return;
  System<ARR> sys;
  if (vx::verbose()) vx::describe(text(s, ARR));
  for (unsigned k : s)
  {
    if (!sys.applicable(ops[k])) { --vx::g.cases; goto clean; }
    sys.apply(ops[k]);
    ++vx::g.transitions;
    vx::state(sys.state());
    std::string e = sys.check();
    if (!e.empty()) { vx::describe(text(s, ARR)); vx::fail(text(s, ARR), e); }
  }
  {
    std::string fin = sys.finish();
    if (!fin.empty()) { vx::describe(text(s, ARR)); vx::fail(text(s, ARR), fin); }
    ++vx::g.traces;
    vx::g.outcomes.insert(vx::hash(std::string((char*)&reg, sizeof reg), sys.state()));
    if (vx::g.samples.empty() && s.size() >= 4) vx::sample(text(s, ARR));
    return;
  }
clean:
  sys.finish();
}

// Depth first over applicable sequences only; sharded on the first two operations.
template <bool ARR>
static void explore(std::vector<unsigned>& pre, unsigned depth)
{
  // Decide applicability of every extension with one replay of the prefix.
  System<ARR> sys;
  for (unsigned k : pre) sys.apply(ops[k]);
  std::vector<unsigned> next;
  for (unsigned k = 0; k < ops.size(); ++k) if (sys.applicable(ops[k])) next.push_back(k);
  sys.finish();
  for (unsigned k : next)
  {
    pre.push_back(k);
    if (pre.size() == depth) go<ARR>(pre);
    else explore<ARR>(pre, depth);
    pre.pop_back();
  }
}

int main(int argc, char** argv)
{
  vx::init(argc, argv);
  for (int i = 0; i < 3; ++i)
  {
    for (int kind : {NEW, DEFAULT, DEL, RESET, RELEASE, ADOPT, LOCK, UNLOCK}) ops.push_back({kind, i, -1});
    for (int j = 0; j < 3; ++j) { if (i != j) ops.push_back({COPY, i, j}); ops.push_back({ASSIGN, i, j}); }
  }
  unsigned maxd = vx::g.thorough ? 7 : 6;
  for (unsigned depth = 1; depth <= maxd; ++depth)
  {
    std::vector<unsigned> pre;
    explore<false>(pre, depth);
    explore<true>(pre, depth);
  }
  vx::done();
}
