// C23: all histories of operations on three Location objects.
#include "cwd_sys.h"
#include <libcwd/debug.h>
#include "vx.h"
#include <deque>
#include <new>
#include <sanitizer/asan_interface.h>
#include <sstream>
#include <optional>
using namespace libcwd;

// Arrays allocated by the library: never really freed during a history, so that use after release is seen.
struct Block { char* p; size_t n; bool live; };
static std::vector<Block>* blocks;
static bool tracking;
static bool double_free;
void* operator new[](size_t n)
{
  char* p = (char*)malloc(n ? n : 1);
  if (tracking) { tracking = false; blocks->push_back({p, n, true}); tracking = true; }
  return p;
}
static void del(void* q)
{
  if (blocks)
    for (auto& b : *blocks)
      if (b.p == q)
      {
        if (!b.live) double_free = true;
        b.live = false;
        ASAN_POISON_MEMORY_REGION(b.p, b.n);
        return;
      }
  free(q);
}
void operator delete[](void* q) noexcept { del(q); }
void operator delete[](void* q, size_t) noexcept { del(q); }

extern "C" int c23_nodebug_function(int);
extern int c23_data[4];
__attribute__((noinline)) int c23_function_a(int x) { return x + 1; }
#line 4711 "/some/dir/other-file.cxx"
__attribute__((noinline)) int c23_function_b(int x) { return x + 2; }
#line 49 "c23.cxx"

enum Kind { NONE, DEFAULT, CLEARED, SET };
// What a location is expected to say.
struct Say { bool known; std::string fn, file, path; unsigned line; ObjectFileName const* obj; void const* unknown_pc; std::string print[3]; };
static std::vector<void const*> addrs;
static std::vector<Say> says;
static char const* addr_names[] = {"function with line A", "function with line B", "function without debug info", "data", "nothing", "0"};

static std::string printed(Location const& l, int fmt)
{
  std::ostringstream os;
  location_format(fmt == 0 ? location_format_t(0) : fmt == 1 ? show_function | show_path : show_objectfile);
  os << std::hex << l;
  return os.str();
}
static Say observe(Location const& l)
{
  Say s;
  s.known = l.is_known();
  s.fn = l.mangled_function_name();
  s.line = 0;
  if (s.known)
  {
    s.file = l.file();
    s.line = l.line();
    std::ostringstream p, n;
    l.print_filepath_on(p);
    l.print_filename_on(n);
    s.path = p.str();
    if (n.str() != s.file) s.file += " / " + n.str();
  }
  if (l.filename_length() != s.file.size() || l.filepath_length() != s.path.size()) s.file += " (length!)";
  s.obj = l.object_file();
  s.unknown_pc = l.unknown_pc();
  for (int i = 0; i < 3; ++i) s.print[i] = printed(l, i);
  if (l.initialization_delayed()) s.fn += " (delayed!)";
  return s;
}
static std::string str(Say const& s)
{
  std::ostringstream o;
  o << (s.known ? "known" : "not known") << ", function " << s.fn << ", file " << s.file << ", path " << s.path << ", line " << s.line << ", object " << s.obj << ", unknown pc " << s.unknown_pc << ", printed as";
  for (auto& p : s.print) o << " \"" << p << '"';
  return o.str();
}

// The specification.
struct Path { bool alive = true; std::set<int> owners; bool unclear = false; };      // More than one: one of them, unspecified which.
enum Lock { UNLOCKED, LOCKED, MAYBE };
struct Slot { Kind kind = NONE; int addr = -1; int path = -1; Lock lock = UNLOCKED; };
enum { INIT, CLEAR, LOCK, DESTROY, DEFAULTC, CONSTRUCT, ASSIGN, COPY, SELF, NOPS };
struct Op { int k, i, j; };
static std::string name(Op o)
{
  std::string l = "l" + std::to_string(o.i), r = "l" + std::to_string(o.j);
  switch (o.k)
  {
    case INIT: return l + ".pc_location(" + addr_names[o.j] + ")";
    case CLEAR: return l + ".clear()";
    case LOCK: return l + ".lock_ownership()";
    case DESTROY: return "destroy " + l;
    case DEFAULTC: return "Location " + l;
    case CONSTRUCT: return "Location " + l + "(" + addr_names[o.j] + ")";
    case ASSIGN: return l + " = " + r;
    case COPY: return "Location " + l + "(" + r + ")";
    case SELF: return l + " = " + l;
  }
  return "?";
}

constexpr int N = 3;
struct System
{
  alignas(Location) char mem[N][sizeof(Location)];
  Slot m[N];
  std::vector<Path> paths;
  std::string err;
  Location* p(int i) { return reinterpret_cast<Location*>(mem[i]); }
  System() { memset(mem, 0, sizeof mem); for (auto& b : *blocks) { ASAN_UNPOISON_MEMORY_REGION(b.p, b.n); free(b.p); } blocks->clear(); double_free = false; }

  bool allowed(Op o)
  {
    Slot& s = m[o.i];
    switch (o.k)
    {
      case DEFAULTC: case CONSTRUCT: return s.kind == NONE;
      case COPY: return s.kind == NONE && m[o.j].kind != NONE;
      case ASSIGN: return s.kind != NONE && m[o.j].kind != NONE;
      // Only an owner may be locked.
      case LOCK: return s.kind != NONE && (s.kind != SET || !says[s.addr].known || (paths[s.path].alive && paths[s.path].owners == std::set<int>{o.i}));
      default: return s.kind != NONE;
    }
  }
  void drop(int i)      // The model's slot i no longer refers to its path.
  {
    Slot& s = m[i];
    if (s.path >= 0)
    {
      Path& q = paths[s.path];
      if (q.owners.count(i)) { if (q.owners.size() == 1) q.alive = false; else { q.owners.erase(i); q.alive = false; q.unclear = true; /* unspecified: nobody may look any more */ } }
    }
    s.path = -1;
    if (s.lock == LOCKED) s.lock = MAYBE;       // Whether an object stays locked for its next path is not specified.
  }
  void take(int i, int a)
  {
    m[i].kind = SET; m[i].addr = a;
    if (says[a].known) { m[i].path = paths.size(); paths.push_back({true, {i}}); }
  }
  void copy(int i, int j)
  {
    Slot &d = m[i], &s = m[j];
    d.kind = s.kind; d.addr = s.addr; d.path = s.path;
    if (s.path < 0) return;
    Path& q = paths[s.path];
    if (!q.owners.count(j)) return;
    if (s.lock == UNLOCKED) { q.owners.erase(j); q.owners.insert(i); }
    else if (s.lock == MAYBE) q.owners.insert(i);
  }
  void apply(Op o)
  {
    tracking = true;
    switch (o.k)
    {
      case INIT: p(o.i)->pc_location(addrs[o.j]); break;
      case CLEAR: p(o.i)->clear(); break;
      case LOCK: p(o.i)->lock_ownership(); break;
      case DESTROY: p(o.i)->~Location(); break;
      case DEFAULTC: new (mem[o.i]) Location; break;
      case CONSTRUCT: new (mem[o.i]) Location(addrs[o.j]); break;
      case ASSIGN: *p(o.i) = *p(o.j); break;
      case COPY: new (mem[o.i]) Location(*p(o.j)); break;
      case SELF: { Location& l = *p(o.i); l = l; break; }
    }
    tracking = false;
    switch (o.k)
    {
      case INIT: drop(o.i); take(o.i, o.j); break;
      case CLEAR: drop(o.i); m[o.i].kind = CLEARED; break;
      case LOCK: if (m[o.i].path >= 0) m[o.i].lock = LOCKED; break;
      case DESTROY: drop(o.i); m[o.i] = Slot(); memset(mem[o.i], 0, sizeof mem[o.i]); break;
      case DEFAULTC: m[o.i] = Slot(); m[o.i].kind = DEFAULT; break;
      case CONSTRUCT: m[o.i] = Slot(); take(o.i, o.j); break;
      case ASSIGN: drop(o.i); copy(o.i, o.j); break;
      case COPY: m[o.i] = Slot(); copy(o.i, o.j); break;
      case SELF: break;
    }
  }
  void check()
  {
    if (double_free) { err = "a path is released twice"; return; }
    // A path is released when its owner gets another value, is cleared, or destroyed.
    size_t live = 0, must = 0, may = 0;
    for (auto& b : *blocks) live += b.live;
    for (auto& q : paths) { must += q.alive; may += q.alive || q.unclear; }
    if (live < must || live > may) { err = std::to_string(live) + " paths are in memory instead of " + std::to_string(must) + (may > must ? " to " + std::to_string(may) : ""); return; }
    for (int i = 0; i < N; ++i)
    {
      Slot& s = m[i];
      if (s.kind == NONE) continue;
      std::string l = "l" + std::to_string(i);
      if (s.kind == SET && says[s.addr].known)
      {
        if (!paths[s.path].alive) continue;     // Nobody may look at it.
      }
      Say want;
      if (s.kind == SET) want = says[s.addr];
      else
      {
        want = {false, s.kind == DEFAULT ? "<uninitialized Location>" : "<cleared location ct>", "", "", 0, nullptr, nullptr, {}};
        for (auto& x : want.print) x = "<unknown object file> (at 0)";
      }
      std::string got = str(observe(*p(i)));
      if (got != str(want)) { err = l + " says: " + got + "\n  instead of: " + str(want); return; }
    }
  }
  void finish()
  {
    tracking = true;
    for (int i = 0; i < N; ++i) if (m[i].kind != NONE) p(i)->~Location();
    tracking = false;
    if (double_free) err = "a path is released twice at the end";
    for (auto& b : *blocks) if (b.live) { err = "a path is never released"; }
  }
  // What the objects look like, with the addresses of paths replaced.
  uint64_t fingerprint()
  {
    std::string f;
    std::map<size_t, int> ids;
    for (int i = 0; i < N; ++i)
    {
      f += (char)('0' + m[i].kind); f += (char)('0' + m[i].addr); f += (char)('0' + m[i].lock);
      if (m[i].path >= 0) { f += paths[m[i].path].alive ? 'A' : 'D'; for (int o : paths[m[i].path].owners) f += (char)('0' + o); }
      if (m[i].kind == NONE) continue;
      for (size_t w = 0; w + 8 <= sizeof(Location); w += 8)
      {
        uintptr_t v;
        memcpy(&v, mem[i] + w, 8);
        bool found = false;
        for (size_t b = 0; b < blocks->size(); ++b)
          if (v >= (uintptr_t)(*blocks)[b].p && v < (uintptr_t)(*blocks)[b].p + (*blocks)[b].n)
          {
            if ((*blocks)[b].live) { int id = ids.try_emplace(b, (int)ids.size()).first->second; f += "b" + std::to_string(id) + "+" + std::to_string(v - (uintptr_t)(*blocks)[b].p); }
            else f += "freed";
            found = true;
          }
        if (!found) f.append(mem[i] + w, 8);
      }
    }
    for (auto& b : *blocks) if (b.live) f += 'L';
    return vx::hash(f);
  }
};

int main(int argc, char** argv)
{
  vx::init(argc, argv);
  Debug(main_reached());
  blocks = new std::vector<Block>;
  addrs = {(void*)((char*)&c23_function_a + 1), (void*)((char*)&c23_function_b + 1), (void*)&c23_nodebug_function, (void*)&c23_data[1], (void*)16, nullptr};
  for (void const* a : addrs) { Location l(a); says.push_back(observe(l)); }
  if (!(says[0].known && says[1].known && says[1].line == 4711 && says[1].file == "other-file.cxx" && !says[2].known && says[2].fn == "c23_nodebug_function" && !says[3].known && says[3].obj && !says[4].known && !says[4].obj && says[4].unknown_pc == (void*)16))
  {
    if (vx::take()) vx::fail("lookup", "the locations that are used say: " + str(says[0]) + "; " + str(says[1]) + "; " + str(says[2]) + "; " + str(says[3]) + "; " + str(says[4]));
    vx::done();
  }
  for (auto& s : says) vx::outcome(str(s));

  std::vector<Op> ops;
  int na = 6;
  for (int i = 0; i < N; ++i)
  {
    for (int k : {CLEAR, LOCK, DESTROY, DEFAULTC, SELF}) ops.push_back({k, i, i});
    for (int a = 0; a < na; ++a) { ops.push_back({INIT, i, a}); ops.push_back({CONSTRUCT, i, a}); }
    for (int j = 0; j < N; ++j) if (j != i) { ops.push_back({ASSIGN, i, j}); ops.push_back({COPY, i, j}); }
  }
  auto text = [&](std::vector<uint8_t> const& h) { std::string s; for (auto o : h) s += name(ops[o]) + "; "; return s; };
  auto run = [&](std::vector<uint8_t> const& h, bool sample) -> std::pair<bool, uint64_t> {
    System s;
    for (size_t i = 0; i + 1 < h.size(); ++i) s.apply(ops[h[i]]);
    if (!s.allowed(ops[h.back()])) { s.finish(); return {false, 0}; }
    if (vx::verbose()) vx::describe(text(h));
    else { std::string t; for (auto o : h) { t += std::to_string(o); t += ' '; } snprintf(vx::g.sh->desc, sizeof vx::g.sh->desc, "%s", t.c_str()); }
    s.apply(ops[h.back()]);
    s.check();
    uint64_t f = s.fingerprint();
    if (s.err.empty()) s.finish();
    if (!s.err.empty()) { vx::describe(text(h)); vx::fail("history", s.err); }
    ++vx::g.transitions;
    if (sample) vx::sample(text(h));
    return {true, f};
  };
  // The first operation is on l0 without loss of generality; a case is a pair of first operations.
  for (bool wide : {true, false})       // With all addresses, and deeper with the two that have a path only.
  for (uint8_t a = 0; a < ops.size(); ++a)
  {
    size_t const depth = (vx::g.thorough ? 5 : 4) + (wide ? 0 : 1 + vx::g.thorough);
    if (ops[a].i != 0 || (ops[a].k != DEFAULTC && ops[a].k != CONSTRUCT)) continue;
    for (uint8_t b = 0; b < ops.size(); ++b)
    {
      if (!wide && (ops[a].k == CONSTRUCT && ops[a].j > 1 || (ops[b].k == INIT || ops[b].k == CONSTRUCT) && ops[b].j > 1)) continue;
      if (!vx::take()) continue;
      std::unordered_set<uint64_t> seen;
      std::deque<std::vector<uint8_t>> todo;
      run({a}, false);
      auto r = run({a, b}, true);
      if (!r.first) continue;
      seen.insert(r.second);
      todo.push_back({a, b});
      while (!todo.empty())
      {
        auto h = std::move(todo.front());
        todo.pop_front();
        if (h.size() >= depth) continue;
        h.push_back(0);
        for (uint8_t c = 0; c < ops.size(); ++c)
        {
          h.back() = c;
          if (!wide && ((ops[c].k == INIT || ops[c].k == CONSTRUCT) && ops[c].j > 1)) continue;
          auto r = run(h, false);
          if (!r.first || !seen.insert(r.second).second) continue;
          vx::state(r.second);
          todo.push_back(h);
        }
      }
    }
  }
  vx::done();
}
