// C13: three of eight debug objects.  Every history is compared, object by object, with the history that has only the operations on that object.
#include "lw.h"
#include <unordered_map>
using namespace libcwd;

static DebugObject objs[7];             // Together with libcw_do: as many as there can be.
static DebugObject* const ob[3] = {&libcw_do, &objs[0], &objs[6]};

// A mutex that knows whether it is held.
struct Mtx
{
  int owner, which;
  int held = 0;
  void lock() { if (held) problem("a mutex is locked twice"); held = 1; }
  bool try_lock() { if (held) return false; held = 1; return true; }
  void unlock() { if (!held) problem("a mutex is unlocked that is not locked"); held = 0; }
  static void problem(char const* s);
};
static std::string trouble;
void Mtx::problem(char const* s) { if (trouble.empty()) trouble = s; }
static Mtx mtx[3][2] = {{{0, 0}, {0, 1}}, {{1, 0}, {1, 1}}, {{2, 0}, {2, 1}}};
static int cur[3];              // Index of the mutex that object i uses.
static std::string tr[3];       // What can be seen of each object.

struct Stream : std::streambuf
{
  int owner, which;
  void chk()
  {
    for (int o = 0; o < 3; ++o)
      for (int w = 0; w < 2; ++w)
        if ((mtx[o][w].held != 0) != (o == owner && w == cur[o])) Mtx::problem("output is written while not exactly the mutex of its own debug object is held");
  }
  int overflow(int c) override { chk(); tr[owner] += (char)('\3' + which); tr[owner] += (char)c; return c; }
  std::streamsize xsputn(char const* s, std::streamsize n) override { chk(); tr[owner] += (char)('\3' + which); tr[owner].append(s, n); return n; }
  int sync() override { tr[owner] += '\1'; return 0; }
};
static Stream sb[3][2];
static std::ostream* os[3][2];

static std::string state(int o)
{
  DebugObject& d = *ob[o];
  LIBCWD_TSD_DECLARATION;
  char b[100];
  snprintf(b, sizeof b, "{%d,%d,%d,%d,", d.is_on(LIBCWD_TSD), (int)d.get_indent(), d.always_flush_is_on(), d.has_mutex());
  return b + std::string(d.get_ostream() == os[o][0] ? "0" : d.get_ostream() == os[o][1] ? "1" : "?") + "," + std::string(d.margin().c_str(), d.margin().size()) + "," + std::string(d.marker().c_str(), d.marker().size()) + "," +
    std::string(d.color_on().c_str(), d.color_on().size()) + "," + std::string(d.color_off().c_str(), d.color_off().size()) + "}";
}

enum Op { PLAIN, NONL, FLUSH, START, CONT, FIN, OFF, ON, STREAM, MARGIN, MARKER, IND, COLOR, AFLUSH, FORCE, RESTORE, PUSH, POP, NOPS,
  NEST = NOPS, NEST_START, NEST_FIN, NEST_MARGIN, NEST_NONL, NEST_STREAM, NNEST };
static char const* const opname[] = {"plain message", "nonewline_cf", "flush_cf", "continued_cf", "continued", "finish", "off", "on", "set_ostream", "margin", "marker", "inc_indent", "colors", "always_flush_on", "force_on", "restore", "push_margin", "pop_margin",
  "message with as operand: a plain message", "message with as operand: continued_cf", "message with as operand: finish", "message with as operand: margin", "message with as operand: nonewline_cf", "message with as operand: set_ostream"};
enum All { ALL_OFF, ALL_ON, ALL_IND, NALL };
static char const* const allname[] = {"off for all", "on for all", "inc_indent for all"};
// op on object x; for nested ones the operand acts on y.  All: x = 3.
struct Step { int op, x, y; };
static std::string str(std::vector<Step> const& h)
{
  std::string r;
  for (auto& s : h)
  {
    if (!r.empty()) r += "; ";
    if (s.x == 3) r += allname[s.op];
    else { r += std::string("object ") + (char)('A' + s.x) + ": " + opname[s.op]; if (s.op >= NEST) r += std::string(" of object ") + (char)('A' + s.y); }
  }
  return r;
}

// What is needed to know whether an operation is allowed.
struct Abs { int off = 0, pending = 0, pushed = 0, forced = 0; };

static Op inner(int op) { return op == NEST ? PLAIN : op == NEST_START ? START : op == NEST_FIN ? FIN : op == NEST_MARGIN ? MARGIN : op == NEST_NONL ? NONL : STREAM; }

struct Run
{
  Abs a[3];
  std::vector<DebugObject::OnOffState> saved[3];
  int proj;             // The object that this is for, or 3 for all.
  void leaf(int op, int x)
  {
    DebugObject& d = *ob[x];
    switch (op)
    {
#define OUT(...) LibcwDout(LIBCWD_DEBUG_CHANNELS, d, __VA_ARGS__)
      case PLAIN: OUT(dc::notice, "plain"); break;
      case NONL: OUT(dc::notice | nonewline_cf, "nonl "); break;
      case FLUSH: OUT(dc::notice | flush_cf, "flush"); break;
      case START: OUT(dc::notice | continued_cf, "start "); break;
      case CONT: OUT(dc::continued, "cont "); break;
      case FIN: OUT(dc::finish, "fin"); break;
      case OFF: d.off(); break;
      case ON: d.on(); break;
      case STREAM: cur[x] ^= 1; d.set_ostream(os[x][cur[x]], &mtx[x][cur[x]]); break;
      case MARGIN: d.margin().append("m", 1); break;
      case MARKER: d.marker().prepend("<", 1); break;
      case IND: d.inc_indent(1); break;
      case COLOR: d.color_on().append("{", 1); d.color_off().append("}", 1); break;
      case AFLUSH: d.always_flush_on(); ++a_flush[x]; break;
      case FORCE: { DebugObject::OnOffState s; d.force_on(s); saved[x].push_back(s); break; }
      case RESTORE: d.restore(saved[x].back()); saved[x].pop_back(); break;
      case PUSH: d.push_margin(); d.margin().append("p", 1); break;
      case POP: d.pop_margin(); break;
    }
  }
  int a_flush[3] = {0, 0, 0};
  static char const* operand(Run* r, int op, int y) { if (y >= 0) { r->leaf(op, y); if (r->proj == y || r->proj == 3) tr[y] += state(y); } return "outer"; }
  void nested(int x, int op, int y) { DebugObject& d = *ob[x]; LibcwDout(LIBCWD_DEBUG_CHANNELS, d, dc::notice, operand(this, op, y)); }

  void step(Step const& s)
  {
    if (s.x == 3)
    {
      if (proj == 3)
      {
        int visits[8] = {};
        ForAllDebugObjects(
            int n = 0;
            for (auto* p : ob) { if (p == &debugObject) break; ++n; }
            if (n == 3) { for (int i = 1; i < 6; ++i) { if (&objs[i] == &debugObject) break; ++n; } }
            if (n < 8) ++visits[n]; else Mtx::problem("ForAllDebugObjects visits an unknown object");
            if (n < 3) { if (s.op == ALL_OFF) debugObject.off(); else if (s.op == ALL_ON) debugObject.on(); else debugObject.inc_indent(1); }
        );
        for (int v : visits) if (v != 1) Mtx::problem("ForAllDebugObjects does not visit each object exactly once");
      }
      else { auto& d = *ob[proj]; if (s.op == ALL_OFF) d.off(); else if (s.op == ALL_ON) d.on(); else d.inc_indent(1); }
      for (int o = 0; o < 3; ++o) if (proj == 3 || proj == o) tr[o] += state(o);
      return;
    }
    std::string before[3];
    size_t len[3];
    for (int o = 0; o < 3; ++o) { before[o] = state(o); len[o] = tr[o].size(); }
    if (s.op < NOPS) leaf(s.op, s.x);
    else if (proj == 3) nested(s.x, inner(s.op), s.y);
    else if (proj == s.x) nested(s.x, inner(s.op), s.x == s.y ? s.y : -1);
    else leaf(inner(s.op), s.y);
    for (int o = 0; o < 3; ++o)
    {
      bool takes_part = o == s.x || (s.op >= NEST && o == s.y);
      if (!takes_part)
      {
        if (state(o) != before[o]) Mtx::problem("the state of an object that is not involved changed");
        if (tr[o].size() != len[o]) Mtx::problem("something is written to an object that is not involved");
      }
    }
    if (s.op < NOPS) { if (proj == 3 || proj == s.x) tr[s.x] += state(s.x); }
    else if (proj == 3 || proj == s.x) tr[s.x] += state(s.x);
    if (s.op >= NEST && s.y != s.x && proj == s.y && proj != 3) tr[s.y] += state(s.y);
  }
};

// Keep track; false when the history would be a programming error.
static bool allowed_leaf(Abs& a, int op, bool nested_same)
{
  bool on = a.off < 0;
  switch (op)
  {
    case START: if (on) ++a.pending; return true;
    case CONT: return !on || a.pending > 0;
    case FIN: if (!on) return true; if (a.pending == 0) return false; --a.pending; return true;
    case OFF: ++a.off; return true;
    case ON: if (a.off < 0) return false; --a.off; return true;
    case FORCE: a.forced++; return a.forced <= 1;
    case RESTORE: a.forced--; return a.forced == 0;
    case PUSH: ++a.pushed; return true;
    case POP: return a.pushed-- > 0;
  }
  return true;
}
static std::vector<int> forced_off[3];
static bool allowed(std::vector<Step> const& h)
{
  Abs a[3];
  int saved[3] = {};
  for (int i = 0; i < 3; ++i) a[i].off = -1;
  for (auto& s : h)
  {
    if (s.x == 3) { for (auto& x : a) { if (x.forced && s.op != ALL_IND) return false; if (s.op == ALL_OFF) ++x.off; else if (s.op == ALL_ON) { if (x.off < 0) return false; --x.off; } } continue; }
    auto leaf = [&](int op, int x) {
      // Nothing may be switched on and off between force_on and restore.
      if (a[x].forced && (op == OFF || op == ON)) return false;
      if (op == FORCE) { saved[x] = a[x].off; bool r = allowed_leaf(a[x], op, false); a[x].off = -1; return r; }
      if (op == RESTORE) { bool r = allowed_leaf(a[x], op, false); a[x].off = saved[x]; return r; }
      return allowed_leaf(a[x], op, false);
    };
    if (s.op < NOPS) { if (!leaf(s.op, s.x)) return false; }
    else
    {
      if (a[s.x].off >= 0) continue;    // The operand is not evaluated: excluded below.
      // A nested finish of the same object would be without its continued_cf.
      if (s.x == s.y && (inner(s.op) == FIN || inner(s.op) == START)) return false;
      if (!leaf(inner(s.op), s.y)) return false;
    }
  }
  for (auto& x : a) if (x.forced) return false;
  return true;
}
static bool operand_skipped(std::vector<Step> const& h)
{
  int off[3] = {-1, -1, -1};
  for (auto& s : h)
  {
    if (s.x == 3) { for (auto& x : off) x += s.op == ALL_OFF ? 1 : s.op == ALL_ON ? -1 : 0; continue; }
    if (s.op == OFF) ++off[s.x];
    if (s.op == ON) --off[s.x];
    if (s.op >= NEST && off[s.x] >= 0) return true;     // (Objects that are forced on are not followed here: that only excludes more.)
  }
  return false;
}

static void perform(std::vector<Step> const& h, int proj)
{
  trouble.clear();
  for (auto& t : tr) t.clear();
  lw::fresh([&] {
    Debug(dc::notice.on());
    for (int o = 0; o < 3; ++o)
    {
      cur[o] = 0;
      ob[o]->set_ostream(os[o][0], &mtx[o][0]);
      ob[o]->on();
    }
    Run r;
    r.proj = proj;
    for (auto& s : h)
    {
      if (proj != 3 && s.x != 3 && s.x != proj && !(s.op >= NEST && s.y == proj)) continue;
      r.step(s);
      if (proj == 3) ++vx::g.transitions;
    }
    // The end: what state is left is also seen in what follows.
    for (int o = 0; o < 3; ++o)
    {
      LIBCWD_TSD_DECLARATION;
      while (!ob[o]->is_on(LIBCWD_TSD)) ob[o]->on();
      if (proj == 3 || proj == o) r.leaf(FLUSH, o);
    }
    for (int o = 0; o < 3; ++o)
    {
      for (int i = 0; i < r.a_flush[o]; ++i) ob[o]->always_flush_off();
      if (proj == 3 || proj == o)
      {
        Abs a;
        a.off = -1;
        // Finish what is pending.
        int pend = 0, off = -1, sv = -1;
        for (auto& s : h)
        {
          if (s.x == 3) { off += s.op == ALL_OFF ? 1 : s.op == ALL_ON ? -1 : 0; continue; }
          int op = s.op < NOPS ? s.op : inner(s.op);
          int x = s.op < NOPS ? s.x : s.y;
          if (x != o) continue;
          if (op == OFF) ++off;
          if (op == ON) --off;
          if (op == FORCE) { sv = off; off = -1; }
          if (op == RESTORE) off = sv;
          if (op == START && off < 0) ++pend;
          if (op == FIN && off < 0) --pend;
        }
        while (pend-- > 0) r.leaf(FIN, o);
        r.leaf(FLUSH, o);
        tr[o] += state(o);
      }
    }
  });
}

static std::unordered_map<std::string, uint64_t> memo[3];

static void check(std::vector<Step> const& h)
{
  if (!allowed(h) || operand_skipped(h)) return;
  if (!vx::take()) return;
  if (vx::verbose()) vx::describe(str(h));
  else vx::g.desc.clear();
  perform(h, 3);
  if (vx::g.samples.size() < 3) vx::sample(str(h));
  auto bad = [&](std::string const& s) { vx::describe(str(h)); vx::fail("objects", s); };
  if (!trouble.empty()) { bad(trouble); return; }
  std::string full[3] = {tr[0], tr[1], tr[2]};
  vx::outcome(full[0] + "\7" + full[1] + "\7" + full[2]);
  vx::state(vx::hash(str(h)));
  for (int o = 0; o < 3; ++o)
  {
    std::string key;
    for (auto& s : h) if (s.x == 3 || s.x == o || (s.op >= NEST && s.y == o))
    {
      int op = s.op, c = 0;
      if (s.x != 3 && s.op >= NEST) { if (s.x == s.y) c = 1; else if (s.x == o) { c = 2; op = NEST; } else { c = 3; op = inner(s.op); } }
      key += (char)op; key += (char)(c + (s.x == 3 ? 4 : 0));
    }
    auto it = memo[o].find(key);
    uint64_t want;
    if (it != memo[o].end()) want = it->second;
    else { perform(h, o); want = memo[o][key] = vx::hash(tr[o]); if (!trouble.empty()) { bad(trouble + " (with only the operations on one of the objects)"); return; } }
    if (vx::hash(full[o]) != want)
    {
      perform(h, o);
      bad(std::string("object ") + (char)('A' + o) + " shows\n" + vx::esc(full[o]) + "\nbut when only the operations on this object are done\n" + vx::esc(tr[o]));
      return;
    }
  }
}

int main(int argc, char** argv)
{
  vx::init(argc, argv);
  Debug(main_reached());
  for (int o = 0; o < 3; ++o) for (int w = 0; w < 2; ++w) { sb[o][w].owner = o; sb[o][w].which = w; os[o][w] = new std::ostream(&sb[o][w]); }
  bool th = vx::g.thorough;
  auto explore = [&](int nobj, std::vector<int> const& ops, std::vector<int> const& nests, bool all, unsigned from, unsigned depth) {
    std::vector<Step> al;
    for (int x = 0; x < nobj; ++x)
    {
      for (int op : ops) al.push_back({op, x, -1});
      for (int op : nests) for (int y = 0; y < nobj; ++y) al.push_back({op, x, y});
    }
    if (all) for (int i = 0; i < NALL; ++i) al.push_back({i, 3, -1});
    vx::sequences(al.size(), from, depth, [&](std::vector<unsigned> const& s) {
      std::vector<Step> h;
      for (unsigned i : s) h.push_back(al[i]);
      check(h);
    });
  };
  std::vector<int> every, nests;
  for (int i = 0; i < NOPS; ++i) every.push_back(i);
  for (int i = NEST; i < NNEST; ++i) nests.push_back(i);
  explore(3, every, nests, true, 1, 2);
  explore(2, every, nests, true, 3, 3);
  explore(3, {PLAIN, NONL, START, CONT, FIN, OFF, ON, MARGIN, AFLUSH}, {NEST, NEST_START, NEST_FIN}, true, 3, 3);
  explore(2, {PLAIN, NONL, START, FIN, OFF, ON, STREAM}, {NEST, NEST_START}, false, 4, th ? 5 : 4);
  if (th)
  {
    explore(2, {PLAIN, NONL, FLUSH, START, CONT, FIN, OFF, ON, MARGIN, AFLUSH, IND}, {NEST, NEST_START, NEST_FIN, NEST_NONL}, true, 4, 4);
    explore(3, {PLAIN, START, FIN, OFF, ON, MARGIN}, {NEST}, false, 4, 4);
    explore(2, {PLAIN, START, FIN, NONL}, {NEST}, false, 6, 6);
  }
  vx::done();
}
