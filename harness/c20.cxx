// C20: all sequences of symbol ranges over a small address space, in all orders and kinds.
#include "cwd_sys.h"
#include <libcwd/debug.h>
#include "dwarf_symbol_ranges.h"
#include "vx.h"
using namespace libcwd::dwarf;

struct Sym { int start, end; bool dwarf; };
static std::vector<Sym> alphabet;
static char const* const names[] = {"s0", "s1", "s2", "s3", "s4", "s5"};
static char dummy;
static uintptr_t const base = 0x1000;

static std::string text(std::vector<unsigned> const& v)
{
  std::string r;
  for (unsigned k : v) r += (alphabet[k].dwarf ? " dwarf[" : " elf[") + std::to_string(alphabet[k].start) + "," + std::to_string(alphabet[k].end) + ")";
  return r;
}

static void run(std::vector<unsigned> const& v, int N)
{
  if (!vx::take()) return;
  if (vx::verbose()) vx::describe(text(v));
  FunctionSymbolRanges map;
  Dwarf_Die die{};
  die.addr = &dummy;
  std::string err;
  for (unsigned i = 0; i < v.size() && err.empty(); ++i)
  {
    Sym const& s = alphabet[v[i]];
    bool r = insert_function_symbol_range(map, base + s.start, base + s.end, names[i], s.dwarf ? &die : nullptr);
    ++vx::g.transitions;
    // Every address has the best covering symbol.
    bool any_new = false;
    char key[128]; int kl = 0;
    for (int a = -1; a <= N; ++a)
    {
      auto it = map.upper_bound(base + a);
      SymbolRange const* found = nullptr;
      if (it != map.end() && it->second.start_addr() <= base + a && base + a < it->second.end_addr()) found = &it->second;
      ++vx::g.evals;
      int n = 0;
      for (auto const& e : map) if (e.second.start_addr() <= base + a && base + a < e.second.end_addr()) ++n;
      int best = -1;
      for (unsigned j = 0; j <= i; ++j)
      {
        Sym const& t = alphabet[v[j]];
        if (a < t.start || a >= t.end) continue;
        if (best < 0) { best = j; continue; }
        Sym const& b = alphabet[v[best]];
        if (t.dwarf != b.dwarf ? t.dwarf : (t.end - t.start) < (b.end - b.start)) best = j;
      }
      int got = -1;
      if (found) for (unsigned j = 0; j <= i; ++j) if (found->name() == names[j]) got = j;
      key[kl++] = got;
      if (got == (int)i) any_new = true;
      std::string where = "after " + std::to_string(i + 1) + " insertions, address " + std::to_string(a) + ": ";
      if (n > 1) { err = where + std::to_string(n) + " fragments cover it"; break; }
      if (n == 1 && !found) { err = where + "a fragment covers it but is not found by its end address"; break; }
      if ((best < 0) != !found) { err = where + (found ? "has a symbol but lies outside all ranges" : "no symbol, although covered"); break; }
      if (!found) continue;
      if (got < 0) { err = where + "unknown name"; break; }
      Sym const& w = alphabet[v[got]]; Sym const& b = alphabet[v[best]];
      if (a < w.start || a >= w.end) { err = where + "attributed to a symbol that does not cover it"; break; }
      if (w.dwarf != b.dwarf || w.end - w.start != b.end - b.start) { err = where + "attributed to " + names[got] + " instead of " + names[best]; break; }
      if (found->is_elf_symbol() == w.dwarf) { err = where + "debug information of the symbol lost"; break; }
    }
    vx::state(vx::hash(key, kl));
    if (err.empty() && r != any_new) err = "the return value says a fragment was " + std::string(r ? "" : "not ") + "inserted";
  }
  ++vx::g.traces;
  std::string o;
  for (auto const& e : map) o += std::to_string(e.second.start_addr()) + "-" + std::to_string(e.first) + e.second.name();
  vx::outcome(o);
  if (!err.empty()) { vx::describe(text(v)); vx::fail(text(v), err); }
  if (vx::g.samples.empty() && v.size() == 3) vx::sample(text(v) + " -> " + o);
}

int main(int argc, char** argv)
{
  vx::init(argc, argv);
  auto fill = [](int N) {
    alphabet.clear();
    for (int len = 1; len <= N; ++len)
      for (int s = 0; s + len <= N; ++s)
        for (bool dw : {false, true}) alphabet.push_back({s, s + len, dw});
  };
  int N = 8; fill(N);
  vx::sequences(alphabet.size(), 1, 3, [&](std::vector<unsigned> const& v) { run(v, N); });
  N = vx::g.thorough ? 6 : 5; fill(N);
  vx::sequences(alphabet.size(), 4, 4, [&](std::vector<unsigned> const& v) { run(v, N); });
  N = vx::g.thorough ? 5 : 3; fill(N);
  vx::sequences(alphabet.size(), 5, 5, [&](std::vector<unsigned> const& v) { run(v, N); });
  // Degenerate insertions are refused and change nothing.
  for (int a = 0; a < 4; ++a) for (int b = 0; b <= a; ++b)
  {
    if (!vx::take()) continue;
    FunctionSymbolRanges map;
    insert_function_symbol_range(map, base, base + 3, "x", nullptr);
    std::string d = "empty range [" + std::to_string(a) + "," + std::to_string(b) + ")";
    if (insert_function_symbol_range(map, base + a, base + b, "y", nullptr) || map.size() != 1) { vx::describe(d); vx::fail(d, "was inserted"); }
  }
  vx::done();
}
