// C07: the debug state of a thread.  All histories of operations of up to three threads (and the first thread), one operation at a time;
// what a thread prints and reports must be what it prints and reports when it is alone.
#include "lw.h"
#include "workers.h"
#include "c07ops.h"
#include <memory>
#include <unordered_map>
using namespace libcwd;

static lw::Rec rec;
static std::ostream os(&rec);
static std::mutex mut;
struct Step { int t, op; };
static std::string str(std::vector<Step> const& h)
{
  std::string r;
  for (auto& s : h) { if (!r.empty()) r += "; "; r += (s.t == 3 ? std::string("first thread") : std::string("thread ") + (char)('A' + s.t)) + ": " + opname[s.op]; }
  return r;
}
static bool legal(std::vector<Step> const& h)
{
  int used = 0;
  bool alive[4] = {};
  Abs a[4];
  for (auto& s : h)
  {
    if (s.t < 3)
    {
      if (s.t > used) return false;
      if (s.t == used) ++used;
    }
    if (s.op == END) { if (!alive[s.t]) return false; alive[s.t] = false; a[s.t] = fresh_abs; continue; }
    alive[s.t] = true;
    if (!allowed(a[s.t], s.op)) return false;
  }
  return true;
}

// One life of a thread: what it did and what was seen.
struct Life
{
  std::unique_ptr<lw::Worker> w;
  std::string ops, trace;
};
static void act(Life& l, int op)
{
  size_t before = rec.marked.size();
  std::string s1, s2;
  auto job = [&] { s1 = state(); real(op); s2 = state(); };
  l.w->run(job);
  l.ops += (char)('A' + op);
  l.trace += s1 + "[" + rec.marked.substr(before) + "]" + s2 + "\n";
}
static void begin(Life& l) { l.w.reset(new lw::Worker); l.ops.clear(); l.trace.clear(); }
// When a thread ends nothing is written.
static bool end(Life& l)
{
  if (!l.w) return true;
  size_t before = rec.marked.size();
  l.w->end();
  l.w.reset();
  return rec.marked.size() == before;
}
static std::unordered_map<std::string, std::string> memo;
static std::string const& alone(std::string const& ops)
{
  auto it = memo.find(ops);
  if (it != memo.end()) return it->second;
  Life l;
  begin(l);
  for (char c : ops) act(l, c - 'A');
  std::string t = l.trace;
  end(l);
  return memo[ops] = t;
}
static std::string const initial = "{0,0,,: ,,}{0,0,,: ,,}000000";

static void check(std::vector<Step> const& h)
{
  if (!legal(h)) return;
  if (!vx::take()) return;
  if (vx::verbose()) vx::describe(str(h));
  else vx::g.desc.clear();
  vx::state(vx::hash(str(h)));
  if (vx::g.samples.size() < 3 && h.size() > 2) vx::sample(str(h));
  rec.clear();
  Life l[3];
  std::vector<std::pair<std::string, std::string>> lives;
  std::string err, all;
  std::string main_state = state(), main_start = main_state;
  auto over = [&](Life& x) {
    lives.push_back({x.ops, x.trace});
    if (!end(x) && err.empty()) err = "something is written when a thread ends";
  };
  for (auto& s : h)
  {
    if (s.t == 3) { real(s.op); main_state = state(); }
    else if (s.op == END) over(l[s.t]);
    else { if (!l[s.t].w) begin(l[s.t]); act(l[s.t], s.op); }
    if (state() != main_state && err.empty()) err = "the state of the first thread changed from " + main_state + " to " + state() + " because of what another thread did";
    ++vx::g.transitions;
  }
  // One more look at each of the threads.
  for (auto& x : l) if (x.w) { act(x, PLAIN); }
  for (auto& x : l) if (x.w) over(x);
  for (auto& x : lives)
  {
    all += x.second + "|";
    if (err.empty() && x.second.compare(0, initial.size(), initial)) err = "a new thread has as initial state " + x.second.substr(0, initial.size() + 20) + " instead of " + initial;
  }
  vx::outcome(all);
  // Restore the first thread.
  LIBCWD_TSD_DECLARATION;
  if (libcw_do.is_on(LIBCWD_TSD)) libcw_do.off();
  if (c1->is_on()) c1->off();
  libcw_do.margin().assign("", 0); libcw_do.color_on().assign("", 0); libcw_do.color_off().assign("", 0); libcw_do.set_indent(0); other.set_indent(0); location_format(0);
  if (err.empty() && state() != main_start) err = "the first thread cannot restore its state: " + state();
  for (auto& x : lives)
    if (err.empty() && x.second != alone(x.first)) err = "a thread printed and reported\n" + x.second + "\ninstead of\n" + alone(x.first) + "\nwhich it does when it is alone";
  if (!err.empty()) { vx::describe(str(h)); vx::fail("thread-state", err); }
}

int main(int argc, char** argv)
{
  vx::init(argc, argv);
  Debug(main_reached());
  c1 = lw::new_channel("ONE");
  c2 = lw::new_channel("TWO");
  libcw_do.set_ostream(&os, &mut);
  other.set_ostream(&os, &mut);
  bool th = vx::g.thorough;
  auto explore = [&](int nt, std::vector<int> const& ops, std::vector<int> const& main_ops, unsigned from, unsigned to) {
    std::vector<Step> al;
    for (int t = 0; t < nt; ++t) for (int op : ops) al.push_back({t, op});
    for (int op : main_ops) al.push_back({3, op});
    vx::sequences(al.size(), from, to, [&](std::vector<unsigned> const& s) {
      std::vector<Step> h;
      for (unsigned i : s) h.push_back(al[i]);
      check(h);
    });
  };
  std::vector<int> every, first = {PLAIN, ON, CH_ON, MARGIN, IND, COLOR, FORMAT, FORCE};
  for (int i = 0; i < NOPS; ++i) every.push_back(i);
  explore(3, every, first, 1, 3);
  explore(2, {PLAIN, ON, CH_ON, MARGIN, PUSH, POP, IND, FORCE, END}, {ON, CH_ON, MARGIN}, 4, th ? 5 : 4);
  explore(2, {START, FIN, ON, CH_ON, CH_OFF, OFF, END}, {}, 4, 5);
  explore(3, {ON, CH_ON, PLAIN, MARGIN, END}, {}, 4, th ? 6 : 5);
  if (th)
  {
    explore(2, every, {}, 4, 4);
    explore(2, {START, FIN, ON, CH_ON, OFF, END}, {}, 6, 6);
  }
  vx::done();
}
