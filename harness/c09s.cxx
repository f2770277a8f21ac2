// C09: channels are registered, listed, visited and looked up by several threads at the same time.
#include "mc.h"
#include "cwd_sys.h"
#include <libcwd/debug.h>
#include "newch.h"
#include <algorithm>
#include <iostream>
#include <mutex>
#include <thread>
using namespace libcwd;
namespace dc = libcwd::channels::dc;

static void log(char kind, std::string const& s) { std::string t = std::to_string(mc_controlled() ? mc_tid() : 0) + kind + s + '\x1e'; mc_log(t.data(), t.size()); }
static std::mutex mut;
struct Buf : std::streambuf
{
  int overflow(int c) override { log('W', std::string(1, c)); return c; }
  std::streamsize xsputn(char const* s, std::streamsize n) override { log('W', std::string(s, n)); return n; }
};
static Buf buf;
static std::ostream os(&buf);

enum Kind { REG, HID, LIST, EACH, FIND, MSG };
struct Op
{
  Kind k; std::string s;
  bool operator<(Op const& o) const { return k != o.k ? k < o.k : s < o.s; }
};
typedef std::vector<Op> Prog;
static std::string str(Op const& o)
{
  switch (o.k)
  {
    case REG: return "new Channel(\"" + o.s + "\")";
    case HID: return "new Channel(\"" + o.s + "\", false)";
    case LIST: return "list_channels_on";
    case EACH: return "ForAllDebugChannels";
    case FIND: return "find_channel(\"" + o.s + "\")";
    default: return "message";
  }
}
static std::string str(Prog const& p) { std::string r; for (auto& o : p) { if (!r.empty()) r += "; "; r += str(o); } return r; }
static bool longer;             // The labels become longer.
static void run(Prog const& p)
{
  libcw_do.on();
  for (size_t n = 0; n < p.size(); ++n)
  {
    Op const& o = p[n];
    std::string res;
    log('B', std::to_string(n));
    switch (o.k)
    {
      case REG: case HID:
      {
        Channel* c = lw::new_channel(o.s.c_str(), o.k == REG);
        if (c->is_on()) res = "on";
        c->on();
        if (!longer) LibcwDout(libcwd::channels, libcw_do, *c, "first");
        break;
      }
      case LIST: list_channels_on(libcw_do); break;
      case EACH: LibcwdForAllDebugChannels(channels, res += debugChannel.get_label(); res += debugChannel.is_on() ? '1' : '0'; res += '\n'); break;
      case FIND: { Channel* c = find_channel(o.s.c_str()); if (c && !longer) res = c->get_label(); else if (c) { char b[17] = ""; memcpy(b, c->get_label(), 8); res = b; } break; }
      case MSG: dc::notice.on(); LibcwDout(libcwd::channels, libcw_do, dc::notice, "text"); dc::notice.off(); break;
    }
    log('E', std::to_string(n) + res);
  }
}
struct Ev { size_t tid; char k; std::string s; };
static std::vector<Ev> events(std::string const& l)
{
  std::vector<Ev> r;
  for (size_t p = 0, q; p < l.size(); p = q + 1)
  {
    q = l.find('\x1e', p);
    r.push_back({size_t(l[p] - '0'), l[p + 1], l.substr(p + 2, q - p - 2)});
  }
  return r;
}
typedef std::multiset<std::string> Set;
static Set builtin;
static size_t const base_width = 8;
static std::string trim(std::string s) { while (!s.empty() && s.back() == ' ') s.pop_back(); return s; }
static bool prefix(std::string const& p, std::string const& l) { return p.size() <= l.size() && !strncasecmp(p.c_str(), l.c_str(), p.size()); }
// The channels lines, each a label and its state, must be all of lower and some of maybe, sorted and with the same width.
static std::string listed(std::vector<std::pair<std::string, bool>> const& lines, Set const& lower, Set const& maybe, std::set<size_t> const& widths, Set const& on)
{
  Set got, got_on;
  std::string all;
  for (auto& l : lines) all += l.first + (l.second ? "+" : "-") + ", ";
  std::string prev;
  for (auto& l : lines)
  {
    if (!widths.count(l.first.size()) || l.first.size() != lines[0].first.size()) return "the labels have the wrong width: " + all;
    if (l.first < prev) return "not sorted: " + all;
    prev = l.first;
    std::string t = trim(l.first);
    got.insert(t);
    if (l.second) got_on.insert(t);
  }
  if (got_on != on) return "the wrong channels are on: " + all;
  for (auto& s : lower) if (got.count(s) < lower.count(s)) return s + " is missing: " + all;
  for (auto& s : got) if (got.count(s) > lower.count(s) + maybe.count(s)) return s + " should not be there (so often): " + all;
  return "";
}
static std::string judge(std::vector<Prog> const& progs, std::string const& raw)
{
  auto ev = events(raw);
  auto op = [&](size_t tid, std::string const& s) -> Op const& { return progs[tid - 1][s[0] - '0']; };
  for (size_t i = 0; i < ev.size(); ++i)
  {
    if (ev[i].k != 'E' || ev[i].tid == 0) continue;
    size_t tid = ev[i].tid, b = i;
    while (!(ev[b].tid == tid && ev[b].k == 'B')) --b;
    Op const& o = op(tid, ev[i].s);
    std::string res = ev[i].s.substr(1), text;
    for (size_t j = b; j < i; ++j) if (ev[j].tid == tid && ev[j].k == 'W') text += ev[j].s;
    // What was and what may have been registered.
    Set lower = builtin, maybe, on;
    std::set<size_t> widths;
    size_t wl = base_width;
    for (size_t j = 0; j < i; ++j)
      if (ev[j].k == 'E' && ev[j].tid && j < b)
      {
        Op const& r = op(ev[j].tid, ev[j].s);
        if (r.k != REG && r.k != HID) continue;
        wl = std::max(wl, r.s.size());
        if (r.k == REG) { lower.insert(r.s); if (ev[j].tid == tid) on.insert(r.s); }
      }
    widths.insert(wl);
    for (size_t j = 0; j < i; ++j)
      if (ev[j].k == 'B' && ev[j].tid)
      {
        Op const& r = op(ev[j].tid, ev[j].s);
        if (r.k != REG && r.k != HID) continue;
        bool ended = false;
        for (size_t k = j; k < b; ++k) if (ev[k].k == 'E' && ev[k].tid == ev[j].tid && ev[k].s[0] == ev[j].s[0]) ended = true;
        if (ended) continue;
        widths.insert(std::max(wl, r.s.size()));
        if (r.k == REG) maybe.insert(r.s);
      }
    std::string e;
    switch (o.k)
    {
      case REG: case HID:
      {
        if (!res.empty()) e = "the new channel is on";
        std::string want = longer ? "" : o.s + std::string(base_width - o.s.size(), ' ') + ": first\n";
        if (text != want) e = "wrote " + text + " instead of " + want;
        break;
      }
      case MSG: if (text != "NOTICE  : text\n") e = "wrote " + text; break;
      case LIST: case EACH:
      {
        std::vector<std::pair<std::string, bool>> lines;
        std::istringstream is(o.k == LIST ? text : res);
        for (std::string l; std::getline(is, l);)
          if (o.k == EACH) lines.push_back({l.substr(0, l.size() - 1), l.back() == '1'});
          else if (l.size() > 9 && l.substr(l.size() - 9) == ": Enabled") lines.push_back({l.substr(0, l.size() - 9), true});
          else if (l.size() > 10 && l.substr(l.size() - 10) == ": Disabled") lines.push_back({l.substr(0, l.size() - 10), false});
          else e = "wrote the line " + l;
        if (o.k == LIST ? !res.empty() : !text.empty()) e = "unexpected output";
        if (e.empty()) e = listed(lines, lower, maybe, widths, on);
        break;
      }
      case FIND:
      {
        std::string best, r = trim(res);
        for (auto& s : lower) if (prefix(o.s, s) && s > best) best = s;
        bool ok = r == best.substr(0, longer ? 8 : 16);
        for (auto& s : maybe) if (prefix(o.s, s) && s > best && r == s.substr(0, longer ? 8 : 16)) ok = true;
        if (!ok) e = "finds '" + r + "' instead of '" + best + "'";
        break;
      }
    }
    if (!e.empty()) return "thread " + std::to_string(tid) + ": " + str(o) + ": " + e;
  }
  // At the end.
  Set all = builtin;
  size_t w = base_width;
  for (auto& p : progs) for (auto& o : p) if (o.k == REG || o.k == HID) { w = std::max(w, o.s.size()); if (o.k == REG) all.insert(o.s); }
  std::vector<std::pair<std::string, bool>> lines;
  std::istringstream is(ev.empty() ? "" : ev.back().s);
  for (std::string l; std::getline(is, l);) lines.push_back({l, trim(l) == "WARNING"});
  std::string e = listed(lines, all, {}, {w}, {"WARNING"});
  return e.empty() ? "" : "afterwards: " + e;
}
static void check(std::vector<Prog> const& progs, int bound)
{
  bool reg = false, msg = false;
  longer = false;
  for (auto& p : progs) for (auto& o : p) { if (o.k == REG || o.k == HID) { reg = true; if (o.s.size() > base_width) longer = true; } if (o.k == MSG) msg = true; }
  if (!reg || (msg && longer)) return;          // The width of a message while labels get longer is not specified.
  if (!vx::take()) return;
  std::string d;
  for (auto& p : progs) d += (d.empty() ? "" : " | ") + str(p);
  vx::describe(d + " (up to " + std::to_string(bound) + " preemptions)");
  vx::sample(vx::g.desc);
  std::map<std::string, std::string> seen;
  mc::report_races(true);
  mc::explore([&] {
    std::vector<std::thread> th;
    for (auto& p : progs) th.emplace_back([&] { run(p); });
    for (auto& t : th) t.join();
    std::string res;
    LibcwdForAllDebugChannels(channels, res += debugChannel.get_label(); res += '\n');
    log('F', res);
  }, [&](mc::Result const& r) -> std::string {
    if (!r.finished()) return "the program " + r.str();
    auto f = seen.find(r.log);
    if (f != seen.end()) return f->second;
    vx::outcome(r.log);
    return seen[r.log] = judge(progs, r.log);
  }, bound, "schedule", 1);
}

int main(int argc, char** argv)
{
  vx::init(argc, argv);
  Debug(main_reached());
  libcw_do.set_ostream(&os, &mut);
  LibcwdForAllDebugChannels(channels, builtin.insert(trim(debugChannel.get_label())));
  bool th = vx::g.thorough;
  Op const a{REG, "AB"}, z{REG, "ZZZ"}, w{REG, "WAR"}, h{HID, "HIDDEN"}, m{REG, "NINECHARS"}, l{REG, "SIXTEEN_CHARS_16"}, lh{HID, "HIDDEN_LONGER"}, list{LIST, ""}, each{EACH, ""}, fa{FIND, "a"}, fz{FIND, "Z"}, fn{FIND, ""}, fw{FIND, "WAR"}, msg{MSG, ""};
  std::vector<Op> const ops{a, z, w, h, m, l, lh, list, each, fa, fz, fn, fw, msg};
  for (size_t i = 0; i < ops.size(); ++i) for (size_t j = i; j < ops.size(); ++j) check({{ops[i]}, {ops[j]}}, th ? 3 : 2);
  // Two operations.
  std::vector<Prog> const two{{a, list}, {z, fz}, {a, each}, {l, list}, {m, each}, {h, msg}, {a, z}, {m, l}, {w, fw}, {z, a}, {lh, list}};
  for (size_t i = 0; i < two.size(); ++i)
  {
    for (size_t j = i; j < two.size(); ++j) check({two[i], two[j]}, th ? 2 : 1);
    for (auto& o : ops) check({two[i], {o}}, th ? 2 : 1);
  }
  // Three threads.
  for (auto& x : {a, z, h, m, l}) for (auto& y : {z, w, l}) for (auto& o : ops) check({{x}, {y}, {o}}, th ? 2 : 1);
  vx::done();
}
