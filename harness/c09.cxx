// C09: registration orders of channels.
#include "lw.h"
#include <algorithm>
using namespace libcwd;
static char const* labels[] = {"A", "AB", "ABC", "AC", "b", "NINECHARS", "SIXTEEN_CHARS_16", "Z", "NOTICE", "WAR"};
constexpr unsigned NL = sizeof labels / sizeof *labels;
static bool prefix(std::string const& p, std::string const& l)
{
  if (p.size() > l.size()) return false;
  for (size_t i = 0; i < p.size(); ++i) if (tolower((unsigned char)p[i]) != tolower((unsigned char)l[i])) return false;
  return true;
}
static lw::Rec rec;
static std::ostream os(&rec);
static std::mutex mtx;
struct Ch { std::string label; Channel* c; bool on; };
static std::string check(std::vector<Ch>& model, std::vector<Ch> const& hidden, std::vector<std::string> const& lookups, bool own_thread)
{
  size_t w = 8;
  for (auto& m : model) w = std::max(w, m.label.size());
  for (auto& m : hidden) w = std::max(w, m.label.size());
  auto pad = [&](std::string s) { s.resize(w, ' '); return s; };
  std::string why;
  auto bad = [&](std::string const& s) { if (why.empty()) why = s; };
  // What is visited.
  std::vector<Channel*> visited;
  ForAllDebugChannels(visited.push_back(&debugChannel));
  std::multiset<std::string> l1;
  std::string prev;
  if (visited.size() != model.size()) bad("ForAllDebugChannels visits " + std::to_string(visited.size()) + " channels instead of " + std::to_string(model.size()));
  for (Channel* c : visited)
  {
    auto i = std::find_if(model.begin(), model.end(), [&](Ch& m) { return m.c == c; });
    if (i == model.end()) { bad("ForAllDebugChannels visits a channel that should not be listed"); continue; }
    if (std::count(visited.begin(), visited.end(), c) != 1) bad("ForAllDebugChannels visits " + i->label + " more than once");
    if (c->get_label() != pad(i->label)) bad("the label of " + i->label + " is " + lw::quoted(c->get_label()));
    if (i->label < prev) bad(i->label + " is visited after " + prev);
    prev = i->label;
    if (c->is_on() != i->on) bad(i->label + (i->on ? " should be on" : " should be off"));
  }
  for (auto& h : hidden) if (h.c->get_label() != pad(h.label)) bad("the label of " + h.label + " is " + lw::quoted(h.c->get_label()));
  // The list.
  rec.clear();
  list_channels_on(libcw_do);
  std::string want;
  std::vector<Ch> sorted = model;
  std::stable_sort(sorted.begin(), sorted.end(), [](Ch const& a, Ch const& b) { return a.label < b.label; });
  std::multiset<std::string> wl, gl;
  for (auto& m : sorted) wl.insert("M:" + pad(m.label) + (m.on ? ": Enabled" : ": Disabled"));
  {
    std::istringstream i(rec.text);
    std::string p;
    for (std::string l; std::getline(i, l);) { gl.insert(l); if (l.substr(0, 2 + w) < p) bad("the list is not sorted: " + lw::quoted(rec.text)); p = l.substr(0, 2 + w); }
    if (wl != gl) { for (auto& s : wl) want += s + "\n"; bad("list_channels_on prints " + lw::quoted(rec.text) + " instead of " + lw::quoted(want)); }
  }
  // Lookup.
  for (auto& s : lookups)
  {
    Channel* c = find_channel(s.c_str());
    std::string best;
    bool any = false;
    for (auto& m : model) if (prefix(s, m.label)) { if (!any || m.label > best) best = m.label; any = true; }
    ++vx::g.evals;
    if (!any) { if (c) bad("find_channel(\"" + s + "\") finds " + c->get_label()); continue; }
    if (!c) { bad("find_channel(\"" + s + "\") finds nothing"); continue; }
    auto i = std::find_if(model.begin(), model.end(), [&](Ch& m) { return m.c == c; });
    if (i == model.end() || i->label != best) bad("find_channel(\"" + s + "\") finds " + c->get_label() + " instead of " + best);
  }
  // Output lines.
  for (auto* v : {&model, const_cast<std::vector<Ch>*>(&hidden)})
    for (auto& m : *v)
    {
      bool was = m.c->is_on();
      if (!was) m.c->on();
      rec.clear();
      {
        Channel& ch = *m.c;
        LibcwDoutScopeBegin(LIBCWD_DEBUG_CHANNELS, libcw_do, ch);
        LibcwDoutStream << "x";
        LibcwDoutScopeEnd;
      }
      if (!was) m.c->off();
      if (rec.text != "M:" + pad(m.label) + ": x\n") bad("a line to " + m.label + " is " + lw::quoted(rec.text));
    }
  rec.clear();
  Dout(dc::always, "x");
  if (rec.text != "M:" + std::string(w, '>') + ": x\n") bad("a line to dc::always is " + lw::quoted(rec.text));
  return why;
}
int main(int argc, char** argv)
{
  vx::init(argc, argv);
  Debug(main_reached());
  Debug(libcw_do.set_ostream(&os, &mtx));
  Debug(libcw_do.on());
  Debug(libcw_do.margin().assign("M:", 2));
  std::vector<Ch> builtin;
  ForAllDebugChannels(builtin.push_back({"", &debugChannel, debugChannel.is_on()}));
  for (auto& b : builtin) { b.label = b.c->get_label(); b.label.erase(b.label.find_last_not_of(' ') + 1); }
  std::set<std::string> names;
  for (auto& b : builtin) names.insert(b.label);
  if (names != std::set<std::string>{"BFD", "DEBUG", "ELFUTILS", "MALLOC", "NOTICE", "SYSTEM", "WARNING"} && !names.count("NOTICE")) vx::fail("builtin", "no NOTICE channel");
  std::set<std::string> lk;
  for (auto& l : labels) for (size_t i = 0; i <= strlen(l); ++i) for (int m = 0; m < 3; ++m)
  {
    std::string s(l, i);
    for (size_t k = 0; k < i; ++k) s[k] = m == 0 ? s[k] : m == 1 ? tolower(s[k]) : k & 1 ? tolower(s[k]) : toupper(s[k]);
    lk.insert(s);
    lk.insert(s + "x");
  }
  for (auto& b : names) for (size_t i = 0; i <= b.size(); ++i) lk.insert(b.substr(0, i));
  for (char a = 'a'; a <= 'z'; ++a) { lk.insert(std::string(1, a)); for (char b = 'a'; b <= 'd'; ++b) lk.insert(std::string(1, a) + b); }
  std::vector<std::string> lookups(lk.begin(), lk.end());
  vx::g.notes["lookup strings"] = std::to_string(lookups.size());
  // All sequences without repetition (except one label that may be there twice); bit 7: hidden.
  int depth = vx::g.thorough ? 4 : 3;
  std::vector<unsigned> seq;
  std::function<void()> go = [&] {
    if (!seq.empty() && vx::take())
    {
      std::string t;
      for (unsigned s : seq) t += std::string(labels[s & 127]) + (s & 128 ? " (hidden)" : "") + "; ";
      vx::describe(t);
      vx::sample(t);
      ++vx::g.extra_states;
      vx::g.transitions += seq.size();
      auto c = lw::forked([&] {
        std::vector<Ch> model = builtin, hidden;
        std::string why;
        for (size_t i = 0; i < seq.size() && why.empty(); ++i)
        {
          char const* l = labels[seq[i] & 127];
          bool hid = seq[i] & 128;
          Channel* ch = lw::new_channel(l, !hid);
          (hid ? hidden : model).push_back({l, ch, false});
          if (ch->is_on()) why = std::string(l) + " is on after it was registered";
          if (i & 1) { ch->on(); (hid ? hidden : model).back().on = true; }
          if (why.empty()) why = check(model, hidden, i + 1 == seq.size() ? lookups : std::vector<std::string>(), true);
          if (!why.empty()) why = "after registering " + std::string(l) + ": " + why;
        }
        // Another thread: everything is off.
        if (why.empty())
          lw::fresh([&] {
            Debug(libcw_do.on());
            Debug(libcw_do.margin().assign("M:", 2));
            for (auto& m : model) m.on = false;
            why = check(model, hidden, {}, false);
            if (!why.empty()) why = "in a new thread: " + why;
            Debug(libcw_do.off());
            rec.clear();
            list_channels_on(libcw_do);
            if (!rec.text.empty()) why = "list_channels_on prints something although the debug object is off";
          });
        // The labels of fatal messages.
        if (why.empty())
        {
          size_t w = 8;
          for (auto* v : {&model, &hidden}) for (auto& m : *v) w = std::max(w, m.label.size());
          for (char const* l : {channels::dc::core.get_label(), channels::dc::fatal.get_label()}) if (strlen(l) != w) why = std::string("the label of a fatal channel is ") + lw::quoted(l);
        }
        if (!why.empty()) { std::cout << why << std::endl; _exit(1); }
      });
      if (!c.exited(77)) vx::fail("channels", c.exited(1) ? c.out : c.how() + "\n" + c.err.substr(0, 2000));
      vx::outcome(t);
    }
    if ((int)seq.size() == depth) return;
    for (unsigned l = 0; l < NL; ++l)
      for (unsigned hid : {0u, 128u})
      {
        if (hid && l != 2 && l != 6 && l != 8) continue;
        int n = 0;
        for (unsigned s : seq) if ((s & 127) == l) ++n;
        if (n > (l == 1)) continue;
        seq.push_back(l | hid);
        go();
        seq.pop_back();
      }
  };
  go();
  // A label that is too long.
  for (int len = 15; len < 20; ++len)
  {
    if (!vx::take()) continue;
    vx::describe("a label of " + std::to_string(len) + " characters");
    std::string l(len, 'L');
    auto c = lw::forked([&] { Debug(libcw_do.set_ostream(&std::cout)); lw::new_channel(l.c_str()); });
    if (len <= 16 ? !c.exited(77) : !c.signaled(SIGABRT) || c.out.find("strlen(\"" + l + "\") > 16") == std::string::npos) vx::fail("length", c.how() + c.out);
  }
  vx::done();
}
