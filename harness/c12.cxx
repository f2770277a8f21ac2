// C12: margin, marker and indentation.
#include "lw.h"
#include <memory>
using namespace libcwd;
static lw::Rec rec;
static std::ostream os(&rec);
static std::mutex mtx;

static std::string text(int len, char c)
{
  std::string s(len, c);
  for (int i = 0; i < len; i += 7) s[i] = (char)('0' + i % 10);
  return s;
}
struct DoMargin { static DebugString& s() { return libcw_do.margin(); } static void push() { libcw_do.push_margin(); } static void pop() { libcw_do.pop_margin(); } static constexpr char const* n = "margin"; };
struct DoMarker { static DebugString& s() { return libcw_do.marker(); } static void push() { libcw_do.push_marker(); } static void pop() { libcw_do.pop_marker(); } static constexpr char const* n = "marker"; };

struct Op { char k; int a; };
static std::vector<std::string> strs;
static std::string name(Op o)
{
  std::ostringstream s;
  switch (o.k)
  {
    case 'a': case 'A': s << "assign(" << strs[o.a].size() << " characters"; break;
    case 'p': case 'P': s << "append(" << strs[o.a].size() << " characters"; break;
    case 'r': case 'R': s << "prepend(" << strs[o.a].size() << " characters"; break;
    case 'v': s << "reserve(" << o.a << ")"; return s.str();
    case '+': return "push";
    case '-': return "pop";
  }
  s << (strs[o.a].find('\0') != std::string::npos ? " with NULs)" : isupper(o.k) ? " as std::string)" : ")");
  return s.str();
}
template <class D>
static void string_history(std::vector<Op> const& h)
{
  std::string why;
  lw::fresh([&] {
    Debug(libcw_do.on());
    std::string m;
    std::vector<std::string> st;
    D::s().assign("", 0);
    for (Op o : h)
    {
      std::string const& s = strs[o.a < (int)strs.size() && o.k != 'v' ? o.a : 0];
      // A copy of exactly this size, so that reading beyond it is seen.
      std::unique_ptr<char[]> c(new char[s.size()]);
      memcpy(c.get(), s.data(), s.size());
      switch (o.k)
      {
        case 'a': D::s().assign(c.get(), s.size()); m = s; break;
        case 'p': D::s().append(c.get(), s.size()); m += s; break;
        case 'r': D::s().prepend(c.get(), s.size()); m = s + m; break;
        case 'A': D::s().assign(s); m = s; break;
        case 'P': D::s().append(s); m += s; break;
        case 'R': D::s().prepend(s); m = s + m; break;
        case 'v': D::s().reserve(o.a); if (D::s().capacity() < (size_t)o.a) why = "capacity() is less than what was reserved"; break;
        case '+': D::push(); st.push_back(m); break;
        case '-': if (st.empty()) continue; D::pop(); m = st.back(); st.pop_back(); break;
      }
      ++vx::g.transitions;
      DebugString const& d = D::s();
      if (d.size() != m.size() || memcmp(d.c_str(), m.data(), m.size()) || d.c_str()[m.size()] != 0 || d.capacity() < d.size())
        why = "after " + name(o) + ": " + lw::quoted(std::string(d.c_str(), d.size())) + " instead of " + lw::quoted(m) + ", capacity " + std::to_string(d.capacity());
      if (!why.empty()) return;
    }
    rec.clear();
    Debug(dc::notice.on());
    Dout(dc::notice, "x");
    bool margin = D::n == DoMargin::n;
    std::string want = (margin ? m : "") + "NOTICE  " + (margin ? ": " : m) + "x\n";
    if (rec.text != want) why = "prints " + lw::quoted(rec.text) + " instead of " + lw::quoted(want);
    while (!st.empty()) { D::pop(); m = st.back(); st.pop_back(); if (std::string(D::s().c_str(), D::s().size()) != m) why = "pop restores " + lw::quoted(std::string(D::s().c_str(), D::s().size())) + " instead of " + lw::quoted(m); }
    vx::outcome(m);
  });
  if (!why.empty()) vx::fail("string", why);
}
template <class D>
static void strings(unsigned depth, std::vector<Op> const& ops)
{
  vx::sequences(ops.size(), 1, depth, [&](std::vector<unsigned> const& s) {
    if (!vx::take()) return;
    std::vector<Op> h;
    for (unsigned o : s) h.push_back(ops[o]);
    if (vx::verbose() || vx::g.samples.empty()) { std::string t = std::string(D::n) + ": "; for (Op o : h) t += name(o) + "; "; vx::describe(t); vx::sample(t); }
    ++vx::g.extra_states;
    string_history<D>(h);
  });
}

// Scopes.
struct Sop { char k; int a; };
static char const* marks[] = {"|", "\xe2\x94\x82", "+-"};
static std::string name(Sop o)
{
  switch (o.k)
  {
    case 'I': return "Indent(" + std::to_string(o.a) + ")";
    case 'M': return o.a == 0 ? "Mark()" : std::string("Mark(\"") + marks[o.a] + "\")";
    case 'E': return "end()";
    case 'C': return "}";
    case 's': return "set_indent(" + std::to_string(o.a) + ")";
    case 'i': return "inc_indent(" + std::to_string(o.a) + ")";
    case 'd': return "dec_indent(" + std::to_string(o.a) + ")";
    case 'm': return "marker assign(\"#\")";
    case 'n': return "nested";
    case '+': return "push_marker";
  }
  return "?";
}
struct Scope { std::unique_ptr<Indent> i; std::unique_ptr<Mark> m; int amount; bool open; };
static std::string nested() { Dout(dc::notice, "inner"); return "outer"; }
static void scope_history(std::vector<Sop> const& h)
{
  std::string why;
  lw::fresh([&] {
    Debug(libcw_do.on());
    Debug(dc::notice.on());
    std::vector<Scope> sc;
    std::vector<std::string> st;        // Stack of markers.
    unsigned ind = 0;
    std::string marker = ": ";
    auto close = [&] {
      Scope& s = sc.back();
      if (s.i) { s.i.reset(); if (s.amount > 0) ind = ind > (unsigned)s.amount ? ind - s.amount : 0; }
      else { s.m.reset(); if (s.open) { marker = st.back(); st.pop_back(); ind += s.amount; } }
      sc.pop_back();
    };
    auto line = [&](std::string const& where) {
      rec.clear();
      Dout(dc::notice, "x");
      std::string want = "NOTICE  " + marker + std::string(ind, ' ') + "x\n";
      if (rec.text != want) why = where + ": prints " + lw::quoted(rec.text) + " instead of " + lw::quoted(want);
      if (libcw_do.get_indent() != ind) why = where + ": get_indent() is " + std::to_string(libcw_do.get_indent()) + " instead of " + std::to_string(ind);
    };
    for (Sop o : h)
    {
      switch (o.k)
      {
        case 'I': sc.push_back({std::make_unique<Indent>(o.a), nullptr, o.a, true}); if (o.a > 0) ind += o.a; break;
        case 'M':
          sc.push_back({nullptr, o.a == 0 ? std::make_unique<Mark>() : o.a == 1 ? std::make_unique<Mark>(u8"\u2502") : std::make_unique<Mark>(marks[o.a]), (int)ind, true});
          st.push_back(marker);
          marker += std::string(ind, ' ') + marks[o.a] + " ";
          ind = 0;
          break;
        case 'E':
          // Only the innermost scope, or a Mark that was ended before.
          if (sc.empty() || !sc.back().m) continue;
          sc.back().m->end();
          if (sc.back().open) { marker = st.back(); st.pop_back(); ind += sc.back().amount; sc.back().open = false; }
          break;
        case 'C': if (sc.empty()) continue; close(); break;
        case 's': libcw_do.set_indent(o.a); ind = o.a; break;
        case 'i': libcw_do.inc_indent(o.a); ind += o.a; break;
        case 'd': libcw_do.dec_indent(o.a); ind = ind > (unsigned)o.a ? ind - o.a : 0; break;
        case 'm': libcw_do.marker().assign("#", 1); marker = "#"; break;
        case 'n':
        {
          rec.clear();
          Dout(dc::notice, nested());
          std::string want = "NOTICE  " + marker + std::string(ind + 4, ' ') + "inner\nNOTICE  " + marker + std::string(ind, ' ') + "outer\n";
          if (rec.text != want) why = "nested: prints " + lw::quoted(rec.text) + " instead of " + lw::quoted(want);
          break;
        }
      }
      ++vx::g.transitions;
      if (why.empty()) line("after " + name(o));
      if (!why.empty()) break;
    }
    while (!sc.empty()) { if (why.empty()) { close(); line("closing scopes"); } else sc.back().i ? (void)sc.back().i.reset() : (void)sc.back().m.reset(), sc.pop_back(); }
    vx::outcome(rec.text);
  });
  if (!why.empty()) vx::fail("scope", why);
}

int main(int argc, char** argv)
{
  vx::init(argc, argv);
  Debug(main_reached());
  Debug(libcw_do.set_ostream(&os, &mtx));
  bool th = vx::g.thorough;
  for (int len : {0, 1, 63, 64, 65, 130, 300}) strs.push_back(text(len, 'a' + len % 26));
  int nul = strs.size();
  strs.push_back(std::string("a\0b", 3));
  strs.push_back(std::string(70, '\0') + "e");
  std::vector<Op> ops, few;
  for (char k : {'a', 'p', 'r'}) for (int i = 0; i < nul; ++i) ops.push_back({k, i});
  for (char k : {'A', 'P', 'R'}) for (int i = nul; i < nul + 2; ++i) ops.push_back({k, i});
  for (int r : {0, 10, 64, 100, 200}) ops.push_back({'v', r});
  ops.push_back({'+', 0});
  ops.push_back({'-', 0});
  few = {{'a', 0}, {'a', 2}, {'a', 4}, {'p', 1}, {'p', 2}, {'r', 1}, {'r', 4}, {'R', nul}, {'v', 200}, {'+', 0}, {'-', 0}};
  strings<DoMargin>(th ? 4 : 3, ops);
  strings<DoMarker>(3, ops);
  strings<DoMargin>(th ? 6 : 4, few);
  strings<DoMarker>(th ? 5 : 4, few);
  // All lengths.
  {
    size_t n = strs.size();
    for (int len = 0; len < 600; ++len) strs.push_back(text(len, 'k'));
    for (int len = 0; len < 600; ++len)
      for (char k : {'a', 'p', 'r', 'P'})
        for (int pre : {1, 3, 5})
          for (int post : {0, 1, 3, 6})
          {
            if (!vx::take()) continue;
            if (vx::verbose()) vx::describe("lengths " + std::to_string(pre) + " " + std::to_string(len) + " " + std::to_string(post) + " " + k);
            ++vx::g.extra_states;
            string_history<DoMargin>({{'a', pre}, {'+', 0}, {k, (int)n + len}, {'+', 0}, {'a', post}, {'p', 1}, {'-', 0}, {k, 1}});
          }
  }
  // Indentation.
  std::vector<Sop> s = {{'I', 4}, {'I', 0}, {'I', -3}, {'M', 0}, {'M', 1}, {'M', 2}, {'E', 0}, {'C', 0}, {'s', 0}, {'s', 3}, {'i', 2}, {'d', 3}, {'m', 0}, {'n', 0}};
  vx::sequences(s.size(), 1, th ? 6 : 4, [&](std::vector<unsigned> const& q) {
    if (!vx::take()) return;
    std::vector<Sop> h;
    for (unsigned o : q) h.push_back(s[o]);
    if (vx::verbose() || vx::g.samples.size() < 2) { std::string t; for (Sop o : h) t += name(o) + "; "; vx::describe(t); vx::sample(t); }
    ++vx::g.extra_states;
    scope_history(h);
  });
  std::vector<Sop> f = {{'I', 2}, {'M', 0}, {'E', 0}, {'C', 0}, {'i', 1}};
  vx::sequences(f.size(), 5, th ? 9 : 7, [&](std::vector<unsigned> const& q) {
    if (!vx::take()) return;
    std::vector<Sop> h;
    for (unsigned o : q) h.push_back(f[o]);
    if (vx::verbose()) { std::string t; for (Sop o : h) t += name(o) + "; "; vx::describe(t); }
    ++vx::g.extra_states;
    scope_history(h);
  });
  // All indentations.
  for (int i = 0; i < 1200; ++i)
  {
    if (!vx::take()) continue;
    if (vx::verbose()) vx::describe("indentation " + std::to_string(i));
    scope_history({{'s', i}, {'i', i}, {'d', 2 * i + 1}, {'i', i}, {'M', 0}, {'i', i}});
  }
  for (int i : {4095, 4096, 16384, 65535})
  {
    if (!vx::take()) continue;
    scope_history({{'s', i}, {'M', 0}, {'C', 0}, {'d', i}, {'i', i}});
  }
  // Popping what was not pushed.
  for (int k = 0; k < 4; ++k)
    for (int n = 0; n < 3; ++n)
    {
      if (!vx::take()) continue;
      vx::describe(std::string(k & 1 ? "marker" : "margin") + ": " + std::to_string(n) + " push, " + std::to_string(n + 1) + " pop" + (k & 2 ? ", and the other one pushed" : ""));
      auto c = lw::forked([&] {
        Debug(libcw_do.set_ostream(&std::cout));
        Debug(libcw_do.on());
        auto push = [&](bool marker) { if (marker) libcw_do.push_marker(); else libcw_do.push_margin(); };
        auto pop = [&](bool marker) { if (marker) libcw_do.pop_marker(); else libcw_do.pop_margin(); };
        if (k & 2) push(!(k & 1));
        for (int i = 0; i < n; ++i) push(k & 1);
        for (int i = 0; i < n; ++i) pop(k & 1);
        std::cout << "[ok so far]";
        pop(k & 1);
      });
      std::string w = k & 1 ? "Calling `DebugObject::pop_marker' more often than `DebugObject::push_marker'." : "Calling `DebugObject::pop_margin' more often than `DebugObject::push_margin'.";
      if (!c.signaled(SIGABRT) || c.out.find("[ok so far]") == std::string::npos || c.out.find(w) == std::string::npos) vx::fail("pop", "should dump core with the message " + w + ", but: " + c.how() + "\n" + c.out + c.err.substr(0, 1000));
    }
  vx::done();
}
