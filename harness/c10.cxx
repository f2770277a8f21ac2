// C10: all short rcfiles (and override files), and all combinations of files in the search path.
#include "lw.h"
#include <fstream>
#include <map>
#include <pwd.h>
#include <sys/stat.h>

// The home directory according to the password database, and what access() says, belong to the environment.
static std::string g_pwhome; static bool g_pw_null; static std::string g_unreadable;
extern "C" struct passwd* getpwuid(uid_t)
{
  static struct passwd pw;
  pw.pw_dir = const_cast<char*>(g_pwhome.c_str());
  return g_pw_null ? nullptr : &pw;
}
extern "C" int access(char const* name, int) noexcept { if (!g_unreadable.empty() && g_unreadable == name) { errno = EACCES; return -1; } return 0; }

static bool eq(char a, char b) { return toupper((unsigned char)a) == toupper((unsigned char)b); }
static bool glob(char const* m, char const* l)
{
  if (!*m) return !*l;
  if (*m == '*') return glob(m + 1, l) || (*l && glob(m, l + 1));
  return *l && eq(*m, *l) && glob(m + 1, l + 1);
}

struct Line
{
  std::string text;     // The line in the file.
  enum K { NONE, SILENT_ON, SILENT_OFF, GDB, XTERM, DEFAULT, ON, OFF, TOGGLE, UNKNOWN, SYNTAX } kind;
  std::string value;    // The value as documented.
  std::vector<std::string> masks;
};
static std::vector<Line> A;

static std::vector<std::string> labels;  // Of all listed channels, without padding.

struct Model
{
  std::map<std::string, bool> on;
  std::string gdb, xterm;
  bool saw_default[2] = {false, false}, default_on = false;
  bool silent = false;
  bool any_setting[2] = {}, silent_first[2] = {};
  bool reset_on = false, reset_off = false;
  bool quirk;           // Known finding: an override does not reset what was turned on when the default is off.
  std::string fatal;    // Text that must be in the message.
  std::string unknown;  // Lines with an unknown keyword.
  std::set<std::string> shown;  // name:line of settings that are shown.
  std::vector<std::pair<std::string, std::string>> unknown_seen;
  Model(bool q) : quirk(q) { }
  void all(bool v) { for (auto& x : on) x.second = v; }
  void apply(Line const& l, int file, std::string const& where)
  {
    switch (l.kind)
    {
      case Line::NONE: return;
      case Line::SILENT_ON: silent = true; return;
      case Line::SILENT_OFF: silent = false; return;
      case Line::SYNTAX: if (l.value.empty()) { fatal = where + ": syntax error."; return; } break;
      default: break;
    }
    if (!silent) shown.insert(where); else if (!any_setting[file]) silent_first[file] = true;
    any_setting[file] = true;
    switch (l.kind)
    {
      case Line::GDB: gdb = l.value; break;
      case Line::XTERM: xterm = l.value; break;
      case Line::DEFAULT:
        if (saw_default[file]) break;
        saw_default[file] = true;
        if (l.value == "on") { all(true); default_on = true; }
        else if (l.value == "off") { all(false); default_on = false; }
        else fatal = where + ": syntax error.";
        break;
      case Line::TOGGLE:
        if (!saw_default[0] && !saw_default[file]) { fatal = where + ": channels_toggle used before channels_default."; break; }
        sel(l, [](bool v) { return !v; });
        break;
      case Line::ON:
        if (file == 1 && !reset_on && !reset_off)
        {
          bool saw = saw_default[0] || saw_default[1];
          if (!quirk || !saw || default_on)
          {
            all(false);
            if (!saw) on["WARNING"] = true;
            reset_on = true;
          }
        }
        sel(l, [](bool) { return true; });
        break;
      case Line::OFF:
        if (file == 1 && !reset_on && !reset_off && (saw_default[0] || saw_default[1]) && !default_on) { all(true); reset_off = true; }
        sel(l, [](bool) { return false; });
        break;
      case Line::UNKNOWN: unknown_seen.push_back({l.text, l.value}); break;
      default: break;
    }
  }
  template <class F> void sel(Line const& l, F f)
  {
    for (auto& m : l.masks) for (auto& x : on) if (glob(m.c_str(), x.first.c_str())) x.second = f(x.second);
  }
};

static std::mutex cerr_mutex;
static void to_cerr() { libcwd::libcw_do.set_ostream(&std::cerr, &cerr_mutex); }

struct MyRc : libcwd::RcFile
{
  std::vector<std::pair<std::string, std::string>> seen; bool handled = false;
  bool unknown_keyword(std::string const& k, std::string const& v) override { seen.push_back({k, v}); return !handled; }
};

static void write_file(std::string const& name, std::vector<unsigned> const& v)
{
  std::ofstream f(name);
  for (unsigned k : v) f << A[k].text << '\n';
}

static std::string strip(char const* l) { std::string s = l; while (!s.empty() && s.back() == ' ') s.pop_back(); return s; }

static void run(std::vector<unsigned> const& base, std::vector<unsigned> const* over, int init)
{
  if (!vx::take()) return;
  std::string d = std::string(init ? "NOTICE WARNING ELFUTILS initially on; " : "all channels initially off; ") + "rcfile:";
  for (unsigned k : base) d += " <" + A[k].text + ">";
  if (over) { d += " override:"; for (unsigned k : *over) d += " <" + A[k].text + ">"; }
  if (vx::verbose()) vx::describe(d);
  write_file("rc", base);
  if (over) { write_file("over", *over); setenv("LIBCWD_RCFILE_OVERRIDE_NAME", "over", 1); }
  else unsetenv("LIBCWD_RCFILE_OVERRIDE_NAME");
  Model ms[2] = {Model(false), Model(true)};
  for (auto& m : ms)
  {
    for (auto& l : labels) m.on[l] = init && (l == "NOTICE" || l == "WARNING" || l == "ELFUTILS");
    for (unsigned i = 0; i < base.size() && m.fatal.empty(); ++i) m.apply(A[base[i]], 0, "rc:" + std::to_string(i + 1));
    if (over) for (unsigned i = 0; i < over->size() && m.fatal.empty(); ++i) m.apply(A[(*over)[i]], 1, "over:" + std::to_string(i + 1));
    vx::g.transitions += base.size() + (over ? over->size() : 0);
  }
  auto body = [&](std::string* err, std::string* quirk) {
    Debug(libcw_do.on());
    lw::Rec rec; std::ostream os(&rec); static std::mutex mut;
    libcwd::libcw_do.set_ostream(&os, &mut);
    if (init) { Debug(if (!dc::notice.is_on()) dc::notice.on(); if (!dc::warning.is_on()) dc::warning.on(); if (!dc::elfutils.is_on()) dc::elfutils.on()); }
    MyRc rc;
    rc.handled = init;
    rc.read();
    if (!err) return;
    auto compare = [&](Model& m) -> std::string {
      std::string e;
      if (!m.fatal.empty()) return "the program should have terminated with \"" + m.fatal + "\"";
      ForAllDebugChannels(
        std::string l = strip(debugChannel.get_label());
        ++vx::g.evals;
        if (e.empty() && debugChannel.is_on() != m.on[l]) e = "channel " + l + " is " + (debugChannel.is_on() ? "on" : "off"));
      if (!e.empty()) return e;
      if (rc.gdb_bin() != m.gdb) return "gdb_bin() is \"" + rc.gdb_bin() + "\"";
      if (rc.konsole_command() != m.xterm) return "konsole_command() is \"" + rc.konsole_command() + "\"";
      if (!rc.read_called()) return "read_called() is false";
      if (rc.seen.size() != m.unknown_seen.size()) return "unknown_keyword() called " + std::to_string(rc.seen.size()) + " times";
      for (unsigned i = 0; i < rc.seen.size(); ++i)
        if (rc.seen[i].first != "frobnicate" || rc.seen[i].second != m.unknown_seen[i].second) return "unknown_keyword(\"" + rc.seen[i].first + "\", \"" + rc.seen[i].second + "\")";
      return {};
    };
    *err = compare(ms[0]);
    if (!err->empty() && compare(ms[1]).empty()) { *quirk = *err; err->clear(); }
    // Messages about settings are shown exactly when not silent; an unhandled unknown keyword gives a warning.
    std::set<std::string> shown; unsigned warned = 0;
    std::vector<std::string> env_shown, env_want;
    bool env_open = false;
    std::istringstream is(rec.text); std::string line;
    while (getline(is, line))
    {
      size_t c = line.find(": ");
      if (c == std::string::npos) continue;
      std::string lab = strip(line.substr(0, c).c_str());
      std::string rest = line.substr(c + 2);
      if (lab == "RCFILE" && (rest.compare(0, 3, "rc:") == 0 || rest.compare(0, 5, "over:") == 0)) shown.insert(rest.substr(0, rest.find(": ")));
      if (lab == "RCFILE" && rest.compare(0, 26, "Using environment variable") == 0) env_shown.push_back(rest);
      if (lab == "WARNING" && rest.find("nknown keyword") != std::string::npos) ++warned;
    }
    for (int f = 0; f < 2; ++f)
    {
      // Shown with the first setting; nothing is said about a first setting that is not shown while later ones are.
      bool any = false;
      for (auto& x : ms[0].shown) if (x.compare(0, f ? 5 : 3, f ? "over:" : "rc:") == 0) any = true;
      if (any && ms[0].silent_first[f]) { env_open = true; continue; }
      if (any) env_want.push_back(std::string("Using environment variable ") + (f ? "LIBCWD_RCFILE_OVERRIDE_NAME" : "LIBCWD_RCFILE_NAME") + " with value \"" + (f ? "over" : "rc") + "\".");
    }
    if (err->empty() && !env_open && env_shown != env_want) *err = "messages about environment variables: wrote " + lw::quoted(rec.text);
    if (err->empty() && shown != ms[0].shown)
      *err = "settings shown differ: wrote " + lw::quoted(rec.text);
    if (err->empty() && warned != (init ? 0 : ms[0].unknown_seen.size())) *err = std::to_string(warned) + " warnings about unknown keywords: " + lw::quoted(rec.text);
    // The state left behind is a plain on or off: a single call changes it.
    std::string bits;
    ForAllDebugChannels(
      std::string l = strip(debugChannel.get_label());
      bool was = debugChannel.is_on();
      bits += was ? '1' : '0';
      if (was) debugChannel.off(); else debugChannel.on();
      if (err->empty() && debugChannel.is_on() == was) *err = "after reading, channel " + l + (was ? " is still on after one off()" : " is still off after one on()"));
    vx::outcome(bits + rc.gdb_bin() + rc.konsole_command() + rec.text);
    vx::state(vx::hash(bits + rc.gdb_bin() + rc.konsole_command()));
  };
  std::string err, quirk;
  if (ms[0].fatal.empty()) lw::fresh([&] { body(&err, &quirk); });
  else
  {
    lw::Child c = lw::forked([&] {
      to_cerr();
      MyRc rc; rc.read();
    });
    if (!c.exited(180)) err = "expected exit status 180 and \"" + ms[0].fatal + "\", got " + c.how() + " " + lw::quoted(c.err);
    else if (c.err.find(ms[0].fatal) == std::string::npos) err = "expected \"" + ms[0].fatal + "\", got " + lw::quoted(c.err);
    vx::outcome(c.err);
  }
  ++vx::g.traces;
  if (!quirk.empty()) { vx::describe(d); vx::fail("override-channels_on-adds-when-default-is-off", quirk); }
  if (!err.empty()) { vx::describe(d); vx::fail(d, err); }
  if (vx::g.samples.empty() && base.size() > 2) vx::sample(d);
}

// The search path.
static void search()
{
  char cwd[4096]; if (!getcwd(cwd, sizeof cwd)) _exit(2);
  std::string top = cwd;
  for (auto s : {"/w", "/h", "/p", "/a"}) mkdir((top + s).c_str(), 0755);
  g_pwhome = top + "/p";
  std::string data = DATADIR_DIR "/libcwd/libcwdrc";
  for (int named = 0; named < 3; ++named)              // 0: default name, 1: LIBCWD_RCFILE_NAME=x, 2: absolute LIBCWD_RCFILE_NAME.
    for (int home = 0; home < 3; ++home)               // 0: set, 1: empty, 2: unset.
      for (int pwn = 0; pwn < 2; ++pwn)                // No entry in the password database.
        for (int mask = 0; mask < 64; ++mask)           // Which files exist: cwd, $HOME, pw home, absolute; cwd entry is a directory; unreadable.
        {
          if (!vx::take()) continue;
          std::string name = named == 0 ? ".libcwdrc" : named == 1 ? "x" : top + "/a/abs";
          bool ex[4] = {bool(mask & 1), bool(mask & 2), bool(mask & 4), bool(mask & 8)};
          bool cwd_dir = mask & 16, unreadable = mask & 32;
          std::string d = "name " + std::string(named == 0 ? "default" : named == 1 ? "relative" : "absolute") + ", HOME " + (home == 0 ? "set" : home == 1 ? "empty" : "unset") +
            (pwn ? ", no passwd entry" : "") + ", files:" + (ex[0] ? " ." : "") + (ex[1] ? " $HOME" : "") + (ex[2] ? " passwd" : "") + (ex[3] ? " absolute" : "") +
            (cwd_dir ? ", directory of that name in ." : "") + (unreadable ? ", first one found is not readable" : "");
          if (vx::verbose()) vx::describe(d);
          std::string rel = named == 2 ? ".libcwdrc" : name;
          auto put = [](std::string const& p, bool e, char const* tag) { if (e) { std::ofstream f(p); f << "silent = on\ngdb = " << tag << "\n"; } else ::unlink(p.c_str()); };
          if (cwd_dir && ex[0]) { --vx::g.cases; continue; }
          ::rmdir((top + "/w/.libcwdrc").c_str()); ::rmdir((top + "/w/x").c_str());
          for (std::string n : {".libcwdrc", "x"})
          {
            bool me = n == rel && named != 2;
            put(top + "/w/" + n, me && ex[0], "cwd"); put(top + "/h/" + n, me && ex[1], "home"); put(top + "/p/" + n, me && ex[2], "pw");
          }
          put(top + "/a/abs", ex[3], "abs");
          if (cwd_dir) mkdir((top + "/w/" + rel).c_str(), 0755);
          if (chdir((top + "/w").c_str())) _exit(2);
          if (home == 0) setenv("HOME", (top + "/h").c_str(), 1); else if (home == 1) setenv("HOME", "", 1); else unsetenv("HOME");
          if (named) setenv("LIBCWD_RCFILE_NAME", name.c_str(), 1); else unsetenv("LIBCWD_RCFILE_NAME");
          unsetenv("LIBCWD_RCFILE_OVERRIDE_NAME");
          g_pw_null = pwn;
          std::string want, path;
          if (named == 2) { if (ex[3]) { want = "abs"; path = name; } }
          else if (ex[0]) { want = "cwd"; path = name; }
          else if (ex[1] && home == 0) { want = "home"; path = top + "/h/" + name; }
          else if (ex[2] && !pwn) { want = "pw"; path = top + "/p/" + name; }
          std::string const data_tag = "data";
          if (want.empty() && !named) { want = data_tag; path = data; }
          g_unreadable = unreadable ? path : "";
          bool fatal = want.empty() || (unreadable && !path.empty());
          std::string err;
          if (fatal)
          {
            lw::Child c = lw::forked([&] { to_cerr(); libcwd::RcFile rc; rc.read(); });
            if (!c.exited(180)) err = "expected exit status 180, got " + c.how() + " " + lw::quoted(c.err);
            else if (c.err.find("read_rcfile") == std::string::npos || (!want.empty() && c.err.find("EACCES") == std::string::npos)) err = "message: " + lw::quoted(c.err);
            vx::outcome(c.err);
          }
          else
            lw::fresh([&] {
              Debug(libcw_do.on());
              lw::Rec rec; std::ostream os(&rec); static std::mutex mut;
              libcwd::libcw_do.set_ostream(&os, &mut);
              if (mask & 8) Debug(if (!dc::warning.is_on()) dc::warning.on());
              bool on = libcwd::channels::dc::warning.is_on();
              libcwd::RcFile rc; rc.read();
              if (rc.gdb_bin() != want) err = "read the file of \"" + rc.gdb_bin() + "\" instead of \"" + want + "\"";
              else if (libcwd::channels::dc::warning.is_on() != on) err = "the warning channel is turned on or off";
              else if ((rec.text.find(": Using default rcfile \"" + data + "\".\n") != std::string::npos) != (want == data_tag) || (rec.text.find(" exist.\n") != std::string::npos) != (want == data_tag)) err = "wrote " + lw::quoted(rec.text);
              vx::outcome(rc.gdb_bin());
            });
          if (chdir(top.c_str())) _exit(2);
          ++vx::g.traces; ++vx::g.transitions; ++vx::g.evals;
          vx::state(vx::hash(d));
          g_unreadable.clear();
          if (!err.empty()) { vx::describe(d); vx::fail(d, err); }
        }
  g_pw_null = false;
}

// All short lines, and all ways to separate names.
static void lexical()
{
  static std::string const ws = " \t\v";
  unsetenv("LIBCWD_RCFILE_OVERRIDE_NAME");
  setenv("LIBCWD_RCFILE_NAME", "rc", 1);
  auto trim = [&](std::string s) { while (!s.empty() && ws.find(s[0]) != ws.npos) s.erase(0, 1); while (!s.empty() && ws.find(s.back()) != ws.npos) s.pop_back(); return s; };
  std::vector<std::string> lines;
  std::vector<std::pair<std::string, std::string>> want;
  auto flush = [&] {
    if (lines.empty()) return;
    if (vx::take())
    {
      std::string d = "rcfile with " + std::to_string(lines.size()) + " lines from \"" + vx::esc(lines[0]) + "\" to \"" + vx::esc(lines.back()) + "\"";
      vx::describe(d);
      { std::ofstream f("rc"); for (auto& l : lines) f << l << '\n'; }
      std::string err;
      lw::fresh([&] {
        MyRc rc; rc.handled = true;
        rc.read();
        for (size_t i = 0; i < std::max(rc.seen.size(), want.size()) && err.empty(); ++i)
        {
          std::pair<std::string, std::string> n("nothing", ""), g = i < rc.seen.size() ? rc.seen[i] : n, w = i < want.size() ? want[i] : n;
          if (g != w) err = "the keyword " + lw::quoted(g.first) + " with value " + lw::quoted(g.second) + " was read instead of " + lw::quoted(w.first) + " and " + lw::quoted(w.second);
          vx::outcome(g.first + '=' + g.second);
        }
      });
      vx::g.traces += lines.size(); vx::g.transitions += lines.size(); vx::g.evals += lines.size(); vx::state(vx::hash(d));
      if (!err.empty()) vx::fail("lexical", err);
    }
    lines.clear(); want.clear();
  };
  std::string const al = "a= \t#,\v";
  vx::sequences(al.size(), 0, vx::g.thorough ? 7 : 6, [&](std::vector<unsigned> const& v) {
    std::string line, t;
    for (unsigned k : v) line += al[k];
    t = trim(line);
    if (t.empty() || t[0] == '#') lines.push_back(line);
    else if (t.find('=') == t.npos || t[0] == '=')
    {
      if (v.size() > 3 || !vx::take()) return;
      vx::describe("rcfile with the line \"" + vx::esc(line) + "\"");
      { std::ofstream f("rc"); f << "#\n" << line << '\n'; }
      lw::Child c = lw::forked([&] { to_cerr(); MyRc rc; rc.read(); });
      if (!c.exited(180) || c.err.find("rc:2: syntax error.") == std::string::npos) vx::fail("syntax error", "expected exit status 180 and a syntax error in rc:2, got " + c.how() + " " + lw::quoted(c.err));
      ++vx::g.traces; ++vx::g.transitions; ++vx::g.evals;
    }
    else
    {
      lines.push_back(line);
      want.push_back({t.substr(0, t.find_first_of(ws + "=")), trim(t.substr(t.find('=') + 1))});
    }
    if (lines.size() == 500) flush();
  });
  flush();
  // Names and what separates them.
  std::vector<std::string> seps, ends;
  vx::sequences(4, 0, 3, [&](std::vector<unsigned> const& v) { std::string x; for (unsigned k : v) x += ", \t\v"[k]; if (!x.empty()) seps.push_back(x); if (x.size() < 2) ends.push_back(x); });
  for (int action = 0; action < 3; ++action)
    for (auto& sep : seps) for (auto& a : ends) for (auto& b : ends)
    {
      if (action && (!a.empty() || !b.empty())) continue;
      if (!vx::take()) continue;
      std::string line = std::string(action == 0 ? "channels_on" : action == 1 ? "channels_off" : "channels_toggle") + "=" + a + "notice" + sep + "system" + sep + "Elf*" + b;
      vx::describe("rcfile with the line \"" + vx::esc(line) + "\"");
      { std::ofstream f("rc"); f << "silent = on\nchannels_default = off\nchannels_on = notice, debug, elfutils\nchannels_on = " << (action == 1 ? "*" : "") << "\n" << line << '\n'; }
      std::string err;
      lw::fresh([&] {
        MyRc rc; rc.read();
        std::string got;
        ForAllDebugChannels(std::string l = strip(debugChannel.get_label());
          bool named = l == "NOTICE" || l == "SYSTEM" || l == "ELFUTILS", was = action == 1 || l == "NOTICE" || l == "DEBUG" || l == "ELFUTILS";
          bool w = !named ? was : action == 0 ? true : action == 1 ? false : !was;
          got += debugChannel.is_on() ? '1' : '0';
          if (err.empty() && debugChannel.is_on() != w) err = "channel " + l + " is " + (w ? "off" : "on"));
        vx::outcome(line + got);
      });
      ++vx::g.traces; ++vx::g.transitions; ++vx::g.evals; vx::state(vx::hash(line));
      if (!err.empty()) vx::fail("separators", err);
    }
}

int main(int argc, char** argv)
{
  vx::init(argc, argv);
  Debug(main_reached());
  ForAllDebugChannels(labels.push_back(strip(debugChannel.get_label())));
  search();
  lexical();
  setenv("LIBCWD_RCFILE_NAME", "rc", 1);
  auto add = [](char const* t, Line::K k, char const* v = "", std::vector<std::string> m = {}) { A.push_back({t, k, v, m}); return (unsigned)A.size() - 1; };
  std::vector<unsigned> good, bad, small;
  auto G = [&](unsigned k) { good.push_back(k); return k; };
  small.push_back(G(add("channels_default = off", Line::DEFAULT, "off")));
  small.push_back(G(add("channels_default = on", Line::DEFAULT, "on")));
  small.push_back(G(add("channels_on = notice", Line::ON, "", {"notice"})));
  small.push_back(G(add("channels_off = notice", Line::OFF, "", {"notice"})));
  small.push_back(G(add("channels_toggle = n*, ELFUTILS", Line::TOGGLE, "", {"n*", "elfutils"})));
  small.push_back(G(add("channels_off=elfutils,warning", Line::OFF, "", {"elfutils", "warning"})));
  small.push_back(G(add("  channels_on\t=\t S*  ,\vd*\t", Line::ON, "", {"s*", "d*"})));
  G(add("silent = on", Line::SILENT_ON)); G(add("silent=off", Line::SILENT_OFF));
  G(add("# channels_default = off", Line::NONE));
  G(add("", Line::NONE)); G(add(" \t", Line::NONE)); G(add("  #foo", Line::NONE));
  G(add("gdb = /usr/bin/gdb  -x \"$X\"  # y ", Line::GDB, "/usr/bin/gdb  -x \"$X\"  # y"));
  G(add("gdb=", Line::GDB, ""));
  G(add("xterm = xterm -e %s = 3", Line::XTERM, "xterm -e %s = 3"));
  G(add("frobnicate = a b", Line::UNKNOWN, "a b"));
  G(add("channels_on =", Line::ON, "", {}));
  G(add("channels_toggle = *", Line::TOGGLE, "", {"*"}));
  G(add("channels_off = *", Line::OFF, "", {"*"}));
  G(add("channels_on = elfutils nosuch", Line::ON, "", {"elfutils", "nosuch"}));
  bad.push_back(add("channels_on notice", Line::SYNTAX)); bad.push_back(add("= on", Line::SYNTAX)); bad.push_back(add("  =", Line::SYNTAX));
  unsigned badval = add("channels_default = maybe", Line::DEFAULT, "maybe");
  unsigned maxd = vx::g.thorough ? 4 : 3;
  run({}, nullptr, 0); run({}, nullptr, 1);
  for (int init = 0; init < 2; ++init)
  {
    vx::sequences(good.size(), 1, maxd - init, [&](std::vector<unsigned> const& v) { std::vector<unsigned> s; for (unsigned k : v) s.push_back(good[k]); run(s, nullptr, init); });
    // An override file after a base file.
    auto both = [&](unsigned na, unsigned nb, std::vector<unsigned> const& alb) {
      vx::sequences(small.size(), na, na, [&](std::vector<unsigned> const& a) {
        std::vector<unsigned> s; for (unsigned k : a) s.push_back(small[k]);
        vx::sequences(alb.size(), nb, nb, [&](std::vector<unsigned> const& b) { std::vector<unsigned> t; for (unsigned k : b) t.push_back(alb[k]); run(s, &t, init); });
      });
    };
    both(1, 1, good); both(2, 1, good); both(1, 2, good); both(2, 2, small);
    std::vector<unsigned> none; run({good[2]}, &none, init);
    if (vx::g.thorough) { both(3, 2, small); both(2, 3, small); }
    vx::sequences(small.size(), 1, 3, [&](std::vector<unsigned> const& b) { std::vector<unsigned> t; for (unsigned k : b) t.push_back(small[k]); run({}, &t, init); });
  }
  // Files with an error, at every position.
  std::vector<unsigned> pre = {good[0], good[2], good[7], good[9], good[10], good[16]};
  for (unsigned e : {bad[0], bad[1], bad[2], badval})
    for (unsigned n = 0; n < 3; ++n)
    {
      auto f = [&](std::vector<unsigned> const& v) {
        std::vector<unsigned> s; for (unsigned k : v) s.push_back(pre[k]);
        s.push_back(e); s.push_back(good[13]);
        run(s, nullptr, 0);
        if (v.size() < 2) { std::vector<unsigned> b = {good[0]}; run(b, &s, 0); run({}, &s, 0); }
      };
      if (n == 0) f({}); else vx::sequences(pre.size(), n, n, f);
    }
  vx::done();
}
