// C24: all schedules of threads that look up locations and (un)load libraries.
#include "mc.h"
#include "cwd_sys.h"
#include <libcwd/debug.h>
#include <fstream>
#include <iostream>
#include <link.h>
#include <sys/stat.h>
#include <thread>
using namespace libcwd;

extern "C" { extern int mc_dw_opened[64], mc_dw_closed[64]; int mc_dw_file(ino_t); }

static void log(std::string const& s) { mc_log(s.data(), s.size()); }
// a, x: loaded by main; x is closed by a thread; b: opened by threads; e: opens a in its constructor; n: loaded by main, has no debug information.
struct Lib { std::string name, path; uintptr_t fn, inl, data; int line, inl_line; ino_t ino; };
static std::vector<Lib> libs;
static Lib& lib(char c) { for (auto& l : libs) if (l.name[0] == c) return l; fprintf(stderr, "no library %c\n", c); _exit(2); }
__attribute__((no_sanitize("thread"))) static uintptr_t base_of(std::string const& path)
{
  struct A { char const* path; uintptr_t base; } a{path.c_str(), 0};
  mc_setup(1);
  dl_iterate_phdr([](dl_phdr_info* i, size_t, void* p) {
    A* a = (A*)p;
    if (i->dlpi_name && !strcmp(strrchr(i->dlpi_name, '/') ?: "", strrchr(a->path, '/'))) { a->base = i->dlpi_addr; return 1; }
    return 0;
  }, &a);
  return a.base;
}
static uintptr_t base[128];     // Of the libraries that main opened.
static void* handle_x;

// L: location in a function; I: in an inlined function; F: pc_mangled_function_name; D: address of data; O: open, C: close.  Followed by the name of the library.
typedef std::vector<std::string> Prog;
static std::string str(std::vector<Prog> const& v)
{
  std::string r;
  for (auto& p : v)
  {
    if (!r.empty()) r += " | ";
    for (size_t i = 0; i < p.size(); ++i)
    {
      char k = p[i][0];
      r += std::string(i ? "; " : "") + (k == 'L' ? "location in " : k == 'I' ? "location in an inlined function of " : k == 'F' ? "function name in " : k == 'D' ? "location of data of " : k == 'O' ? "dlopen " : "dlclose ") + p[i][1];
    }
  }
  return r;
}
static std::string describe(uintptr_t at)
{
  Location loc((void*)at);
  std::string r = loc.mangled_function_name();
  if (loc.is_known()) r += " " + loc.file() + ":" + std::to_string(loc.line());
  r += std::string(" ") + (loc.object_file() ? loc.object_file()->filename() : "no object");
  return r;
}
static std::string expect_at(Lib const& l, char kind, bool loaded)
{
  if (!loaded) return std::string(unknown_function_c) + " no object";
  std::string so = " libvx" + l.name + ".so";
  if (kind == 'D') return unknown_function_c + so;
  if (l.name == "n") return "fn_n" + so;
  if (kind == 'I') return "inl_" + l.name + " fix_" + l.name + ".cxx:" + std::to_string(l.inl_line) + so;
  return "fn_" + l.name + " fix_" + l.name + ".cxx:" + std::to_string(l.line) + so;
}
static void run(Prog const& p, int id)
{
  void* h[128] = {};
  uintptr_t b[128] = {};
  auto say = [&](std::string const& s) { log(std::to_string(id) + s + '\x1e'); };
  for (auto& op : p)
  {
    unsigned char c = op[1];
    Lib& l = lib(c);
    uintptr_t at = b[c] ? b[c] : base[c];
    switch (op[0])
    {
      case 'L': say(describe(at + l.fn)); break;
      case 'I': say(describe(at + l.inl)); break;
      case 'D': say(describe(at + l.data)); break;
      case 'F': say(pc_mangled_function_name((void*)(at + l.fn))); break;
      case 'O':
        h[c] = dlopen(l.path.c_str(), RTLD_NOW);
        if (h[c]) b[c] = base_of(l.path);
        say(h[c] ? "opened" : "not opened");
        break;
      case 'C':
        if (c == 'x') say(dlclose(handle_x) ? "failed" : "closed");
        else { say(dlclose(h[c]) ? "failed" : "closed"); h[c] = nullptr; b[c] = 0; }
        break;
    }
  }
}
static std::vector<std::string> expect(Prog const& p)
{
  std::vector<std::string> r;
  for (auto& op : p)
  {
    Lib& l = lib(op[1]);
    switch (op[0])
    {
      case 'F': r.push_back("fn_" + l.name); break;
      case 'O': r.push_back("opened"); break;
      case 'C': r.push_back("closed"); break;
      default: r.push_back(expect_at(l, op[0], true));
    }
  }
  return r;
}
static void check(std::vector<Prog> const& progs, int bound)
{
  if (!vx::take()) return;
  vx::describe(str(progs) + " (up to " + std::to_string(bound) + " preemptions)");
  vx::sample(vx::g.desc);
  bool uses_x = false, uses_n = false;
  for (auto& p : progs) for (auto& op : p) { if (op[1] == 'x') uses_x = true; if (op[1] == 'n') uses_n = true; }
  std::map<std::string, std::string> seen;
  mc::report_races(true);
  mc::explore([&] {
    auto open = [&](char c) {
      void* h = dlopen(lib(c).path.c_str(), RTLD_NOW);
      if (!h) { log(std::string("!") + dlerror()); _exit(2); }
      base[(unsigned char)c] = base_of(lib(c).path);
      return h;
    };
    open('a');
    if (uses_n) open('n');
    if (uses_x) handle_x = open('x');
    std::vector<std::thread> th;
    for (size_t i = 0; i < progs.size(); ++i) th.emplace_back([&, i] { run(progs[i], i + 1); });
    for (auto& t : th) t.join();
    // Afterwards what is known is what is loaded.
    for (auto& l : libs)
    {
      if (l.name == "w") continue;
      uintptr_t b = base_of(l.path);
      std::string s = "0" + l.name + (b ? "+" : "-");
      uintptr_t at = b ? b : base[(unsigned char)l.name[0]];
      Dl_info i;
      // When another library came in its place there is nothing to say about it.
      if (at && (b || !dladdr((void*)(at + l.fn), &i))) s += describe(at + l.fn);
      else if (at) s += expect_at(l, 'L', false);
      int f = mc_dw_file(l.ino);
      if (f >= 0) s += " " + std::to_string(mc_dw_opened[f] - mc_dw_closed[f]);
      log(s + "\x1e");
    }
    log("!\x1e");
  }, [&](mc::Result const& r) -> std::string {
    if (!r.finished()) return "the program " + r.str();
    auto f = seen.find(r.log);
    if (f != seen.end()) return f->second;
    std::string e;
    std::vector<std::vector<std::string>> got(progs.size() + 1);
    bool end = false;
    for (size_t p = 0, q; p < r.log.size(); p = q + 1)
    {
      q = r.log.find('\x1e', p);
      std::string x = r.log.substr(p, q - p);
      if (x == "!") { end = true; continue; }
      unsigned t = x[0] - '0';
      if (t > progs.size()) { e = "unexpected output: " + x; break; }
      got[t].push_back(x.substr(1));
    }
    if (!end) e = "the program did not get to its end";
    for (size_t i = 0; e.empty() && i <= progs.size(); ++i)
    {
      std::vector<std::string> want;
      if (i) want = expect(progs[i - 1]);
      else
        for (auto& l : libs)
        {
          if (l.name == "w") continue;
          // Opened more often than closed?
          int n = l.name == "a" || (l.name == "n" && uses_n) || (l.name == "x" && uses_x);
          bool ever = n;
          for (auto& p : progs) for (auto& op : p) if (op[1] == l.name[0]) n += (op[0] == 'O') - (op[0] == 'C');
          std::string w = l.name + (n > 0 ? "+" : "-");
          if (n > 0 || ever) w += expect_at(l, 'L', n > 0);
          // Its symbols are loaded once, and released when it is gone.
          if (n > 0 && l.name != "n") w += " 1";
          want.push_back(w);
        }
      for (size_t k = 0; k < std::max(want.size(), got[i].size()) && e.empty(); ++k)
      {
        std::string w = k < want.size() ? want[k] : "nothing", g = k < got[i].size() ? got[i][k] : "nothing";
        if (i == 0 && w[1] == '-' && g.size() == w.size() + 2 && g.substr(w.size()) == " 0") g.resize(w.size());
        if (w != g) e = "thread " + std::to_string(i) + ": " + w + " is expected instead of " + g;
      }
    }
    return seen[r.log] = e;
  }, bound, "lookup", 1);
}

int main(int argc, char** argv)
{
  vx::init(argc, argv);
  Debug(main_reached());
  char self[PATH_MAX];
  ssize_t n = readlink("/proc/self/exe", self, sizeof self - 1);
  self[n] = 0;
  std::string dir = std::string(self, strrchr(self, '/') - self) + "/fixtures";
  std::ifstream f(dir + "/index");
  Lib l;
  while (f >> l.name >> std::hex >> l.fn >> l.inl >> l.data >> std::dec >> l.line >> l.inl_line)
  {
    l.path = dir + "/libvx" + l.name + ".so";
    struct stat st;
    if (stat(l.path.c_str(), &st)) { perror(l.path.c_str()); return 2; }
    l.ino = st.st_ino;
    libs.push_back(l);
  }
  if (libs.size() != 6) { fprintf(stderr, "no fixtures\n"); return 2; }
  Debug(initialize());
  bool th = vx::g.thorough;
  int b = th ? 3 : 2;
  // libdwfl opens libdebuginfod, with all the libraries that that depends on, the first time that there is no debug information.
  check({{"Ln"}, {"La"}}, 1);
  check({{"Ln"}, {"Fn"}}, 1);
  if (th) check({{"Ln"}, {"Ob", "Lb", "Cb"}}, 1);
  if (!dlopen(lib('w').path.c_str(), RTLD_NOW)) { fprintf(stderr, "%s\n", dlerror()); return 2; }
  { Location w((void*)(base_of(lib('w').path) + lib('w').fn)); }
  libs.pop_back();
  std::vector<Prog> one{{"La"}, {"Fa"}, {"Ia"}, {"Da"}, {"Ln"}, {"Fn"}, {"Ob"}, {"Ob", "Lb", "Cb"}, {"Cx"}, {"Oe", "Ce"}, {"La", "Ln"}, {"Ob", "Cb", "Ob", "Lb"}};
  for (size_t i = 0; i < one.size(); ++i) for (size_t j = i; j < one.size(); ++j)
  {
    if (one[i][0] == "Cx" && one[j][0] == "Cx") continue;
    // The longest programs have the most schedules.
    check({one[i], one[j]}, !th && one[i].size() + one[j].size() > 5 ? 1 : b);
  }
  std::vector<Prog> small{{"La"}, {"Ia"}, {"Ln"}, {"Ob", "Lb", "Cb"}, {"Cx"}};
  for (size_t i = 0; i < small.size(); ++i) for (size_t j = i; j < small.size(); ++j) for (size_t k = j; k < small.size(); ++k)
  {
    if (j == 4) continue;
    size_t len = small[i].size() + small[j].size() + small[k].size();
    bool n = i == 2 || j == 2 || k == 2;
    if (!th && len + n > 5) continue;
    check({small[i], small[j], small[k]}, th ? 2 : 1);
  }
  vx::done();
}
