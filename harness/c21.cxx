// C21: all histories of dlopen and dlclose.
#include "lw.h"
#include <dlfcn.h>
#include <fstream>
#include <link.h>
using namespace libcwd;

struct Lib { std::string name, path; uintptr_t fn, data; int line; };
static std::vector<Lib> libs;   // a: plain; b: needs a; c: linked with -z nodelete; d: has a unique symbol; e: opens a in a constructor and closes it in a destructor; l: linked with the program; m: needs l and b; x: a copy of a with other contents.
static std::string dir;

struct Mapped { std::string path; uintptr_t base; std::vector<std::pair<uintptr_t, uintptr_t>> segs; };
static std::vector<Mapped> mapped()
{
  std::vector<Mapped> r;
  dl_iterate_phdr([](dl_phdr_info* i, size_t, void* p) {
    Mapped m{i->dlpi_name ? i->dlpi_name : "", i->dlpi_addr, {}};
    for (int k = 0; k < i->dlpi_phnum; ++k)
      if (i->dlpi_phdr[k].p_type == PT_LOAD && i->dlpi_phdr[k].p_memsz) m.segs.push_back({i->dlpi_addr + i->dlpi_phdr[k].p_vaddr, i->dlpi_addr + i->dlpi_phdr[k].p_vaddr + i->dlpi_phdr[k].p_memsz});
    static_cast<std::vector<Mapped>*>(p)->push_back(m);
    return 0;
  }, &r);
  return r;
}
static bool same(std::string const& a, std::string const& b)
{
  if (a == b) return true;
  char ra[PATH_MAX], rb[PATH_MAX];
  return realpath(a.c_str(), ra) && realpath(b.c_str(), rb) && !strcmp(ra, rb);
}

enum Kind { LOCAL, LAZY_GLOBAL, NODELETE, LAZY_NODELETE, LAZY, GLOBAL, NOW_GLOBAL_NODELETE, LAZY_GLOBAL_NODELETE, NOLOAD, NOLOAD_NODELETE, LAZY_NOLOAD_GLOBAL, CLOSE, CLOSE_LAST, BADFILE, SELF, NKIND };
static char const* const kname[] = {"dlopen(RTLD_NOW)", "dlopen(RTLD_LAZY|RTLD_GLOBAL)", "dlopen(RTLD_NOW|RTLD_NODELETE)", "dlopen(RTLD_LAZY|RTLD_NODELETE)", "dlopen(RTLD_LAZY)", "dlopen(RTLD_NOW|RTLD_GLOBAL)", "dlopen(RTLD_NOW|RTLD_GLOBAL|RTLD_NODELETE)", "dlopen(RTLD_LAZY|RTLD_GLOBAL|RTLD_NODELETE)", "dlopen(RTLD_NOW|RTLD_NOLOAD)", "dlopen(RTLD_NOW|RTLD_NOLOAD|RTLD_NODELETE)", "dlopen(RTLD_LAZY|RTLD_NOLOAD|RTLD_GLOBAL)", "dlclose of the first handle", "dlclose of the last handle", "dlopen of a file that does not exist", "dlopen(NULL)"};
struct Step { int lib; int kind; };
static std::string str(std::vector<Step> const& h)
{
  std::string r;
  for (auto& s : h) { if (!r.empty()) r += "; "; r += kname[s.kind]; if (s.kind < BADFILE) r += " " + libs[s.lib].name; }
  return r;
}

static void die(std::string const& s) { std::cout << "FAIL " << s; std::cout.flush(); _exit(1); }
static std::vector<uintptr_t> ever[8];  // Where each library was, ever.

static void look(std::string const& when)
{
  auto ms = mapped();
  auto owner = [&](uintptr_t a) -> Mapped const* { for (auto& m : ms) for (auto& s : m.segs) if (a >= s.first && a < s.second) return &m; return nullptr; };
  for (size_t i = 0; i < libs.size(); ++i)
  {
    Lib& l = libs[i];
    for (auto& m : ms) if (same(m.path, l.path)) { if (ever[i].empty() || ever[i].back() != m.base) ever[i].push_back(m.base); }
    for (uintptr_t b : ever[i])
      for (int data = 0; data < 2; ++data)
      {
        uintptr_t a = b + (data ? l.data : l.fn + 1);
        Mapped const* o = owner(a);
        errno = EDOM;
        Location loc((void*)a);
        char const* f = pc_mangled_function_name((void*)a);
        if (errno != EDOM) die(when + ": a lookup changes errno to " + std::to_string(errno));
        char at[60];
        snprintf(at, sizeof at, "address 0x%lx of %s, loaded at 0x%lx", (unsigned long)(a - b), l.name.c_str(), (unsigned long)b);
        std::string got = std::string("it gives function ") + loc.mangled_function_name() + (loc.object_file() ? std::string(", object ") + loc.object_file()->filepath() : ", no object") + ", pc_mangled_function_name " + f;
        if (!o)
        {
          if (loc.object_file() || loc.is_known()) die(when + ": " + at + " is no longer mapped but " + got);
          if (strcmp(f, unknown_function_c)) die(when + ": " + at + " is no longer mapped but " + got);
          continue;
        }
        if (!loc.object_file()) die(when + ": " + at + " is mapped but " + got);
        if (!same(o->path, loc.object_file()->filepath())) die(when + ": " + at + " belongs to " + o->path + " but " + got);
        // Which library is it now?
        for (auto& k : libs)
          if (same(o->path, k.path))
          {
            uintptr_t off = a - o->base;
            if (off == k.fn + 1)
            {
              if (!loc.is_known() || (int)loc.line() != k.line || loc.mangled_function_name() != "fn_" + k.name || f != "fn_" + k.name) die(when + ": " + at + " is in fn_" + k.name + " at line " + std::to_string(k.line) + " but " + got + ", line " + (loc.is_known() ? std::to_string(loc.line()) : "unknown"));
            }
            if (off == k.data && loc.is_known()) die(when + ": " + at + " is data but " + got);
          }
      }
  }
}
__attribute__((noinline)) static void* here() { return __builtin_return_address(0); }

static void child(std::vector<Step> const& h, bool look_always)
{
  std::vector<void*> handles[8];
  if (look_always) look("at the start");
  int n = 0;
  for (auto& s : h)
  {
    ++n;
    std::string when = "after " + std::to_string(n) + " operations";
    auto is_mapped = [&](int i) { for (auto& m : mapped()) if (same(m.path, libs[i].path)) return true; return false; };
    if (s.kind == BADFILE)
    {
      dlerror();
      if (dlopen((dir + "/libnone.so").c_str(), RTLD_NOW)) die(when + ": dlopen of a file that does not exist returned a handle");
      char const* e = dlerror();
      if (!e || !strstr(e, "libnone.so")) die(when + ": dlerror() is " + (e ? e : "NULL"));
    }
    else if (s.kind == SELF)
    {
      void* p = dlopen(nullptr, RTLD_NOW);
      if (!p || dlsym(p, "strlen") == nullptr) die(when + ": dlopen(NULL) failed");
      if (dlclose(p)) die(when + ": dlclose of the handle of the program failed");
    }
    else if (s.kind == CLOSE || s.kind == CLOSE_LAST)
    {
      auto& v = handles[s.lib];
      void* p = s.kind == CLOSE ? v.front() : v.back();
      v.erase(s.kind == CLOSE ? v.begin() : v.end() - 1);
      int r = dlclose(p);
      if (r) die(when + ": dlclose returned " + std::to_string(r));
    }
    else
    {
      static int const flags[] = {RTLD_NOW, RTLD_LAZY | RTLD_GLOBAL, RTLD_NOW | RTLD_NODELETE, RTLD_LAZY | RTLD_NODELETE, RTLD_LAZY, RTLD_NOW | RTLD_GLOBAL, RTLD_NOW | RTLD_GLOBAL | RTLD_NODELETE, RTLD_LAZY | RTLD_GLOBAL | RTLD_NODELETE,
        RTLD_NOW | RTLD_NOLOAD, RTLD_NOW | RTLD_NOLOAD | RTLD_NODELETE, RTLD_LAZY | RTLD_NOLOAD | RTLD_GLOBAL};
      bool before = is_mapped(s.lib);
      void* p = dlopen(libs[s.lib].path.c_str(), flags[s.kind]);
      bool expect = s.kind < NOLOAD || before;
      if (expect != (p != nullptr)) die(when + ": dlopen returned " + (p ? "a handle" : std::string("NULL: ") + dlerror()));
      if (p)
      {
        struct link_map* lm;
        if (dlinfo(p, RTLD_DI_LINKMAP, &lm) || !same(lm->l_name, libs[s.lib].path)) die(when + ": dlopen returned the handle of another library");
        if (!handles[s.lib].empty() && handles[s.lib].back() != p) die(when + ": dlopen returned another handle than before");
        handles[s.lib].push_back(p);
      }
    }
    if (look_always) look(when);
  }
  look("at the end");
  void* pc = here();
  errno = EDOM;
  Location me(pc);
  if (errno != EDOM) die("a lookup in the program changes errno to " + std::to_string(errno));
  if (!me.is_known() || me.file() != "c21.cxx") die("a location in the program is not found any more");
  // Close everything.
  for (auto& v : handles) for (void* p : v) if (dlclose(p)) die("dlclose at the end failed");
  look("after everything was closed");
}
// False for histories that close a handle that is not open.
static bool legal(std::vector<Step> const& h)
{
  // Whether a NOLOAD succeeds depends on the history: follow the references of each library.
  int open[8] = {};
  bool nodelete[8] = {};
  auto loaded = [&](int i) {
    // a=0 b=1 c=2 d=3 e=4 l=5 m=6 x=7
    auto direct = [&](int k) { return open[k] > 0 || nodelete[k] || k == 5; };
    bool b = direct(1) || direct(6);
    switch (i)
    {
      case 0: return direct(0) || b || direct(4);
      case 1: return b;
      default: return direct(i);
    }
  };
  for (auto& s : h)
  {
    if (s.kind >= BADFILE) continue;
    if (s.kind == CLOSE || s.kind == CLOSE_LAST) { if (open[s.lib] == 0) return false; --open[s.lib]; continue; }
    if (s.kind >= NOLOAD && !loaded(s.lib)) continue;
    ++open[s.lib];
    if (s.kind == NODELETE || s.kind == LAZY_NODELETE || s.kind == LAZY_GLOBAL_NODELETE || s.kind == NOW_GLOBAL_NODELETE || s.kind == NOLOAD_NODELETE || s.lib == 2 || s.lib == 3) nodelete[s.lib] = true;
  }
  return true;
}

static void check(std::vector<Step> const& h)
{
  if (!legal(h)) return;
  for (int always = 0; always < 2; ++always)
  {
    if (!vx::take()) continue;
    vx::describe(str(h) + (always ? " (with lookups after each)" : " (with lookups at the end)"));
    vx::state(vx::hash(vx::g.desc));
    vx::g.transitions += h.size();
    if (h.size() > 2) vx::sample(vx::g.desc);
    auto c = lw::forked([&] { child(h, always); }, 60);
    if (!c.exited(77))
      vx::fail("dlopen", (c.out.compare(0, 5, "FAIL ") ? c.how() + " " + c.out.substr(0, 500) : c.out.substr(5)) + "\n" + c.err.substr(0, 1500));
    vx::outcome(c.out);
  }
}

int main(int argc, char** argv)
{
  vx::init(argc, argv);
  Debug(main_reached());
  char self[PATH_MAX];
  ssize_t n = readlink("/proc/self/exe", self, sizeof self - 1);
  self[n] = 0;
  dir = std::string(self, strrchr(self, '/') - self) + "/fixtures";
  std::ifstream f(dir + "/index");
  Lib l;
  while (f >> l.name >> std::hex >> l.fn >> l.data >> std::dec >> l.line) { l.path = dir + "/libvx" + l.name + ".so"; libs.push_back(l); }
  if (libs.size() != 8) { fprintf(stderr, "no fixtures\n"); return 2; }
  { void* pc = here(); Location me(pc); }       // Load the symbols of the program once.
  bool th = vx::g.thorough;
  auto explore = [&](std::vector<Step> const& al, unsigned from, unsigned to) {
    vx::sequences(al.size(), from, to, [&](std::vector<unsigned> const& s) {
      std::vector<Step> h;
      for (unsigned i : s) h.push_back(al[i]);
      check(h);
    });
  };
  auto alphabet = [&](std::string const& names, std::vector<int> const& kinds) {
    std::vector<Step> al;
    for (char c : names)
      for (size_t i = 0; i < libs.size(); ++i)
        if (libs[i].name[0] == c) for (int k : kinds) al.push_back({(int)i, k});
    return al;
  };
  auto all = alphabet("abcdelmx", {LOCAL, LAZY_GLOBAL, NODELETE, NOLOAD, NOLOAD_NODELETE, CLOSE});
  all.push_back({0, BADFILE}); all.push_back({0, SELF});
  explore(all, 1, 2);
  explore(alphabet("abcdelmx", {LAZY_NODELETE, LAZY, GLOBAL, NOW_GLOBAL_NODELETE, LAZY_GLOBAL_NODELETE, LAZY_NOLOAD_GLOBAL}), 1, 1);
  explore(alphabet("ab", {LAZY_NODELETE, LAZY, GLOBAL, NOW_GLOBAL_NODELETE, LAZY_GLOBAL_NODELETE, LAZY_NOLOAD_GLOBAL, CLOSE}), 2, th ? 4 : 3);
  explore(alphabet("abcdelmx", {LOCAL, NOLOAD, CLOSE}), 3, 3);
  explore(alphabet("a", {LOCAL, LAZY_GLOBAL, NODELETE, NOLOAD, NOLOAD_NODELETE, CLOSE, CLOSE_LAST}), 3, th ? 5 : 4);
  explore(alphabet("abe", {LOCAL, CLOSE}), 4, th ? 7 : 5);
  explore(alphabet("alm", {LOCAL, CLOSE}), 4, th ? 6 : 4);
  explore(alphabet("ax", {LOCAL, CLOSE}), 4, th ? 8 : 6);
  if (th)
  {
    explore(all, 3, 3);
    explore(alphabet("abcdelmx", {LOCAL, CLOSE}), 4, 4);
  }
  vx::done();
}
