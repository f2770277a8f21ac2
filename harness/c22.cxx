// C22: every address of the fixture libraries, compared with what llvm-symbolizer and the symbol table say.
#include "lw.h"
#include <dlfcn.h>
#include <fstream>
#include <link.h>
#include <memory>
using namespace libcwd;

struct Row { uint64_t s, e; char kind; std::string fn, path; unsigned line; std::set<std::string> phys; };
static std::set<std::string> split(std::string const& s)
{
  std::set<std::string> r;
  std::istringstream i(s);
  for (std::string w; std::getline(i, w, ',');) r.insert(w);
  return r;
}
static std::string norm(std::string n)
{
  n = n.substr(0, n.find('.'));
  for (size_t i = 0; i + 2 < n.size(); ++i)
    if ((n[i] == 'C' || n[i] == 'D') && isdigit(n[i + 1]) && (n[i + 2] == 'E' || n[i + 2] == 'I')) n[i + 1] = 'x';
  return n;
}
static std::string clean(std::string const& p)  // Without "." and empty components.
{
  std::string r;
  std::istringstream i(p);
  for (std::string w; std::getline(i, w, '/');) if (!w.empty() && w != ".") r += "/" + w;
  return r;
}
struct Lib { std::string name, so; std::vector<Row> rows; };
struct Failure { std::string what; };
struct Result { uint64_t states = 0, evals = 0; std::string err; };

static void must(bool ok, std::string const& s) { if (!ok) throw Failure{s}; }

static std::string show(Location const& l)
{
  std::ostringstream o;
  o << "function " << l.mangled_function_name();
  if (l.is_known()) { std::ostringstream p; l.print_filepath_on(p); o << " at " << p.str() << ":" << l.line() << " (" << l.file() << ")"; }
  if (l.object_file()) o << " in " << l.object_file()->filepath();
  return o.str();
}
// One address; with_dwarf: main was reached.
static void look(Lib const& lib, Row const& r, char* base, uint64_t off, bool with_dwarf, Result& res)
{
  char const* pc = base + off;
  Location l(pc);
  std::string pf = pc_mangled_function_name(pc);
  ++res.evals;
  std::string fn = l.mangled_function_name();
  std::ostringstream at;
  at << "address " << std::hex << off << std::dec << " of " << lib.name << (with_dwarf ? "" : " (before main)") << ": " << show(l) << ", pc_mangled_function_name " << pf << "; expected ";
  auto bad = [&](std::string const& e) { must(false, at.str() + e); };
  if (!l.object_file()) bad("object file " + lib.so);
  if (std::string(l.object_file()->filepath()) != lib.so || std::string(l.object_file()->filename()) != "libfix.so") bad("object file " + lib.so);
  char kind = r.kind;
  if (kind == 'D' && !with_dwarf)
  {
    // Only the symbol table is used before main.
    if (l.is_known()) bad("a location that is not known");
    // The last component of phys holds the DWARF name too; a local function might not be in the symbol table.
    if (fn != unknown_function_c && !r.phys.count(norm(fn))) bad("function " + r.fn);
    return;
  }
  if (kind == 'N')
  {
    if (l.is_known() || fn != unknown_function_c || pf != fn) bad(std::string("function ") + unknown_function_c);
    return;
  }
  if (kind == 'E')
  {
    if (l.is_known()) bad("a location that is not known");
    if (!split(r.fn).count(norm(fn)) || pf != fn) bad("function " + r.fn);
    return;
  }
  if (!split(r.fn).count(norm(fn))) bad("function " + r.fn);
  if (!r.phys.count(norm(pf))) bad("physical function " + *r.phys.begin());
  if (r.line == 0) return;      // No line is recorded.
  if (!l.is_known() || l.line() != r.line) bad("line " + std::to_string(r.line));
  std::ostringstream p, n;
  l.print_filepath_on(p);
  l.print_filename_on(n);
  // The path may be relative to the directory of the compilation.
  std::string got = clean(p.str()), want = clean(r.path);
  if (got != want && (p.str()[0] == '/' || want.size() < got.size() || want.substr(want.size() - got.size()) != got)) bad("path " + r.path);
  if (r.path.substr(r.path.rfind('/') + 1) != n.str() || l.file() != n.str()) bad("file name of " + r.path);
}
static void all(Lib const& lib, char* base, bool with_dwarf, bool down, Result& res)
{
  size_t n = lib.rows.size();
  for (size_t i = 0; i < n; ++i)
  {
    Row const& r = lib.rows[down ? n - 1 - i : i];
    for (uint64_t k = r.s; k < r.e; ++k) look(lib, r, base, down ? r.e - 1 - (k - r.s) : k, with_dwarf, res);
  }
}
static void* open(Lib const& lib, char*& base)
{
  void* h = dlopen(lib.so.c_str(), RTLD_NOW | RTLD_LOCAL);
  must(h, std::string("dlopen: ") + (h ? "" : dlerror()));
  struct link_map* m;
  must(dlinfo(h, RTLD_DI_LINKMAP, &m) == 0, "dlinfo");
  base = (char*)m->l_addr;
  return h;
}
static char const* modes[] = {
  "upwards", "downwards",
  "all addresses before main is reached (symbol table only), then all addresses again",
  "one address before main is reached, then all addresses",
  "unknown addresses first; then all; unload, load elsewhere, all again",
  "another library first and in between",
};
static void run(Lib const& lib, Lib const& other, int mode, Result& res)
{
  char *base, *obase;
  if (mode == 2 || mode == 3)
  {
    void* h = open(lib, base);
    if (mode == 2) all(lib, base, false, false, res);
    else { Row const& r = lib.rows[lib.rows.size() / 2]; look(lib, r, base, r.s, false, res); }
    Debug(main_reached());
    all(lib, base, true, mode == 3, res);
    dlclose(h);
    return;
  }
  Debug(main_reached());
  if (mode == 5)
  {
    void* oh = open(other, obase);
    Result dummy;
    Row const& r = other.rows[0];
    look(other, r, obase, r.s, true, dummy);
    void* h = open(lib, base);
    size_t i = 0;
    for (Row const& r : lib.rows)
    {
      look(lib, r, base, r.s, true, res);
      Row const& q = other.rows[i++ % other.rows.size()];
      look(other, q, obase, q.e - 1, true, res);
    }
    dlclose(oh);
    all(lib, base, true, true, res);
    dlclose(h);
    return;
  }
  void* h = open(lib, base);
  if (mode == 4)
    for (Row const& r : lib.rows) if (r.kind != 'D') look(lib, r, base, r.s, true, res);
  all(lib, base, true, mode == 1, res);
  if (mode == 4)
  {
    dlclose(h);
    char* old = base;
    must(!Location(old + lib.rows[0].s).object_file(), "an address of an unloaded library has an object file");
    void* oh = open(other, obase);
    h = open(lib, base);
    all(lib, base, true, true, res);
    all(other, obase, true, false, res);
  }
}

int main(int argc, char** argv)
{
  vx::init(argc, argv);
  std::vector<Lib> libs;
  char exe[4096] = {};
  if (readlink("/proc/self/exe", exe, sizeof exe - 1) < 0) return 2;
  std::ifstream f(std::string(exe, strrchr(exe, '/')) + "/fixtures");
  for (std::string l; std::getline(f, l);)
  {
    Lib lib;
    lib.name = l.substr(0, l.find('\t'));
    lib.so = l.substr(l.find('\t') + 1);
    std::ifstream o(lib.so.substr(0, lib.so.rfind('/')) + "/oracle");
    for (std::string q; std::getline(o, q);)
    {
      std::istringstream i(q);
      std::string w[7];
      for (auto& x : w) std::getline(i, x, '\t');
      lib.rows.push_back({std::stoull(w[0]), std::stoull(w[1]), w[2][0], w[3], w[4], (unsigned)std::stoul(w[5]), split(w[6])});
    }
    libs.push_back(lib);
  }
  if (libs.empty()) return 2;
  uint64_t* shared = (uint64_t*)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  uint64_t addrs = 0;
  for (size_t i = 0; i < libs.size(); ++i)
    for (int mode = 0; mode < 6; ++mode)
    {
      if (!vx::take()) continue;
      vx::describe(libs[i].name + " (" + libs[i].so + "): " + modes[mode]);
      shared[0] = shared[1] = 0;
      auto c = lw::forked([&] {
        Result res;
        try { run(libs[i], libs[(i + 7) % libs.size()], mode, res); }
        catch (Failure const& e) { std::cout << e.what << std::endl; _exit(1); }
        shared[0] = res.evals;
      }, 300);
      if (!c.exited(77)) vx::fail("lookup", c.exited(1) ? c.out : "the lookup ended with " + c.how() + "\n" + c.err.substr(0, 3000));
      vx::g.evals += shared[0];
      vx::g.transitions += shared[0];
      for (auto& r : libs[i].rows)
      {
        if (mode == 0) vx::g.extra_states += r.e - r.s;
        vx::outcome(std::string(1, r.kind) + r.fn + r.path + std::to_string(r.line));
      }
      vx::sample(vx::g.desc);
    }
  vx::done();
}
