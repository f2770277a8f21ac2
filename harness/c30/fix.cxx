// C30: a program that uses the library in the constructor of a global, and from main.
// Everything it reports is written to file descriptor 2, on lines that start with @@.
#include "cwd_sys.h"
#include <libcwd/debug.h>
#include <libcwd/pc_mangled_function_name.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <link.h>
#include <string>
#include <sys/resource.h>
#include <unistd.h>
using namespace libcwd;

static void say(std::string s) { s = "@@" + s + "\n"; (void)!write(2, s.data(), s.size()); }
static int add(dl_phdr_info* i, size_t, void* d)
{
  bool load = false;
  for (int n = 0; n < i->dlpi_phnum; ++n) if (i->dlpi_phdr[n].p_type == PT_LOAD && i->dlpi_phdr[n].p_memsz) load = true;
  if (!load) return 0;
  char b[5000], exe[4097];
  ssize_t n = readlink("/proc/self/exe", exe, 4096);
  exe[n < 0 ? 0 : n] = 0;
  snprintf(b, sizeof b, "\"%s\" with load base 0x%lx|", *i->dlpi_name ? i->dlpi_name : exe, (unsigned long)i->dlpi_addr);
  *static_cast<std::string*>(d) += b;
  return 0;
}
static void report(char const* what, bool state = true)
{
  std::string o;
  dl_iterate_phdr(add, &o);
  rlimit l = {};
  getrlimit(RLIMIT_CORE, &l);
  std::string s = std::string(what) + " ";
  if (state) { s += libcw_do.is_on(LIBCWD_TSD_INSTANCE) ? '1' : '0'; s += channels::dc::elfutils.is_on() ? '1' : '0'; s += channels::dc::warning.is_on() ? '1' : '0'; s += l.rlim_cur == l.rlim_max ? '1' : '0'; }
  say(s + " " + o);
}
static std::string dir() { char b[4097]; ssize_t n = readlink("/proc/self/exe", b, 4096); std::string s(b, n < 0 ? 0 : n); return s.substr(0, s.rfind('/')); }
static void* hA[20], *hB[20];
static int nA, nB;

struct Early
{
  Early()
  {
    char const* c = getenv("VX_CTOR");
    if (!c || *c == '-') return;
    switch (*c)
    {
      case 'I': initialize(); break;
      case 'D': LibcwDout(libcwd::channels, libcw_do, dc::notice, "NOT WRITTEN"); break;
      case 'W': LibcwDout(libcwd::channels, libcw_do, dc::warning, "NOT WRITTEN"); break;
      case 'L': (void)pc_mangled_function_name((void*)&report); break;
      case 'O': initialize(); libcw_do.on(); channels::dc::elfutils.on(); break;
      case 'F': initialize(); libcw_do.off(); channels::dc::elfutils.off(); channels::dc::warning.off(); break;
      case 'B': hB[nB++] = dlopen((dir() + "/libvxsb.so").c_str(), RTLD_NOW); break;
    }
    report("ctor");
  }
};
static Early early;

int main(int argc, char** argv)
{
  report("main");
  Debug(main_reached());
  report("reached");
  auto toggle = [](auto& x, bool on) { if (on) x.off(); else x.on(); };
  for (char const* p = argv[1]; *p; ++p)
  {
    std::string res;
    void* h = nullptr;
    switch (*p)
    {
      case 'a': h = hA[nA++] = dlopen((dir() + "/libvxsa.so").c_str(), RTLD_NOW); if (!h) res = "!"; break;
      case 'A': if (dlclose(hA[--nA])) res = "!"; break;
      case 'b': h = hB[nB++] = dlopen((dir() + "/libvxsb.so").c_str(), RTLD_LAZY|RTLD_GLOBAL); if (!h) res = "!"; break;
      case 'B': if (dlclose(hB[--nB])) res = "!"; break;
      case 'o': toggle(libcw_do, libcw_do.is_on(LIBCWD_TSD_INSTANCE)); break;
      case 'e': toggle(channels::dc::elfutils, channels::dc::elfutils.is_on()); break;
      case 'n': if (dlopen((dir() + "/no_such_file.so").c_str(), RTLD_NOW)) res = "!"; break;
      case 'N': if (!dlopen(nullptr, RTLD_NOW)) res = "!"; break;
      case 'l': (void)pc_mangled_function_name((void*)&report); break;
    }
    report((std::string("op") + *p + res).c_str());
  }
  say("end");
  _exit(77);
}
