// A program of several translation units with global objects, each of which uses libcwd in its own way (KIND).
// KIND 0: main, and what puts the constructors in the wanted order.
#include "cwd_sys.h"
#include <libcwd/debug.h>
#include <libcwd/buf2str.h>
#include <libcwd/char2str.h>
#include <libcwd/demangle.h>
#include <libcwd/type_info.h>
#include <cstring>
#include <dlfcn.h>
#include <iostream>
#include <mutex>
#include <thread>
#include <unistd.h>

extern char const* active;      // The kinds that do something.
extern char const* lib_path;
static bool is_active(char k) { return active && strchr(active, k); }
extern char const* initializing; // The kinds that call initialize.  That is needed for using libcw_do before its constructor.
static void init(char k) { if (strchr(initializing, k)) libcwd::initialize(); }
// Print to libcw_do, whatever its state; the state is the same afterwards.
struct On { On(char k = ' ') { init(k); Debug(libcw_do.on()); } ~On() { Debug(libcw_do.off()); } };

#if KIND == 0
#include <algorithm>
#include <sys/mman.h>
#include <vector>
char const* active;
char const* initializing;
char const* lib_path;
extern "C" { extern void (*__init_array_start[])(int, char**, char**); extern void (*__init_array_end[])(int, char**, char**); }
__attribute__((constructor(101))) static void order(int argc, char** argv, char**)
{
  if (argc < 5) _exit(3);
  active = argv[2];
  lib_path = argv[3];
  initializing = argv[4];
  // What comes after this is put in the order of argv[1]: numbers of entries, one letter each.
  size_t n = __init_array_end - __init_array_start, from = n;
  for (size_t i = 0; i < n; ++i) if (__init_array_start[i] == (void (*)(int, char**, char**))&order) from = i + 1;
  size_t m = strlen(argv[1]);
  if (from + m > n) _exit(3);
  void* saved[64];
  if (n > 64) _exit(3);
  memcpy(saved, __init_array_start, n * sizeof(void*));
  uintptr_t a = (uintptr_t)__init_array_start & ~4095ul, b = ((uintptr_t)__init_array_end + 4095) & ~4095ul;
  if (mprotect((void*)a, b - a, PROT_READ | PROT_WRITE)) _exit(3);
  for (size_t i = 0; i < m; ++i) { size_t e = argv[1][i] - 'A'; if (e < from || e >= n) _exit(3); memcpy(&__init_array_start[n - m + i], &saved[e], sizeof(void*)); }
}
extern "C" void in_main(char k);
int main()
{
  Debug(main_reached());
  Dout(dc::always, "main before");
  Dout(dc::debug, "main debug");
  Debug(libcw_do.on());
  Dout(dc::always, "main on");
  for (char const* k = active; *k; ++k) in_main(*k);
  std::vector<std::string> l;
  ForAllDebugChannels(l.push_back(debugChannel.get_label()); while (!l.back().empty() && l.back().back() == ' ') l.back().pop_back(); if (debugChannel.is_on()) l.back() += '+');
  std::sort(l.begin(), l.end());
  std::string s;
  for (auto& x : l) s += " " + x;
  Dout(dc::always, "channels" << s);
  int n = 0;
  ForAllDebugObjects(if (&debugObject == &libcw_do) ++n);
  Dout(dc::always, "libcw_do is registered " << n << " times");
  Dout(dc::always, "main is " << libcwd::pc_mangled_function_name((void*)&main));
}
#define HOOK(k) extern "C" void in_main_##k();
HOOK(A) HOOK(B) HOOK(C) HOOK(D) HOOK(E) HOOK(F) HOOK(G) HOOK(H) HOOK(I) HOOK(J) HOOK(K) HOOK(L) HOOK(M)
void in_main(char k)
{
  switch (k)
  {
#undef HOOK
#define HOOK(k) case #k[0]: in_main_##k(); break;
HOOK(A) HOOK(B) HOOK(C) HOOK(D) HOOK(E) HOOK(F) HOOK(G) HOOK(H) HOOK(I) HOOK(J) HOOK(K) HOOK(L) HOOK(M)
  }
}
#endif

#if KIND == 1   // Switches things on, writes, and switches them off again.
namespace { struct Global
{
  Global()
  {
    if (!is_active('A')) return;
    init('A');
    Debug(libcw_do.on());
    Dout(dc::notice, "A off");
    Debug(dc::notice.on());
    Dout(dc::notice, "A " << 1);
    Debug(dc::notice.off());
    Debug(libcw_do.off());
    Dout(dc::always, "A 2");
  }
  ~Global() { if (is_active('A')) { Dout(dc::notice, "~A off"); Dout(dc::always, "~A"); } }
} global; }
extern "C" void in_main_A() { Dout(dc::notice, "A off"); }
#endif

#if KIND == 2   // Leaves things on.
namespace { struct Global
{
  Global()
  {
    if (!is_active('B')) return;
    init('B');
    Debug(libcw_do.on());
    Debug(dc::debug.on());
    Debug(libcw_do.margin().assign("m ", 2));
    Dout(dc::debug, "B");
  }
  ~Global() { if (is_active('B')) Dout(dc::debug, "~B"); }
} global; }
extern "C" void in_main_B() { Dout(dc::debug, "main B"); }
#endif

#if KIND == 3   // Channels.
namespace libcwd::channels::dc {
Channel c_one("C_ONE");
}
namespace { struct Global
{
  Global()
  {
    if (!is_active('C')) return;
    On on('C');
    Dout(dc::c_one, "C off");
    Debug(dc::c_one.on());
    Dout(dc::c_one, "C");
  }
  ~Global() { if (is_active('C')) Dout(dc::c_one, "~C"); }
} global; }
namespace libcwd::channels::dc {
Channel c_two("C_TWO");
}
extern "C" void in_main_C()
{
  Dout(dc::c_one, "main C");
  Dout(dc::c_two, "C off");
  Dout(dc::always, "find " << (libcwd::find_channel("C_ONE") == &libcwd::channels::dc::c_one) << (libcwd::find_channel("C_TWO") == &libcwd::channels::dc::c_two));
}
#endif

#if KIND == 4   // Locations.
extern "C" __attribute__((noinline)) void the_function() { asm volatile(""); }
static std::string look_up()
{
  libcwd::Location loc((void*)&the_function);
  std::string r = loc.mangled_function_name();
  r += loc.object_file() ? std::string(" ") + loc.object_file()->filename() : " no object";
  if (loc.is_known()) r += " " + loc.file();
  return r + " " + libcwd::pc_mangled_function_name((void*)&the_function);
}
namespace { struct Global
{
  Global() { if (is_active('D')) { std::string s = look_up(); On on('D'); Dout(dc::always, "D " << s); } }
  ~Global() { if (is_active('D')) Dout(dc::always, "~D " << look_up()); }
} global; }
extern "C" void in_main_D() { Dout(dc::always, "main D " << look_up()); }
#endif

#if KIND == 5   // Demangling and type information.
template <class T> struct Templ { };
static std::string all()
{
  std::string r, s;
  libcwd::demangle_symbol("_ZN3foo3barEv", r);
  libcwd::demangle_type("P5TemplIiE", s);
  Templ<char> t;
  return r + " " + s + " " + libcwd::type_info_of<Templ<int>*>().demangled_name() + " " + std::to_string(libcwd::type_info_of<Templ<int>*>().size()) + " " + libcwd::type_info_of(t).demangled_name();
}
namespace { struct Global
{
  Global() { if (is_active('E')) { std::string s = all(); On on('E'); Dout(dc::always, "E " << s); } }
  ~Global() { if (is_active('E')) Dout(dc::always, "~E " << all()); }
} global; }
extern "C" void in_main_E() { Dout(dc::always, "main E " << all()); }
#endif

#if KIND == 6   // Another debug object.
libcwd::DebugObject my_do;
static std::mutex mtx;
#define FDout(c, d) LibcwDout(LIBCWD_DEBUG_CHANNELS, my_do, c, d)
namespace { struct Global
{
  Global()
  {
    if (!is_active('F')) return;
    FDout(dc::always, "F off");
    Debug(my_do.set_ostream(&std::cerr, &mtx));
    Debug(my_do.on());
    Debug(my_do.margin().assign("f ", 2));
    FDout(dc::always, "F");
  }
  ~Global() { if (is_active('F')) FDout(dc::always, "~F"); }
} global; }
extern "C" void in_main_F()
{
  FDout(dc::always, "main F");
  int n = 0;
  ForAllDebugObjects(if (&debugObject == &my_do) ++n);
  FDout(dc::always, "registered " << n << " times");
}
#endif

#if KIND == 7   // Another stream.
struct Buf : std::streambuf
{
  int overflow(int c) override { char x = c; write(2, &x, 1); return c; }
  std::streamsize xsputn(char const* s, std::streamsize n) override { std::string t = "G>" + std::string(s, n); if (n) write(2, t.data(), t.size()); return n; }
};
static Buf buf;
static std::ostream os(&buf);
static std::mutex mtx;
namespace { struct Global
{
  Global() { if (is_active('G')) { init('G'); Debug(libcw_do.set_ostream(&os, &mtx)); On on('G'); Dout(dc::always, "G"); } }
  ~Global() { if (is_active('G')) { Dout(dc::always, "~G"); Debug(libcw_do.set_ostream(&std::cerr, &mtx)); } }
} global; }
extern "C" void in_main_G() { Dout(dc::always, "main G " << (libcwd::libcw_do.get_ostream() == &os)); }
#endif

#if KIND == 8   // A thread (not before all globals are constructed, see tutorial 6).
static void thread(char const* s)
{
  static std::mutex mtx;
  if (!libcwd::libcw_do.has_mutex()) Debug(libcw_do.set_ostream(libcw_do.get_ostream(), &mtx));
  std::thread([&] { Dout(dc::always, "H off"); Debug(libcw_do.on()); Dout(dc::always, s); Debug(dc::notice.on()); Dout(dc::notice, s); }).join();
}
namespace { struct Global
{
  Global() {  }
  ~Global() { if (is_active('H')) thread("~H"); }
} global; }
extern "C" void in_main_H() { thread("main H"); }
#endif

#if KIND == 9   // A library.
static void* handle;
static void* fn;
static std::string look_up()
{
  libcwd::Location loc(fn);
  return std::string(libcwd::pc_mangled_function_name(fn)) + (loc.object_file() ? std::string(" ") + loc.object_file()->filename() : " no object");
}
namespace { struct Global
{
  Global()
  {
    if (!is_active('I')) return;
    handle = dlopen(lib_path, RTLD_NOW);
    fn = handle ? dlsym(handle, "fn_of_lib") : nullptr;
    std::string s = look_up();
    On on('I');
    Dout(dc::always, "I " << s);
  }
  ~Global() { if (is_active('I')) { dlclose(handle); Dout(dc::always, "~I " << look_up()); } }
} global; }
extern "C" void in_main_I() { Dout(dc::always, "main I " << look_up()); }
#endif

#if KIND == 10  // A fatal error.
namespace { struct Global
{
  Global() { if (is_active('J')) { init('J'); DoutFatal(dc::fatal, "J"); Dout(dc::always, "J goes on"); } }
} global; }
extern "C" void in_main_J() { }
#endif

#if KIND == 11  // Which channels are there?
static std::string all()
{
  std::string r;
  bool two = true;
  ForAllDebugChannels(if (debugChannel.get_label()[0] == 'C' && debugChannel.get_label()[1] == '_') r += std::string(" ") + debugChannel.get_label());
  return r + (libcwd::find_channel("WARN") == &libcwd::channels::dc::warning && libcwd::find_channel("NOT") == &libcwd::channels::dc::notice ? " found" : " not found");
}
namespace { struct Global
{
  Global() { if (is_active('K')) { On on('K'); Dout(dc::always, "K" << all()); } }
  ~Global() { if (is_active('K')) Dout(dc::always, "~K" << all()); }
} global; }
extern "C" void in_main_K() { Dout(dc::always, "main K" << all()); }
#endif

#if KIND == 12  // Characters, errors, indentation.
static void put(char const* what, char k = ' ')
{
  On on(k);
  Debug(libcw_do.inc_indent(2));
  errno = ENOENT;
  Dout(dc::always | error_cf, what << libcwd::buf2str("a\nb", 3) << libcwd::char2str('\t'));
  Debug(libcw_do.dec_indent(2));
}
namespace { struct Global
{
  Global() { if (is_active('L')) put("L ", 'L'); }
  ~Global() { if (is_active('L')) put("~L "); }
} global; }
extern "C" void in_main_L() { put("main L "); }
#endif

#if KIND == 13  // Does not switch anything on.
namespace libcwd::channels::dc { Channel m("M"); }
namespace { struct Global
{
  Global()
  {
    if (!is_active('M')) return;
    // Whether libcw_do was constructed or not.
    Dout(dc::notice, "M" << (write(2, "M evaluated\n", 12), 1));
    Dout(dc::m | continued_cf, "M");
    Dout(dc::continued, "M");
    Dout(dc::finish, "M");
    Dout(dc::always | nolabel_cf, "M" << (write(2, "M evaluated\n", 12), 1));
  }
  ~Global() { if (is_active('M')) Dout(dc::m, "~M"); }
} global; }
extern "C" void in_main_M() { Dout(dc::m, "main M"); }
#endif
