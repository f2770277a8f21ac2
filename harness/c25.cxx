// C25: all schedules of threads that start using the library at the same time.
#include "mc.h"
#include "cwd_sys.h"
#include <libcwd/debug.h>
#include "newch.h"
#include <libcwd/type_info.h>
#include <libcwd/demangle.h>
#include <libcwd/buf2str.h>
#include <libcwd/strerrno.h>
#include <libcwd/threads_created.h>
#include <iomanip>
#include <iostream>
#include <mutex>
#include <sstream>
#include <sys/stat.h>
#include <thread>
using namespace libcwd;

static void log(std::string const& s) { mc_log(s.data(), s.size()); }
static int me() { return mc_controlled() ? mc_tid() : 0; }
#define NOT_INSTRUMENTED __attribute__((no_sanitize("thread"), noinline))
struct Mut
{
  std::mutex m;
  int owner = -2;
  NOT_INSTRUMENTED void own(int o) { owner = o; }
  NOT_INSTRUMENTED bool mine() const { return owner == me(); }
  void lock() { m.lock(); own(me()); }
  bool try_lock() { if (!m.try_lock()) return false; own(me()); return true; }
  void unlock() { own(-2); m.unlock(); }
};
static Mut mut;
// Every thread logs "<tid><text>\x1e".
struct Buf : std::streambuf
{
  void w(char const* s, size_t n)
  {
    if (mc_controlled() && !mut.mine()) mc_fail("writes to the stream without holding its mutex");
    if (mc_controlled()) log(std::to_string(me()) + "W" + std::string(s, n) + '\x1e');
  }
  int overflow(int c) override { char ch = c; w(&ch, 1); return c; }
  std::streamsize xsputn(char const* s, std::streamsize n) override { w(s, n); return n; }
};
static Buf buf;
static std::ostream os(&buf);
// ON: on in the rcfile and in main; OFF: off in both; RC: on in the rcfile, but turned off in main; MAIN: the other way around.
static Channel *con, *coff, *crc, *cmain;
static Channel** const chans[] = {&con, &coff, &crc, &cmain};
static bool const rc_on[] = {true, false, true, false}, main_on[] = {true, false, false, true};
struct Type1 { int x; };
template <class T> struct Type2 { };

enum { NONE, RC, COPY, OFF, DEF, RCN, COPYN, OFFN, DEFN };
static char const* const initname[] = {"no init_thread", "from_rcfile", "copy_from_main", "debug_off", "default", "named, from_rcfile", "named, copy_from_main", "named, debug_off", "named, default"};
enum Op { STATE, DOUT, TI, TIX, DEM, BUF, ERR, ON, MDOUT, DEMT, CHR, LOC, CONV };
static char const* const opname[] = {"channel states", "messages", "type_info_of", "type_info_of exact", "demangle", "buf2str", "strerrno", "turn on, message", "messages of main", "demangle_type", "char2str", "strerrno of others", "type_info_of of others"};
struct Prog { int init; std::vector<int> ops; };
static std::string str(Prog const& p) { std::string r = initname[p.init]; for (int o : p.ops) { r += "; "; r += opname[o]; } return r; }
static char const* const nm[] = {"Main", "First thread", "Second", "Third thread has a long name"};

static void run(Prog const& p, int id)
{
  auto say = [&](std::string const& s) { log(std::to_string(id) + s + '\x1e'); };
  std::string name = p.init >= RCN ? nm[id] : "";
  switch (p.init)
  {
    case RC: case RCN: init_thread(name, from_rcfile); break;
    case COPY: case COPYN: init_thread(name, copy_from_main); break;
    case OFF: case OFFN: init_thread(name, debug_off); break;
    case DEF: init_thread(); break;
    case DEFN: init_thread(name); break;
  }
  if (id == 1) { std::ostringstream s; s << std::hex << std::setw(12) << (size_t)pthread_self() << ' '; log("1P" + s.str() + '\x1e'); }
  else if (id) { std::ostringstream s; s << std::hex << std::setw(12) << (size_t)pthread_self() << ' '; log(std::to_string(id) + "P" + s.str() + '\x1e'); }
  for (int op : p.ops)
    switch (op)
    {
      case STATE:
      {
        std::string s = "S";
        for (auto c : chans) s += (*c)->is_on() ? '1' : '0';
        LIBCWD_TSD_DECLARATION;
        s += libcw_do.is_on(LIBCWD_TSD) ? '1' : '0';
        say(s);
        break;
      }
      case DOUT: case MDOUT: for (auto c : chans) { LibcwDout(libcwd::channels, libcw_do, **c, "text"); } break;
      case TI: { auto& t = type_info_of<Type1*>(); say(std::string("T") + t.demangled_name() + "," + std::to_string(t.size()) + "," + std::to_string(t.ref_size()) + "," + t.name()); break; }
      case TIX: { auto& t = type_info_of<Type1 const&>(); say(std::string("X") + t.demangled_name() + "," + std::to_string(t.size())); break; }
      case DEM: { std::string s; demangle_symbol("_ZN3fooIiE3barERKS0_St6vectorIiSaIiEE", s); say("D" + s); break; }
      case BUF: { std::ostringstream s; s << buf2str("a\nb", 3); say("B" + s.str()); break; }
      case DEMT: { std::string s("="); demangle_type("St6vectorIiSaIiEE", s); demangle_type("PA3_Kd", s); say("d" + s); break; }
      case CHR: { std::ostringstream s; s << char2str('\t') << char2str('x') << char2str('\1'); say("C" + s.str()); break; }
      case LOC: say(std::string("L") + strerrno(EPERM) + strerrno(100000)); break;
      case CONV: { say(std::string("V") + type_info_of<Type2<int>>().demangled_name() + type_info_of<char const* const&>().demangled_name()); break; }
      case ERR: say(std::string("E") + strerrno(ENOENT)); break;
      case ON: Debug(libcw_do.on()); coff->on(); LibcwDout(libcwd::channels, libcw_do, *coff, "on"); break;
    }
}
static std::string pad(std::string l, size_t w) { return l + std::string(w - l.size(), ' '); }
static std::vector<std::string> expect(Prog const& p, int id, std::string const& ptr, bool notice_rc, size_t width)
{
  std::vector<std::string> r;
  bool on[4] = {}, obj = false;
  std::string margin;
  int mode = p.init >= RCN ? p.init - RCN + RC : p.init;
  if (mode == DEF) mode = RC;
  for (int i = 0; i < 4; ++i) on[i] = id == 0 ? main_on[i] : mode == RC ? rc_on[i] : mode == COPY ? main_on[i] : false;
  obj = id == 0 || mode == RC || mode == COPY;
  if (id && p.init != NONE)
  {
    if (p.init >= RCN) margin = (std::string(nm[id]) + std::string(16, ' ')).substr(0, 15) + " ";
    else margin = ptr;
    if (p.init >= RCN && obj && notice_rc) r.push_back("W" + margin + pad("NOTICE", width) + ": Thread started. Set debug margin to \"" + margin + "\".\n");
  }
  if (id) r.push_back("P" + ptr);
  static char const* const lab[] = {"VXON", "VXOFF", "VXRC", "VXMAIN"};
  for (int op : p.ops)
    switch (op)
    {
      case STATE: { std::string s = "S"; for (bool b : on) s += b ? '1' : '0'; s += obj ? '1' : '0'; r.push_back(s); break; }
      case DOUT: case MDOUT: for (int i = 0; i < 4; ++i) if (on[i] && obj) r.push_back("W" + margin + pad(lab[i], width) + ": text\n"); break;
      case TI: r.push_back("TType1*,8,4,P5Type1"); break;
      case TIX: r.push_back("XType1 const&,4"); break;
      case DEM: r.push_back("Dfoo<int>::bar(foo<int> const&, std::vector<int, std::allocator<int> >)"); break;
      case BUF: r.push_back("Ba\\nb"); break;
      case DEMT: r.push_back("d=std::vector<int, std::allocator<int> >double const (*) [3]"); break;
      case CHR: r.push_back("C\\tx\\x01"); break;
      case LOC: r.push_back("LEPERMUNKNOWN ERROR"); break;
      case CONV: r.push_back("VType2<int>char const* const&"); break;
      case ERR: r.push_back("EENOENT"); break;
      case ON: r.push_back("W" + margin + pad("VXOFF", width) + ": on\n"); break;
    }
  return r;
}
static size_t width;

static void check(std::vector<Prog> const& progs, int bound, bool main_writes = false)
{
  if (!vx::take()) return;
  std::string d;
  for (auto& p : progs) d += (d.empty() ? "" : " | ") + str(p);
  if (main_writes) d += " | main writes messages";
  vx::describe(d + " (up to " + std::to_string(bound) + " preemptions)");
  vx::sample(vx::g.desc);
  std::map<std::string, std::string> seen;
  mc::report_races(true);
  mc::explore([&] {
    std::vector<std::thread> th;
    for (size_t i = 0; i < progs.size(); ++i) th.emplace_back([&, i] { run(progs[i], i + 1); });
    if (main_writes) run({NONE, {MDOUT}}, 0);
    for (auto& t : th) t.join();
    run({NONE, {STATE, DOUT}}, 0);
    log("!\x1e");
  }, [&](mc::Result const& r) -> std::string {
    if (!r.finished()) return "the program " + r.str();
    auto f = seen.find(r.log);
    if (f != seen.end()) return f->second;
    std::string e;
    std::vector<std::vector<std::string>> got(progs.size() + 1);
    bool end = false;
    for (size_t p = 0, q; p < r.log.size(); p = q + 1)
    {
      q = r.log.find('\x1e', p);
      std::string x = r.log.substr(p, q - p);
      if (x == "!") { end = true; continue; }
      unsigned t = x[0] - '0';
      if (t > progs.size()) { e = "unexpected output: " + x; break; }
      got[t].push_back(x.substr(1));
    }
    if (!end) e = "the program did not get to its end";
    for (size_t i = 0; e.empty() && i <= progs.size(); ++i)
    {
      Prog p;
      if (i) p = progs[i - 1]; else p = {NONE, main_writes ? std::vector<int>{MDOUT, STATE, DOUT} : std::vector<int>{STATE, DOUT}};
      std::string ptr;
      for (auto& x : got[i]) if (x[0] == 'P') ptr = x.substr(1);
      auto want = expect(p, i, ptr, true, width);
      for (size_t k = 0; k < std::max(want.size(), got[i].size()) && e.empty(); ++k)
      {
        std::string w = k < want.size() ? want[k] : "nothing", g = k < got[i].size() ? got[i][k] : "nothing";
        if (w != g) e = "thread " + std::to_string(i) + ": " + w + " is expected instead of " + g;
      }
    }
    return seen[r.log] = e;
  }, bound);
}

// The first call of init_thread: of the first thread, or of one of the others.  Only an init_thread without name that comes
// first gives no margin.
static void first(std::vector<int> const& main_calls, std::vector<std::vector<int>> const& progs, int bound)
{
  if (!vx::take()) return;
  std::string d = "first thread:";
  auto str = [&](std::vector<int> const& p) { for (int i : p) { d += d.back() == ':' || d.back() == '|' ? " " : "; "; d += initname[i]; } };
  str(main_calls);
  for (auto& p : progs) { d += " |"; str(p); }
  vx::describe(d + " (up to " + std::to_string(bound) + " preemptions, without init())");
  vx::sample(vx::g.desc);
  auto calls = [&](std::vector<int> const& p, int id) {
    for (int i : p)
    {
      init_thread(i >= RCN ? nm[id] : "", i == OFF || i == OFFN ? debug_off : thread_init_default);
      std::ostringstream s; s << std::hex << std::setw(12) << (size_t)pthread_self() << ' ';
      std::string m(libcw_do.margin().c_str(), libcw_do.margin().size());
      log(std::to_string(id) + (m == s.str() ? "I" : m.empty() ? "E" : m == (std::string(nm[id]) + std::string(16, ' ')).substr(0, 15) + " " ? "N" : "?" + m) + '\x1e');
      libcw_do.margin().assign("");
    }
  };
  mc::report_races(true);
  std::map<std::string, std::string> seen;
  mc::explore([&] {
    calls(main_calls, 0);
    log("0-\x1e");
    std::vector<std::thread> th;
    for (size_t i = 0; i < progs.size(); ++i) th.emplace_back([&, i] { calls(progs[i], i + 1); });
    for (auto& t : th) t.join();
    log(std::string("0") + (threads_created ? "T" : "F") + '\x1e');
  }, [&](mc::Result const& r) -> std::string {
    if (!r.finished()) return "the program " + r.str();
    auto f = seen.find(r.log);
    if (f != seen.end()) return f->second;
    std::string e;
    std::vector<std::vector<std::string>> got(progs.size() + 1);
    for (size_t p = 0, q; p < r.log.size(); p = q + 1) { q = r.log.find('\x1e', p); got[r.log[p] - '0'].push_back(r.log.substr(p + 1, q - p - 1)); }
    // Which call can have been the first?
    bool found = false;
    std::string could;
    auto attempt = [&](size_t ft) {
      std::vector<std::vector<std::string>> want(progs.size() + 1);
      bool created = false;
      auto exp = [&](std::vector<int> const& p, size_t id) {
        bool is_first = ft == id;
        for (int i : p)
        {
          want[id].push_back(i >= RCN ? "N" : is_first ? "E" : "I");
          if (i < RCN && !is_first) created = true;
          is_first = false;
        }
      };
      exp(main_calls, 0);
      want[0].push_back("-");
      for (size_t i = 0; i < progs.size(); ++i) exp(progs[i], i + 1);
      want[0].push_back(created ? "T" : "F");
      if (want == got) found = true;
    };
    if (!main_calls.empty()) attempt(0); else for (size_t i = 1; i <= progs.size(); ++i) attempt(i);
    if (!found)
    {
      e = "these margins (E: empty, I: the id of the thread, N: its name; T: threads_created) are given, which no order of the calls explains:";
      for (auto& g : got) { e += " |"; for (auto& x : g) e += " " + x; }
    }
    return seen[r.log] = e;
  }, bound, "first", 1);
}
static void all_first()
{
  libcw_do.set_ostream(&os, &mut);
  Debug(main_reached());
  while (channels::dc::warning.is_on()) channels::dc::warning.off();
  bool th = vx::g.thorough;
  std::vector<std::vector<int>> mains{{}, {OFF}, {OFFN}, {OFF, OFF}, {OFFN, OFF}, {OFF, OFFN}}, ts{{OFF}, {OFFN}, {DEF}, {DEFN}, {OFF, OFF}, {OFFN, OFF}};
  for (auto& m : mains) for (size_t i = 0; i < ts.size(); ++i)
  {
    first(m, {ts[i]}, th ? 3 : 2);
    for (size_t j = i; j < ts.size(); ++j) first(m, {ts[i], ts[j]}, m.empty() ? (th ? 3 : 2) : (th ? 2 : 1));
  }
  for (int i : {OFF, OFFN}) for (int j : {OFF, OFFN}) first({}, {{i}, {j}, {OFF}}, 1);
}

int main(int argc, char** argv)
{
  vx::init(argc, argv);
  if (argc > 1 && !strcmp(argv[1], "first")) { all_first(); vx::done(); }
  {
    char home[] = "./homeXXXXXX";
    if (!mkdtemp(home)) { perror("mkdtemp"); _exit(2); }
    std::string h = std::string(home);
    FILE* f = fopen((h + "/rc").c_str(), "w");
    fprintf(f, "silent = on\nchannels_default = off\nchannels_on = vxon,vxrc,notice\n");
    fclose(f);
    setenv("LIBCWD_RCFILE_NAME", (h + "/rc").c_str(), 1);
    char* abs = realpath((h + "/rc").c_str(), nullptr);
    setenv("LIBCWD_RCFILE_NAME", abs, 1);
  }
  con = lw::new_channel("VXON"); coff = lw::new_channel("VXOFF"); crc = lw::new_channel("VXRC"); cmain = lw::new_channel("VXMAIN");
  libcw_do.set_ostream(&os, &mut);
  Debug(init());
  crc->off(); cmain->on();
  width = strlen(con->get_label());
  bool th = vx::g.thorough;
  std::vector<int> inits{NONE, RC, COPY, OFF, DEF, RCN, COPYN, OFFN, DEFN};
  int b = th ? 3 : 2;
  for (size_t i = 0; i < inits.size(); ++i) for (size_t j = i; j < inits.size(); ++j) check({{inits[i], {STATE, DOUT}}, {inits[j], {STATE, DOUT}}}, b);
  for (int o : {TI, TIX, DEM, BUF, ERR}) check({{NONE, {o}}, {NONE, {o}}}, th ? 4 : 3);
  for (int o : {TI, TIX, DEM, BUF, ERR}) for (int i : {RCN, DEF}) check({{NONE, {o}}, {i, {o, DOUT}}}, b);
  std::vector<int> uses{TI, TIX, DEM, BUF, ERR, DEMT, CHR, LOC, CONV};
  for (size_t i = 0; i < uses.size(); ++i) for (size_t j = i; j < uses.size(); ++j) if (i != j || i > 4) check({{NONE, {uses[i]}}, {NONE, {uses[j]}}}, b);
  check({{NONE, {TI}}, {NONE, {TIX, TI}}}, b);
  check({{NONE, {DEM}}, {NONE, {TIX}}}, b);
  for (int i : inits) check({{NONE, {ON}}, {i, {STATE, DOUT, ON}}}, b);
  for (int i : inits) check({{i, {STATE, DOUT}}}, b + 1, true);
  for (int i : {RCN, COPY}) for (int j : {COPYN, NONE}) check({{i, {STATE, DOUT}}, {j, {STATE}}}, th ? 2 : 1, true);
  for (int i : {NONE, RC, COPY, RCN}) for (int j : {RC, COPYN}) for (int k : {OFF, RCN}) check({{i, {STATE}}, {j, {DOUT}}, {k, {STATE}}}, th ? 2 : 1);
  check({{NONE, {TI}}, {NONE, {TI}}, {NONE, {TI}}}, 2);
  vx::done();
}
