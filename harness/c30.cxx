// C30: what is written at start-up, and which libraries are accepted.
#include "lw.h"
#include <algorithm>
#include <fcntl.h>
#include <map>
#include <set>
#include <sys/resource.h>

unsigned long vx_lib_signature();
void vx_main_reached();                 // main_reached() of a program that is linked with a library with that signature.
extern unsigned long vx_header_signature;
static unsigned long sig;
unsigned long vx_lib_signature() { return sig; }

static std::string dir;
struct Case { int no, print; rlim_t lim; bool late; char ctor; std::string ops; };
static std::string run(Case const& c, int& status)
{
  int p[2];
  if (pipe(p)) { perror("pipe"); _exit(2); }
  std::string exe = dir + (c.late ? "/late" : "/early");
  std::string ctor = std::string("VX_CTOR=") + c.ctor;
  static char const* const val[] = {nullptr, "1", "yes"};
  std::vector<std::string> env{ctor, "HOME=/nonexistent", "LC_ALL=C", "ASAN_OPTIONS=disable_coredump=0:detect_leaks=0:exitcode=99"};
  if (val[c.no]) env.push_back(std::string("LIBCWD_NO_STARTUP_MSGS=") + val[c.no]);
  if (val[c.print]) env.push_back(std::string("LIBCWD_PRINT_LOADING=") + val[c.print]);
  std::vector<char*> e;
  for (auto& s : env) e.push_back(const_cast<char*>(s.c_str()));
  e.push_back(nullptr);
  pid_t pid = fork();
  if (pid < 0) { perror("fork"); _exit(2); }
  if (pid == 0)
  {
    struct rlimit l = {0, c.lim};
    if (setrlimit(RLIMIT_CORE, &l)) _exit(126);
    dup2(p[1], 2); close(p[0]); close(p[1]);
    int nul = open("/dev/null", O_WRONLY);
    dup2(nul, 1);
    alarm(30);
    char const* argv[] = {"prog", c.ops.c_str(), nullptr};
    execve(exe.c_str(), const_cast<char**>(argv), e.data());
    _exit(127);
  }
  close(p[1]);
  std::string r;
  char b[8192];
  for (ssize_t n; (n = read(p[0], b, sizeof b)) > 0 || (n < 0 && errno == EINTR);) if (n > 0 && r.size() < 1000000) r.append(b, n);
  close(p[0]);
  waitpid(pid, &status, 0);
  return r;
}
typedef std::multiset<std::string> Set;
static Set objects(std::string const& s)
{
  Set r;
  for (size_t p = 0, q; (q = s.find('|', p)) != std::string::npos; p = q + 1) r.insert(s.substr(p, q - p));
  return r;
}
// The lines that tell that an object file was added or removed.
static std::string trace(std::string const& text, Set const& added, Set const& removed)
{
  Set a, d, wd;
  std::istringstream is(text);
  for (std::string l; std::getline(is, l);)
  {
    if (l.compare(0, 10, "ELFUTILS: ")) return "unexpected line " + lw::quoted(l);
    std::string t = l.substr(10);
    while (!t.empty() && t[0] == ' ') t.erase(0, 1);
    if (!t.compare(0, 15, "new ObjectFile ")) a.insert(t.substr(15));
    if (!t.compare(0, 22, "destroying ObjectFile ")) { t = t.substr(22); if (!t.empty() && t.back() == '.') t.pop_back(); d.insert(t); }
  }
  for (auto& s : removed) wd.insert(s.substr(0, s.find('"', 1) + 1));
  auto list = [](Set const& s) { std::string r; for (auto& x : s) r += x + "; "; return r; };
  if (a != added) return "the object files that are reported to be new are " + list(a) + " instead of " + list(added);
  if (d != wd) return "the object files that are reported to be destroyed are " + list(d) + " instead of " + list(wd);
  return "";
}
static void check(Case const& c)
{
  if (!vx::take()) return;
  static char const* const val[] = {"not set", "\"1\"", "\"yes\""};
  std::string d = std::string("LIBCWD_NO_STARTUP_MSGS ") + val[c.no] + ", LIBCWD_PRINT_LOADING " + val[c.print] + ", hard limit of the core size " + (c.lim == RLIM_INFINITY ? "none" : std::to_string(c.lim)) +
    ", first used by " + (c.ctor == '-' ? "the library" : std::string("a global that is constructed ") + (c.late ? "after" : "before") + " those of the library (" + c.ctor + ")") + ", then " + (c.ops.empty() ? "nothing" : c.ops);
  vx::describe(d);
  vx::sample(d);
  ++vx::g.extra_states;
  vx::g.transitions += 1 + c.ops.size();
  int st;
  std::string out = run(c, st);
  auto fail = [&](std::string const& s) { vx::fail(d, s + "; it wrote " + lw::quoted(out.substr(0, 600))); };
  if (!WIFEXITED(st) || WEXITSTATUS(st) != 77) return fail("the program ends with wait status " + std::to_string(st));
  // Cut the output in pieces.
  struct Piece { std::string text, what, state, objs; };
  std::vector<Piece> pieces;
  for (size_t p = 0;;)
  {
    size_t q = p;
    while (q < out.size() && out.compare(q, 2, "@@")) q = out.find('\n', q) == std::string::npos ? out.size() : out.find('\n', q) + 1;
    if (q >= out.size()) break;
    size_t e = out.find('\n', q);
    std::istringstream is(out.substr(q + 2, e - q - 2));
    Piece x;
    x.text = out.substr(p, q - p);
    is >> x.what >> x.state;
    std::getline(is, x.objs);
    if (!x.objs.empty()) x.objs.erase(0, 1);
    pieces.push_back(x);
    p = e + 1;
  }
  size_t i = 0;
  std::string start;
  while (i < pieces.size() && pieces[i].what != "main") start += pieces[i++].text;
  if (i == pieces.size()) return fail("main was not reached");
  start += pieces[i].text;
  bool const force = c.print && !c.no;
  // Before main.
  if (!c.no && c.lim != RLIM_INFINITY && c.lim != 0)
  {
    std::string w = "WARNING : core size is limited (hard limit: " + std::to_string(c.lim / 1024) + " kb).  Core dumps might be truncated!\n";
    if (start.compare(0, w.size(), w)) return fail("should start with " + lw::quoted(w));
    start.erase(0, w.size());
  }
  Set now = objects(pieces[i].objs);
  std::string e = trace(start, force ? now : Set(), {});
  // The library that was opened by the constructor is also announced when everything was turned on, but that is only done after that.
  if (!e.empty()) return fail("before main: " + e);
  bool on = c.ctor == 'O', elf = c.ctor == 'O';
  int want_warn = c.ctor == 'F' ? 0 : 1;
  auto state = [&](Piece const& p) -> std::string {
    std::string w = std::string(on ? "1" : "0") + (elf ? "1" : "0") + (want_warn ? "1" : "0") + "1";
    return p.state == w ? "" : p.what + ": the states of the debug object, ELFUTILS and WARNING, and whether the core size is the maximum, are " + p.state + " instead of " + w;
  };
  // A Dout statement that writes nothing does not need to initialize anything.
  for (size_t j = 0; j <= i; ++j) if (!(j < i && strchr("DW", c.ctor)) && !(e = state(pieces[j])).empty()) return fail(e);
  ++i;
  if (i == pieces.size() || pieces[i].what != "reached" || !pieces[i].text.empty()) return fail("main_reached() failed or wrote something");
  if (!(e = state(pieces[i])).empty()) return fail(e);
  int offd = c.ctor == 'F', offe = c.ctor == 'F';         // An extra off().
  for (char op : c.ops)
  {
    ++i;
    if (i == pieces.size() || pieces[i].what != std::string("op") + op) return fail(std::string("operation ") + op + " failed");
    if (op == 'o') { if (on) on = false; else if (offd) --offd; else on = true; }
    if (op == 'e') { if (elf) elf = false; else if (offe) --offe; else elf = true; }
    Set then = objects(pieces[i].objs), added, removed;
    std::set_difference(then.begin(), then.end(), now.begin(), now.end(), std::inserter(added, added.end()));
    std::set_difference(now.begin(), now.end(), then.begin(), then.end(), std::inserter(removed, removed.end()));
    now = then;
    bool vis = force || (on && elf);
    if (op == 'l')              // Only what is loaded and read is written.
    {
      if (!(on && elf) && !pieces[i].text.empty()) return fail("a lookup writes something");
    }
    else if (op == 'o' || op == 'e') { if (!pieces[i].text.empty()) return fail("writes something"); }
    else
    {
      e = trace(pieces[i].text, vis ? added : Set(), vis ? removed : Set());
      if (!e.empty()) return fail(std::string("operation ") + op + ": " + e);
    }
    if (!(e = state(pieces[i])).empty()) return fail(e);
  }
  ++i;
  if (i + 1 != pieces.size() || pieces[i].what != "end" || !pieces[i].text.empty()) return fail("did not end normally");
  std::string oc;
  for (auto& p : pieces) oc += p.what + p.state + std::to_string(std::count(p.text.begin(), p.text.end(), '\n')) + ",";
  vx::outcome(oc);
}
static void accept(unsigned long s)
{
  if (!vx::take()) return;
  unsigned long h = vx_header_signature;
  auto str = [](unsigned long v) { return std::to_string(v / 512 % 128) + "." + std::to_string(v / 65536 % 128) + "." + std::to_string(v / 65536 / 128) + " with configuration " + std::to_string(v % 512); };
  std::string d = "headers " + str(h) + ", library " + str(s);
  vx::describe(d);
  vx::sample(d);
  ++vx::g.extra_states;
  ++vx::g.transitions;
  sig = s;
  auto p = lw::forked([&] { Debug(libcw_do.set_ostream(&std::cout)); vx_main_reached(); std::cout << "[REACHED]" << libcwd::test_main_reached(); });
  vx::outcome(p.out + p.how());
  if (s == h)
  {
    if (!p.exited(77) || p.out != "[REACHED]1") vx::fail(d, "main_reached() " + p.how() + ", wrote " + lw::quoted(p.out + p.err));
    return;
  }
  if (!p.exited(180)) vx::fail(d, "should end with exit status 180 but " + p.how() + "; it wrote " + lw::quoted(p.out + p.err));
  bool ver = p.out.find("version of libcwd does not match") != std::string::npos, conf = p.out.find("different configuration") != std::string::npos;
  if (p.out.compare(0, 10, "FATAL   : ") || std::count(p.out.begin(), p.out.end(), '\n') != 1 || ver == conf || ver != (s / 512 != h / 512)) vx::fail(d, "wrote " + lw::quoted(p.out));
}

int main(int argc, char** argv)
{
  vx::init(argc, argv);
  char self[4097];
  ssize_t n = readlink("/proc/self/exe", self, 4096);
  self[n < 0 ? 0 : n] = 0;
  dir = std::string(self, strrchr(self, '/') - self) + "/fixtures";
  bool th = vx::g.thorough;
  // The limit can only be lowered.
  struct rlimit mine = {};
  getrlimit(RLIMIT_CORE, &mine);
  std::vector<rlim_t> lims;
  for (rlim_t l : {RLIM_INFINITY, (rlim_t)0, (rlim_t)1, (rlim_t)1023, (rlim_t)1024, (rlim_t)1536, (rlim_t)1024 * 1024, (rlim_t)5 << 30}) if (l <= mine.rlim_max) lims.push_back(l);
  std::string const ops = "aAbBoenNl";
  auto legal = [&](char ctor, std::string const& s) {
    int a = 0, b = ctor == 'B';
    for (char c : s) { if (c == 'a') ++a; if (c == 'b') ++b; if (c == 'A' && a-- == 0) return false; if (c == 'B' && b-- == 0) return false; }
    return true;
  };
  // The environment, limits and kinds of first use.
  for (int no = 0; no < 3; ++no) for (int pr = 0; pr < 3; ++pr) for (auto lim : lims) for (bool late : {false, true}) for (char ctor : std::string("-IDWLOFB"))
    for (auto s : {"", "l", "a", "aA", "oe"}) check({no, pr, lim, late, ctor, s});
  // What is done next.
  for (int no = 0; no < 2; ++no) for (int pr = 0; pr < 2; ++pr) for (char ctor : th ? std::string("-OFBL") : std::string("-OFB"))
    vx::sequences(ops.size(), 2, th ? 5 : pr && !no ? 4 : 3, [&](std::vector<unsigned> const& v) {
      std::string s;
      for (unsigned k : v) s += ops[k];
      if (legal(ctor, s)) check({no, pr, lims[0], true, ctor, s});
    });
  // All signatures.
  unsigned long h = vx_header_signature;
  Debug(main_reached());
  for (unsigned long c = 0; c < 512; ++c) accept(h / 512 * 512 + c);
  for (int ma = 0; ma < 128; ++ma) for (unsigned long c : {h % 512, h % 512 ^ 4}) accept(c + 512 * (ma + h / 65536 * 128));
  for (int mi = 0; mi < 128; ++mi) for (unsigned long c : {h % 512, h % 512 ^ 4}) accept(c + 512 * (h / 512 % 128 + 128 * (mi + h / 65536 / 128 * 128)));
  for (int re = 0; re < 128; ++re) for (unsigned long c : {h % 512, h % 512 ^ 4}) accept(c + 512 * (h / 512 % 128 + 128 * (h / 65536 % 128 + 128 * re)));
  if (libcwd::get_config_signature_lib_c() != h) vx::fail("signature", "the library has another signature than its own headers");
  vx::done();
}
