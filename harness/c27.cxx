// C27: attach_gdb under all answers of the environment (up to a bound), and settings of all lengths.
#include "lw.h"
#include <fcntl.h>
#include <fstream>
#include <sys/stat.h>
using namespace libcwd;
extern int libcwd_attach_gdb_hook;

// What the environment does.
struct Scene
{
  enum F { PARENT, CHILD, EAGAIN_, ENOMEM_ } fork = PARENT;
  int attach_at = -1;           // Number of polls until the debugger attaches; never when -1.
  int end_at = -1;              // Number of polls until the terminal ends.
  int status = 0;               // Its status.
  int intr_until = -1;          // waitpid is interrupted until then.
  bool echild = false;          // waitpid says ECHILD instead.
  int system_ret = 0;
  int gdb_len = 8, xterm_form = 0;
  int obj_off = 0;              // libcw_do is off this many times.
  bool always_poll_only = false;
};
static Scene* scene;            // Active.
static int polls, forks, reaped;
static char const* system_cmd;
constexpr int far = 700;
constexpr pid_t kid = 424242;

extern "C" pid_t __real_fork();
extern "C" pid_t __real_waitpid(pid_t, int*, int);
extern "C" int __real_nanosleep(timespec const*, timespec*);
extern "C" int __real_system(char const*);
static std::string cmds_at_fork;
static std::string slurp(char const* f) { std::ifstream i(f); std::stringstream s; s << i.rdbuf(); return s.str(); }
extern "C" pid_t __wrap_fork()
{
  if (!scene) return __real_fork();
  ++forks;
  cmds_at_fork = slurp("gdb.cmds");
  if (libcwd_attach_gdb_hook != 1) { std::cout << "[hook not set at fork]"; }
  switch (scene->fork)
  {
    case Scene::EAGAIN_: errno = EAGAIN; return -1;
    case Scene::ENOMEM_: errno = ENOMEM; return -1;
    case Scene::CHILD: return 0;
    default: return kid;
  }
}
extern "C" int __wrap_system(char const* cmd)
{
  if (!scene) return __real_system(cmd);
  if (scene->fork != Scene::CHILD) std::cout << "[system in the parent]";
  std::cout << "[system:" << cmd << "]";
  std::cout.flush();
  return scene->system_ret;
}
extern "C" pid_t __wrap_waitpid(pid_t p, int* st, int o)
{
  if (!scene) return __real_waitpid(p, st, o);
  if (p != kid && p != -1) std::cout << "[waitpid " << p << "]";
  if (polls < scene->intr_until) { errno = EINTR; return -1; }
  if (scene->echild) { errno = ECHILD; return -1; }
  if (scene->end_at >= 0 && polls >= scene->end_at)
  {
    if (reaped) { errno = ECHILD; return -1; }
    reaped = 1;
    if (st) *st = scene->status;
    return kid;
  }
  if (!(o & WNOHANG))
  {
    // Would block: time passes.
    while (!(scene->end_at >= 0 && polls >= scene->end_at)) { if (++polls == far) { std::cout.flush(); _exit(88); } if (polls == scene->attach_at) libcwd_attach_gdb_hook = 0; }
    return __wrap_waitpid(p, st, o);
  }
  return 0;
}
extern "C" int __wrap_nanosleep(timespec const* t, timespec* r)
{
  if (!scene) return __real_nanosleep(t, r);
  if (++polls == far) { std::cout.flush(); _exit(88); }
  if (polls == scene->attach_at) libcwd_attach_gdb_hook = 0;
  return 0;
}

static std::string str(Scene const& s)
{
  std::ostringstream o;
  o << "gdb setting of " << s.gdb_len << " characters, xterm setting " << s.xterm_form << ", libcw_do off " << s.obj_off << " times; ";
  if (s.fork == Scene::CHILD) o << "in the child: system returns " << s.system_ret;
  else if (s.fork != Scene::PARENT) o << "fork fails with " << (s.fork == Scene::EAGAIN_ ? "EAGAIN" : "ENOMEM");
  else
  {
    o << "the debugger attaches " << (s.attach_at < 0 ? "never" : "after " + std::to_string(s.attach_at) + " polls") << ", the terminal ends " << (s.end_at < 0 ? "never" : "after " + std::to_string(s.end_at) + " polls with status " + std::to_string(s.status));
    if (s.intr_until >= 0) o << ", waitpid is interrupted during the first " << s.intr_until << " polls";
    if (s.echild) o << ", waitpid fails with ECHILD";
  }
  return o.str();
}
static std::string gdb_setting(int len) { std::string s = "/bin/gdb"; s.resize(len, 'g'); return s; }
// The text around %s of the xterm setting.
static std::pair<std::string, std::string> xterm_setting(int form)
{
  switch (form)
  {
    case 0: return {"xterm -e ", ""};
    case 1: return {"", ""};
    case 2: return {"t '", "' &"};
    default: return {std::string(form, 'x') + " ", ""};
  }
}
__attribute__((noinline)) static void caller()
{
  attach_gdb();
  asm volatile("");
}
static void* volatile caller_addr = (void*)&caller;

static void child(Scene const& s)
{
  auto x = xterm_setting(s.xterm_form);
  std::ofstream f(".libcwdrc");
  f << "silent = on\nchannels_default = on\n";
  if (s.gdb_len > 0) f << "gdb = " << gdb_setting(s.gdb_len) << "\n";
  f << "xterm = " << x.first << "%s" << x.second << "\n";
  f.close();
  unlink("gdb.cmds");
  Debug(main_reached());
  Debug(libcw_do.set_ostream(&std::cout));
  Debug(read_rcfile());
  Debug(libcw_do.on());
  for (int i = 0; i < s.obj_off; ++i) Debug(libcw_do.off());
  std::cout << "[start:" << getpid() << "]";
  Scene copy = s;
  scene = &copy;
  if (s.attach_at == 0) { /* attaches directly after the fork: see below */ }
  caller();
  scene = nullptr;
  std::cout << "[returned after " << polls << " polls, hook " << libcwd_attach_gdb_hook << "]";
  for (int i = 0; i < s.obj_off; ++i) Debug(libcw_do.on());
  Dout(dc::notice, "still on");
  Debug(libcw_do.off());
  Dout(dc::notice, "must be off");
  std::cout << "[forks " << forks << "]";
}
static void check(Scene const& s)
{
  if (!vx::take()) return;
  vx::describe(str(s));
  vx::sample(vx::g.desc);
  unlink("gdb.cmds");
  auto c = lw::forked([&] { child(s); }, 60);
  ++vx::g.transitions;
  vx::state(vx::hash(str(s)));
  std::string out = c.out;
  auto has = [&](std::string const& t) { return out.find(t) != std::string::npos; };
  auto bad = [&](std::string const& t) { vx::fail("attach_gdb", t + "; the process: " + c.how() + "\noutput:\n" + out.substr(0, 3000) + "\nerrors:\n" + c.err.substr(0, 2000)); };
  size_t p = out.find("[start:");
  if (p == std::string::npos) { bad("harness"); return; }
  std::string pid = std::to_string(atoi(out.c_str() + p + 7));
  auto x = xterm_setting(s.xterm_form);
  std::string command = gdb_setting(s.gdb_len) + " -n -x gdb.cmds /proc/" + pid + "/exe " + pid;
  std::string command2 = x.first + command + x.second;
  std::string cmds = slurp("gdb.cmds");
  unsigned long addr = 0;
  int n = 0;
  sscanf(cmds.c_str(), "b *%lx\nset *(int*)&libcwd_attach_gdb_hook=0\nc\n%n", &addr, &n);
  // Returned normally implies...
  auto fatal = [&](char const* what, std::string const& text) {
    if (!c.exited(180)) bad(std::string("should end with a fatal message, because ") + what);
    if (!s.obj_off || true) if (!has(text)) bad("the message should contain \"" + text + "\"");
    if (has("[system:")) bad("a command is run");
  };
  if (s.gdb_len == 0) { fatal("there is no setting for gdb", "value of keyword 'gdb' is empty. Did you call Debug(read_rcfile()) at all?"); return; }
  // The limits are those of the buffers; both sides of the limit are only told apart by what happens: never a command that is cut off.
  bool too_long_gdb = command.size() >= 256, too_long_x = command2.size() >= 512;
  if (too_long_gdb) { fatal("the setting for gdb is too long", "value of keyword 'gdb' too long"); return; }
  if (too_long_x) { fatal("the setting for xterm is too long", "value of keyword 'xterm' too long"); return; }
  if (n == 0 || (size_t)n != cmds.size() || addr <= (unsigned long)caller_addr || addr > (unsigned long)caller_addr + 64) bad("gdb.cmds does not break at the caller: " + cmds);
  if (s.obj_off == 0 && s.fork != Scene::CHILD && !has("Executing \"" + command2 + "\".")) bad("it should print: Executing \"" + command2 + "\".");
  if (has("[hook not set")) bad("the hook that the debugger clears is not set before the terminal is started");
  switch (s.fork)
  {
    case Scene::EAGAIN_: case Scene::ENOMEM_:
      if (!c.exited(180) || !has("fork(): ") || !has(s.fork == Scene::EAGAIN_ ? "EAGAIN" : "ENOMEM")) bad("should end with a fatal message, because fork failed");
      return;
    case Scene::CHILD:
    {
      if (!has("[system:" + command2 + "]")) bad("the command should be: " + command2);
      int r = s.system_ret;
      int want = r == -1 ? 255 : WIFSIGNALED(r) && (WTERMSIG(r) == SIGINT || WTERMSIG(r) == SIGQUIT) ? 126 : WEXITSTATUS(r);
      if (!c.exited(want)) bad("the child should end with exit code " + std::to_string(want));
      return;
    }
    default: break;
  }
  if (has("[system in the parent]")) bad("the command is run in the parent");
  bool ends = s.end_at >= 0 || s.echild;
  bool returned = c.exited(77), died = c.signaled(SIGABRT), waiting = c.exited(88);
  if (!returned && !died && !waiting) bad("it should return, wait or dump core");
  if (returned)
  {
    if (s.attach_at < 0) bad("it returned without that the debugger attached");
    int after = 0;
    sscanf(out.c_str() + std::min(out.size(), out.find("[returned after ")), "[returned after %d", &after);
    if (after < s.attach_at) bad("it returned before the debugger attached");
    if (after > s.attach_at + 3) bad("it waited on after the debugger attached");
    if (s.obj_off == 0 && !has("ATTACHED!")) bad("it should print ATTACHED!");
    if (!has("still on")) bad("debug output is off after it returned");
    if (has("must be off")) bad("debug output is more often on after it returned");
    if (!has("[forks 1]")) bad("one terminal should be started");
    if (!has("hook 0]")) bad("the hook is still set");
  }
  if (died)
  {
    if (!ends) bad("it gave up although the terminal did not end");
    if (s.attach_at >= 0 && !s.echild && s.attach_at < s.end_at) bad("it gave up although the debugger attached");
    if (!has("Failed to start gdb: 'xterm' terminated")) bad("the message should contain \"Failed to start gdb: 'xterm' terminated\"");
    if (s.echild) { if (!has("'xterm' terminated before attaching")) bad("the message tells how the terminal ended, which is not known"); }
    else if (WIFEXITED(s.status) ? !has("with exit code " + std::to_string(WEXITSTATUS(s.status)) + " before") : !has("(uncaught) signal " + std::to_string(WTERMSIG(s.status)) + " before")) bad("the message does not say how the terminal ended");
    if (has("[returned")) bad("it returned and dumped core");
  }
  if (waiting)
  {
    if (s.attach_at >= 0) bad("it keeps waiting after the debugger attached");
    if (s.echild || (s.end_at >= 0 && s.end_at < far - 200 && s.intr_until < far - 200)) bad("it keeps waiting after the terminal ended");
  }
  vx::outcome(returned ? "returned" : died ? "core" + std::to_string(s.status) : "waiting");
}

int main(int argc, char** argv)
{
  vx::init(argc, argv);
  bool th = vx::g.thorough;
  // Answers of the parent.
  std::vector<int> statuses = {0, 1 << 8, 127 << 8, 255 << 8, 9, 2, 11, 11 | 128};
  for (int off = 0; off < 2; ++off)
    for (int attach = -1; attach <= 130; attach += (attach >= 45 && attach < 56) || th ? 1 : 3)
    {
      if (attach == 0) continue;
      Scene s;
      s.obj_off = off;
      s.attach_at = attach;
      check(s);
      for (int end = 0; end <= 130; end += (end >= 46 && end < 56) || th ? 1 : 6)
      {
        s.end_at = end;
        for (int st : statuses)
        {
          if (!th && off && st) continue;
          s.status = st;
          check(s);
          if (!th && st) continue;
          for (int intr : {52, 60}) { Scene q = s; q.intr_until = intr; check(q); }
        }
      }
      Scene e;
      e.obj_off = off; e.attach_at = attach; e.echild = true;
      check(e);
    }
  // The child.
  for (int f = 0; f < 3; ++f)
    for (int ret = -1; ret < 256; ret += 1)
      { Scene s; s.fork = Scene::CHILD; s.xterm_form = f; s.system_ret = ret < 0 ? -1 : ret << 8; check(s); }
  for (int sig = 1; sig < 65; ++sig) { Scene s; s.fork = Scene::CHILD; s.system_ret = sig; check(s); s.system_ret = sig | 128; check(s); }
  // fork fails.
  for (auto f : {Scene::EAGAIN_, Scene::ENOMEM_}) for (int off = 0; off < 2; ++off) { Scene s; s.fork = f; s.obj_off = off; check(s); }
  // Lengths.
  for (int len = 0; len <= 270; ++len)
    for (auto f : {Scene::PARENT, Scene::CHILD})
    {
      Scene s; s.fork = f; s.attach_at = 1; s.gdb_len = len;
      if (len > 0 && len < 3) s.gdb_len = len;
      check(s);
    }
  for (int len = 3; len <= 530; ++len)
    for (int g : {8, 200})
      for (auto f : {Scene::PARENT, Scene::CHILD})
      {
        Scene s; s.fork = f; s.attach_at = 1; s.gdb_len = g; s.xterm_form = len;
        check(s);
      }
  vx::done();
}
