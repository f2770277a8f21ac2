// C28: statements that contain debug macros, compiled without CWDEBUG, against the same without them.
#include "c28.h"
#include "vx.h"
#include <sys/wait.h>
#include <sstream>
#include <map>
#include <fstream>
#include <fcntl.h>
#include <sys/mman.h>

struct Trace { int n; int ev[200]; int nids, ids[64]; };
static Trace* tr;
static unsigned input;
static std::map<int, int> loops;
// Conditions that were evaluated; in shared memory because fatal statements run in a child process.
static int bit(int n)
{
  int i = 0;
  while (i < tr->nids && tr->ids[i] != n) ++i;
  if (i == tr->nids) { if (i == 64) abort(); tr->ids[tr->nids++] = n; }
  return input >> i & 1;
}
static void ev(int e) { if (tr->n < 200) tr->ev[tr->n++] = e; else { vx::fail("loop", "endless loop"); _exit(3); } }
int t(int e) { ev(e); return e; }
int c(int n) { ev(n + 1000); return bit(n); }
int w(int n) { ev(n + 2000); return bit(n) && ++loops[n] % 2; }
void fatal_ref(std::function<void(std::ostream&)> const& f)
{
  std::ostringstream o;
  f(o);
  std::string s = o.str() + "\n";
  if (write(2, s.data(), s.size()) < 0) {}
  std::exit(EXIT_FAILURE);
}
static void at_exit() { ev(9999); }

static std::string run(Entry const& e)
{
  loops.clear(); tr->nids = 0;
  tr->n = 0;
  std::string out;
  if (!e.fatal) e.f();
  else
  {
    int p[2];
    if (pipe(p)) abort();
    fflush(nullptr);
    pid_t pid = fork();
    if (!pid)
    {
      dup2(p[1], 2); close(p[0]); close(p[1]);
      atexit(at_exit);
      alarm(10);
      e.f();
      ev(8888);         // Returned.
      _exit(77);
    }
    close(p[1]);
    char buf[4096];
    for (ssize_t n; (n = read(p[0], buf, sizeof buf)) > 0; ) out.append(buf, n);
    close(p[0]);
    int st;
    waitpid(pid, &st, 0);
    out += "|" + std::to_string(st);
  }
  for (int i = 0; i < tr->n; ++i) out += " " + std::to_string(tr->ev[i]);
  return out;
}

#define GROUPS X(0) X(1) X(2) X(3) X(4) X(5) X(6) X(7)
#define X(n) extern Entry nd##n[], ref##n[];
GROUPS
#undef X
#define X(n) nd##n,
static Entry* const nd[] = { GROUPS };
#undef X
#define X(n) ref##n,
static Entry* const ref[] = { GROUPS };
#undef X

int main(int argc, char** argv)
{
  vx::init(argc, argv);
  tr = (Trace*)mmap(nullptr, sizeof(Trace), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  for (int g = 0; g < 8; ++g)
  {
    if (!nd[g][0].f && vx::take()) vx::fail("compile", nd[g][0].text);
    for (int i = 0; nd[g][i].f; ++i)
    {
      if (!vx::take()) continue;
      Entry const &a = nd[g][i], &b = ref[g][i];
      for (input = 0; ; ++input)
      {
        if (vx::verbose()) vx::describe(std::string(a.text) + "   with conditions " + std::to_string(input));
        std::string x = run(a), y = run(b);
        vx::state(std::hash<std::string>()(x + a.text));
        vx::outcome(x);
        ++vx::g.transitions;
        if (x != y) vx::fail("differs", std::string("compiled with nodebug.h: ") + a.text + "\n  gives the trace: " + x + "\n  instead of:      " + y);
        if ((input + 1) >> tr->nids) break;
      }
      if (i % 500 == 0) vx::sample(a.text);
    }
  }
  // The generated code.
  for (std::string o : {"g++-O0", "g++-O2", "clang++-O0", "clang++-O2"})
  {
    if (!vx::take()) continue;
    auto get = [&](std::string n) { std::ifstream f(std::string(getenv("VX_CODE")) + "/" + n + "." + o + ".bin"); std::ostringstream s; s << f.rdbuf(); return s.str(); };
    std::string a = get("code_nd"), b = get("code_ref");
    if (vx::verbose()) vx::describe("code generated by " + o);
    vx::sample("code generated by " + o + " with and without macros: " + std::to_string(a.size()) + " bytes");
    if (b.size() < 1000) { fprintf(stderr, "no code?\n"); return 2; }
    if (a != b) vx::fail("code", "the code that " + o + " generates with the macros differs from that without");
    vx::state(std::hash<std::string>()(o));
  }
  vx::done();
}
