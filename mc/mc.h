// Exploration of all schedules, up to a number of preemptions, of a piece of real code.
#pragma once
#include "vx.h"
#include "mcrt.h"
#include <functional>
#include <dlfcn.h>
#include <poll.h>
#include <signal.h>
#include <sys/wait.h>

namespace mc {

struct Result
{
  int status, code, tid, how;   // how: the wait status of the process.
  std::string msg, log;
  uint64_t preemptions;
  bool finished() const { return status == mcrt::FINISHED; }
  std::string str() const
  {
    static char const* const n[] = {"ended abnormally", "finished", "deadlock", "livelock", "use after free", "diverged", "abort", "exit", "wrong unlock", "all threads sleep", "engine limit", "failed", "double free", "race"};
    std::string s = status == mcrt::RUNNING ? (WIFSIGNALED(how) ? "killed by signal " + std::to_string(WTERMSIG(how)) : "ended with wait status " + std::to_string(how)) : n[status];
    if (status == mcrt::EXITED) s += " status " + std::to_string(code);
    if (!msg.empty()) s += ": " + msg;
    if (tid > 0 || (status != mcrt::FINISHED && tid == 0)) s += " (thread " + std::to_string(tid) + ")";
    return s;
  }
};

inline mcrt::Shared* shared()
{
  static mcrt::Shared* p = (mcrt::Shared*)mmap(nullptr, sizeof(mcrt::Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  return p;
}

inline std::string symbolize(uint64_t pc)
{
  Dl_info i;
  if (!pc || !dladdr((void*)pc, &i) || !i.dli_fname) return "?";
  char cmd[400], buf[500];
  snprintf(cmd, sizeof cmd, "addr2line -Cfip -e '%s' %#lx 2>/dev/null", i.dli_fname[0] == '/' ? i.dli_fname : "/proc/self/exe", (unsigned long)(pc - 1 - (uint64_t)i.dli_fbase));
  std::string r;
  if (FILE* f = popen(cmd, "r")) { while (fgets(buf, sizeof buf, f)) r += buf; pclose(f); }
  for (char& c : r) if (c == '\n') c = ' ';
  return r.substr(0, 400);
}

// A process that executes body again and again, with the given choices.
struct Runner
{
  std::function<void()> const& body;
  int per_process;              // Number of executions per process.
  pid_t pid = -1;
  int cmd = -1, ack = -1, used = 0;
  Runner(std::function<void()> const& body, int per_process) : body(body), per_process(per_process) { }
  ~Runner() { stop(); }
  void stop()
  {
    if (pid < 0) return;
    close(cmd); close(ack);
    kill(pid, SIGKILL);
    int st;
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR) ;
    pid = -1;
  }
  void start()
  {
    int a[2], b[2];
    if (pipe(a) || pipe(b)) { perror("pipe"); _exit(2); }
    fflush(stdout); fflush(stderr);
    pid = fork();
    if (pid < 0) { perror("fork"); _exit(2); }
    if (pid == 0)
    {
      close(a[1]); close(b[0]);
      char c;
      if (read(a[0], &c, 1) != 1) _exit(0);
      for (mc_begin(shared());; mc_restart())
      {
        body();
        mc_end();
        if (write(b[1], &c, 1) != 1 || read(a[0], &c, 1) != 1) _exit(0);
      }
    }
    close(a[0]); close(b[1]);
    cmd = a[1]; ack = b[0];
    used = 0;
  }
  Result run(std::vector<uint8_t> const& prefix, int bound)
  {
    mcrt::Shared* s = shared();
    s->bound = bound;
    s->once = per_process == 1;
    s->nprefix = prefix.size();
    if (!prefix.empty()) memcpy(s->prefix, prefix.data(), prefix.size());
    s->learned_new = 0; s->nchoices = 0; s->points = s->switches = s->accesses = s->preemptions = 0;
    s->status = mcrt::RUNNING; s->code = 0; s->tid = 0; s->msg[0] = 0; s->loglen = 0; s->tracelen = 0;
    if (pid >= 0 && used >= per_process) stop();
    if (pid < 0) start();
    ++used;
    char c = 0;
    int st = 0;
    if (write(cmd, &c, 1) != 1) { perror("write"); _exit(2); }
    struct pollfd pf = {ack, POLLIN, 0};
    int pr;
    while ((pr = poll(&pf, 1, 120000)) < 0 && errno == EINTR) ;
    if (pr == 0) { kill(pid, SIGKILL); strcpy(s->msg, "hangs"); }
    if (pr == 0 || read(ack, &c, 1) != 1)
    {
      // The process ended.
      close(cmd); close(ack);
      while (waitpid(pid, &st, 0) < 0 && errno == EINTR) ;
      pid = -1;
    }
    Result r;
    r.how = st;
    r.status = s->status; r.code = s->code; r.tid = s->tid; r.msg = s->msg; r.preemptions = s->preemptions;
    r.log.assign(s->log, s->loglen);
    return r;
  }
};
// Report data races in the program that is explored.
inline void report_races(bool on) { shared()->races = on; }
struct Setup { Setup() { mc_setup(1); } ~Setup() { mc_setup(0); } };

struct Stats { uint64_t schedules = 0, points = 0, preempted = 0, restarts = 0, max_choices = 0, diverged = 0; };

// Explore everything.  oracle returns an empty string when the result is right.
// The caller did vx::take() and vx::describe().
inline Stats explore(std::function<void()> const& body, std::function<std::string(Result const&)> const& oracle, int bound, char const* key = "schedule", int per_process = 2000, uint64_t limit = 20000000)
{
  mc_setup(0);
  Runner runner(body, per_process);
  mcrt::Shared* s = shared();
  memset(s->learned, 0, sizeof s->learned);
  s->nlearned = 0;
  Stats st;
  std::vector<uint8_t> prefix;
  auto scenario = vx::hash(vx::g.desc);
  for (;;)
  {
    Result r = runner.run(prefix, bound);
    // What is not under control (the addresses that the C library and the dynamic loader choose) can make a difference.
    for (int again = 0; r.status == mcrt::DIVERGED && again < 5; ++again) { runner.stop(); r = runner.run(prefix, bound); ++st.diverged; }
    std::vector<uint8_t> n(s->n, s->n + s->nchoices), picked(s->picked, s->picked + s->nchoices);
    bool relearn = s->learned_new;
    ++st.schedules; st.points += s->points; if (s->preemptions) ++st.preempted;
    ++vx::g.cases; vx::g.transitions += s->points;
    st.max_choices = std::max<uint64_t>(st.max_choices, n.size());
    vx::state(vx::hash(picked.data(), picked.size(), scenario));
    vx::outcome(r.log + std::to_string(r.status));
    if (r.status == mcrt::DIVERGED || r.status == mcrt::OVERFLOW_) { fprintf(stderr, "engine: %s in %s\n", r.str().c_str(), vx::g.desc.c_str()); _exit(2); }
    std::string err = oracle(r);
    if (!err.empty())
    {
      std::string sched;
      std::vector<std::pair<std::pair<int, int>, uint64_t>> tr;
      static char const* const kn[] = {"", "lock", "unlock", "atomic access", "memory access", "point", "yield", "blocks", "end of thread", "", ""};
      for (uint32_t i = 0; i < s->tracelen && i < 60; ++i)
      {
        auto& e = s->trace[i];
        sched += "    thread " + std::to_string(e.from) + " -> thread " + std::to_string(e.to) + " at " + kn[e.kind] + " " + (e.kind == 5 ? std::string((char const*)e.pc) : e.kind == 8 ? "" : symbolize(e.pc)) + "\n";
      }
      if (auto p = r.msg.find("pc=0x"); p != std::string::npos) sched += "    pc: " + symbolize(strtoull(r.msg.c_str() + p + 3, nullptr, 16)) + "\n";
      // The same choices must give the same again.
      Result r2;
      std::string err2;
      for (int again = 0; again < 5 && err2.empty(); ++again)
      {
        runner.stop();
        r2 = runner.run(picked, bound);
        err2 = r2.status == mcrt::DIVERGED ? "" : oracle(r2);
      }
      if (err2.empty()) { fprintf(stderr, "engine: not reproducible: %s\n%s\nand\n%s\n%s\n", err.c_str(), r.log.c_str(), err2.c_str(), r2.log.c_str()); _exit(2); }
      vx::fail(key, err + "\n  result: " + r.str() + "\n  log: " + r.log.substr(0, 3000) + "\n  schedule (" + std::to_string(r.preemptions) + " preemptions, execution " + std::to_string(st.schedules) + "):\n" + sched);
    }
    if (relearn) { prefix.clear(); ++st.restarts; if (st.restarts > 2000) { fprintf(stderr, "engine: no fixed point in %s\n", vx::g.desc.c_str()); _exit(2); } continue; }
    int i = (int)n.size() - 1;
    while (i >= 0 && picked[i] + 1 >= n[i]) --i;
    if (i < 0) break;
    prefix.assign(picked.begin(), picked.begin() + i + 1);
    ++prefix[i];
    if (st.schedules > limit) { fprintf(stderr, "engine: too many schedules in %s\n", vx::g.desc.c_str()); _exit(2); }
  }
  vx::g.traces += st.schedules;
  return st;
}

} // namespace mc
