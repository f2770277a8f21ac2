// Support for harnesses that drive the complete library.
#pragma once
#include <cerrno>
#include "cwd_sys.h"
#include <libcwd/debug.h>
#include "vx.h"
#include <functional>
#include <iostream>
#include <mutex>
#include <poll.h>
#include <signal.h>
#include <sstream>
#include <sys/wait.h>
#include <thread>

namespace lw {

// A streambuf that records everything and the position of each flush.
class Rec : public std::streambuf
{
 public:
  std::string text;
  unsigned flushes = 0;
  std::string marked;           // As text, with \1 at each flush.
  int clobber = 0;              // What writing does to errno, if anything.
  void clear() { text.clear(); marked.clear(); flushes = 0; }
 protected:
  int overflow(int c) override { if (clobber) errno = clobber; if (c != EOF) { text += (char)c; marked += (char)c; } return c; }
  std::streamsize xsputn(char const* s, std::streamsize n) override { if (clobber) errno = clobber; text.append(s, n); marked.append(s, n); return n; }
  int sync() override { if (clobber) errno = clobber; ++flushes; marked += '\1'; return 0; }
};

// Run f in a new thread: a fresh debug state.
template <class F>
inline void fresh(F f) { std::thread t(f); t.join(); }

struct Child
{
  int status = 0;
  bool hung = false;
  std::string out, err;
  bool exited(int code) const { return !hung && WIFEXITED(status) && WEXITSTATUS(status) == code; }
  bool signaled(int sig) const { return !hung && WIFSIGNALED(status) && WTERMSIG(status) == sig; }
  std::string how() const
  {
    if (hung) return "did not terminate";
    if (WIFEXITED(status)) return "exit status " + std::to_string(WEXITSTATUS(status));
    return "signal " + std::to_string(WTERMSIG(status));
  }
};

// Run f in a forked child with stdout and stderr captured.
template <class F>
inline Child forked(F f, int timeout_s = 20)
{
  int po[2], pe[2];
  if (pipe(po) || pipe(pe)) { perror("pipe"); _exit(2); }
  fflush(stdout); fflush(stderr);
  pid_t pid = fork();
  if (pid < 0) { perror("fork"); _exit(2); }
  if (pid == 0)
  {
    dup2(po[1], 1); dup2(pe[1], 2);
    for (int fd : {po[0], po[1], pe[0], pe[1]}) close(fd);
    f();
    std::cout.flush(); std::cerr.flush(); fflush(stdout); fflush(stderr);
    _exit(77);          // Returned normally.
  }
  close(po[1]); close(pe[1]);
  Child c;
  struct pollfd p[2] = {{po[0], POLLIN, 0}, {pe[0], POLLIN, 0}};
  int open = 2;
  time_t end = time(nullptr) + timeout_s;
  char buf[4096];
  while (open)
  {
    int r = poll(p, 2, 500);
    if (r < 0 && errno != EINTR) break;
    if (time(nullptr) > end) { c.hung = true; kill(pid, SIGKILL); break; }
    for (int i = 0; i < 2; ++i)
      if (p[i].fd >= 0 && p[i].revents)
      {
        ssize_t n = read(p[i].fd, buf, sizeof buf);
        if (n > 0) { std::string& s = i ? c.err : c.out; if (s.size() < 200000) s.append(buf, n); else { c.hung = true; kill(pid, SIGKILL); } }
        else { p[i].fd = -1; --open; }
      }
  }
  waitpid(pid, &c.status, 0);
  close(po[0]); close(pe[0]);
  return c;
}

inline std::string quoted(std::string const& s) { return vx::q(s); }

} // namespace lw

#include "newch.h"
