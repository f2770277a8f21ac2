// C15: strerrno over a wide window of integers, and error_cf for every error number.
#include "cwd_sys.h"
#include <libcwd/debug.h>
#include <libcwd/strerrno.h>
#include "vx.h"
#include <cerrno>
#include <climits>
#include <sstream>
#include <thread>

// Independent source of the names: the C library.
extern "C" char const* strerrorname_np(int) noexcept;

static bool valid_name(int n, std::string const& got)
{
  if (n == 0) return got == "0";
  // Names that are synonyms on Linux are both acceptable names of the number.
  if (n == EAGAIN) return got == "EAGAIN" || got == "EWOULDBLOCK";
  if (n == EDEADLK) return got == "EDEADLK" || got == "EDEADLOCK";
  if (n == EOPNOTSUPP) return got == "EOPNOTSUPP" || got == "ENOTSUP";
  char const* w = strerrorname_np(n);
  if (w) return got == w;
  if (n == 41) return got == "EWOULDBLOCK";     // Reserved slot: never an errno value on Linux.
  if (n == 58) return got == "EDEADLOCK";       // Idem.
  return got == "UNKNOWN ERROR";
}

struct Env { std::ostringstream os; std::mutex m; };

int main(int argc, char** argv)
{
  vx::init(argc, argv);
  Debug(main_reached());
  auto num = [&](long long v) {
    if (!vx::take()) return;
    int n = (int)v;
    std::string d = "strerrno(" + std::to_string(n) + ")";
    if (vx::verbose()) vx::describe(d);
    errno = 4;
    char const* r = libcwd::strerrno(n);
    ++vx::g.transitions; ++vx::g.traces; ++vx::g.evals;
    vx::g.states.insert((uint64_t)(uint32_t)n);
    std::string got = r ? r : "(null pointer)";
    vx::outcome(got);
    if (!valid_name(n, got)) { vx::describe(d); vx::fail(d, "returned \"" + got + "\""); }
    if (n == 17) vx::sample(d + " = " + got);
  };
  long win = vx::g.thorough ? 50000000 : 2000000;
  for (long n = -win; n <= win; ++n) num(n);
  for (int k = 0; k < 32; ++k) for (long d = -300; d <= 300; ++d) { num((long long)INT_MIN + ((1LL << k) - 1) + d + 300); num((long long)INT_MAX - ((1LL << k) - 1) - d - 300 >= INT_MIN ? INT_MAX - ((1LL << k) - 1) - (d + 300) : 0); }
  // error_cf: errno at statement entry, also when operands change errno, and errno is preserved.
  Debug(libcw_do.on());
  Debug(while (!dc::notice.is_on()) dc::notice.on());
  std::ostringstream os; std::mutex m;
  libcwd::libcw_do.set_ostream(&os, &m);
  for (int n = -3; n <= 200; ++n)
    for (int op = 0; op < 4; ++op)
    {
      if (!vx::take()) continue;
      static char const* on[] = {"plain", "operand sets errno", "nested Dout in operand", "nested error_cf in operand"};
      std::string d = "Dout(dc::notice|error_cf, ...) with errno " + std::to_string(n) + ", " + on[op];
      if (vx::verbose()) vx::describe(d);
      os.str("");
      auto set = [](int e) { errno = e; return "x"; };
      auto nested = [](int e) { errno = e; Dout(dc::notice, "in"); return "x"; };
      auto nested_e = [](int e) { errno = e; Dout(dc::notice | error_cf, "in"); return "x"; };
      errno = n;
      switch (op)
      {
        case 0: Dout(dc::notice | error_cf, "x"); break;
        case 1: Dout(dc::notice | error_cf, set(5)); break;
        case 2: Dout(dc::notice | error_cf, nested(5)); break;
        case 3: Dout(dc::notice | error_cf, nested_e(5)); break;
      }
      int after = errno;
      std::string name = libcwd::strerrno(n);
      std::string inner = op == 2 ? "NOTICE  :     in\n" : op == 3 ? std::string("NOTICE  :     in: EIO (") + strerror(5) + ")\n" : "";
      std::string want = inner + "NOTICE  : x: " + name + " (" + strerror(n) + ")\n";
      ++vx::g.transitions; ++vx::g.traces; ++vx::g.evals;
      vx::state(vx::hash(d));
      vx::outcome(os.str());
      if (os.str() != want) { vx::describe(d); vx::fail(d, "wrote \"" + os.str() + "\", expected \"" + want + "\""); }
      if (op == 0 && after != n) { vx::describe(d); vx::fail(d, "errno changed from " + std::to_string(n) + " to " + std::to_string(after)); }
    }
  vx::done();
}
