// C31: statements that contain debug macros, compiled with CWDEBUG, against the same with functions instead of macros.
#include "c31.h"
#include "lw.h"
#include <fcntl.h>
#include <sstream>
#include <sys/mman.h>
#include <sys/wait.h>

// In shared memory: some programs are run in a child process.
struct Shared { int nids; int ids[64]; int nloops; int loop_ids[64], loops[64]; size_t len; char text[60000]; };
static Shared* sh;
static unsigned long input;
static void add(std::string const& s)
{
  if (sh->len + s.size() > sizeof sh->text - 1) { vx::fail("loop", "endless loop"); _exit(3); }
  memcpy(sh->text + sh->len, s.data(), s.size());
  sh->len += s.size();
}
static int bit(int n)
{
  int i = 0;
  while (i < sh->nids && sh->ids[i] != n) ++i;
  if (i == sh->nids) { if (i == 64) abort(); sh->ids[sh->nids++] = n; }
  return input >> i & 1;
}
int t(int e) { int err = errno; add(" " + std::to_string(e)); errno = err; return e; }
int c(int n) { t(n + 10000); return bit(n); }
int w(int n)
{
  t(n + 20000);
  int i = 0;
  while (i < sh->nloops && sh->loop_ids[i] != n) ++i;
  if (i == sh->nloops) { if (i == 64) abort(); sh->loop_ids[i] = n; sh->loops[i] = 0; ++sh->nloops; }
  return bit(n) && ++sh->loops[i] % 2;
}
// The switches: all are on, unless the (negated) bit says otherwise.
static bool is_on(int n) { return !bit(100 + n); }
static bool object_on(int n) { return !bit(200 + n); }

namespace app::channels::dc { Channel mine("AMINE"); Channel warning("AWARN"); }
namespace lib { libcwd::DebugObject dobj; namespace channels::dc { libcwd::Channel mine("LMINE"); } }
static libcwd::Channel* const chan[] = {&libcwd::channels::dc::notice, &libcwd::channels::dc::warning, &app::channels::dc::mine, &app::channels::dc::warning, &lib::channels::dc::mine};
static char const* const label[] = {"NOTICE", "WARNING", "AMINE", "AWARN", "LMINE"};
static libcwd::DebugObject* const obj[] = {&libcwd::libcw_do, &lib::dobj};

static void line(int o, std::string const& l, std::string const& text) { add(" [" + std::to_string(o) + l + ": " + text + "]"); }
// What is written to a debug object.
struct Sink : std::streambuf
{
  int no; std::string cur;
  explicit Sink(int n) : no(n) { }
  int_type overflow(int_type ch) override
  {
    int err = errno;
    if (ch != '\n') cur += (char)ch;
    else
    {
      // Remove the padding of the label.
      size_t p = cur.find(": "), q = p;
      if (p == std::string::npos) line(no, "?", cur);
      else { while (q > 0 && cur[q - 1] == ' ') --q; line(no, cur.substr(0, q), cur.substr(p + 2)); }
      cur.clear();
    }
    errno = err;
    return ch;
  }
};
static Sink sink0(0), sink1(1);
static std::ostream os0(&sink0), os1(&sink1);

static int indent, depth[2];     // Messages that are written while the arguments of another are evaluated are indented (C03).
void ref_dout(int o, std::initializer_list<int> channels, std::function<bool()> const& cond_error, Writer const& wr)
{
  if (!object_on(o)) return;
  bool err = cond_error && cond_error();
  for (int ch : channels) if (is_on(ch))
  {
    std::ostringstream s;
    s << std::boolalpha;
    ++depth[o];
    wr(s);
    --depth[o];
    line(o, label[ch], std::string((o ? 0 : indent) + 4 * depth[o], ' ') + s.str() + (err ? ": EINTR (Interrupted system call)" : ""));
    return;
  }
}
void ref_fatal(int o, Writer const& wr)
{
  std::ostringstream s;
  s << std::boolalpha;
  wr(s);
  line(o, "FATAL", std::string(o ? 0 : indent, ' ') + s.str());
  _exit(180);
}
RefScope::RefScope(int channel, Writer const& wr)
{
  ref_dout(0, {channel}, nullptr, [&](std::ostream& o) { o << "Entering "; wr(o); });
  indent += 2;
}
RefScope::~RefScope() { indent -= 2; }
int nest(int e)
{
  t(e);
  Dout(dc::notice, 10 << true);
  LibcwDout(lib::channels, lib::dobj, dc::mine, 11);
  return e;
}
int ref_nest(int e)
{
  t(e);
  REF(0, {NOTICE}, 10 << true);
  REF(1, {LIB_MINE}, 11);
  return e;
}

static std::string run(Entry const& e, bool ref)
{
  sh->nloops = 0;
  sh->len = 0;
  indent = 0;
  if (!ref)
  {
    // Only what the reference asked for matters.
    auto off = [&](int n) { for (int i = 0; i < sh->nids; ++i) if (sh->ids[i] == n) return input >> i & 1; return 0ul; };
    for (int i = 0; i < 5; ++i) { bool want = !off(100 + i); if (chan[i]->is_on() != want) want ? chan[i]->on() : chan[i]->off(); }
    for (int i = 0; i < 2; ++i) { bool want = !off(200 + i); if (obj[i]->is_on(LIBCWD_TSD_INSTANCE) != want) want ? obj[i]->on() : obj[i]->off(); }
  }
  std::string end;
  errno = EINTR;
  if (!e.fatal) e.f();
  else
  {
    fflush(nullptr);
    pid_t pid = fork();
    if (!pid)
    {
      int nul = open("/dev/null", O_WRONLY);
      dup2(nul, 2);
      alarm(10);
      errno = EINTR;
      e.f();
      _exit(77);        // Returned.
    }
    int st;
    waitpid(pid, &st, 0);
    end = "|" + std::to_string(st);
  }
  if (!ref)
  {
    if (!sink0.cur.empty() || !sink1.cur.empty()) end += "|unfinished " + sink0.cur + sink1.cur;
    sink0.cur.clear(); sink1.cur.clear();
    if (libcwd::libcw_do.get_indent() || lib::dobj.get_indent()) { end += "|indentation " + std::to_string(libcwd::libcw_do.get_indent()); libcwd::libcw_do.set_indent(0); lib::dobj.set_indent(0); }
    for (int i = 0; i < 5; ++i) { bool was = true; for (int k = 0; k < sh->nids; ++k) if (sh->ids[k] == 100 + i) was = !(input >> k & 1); if (chan[i]->is_on() != was) end += std::string("|") + label[i] + " was changed"; }
    for (int i = 0; i < 2; ++i) { bool was = true; for (int k = 0; k < sh->nids; ++k) if (sh->ids[k] == 200 + i) was = !(input >> k & 1); if (obj[i]->is_on(LIBCWD_TSD_INSTANCE) != was) end += "|object " + std::to_string(i) + " was changed"; }
  }
  return std::string(sh->text, sh->len) + end;
}

#define GROUPS X(0) X(1) X(2) X(3) X(4) X(5) X(6) X(7) X(8) X(9) X(10) X(11) X(12) X(13) X(14) X(15)
#define X(n) extern Entry real##n[], ref##n[];
GROUPS
#undef X
#define X(n) real##n,
static Entry* const real[] = { GROUPS };
#undef X
#define X(n) ref##n,
static Entry* const refs[] = { GROUPS };
#undef X

int main(int argc, char** argv)
{
  vx::init(argc, argv);
  Debug(main_reached());
  libcwd::libcw_do.set_ostream(&os0);
  lib::dobj.set_ostream(&os1);
  sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  for (int g = 0; g < 16; ++g)
  {
    if (!real[g][0].f && vx::take()) vx::fail("compile", real[g][0].text);
    for (int i = 0; real[g][i].f; ++i)
    {
      if (!vx::take()) continue;
      Entry const &a = real[g][i], &b = refs[g][i];
      sh->nids = 0;
      for (input = 0; ; ++input)
      {
        if (vx::verbose()) vx::describe(std::string(a.text) + "   with conditions and switches " + std::to_string(input));
        std::string y = run(b, true), x = run(a, false);
        vx::state(std::hash<std::string>()(x + a.text));
        vx::outcome(x);
        ++vx::g.transitions;
        if (x != y) vx::fail("differs", std::string(a.text) + "\n  gives the trace: " + x + "\n  instead of:      " + y);
        if ((input + 1) >> sh->nids) break;
      }
      if (i % 200 == 0) vx::sample(a.text);
    }
  }
  vx::done();
}
