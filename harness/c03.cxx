// C03: nested and continued output.  All programs up to a size, against a stack model.
#include "lw.h"
#include <cerrno>
#include <libcwd/strerrno.h>
#include <memory>
using namespace libcwd;

enum K { P, S, C, F, So, CF, PF, PN, PE, O, SF, SE, FF, FN, FE, PR, KN };
static char const* const kname[] = {"plain", "continued_cf", "continued", "finish", "off|continued_cf", "continued|flush", "plain|flush", "plain|nonewline", "plain|cerr", "off", "continued_cf|flush",
  "continued_cf|cerr", "finish|flush", "finish|nonewline", "finish|error", "plain|error"};
static bool starts(K k) { return k == S || k == SF || k == SE || k == So; }
static bool conts(K k) { return k == C || k == CF; }
static bool fins(K k) { return k == F || k == FF || k == FN || k == FE; }

struct Node { K k; std::vector<Node> kids; };
using Block = std::vector<Node>;

static std::string show(Block const& b)
{
  std::string r;
  for (auto& n : b) { if (!r.empty()) r += "; "; r += kname[n.k]; if (!n.kids.empty()) r += " << [" + show(n.kids) + "]"; }
  return r;
}

static Channel *cs, *cw, *co;
static std::string const LS = "SHORT       ", LW = "TWELVE_CHARS";
static lw::Rec rec, erec;
static std::mutex mut;

struct Cfg { std::string con, coff, margin, marker; unsigned short indent; bool always_flush; };
static Cfg const cfgs[] = {{"", "", "", ": ", 0, false}, {"\033[1m", "\033[m", "M|", "> ", 3, false}, {"<", ">", "", ": ", 0, true}};

// The model.
struct Model
{
  struct Msg { std::string prefix, pend; bool armed = true, cont = false, cerr = false, flush = false, off = false; };
  Cfg const& c;
  std::vector<Msg*> open;
  std::string out, err;
  std::vector<std::string> after;       // Both streams after each statement that ends at the outermost level.
  int id = 0;
  Model(Cfg const& c) : c(c) { }
  std::string& dst(Msg const& m) { return m.cerr ? err : out; }
  std::unique_ptr<Msg> start(K k)
  {
    auto m = std::make_unique<Msg>();
    m->cont = starts(k); m->cerr = k == PE || k == SE; m->flush = k == PF || k == SF || c.always_flush;
    if (!open.empty())
    {
      Msg& t = *open.back();
      if (t.cont && t.armed)
      {
        dst(t) += t.pend + c.coff + "<unfinished>\n";
        t.pend = t.prefix + c.coff + "<continued>" + c.con + " ";
      }
      t.armed = false;
      m->cerr = m->cerr || t.cerr;
    }
    m->prefix = m->pend = c.con + c.margin + (k == P ? LS : LW) + c.marker + std::string(c.indent + 4 * open.size(), ' ');
    open.push_back(m.get());
    return m;
  }
  void finish(Msg& m)
  {
    dst(m) += m.pend;
    open.pop_back();
    if (!open.empty() && m.flush) open.back()->flush = true;
  }
  // The value of errno is that at the start of the last part.
  static int err_of(int id) { return id % 3 ? 17 + id : 0; }
  void body(Msg& m, Node const& n)
  {
    std::string l(1, 'a' + id++);
    m.pend += l + "(";
    block(n.kids, false);
    m.pend += ")" + l;
  }
  void block(Block const& b, bool top)
  {
    std::vector<std::unique_ptr<Msg>> pending;
    for (auto& n : b)
    {
      if (n.k == So) { pending.push_back(std::make_unique<Msg>()); pending.back()->off = true; ++id; }
      else if (n.k == O) ++id;
      else if (starts(n.k))
      {
        auto m = start(n.k);
        body(*m, n);
        if (m->flush) { dst(*m) += m->pend; m->pend.clear(); }
        pending.push_back(std::move(m));
      }
      else if (conts(n.k))
      {
        Msg& m = *pending.back();
        if (m.off) ++id;
        else
        {
          m.flush = m.flush || n.k == CF;
          body(m, n);
          m.armed = true;
          if (m.flush) { dst(m) += m.pend; m.pend.clear(); }
        }
      }
      else if (fins(n.k))
      {
        Msg& m = *pending.back();
        if (m.off) ++id;
        else
        {
          int me = id;
          if (n.k == FF) m.flush = true;
          body(m, n);
          if (n.k == FE) m.pend += std::string(": ") + strerrno(err_of(me)) + " (" + strerror(err_of(me)) + ")";
          if (n.k != FN) m.pend += c.coff + "\n";
          finish(m);
        }
        pending.pop_back();
      }
      else
      {
        auto m = start(n.k);
        int me = id;
        body(*m, n);
        if (n.k == PR) m->pend += std::string(": ") + strerrno(err_of(me)) + " (" + strerror(err_of(me)) + ")";
        if (n.k != PN) m->pend += c.coff + "\n";
        finish(*m);
      }
      if (top) after.push_back(out + "\2" + err);
    }
  }
};

// The real thing.
static std::vector<std::string> got;
static int rid;
static std::string problem;
static int depth;

static void flushed(char const* what, size_t before)
{
  if (problem.empty() && rec.marked.size() != before && !rec.marked.empty() && rec.marked.back() != '\1') problem = std::string("after a ") + what + " statement the stream still has unflushed output";
}

static void run(Block const& b, bool top);
struct Nested { Node const& n; int id; };
static std::ostream& operator<<(std::ostream& os, Nested const& x) { run(x.n.kids, false); return os; }

static void run(Block const& b, bool top)
{
  for (auto& n : b)
  {
    int id = rid++;
    char l = 'a' + id;
    size_t before = rec.marked.size();
    errno = Model::err_of(id);
#define DATA l << '(' << Nested{n, id} << ')' << l
    switch (n.k)
    {
      case P: LibcwDout(libcwd::channels, libcw_do, *cs, DATA); break;
      case O: LibcwDout(libcwd::channels, libcw_do, *co, DATA); break;
      case PF: LibcwDout(libcwd::channels, libcw_do, *cw | flush_cf, DATA); flushed(kname[n.k], before); break;
      case PN: LibcwDout(libcwd::channels, libcw_do, *cw | nonewline_cf, DATA); break;
      case PE: LibcwDout(libcwd::channels, libcw_do, *cw | cerr_cf, DATA); break;
      case PR: LibcwDout(libcwd::channels, libcw_do, *cw | error_cf, DATA); break;
      case S: LibcwDout(libcwd::channels, libcw_do, *cw | continued_cf, DATA); break;
      case So: LibcwDout(libcwd::channels, libcw_do, *co | continued_cf, DATA); break;
      case SF: LibcwDout(libcwd::channels, libcw_do, *cw | continued_cf | flush_cf, DATA); flushed(kname[n.k], before); break;
      case SE: LibcwDout(libcwd::channels, libcw_do, *cw | continued_cf | cerr_cf, DATA); break;
      case C: LibcwDout(libcwd::channels, libcw_do, dc::continued, DATA); break;
      case CF: LibcwDout(libcwd::channels, libcw_do, dc::continued | flush_cf, DATA); break;
      case F: LibcwDout(libcwd::channels, libcw_do, dc::finish, DATA); break;
      case FF: LibcwDout(libcwd::channels, libcw_do, dc::finish | flush_cf, DATA); break;
      case FN: LibcwDout(libcwd::channels, libcw_do, dc::finish | nonewline_cf, DATA); break;
      case FE:  LibcwDout(libcwd::channels, libcw_do, dc::finish | error_cf, DATA); break;
      default: break;
    }
    if (top) got.push_back(rec.text + "\2" + erec.text);
  }
}

static void test(Block const& b, unsigned ncfg)
{
  if (!vx::take()) return;
  std::string d = show(b);
  if (vx::verbose()) vx::describe(d);
  std::string err;
  static std::ostream os(&rec);
  lw::fresh([&] {
    libcw_do.set_ostream(&os, &mut);
    Debug(libcw_do.on()); cs->on(); cw->on();
    for (unsigned i = 0; i < ncfg && err.empty(); ++i)
    {
      Cfg const& c = cfgs[i];
      rec.clear(); erec.clear(); got.clear(); rid = 0; problem.clear();
      libcw_do.margin().assign(c.margin); libcw_do.marker().assign(c.marker); libcw_do.color_on().assign(c.con); libcw_do.color_off().assign(c.coff);
      libcw_do.set_indent(c.indent);
      if (c.always_flush) libcw_do.always_flush_on();
      run(b, true);
      if (c.always_flush) libcw_do.always_flush_off();
      std::string text = rec.marked + "\2" + erec.text;
      LibcwDout(libcwd::channels, libcw_do, *cs, "end");        // Leave no line without newline behind.
      Model m(c);
      m.block(b, true);
      vx::g.transitions += rid; ++vx::g.traces; vx::g.evals += got.size();
      for (size_t k = 0; k < got.size() && err.empty(); ++k)
        if (got[k] != m.after[k]) err = "configuration " + std::to_string(i) + ": after statement " + std::to_string(k + 1) + " the output (stream, std::cerr) is\n" + got[k] + "\ninstead of\n" + m.after[k];
      if (err.empty()) err = problem;
      if (err.empty() && libcw_do.get_indent() != c.indent) err = "the indentation is " + std::to_string(libcw_do.get_indent()) + " afterwards";
      vx::outcome(text);
      for (auto& g : got) vx::state(vx::hash(g));
    }
  });
  if (!err.empty()) { vx::describe(d); vx::fail(d, err); }
  if (vx::g.samples.empty() && b.size() > 1 && b.size() < 4 && !b[0].kids.empty()) vx::sample(d + " -> " + lw::quoted(rec.text));
}

// Enumeration: all blocks of exactly n statements with at most `open` finishes pending.
static void gen(std::vector<K> const& kinds, unsigned n, std::vector<bool>& open, Block& b, std::function<void()> const& f)
{
  if (n == 0) { if (open.empty()) f(); return; }
  if (open.size() > n) return;
  for (K k : kinds)
  {
    if ((conts(k) || fins(k)) && open.empty()) continue;
    bool is_on = k != So && k != O;
    if ((conts(k) || fins(k)) && !open.back()) { is_on = false; if (k != C && k != F) continue; }
    for (unsigned kid = 0; kid < (is_on ? n : 1); ++kid)
    {
      bool was = false;
      if (starts(k)) open.push_back(k != So);
      else if (fins(k)) { was = open.back(); open.pop_back(); }
      b.push_back({k, {}});
      size_t me = b.size() - 1;
      std::vector<bool> o2;
      Block nb;
      gen(kinds, kid, o2, nb, [&] { b[me].kids = nb; gen(kinds, n - 1 - kid, open, b, f); });
      b.pop_back();
      if (starts(k)) open.pop_back();
      else if (fins(k)) open.push_back(was);
    }
  }
}

static void all(std::vector<K> kinds, unsigned n, unsigned ncfg)
{
  std::vector<bool> open;
  Block b;
  uint64_t first = vx::g.idx;
  gen(kinds, n, open, b, [&] { test(b, ncfg); });
  vx::g.notes["programs of " + std::to_string(n) + " statements over " + std::to_string(kinds.size()) + " kinds"] = std::to_string(vx::g.idx - first);
}

// Very deep nesting: right up to at least 50 levels; beyond some limit the program ends, it never does something else.
static void deep()
{
  static char const* const shape[] = {"messages in the operands of each other", "continued messages in the operands of each other", "continued messages that are all started, then finished", "messages and continued messages alternating"};
  for (int sh = 0; sh < 4; ++sh)
  {
    if (!vx::take()) continue;
    int limit = 0;
    for (int n = 1; n <= 140; ++n)
    {
      vx::describe(std::to_string(n) + " " + shape[sh]);
      Block b;
      for (int i = 0; i < n; ++i)
      {
        Block nb;
        if (sh == 2) { nb = b; nb.insert(nb.begin(), {S, {}}); nb.push_back({F, {}}); }
        else if (sh == 0 || (sh == 3 && i % 2)) nb.push_back({P, b});
        else { nb.push_back({S, b}); nb.push_back({F, {}}); }
        b = nb;
      }
      lw::Child c = lw::forked([&] {
        static std::ostream os(&rec);
        auto say = [](std::string const& s) { (void)!write(2, s.data(), s.size()); };
        libcw_do.set_ostream(&os, &mut);
        Debug(libcw_do.on()); cs->on(); cw->on();
        rec.clear(); erec.clear(); got.clear(); rid = 0; problem.clear();
        run(b, true);
        Cfg const none = cfgs[0];
        Model m(none);
        m.block(b, true);
        std::string err = problem;
        for (size_t k = 0; k < got.size() && err.empty(); ++k) if (got[k] != m.after[k]) err = "after statement " + std::to_string(k + 1) + " the output is\n" + got[k] + "\ninstead of\n" + m.after[k];
        if (got.size() != m.after.size()) err = "not everything was done";
        say(err.empty() ? "RIGHT" : "WRONG " + err);
        _exit(0);
      });
      ++vx::g.traces; ++vx::g.transitions; ++vx::g.evals;
      vx::state(vx::hash(vx::g.desc)); vx::outcome(c.how() + c.err.substr(0, 5));
      bool right = c.exited(0) && c.err == "RIGHT";
      if (!right && !c.signaled(SIGABRT)) vx::fail("deep", c.how() + " " + c.err.substr(0, 3000));
      if (!right && n <= 50) vx::fail("deep", "only " + std::to_string(n - 1) + " levels are possible: " + c.how() + " " + c.err.substr(0, 3000));
      if (right && limit) vx::fail("deep", std::to_string(limit) + " levels end the program, but more do not");
      if (!right && !limit) limit = n;
    }
    vx::sample(std::string(shape[sh]) + ": the program ends at depth " + std::to_string(limit));
  }
}

int main(int argc, char** argv)
{
  bool small = false;
  for (int i = 1; i < argc; ++i) if (!strcmp(argv[i], "--small")) small = true;
  vx::init(argc, argv);
  Debug(main_reached());
  cs = lw::new_channel("SHORT"); cw = lw::new_channel("TWELVE_CHARS"); co = lw::new_channel("OFF");
  std::cerr.rdbuf(&erec);
  rec.clobber = ENOTTY; erec.clobber = EISDIR;
  std::vector<K> full, core = {P, S, C, F, So, CF}, four = {P, S, C, F};
  for (int k = 0; k < KN; ++k) full.push_back((K)k);
  unsigned t = vx::g.thorough ? 1 : 0;
  if (small)
  {
    deep();
    for (unsigned n = 1; n <= 4; ++n) all(full, n, 3);
    for (unsigned n = 5; n <= 6 + t; ++n) all(core, n, 2);
    vx::done();
  }
  for (unsigned n = 1; n <= 5; ++n) all(full, n, 3);
  if (t) all(full, 6, 2);
  for (unsigned n = 6; n <= 8 + t; ++n) all(core, n, 2);
  for (unsigned n = 9 + t; n <= 9 + t; ++n) all(four, n, 1);
  // Misuse ends the program with a message, whether or not a mutex is set.
  for (int i = 0; i < 6; ++i)
    if (vx::take())
    {
      vx::describe(i < 2 ? "dc::finish without continued_cf" : i < 4 ? "dc::continued without continued_cf" : "one dc::finish too many");
      lw::Child c = lw::forked([&] {
        static std::ostream os(2 > 1 ? (std::streambuf*)&rec : nullptr);
        struct Fd : std::streambuf { int overflow(int c) override { char b = (char)c; (void)!write(2, &b, 1); return c; } std::streamsize xsputn(char const* s, std::streamsize n) override { (void)!write(2, s, n); return n; } } static fd;
        os.rdbuf(&fd);
        std::cerr.rdbuf(&fd);
        if (i & 1) libcw_do.set_ostream(&os, &mut); else libcw_do.set_ostream(&os);
        Debug(libcw_do.on()); cs->on(); cw->on();
        LibcwDout(libcwd::channels, libcw_do, *cs, "before");
        if (i >= 4) { LibcwDout(libcwd::channels, libcw_do, *cs | continued_cf, "x"); LibcwDout(libcwd::channels, libcw_do, dc::finish, "y"); }
        if (i < 2 || i >= 4) LibcwDout(libcwd::channels, libcw_do, dc::finish, "z");
        else LibcwDout(libcwd::channels, libcw_do, dc::continued, "z");
      }, 10);
      if (!c.signaled(SIGABRT)) vx::fail(vx::g.desc, c.how() + "; output " + lw::quoted(c.err));
      if (c.err.find("before") == std::string::npos || c.err.find("COREDUMP") == std::string::npos) vx::fail(vx::g.desc, "no message; output " + lw::quoted(c.err));
    }
  vx::done();
}
