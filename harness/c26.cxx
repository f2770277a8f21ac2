// C26: all orders of construction of the globals of the library and of translation units that use it in their constructors and destructors.
#include "vx.h"
#include <algorithm>
#include <fstream>
#include <limits.h>
#include <poll.h>
#include <signal.h>
#include <sstream>
#include <sys/wait.h>

static std::string dir;
static std::vector<std::pair<char, std::string>> entries;       // Letter for the order, name of the translation unit.
static std::string lib_letters, user_letters(13, 0);            // Of the library; of kind A, B, ...
static std::string name_of(char letter) { for (auto& e : entries) if (e.first == letter) return e.second; return "?"; }

struct Out { int status = 0; bool hung = false; std::string text; };
static Out run(std::string const& order, std::string const& active, std::string const& init)
{
  int p[2];
  if (pipe(p)) { perror("pipe"); _exit(2); }
  std::string exe = dir + "/order", lib = dir + "/libvxl.so";
  pid_t pid = fork();
  if (pid < 0) { perror("fork"); _exit(2); }
  if (pid == 0)
  {
    dup2(p[1], 1); dup2(p[1], 2); close(p[0]); close(p[1]);
    execl(exe.c_str(), "order", order.c_str(), active.c_str(), lib.c_str(), init.c_str(), (char*)nullptr);
    _exit(127);
  }
  close(p[1]);
  Out o;
  char b[4096];
  time_t end = time(nullptr) + 30;
  struct pollfd pf = {p[0], POLLIN, 0};
  for (;;)
  {
    int r = poll(&pf, 1, 500);
    if (time(nullptr) > end || o.text.size() > 100000) { o.hung = true; kill(pid, SIGKILL); break; }
    if (r <= 0) continue;
    ssize_t n = read(p[0], b, sizeof b);
    if (n <= 0) break;
    o.text.append(b, n);
  }
  close(p[0]);
  waitpid(pid, &o.status, 0);
  return o;
}

// What should be written.
static std::string expect(std::string const& kinds, std::string const& order, bool& fatal, std::vector<std::string> const& lib_channels)
{
  std::string out;
  bool B = false, G = false, c_done = false, C_on = false, mainon = false;
  fatal = false;
  auto put = [&](std::string const& label, std::string const& txt, bool thread = false) {
    std::string l = label;
    l.resize(8, ' ');
    out += (G ? "G>" : "") + std::string(B && !thread ? "m " : "") + l + ": " + txt + "\n";
  };
  auto always = [&](std::string const& txt) { put(">>>>>>>>", txt); };
  auto c_list = [&] { return std::string(c_done ? " C_ONE    C_TWO   " : "") + " found"; };
  auto E = "foo::bar() Templ<int>* Templ<int>* 8 Templ<char>";
  auto thread = [&](char const* s) { put(">>>>>>>>", s, true); put("NOTICE", s, true); };
  auto util = [&](std::string const& s) { always("  " + s + "a\\nb\\t: ENOENT (No such file or directory)"); };
  for (char o : order)
  {
    size_t k = user_letters.find(o);
    if (k == std::string::npos) continue;
    bool act = kinds.find('A' + k) != std::string::npos;
    if (!act) { if (k == 2) c_done = true; continue; }
    switch ('A' + k)
    {
      case 'A': put("NOTICE", "A 1"); if (B) always("A 2"); break;
      case 'B': B = true; put("DEBUG", "B"); break;
      case 'C': c_done = C_on = true; put("C_ONE", "C"); break;
      case 'D': always("D the_function order the_function"); break;
      case 'E': always(std::string("E ") + E); break;
      case 'F': out += "f >>>>>>>>: F\n"; break;
      case 'G': G = true; always("G"); break;
      case 'I': always("I fn_of_lib libvxl.so"); break;
      case 'J': put("FATAL", "J"); fatal = true; return out;
      case 'K': always("K" + c_list()); break;
      case 'L': util("L "); break;
      case 'M': if (B) out += std::string("M evaluated\n") + (G ? "G>" : "") + "m M1\n"; break;
    }
  }
  mainon = true;
  if (B) { always("main before"); put("DEBUG", "main debug"); }
  always("main on");
  for (char k : kinds)
    switch (k)
    {
      case 'B': put("DEBUG", "main B"); break;
      case 'C': put("C_ONE", "main C"); always("find truetrue"); break;
      case 'D': always("main D the_function order fix.cxx the_function"); break;
      case 'E': always(std::string("main E ") + E); break;
      case 'F': out += "f >>>>>>>>: main F\nf >>>>>>>>: registered 1 times\n"; break;
      case 'G': always("main G true"); break;
      case 'H': thread("main H"); break;
      case 'I': always("main I fn_of_lib libvxl.so"); break;
      case 'K': always("main K" + c_list()); break;
      case 'L': util("main L "); break;
    }
  std::vector<std::string> l = lib_channels;
  for (auto& x : l) if (B && x == "DEBUG") x += "+";
  l.push_back(C_on ? "C_ONE+" : "C_ONE");
  l.push_back("C_TWO");
  l.push_back("M");
  std::sort(l.begin(), l.end());
  std::string s;
  for (auto& x : l) s += " " + x;
  always("channels" + s);
  always("libcw_do is registered 1 times");
  always("main is main");
  for (size_t i = order.size(); i-- > 0;)
  {
    size_t k = user_letters.find(order[i]);
    if (k == std::string::npos || kinds.find('A' + k) == std::string::npos) continue;
    switch ('A' + k)
    {
      case 'A': always("~A"); break;
      case 'B': put("DEBUG", "~B"); break;
      case 'C': put("C_ONE", "~C"); break;
      case 'D': always("~D the_function order fix.cxx the_function"); break;
      case 'E': always(std::string("~E ") + E); break;
      case 'F': out += "f >>>>>>>>: ~F\n"; break;
      case 'G': always("~G"); G = false; break;
      case 'H': thread("~H"); break;
      case 'I': always("~I <unknown function> no object"); break;
      case 'K': always("~K" + c_list()); break;
      case 'L': util("~L "); break;
    }
  }
  return out;
}
static std::vector<std::string> lib_channels;

// With `everywhere' units call initialize when it is not needed too.
static void check(std::string const& kinds, std::string const& first, bool everywhere = false)
{
  if (!vx::take()) return;
  // What is not mentioned comes afterwards.
  std::string order = first;
  for (auto& e : entries) if (order.find(e.first) == std::string::npos) order += e.first;
  std::string d = "order of construction:";
  for (char c : first) d += " " + name_of(c);
  vx::describe(d);
  if (kinds.size() > 1) vx::sample(d);
  ++vx::g.transitions; ++vx::g.traces; ++vx::g.extra_states;
  // Who has to call initialize?
  std::string init;
  bool ready = false;
  for (char c : order)
  {
    size_t k = user_letters.find(c);
    if (k == std::string::npos) { if (name_of(c) == "debug.cxx") ready = true; continue; }
    bool uses = kinds.find('A' + k) != std::string::npos && k != 5 && k != 7 && k != 12;
    if (uses && (everywhere || !ready)) init += 'A' + k;
    if (uses || k == 5) ready = true;
  }
  if (everywhere) vx::describe(d + ", all call initialize");
  Out o = run(order, kinds, init);
  bool fatal;
  std::string e = expect(kinds, order, fatal, lib_channels);
  std::string end = o.hung ? "does not end" : WIFEXITED(o.status) ? "exit status " + std::to_string(WEXITSTATUS(o.status)) : "signal " + std::to_string(WTERMSIG(o.status));
  if (end != (fatal ? "exit status 180" : "exit status 0")) vx::fail("order", "ends with " + end + " after it wrote " + vx::q(o.text.substr(0, 6000)));
  if (o.text != e) vx::fail("order", "wrote " + vx::q(o.text) + " instead of " + vx::q(e));
  vx::outcome(o.text);
}

int main(int argc, char** argv)
{
  vx::init(argc, argv);
  char self[PATH_MAX];
  ssize_t n = readlink("/proc/self/exe", self, sizeof self - 1);
  self[n] = 0;
  dir = std::string(self, strrchr(self, '/') - self) + "/fixtures";
  std::ifstream f(dir + "/index");
  std::string letter, name;
  while (f >> letter >> name)
  {
    entries.push_back({letter[0], name});
    if (name.substr(0, 5) == "user-") user_letters[name[5] - 'A'] = letter[0];
    else lib_letters += letter[0];
  }
  if (lib_letters.empty() || user_letters.find('\0') != std::string::npos) { fprintf(stderr, "no fixtures\n"); return 2; }
  std::ifstream g(dir + "/channels");
  while (g >> name) lib_channels.push_back(name);
  bool th = vx::g.thorough;
  std::sort(lib_letters.begin(), lib_letters.end());
  // One user: all orders.  At most 120 orders of the library (the first and last ones when there are more).
  for (int k = 0; k < 13; ++k)
  {
    std::string p = lib_letters + user_letters[k];
    std::sort(p.begin(), p.end());
    if (p.size() > 7) { fprintf(stderr, "too many orders\n"); return 2; }
    do { check(std::string(1, 'A' + k), p); check(std::string(1, 'A' + k), p, true); } while (std::next_permutation(p.begin(), p.end()));
  }
  // Two users.
  for (int a = 0; a < 13; ++a)
    for (int b = 0; b < 13; ++b)
    {
      if (a == b) continue;
      std::string kinds;
      kinds += 'A' + std::min(a, b); kinds += 'A' + std::max(a, b);
      std::string l = lib_letters;
      do
      {
        // Quick: the order of linking and the opposite one.
        if (!th && l != lib_letters && l != std::string(lib_letters.rbegin(), lib_letters.rend())) continue;
        for (size_t i = 0; i <= l.size(); ++i)
          for (size_t j = i; j <= l.size(); ++j)
            check(kinds, l.substr(0, i) + user_letters[a] + l.substr(i, j - i) + user_letters[b] + l.substr(j));
      }
      while (std::next_permutation(l.begin(), l.end()));
    }
  // Three users before, after, and around everything.
  for (int a = 0; a < 13; ++a)
    for (int b = 0; b < 13; ++b)
      for (int c = 0; c < 13; ++c)
      {
        if (a == b || a == c || b == c) continue;
        std::string kinds;
        for (int k = 0; k < 13; ++k) if (k == a || k == b || k == c) kinds += 'A' + k;
        std::string A(1, user_letters[a]), B(1, user_letters[b]), C(1, user_letters[c]);
        check(kinds, A + B + C + lib_letters, true);
        check(kinds, A + lib_letters + B + C);
        if (th) { check(kinds, A + B + lib_letters + C); check(kinds, lib_letters + A + B + C); }
      }
  vx::done();
}
