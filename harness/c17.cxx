// C17 (totality of the demangler) and C18 (text of valid names).
#include "refdem.h"
#include "vx.h"
#include <cmath>
#include <cxxabi.h>
#include <fstream>
#include <sstream>
#include "libcwd/debug.h"
#include "libcwd/demangle.h"

static bool text_mode;          // C18.
static char* guard_end;         // First byte of an inaccessible page.

static void setup()
{
  size_t const len = 1 << 20;
  char* m = (char*)mmap(nullptr, len + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  if (m == MAP_FAILED || mprotect(m + len, 4096, PROT_NONE) != 0) { perror("mmap"); _exit(2); }
  guard_end = m + len;
}

static std::string lib(std::string const& in, bool sym, char const* prefix)
{
  // The terminating zero is the last readable byte.
  char* p = guard_end - in.size() - 1;
  memcpy(p, in.c_str(), in.size() + 1);
  std::string out(prefix);
  if (sym) libcwd::demangle_symbol(p, out);
  else libcwd::demangle_type(p, out);
  return out;
}

static uint64_t nvalid, ninvalid, nunspec, ncxa, ncxa_same;

static void current(std::string const& in, bool sym)
{
  // For crashes: the input is what is being described.
  char* d = vx::g.sh->desc;
  size_t n = std::min(in.size(), sizeof(vx::g.sh->desc) - 32);
  char const* w = sym ? "demangle_symbol " : "demangle_type ";
  size_t wl = sym ? 16 : 14;
  memcpy(d, w, wl);
  memcpy(d + wl, in.data(), n);
  d[wl + n] = 0;
}
static std::string who(std::string const& in, bool sym) { return (sym ? "demangle_symbol(\"" : "demangle_type(\"") + in + "\")"; }

// Returns true if no extension of this input can be valid.
static bool one(std::string const& in, bool sym)
{
  ++vx::g.evals;
  ++vx::g.extra_states;
  std::string want;
  bool dead = false;
  refdem::Kind k = sym ? refdem::Ref::symbol(in.data(), in.size(), want, &dead) : refdem::Ref::type(in.data(), in.size(), want, &dead);
  if (text_mode)
  {
    if (k != refdem::VALID) return dead;
    ++nvalid;
    current(in, sym);
    std::string got = lib(in, sym, "");
    if (vx::g.outcomes.size() < 100000) vx::outcome(got);
    if (got != want) vx::fail((sym ? "symbol:" : "type:") + in, who(in, sym) + " gives \"" + got + "\", expected \"" + want + "\"");
    return dead;
  }
  current(in, sym);
  std::string a = lib(in, sym, k == refdem::INVALID ? "x " : "");
  if (k == refdem::INVALID)
  {
    ++ninvalid;
    if (a.compare(0, 2, "x ") || a.compare(2, a.npos, in)) vx::fail((sym ? "symbol:" : "type:") + in, who(in, sym) + " is not a mangled name but appends to \"x \" as \"" + a + "\"");
  }
  else
  {
    (k == refdem::VALID ? nvalid : nunspec)++;
    if (vx::g.outcomes.size() < 100000) vx::outcome(a);
    std::string b = lib(in, sym, "already there ");
    if (b != "already there " + a) vx::fail((sym ? "symbol:" : "type:") + in, who(in, sym) + " gives \"" + a + "\" when the output string is empty, but \"" + b + "\" when it is \"already there \"");
  }
  return dead;
}

// All strings prefix + (up to len characters of the alphabet); blocks are the cases.
static void strings(std::string const& prefix, std::string const& alphabet, int len, bool sym, int block)
{
  int const A = alphabet.size();
  std::vector<int> head(std::max(0, len - block), 0);
  // Shorter ones first.
  if (vx::take())
  {
    vx::g.desc = who(prefix + "...", sym);
    for (int l = 0; l < len; ++l)
    {
      std::vector<int> s(l, 0);
      for (;;)
      {
        std::string in = prefix;
        for (int i : s) in += alphabet[i];
        one(in, sym);
        int i = l - 1;
        while (i >= 0 && ++s[i] == A) s[i--] = 0;
        if (i < 0) break;
      }
    }
    vx::g.desc.clear();
  }
  for (;;)
  {
    if (vx::take())
    {
      std::string in = prefix;
      for (int i : head) in += alphabet[i];
      size_t base = in.size();
      int bl = len - (int)head.size();
      in.resize(base + bl, alphabet[0]);
      std::vector<int> s(bl, 0);
      for (;;)
      {
        one(in, sym);
        int i = bl - 1;
        while (i >= 0 && ++s[i] == A) { s[i] = 0; in[base + i] = alphabet[0]; --i; }
        if (i < 0) break;
        in[base + i] = alphabet[s[i]];
      }
    }
    int i = (int)head.size() - 1;
    while (i >= 0 && ++head[i] == A) head[i--] = 0;
    if (i < 0) break;
  }
}

// All sequences of at most len tokens, without those of which a prefix can not be extended to a valid name.
static void dfs(std::string const& in, std::vector<std::string> const& tok, int left, bool sym, std::string const& suffix)
{
  ++vx::g.transitions;
  bool dead;
  if (suffix.empty()) dead = one(in, sym);
  else
  {
    one(in + suffix, sym);
    std::string w;
    dead = false;
    if (left)
    {
      if (sym) refdem::Ref::symbol(in.data(), in.size(), w, &dead);
      else refdem::Ref::type(in.data(), in.size(), w, &dead);
    }
  }
  if (dead || !left) return;
  for (auto& t : tok) dfs(in + t, tok, left - 1, sym, suffix);
}
static void tokens(std::string const& prefix, char const* toks, int len, bool sym, std::string const& suffix = "")
{
  std::vector<std::string> tok;
  std::istringstream is(toks);
  for (std::string t; is >> t;) tok.push_back(t);
  if (vx::take()) dfs(prefix, tok, 1, sym, suffix);
  for (auto& a : tok)
    for (auto& b : tok)
    {
      std::string in = prefix + a;
      if (len < 2 || !vx::take()) continue;
      std::string w;
      bool dead = false;
      if (sym) refdem::Ref::symbol(in.data(), in.size(), w, &dead);
      else refdem::Ref::type(in.data(), in.size(), w, &dead);
      if (dead) continue;
      dfs(in + b, tok, len - 2, sym, suffix);
    }
}

static std::vector<std::string> corpus()
{
  std::vector<std::string> r;
  std::ifstream f(getenv("VX_CORPUS") ? getenv("VX_CORPUS") : "/verif/harness/c17_corpus.txt");
  if (!f) { fprintf(stderr, "no corpus\n"); _exit(2); }
  for (std::string l; std::getline(f, l);)
    if (!l.empty() && l[0] != '#') r.push_back(l);
  return r;
}
static bool is_sym(std::string const& s) { return s[0] == '_'; }

static char const* const all_chars = "0123456789_abcdefghijklmnopqrstuvwxyzABCDEFGIKLMNPRSTUVXYZ";

static void edits()
{
  for (auto& c : corpus())
  {
    bool sym = is_sym(c);
    size_t from = sym ? 2 : 0;
    if (vx::take())
    {
      one(c, sym);
      for (size_t i = 0; i < c.size(); ++i)
      {
        one(c.substr(0, i), sym);                       // Truncation.
        one(c.substr(0, i) + c.substr(i + 1), sym);     // Deletion.
        if (i + 1 < c.size())
        {
          std::string t = c;
          std::swap(t[i], t[i + 1]);
          one(t, sym);
        }
        for (size_t j = i + 1; j <= c.size() && j < i + 12; ++j)
        {
          one(c.substr(0, j) + c.substr(i), sym);       // Repetition.
          one(c.substr(0, i) + c.substr(j), sym);       // Deletion of a range.
        }
      }
    }
    for (size_t i = from; i <= c.size(); ++i)
    {
      if (!vx::take()) continue;
      for (char const* a = all_chars; *a; ++a)
      {
        one(c.substr(0, i) + *a + c.substr(i), sym);
        if (i < c.size()) one(c.substr(0, i) + *a + c.substr(i + 1), sym);
        if (vx::g.thorough && c.size() < 40)
          for (size_t j = i + 1; j < c.size(); ++j)
            for (char const* b = all_chars; *b; ++b)
            {
              std::string t = c;
              t[i] = *a; t[j] = *b;
              one(t, sym);
            }
      }
    }
  }
}

static void deep()
{
  char const* units[] = {"P", "R", "K", "V", "N1a", "1aI", "F", "A1_", "M1a", "M", "Z1f", "ZZ", "L", "LI", "X", "XL_Z1fI", "XL_Z", "S_", "T_", "1a", "I", "E", "v", "i", "IX", "Xpl", "pl", "st", "sz", "sr",
      "cv", "C", "G", "U1a", "St", "Sa", "SaI", "TV", "GV", "Th0_", "Tc", "TC", "0", "9", "n", "_", "A", "XsrT_", "1aIPS_", "1aIS_S_", "1fIT_", "IT_", "K1aIKS_", "NS_", "NT_", "C1", "D1", "D0", "lt", "ltI", "1_GLOBAL__N_"};
  char const* heads[] = {"", "1f", "1fI", "1fIX", "N1a", "1fP1a", "ZN1aC1EvE", "1fIiEv", "1fI1aEv"};
  char const* tails[] = {"", "i", "E", "v", "Ev", "EE"};
  for (auto u : units)
    for (auto h : heads)
    {
      if (!vx::take()) continue;
      for (auto t : tails)
        for (int cnt : {2, 3, 5, 9, 10, 11, 19, 20, 21, 22, 37, 50, 100, 200})
        {
          std::string in = h;
          // Doubling of the text is limited by the number of repetitions.
          if (cnt > 12 && (strstr(u, "S_S_"))) continue;
          for (int i = 0; i < cnt; ++i) in += u;
          std::string close(cnt, 'E');
          one("_Z" + in + t, true);
          one(in + t, false);
          one("_Z" + in + "i" + close + t, true);
          one(in + "i" + close + t, false);
          one("_Z" + in + close + t, true);
        }
    }
  // Large and overflowing numbers.
  char const* nums[] = {"0", "1", "9", "10", "99", "255", "256", "65535", "65536", "2147483647", "2147483648", "4294967295", "4294967296", "4294967297", "4294967298", "9223372036854775807", "18446744073709551616",
      "18446744073709551617", "99999999999999999999999999999", "00", "01", "007"};
  char const* before[] = {"1f", "1fPiS", "1fIiEvT", "1fA", "1fILi", "1fILin", "Th", "Tv0_", "TC1a", "ZZ1fvE1a_", "N", "1fILb", "1aI"};
  char const* after[] = {"", "a", "_", "_i", "_E", "EEvv", "_1fv", "_n1_1fv", "aE", "ab", "a1b"};
  for (auto b : before)
    for (auto n : nums)
    {
      if (!vx::take()) continue;
      for (auto a : after)
      {
        one(std::string("_Z") + b + n + a, true);
        one(std::string(b) + n + a, false);
        one(std::string(n) + a, false);
      }
    }
  // Sequence numbers of substitutions in base 36, all values up to three digits with 40 candidates.
  if (vx::take())
  {
    std::string ps = "_Z1f";
    for (int i = 0; i < 40; ++i) ps += "P";
    ps += "i";
    char const* b36 = "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ";
    for (int i = -1; i < 36 * 36 + 36; ++i)
    {
      std::string d;
      if (i >= 0 && i < 36) d = b36[i];
      else if (i >= 36) { d = b36[(i - 36) / 36]; d += b36[i % 36]; }
      one(ps + "S" + d + "_", true);
      one(ps + "S0" + d + "_", true);
      one(ps + "S1Z141Z" + d + "_", true);
    }
  }
  // _GLOBAL_ names.
  if (vx::take())
    for (std::string g : {"_GLOBAL_", "_GLOBAL__", "_GLOBAL__I", "_GLOBAL__D", "_GLOBAL__I_", "_GLOBAL__D_", "_GLOBAL__X_a", "_GLOBAL__I_foo", "_GLOBAL__D__Z1fv", "_GLOBAL_.I.foo", "_G", "_", "__", "a", "", "_Z", "_GLOBAL__N_", "Z"})
      one(g, true), one(g, false);
  if (vx::take())
  {
    for (int len = 8; len < 16; ++len)
      for (int cut = 0; cut <= 12; ++cut)
        for (std::string n : {"_GLOBAL__N_x", "_GLOBAL_.N.x", "_GLOBAL_$N$x", "_GLOBAL__M_x", "_GLOBAL__N.x", "_GLOBAL.N.xx"})
          for (std::string t : {"", "E", "1aE", "1aEv", "v"})
            for (std::string h : {"_ZN", "_Z", "_Z1fN", "_ZN1a", "_ZZ1fvEN"})
              one(h + std::to_string(len) + n.substr(0, cut) + t, true);
  }
  // A null pointer.
  if (vx::take())
  {
    vx::describe("NULL");
    for (std::string pre : {"", "x "})
    {
      std::string o = pre, t = pre;
      libcwd::demangle_symbol(nullptr, o);
      libcwd::demangle_type(nullptr, t);
      if (o != pre + "(null)" || t != pre + "(null)") vx::fail("null", "a null pointer gives \"" + o + "\" and \"" + t + "\"");
    }
    vx::g.desc.clear();
  }
}

// Every operator code in every context.
static void operators()
{
  std::string const second = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_";
  std::string const second_text = "abcdefghijklmnopqrstuvwxyzACDEFGHIJKLMNOPQRSTUVWXYZ";
  struct { char const* pre; char const* post; } const ctx[] = {{"_Z", "1A"}, {"_Z", "1AS_"}, {"_ZN1A", "Ev"}, {"_ZN1A", "ERKS_"}, {"_ZNK1A", "ERKS_"}, {"_ZN1A", "IiEEvT_"}, {"_ZN1A", "I1BEEvRT_"}, {"_Z", "IiEvT_"}, {"_Z", "I1AEbRKT_S2_"},
      {"_ZN1AIiE", "ERKS0_"}, {"_ZN1AIiE", "IlEEvT_"}, {"_Z1fIX", "T_EEvv"}, {"_Z1fIiEvN1AIX", "T_EE1tE"}, {"_Z1fIiEvN1AIX", "T_T_EE1tE"}, {"_Z1fIiEvN1AIX", "T_T_T_EE1tE"}, {"_Z1fILi3EEvN1AIX", "T_Li5EEE1tE"},
      {"_Z1fILi3EEvN1AIX", "szT_Li5EEE1tE"}, {"_Z1fIiEv1AIX", "Li1EEE"}, {"_Z1fIiEv1AIX", "Li1ELi2EEE"}, {"_Z1fIiEv1AIX", "Li1ELi2ELi3EEE"}, {"_Z1fIiEvA", "T_Li2E_i"}, {"_Z1fIiEv1AIX", "plT_Li2ELi3EEE"},
      {"_ZStlsIcE", "v"}, {"_ZN1A1BC1Ev", ""}, {"_ZSt", "I1AEbRKT_S3_"}, {"_ZNSt1A", "Ev"}, {"_ZZN1A", "EvE1i"}, {"_Z1fIXadL_ZN1A", "EvEEEvv"}, {"_Z1fIXadL_Z", "1AEEEvv"}, {"_ZThn8_N1A", "Ev"}};
  for (auto& c : ctx)
  {
    if (!vx::take()) continue;
    for (char a = 'a'; a <= 'z'; ++a)
      for (char b : second)
        one(std::string(c.pre) + a + b + c.post, true);
    for (char a = 'a'; a <= 'z'; ++a)           // Two operators in a row (expressions).
      for (char b : second_text)
        if (refdem::Ref::is_operator(a, b))
          for (char x = 'a'; x <= 'z'; ++x)
            for (char y : second_text)
              if (refdem::Ref::is_operator(x, y))
                one(std::string(c.pre) + a + b + x + y + c.post, true);
  }
}

// Real literals.
static double worst_d, worst_f;
static void real(char kind, uint64_t bits)
{
  ++vx::g.evals;
  ++vx::g.extra_states;
  char in[64];
  if (kind == 'd') snprintf(in, sizeof in, "_Z1fILd%016llxEEvv", (unsigned long long)bits);
  else snprintf(in, sizeof in, "_Z1fILf%08xEEvv", (unsigned)bits);
  std::string sin(in);
  current(sin, true);
  std::string got = lib(sin, true, "");
  std::string pre = kind == 'd' ? "void f<(double)" : "void f<(float)", post = ">()";
  auto bad = [&](std::string const& why) { vx::fail("symbol:" + sin, who(sin, true) + " gives \"" + got + "\": " + why); };
  if (got.size() < pre.size() + post.size() + 1 || got.compare(0, pre.size(), pre) || got.compare(got.size() - post.size(), post.size(), post)) { bad("not of the form " + pre + "<number>" + post); return; }
  std::string t = got.substr(pre.size(), got.size() - pre.size() - post.size());
  double v;
  if (kind == 'd') memcpy(&v, &bits, 8);
  else { float f; uint32_t b = bits; memcpy(&f, &b, 4); v = f; }
  if (std::isnan(v)) { if (t != "nan") bad("it is not a number"); return; }
  if (std::isinf(v)) { if (t != (v < 0 ? "-inf" : "inf")) bad("it is infinite"); return; }
  if (v == 0) { if (t != "0" && t != "-0") bad("it is zero"); if ((t[0] == '-') != std::signbit(v)) bad("sign of zero"); return; }
  // Format: [-]d[.ddd][e(+|-)ddd]
  size_t i = 0, digits = 0;
  if (t[i] == '-') ++i;
  auto isd = [&] { return i < t.size() && t[i] >= '0' && t[i] <= '9'; };
  if (!isd()) { bad("no digit"); return; }
  ++i; ++digits;
  if (i < t.size() && t[i] == '.') { ++i; if (!isd()) bad("no digits after the point"); while (isd()) { ++i; ++digits; } }
  if (i < t.size() && t[i] == 'e') { ++i; if (t[i] != '+' && t[i] != '-') bad("exponent"); ++i; if (!isd()) bad("exponent"); while (isd()) ++i; }
  if (i != t.size()) bad("trailing characters");
  if (digits > (kind == 'd' ? 17u : 8u)) bad("too many digits");
  long double r = strtold(t.c_str(), nullptr);
  double rel = (double)(fabsl(r - (long double)v) / fabsl((long double)v));
  double& w = kind == 'd' ? worst_d : worst_f;
  if (rel > w) w = rel;
  // Half a unit in the last digit plus the accumulated rounding.
  if (rel > (kind == 'd' ? 1e-16 : 1e-7)) { char b[100]; snprintf(b, sizeof b, "the value is %.17g, relative error %g", v, rel); bad(b); }
  if (vx::g.outcomes.size() < 100000) vx::outcome(t);
}
static void reals()
{
  // Doubles: all exponents, all fractions with at most two bits set or cleared (a subset of the exponents for two bits).
  for (int s = 0; s < 2; ++s)
    for (int e = 0; e < 2048; ++e)
    {
      if (!vx::take()) continue;
      uint64_t top = (uint64_t)s << 63 | (uint64_t)e << 52;
      uint64_t const m = (1ull << 52) - 1;
      bool full = vx::g.thorough || e < 4 || e > 2043 || (e > 1010 && e < 1036) || e % 64 == 0;
      for (int inv = 0; inv < 2; ++inv)
      {
        real('d', top | (inv ? m : 0));
        for (int i = 0; i < 52; ++i)
        {
          real('d', top | ((1ull << i) ^ (inv ? m : 0)));
          real('d', top | ((((1ull << i) - 1)) ^ (inv ? m : 0)));
          if (full)
            for (int j = 0; j < i; ++j)
            {
              real('d', top | ((1ull << i | 1ull << j) ^ (inv ? m : 0)));
              if (e == 0) for (int k = 0; k < j; ++k) real('d', top | ((1ull << i | 1ull << j | 1ull << k) ^ (inv ? m : 0)));
            }
        }
      }
    }
  // Around all powers of ten and around multiples of them.
  for (int k = -323; k < 309; ++k)
  {
    if (!vx::take()) continue;
    for (int mul = 1; mul < 10; ++mul)
    {
      double d = strtod((std::to_string(mul) + "e" + std::to_string(k)).c_str(), nullptr);
      if (std::isinf(d)) continue;
      uint64_t b;
      memcpy(&b, &d, 8);
      int w = vx::g.thorough ? 2000 : 30;
      for (int x = -w; x <= w; ++x) if ((int64_t)(b + x) > 0) real('d', b + x);
      for (int sh = 0; sh < 52; ++sh) for (int x = -2; x <= 2; ++x) { uint64_t y = (((b >> sh) + x) << sh); if (y >> 63 == 0) { real('d', y); real('d', y | 1ull << 63); } }
    }
  }
  for (int k = 1; k < 17; ++k)          // Denormalized fractions around powers of ten.
  {
    if (!vx::take()) continue;
    uint64_t b = (uint64_t)ldexp(pow(10, -k), 52);
    for (int sh = 0; sh < 52; ++sh) for (int x = -8; x <= 8; ++x) real('d', (((b >> sh) + x) << sh) & ((1ull << 52) - 1));
  }
  // Floats: the 16 most significant bits and patterns for the others; all floats in thorough mode.
  for (uint32_t hi = 0; hi < 65536; hi += 256)
  {
    if (!vx::take()) continue;
    for (uint32_t h = hi; h < hi + 256; ++h)
    {
      if (vx::g.thorough) for (uint32_t lo = 0; lo < 65536; lo += 7) real('f', h << 16 | lo);
      else for (uint32_t lo : {0u, 1u, 2u, 0x7fffu, 0x8000u, 0x8001u, 0xfffeu, 0xffffu, 0x5555u, 0xaaaau, 0x1234u}) real('f', h << 16 | lo);
    }
  }
  // Literals that are too short, too long or contain other characters are not valid.
  if (vx::take())
    for (std::string k : {"d", "f"})
      for (size_t len = 0; len < 20; ++len)
        for (char const* a = all_chars; *a; ++a)
          for (size_t at = 0; at < len; ++at)
          {
            std::string n(len, '3');
            n[at] = *a;
            bool hex = (*a >= '0' && *a <= '9') || (*a >= 'a' && *a <= 'f');
            if (len == (k == "d" ? 16u : 8u) && hex) continue;
            std::string in = "_Z1fIL" + k + n + "EEvv";
            if (at + 1 == len && *a == 'E' && len == (k == "d" ? 17u : 9u)) continue;
            ++vx::g.evals;
            current(in, true);
            std::string got = lib(in, true, "");
            if (got != in && !(len > (k == "d" ? 16u : 8u) && n[k == "d" ? 16 : 8] == 'E')) vx::fail("symbol:" + in, who(in, true) + " is not a mangled name but gives \"" + got + "\"");
          }
}

// Names that compilers really emit.
static std::string norm(std::string s)
{
  // Differences of style between libcwd and the demangler of the compiler.
  auto rep = [&](std::string const& from, std::string const& to) { for (size_t p = 0; (p = s.find(from, p)) != std::string::npos;) { s.replace(p, from.size(), to); p += to.size(); } };
  struct { char const* t; char const* suf; } const lits[] = {{"(unsigned int)", "u"}, {"(unsigned long)", "ul"}, {"(long)", "l"}, {"(unsigned long long)", "ull"}, {"(long long)", "ll"}};
  for (auto& l : lits)
    for (size_t p = 0; (p = s.find(l.t, p)) != std::string::npos; ++p)
    {
      size_t e = p + strlen(l.t);
      size_t d = e;
      if (d < s.size() && s[d] == '-') ++d;
      size_t d0 = d;
      while (d < s.size() && s[d] >= '0' && s[d] <= '9') ++d;
      if (d == d0) continue;
      s = s.substr(0, p) + s.substr(e, d - e) + l.suf + s.substr(d);
    }
  std::string r;
  for (char c : s) if (c != ' ') r += c;
  s = r;
  rep("()(", "(");
  rep("std::basic_iostream<char,std::char_traits<char>>::basic_iostream", "std::iostream::iostream");
  return s;
}
static void emitted()
{
  std::ifstream f(getenv("VX_SYMBOLS") ? getenv("VX_SYMBOLS") : "");
  if (!f) { fprintf(stderr, "no list of symbols\n"); _exit(2); }
  std::string l;
  uint64_t n = 0;
  uint64_t ref_differs = 0;
  while (f >> l)
  {
    if (l.compare(0, 2, "_Z")) continue;
    if (n++ % 64 == 0 ? vx::take() : vx::g.cases && (vx::g.idx - 1) % vx::g.nshards == vx::g.shard)
    {
      one(l, true);
      // Validation of the reference model itself against the demangler of the compiler.
      std::string want;
      if (refdem::Ref::symbol(l.data(), l.size(), want) != refdem::VALID) continue;
      // Inside another name libcwd prints return types; constructors of std::string and friends are printed differently.
      if (l.find('Z', 2) != std::string::npos || l.find("Ss") != std::string::npos || l.find("NSi") != std::string::npos || l.find("NSo") != std::string::npos || l.find("NSd") != std::string::npos) continue;
      int st;
      char* c = abi::__cxa_demangle(l.c_str(), nullptr, nullptr, &st);
      if (!c) continue;
      ++ncxa;
      if (norm(want) == norm(c)) ++ncxa_same;
      else ++ref_differs;
      free(c);
    }
  }
  vx::g.traces += ncxa_same;
  
  vx::g.notes["compared with the demangler of the compiler"] = std::to_string(ncxa);
  vx::g.notes["equal to the demangler of the compiler"] = std::to_string(ncxa_same);
}

static void text()
{
  int const x = vx::g.thorough ? 1 : 0;
  // Characters.
  tokens("_Z", "1 2 a b N E I S T t _ P R K A M F v i L X Z C D c s 0 n l U", 6 + x, true);
  tokens("", "1 2 a b N E I S T t _ P R K V r A M F Y v i L X Z C G f U 0 n l z w o u", 6 + x, false);
  // Types and substitutions.
  tokens("_Z1f", "i c 1A N1A1BE St1B St1CI I E S_ S0_ S1_ S2_ P R K V A3_ A_ F M v PF Cd", 5 + x, true);
  tokens("_Z1f", "1A P K S_ S0_ S1_ S2_ S3_ F i E M", 8 + x, true);
  tokens("", "i 1A N1A1BE 1CI E S_ S0_ P R K V A3_ A4_ F M v U1q r", 6 + x, false);
  tokens("", "i 1A P K A3_ F E M v V", 8 + x, false);
  // Templates.
  tokens("_Z1fI", "i 1A P K E Ev T_ T0_ S_ S0_ S1_ S2_ Li3E Lb1E Lln7E XadL_Z1gvEE SaI 1BI v", 6 + x, true);
  tokens("_ZN1AI", "i 1B E 1f I Ev T_ S_ S0_ S1_ C1 D1 P K R", 7 + x, true);
  tokens("_Z1fIiEv", "N T_ S_ S0_ S1_ 1A 1B I E P Li3E X pl", 8 + x, true);
  tokens("_Z1fI", "i E PFiv FivE P M 1A v T_ S_ S0_ A3_ 1BI", 7 + x, true);
  // Functions, member functions and arrays in template arguments, substitutions and return types.
  tokens("_Z1fI", "PFivE FivE M1AFivE A3_i E Ev T_ S_ S0_ S1_ S2_ S3_ P K F i", 6 + x, true);
  tokens("_Z1f", "PFivE F E i P S_ S0_ S1_ FvvE K M1A A2_", 7 + x, true);
  tokens("_Z1fI1AMS0_FivEE", "PF F E i P S_ S0_ S1_ S2_ S3_ T_ T0_ K MT_ A2_ v", 6 + x, true);
  // Names.
  tokens("_ZN", "K V 1a 1b St Sa Ss S_ S0_ I i E C1 C2 D0 D1 lt ls cv pl aS v P", 6 + x, true);
  tokens("_Z", "N K 1a St 1b I i E v S_ S0_ Ss So Si Sd Sb Sa c R P", 6 + x, true);
  tokens("_ZN12_GLOBAL__N_1", "1a 1b N S_ S0_ E v C1 P I i", 8 + x, true);
  // Local names.
  tokens("_ZZ", "N NK 1a 1b Ev E v i S_ S0_ S1_ P _1 _0 s Z C1 I D1", 7 + x, true);
  tokens("_ZZN1a1fEvE", "N NK 1b 1c E v i S_ S0_ S1_ P _0 C1 I Z1gS_E", 7 + x, true);
  tokens("_Z1f", "Z1gvE Z1gP1AE 1B 1A N E S_ S0_ S1_ P _0 s I i NK1C1hEvE", 7 + x, true);
  // Expressions and literals.
  tokens("_Z1fIiEv1AIX", "T_ Li3E Ln3E L_Z1gE L_Z1gvE pl gt st sz sr cv i 1A 1b qu E I ps 2g2 ad nt", 6 + x, true);
  tokens("_Z1fIL", "i j l m x y s b c h a w 1A PK 0 1 2 n 9 E v _Z 1g z", 6 + x, true);
  tokens("_Z1fIXadL_Z", "1g N1A1g N K E v i S_ S0_ 1A I P EEEv", 7 + x, true);
  tokens("_Z1fILi3EEvN1AIX", "T_ Li5E pl gt mi szT_ E 1t Ev I i lt qu", 8 + x, true);
  // Special names.
  tokens("_ZT", "V T I S c h0_ hn8_ v8_n16_ v0_0_ C 0_ 16_ 1a N 1b E v D1 D0 I i S_ P", 7 + x, true);
  tokens("_ZGV", "1a N Z St 1b E v i S_ K I 1f _0 s", 8 + x, true);
  tokens("_ZT", "h0_ vn8_n16_ c 1f N 1a D1 E v R S_ S0_ K C1 L_Z i", 8 + x, true);
  operators();
  // All builtin types, everywhere.
  for (std::string h : {"_Z1f", "_Z1fP", "_Z1fK", "_Z1fM1A", "_Z1fC", "_Z1fI", "_Z1fF", "_Z1fPF", "_Z1fIL", "_ZTS", "_ZTI", "_Z1fA3_", "_ZN1Acv", "_Z1fIXst", "_Z1fRA9_K", "_Z1fU3foo"})
    for (std::string t : {"", "E", "i", "Evv", "iE", "vE", "Ev", "1E", "3EEvv", "n4EEvv", "EEvv"})
      if (vx::take())
        for (char c = 'a'; c <= 'z'; ++c) { one(h + c + t, true); if (h == "_Z1f") one(std::string(1, c) + t, false), one("P" + std::string(1, c) + t, false); }
}

// Many substitution candidates, template parameters and components; long names.
static std::string b36(int i)
{
  char const* d = "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ";
  if (i == 0) return "";
  std::string r;
  for (--i; ; i /= 36) { r.insert(0, 1, d[i % 36]); if (i < 36) break; }
  return r;
}
static std::string dec(int i) { return i == 0 ? "" : std::to_string(i - 1); }
static std::string ident(int i) { std::string r = "n" + std::to_string(i); return std::to_string(r.size()) + r; }
static void wide()
{
  for (int n : {1, 2, 9, 10, 11, 12, 34, 35, 36, 37, 38, 39, 60, 72, 73, 74, 100, 1295, 1296, 1297, 1298, 1299, 1340})
    for (int kind = 0; kind < 7; ++kind)
    {
      if (kind > 1 && n > 100) continue;
      if (!vx::take()) continue;
      std::string in = "_Z1f", tail;
      switch (kind)
      {
        case 0: for (int i = 0; i < n; ++i) in += ident(i); break;                              // n classes.
        case 1: for (int i = 0; i < n; ++i) in += (i % 2 ? "PK" : "P") + ident(i); break;
        case 2: for (int i = 0; i < n; ++i) in += "P"; in += "i"; break;                       // A long chain.
        case 3: in += "N"; for (int i = 0; i < n; ++i) in += ident(i); in += "E"; break;        // n scopes.
        case 4: in += "1A"; for (int i = 0; i < n; ++i) in += "PS" + b36(i) + "_"; break;      // Each refers to the previous one.
        case 5: in += "1A"; for (int i = 0; i < n; ++i) in += "1BIS" + b36(i ? 2 * i - 0 : 0) + "_E"; break;
        case 6: for (int i = 0; i < n; ++i) in += ident(i) + "I" + std::string(1, "ijlmc"[i % 5]) + "E"; break;
      }
      one(in, true);
      int m = n > 100 ? 60 : 4;
      for (int i = 0; i < 3 * n + 5; ++i)
      {
        if (n > 100 && !(i < 80 || (i > 1290 && i < 1300) || (i > n - m && i < n + m) || (i > 2 * n - m && i < 2 * n + m))) continue;
        one(in + "S" + b36(i) + "_", true);
        one(in + "PKS" + b36(i) + "_", true);
        one(in + "1CIS" + b36(i) + "_E", true);
        one(in + "NS" + b36(i) + "_1dE", true);
        one(in + "S" + b36(i) + "_IcE", true);
        if (i) one(in + "S" + b36(i) + "_S" + b36(i - 1) + "_", true);
      }
    }
  // Template parameters.
  for (int n : {1, 2, 3, 9, 10, 11, 12, 13, 36, 37, 38, 99, 100, 101, 102, 103})
    for (int kind = 0; kind < 4; ++kind)
    {
      if (!vx::take()) continue;
      std::string in = "_Z1fI";
      for (int i = 0; i < n; ++i)
        switch (kind)
        {
          case 0: in += ident(i); break;
          case 1: in += "P" + ident(i); break;
          case 2: in += i % 2 ? "Li" + std::to_string(i) + "E" : ident(i); break;
          case 3: in += "PFv" + ident(i) + "E"; break;
        }
      in += "Ev";
      for (int i = 0; i < n + 3; ++i)
      {
        one(in + "T" + dec(i) + "_", true);
        one(in + "PT" + dec(i) + "_T_", true);
        one(in + "1AIT" + dec(i) + "_E", true);
        one(in + "1BILi1ET" + dec(i) + "_E", true);
        one(in + "1AIXplT" + dec(i) + "_Li2EEE", true);
        for (int j = 0; j < 4; ++j) one(in + "T" + dec(i) + "_S" + b36(n + j) + "_", true);
      }
    }
  // Lengths and numbers.
  for (int n = 1; n < 1100; n += n < 130 ? 1 : 97)
  {
    if (!vx::take()) continue;
    std::string id;
    for (int i = 0; i < n; ++i) id += "abcdefghij_XYZ0123456789"[i == 0 ? 0 : i % 24];
    std::string sn = std::to_string(n) + id;
    for (std::string s : {"_Z" + sn + "v", "_ZN" + sn + "C1Ev", "_ZN" + sn + "D1Ev", "_Z1f" + sn + "S_", "_ZN1A" + sn + "EPS_", "_ZTV" + sn, "_ZZ1fvE" + sn, "_ZN" + sn + "I" + sn + "EC1Ev", "_Z1fA" + std::to_string(n) + "_i",
            "_Z1fILi" + std::to_string(n) + "EEvv", "_Z1fILin" + std::to_string(n * 7919ll) + "EEvv", "_ZThn" + std::to_string(n) + "_N1AD1Ev", "_ZTv" + std::to_string(n) + "_n" + std::to_string(n) + "_N1A1fEv", "_ZZ1fvE1x_" + std::to_string(n),
            "_ZTC1A" + std::to_string(n) + "_1B", "_Z1fPFi" + sn + "EU" + sn + "i", "_Z1fM" + sn + "FivE"})
      one(s, true);
    one(sn, false);
    one("N" + sn + sn + "E", false);
    one("A" + std::to_string(n) + "_A" + std::to_string(n + 1) + "_P" + sn, false);
    // n parameters, n arguments.
    std::string ps, ts;
    for (int i = 0; i < n; ++i) ps += "cPKcRi1A1BIiE"[i % 2 ? 0 : 0], ts += "bwji"[i % 4];
    one("_Z1f" + ps, true);
    one("_Z1f" + ts, true);
    one("_Z1fI" + ts + "Evv", true);
    one("_Z1fPFv" + ts + "E", true);
  }
  // Several levels of nesting.
  for (int n = 1; n < 13; ++n)
  {
    if (!vx::take()) continue;
    for (std::string u : {"1AI", "PFi", "N1A1BI", "PA3_", "M1AFv", "St6vectorI", "1AIPK", "1CIS_", "PFvPKc", "1AILi1E", "SaI"})
      for (std::string x : {"i", "Ss", "1D", "S_", "S0_", "PFivE"})
        for (int e = 0; e < 3; ++e)
        {
          std::string in;
          for (int i = 0; i < n; ++i) in += u;
          in += x;
          if (u != "PA3_") for (int i = 0; i < n; ++i) in += u[0] == 'N' ? "EE" : "E";
          one("_Z1f" + std::string(e, 'P') + in, true);
          one("_Z1f" + std::string(e, 'P') + in + "S_", true);
          one("_Z1f" + std::string(e, 'P') + in + "S0_PS1_", true);
          one(std::string(e, 'P') + in, false);
        }
  }
}

static void total()
{
  int const x = vx::g.thorough ? 1 : 0;
  char const* const A = "12aNEISTt_PKAMFviLXZCDcsb0n";
  strings("_Z", A, 5 + x, true, 4);
  strings("", A, 5 + x, false, 4);
  strings("_Z", "1aIXT_ELivS", 7 + x, true, 5);
  strings("_Z1f", "IXT_ELivSpls", 6 + x, true, 5);
  strings("_Z", "N1aS_ECDIi0v", 6 + x, true, 5);
  strings("_ZN", "1aS_EKIiSt0", 6 + x, true, 5);
  strings("_Z1f", "1PRKVA_FMEiS0C", 6 + x, true, 5);
  strings("", "1PRKVA_FMEiS0GU", 6 + x, false, 5);
  strings("_ZZ", "1aZE_sivN0TG", 6 + x, true, 5);
  strings("_Z1fI", "1LbdfZ_Eai0n", 6 + x, true, 5);
  strings("_ZT", "VTISGhvc0_n1aiC", 5 + x, true, 4);
  strings("_Z", "cvT_IiN1aES0", 6 + x, true, 5);
  strings("_Z1fIX", "plsrstzTL_Eiqu", 5 + x, true, 4);
  strings("_ZN", "plsrtzaAdDeE1I<", 5 + x, true, 4);
  strings("", "_ZGLOBAI1a", 6, true, 5);
}

// Not only the significant characters: every byte value, in short strings and at every position of longer ones.
static void bytes()
{
  for (int sym = 0; sym < 2; ++sym)
    for (int a = 1; a < 256; ++a)
      if (vx::take())
        for (int b = 0; b < 256; ++b)
        {
          std::string s = sym ? "_Z" : "";
          s += (char)a;
          if (b) s += (char)b;
          one(s, sym);
          if (b) one(s + "1", sym), one(s + "i", sym), one("_Z1f" + s.substr(sym ? 2 : 0), true), one("_ZN1a" + s.substr(sym ? 2 : 0) + "Ev", true), one("_Z1fIX" + s.substr(sym ? 2 : 0) + "Li1EEE", true),
              one("_Z1fILd" + std::string(7, '0') + s.substr(sym ? 2 : 0) + std::string(7, 'f') + "EEvv", true);
        }
  for (auto& c : corpus())
    if (c.size() < 60 && vx::take())
      for (size_t i = 0; i < c.size(); ++i)
        for (int b = 1; b < 256; ++b)
        {
          std::string t = c;
          t[i] = (char)b;
          one(t, is_sym(c));
        }
}

int main(int argc, char** argv)
{
  std::string what;
  for (int i = 1; i < argc; ++i)
    if (!strncmp(argv[i], "--what=", 7)) what = argv[i] + 7;
  vx::init(argc, argv);
  setup();
  if (what == "total") total(), vx::sample("all strings over 27 characters up to a length, at the end of a readable page");
  else if (what == "edits") edits(), vx::sample("every single edit of " + std::to_string(corpus().size()) + " names");
  else if (what == "deep") deep(), vx::sample("200 times \"1aI\" between \"_Z1fI\" and \"EE\"");
  else if (what == "bytes") bytes(), vx::sample("every byte at every position");
  else if (what == "operators") operators(), vx::sample("every pair of characters as operator code in 30 contexts");
  else if (what == "text") { text_mode = true; text(); vx::sample("_ZZN1a1fEvENK1b1cEPS_S1_ and all other sequences of tokens"); }
  else if (what == "wide") { text_mode = true; wide(); vx::sample("_Z1f with 1340 parameters of different types and all references to them"); }
  else if (what == "emitted") { text_mode = true; emitted(); vx::sample("every dynamic symbol of libstdc++ and libcwd"); }
  else if (what == "reals") { text_mode = true; reals(); vx::sample("_Z1fILd8000000000000001EEvv"); char b[100]; snprintf(b, sizeof b, "double %g, float %g", worst_d, worst_f); vx::g.notes["largest relative error"] = b; }
  else { fprintf(stderr, "--what?\n"); return 2; }
  vx::g.notes["valid"] = std::to_string(nvalid);
  vx::g.notes["invalid"] = std::to_string(ninvalid);
  vx::g.notes["unspecified"] = std::to_string(nunspec);
  vx::done();
}
