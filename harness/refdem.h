// Reference demangler: an independent implementation of the grammar that libcwd documents in
// include/cwd_demangle.h (Itanium C++ ABI, revision 1.74).
//
// It works on values (a tree of types, substitutions are shared nodes) where libcwd works on positions of
// the input that are decoded again.  The outcome is VALID with the text that must be printed, INVALID when
// no production of the grammar matches, or UNSPEC when the input makes use of something that is not a
// mangled name of any C++ entity but for which the documented grammar gives no definite answer.
#pragma once
#include <cstdint>
#include <cstring>
#include <deque>
#include <string>
#include <vector>

namespace refdem {

enum Kind { VALID, INVALID, UNSPEC };

struct Node
{
  enum K : uint8_t { base, ptr, ref, cv, vendor, array, memptr, func, memfunc, special } k = base;
  int level = 0;                // Nesting of what it is made of.
  int cvmask = 0;               // cv; memfunc.
  bool ext_c = false;           // func.
  bool is_unspec = false;       // Referring to this is UNSPEC.
  std::string text;             // base: the name; vendor, array: what is added; memptr, memfunc: the class; func and memfunc: "(args)".
  std::string last;             // base: the last component of the name (for constructors).
  int sub = -1;                 // Node index of the sub type (or return type).
};

class Ref
{
  char const* s;
  int p = 0;
  int n;
  bool unspec = false;
  bool fail_ = false;
  std::vector<Node>& N;
  std::vector<int> subs;
  int depth = 0, reach = 0;

  struct Targ { int node; std::string text; };
  std::vector<Targ> const* targs = nullptr;     // Template arguments that T_ refers to.
  bool param_is_expr = false;
  bool no_T = false;            // T_ can not be interpreted here.
  bool in_targs = false;
  int targ_depth = 0;
  bool in_index = false;

 public:
  static bool is_operator(char a, char b) { return find_op(a, b) != nullptr; }
  static std::vector<Node>& pool() { static thread_local std::vector<Node> v; return v; }
  Ref(char const* in, int len) : s(in), n(len), N(pool()) { N.clear(); N.reserve(64); }

  // dead is set when no extension of the input can be VALID.
  static Kind symbol(char const* in, int len, std::string& out, bool* dead = nullptr)
  {
    if (len >= 11 && !memcmp(in, "_GLOBAL__", 9) && (in[9] == 'D' || in[9] == 'I') && in[10] == '_')
    {
      out = in[9] == 'D' ? "global destructors keyed to " : "global constructors keyed to ";
      out.append(in + 11, len - 11);
      return VALID;
    }
    if (len < 2 || in[0] != '_' || in[1] != 'Z')
      return INVALID;
    Ref r(in + 2, len - 2);
    out = r.encoding();
    if (dead) *dead = (r.fail_ || r.p < r.n) && !r.touched;
    return r.result();
  }
  static Kind type(char const* in, int len, std::string& out, bool* dead = nullptr)
  {
    Ref r(in, len);
    int t = r.type();
    if (dead) *dead = r.p < r.n && !r.touched;
    if (r.fail_) return r.unspec ? UNSPEC : INVALID;
    out = r.print(t);
    return r.result();
  }

 private:
  Kind result()
  {
    if (unspec) return UNSPEC;
    if (fail_ || p != n) return INVALID;
    return VALID;
  }
  bool touched = false;         // Set when anything was concluded from the end of the input.
  char cur() { if (p < n) return s[p]; touched = true; return 0; }
  char peek(int i = 1) { if (p + i < n) return s[p + i]; touched = true; return 0; }
  bool end() { if (p < n) return false; touched = true; return true; }
  int bad() { fail_ = true; return 0; }
  static bool digit(char c) { return c >= '0' && c <= '9'; }
  static bool lower(char c) { return c >= 'a' && c <= 'z'; }
  int mk(Node::K k, int sub) { N.emplace_back(); N.back().k = k; N.back().sub = sub; return N.size() - 1; }
  int mkbase(std::string text, std::string last = {}) { N.emplace_back(); N.back().text = std::move(text); N.back().last = std::move(last); return N.size() - 1; }
  void add(int node) { N[node].level = std::max(N[node].level, std::max(reach - depth, 0) + 1); subs.push_back(node); }
  // libcwd gives up when substitutions nest too deep (rather than crashing); what it does then is not specified.
  int refer(int node) { reach = std::max(reach, depth + N[node].level); if (depth + N[node].level > 15) unspec = true; return node; }

 public:
  // Declarator style printing: (dp, dq) is what has been collected so far.
  void pr(int t, std::string dp, std::string dq, bool last_array, int cvm, std::string& p0, std::string& q0)
  {
    static char const* const cvs[8] = {"", " const", " volatile", " const volatile", " restrict", " const restrict", " volatile restrict", " const volatile restrict"};
    Node const& x = N[t];
    if (x.k == Node::cv) { pr(x.sub, dp, dq, last_array, cvm | x.cvmask, p0, q0); return; }
    if (x.k == Node::array)
    {
      // cv-qualifiers of an array are those of its elements.
      if (last_array) dq += "[" + x.text + "]";
      else if (dp.empty() && dq.empty()) dq = " [" + x.text + "]";
      else { dp = " (" + dp; dq += ") [" + x.text + "]"; }
      pr(x.sub, dp, dq, true, cvm, p0, q0);
      return;
    }
    dp = cvs[cvm] + dp;
    switch (x.k)
    {
      case Node::base: p0 = x.text + dp; q0 = dq; return;
      case Node::ptr: pr(x.sub, "*" + dp, dq, false, 0, p0, q0); return;
      case Node::ref: pr(x.sub, "&" + dp, dq, false, 0, p0, q0); return;
      case Node::vendor: pr(x.sub, " " + x.text + dp, dq, false, 0, p0, q0); return;
      case Node::memptr: pr(x.sub, " " + x.text + "::*" + dp, dq, false, 0, p0, q0); return;
      case Node::func:
      {
        std::string rp, rq;
        pr(x.sub, "", "", false, 0, rp, rq);
        if (rq.empty() || rp.back() != '*') rp += ' ';
        p0 = rp + "(" + dp;
        q0 = dq + ")" + (x.ext_c ? " [extern \"C\"] " : "") + x.text + rq;
        return;
      }
      case Node::memfunc:
      {
        std::string rp, rq;
        pr(x.sub, "", "", false, 0, rp, rq);
        p0 = rp + " (" + x.text + "::*" + dp;
        q0 = dq + ")" + x.last + cvs[x.cvmask] + rq;
        return;
      }
      default: return;
    }
  }
  std::string print(int t)
  {
    std::string a, b;
    pr(t, "", "", false, 0, a, b);
    return a + b;
  }

 private:
  std::string number(bool neg)
  {
    std::string r;
    if (cur() == 'n') { if (!neg) { fail_ = true; return r; } r = "-"; ++p; }
    if (!digit(cur())) { fail_ = true; return r; }
    if (cur() == '0' && digit(peek())) unspec = true;           // Leading zero.
    while (digit(cur())) r += s[p++];
    return r;
  }
  std::string source_name()
  {
    if (cur() < '1' || cur() > '9') { fail_ = true; return {}; }
    int len = 0;
    while (digit(cur())) { len = len * 10 + cur() - '0'; ++p; if (len > 100000) { fail_ = true; return {}; } }
    if (len > n - p) { touched = true; fail_ = true; return {}; }
    std::string r(s + p, len);
    p += len;
    if (len > 11 && r.compare(0, 8, "_GLOBAL_") == 0 && r[9] == 'N' && r[8] == r[10]) r = "(anonymous namespace)";
    else if (len >= 10 && r.compare(0, 8, "_GLOBAL_") == 0 && r[9] == 'N') unspec = true;
    return r;
  }
  struct Op { char const* code; char const* name; int arity; };
  static Op const* find_op(char a, char b)
  {
    static Op const ops[] = {
      {"nw", "new", 1}, {"na", "new[]", 1}, {"dl", "delete", 1}, {"da", "delete[]", 1}, {"ps", "+", 1}, {"ng", "-", 1}, {"ad", "&", 1}, {"de", "*", 1},
      {"co", "~", 2}, {"pl", "+", 2}, {"mi", "-", 2}, {"ml", "*", 2}, {"dv", "/", 2}, {"rm", "%", 2}, {"an", "&", 2}, {"or", "|", 2}, {"eo", "^", 2}, {"aS", "=", 2},
      {"pL", "+=", 2}, {"mI", "-=", 2}, {"mL", "*=", 2}, {"dV", "/=", 2}, {"rM", "%=", 2}, {"aN", "&=", 2}, {"oR", "|=", 2}, {"eO", "^=", 2}, {"ls", "<<", 2}, {"rs", ">>", 2},
      {"lS", "<<=", 2}, {"rS", ">>=", 2}, {"eq", "==", 2}, {"ne", "!=", 2}, {"lt", "<", 2}, {"gt", ">", 2}, {"le", "<=", 2}, {"ge", ">=", 2}, {"nt", "!", 1}, {"aa", "&&", 2},
      {"oo", "||", 2}, {"pp", "++", 1}, {"mm", "--", 1}, {"cm", ",", 2}, {"pm", "->*", 2}, {"pt", "->", 2}, {"cl", "()", 1}, {"ix", "[]", 1}, {"qu", "?", 3},
      {"st", "sizeof", 1}, {"sz", "sizeof", 1}};
    static uint8_t tab[26][64];
    static bool init = [] { for (size_t i = 0; i < sizeof ops / sizeof *ops; ++i) tab[ops[i].code[0] - 'a'][(ops[i].code[1] - 'A') & 63] = i + 1; return true; }();
    (void)init;
    if (!lower(a) || !(lower(b) || (b >= 'A' && b <= 'Z'))) return nullptr;
    int i = tab[a - 'a'][(b - 'A') & 63];
    return i && ops[i - 1].code[1] == b ? &ops[i - 1] : nullptr;
  }

  struct Name
  {
    std::string text, last, cv;
    bool is_template = false, is_cdtor = false, is_conv = false, is_dtor = false, is_operator = false, is_type = true;
    bool space = false;         // Template arguments need a leading space (after operator< and operator<<).
    std::vector<Targ> targs;    // The template arguments of the last component that has any.
    bool has_targs = false;
  };

  // An operator-name.
  void operator_name(Name& nm)
  {
    nm.is_operator = true;
    nm.is_type = false;
    char a = cur(), b = peek();
    if (a == 'c' && b == 'v')
    {
      p += 2;
      nm.is_conv = true;
      if (cur() == 'T' || (cur() && strchr("PRKVrAMU", cur()) && strchr(s + p, 'T'))) unspec = true;   // A templated conversion operator.
      bool save = in_targs;
      int t = type();
      in_targs = save;
      if (fail_) return;
      nm.text = "operator " + print(t);
      if (cur() == 'I') unspec = true;
      return;
    }
    if (a == 'v' && digit(b)) { unspec = true; fail_ = true; return; }  // Vendor extended operator: documented, not implemented.
    Op const* op = find_op(a, b);
    if (!op)
    {
      // 'as' (and the like) are accepted for operators that only exist with a '='; and newer operators.
      if ((a == 'a' && (b == 's' || b == 'S')) || (a == 'c' && b == 'V')) unspec = true;
      fail_ = true;
      return;
    }
    p += 2;
    nm.text = !strcmp(op->name, "sizeof") ? "sizeof" : std::string("operator") + (lower(op->name[0]) ? " " : "") + op->name;
    if (!strcmp(op->name, "sizeof")) unspec = true;
    if (op->name[0] == '<' && strcmp(op->name, "<=")) nm.space = true;
  }
  // Appends an unqualified-name to nm.  prev is the component before it (for constructors).
  void unqualified(Name& nm, bool nested)
  {
    char c = cur();
    nm.is_template = nm.is_cdtor = nm.is_conv = nm.is_operator = false;
    nm.space = false;
    nm.is_type = true;
    if (digit(c))
    {
      nm.last = source_name();
      nm.text += nm.last;
    }
    else if (in_targs)
    {
      // Only source names are accepted inside template arguments, because only types have names there.
      if (lower(c) || c == 'C' || c == 'D') unspec = true;
      fail_ = true;
    }
    else if (lower(c))
    {
      Name o;
      operator_name(o);
      if (fail_) return;
      nm.last = o.text;
      nm.text += o.text;
      nm.is_conv = o.is_conv;
      nm.is_operator = true;
      nm.is_type = false;
      nm.space = o.space;
    }
    else if (c == 'C' || c == 'D')
    {
      char d = peek();
      if (c == 'C' ? (d < '1' || d > '3') : (d < '0' || d > '2')) { fail_ = true; return; }
      if (!nested || nm.last.empty() || nm.is_operator) unspec = true;
      p += 2;
      nm.is_cdtor = true;
      nm.is_type = false;
      if (c == 'D') { nm.is_dtor = true; nm.text += "~"; }
      nm.text += nm.last;
    }
    else
      fail_ = true;
  }

  std::string template_args(std::vector<Targ>& args, bool own)
  {
    std::string r = "<";
    ++p;        // 'I'
    bool save = in_targs, save_noT = no_T, save_index = in_index;
    in_targs = true;
    in_index = false;
    ++targ_depth;
    if (own) no_T = true;
    if (cur() == 'E') { in_targs = save; no_T = save_noT; fail_ = true; return r; }
    for (;;)
    {
      Targ a{-1, {}};
      if (cur() == 'X')
      {
        ++p;
        a.text = expression(0);
        if (!fail_ && cur() != 'E') fail_ = true;
        ++p;
      }
      else if (cur() == 'L')
      {
        a.text = literal();
        if (!fail_ && cur() != 'E') fail_ = true;
        ++p;
      }
      else
      {
        a.node = type();
        if (!fail_) a.text = print(a.node);
      }
      if (fail_) return r;
      r += a.text;
      args.push_back(a);
      if (cur() == 'E') break;
      r += ", ";
    }
    ++p;
    if (r.back() == '>') r += ' ';
    r += '>';
    in_targs = save;
    in_index = save_index;
    --targ_depth;
    no_T = save_noT;
    return r;
  }

  // The 'S' of a substitution is the current character and it isn't followed by a 't'.
  int substitution()
  {
    char c = peek();
    static struct { char c; char const* text; char const* last; } const abbr[] = {{'a', "std::allocator", "allocator"}, {'b', "std::basic_string", "basic_string"},
      {'s', "std::string", "string"}, {'i', "std::istream", "istream"}, {'o', "std::ostream", "ostream"}, {'d', "std::iostream", "iostream"}};
    for (auto& a : abbr)
      if (c == a.c) { p += 2; return mkbase(a.text, a.last); }
    p += 1;
    unsigned value = 0;
    if (cur() != '_')
    {
      int digits = 0;
      while (cur() != '_')
      {
        c = cur();
        if (digit(c)) value = value * 36 + c - '0';
        else if (c >= 'A' && c <= 'Z') value = value * 36 + c - 'A' + 10;
        else return bad();
        if (++digits > 8 || value >= (1u << 24)) return bad();
        ++p;
      }
      ++value;
    }
    ++p;
    if (value >= subs.size()) return bad();
    if (N[subs[value]].is_unspec) unspec = true;
    return refer(subs[value]);
  }
  // Functions can not return functions or arrays.
  void check_return(int t)
  {
    while (N[t].k == Node::cv) t = N[t].sub;
    if (N[t].k == Node::func || N[t].k == Node::array) unspec = true;
  }
  int template_param()
  {
    ++p;        // 'T'
    unsigned value = 0;
    if (cur() != '_')
    {
      while (digit(cur())) { value = value * 10 + cur() - '0'; ++p; if (value > 100000) return bad(); }
      ++value;
    }
    if (cur() != '_') return bad();
    if (s[p - 1] == 'T') value = 0;
    ++p;
    if (no_T) unspec = true;
    if (!targs || value >= targs->size()) return bad();
    Targ const& a = (*targs)[value];
    param_is_expr = a.node < 0;
    if (a.node >= 0) return refer(a.node);
    if (depth > 15) unspec = true;
    return mkbase(a.text);      // An expression.
  }

  Name nested_name()
  {
    Name nm;
    ++p;        // 'N'
    int order = 0;
    for (; cur() == 'K' || cur() == 'V' || cur() == 'r'; ++p)
    {
      int o = cur() == 'r' ? 1 : cur() == 'V' ? 2 : 3;
      if (o <= order) unspec = true;
      order = o;
      nm.cv.insert(0, cur() == 'K' ? " const" : cur() == 'V' ? " volatile" : " restrict");
    }
    int ncomp = 0;
    bool prev_args = false;
    bool first_is_std = false;
    for (;;)
    {
      char c = cur();
      int node = -1;
      bool addit = true;
      if (c == 'S')
      {
        if (ncomp > 0) { unspec = true; }
        if (peek() == 't')
        {
          p += 2;
          nm.text += "std";
          first_is_std = true;
          nm.last.clear();
          if (cur() == 'E' || cur() == 'I' || cur() == 'C' || cur() == 'D') unspec = true;
        }
        else
        {
          node = substitution();
          if (fail_) return nm;
          if (N[node].k != Node::base) unspec = true;
          nm.text += print(node);
          nm.last = N[node].last;
          if (cur() == 'E') unspec = true;
        }
        addit = false;
        prev_args = false;
      }
      else if (c == 'I')
      {
        if (ncomp == 0 || prev_args || (first_is_std && ncomp == 1)) unspec = true;
        if (nm.space) nm.text += ' ';
        nm.space = false;
        nm.targs.clear();
        nm.targs.reserve(4);
        std::vector<Targ> args;
        nm.text += template_args(args, targs == nullptr || no_T_in_name);
        if (fail_) return nm;
        nm.targs = args;
        nm.has_targs = true;
        nm.is_template = true;
        prev_args = true;
      }
      else if (c == 'T')
      {
        if (ncomp > 0) unspec = true;
        node = template_param();
        if (fail_) return nm;
        if (N[node].k != Node::base) unspec = true;
        nm.text += print(node);
        nm.last = N[node].last;
        prev_args = false;
        if (cur() == 'E') unspec = true;
      }
      else
      {
        if ((nm.is_cdtor || nm.is_operator) && ncomp > 0) unspec = true;        // A name inside an operator or constructor.
        unqualified(nm, ncomp > 0);
        if (fail_) return nm;
        prev_args = false;
      }
      ++ncomp;
      if (addit && cur() != 'E')
      {
        int b = mkbase(nm.text, nm.last);
        add(b);
        if (nm.is_operator || nm.is_cdtor) N[b].is_unspec = true;
      }
      if (cur() == 'E') { ++p; return nm; }
      if (cur() != 'I') nm.text += "::";
      if (end()) { fail_ = true; return nm; }
    }
  }
  bool no_T_in_name = true;

  void discriminator()
  {
    if (cur() == '_')
    {
      ++p;
      if (cur() == 'n') { unspec = true; return; }
      if (cur() == '_') unspec = true;          // Newer ABI: __<number>_.
      number(false);
    }
  }
  Name local_name()
  {
    ++p;        // 'Z'
    Name nm;
    if (end()) { fail_ = true; return nm; }
    std::string f = nested_encoding();
    if (fail_) return nm;
    if (cur() != 'E') { fail_ = true; return nm; }
    ++p;
    if (cur() == 's')
    {
      ++p;
      nm.text = f + "::string literal";
      nm.is_type = false;
      if (digit(cur()) || lower(cur())) unspec = true;          // Like operator names that start with an s.
    }
    else
    {
      if (cur() == 'Z') unspec = true;          // The entity of a local name is not itself a local name...
      if (cur() == 'd' || cur() == 'U') unspec = true;
      nm = name();
      if (fail_) return nm;
      nm.text = f + "::" + nm.text;
    }
    discriminator();
    return nm;
  }
  // An encoding inside another name: it has its own template arguments but shares the substitutions.
  std::string nested_encoding()
  {
    auto save_t = targs;
    bool save_n = no_T, save_i = in_targs, save_x = no_T_in_name;
    int save_d = depth;
    targs = nullptr;
    no_T = in_targs = false;
    no_T_in_name = true;
    depth = 0;
    std::string r = encoding();
    targs = save_t; no_T = save_n; in_targs = save_i; depth = save_d; no_T_in_name = save_x;
    return r;
  }

  Name name()
  {
    Name nm;
    if (cur() == 'N') return nested_name();
    if (cur() == 'Z') return local_name();
    int base = -1;
    if (cur() == 'S' && peek() != 't')
    {
      unspec = true;    // A substitution alone is not the name of a function or object.
      int t = substitution();
      if (fail_) return nm;
      nm.text = print(t);
    }
    else
    {
      if (cur() == 'S')
      {
        p += 2;
        nm.text = "std::";
      }
      unqualified(nm, false);
      if (fail_) return nm;
      if (nm.is_conv) unspec = true;
      base = 1;
    }
    if (cur() == 'I')
    {
      if (base >= 0)
      {
        int b = mkbase(nm.text, nm.last);
        N[b].is_unspec = nm.is_operator;
        add(b);
      }
      if (nm.space) nm.text += ' ';
      nm.space = false;
      std::vector<Targ> args;
      nm.text += template_args(args, targs == nullptr || no_T_in_name);
      if (fail_) return nm;
      nm.targs = args;
      nm.has_targs = true;
      nm.is_template = true;
    }
    nm.space = false;
    return nm;
  }

  std::string expression(int lvl)
  {
    if (lvl > 12) unspec = true;
    char c = cur();
    if (c == 'T') { int t = template_param(); return fail_ ? std::string() : print(t); }
    if (c == 'L')
    {
      std::string r = literal();
      if (!fail_ && cur() != 'E') fail_ = true;
      ++p;
      return r;
    }
    char d = peek();
    if (c == 's' && (d == 't' || d == 'z'))
    {
      p += 2;
      std::string r = "sizeof (";
      if (d == 't') { int t = type(); if (fail_) return r; r += print(t); }
      else r += expression(lvl + 1);
      return r + ")";
    }
    if (c == 's' && d == 'r')
    {
      p += 2;
      int t = type();
      if (fail_) return {};
      std::string r = print(t) + "::";
      Name nm;
      unqualified(nm, true);
      if (fail_) return {};
      if (nm.is_cdtor || nm.is_operator) unspec = true;
      r += nm.text;
      if (cur() == 'I')
      {
        std::vector<Targ> a;
        bool save = no_T;
        r += template_args(a, false);
        no_T = save;
      }
      return r;
    }
    if (c == 'c' && d == 'v')
    {
      p += 2;
      int t = type();
      if (fail_) return {};
      std::string r = "(" + print(t) + ")(";
      return r + expression(lvl + 1) + ")";
    }
    Op const* op = find_op(c, d);
    if (!op)
    {
      if ((c == 'a' && (d == 's' || d == 'S')) || (c == 'c' && d == 'V')) unspec = true;
      fail_ = true;
      return {};
    }
    p += 2;
    std::string r;
    // Protect the '>' of the expression when it is part of a template argument.
    bool gt = !strcmp(op->name, ">") && targ_depth;
    if (gt && (!in_targs || in_index)) unspec = true;
    if (op->arity == 1) r += op->name;
    if (gt) r += "(";
    r += "(" + expression(lvl + 1) + ")";
    if (fail_) return r;
    if (op->arity > 1)
    {
      r += std::string(" ") + op->name + " (" + expression(lvl + 1) + ")";
      if (fail_) return r;
      if (gt) r += ")";
      if (op->arity == 3) r += " : (" + expression(lvl + 1) + ")";
    }
    return r;
  }
  std::string literal()
  {
    ++p;        // 'L'
    if (cur() == '_')
    {
      ++p;
      if (cur() != 'Z') { fail_ = true; return {}; }
      ++p;
      if (end()) { fail_ = true; return {}; }
      return nested_encoding();
    }
    char c = cur();
    if (c == 'b')
    {
      char d = peek();
      if (d != '0' && d != '1') { unspec = true; fail_ = true; return {}; }
      p += 2;
      return d == '1' ? "true" : "false";
    }
    std::string r;
    if (c == 'i') ++p;
    else
    {
      int t = type();
      if (fail_) return {};
      r = "(" + print(t) + ")";
    }
    if (c == 'd' || c == 'f')
    {
      int len = c == 'd' ? 16 : 8;
      for (int i = 0; i < len; ++i)
        if (!(digit(peek(i)) || (peek(i) >= 'a' && peek(i) <= 'f'))) { fail_ = true; return {}; }
      unspec = true;            // The text of real literals is checked separately.
      p += len;
      return r;
    }
    if (c == 'e' || c == 'g') { unspec = true; fail_ = true; return r; }
    return r + number(true);
  }

  // Returns "(...)".
  std::string bare_function_type(bool dtor)
  {
    if (cur() == 'v')
    {
      if (peek() && peek() != 'E') { fail_ = true; return {}; }
      ++p;
      return "()";
    }
    if (dtor) { fail_ = true; return {}; }
    std::string r = "(";
    int cnt = 0;
    do
    {
      if (cnt++) { r += ", "; if (cur() == 'v') unspec = true; }
      int t = type();
      if (fail_) return r;
      r += print(t);
    }
    while (!end() && cur() != 'E');
    return r + ")";
  }

  static char const* builtin(char c)
  {
    switch (c)
    {
      case 'v': return "void"; case 'w': return "wchar_t"; case 'b': return "bool"; case 'c': return "char"; case 'a': return "signed char"; case 'h': return "unsigned char";
      case 's': return "short"; case 't': return "unsigned short"; case 'i': return "int"; case 'j': return "unsigned int"; case 'l': return "long"; case 'm': return "unsigned long";
      case 'x': return "long long"; case 'y': return "unsigned long long"; case 'n': return "__int128"; case 'o': return "unsigned __int128"; case 'f': return "float";
      case 'd': return "double"; case 'e': return "long double"; case 'g': return "__float128"; case 'z': return "..."; default: return nullptr;
    }
  }

  struct D { int& d; D(int& d_) : d(d_) { ++d; } ~D() { --d; } };
  int type()
  {
    D guard(depth);
    int save_reach = reach;
    reach = depth;
    int t = type_();
    if (!fail_) N[t].level = std::max(N[t].level, reach - depth + 1);
    reach = std::max(reach, save_reach);
    return t;
  }
  int type_()
  {
    char c = cur();
    switch (c)
    {
      case 'P': case 'R':
      {
        ++p;
        int t = type();
        if (fail_) return 0;
        int r = mk(c == 'P' ? Node::ptr : Node::ref, t);
        add(r);
        return r;
      }
      case 'K': case 'V': case 'r':
      {
        int mask = 0;
        for (; cur() == 'K' || cur() == 'V' || cur() == 'r'; ++p)
        {
          int m = cur() == 'K' ? 1 : cur() == 'V' ? 2 : 4;
          if (mask & m) unspec = true;
          mask |= m;
        }
        int t = type();
        if (fail_) return 0;
        int r = mk(Node::cv, t);
        N[r].cvmask = mask;
        add(r);
        return r;
      }
      case 'U':
      {
        ++p;
        std::string v = source_name();
        if (fail_) return 0;
        int t = type();
        if (fail_) return 0;
        int r = mk(Node::vendor, t);
        N[r].text = v;
        add(r);
        return r;
      }
      case 'A':
      {
        ++p;
        std::string idx;
        if (cur() == '_') ;
        else if (digit(cur())) idx = number(false);
        else
        {
          bool save = in_targs, save_index = in_index;
          in_index = true;
          idx = expression(0);
          in_targs = save;
          in_index = save_index;
        }
        if (fail_) return 0;
        if (cur() != '_') return bad();
        ++p;
        int t = type();
        if (fail_) return 0;
        int r = mk(Node::array, t);
        N[r].text = idx;
        add(r);
        return r;
      }
      case 'M':
      {
        ++p;
        int cls = type();
        if (fail_) return 0;
        { int x = cls; while (N[x].k == Node::cv) x = N[x].sub; if (N[x].k != Node::base) unspec = true; }       // Not a class.
        std::string ctext = print(cls);
        int q = p;
        while (q < n && (s[q] == 'K' || s[q] == 'V' || s[q] == 'r')) ++q;
        if (q == n) touched = true;
        if (q < n && s[q] == 'F')
        {
          int mask = 0;
          for (; p < q; ++p) { int m = s[p] == 'K' ? 1 : s[p] == 'V' ? 2 : 4; if (mask & m) unspec = true; mask |= m; }
          ++p;
          if (cur() == 'Y') unspec = true;
          int ret = type();
          if (fail_) return 0;
          check_return(ret);
          std::string args = bare_function_type(false);
          if (fail_) return 0;
          if (cur() != 'E') return bad();
          ++p;
          int f = mk(Node::func, ret);
          N[f].text = args;
          N[f].is_unspec = mask != 0;
          add(f);
          int r = mk(Node::memfunc, ret);
          N[r].text = ctext;
          N[r].last = args;
          N[r].cvmask = mask;
          add(r);
          return r;
        }
        int t = type();
        if (fail_) return 0;
        int r = mk(Node::memptr, t);
        N[r].text = ctext;
        add(r);
        return r;
      }
      case 'C': case 'G':
      {
        ++p;
        char const* b = builtin(cur());
        if (!b || !strchr("fdeg", cur())) { unspec = true; return bad(); }
        ++p;
        int r = mkbase((c == 'C' ? "complex " : "imaginary ") + std::string(b));
        add(r);
        return r;
      }
      case 'F':
      {
        ++p;
        bool ext = false;
        if (cur() == 'Y') { ext = true; ++p; }
        int ret = type();
        if (fail_) return 0;
        check_return(ret);
        std::string args = bare_function_type(false);
        if (fail_) return 0;
        if (cur() != 'E') return bad();
        ++p;
        int r = mk(Node::func, ret);
        N[r].text = args;
        N[r].ext_c = ext;
        add(r);
        return r;
      }
      case 'T':
      {
        int t = template_param();
        if (fail_) return 0;
        if (param_is_expr) unspec = true;       // A value can not be used as a type.
        // A template parameter is a substitution candidate, also when it is bound to a builtin type.
        if (cur() == 'I')
        {
          add(t);
          std::vector<Targ> a;
          std::string text = print(t);
          if (N[t].k != Node::base) unspec = true;
          text += template_args(a, false);
          if (fail_) return 0;
          int r = mkbase(text, N[t].last);
          add(r);
          return r;
        }
        add(t);
        return t;
      }
      case 'S':
      {
        if (!peek()) return bad();
        if (peek() != 't')
        {
          int t = substitution();
          if (fail_) return 0;
          if (cur() == 'I')
          {
            if (N[t].k != Node::base) unspec = true;
            std::vector<Targ> a;
            std::string text = print(t);
            text += template_args(a, false);
            if (fail_) return 0;
            int r = mkbase(text, N[t].last);
            add(r);
            return r;
          }
          return t;
        }
      }
      /*FALLTHROUGH*/
      case 'N': case 'Z': case '0': case '1': case '2': case '3': case '4': case '5': case '6': case '7': case '8': case '9':
      {
        bool save = no_T_in_name;
        no_T_in_name = false;
        Name nm = name();
        no_T_in_name = save;
        if (fail_) return 0;
        if (!nm.is_type || nm.is_cdtor || nm.is_operator) unspec = true;
        int r = mkbase(nm.text + nm.cv, nm.last);
        if (!nm.cv.empty()) unspec = true;
        add(r);
        return r;
      }
      default:
      {
        char const* b = builtin(c);
        if (!b)
        {
          if (c == 'u') unspec = true;          // Vendor extended builtin type.
          return bad();
        }
        ++p;
        return mkbase(b);
      }
    }
  }

  bool call_offset()
  {
    if (cur() == 'h')
    {
      ++p;
      number(true);
    }
    else if (cur() == 'v')
    {
      ++p;
      number(true);
      if (fail_ || cur() != '_') { fail_ = true; return false; }
      ++p;
      number(true);
    }
    else fail_ = true;
    if (fail_ || cur() != '_') { fail_ = true; return false; }
    ++p;
    return true;
  }
  std::string special_name()
  {
    if (cur() == 'G')
    {
      if (peek() != 'V') { if (peek() == 'R') unspec = true; fail_ = true; return {}; }
      p += 2;
      Name nm = name();
      return "guard variable for " + nm.text + nm.cv;
    }
    char c = peek();
    switch (c)
    {
      case 'V': case 'T': case 'I': case 'S':
      {
        p += 2;
        int t = type();
        if (fail_) return {};
        return (c == 'V' ? "vtable for " : c == 'T' ? "VTT for " : c == 'I' ? "typeinfo for " : "typeinfo name for ") + print(t);
      }
      case 'C':
      {
        p += 2;
        int a = type();
        if (fail_) return {};
        if (!digit(cur())) unspec = true;
        while (digit(cur())) ++p;
        if (cur() != '_') { fail_ = true; return {}; }
        ++p;
        int b = type();
        if (fail_) return {};
        return "construction vtable for " + print(b) + "-in-" + print(a);
      }
      case 'c':
        p += 2;
        if (!call_offset() || !call_offset()) return {};
        if (end()) { fail_ = true; return {}; }
        return "covariant return thunk to " + nested_encoding();
      case 'h': case 'v':
        p += 1;
        if (!call_offset()) return {};
        if (end()) { fail_ = true; return {}; }
        return (c == 'v' ? "virtual thunk to " : "non-virtual thunk to ") + nested_encoding();
      default:
        fail_ = true;
        return {};
    }
  }

 public:
  std::string encoding()
  {
    if (end()) { fail_ = true; return {}; }
    if (cur() == 'T' || cur() == 'G') return special_name();
    no_T_in_name = true;
    auto save_noT = no_T;
    no_T = true;
    Name nm = name();
    no_T = save_noT;
    if (fail_) return {};
    if (end() || cur() == 'E') return nm.text + nm.cv;
    std::vector<Targ> args = nm.targs;
    targs = nm.has_targs ? &args : nullptr;
    no_T_in_name = false;
    std::string rp, rq;
    if (nm.is_template && !nm.is_cdtor && !nm.is_conv)
    {
      int t = type();
      if (fail_) { targs = nullptr; return {}; }
      pr(t, "", "", false, 0, rp, rq);
      rp += ' ';
    }
    std::string a = bare_function_type(nm.is_dtor);
    targs = nullptr;
    return rp + nm.text + a + nm.cv + rq;
  }
};

} // namespace refdem
