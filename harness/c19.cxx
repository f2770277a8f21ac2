// C19: type_info_of for all types made of up to a number of type constructors.
#include "c19.h"
#include "refdem.h"
#include "vx.h"
#include <unordered_map>

char storage[64];
static std::vector<Row> rows;
void add(Row const& r) { rows.push_back(r); }
namespace {
std::string q(char const* s) { return s ? '"' + std::string(s) + '"' : "NULL"; }
}
#define GROUPS X(0) X(1) X(2) X(3) X(4) X(5) X(6) X(7) X(8) X(9) X(10) X(11) X(12) X(13) X(14) X(15) X(16) X(17) X(18) X(19) X(20) X(21) X(22) X(23) X(24) X(25) X(26) X(27) X(28) X(29) X(30) X(31)
#define X(n) void group##n();
GROUPS
#undef X

int main(int argc, char** argv)
{
  vx::init(argc, argv);
#define X(n) group##n();
  GROUPS
  long compared = 0;
  std::unordered_map<std::string, char const*> names, texts;
  for (size_t i = 0; i < rows.size(); ++i)
  {
    Row const& r = rows[i];
    // The encoding that is expected is that of the compiler.
    // (GCC does not strip the qualifiers of the elements of an array).
    std::string tn = r.typeid_name;
    if (tn[0] == '*') tn.erase(0, 1);
    bool conform = tn == r.stripped;
    if (!vx::take()) continue;
    if (vx::verbose()) vx::describe(std::string("type_info_of<") + r.cxx + ">()");
    if (!conform) { fprintf(stderr, "generator: %s: %s, typeid says %s\n", r.cxx, r.stripped, r.typeid_name); return 2; }
    auto test = [&](std::string const& what, libcwd::TypeInfo const& ti, std::string want, size_t size, size_t ref_size) {
      char const* n = ti.name();
      char const* d = ti.demangled_name();
      if (!n || n[0] == '*' ? !n || n + 1 != want : n != want) return vx::fail("name", what + ".name() is " + q(n) + ", expected \"" + want + "\"");
      if (ti.size() != size) return vx::fail("size", what + ".size() is " + std::to_string(ti.size()) + ", expected " + std::to_string(size));
      if (ti.ref_size() != ref_size) return vx::fail("ref_size", what + ".ref_size() is " + std::to_string(ti.ref_size()) + ", expected " + std::to_string(ref_size));
      std::string text; bool dead = false;
      if (!d) return vx::fail("demangled", what + ".demangled_name() is NULL");
      if (refdem::Ref::type(want.data(), want.size(), text, &dead) == refdem::VALID)
      {
        ++compared;
        if (d != text) return vx::fail("demangled", what + ".demangled_name() is " + q(d) + ", expected \"" + text + "\"");
      }
      vx::outcome(std::string(n) + ' ' + d + ' ' + std::to_string(size) + ' ' + std::to_string(ref_size));
      vx::state(std::hash<std::string>()(what + n));
    };
    std::string what = std::string("type_info_of<") + r.cxx + ">()", ewhat = std::string("type_info_of(expression of type ") + r.cxx + ")";
    // Both orders of first use.
    if (i % 2)
    {
      test(ewhat, r.by_expr(), r.stripped, r.expr_size, r.expr_ref_size);
      test(what, r.by_type(), r.full, r.size, r.ref_size);
    }
    else
    {
      test(what, r.by_type(), r.full, r.size, r.ref_size);
      test(ewhat, r.by_expr(), r.stripped, r.expr_size, r.expr_ref_size);
    }
    // And again.
    test(what, r.by_type(), r.full, r.size, r.ref_size);
    test(ewhat, r.by_expr(), r.stripped, r.expr_size, r.expr_ref_size);
    if (&r.by_type() != &r.by_type()) vx::fail("same", what + " returned different objects");
    if (i % 997 == 0) vx::sample(what + " is \"" + r.by_type().demangled_name() + "\" (" + r.by_type().name() + "), " + std::to_string(r.by_type().size()) + ", " + std::to_string(r.by_type().ref_size()));
  }
  if (vx::take())
  {
    vx::describe("unknown_type_info_c");
    libcwd::TypeInfo const& u = libcwd::unknown_type_info_c;
    if (u.name() || u.size() || u.ref_size() || std::string(u.demangled_name()) != "<unknown type>") vx::fail("unknown", "unknown_type_info_c is not that of an unknown type");
    vx::sample("unknown_type_info_c is \"<unknown type>\"");
  }
  vx::g.notes["demangled names compared"] = std::to_string(compared);
  vx::done();
}
