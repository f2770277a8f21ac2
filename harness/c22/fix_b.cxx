#include "fix.h"
// The second translation unit.
static __attribute__((noinline)) int same_name(int x)
{
  return fx_sink(x) + 2;
}
namespace space {
int second(int x)
{
  int r = fx_comdat(x);
  r += same_name(r);
  {
    int q = fx_middle(r);
    r += fx_sink(q);
  }
  return r;
}
} // namespace space
extern "C" double fx_tmpl_b(Tmpl<double, 2> const& t, Tmpl<long, 3> const& u)
{
  return t.twice() + u.twice();
}
int dynamically_initialized_b = same_name(2);
struct Outer { struct Nested { Nested(int); int x; }; };
Outer::Nested::Nested(int a) : x(fx_inner(a)) { fx_sink(x); }
extern "C" int fx_use_nested(int a) { return Outer::Nested(a).x; }
