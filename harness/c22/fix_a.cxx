#include "fix.h"
#include <exception>
volatile int fx_v = 3;
extern "C" __attribute__((noinline)) int fx_sink(int x) { fx_v = x; return fx_v; }

static __attribute__((noinline)) int same_name(int x)
{
  return fx_sink(x) + 1;
}
namespace space { namespace {
__attribute__((noinline)) int hidden(int a,
    int b)
{
  int c = fx_sink(a);
  c += fx_sink(b);
  return c;
}
} // namespace
int visible(int x)
{
  return hidden(x, fx_middle(x));
}
inline namespace v1 { int versioned(int x) { return fx_comdat(x); } }
} // namespace space

Base::Base(int x) : m(fx_sink(x))
{
  fx_v += m;
}
Base::~Base()
{
  fx_v -= m;
}
int Base::operator()(int a, int b) const
{
  auto lambda = [&](int c) __attribute__((noinline)) {
    fx_v += c;
    return fx_sink(a) + b + m;
  };
  return lambda(a) + lambda(b);
}
int Base::s(Base const& b)
{
  struct Local
  {
    int k;
    __attribute__((noinline)) int go(int x) { return fx_sink(k) + x; }
  };
  Local l{b.m};
  return l.go(1) + l.go(2);
}
struct Derived : Base, virtual Tmpl<int, 4>
{
  Derived() : Base(1) { fx_v = 1; }
  ~Derived() { fx_v = 2; }
  int f(int x) override { return Base::f(x) + twice(); }
};
extern "C" int fx_use_derived()
{
  Derived d;
  Base* b = &d;
  return b->f() + (*b)(1, 2) + Base::s(d);
}
// A function with a cold part.
extern "C" __attribute__((noreturn, cold, noinline)) void fx_die(int x) { fx_sink(x); __builtin_trap(); }
extern "C" int fx_cold_path(int x, int* p)
{
  int r = 0;
  for (int i = 0; i < x; ++i)
  {
    if (__builtin_expect(p[i] < 0, 0))
    {
      fx_sink(p[i]);
      fx_sink(r);
      if (p[i] < -100)
        fx_die(i);
      throw p[i];
    }
    r += p[i];
  }
  return r;
}
extern "C" int fx_catches(int x, int* p)
{
  try
  {
    return fx_cold_path(x, p);
  }
  catch (int i)
  {
    return fx_inner(i);
  }
  catch (std::exception&)
  {
    return -1;
  }
}
extern "C" int fx_switch(int x)
{
  switch (x)
  {
    case 0: return fx_sink(10);
    case 1: return fx_sink(20) + 1;
    case 2: return fx_sink(30) + 2;
    case 3: return fx_middle(40);
    case 4: fx_sink(50);
    case 5: return fx_sink(60) * 2;
    case 6: return fx_comdat(2);
  }
  return fx_sink(x);
}
__attribute__((section("fx_other_text"), noinline)) int other_section(int x)
{
  return fx_middle(x) + 2;
}
#define TWO_LINES(x) \
  fx_sink(x); \
  fx_sink(x + 1)
int with_macro(int x)
{
  TWO_LINES(x); TWO_LINES(x + 2);
  return
    x
    ? same_name(x)
    : other_section(x);
}
#line 100 "generated/parser.y"
int from_generated(int x)
{
#line 7
  fx_sink(x);
#line 65000 "/abs/olute/lexer.l"
  return same_name(x);
#line 125 "fix_a.cxx"
}
int recursive(int x)
{
  return x < 2 ? fx_sink(x) : recursive(x - 1) + recursive(x - 2);
}
static int init_helper() { return fx_sink(77); }
int dynamically_initialized = init_helper();
thread_local int tl = fx_sink(5);
int& use_tl() { return tl; }
int use_static_local() { static int s = fx_sink(8); return s; }
asm(".text\n.p2align 4\n.globl fx_asm\n.type fx_asm,@function\nfx_asm: nop\nnop\nret\n.size fx_asm,.-fx_asm\nfx_nosize_hole: nop\nnop\nret\nnop\n.p2align 4\n"
    ".type fx_asm_local,@function\nfx_asm_local: ret\nnop\n.size fx_asm_local,.-fx_asm_local\nfx_hole2: nop\n");
template struct Tmpl<int, 4>;
template struct Tmpl<double, 2>;
