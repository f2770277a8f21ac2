// Fixture for C22: inline functions and templates from a header.
#pragma once
extern "C" int fx_sink(int);
extern volatile int fx_v;
static inline __attribute__((always_inline)) int fx_inner(int x)
{
  fx_v += x;
  int y = x * fx_v + 3;
  fx_v ^= y;
  return y;
}
static inline __attribute__((always_inline)) int fx_middle(int x)
{
  int r = fx_v;
  if (x & 1)
  {
    int k = fx_inner(x + 1);
    r += k;
  }
  fx_v -= r;
  return r + fx_sink(x);
}
inline int fx_comdat(int x)     // May be inlined, or not, in both translation units.
{
  for (int i = 0; i < x; ++i)
    fx_v += fx_inner(i);
  return fx_v;
}
template <class T, int N>
struct Tmpl
{
  T a[N];
  __attribute__((noinline)) T sum(T add) const
  {
    T r = add;
    for (int i = 0; i < N; ++i)
      r += a[i];
    return r;
  }
  T twice() const { return sum(1) + sum(2); }
};
struct Base
{
  int m;
  Base(int x);
  virtual ~Base();
  virtual int f(int x = fx_sink(3)) { return fx_inner(x) + m; }
  int operator()(int a, int b) const;
  static int s(Base const&);
};
