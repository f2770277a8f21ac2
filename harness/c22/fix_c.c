extern int fx_sink(int);
static int __attribute__((noinline)) same_name(int x) { return fx_sink(x) + 3; }
static inline __attribute__((always_inline)) int c_inline(int x) { int y = fx_sink(x); return y * 2; }
int c_function(int x)
{
  int a = same_name(x);
  a += c_inline(a);
  return a;
}
