// Controlled scheduler for real code.
//
// The library and the harness are compiled with -fsanitize=thread but linked with this instead of libtsan.  From mc_begin on exactly one
// thread runs at a time; at each scheduling point the next thread is picked, as told by the prefix in shared memory and after that by default
// the same one.  Scheduling points are: operations on locks, atomics and memory that were found to be accessed by several threads without
// being ordered by thread creation or synchronization (learned in earlier executions), explicit points, blocking, sleeping and the end of a thread.
// Memory is never reused, so that every use of released memory by instrumented code is found.
//
// This file itself must not use any template or inline function that is also used by instrumented code.
#include "mcrt.h"
#include <cerrno>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <link.h>
#include <linux/futex.h>
#include <malloc.h>
#include <new>
#include <pthread.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

using namespace mcrt;

extern "C" {
void* __real_malloc(size_t);
void __real_free(void*);
void* __real_realloc(void*, size_t);
void* __real_calloc(size_t, size_t);
void* __real_memcpy(void*, void const*, size_t);
void* __real_memmove(void*, void const*, size_t);
void* __real_memset(void*, int, size_t);
void* __real_dlsym(void*, char const*);
int __real_dl_iterate_phdr(int (*)(struct dl_phdr_info*, size_t, void*), void*);
}

namespace {

constexpr int T = max_threads;
enum Kind { K_NONE, K_LOCK, K_UNLOCK, K_ATOMIC, K_PLAIN, K_POINT, K_YIELD, K_BLOCK, K_END, K_CREATE, K_JOIN };
enum Wait { W_RUN, W_MUTEX, W_COND, W_RD, W_WR, W_UPGRADE, W_UPYIELD, W_JOIN, W_GUARD, W_FOREVER, W_DONE };

struct Sync
{
  uint64_t addr;
  int owner;            // -1: not locked.  Mutex, guard and writer of a read/write lock.
  int count;
  int readers[T];
  int nreaders;
  int upgrading;        // -1 or the thread that is waiting to upgrade.
  bool tried;           // trylock was used on it.
  uint32_t vc[T], rvc[T];
};
struct Thr
{
  int futex;
  Wait wait;
  Sync* on;             // What it is waiting for.
  int join;
  bool signalled;
  bool timed;
  int reacquire;        // Recursion count of the mutex that has to be reacquired after a cond wait.
  void* (*start)(void*);
  void* arg;
  pthread_t real;
  uint32_t vc[T];
  char* heap; char* heap_end;
  bool detached, joined;
  uint32_t pending[T];  // What an acquire fence synchronizes with.
  bool fence_released;  // Did a release fence.
};
struct Cell { uint32_t w[T], r[T]; uint8_t freed; };
struct Block { Cell c[64]; };
// Per thread the last plain and atomic reads and writes, to find data races: conflicting accesses that are not ordered according to the memory model.
struct Last { uint32_t clock : 24; uint32_t mask : 8; };
struct RCell { Last a[4][T]; };         // Plain read, plain write, atomic read, atomic write.
struct RBlock { RCell c[64]; };

Shared* sh;
bool active;
thread_local int self = -1;
Thr thr[T];
int nthr;
int current;
int preemptions;
pthread_key_t key;

constexpr int NSYNC = 2048;
Sync* syncs;            // NSYNC
struct BlockKey { uint64_t key; Block* b; };
constexpr int NKEYS = 1 << 15;
BlockKey* keys;
Block* blocks; size_t nblocks, maxblocks;
bool races; RBlock* rblocks;
BlockKey* last_key;
int nkeys, nsyncs; uint16_t usedkeys[NKEYS], usedsyncs[NSYNC];
char* stacks; constexpr size_t STACK = 1 << 20;
char* heap_base; constexpr size_t HEAP = 64 << 20;
// What is restored after an execution: the variables of the program and of the C++ library, and the memory allocated during the setup.
bool in_setup = true;
char *setup_base, *setup_ptr; constexpr size_t SETUP = 64 << 20;
struct Region { char* addr; char* copy; size_t n; };
Region* regions; int nregions;

void* reserve(size_t n)
{
  void* p = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (p == MAP_FAILED) { (void)!write(2, "mcrt: mmap failed\n", 18); _exit(2); }
  return p;
}

[[noreturn]] void quit(int status, int code, char const* fmt, ...) __attribute__((format(printf, 3, 4)));
void quit(int status, int code, char const* fmt, ...)
{
  active = false;
  sh->status = status;
  sh->code = code;
  sh->tid = self;
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(sh->msg, sizeof sh->msg, fmt, ap);
  va_end(ap);
  sh->preemptions = preemptions;
  syscall(SYS_exit_group, 0);
  __builtin_unreachable();
}

bool is_learned(uint64_t g)
{
  for (uint64_t i = (g * 0x9E3779B97F4A7C15ull) >> 40;; ++i)
  {
    uint64_t v = sh->learned[i & (max_learned - 1)];
    if (v == g) return true;
    if (v == 0) return false;
  }
}
void learn(uint64_t g)
{
  for (uint64_t i = (g * 0x9E3779B97F4A7C15ull) >> 40;; ++i)
  {
    uint64_t& v = sh->learned[i & (max_learned - 1)];
    if (v == g) return;
    if (v == 0)
    {
      if (sh->nlearned > max_learned / 2) quit(OVERFLOW_, 0, "too many scheduling points");
      v = g; ++sh->nlearned; sh->learned_new = 1; return;
    }
  }
}
Cell* cell(uint64_t g)
{
  uint64_t k = (g >> 6) + 1;
  if (last_key && last_key->key == k) return &last_key->b->c[g & 63];
  for (uint64_t i = (k * 0x9E3779B97F4A7C15ull) >> 40;; ++i)
  {
    BlockKey* b = &keys[i & (NKEYS - 1)];
    if (b->key == 0)
    {
      if (nblocks >= maxblocks || nblocks > NKEYS / 2) quit(OVERFLOW_, 0, "too much memory is used");
      b->key = k; b->b = &blocks[nblocks++]; usedkeys[nkeys++] = b - keys;
    }
    if (b->key == k) { last_key = b; return &b->b->c[g & 63]; }
  }
}
Sync* sync(void* p)
{
  uint64_t a = (uint64_t)p;
  for (uint64_t i = (a * 0x9E3779B97F4A7C15ull) >> 40;; ++i)
  {
    Sync* s = &syncs[i & (NSYNC - 1)];
    if (s->addr == 0)
    {
      if (nsyncs > NSYNC / 2) quit(OVERFLOW_, 0, "too many locks");
      s->addr = a; s->owner = -1; s->upgrading = -1; usedsyncs[nsyncs++] = s - syncs;
    }
    if (s->addr == a) return s;
  }
}
void join_vc(uint32_t* a, uint32_t const* b) { for (int i = 0; i < T; ++i) if (b[i] > a[i]) a[i] = b[i]; }
void release_to(uint32_t* v) { join_vc(v, thr[self].vc); ++thr[self].vc[self]; }
void acquire_from(uint32_t const* v) { join_vc(thr[self].vc, v); }

// Returns true when this access conflicts with an unordered one of another thread.
bool access(uint64_t g, bool w)
{
  Cell* c = cell(g);
  Thr& t = thr[self];
  bool r = false;
  for (int i = 0; i < T; ++i)
    if (i != self && (c->w[i] > t.vc[i] || (w && c->r[i] > t.vc[i]))) r = true;
  if (w) c->w[self] = t.vc[self]; else c->r[self] = t.vc[self];
  return r;
}

bool enabled(int i)
{
  Thr& t = thr[i];
  switch (t.wait)
  {
    case W_RUN: return true;
    case W_MUTEX: return t.on->owner == -1;
    case W_GUARD: return t.on->owner == -1;
    case W_COND: return t.signalled || t.timed;
    case W_RD: return t.on->owner == -1 && t.on->upgrading == -1;
    case W_WR: return t.on->owner == -1 && t.on->nreaders == 0;
    case W_UPGRADE: return t.on->nreaders == 1;
    case W_UPYIELD: return t.on->upgrading == -1;
    case W_JOIN: return thr[t.join].wait == W_DONE;
    default: return false;
  }
}

int ending;     // The kernel's number of a thread that ended, until it is really gone.
void gone()
{
  int t = ending;
  if (!t) return;
  // What the C library does at the end of a thread should not happen at the same time as what the next thread does.
  while (syscall(SYS_tgkill, syscall(SYS_getpid), t, 0) == 0) syscall(SYS_sched_yield);
  ending = 0;
}
void futex_wait(int i) { while (__atomic_load_n(&thr[i].futex, __ATOMIC_ACQUIRE) == 0) syscall(SYS_futex, &thr[i].futex, FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0); __atomic_store_n(&thr[i].futex, 0, __ATOMIC_RELAXED); gone(); }
void futex_wake(int i) { __atomic_store_n(&thr[i].futex, 1, __ATOMIC_RELEASE); syscall(SYS_futex, &thr[i].futex, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0); }

char const* wait_name(Wait w)
{
  static char const* const n[] = {"running", "waits for a mutex", "waits for a condition variable", "waits for a read lock", "waits for a write lock", "waits to upgrade a read lock", "waits for another upgrade", "waits for a thread to end",
    "waits for a static to be initialized", "sleeps forever", "ended"};
  return n[w];
}

// Hand over to the next thread.  Returns when self runs again (at once when finished is set).
void decide(Kind kind, uint64_t pc, uint64_t addr, bool yield = false, bool finished = false)
{
  ++sh->points;
  if (sh->points > 200000) quit(LIVELOCK, 0, "no end after %llu scheduling points", (unsigned long long)sh->points);
  int cand[T], n = 0;
  bool self_enabled = !finished && enabled(self);
  if (self_enabled && !yield) cand[n++] = self;
  for (int i = 0; i < nthr; ++i) if (i != self && enabled(i)) cand[n++] = i;
  if (n == 0 && self_enabled) cand[n++] = self;
  if (n == 0)
  {
    bool forever = false, blocked = false, alldone = true;
    char b[600]; int l = 0;
    for (int i = 0; i < nthr; ++i)
    {
      if (thr[i].wait != W_DONE) alldone = false;
      if (thr[i].wait == W_FOREVER) forever = true; else if (thr[i].wait != W_DONE && thr[i].wait != W_JOIN) blocked = true;
      l += snprintf(b + l, sizeof b - l, "%sthread %d %s", i ? ", " : "", i, wait_name(thr[i].wait));
      if (thr[i].wait == W_MUTEX && thr[i].on->owner >= 0) l += snprintf(b + l, sizeof b - l, " of thread %d", thr[i].on->owner);
    }
    if (alldone) quit(FINISHED, 0, "all threads ended");
    quit(forever && !blocked ? ALL_SLEEP : DEADLOCK, 0, "%s", b);
  }
  bool preempting = self_enabled && !yield;
  if (preempting && preemptions >= sh->bound) n = 1;
  int pick = 0;
  if (n > 1)
  {
    if (sh->nchoices >= max_choices) quit(LIVELOCK, 0, "no end after %d choices", max_choices);
    uint32_t c = sh->nchoices++;
    if (c < sh->nprefix) pick = sh->prefix[c];
    if (pick >= n) quit(DIVERGED, 0, "choice %u: %d of %d", c, pick, n);
    sh->n[c] = n; sh->picked[c] = pick;
  }
  int to = cand[pick];
  if (to == self) return;
  if (preempting) ++preemptions;
  ++sh->switches;
  if (sh->tracelen < max_trace) { auto& e = sh->trace[sh->tracelen++]; e.from = self; e.to = to; e.kind = kind; e.pc = pc; e.addr = addr; }
  int me = self;
  current = to;
  if (finished) self = -1;
  futex_wake(to);
  if (!finished) futex_wait(me);
}
void block(Wait w, Sync* s, uint64_t pc)
{
  Thr& t = thr[self];
  t.wait = w; t.on = s;
  if (!enabled(self) || w == W_COND) decide(K_BLOCK, pc, s ? s->addr : 0);
  t.wait = W_RUN;
}

bool on() { return active && self >= 0; }

#define PC ((uint64_t)__builtin_return_address(0))

void check_freed(Cell* c, uint64_t a, uint64_t pc)
{
  if (c->freed) quit(USE_AFTER_FREE, 0, "use of released memory; pc=%p", (void*)pc);
}
void race_access(uint64_t a, uint64_t n, bool w, bool atomic, uint64_t pc)
{
  Thr& t = thr[self];
  for (uint64_t g = a >> 3; g <= (a + n - 1) >> 3; ++g)
  {
    uint8_t m = 0xff;
    if (g == a >> 3) m &= 0xff << (a & 7);
    if (g == (a + n - 1) >> 3) m &= 0xff >> (7 - ((a + n - 1) & 7));
    Cell* c = cell(g);
    RCell& r = rblocks[last_key->b - blocks].c[g & 63];
    for (int k = 0; k < 4; ++k)
    {
      bool kw = k & 1, ka = k & 2;
      if ((!w && !kw) || (atomic && ka)) continue;
      for (int i = 0; i < T; ++i)
        if (i != self && r.a[k][i].clock > t.vc[i] && (r.a[k][i].mask & m))
          quit(RACE, 0, "data race: %s%s of thread %d is not ordered with an earlier %s%s of thread %d; pc=%p", atomic ? "atomic " : "", w ? "write" : "read", self, ka ? "atomic " : "", kw ? "write" : "read", i, (void*)pc);
    }
    Last& l = r.a[w + 2 * atomic][self];
    if (l.clock == t.vc[self]) l.mask |= m; else { l.clock = t.vc[self]; l.mask = m; }
    (void)c;
  }
}
void plain(uint64_t a, uint64_t n, bool w, uint64_t pc)
{
  // What happens before the first thread is created is ordered before everything else.
  if (!on() || n == 0 || nthr == 1) return;
  ++sh->accesses;
  if (sh->accesses > 300000000) quit(LIVELOCK, 0, "no end after %llu memory accesses", (unsigned long long)sh->accesses);
  uint64_t g0 = a >> 3, g1 = (a + n - 1) >> 3;
  // A range is one access.
  for (uint64_t g = g0; g <= g1; ++g)
    if (is_learned(g)) { decide(K_PLAIN, pc, a); break; }
  for (uint64_t g = g0; g <= g1; ++g)
  {
    if (access(g, w)) learn(g);
    check_freed(cell(g), a, pc);
  }
  if (races) race_access(a, n, w, false, pc);
}
void atomic_before(void volatile* p, int n, bool w, uint64_t pc)
{
  uint64_t g = (uint64_t)p >> 3;
  if (is_learned(g)) decide(K_ATOMIC, pc, (uint64_t)p);
  check_freed(cell(g), (uint64_t)p, pc);
  if (access(g, w)) learn(g);
  if (races) race_access((uint64_t)p, n, w, true, pc);
}
void sync_point(void* p, Kind k, uint64_t pc)
{
  uint64_t g = (uint64_t)p >> 3;
  if (is_learned(g)) decide(k, pc, (uint64_t)p);
  check_freed(cell(g), (uint64_t)p, pc);
  if (access(g, true)) learn(g);
  if (races) race_access((uint64_t)p, 1, true, true, pc);
}

// The memory of the first threads is never reused.
struct Head { uint64_t size, magic; };
constexpr uint64_t MAGIC = 0x5c17a110ca7ed001ull;

bool in_setup_heap(void* p) { return setup_base && (char*)p >= setup_base && (char*)p < setup_base + SETUP; }
bool in_heap(void* p) { return in_setup_heap(p) || (heap_base && (char*)p >= heap_base && (char*)p < heap_base + HEAP * T); }
void* alloc(size_t n, size_t align = 16)
{
  if (!on())
  {
    if (!in_setup) return align > 16 ? memalign(align, n) : __real_malloc(n);
    if (!setup_base) setup_base = setup_ptr = (char*)reserve(SETUP);
    uint64_t u = ((uint64_t)setup_ptr + sizeof(Head) + align - 1) & ~(uint64_t)(align - 1);
    setup_ptr = (char*)((u + n + 63) & ~15ull);
    if (setup_ptr > setup_base + SETUP) { (void)!write(2, "mcrt: too much memory\n", 22); _exit(2); }
    ((Head*)u)[-1].size = n;
    ((Head*)u)[-1].magic = MAGIC;
    return (void*)u;
  }
  Thr& t = thr[self];
  if (!t.heap) { t.heap = heap_base + HEAP * self; t.heap_end = t.heap + HEAP; }
  uint64_t u = ((uint64_t)t.heap + sizeof(Head) + align - 1) & ~(uint64_t)(align - 1);
  if (u + n + 64 > (uint64_t)t.heap_end) quit(OVERFLOW_, 0, "out of memory");
  t.heap = (char*)((u + n + 63) & ~15ull);      // At least one unused granule behind it.
  ((Head*)u)[-1].size = n;
  ((Head*)u)[-1].magic = MAGIC;
  return (void*)u;
}
void release(void* p, uint64_t pc)
{
  if (!p) return;
  if (!on()) { if (!in_heap(p)) __real_free(p); return; }
  size_t n = in_heap(p) ? ((Head*)p)[-1].size : malloc_usable_size(p);
  uint64_t a = (uint64_t)p;
  if (n == 0) return;
  if (cell(a >> 3)->freed) quit(DOUBLE_FREE, 0, "memory is released twice; pc=%p", (void*)pc);
  // Releasing memory is like writing to it.  What a library allocated can have been used for something else before.
  if (in_heap(p)) plain(a, n, true, pc);
  for (uint64_t g = a >> 3; g <= (a + n - 1) >> 3; ++g) cell(g)->freed = 1;
  __real_memset(p, 0xdd, n);
}

void thread_ends(void*)
{
  if (!on()) return;
  int me = self;
  thr[me].wait = W_DONE;
  if (sh->once) ending = syscall(SYS_gettid);
  decide(K_END, 0, 0, false, true);
}
void* wrapper(void* p)
{
  int i = (int)(intptr_t)p;
  futex_wait(i);
  self = i;
  pthread_setspecific(key, (void*)1);
  return thr[i].start(thr[i].arg);
}

typedef int (*create_t)(pthread_t*, pthread_attr_t const*, void* (*)(void*), void*);
create_t real_create;
typedef int (*join_t)(pthread_t, void**);
join_t real_join;
typedef int (*detach_t)(pthread_t);
detach_t real_detach;

int find_thread(pthread_t t)
{
  for (int i = 1; i < nthr; ++i) if (!thr[i].joined && !thr[i].detached && pthread_equal(thr[i].real, t)) return i;
  return -1;
}
void too_slow(int) { sh->status = LIVELOCK; strcpy(sh->msg, "used too much time"); syscall(SYS_exit_group, 0); }

} // namespace

extern "C" {

static int add_regions(struct dl_phdr_info* i, size_t, void*)
{
  bool exe = !i->dlpi_name || !*i->dlpi_name;
  if (!exe && !strstr(i->dlpi_name, "libstdc++")) return 0;
  uint64_t r0 = 0, r1 = 0;
  for (int k = 0; k < i->dlpi_phnum; ++k)
    if (i->dlpi_phdr[k].p_type == PT_GNU_RELRO) { r0 = i->dlpi_phdr[k].p_vaddr; r1 = (r0 + i->dlpi_phdr[k].p_memsz) & ~4095ull; }
  for (int k = 0; k < i->dlpi_phnum; ++k)
  {
    auto& h = i->dlpi_phdr[k];
    if (h.p_type != PT_LOAD || !(h.p_flags & PF_W)) continue;
    uint64_t a = h.p_vaddr, b = a + h.p_memsz;
    if (r0 < b && r1 > a) { if (r0 > a) abort(); a = r1; }      // The read-only part comes first.
    if (a < b) { regions[nregions].addr = (char*)i->dlpi_addr + a; regions[nregions++].n = b - a; }
  }
  if (exe)
    for (int k = 0; k < i->dlpi_phnum; ++k)
      if (i->dlpi_phdr[k].p_type == PT_TLS) { regions[nregions].addr = (char*)i->dlpi_tls_data; regions[nregions++].n = i->dlpi_phdr[k].p_memsz; }
  return 0;
}
void mc_begin(Shared* s)
{
  sh = s;
  syncs = (Sync*)reserve(sizeof(Sync) * NSYNC);
  keys = (BlockKey*)reserve(sizeof(BlockKey) * NKEYS);
  maxblocks = NKEYS / 2;
  blocks = (Block*)reserve(sizeof(Block) * maxblocks);
  heap_base = (char*)reserve(HEAP * T);
  if (sh->races) { races = true; rblocks = (RBlock*)reserve(sizeof(RBlock) * maxblocks); madvise(rblocks, sizeof(RBlock) * maxblocks, MADV_HUGEPAGE); }
  madvise(blocks, sizeof(Block) * maxblocks, MADV_HUGEPAGE);
  stacks = (char*)reserve(STACK * T);
  real_create = (create_t)__real_dlsym(RTLD_NEXT, "pthread_create");
  real_join = (join_t)__real_dlsym(RTLD_NEXT, "pthread_join");
  real_detach = (detach_t)__real_dlsym(RTLD_NEXT, "pthread_detach");
  pthread_key_create(&key, thread_ends);
  nthr = 1;
  self = 0;
  current = 0;
  thr[0].wait = W_RUN;
  thr[0].real = pthread_self();
  for (int i = 0; i < T; ++i) thr[i].vc[i] = 1;
  signal(SIGPROF, too_slow);
  regions = (Region*)reserve(sizeof(Region) * 20);
  __real_dl_iterate_phdr(add_regions, nullptr);
  if (setup_base) { regions[nregions].addr = setup_base; regions[nregions++].n = setup_ptr - setup_base; }
  size_t total = 0;
  for (int i = 0; i < nregions; ++i) total += (regions[i].n + 63) & ~63ull;
  char* copy = (char*)reserve(total);
  for (int i = 0; i < nregions; ++i) { regions[i].copy = copy; copy += (regions[i].n + 63) & ~63ull; }
  for (int i = 0; i < nregions; ++i) __real_memcpy(regions[i].copy, regions[i].addr, regions[i].n);
  mc_restart();
}
void mc_restart()
{
  struct itimerval it = {{0, 0}, {20, 0}};
  setitimer(ITIMER_PROF, &it, nullptr);
  active = true;
}
void mc_end()
{
  // Let the other threads end.
  for (int i = 1; i < nthr; ++i)
    if (thr[i].wait != W_DONE)
    {
      thr[0].wait = W_DONE;
      decide(K_END, 0, 0, false, true);
      for (;;) pause();
    }
  active = false;
  for (int i = 1; i < nthr; ++i) if (!thr[i].joined) real_join(thr[i].real, nullptr);
  sh->status = FINISHED;
  sh->preemptions = preemptions;
  // Forget everything.
  __real_memset(blocks, 0, nblocks * sizeof(Block));
  if (races) __real_memset(rblocks, 0, nblocks * sizeof(RBlock));
  for (int i = 0; i < nkeys; ++i) keys[usedkeys[i]].key = 0;
  for (int i = 0; i < nsyncs; ++i) __real_memset(&syncs[usedsyncs[i]], 0, sizeof(Sync));
  for (int i = 0; i < nregions; ++i) __real_memcpy(regions[i].addr, regions[i].copy, regions[i].n);
}
void mc_setup(int on) { in_setup = on; }
void mc_point(char const* what) { if (on()) decide(K_POINT, (uint64_t)what, 0); }
void mc_yield() { if (on()) decide(K_YIELD, PC, 0, true); }
void mc_log(char const* txt, size_t n)
{
  if (!sh) return;
  if (sh->loglen + n > max_log) quit(OVERFLOW_, 0, "the log is too long");
  __real_memcpy(sh->log + sh->loglen, txt, n);
  sh->loglen += n;
}
int mc_tid() { return self; }
int mc_controlled() { return on(); }
void mc_fail(char const* txt) { quit(CUSTOM, 0, "%s", txt); }

// Threads.
int pthread_create(pthread_t* t, pthread_attr_t const* attr, void* (*start)(void*), void* arg)
{
  if (!on())
  {
    if (!real_create) real_create = (create_t)__real_dlsym(RTLD_NEXT, "pthread_create");
    return real_create(t, attr, start, arg);
  }
  if (nthr == T) quit(OVERFLOW_, 0, "too many threads");
  int i = nthr;
  thr[i].start = start; thr[i].arg = arg; thr[i].wait = W_RUN;
  // Every thread has its own stack (and thread local storage), at the same address in every execution.
  pthread_attr_t a;
  int detach = PTHREAD_CREATE_JOINABLE;
  if (attr) pthread_attr_getdetachstate(attr, &detach);
  thr[i].detached = detach == PTHREAD_CREATE_DETACHED;
  pthread_attr_init(&a);
  pthread_attr_setstack(&a, stacks + STACK * i, STACK);
  int r = real_create(t, &a, wrapper, (void*)(intptr_t)i);
  pthread_attr_destroy(&a);
  if (r) return r;
  thr[i].real = *t;
  join_vc(thr[i].vc, thr[self].vc);
  ++thr[self].vc[self];
  ++nthr;
  return 0;
}
int pthread_join(pthread_t t, void** ret)
{
  int i;
  if (!on() || (i = find_thread(t)) < 0)
  {
    if (!real_join) real_join = (join_t)__real_dlsym(RTLD_NEXT, "pthread_join");
    return real_join(t, ret);
  }
  thr[self].join = i;
  block(W_JOIN, nullptr, PC);
  acquire_from(thr[i].vc);
  thr[i].joined = true;
  return real_join(t, ret);
}
int pthread_detach(pthread_t t)
{
  if (on()) for (int i = 1; i < nthr; ++i) if (!thr[i].joined && pthread_equal(thr[i].real, t)) { thr[i].detached = true; return 0; }
  if (!real_detach) real_detach = (detach_t)__real_dlsym(RTLD_NEXT, "pthread_detach");
  return real_detach(t);
}

// Mutexes.
static void lock(void* m, uint64_t pc, bool recursive)
{
  sync_point(m, K_LOCK, pc);
  Sync* s = sync(m);
  if (s->owner == self && recursive) { ++s->count; return; }
  while (s->owner != -1) block(W_MUTEX, s, pc);
  s->owner = self;
  s->count = 1;
  acquire_from(s->vc);
}
static void unlock(void* m, uint64_t pc)
{
  Sync* s = sync(m);
  if (s->owner != self) quit(BAD_UNLOCK, 0, "unlocks a mutex that it did not lock; pc=%p", (void*)pc);
  if (s->tried) sync_point(m, K_UNLOCK, pc);
  else check_freed(cell((uint64_t)m >> 3), (uint64_t)m, pc);
  if (--s->count) return;
  access((uint64_t)m >> 3, true);
  if (races) race_access((uint64_t)m, 1, true, true, pc);
  s->owner = -1;
  release_to(s->vc);
}
static bool trylock(void* m, uint64_t pc, bool recursive)
{
  Sync* s = sync(m);
  if (!s->tried) { s->tried = true; }
  sync_point(m, K_LOCK, pc);
  if (s->owner == self && recursive) { ++s->count; return true; }
  if (s->owner != -1) return false;
  s->owner = self;
  s->count = 1;
  acquire_from(s->vc);
  return true;
}
static bool recursive(pthread_mutex_t* m) { return (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE; }
int pthread_mutex_lock(pthread_mutex_t* m) { if (on()) lock(m, PC, recursive(m)); return 0; }
int pthread_mutex_unlock(pthread_mutex_t* m) { if (on()) unlock(m, PC); return 0; }
int pthread_mutex_trylock(pthread_mutex_t* m) { if (on()) return trylock(m, PC, recursive(m)) ? 0 : EBUSY; return 0; }
int pthread_mutex_timedlock(pthread_mutex_t* m, struct timespec const*) { if (on()) return trylock(m, PC, recursive(m)) ? 0 : ETIMEDOUT; return 0; }
int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t, struct timespec const*) { if (on()) return trylock(m, PC, recursive(m)) ? 0 : ETIMEDOUT; return 0; }
int pthread_mutex_destroy(pthread_mutex_t* m)
{
  if (on()) { Sync* s = sync(m); if (s->owner != -1) quit(CUSTOM, 0, "destroys a mutex that is locked; pc=%p", (void*)PC); sync_point(m, K_LOCK, PC); }
  return 0;
}

// Condition variables.
static int cond_wait(pthread_cond_t* c, pthread_mutex_t* m, uint64_t pc, bool timed)
{
  if (!on()) abort();
  sync_point(c, K_LOCK, pc);
  Sync* s = sync(c);
  Sync* ms = sync(m);
  int count = ms->count;
  if (ms->owner != self) quit(BAD_UNLOCK, 0, "waits with a mutex that it did not lock; pc=%p", (void*)pc);
  ms->owner = -1;
  release_to(ms->vc);
  thr[self].signalled = false;
  thr[self].timed = timed;
  block(W_COND, s, pc);
  bool sig = thr[self].signalled;
  if (sig) acquire_from(s->vc);
  while (ms->owner != -1) block(W_MUTEX, ms, pc);
  ms->owner = self;
  ms->count = count;
  acquire_from(ms->vc);
  return sig ? 0 : ETIMEDOUT;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { return cond_wait(c, m, PC, false); }
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, struct timespec const*) { return cond_wait(c, m, PC, true); }
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t, struct timespec const*) { return cond_wait(c, m, PC, true); }
static int cond_signal(pthread_cond_t* c, uint64_t pc, bool all)
{
  if (!on()) return 0;
  sync_point(c, K_LOCK, pc);
  Sync* s = sync(c);
  release_to(s->vc);
  for (int i = 0; i < nthr; ++i)
    if (thr[i].wait == W_COND && thr[i].on == s && !thr[i].signalled) { thr[i].signalled = true; if (!all) break; }
  return 0;
}
int pthread_cond_signal(pthread_cond_t* c) { return cond_signal(c, PC, false); }
int pthread_cond_broadcast(pthread_cond_t* c) { return cond_signal(c, PC, true); }
int pthread_cond_destroy(pthread_cond_t*) { return 0; }

// Read/write locks.
static void rw_rd(void* p, uint64_t pc)
{
  uint64_t g = (uint64_t)p >> 3;
  if (is_learned(g)) decide(K_LOCK, pc, (uint64_t)p);
  check_freed(cell(g), (uint64_t)p, pc);
  if (access(g, false)) learn(g);
  Sync* s = sync(p);
  while (!(s->owner == -1 && s->upgrading == -1)) block(W_RD, s, pc);
  ++s->readers[self]; ++s->nreaders;
  acquire_from(s->vc);
}
static void rw_rdun(void* p, uint64_t pc)
{
  Sync* s = sync(p);
  if (!s->readers[self]) quit(BAD_UNLOCK, 0, "releases a read lock that it does not have; pc=%p", (void*)pc);
  access((uint64_t)p >> 3, false);
  --s->readers[self]; --s->nreaders;
  release_to(s->rvc);
}
static void rw_wr(void* p, uint64_t pc)
{
  sync_point(p, K_LOCK, pc);
  Sync* s = sync(p);
  while (!(s->owner == -1 && s->nreaders == 0)) block(W_WR, s, pc);
  s->owner = self;
  acquire_from(s->vc); acquire_from(s->rvc);
}
static void rw_wrun(void* p, uint64_t pc)
{
  Sync* s = sync(p);
  if (s->owner != self) quit(BAD_UNLOCK, 0, "releases a write lock that it does not have; pc=%p", (void*)pc);
  access((uint64_t)p >> 3, true);
  s->owner = -1;
  release_to(s->vc);
}
void mc_rdlock(void* p) { if (on()) rw_rd(p, PC); }
void mc_rdunlock(void* p) { if (on()) rw_rdun(p, PC); }
void mc_wrlock(void* p) { if (on()) rw_wr(p, PC); }
void mc_wrunlock(void* p) { if (on()) rw_wrun(p, PC); }
int mc_rd2wrlock(void* p)
{
  if (!on()) return 1;
  sync_point(p, K_LOCK, PC);
  Sync* s = sync(p);
  if (s->upgrading != -1) return 0;
  s->upgrading = self;
  while (s->nreaders != 1) block(W_UPGRADE, s, PC);
  s->upgrading = -1;
  --s->readers[self]; --s->nreaders;
  s->owner = self;
  acquire_from(s->vc); acquire_from(s->rvc);
  return 1;
}
void mc_wr2rdlock(void* p)
{
  if (!on()) return;
  Sync* s = sync(p);
  access((uint64_t)p >> 3, true);
  s->owner = -1;
  ++s->readers[self]; ++s->nreaders;
  release_to(s->vc);
}
void mc_rd2wryield(void* p)
{
  if (!on()) return;
  sync_point(p, K_LOCK, PC);
  Sync* s = sync(p);
  while (s->upgrading != -1) block(W_UPYIELD, s, PC);
}
int pthread_rwlock_rdlock(pthread_rwlock_t* l) { if (on()) rw_rd(l, PC); return 0; }
int pthread_rwlock_wrlock(pthread_rwlock_t* l) { if (on()) rw_wr(l, PC); return 0; }
int pthread_rwlock_tryrdlock(pthread_rwlock_t* l)
{
  if (!on()) return 0;
  sync_point(l, K_LOCK, PC);
  if (sync(l)->owner != -1) return EBUSY;
  rw_rd(l, PC);
  return 0;
}
int pthread_rwlock_trywrlock(pthread_rwlock_t* l)
{
  if (!on()) return 0;
  sync_point(l, K_LOCK, PC);
  Sync* s = sync(l);
  if (s->owner != -1 || s->nreaders) return EBUSY;
  s->owner = self;
  acquire_from(s->vc); acquire_from(s->rvc);
  return 0;
}
int pthread_rwlock_unlock(pthread_rwlock_t* l)
{
  if (!on()) return 0;
  if (sync(l)->owner == self) rw_wrun(l, PC); else rw_rdun(l, PC);
  return 0;
}

// Once and statics.
static bool guard_enter(unsigned char* done, void* p, uint64_t pc)
{
  if (on()) sync_point(p, K_LOCK, pc);
  Sync* s = on() ? sync(p) : nullptr;
  for (;;)
  {
    if (__atomic_load_n(done, __ATOMIC_ACQUIRE) == 1) { if (s) acquire_from(s->vc); return false; }
    if (!s) return true;
    if (s->owner == -1) { s->owner = self; acquire_from(s->vc); return true; }
    if (s->owner == self) quit(CUSTOM, 0, "recursive initialization of a static; pc=%p", (void*)pc);
    block(W_GUARD, s, pc);
  }
}
static void guard_leave(unsigned char* done, void* p, bool ok, uint64_t pc)
{
  if (on()) { access((uint64_t)p >> 3, true); Sync* s = sync(p); s->owner = -1; if (ok) __atomic_store_n(done, 1, __ATOMIC_RELEASE); release_to(s->vc); }
  else if (ok) __atomic_store_n(done, 1, __ATOMIC_RELEASE);
}
int __cxa_guard_acquire(uint64_t* g) { return guard_enter((unsigned char*)g, g, PC); }
void __cxa_guard_release(uint64_t* g) { guard_leave((unsigned char*)g, g, true, PC); }
void __cxa_guard_abort(uint64_t* g) { guard_leave((unsigned char*)g, g, false, PC); }
int pthread_once(pthread_once_t* o, void (*f)(void))
{
  if (*(unsigned char*)o == 2) *(unsigned char*)o = 1;
  if (!guard_enter((unsigned char*)o, o, PC)) return 0;
  struct Leave { pthread_once_t* o; bool ok; uint64_t pc; ~Leave() { guard_leave((unsigned char*)o, o, ok, pc); } } l{o, false, PC};
  f();
  l.ok = true;
  return 0;
}

// Time.
static int sleep_(time_t s, uint64_t pc)
{
  if (s >= 3600) { block(W_FOREVER, nullptr, pc); }
  else decide(K_YIELD, pc, 0, true);
  return 0;
}
int nanosleep(struct timespec const* t, struct timespec*) { if (on()) return sleep_(t->tv_sec, PC); return syscall(SYS_nanosleep, t, nullptr); }
int clock_nanosleep(clockid_t, int flags, struct timespec const* t, struct timespec*) { if (on()) return sleep_(flags ? 0 : t->tv_sec, PC); return 0; }
int usleep(useconds_t) { if (on()) return sleep_(0, PC); return 0; }
unsigned sleep(unsigned s) { if (on()) return sleep_(s, PC); return 0; }
int sched_yield() { if (on()) return sleep_(0, PC); return 0; }

void mc_access(void* p, size_t n, int write, void* pc) { plain((uint64_t)p, n, write, (uint64_t)pc); }

// The end of the process.
void abort()
{
  if (sh && self >= 0) quit(ABORTED, 0, "thread %d aborts", self);
  signal(SIGABRT, SIG_DFL);
  syscall(SYS_tgkill, getpid(), syscall(SYS_gettid), SIGABRT);
  syscall(SYS_exit_group, 134);
  __builtin_unreachable();
}
void _Exit(int code)
{
  if (sh && self >= 0) quit(EXITED, code, "thread %d ends the process", self);
  syscall(SYS_exit_group, code);
  __builtin_unreachable();
}

// Memory.
void* __wrap_malloc(size_t n) { return alloc(n); }
void __wrap_free(void* p) { release(p, PC); }
void* __wrap_calloc(size_t a, size_t b) { void* p = alloc(a * b); if (p) __real_memset(p, 0, a * b); return p; }
void* __wrap_realloc(void* p, size_t n)
{
  if (!on() && p && !in_heap(p)) return __real_realloc(p, n);
  if (!p) return alloc(n);
  size_t old = in_heap(p) ? ((Head*)p)[-1].size : malloc_usable_size(p);
  void* q = alloc(n);
  plain((uint64_t)p, old < n ? old : n, false, PC);
  __real_memcpy(q, p, old < n ? old : n);
  release(p, PC);
  return q;
}
void* __wrap_memcpy(void* d, void const* s, size_t n) { plain((uint64_t)s, n, false, PC); plain((uint64_t)d, n, true, PC); return __real_memcpy(d, s, n); }
void* __wrap_memmove(void* d, void const* s, size_t n) { plain((uint64_t)s, n, false, PC); plain((uint64_t)d, n, true, PC); return __real_memmove(d, s, n); }
void* __wrap_memset(void* d, int c, size_t n) { plain((uint64_t)d, n, true, PC); return __real_memset(d, c, n); }

// The dynamic loader: one lock while opening and closing, another one while visiting.
static char loader, visit;
static void* (*real_dlopen)(char const*, int);
static int (*real_dlclose)(void*);
static void* mc_dlopen(char const* name, int flags)
{
  if (!on()) return real_dlopen(name, flags);
  lock(&loader, PC, true); lock(&visit, PC, true);
  unlock(&visit, PC);
  void* r = real_dlopen(name, flags);
  unlock(&loader, PC);
  return r;
}
static int mc_dlclose(void* h)
{
  if (!on()) return real_dlclose(h);
  lock(&loader, PC, true); lock(&visit, PC, true);
  unlock(&visit, PC);
  int r = real_dlclose(h);
  unlock(&loader, PC);
  return r;
}
void* __wrap_dlsym(void* h, char const* name)
{
  if (on()) lock(&loader, PC, true);
  void* r = __real_dlsym(h, name);
  if (on()) unlock(&loader, PC);
  if (h == RTLD_NEXT && !strcmp(name, "dlopen")) { real_dlopen = (void* (*)(char const*, int))r; return (void*)mc_dlopen; }
  if (h == RTLD_NEXT && !strcmp(name, "dlclose")) { real_dlclose = (int (*)(void*))r; return (void*)mc_dlclose; }
  return r;
}
// Registering the destructor of a thread_local object also needs the lock.
int __real___cxa_thread_atexit(void (*f)(void*), void* obj, void* dso);
int __wrap___cxa_thread_atexit(void (*f)(void*), void* obj, void* dso)
{
  if (on()) lock(&loader, PC, true);
  int r = __real___cxa_thread_atexit(f, obj, dso);
  if (on()) unlock(&loader, PC);
  return r;
}
struct Infos { struct dl_phdr_info* v; int n, max; };
static int collect(struct dl_phdr_info* i, size_t, void* p)
{
  Infos* v = (Infos*)p;
  if (v->n < v->max) v->v[v->n++] = *i;
  return 0;
}
int __wrap_dl_iterate_phdr(int (*cb)(struct dl_phdr_info*, size_t, void*), void* data)
{
  if (!on()) return __real_dl_iterate_phdr(cb, data);
  struct dl_phdr_info buf[64];
  Infos v{buf, 0, 64};
  lock(&visit, PC, true);
  __real_dl_iterate_phdr(collect, &v);
  int r = 0;
  for (int i = 0; i < v.n && r == 0; ++i) r = cb(&v.v[i], sizeof(struct dl_phdr_info), data);
  unlock(&visit, PC);
  return r;
}

// Instrumentation.
void __tsan_init() { }
void __tsan_func_entry(void*) { }
void __tsan_func_exit() { }
#define RW(n) void __tsan_read##n(void* p) { plain((uint64_t)p, n, false, PC); } void __tsan_write##n(void* p) { plain((uint64_t)p, n, true, PC); } \
  void __tsan_unaligned_read##n(void* p) { plain((uint64_t)p, n, false, PC); } void __tsan_unaligned_write##n(void* p) { plain((uint64_t)p, n, true, PC); } \
  void __tsan_volatile_read##n(void* p) { plain((uint64_t)p, n, false, PC); } void __tsan_volatile_write##n(void* p) { plain((uint64_t)p, n, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, size_t n) { plain((uint64_t)p, n, false, PC); }
void __tsan_write_range(void* p, size_t n) { plain((uint64_t)p, n, true, PC); }
void __tsan_vptr_update(void* p, void*) { plain((uint64_t)p, 8, true, PC); }
void __tsan_vptr_read(void* p) { plain((uint64_t)p, 8, false, PC); }

} // extern "C"

static void acq(void volatile* p, int mo)
{
  Sync* s = sync((void*)p);
  if (mo != __ATOMIC_RELAXED && mo != __ATOMIC_RELEASE) acquire_from(s->vc);
  else join_vc(thr[self].pending, s->vc);
}
// (A release fence counts for all stores that follow; the synchronization that an atomic variable gives never ends: this only hides races.)
static void rel(void volatile* p, int mo) { if (thr[self].fence_released || mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST) release_to(sync((void*)p)->vc); }
// The order of the steps: scheduling point, the conflict (before synchronizing), the access, the synchronization.
#define BEFORE(w) bool c = on(); if (c) atomic_before(p, sizeof *p, w, PC)
#define RMW(bits, type, name, expr) \
  type __tsan_atomic##bits##_##name(type volatile* p, type v, int mo) { BEFORE(true); type old = *p; *p = expr; if (c) { acq(p, mo); rel(p, mo); } return old; }
#define ATOMIC(bits, type) \
  type __tsan_atomic##bits##_load(type const volatile* q, int mo) { type volatile* p = (type volatile*)q; BEFORE(false); type r = *p; if (c) acq(p, mo); return r; } \
  void __tsan_atomic##bits##_store(type volatile* p, type v, int mo) { BEFORE(true); *p = v; if (c) rel(p, mo); } \
  RMW(bits, type, exchange, v) RMW(bits, type, fetch_add, old + v) RMW(bits, type, fetch_sub, old - v) RMW(bits, type, fetch_and, old & v) RMW(bits, type, fetch_or, old | v) RMW(bits, type, fetch_xor, old ^ v) RMW(bits, type, fetch_nand, ~(old & v)) \
  bool __tsan_atomic##bits##_compare_exchange_strong(type volatile* p, type* e, type v, int mo, int fmo) \
  { BEFORE(true); type old = *p; if (old == *e) { *p = v; if (c) { acq(p, mo); rel(p, mo); } return true; } if (c) acq(p, fmo); *e = old; return false; } \
  bool __tsan_atomic##bits##_compare_exchange_weak(type volatile* p, type* e, type v, int mo, int fmo) \
  { BEFORE(true); type old = *p; if (old == *e) { *p = v; if (c) { acq(p, mo); rel(p, mo); } return true; } if (c) acq(p, fmo); *e = old; return false; }
extern "C" {
ATOMIC(8, uint8_t) ATOMIC(16, uint16_t) ATOMIC(32, uint32_t) ATOMIC(64, uint64_t)
void __tsan_atomic_thread_fence(int mo)
{
  if (!on()) return;
  if (mo != __ATOMIC_RELEASE) acquire_from(thr[self].pending);
  if (mo != __ATOMIC_ACQUIRE && mo != __ATOMIC_CONSUME) { thr[self].fence_released = true; }
}
void __tsan_atomic_signal_fence(int) { }
}

void* operator new(size_t n) { return alloc(n); }
void* operator new[](size_t n) { return alloc(n); }
void* operator new(size_t n, std::nothrow_t const&) noexcept { return alloc(n); }
void* operator new[](size_t n, std::nothrow_t const&) noexcept { return alloc(n); }
void* operator new(size_t n, std::align_val_t a) { return alloc(n, (size_t)a); }
void* operator new[](size_t n, std::align_val_t a) { return alloc(n, (size_t)a); }
void operator delete(void* p) noexcept { release(p, PC); }
void operator delete[](void* p) noexcept { release(p, PC); }
void operator delete(void* p, size_t) noexcept { release(p, PC); }
void operator delete[](void* p, size_t) noexcept { release(p, PC); }
void operator delete(void* p, std::align_val_t) noexcept { release(p, PC); }
void operator delete[](void* p, std::align_val_t) noexcept { release(p, PC); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { release(p, PC); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { release(p, PC); }
