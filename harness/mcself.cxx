// Programs with known behaviour: does the scheduler (mc/) find exactly the right set of results?
#include "mc.h"
#include <thread>
#include <mutex>
#include <shared_mutex>
#include <atomic>
#include <condition_variable>
#include <memory>
static void log(std::string s) { mc_log(s.data(), s.size()); }
int main(int argc, char** argv)
{
  vx::init(argc, argv);
  static char const* const nm[] = {"crash", "", "deadlock", "livelock", "uaf", "diverged", "abort", "exit", "badunlock", "allsleep", "overflow", "failed", "doublefree", "race"};
  auto expect = [&](char const* name, int bound, std::set<std::string> const& want, std::function<void()> b, bool races = false) {
    if (!vx::take()) return;
    vx::describe(std::string(name) + " with up to " + std::to_string(bound) + " preemptions");
    vx::sample(vx::g.desc);
    std::set<std::string> got;
    mc::report_races(races);
    mc::explore(b, [&](mc::Result const& r) { got.insert(r.finished() ? r.log : nm[r.status]); return std::string(); }, bound, "engine");
    mc::report_races(false);
    if (got == want) return;
    std::string e;
    for (auto& x : got) if (!want.count(x)) e += " unexpected: " + x;
    for (auto& x : want) if (!got.count(x)) e += " missing: " + x;
    fprintf(stderr, "engine self-test %s:%s\n", vx::g.desc.c_str(), e.c_str());
    _exit(2);
  };
  static volatile int x;
  static std::atomic<int> a0, a1;
  static int r1, r2;
  static std::mutex m, n;
  auto inc = [] { for (int i = 0; i < 2; ++i) x = x + 1; };
  auto lost = [&] { x = 0; std::thread a(inc), c(inc); a.join(); c.join(); log(std::to_string(x)); };
  expect("lost update", 0, {"4"}, lost);
  expect("lost update", 1, {"2", "4"}, lost);
  expect("lost update", 2, {"2", "3", "4"}, lost);
  expect("lost update", 8, {"2", "3", "4"}, lost);
  expect("lost update", 0, {"race"}, lost, true);
  expect("mutex", 3, {"4"}, [] { x = 0; auto f = [] { for (int i = 0; i < 2; ++i) { std::lock_guard<std::mutex> l(m); x = x + 1; } }; std::thread a(f), c(f); a.join(); c.join(); log(std::to_string(x)); }, true);
  auto dead = [] { std::thread a([] { m.lock(); n.lock(); n.unlock(); m.unlock(); }), c([] { n.lock(); m.lock(); m.unlock(); n.unlock(); }); a.join(); c.join(); };
  expect("lock order", 0, {""}, dead);
  expect("lock order", 1, {"", "deadlock"}, dead);
  expect("trylock", 2, {"0", "1"}, [] { std::thread a([] { m.lock(); m.unlock(); }), c([] { r1 = m.try_lock(); if (r1) m.unlock(); }); a.join(); c.join(); log(std::to_string(r1)); });
  expect("use after free", 2, {"", "3", "uaf"}, [] { static std::atomic<int*> p; p = new int(3); std::thread a([] { delete p.exchange(nullptr); }), c([] { int* q = p; if (q) log(std::to_string(*q)); }); a.join(); c.join(); });
  expect("double free", 2, {"", "doublefree"}, [] { static std::atomic<int*> p; p = new int(3); auto f = [] { if (int* q = p) { p = nullptr; delete q; } }; std::thread a(f), c(f); a.join(); c.join(); });
  expect("static variable", 2, {"424242"}, [] { auto f = [] { static std::string s = std::to_string(42); log(s); }; std::thread a(f), c(f), d(f); a.join(); c.join(); d.join(); }, true);
  expect("condition variable", 2, {"ww"}, [] { static std::condition_variable cv; static int k; k = 0; auto f = [] { std::unique_lock<std::mutex> l(m); cv.wait(l, [] { return k > 0; }); --k; log("w"); }; std::thread a(f), c(f), d([] { std::unique_lock<std::mutex> l(m); k = 2; cv.notify_one(); l.unlock(); cv.notify_one(); }); a.join(); c.join(); d.join(); }, true);
  expect("lost wakeup", 2, {"", "deadlock"}, [] { static std::condition_variable cv; a0 = 0; std::thread a([] { std::unique_lock<std::mutex> l(m); if (!a0) cv.wait(l); }), d([] { a0 = 1; cv.notify_one(); }); a.join(); d.join(); });
  expect("read/write lock", 3, {"00", "11", "01"}, [] { static std::shared_mutex s; x = 0; std::thread a([] { s.lock(); x = 1; s.unlock(); }), c([] { s.lock_shared(); int v = x; s.unlock_shared(); s.lock_shared(); int w = x; s.unlock_shared(); log(std::to_string(v) + std::to_string(w)); }); a.join(); c.join(); }, true);
  expect("sleeping", 2, {"ca"}, [] { a0 = 0; std::thread a([] { while (!a0) std::this_thread::sleep_for(std::chrono::milliseconds(1)); log("a"); }), c([] { log("c"); a0 = 1; }); a.join(); c.join(); });
  expect("abort and exit", 1, {"abort", "exit"}, [] { std::thread a([] { std::abort(); }), c([] { _Exit(3); }); a.join(); c.join(); });
  expect("store buffers", 2, {"01", "10", "11"}, [] { a0 = a1 = 0; std::thread a([] { a0.store(1, std::memory_order_relaxed); r1 = a1.load(std::memory_order_relaxed); }), c([] { a1.store(1, std::memory_order_relaxed); r2 = a0.load(std::memory_order_relaxed); }); a.join(); c.join(); log(std::to_string(r1) + std::to_string(r2)); });
  auto pub = [](std::memory_order st, std::memory_order ld) { x = 0; a0 = 0; std::thread a([st] { x = 1; a0.store(1, st); }), c([ld] { if (a0.load(ld)) log(std::to_string(x)); else log("-"); }); a.join(); c.join(); };
  expect("publication, release and acquire", 2, {"-", "1"}, [=] { pub(std::memory_order_release, std::memory_order_acquire); }, true);
  expect("publication, relaxed store", 2, {"-", "race"}, [=] { pub(std::memory_order_relaxed, std::memory_order_acquire); }, true);
  expect("publication, relaxed load", 2, {"-", "race"}, [=] { pub(std::memory_order_release, std::memory_order_relaxed); }, true);
  auto ref = [](std::memory_order o, bool fence) { static std::atomic<int> c; static int* p; p = new int(0); c = 2; auto f = [o, fence] { (void)*(int volatile*)p; if (c.fetch_sub(1, o) == 1) { if (fence) std::atomic_thread_fence(std::memory_order_acquire); delete p; log("d"); } }; std::thread a(f), d(f); a.join(); d.join(); };
  expect("reference count, release and acquire fence", 2, {"d"}, [=] { ref(std::memory_order_release, true); }, true);
  expect("reference count, no fence", 2, {"race"}, [=] { ref(std::memory_order_release, false); }, true);
  expect("reference count, relaxed", 2, {"race"}, [=] { ref(std::memory_order_relaxed, true); }, true);
  expect("neighbours", 2, {""}, [] { static char b[2]; std::thread a([] { b[0] = 1; }), c([] { b[1] = 1; }); a.join(); c.join(); }, true);
  vx::done();
}
