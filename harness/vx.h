// Common support for exhaustive sequential exploration of the real code.
//
// A harness enumerates numbered cases.  Each case is executed on the real library and compared with a
// reference model.  The number of the case being run is kept in a shared file, so that a crash
// (AddressSanitizer, signal, hang) is attributed to it.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <sys/mman.h>
#include <sys/resource.h>
#include <unistd.h>
#include <unordered_set>
#include <vector>

namespace vx {

struct Shared { volatile uint64_t idx; volatile uint64_t armed; char desc[4000]; };

struct G
{
  bool thorough = false;
  unsigned shard = 0, nshards = 1;
  bool only = false;
  uint64_t only_idx = 0;
  std::string out;              // Prefix of result files.
  std::set<std::string> known;  // Keys of known findings.
  std::set<std::string> known_hit;
  Shared* sh = nullptr;
  Shared dummy;
  uint64_t idx = 0;             // Next case number.
  uint64_t* queue = nullptr;    // The next case that no process took, when they are not divided beforehand.
  uint64_t mine = ~0ull;
  uint64_t cases = 0, transitions = 0, traces = 0, evals = 0;
  uint64_t extra_states = 0;    // States that are distinct by construction (not stored).
  std::unordered_set<uint64_t> states, outcomes;
  std::vector<std::string> samples;
  std::map<std::string, std::string> notes;
  std::string desc;
  bool exhaustive = true;
};
inline G g;

inline uint64_t hash(void const* p, size_t n, uint64_t h = 1469598103934665603ull)
{
  for (size_t i = 0; i < n; ++i) { h ^= ((unsigned char const*)p)[i]; h *= 1099511628211ull; }
  h ^= h >> 32; h *= 0x9E3779B97F4A7C15ull; h ^= h >> 29;
  return h;
}
inline uint64_t hash(std::string const& s, uint64_t h = 1469598103934665603ull) { return hash(s.data(), s.size(), h); }

inline std::string esc(std::string const& s)
{
  std::string r;
  char b[8];
  for (unsigned char c : s)
  {
    if (c == '"' || c == '\\') { r += '\\'; r += c; }
    else if (c == '\n') r += "\\n";
    else if (c < 32 || c >= 127) { snprintf(b, sizeof b, "\\u%04x", c); r += b; }
    else r += c;
  }
  return r;
}
inline std::string q(std::string const& s) { return "\"" + esc(s) + "\""; }

inline void write_result(char const* kind, std::string const& key, std::string const& msg)
{
  std::string path = g.out + ".json";
  FILE* f = fopen(path.c_str(), "w");
  if (!f) { perror(path.c_str()); _exit(2); }
  fprintf(f, "{\"status\":\"%s\",\"idx\":%llu,\"desc\":%s,\"key\":%s,\"msg\":%s,", kind, (unsigned long long)g.sh->idx, q(g.desc).c_str(), q(key).c_str(), q(msg).c_str());
  fprintf(f, "\"cases\":%llu,\"total\":%llu,\"transitions\":%llu,\"traces\":%llu,\"evals\":%llu,\"extra_states\":%llu,\"exhaustive\":%s,", (unsigned long long)g.cases, (unsigned long long)g.idx,
      (unsigned long long)g.transitions, (unsigned long long)g.traces, (unsigned long long)g.evals, (unsigned long long)g.extra_states, g.exhaustive ? "true" : "false");
  fprintf(f, "\"known_hit\":[");
  bool first = true;
  for (auto& k : g.known_hit) { fprintf(f, "%s%s", first ? "" : ",", q(k).c_str()); first = false; }
  fprintf(f, "],\"samples\":[");
  first = true;
  for (auto& k : g.samples) { fprintf(f, "%s%s", first ? "" : ",", q(k).c_str()); first = false; }
  fprintf(f, "],\"notes\":{");
  first = true;
  for (auto& k : g.notes) { fprintf(f, "%s%s:%s", first ? "" : ",", q(k.first).c_str(), q(k.second).c_str()); first = false; }
  fprintf(f, "}}\n");
  fclose(f);
  auto dump = [](std::string const& path, std::unordered_set<uint64_t> const& s) {
    FILE* f = fopen(path.c_str(), "wb");
    std::vector<uint64_t> v(s.begin(), s.end());
    if (f) { if (!v.empty()) fwrite(v.data(), 8, v.size(), f); fclose(f); }
  };
  dump(g.out + ".states", g.states);
  dump(g.out + ".outcomes", g.outcomes);
}

inline void init(int argc, char** argv)
{
  struct rlimit rl = {0, 0};
  setrlimit(RLIMIT_CORE, &rl);
  for (int i = 1; i < argc; ++i)
  {
    std::string a = argv[i];
    if (a == "--thorough") g.thorough = true;
    else if (a == "--shard") { sscanf(argv[++i], "%u/%u", &g.shard, &g.nshards); }
    else if (a == "--only") { g.only = true; g.only_idx = strtoull(argv[++i], nullptr, 10); }
    else if (a == "--out") g.out = argv[++i];
    else if (a == "--queue")
    {
      int fd = open(argv[++i], O_RDWR);
      g.queue = fd < 0 ? nullptr : (uint64_t*)mmap(nullptr, 8, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
      if (!g.queue || g.queue == MAP_FAILED) { perror(argv[i]); _exit(2); }
      close(fd);
    }
    else if (a == "--known") g.known.insert(argv[++i]);
  }
  if (g.out.empty()) g.out = "/tmp/vx";
  int fd = open((g.out + ".case").c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
  if (fd < 0 || ftruncate(fd, sizeof(Shared)) != 0) { perror("case file"); _exit(2); }
  g.sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
  close(fd);
}

// Take the next case number; returns true when this process has to run it.
inline bool take()
{
  uint64_t i = g.idx++;
  if (g.only) { if (i != g.only_idx) return false; }
  else if (g.queue)
  {
    if (g.mine == ~0ull || g.mine < i) g.mine = __atomic_fetch_add(g.queue, 1, __ATOMIC_SEQ_CST);
    if (g.mine != i) return false;
  }
  else if (i % g.nshards != g.shard) return false;
  g.sh->idx = i;
  g.sh->armed = 1;
  ++g.cases;
  return true;
}
// True when the description of the case is wanted before it is run.
inline bool verbose() { return g.only; }
inline void describe(std::string const& s)
{
  g.desc = s;
  size_t n = std::min(s.size(), sizeof(g.sh->desc) - 1);
  memcpy(g.sh->desc, s.data(), n);
  g.sh->desc[n] = 0;
}
inline void sample(std::string const& s) { if (g.samples.size() < 3) g.samples.push_back(s); }
inline void state(uint64_t h) { if (g.states.size() < 3000000) g.states.insert(h); }
inline void outcome(std::string const& s) { if (g.outcomes.size() < 3000000) g.outcomes.insert(hash(s)); }

// The property is broken in the current case.  key identifies the failing input or history.
inline void fail(std::string const& key, std::string const& msg)
{
  if (g.known.count(key)) { g.known_hit.insert(key); return; }
  if (g.desc.empty()) describe(key);
  fprintf(stderr, "FAIL case %llu: %s\n  %s\n", (unsigned long long)g.sh->idx, g.desc.c_str(), msg.c_str());
  write_result("violation", key, msg);
  fflush(stderr);
  _exit(3);
}
[[noreturn]] inline void done()
{
  g.sh->armed = 0;
  write_result("ok", "", "");
  fflush(stdout);
  _exit(0);
}

// Enumerate all sequences over an alphabet of n symbols of length 1..depth, shortest first.
template <class F>
inline void sequences(unsigned n, unsigned min_depth, unsigned max_depth, F&& f)
{
  for (unsigned d = min_depth; d <= max_depth; ++d)
  {
    std::vector<unsigned> s(d, 0);
    for (;;)
    {
      f(s);
      int i = (int)d - 1;
      while (i >= 0 && ++s[i] == n) s[i--] = 0;
      if (i < 0) break;
    }
  }
}

} // namespace vx
