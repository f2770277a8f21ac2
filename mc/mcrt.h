// Interface between the controlled-scheduler runtime (mcrt.cxx) and the harnesses (mc.h).
#pragma once
#include <cstddef>
#include <cstdint>

namespace mcrt {

enum Status { RUNNING, FINISHED, DEADLOCK, LIVELOCK, USE_AFTER_FREE, DIVERGED, ABORTED, EXITED, BAD_UNLOCK, ALL_SLEEP, OVERFLOW_, CUSTOM, DOUBLE_FREE, RACE };

constexpr int max_threads = 6, max_choices = 4000, max_learned = 1 << 14, max_log = 1 << 16, max_trace = 1 << 12;

struct Shared
{
  // Input.
  int bound;                    // Maximum number of preemptions.
  int races;                    // Whether data races are reported.
  int once;                     // Whether there is a new process for every execution.
  uint32_t nprefix;
  uint8_t prefix[max_choices];
  uint64_t learned[max_learned];        // Open addressing set of addresses (divided by 8) that are scheduling points.
  uint32_t nlearned;
  // Output.
  uint32_t learned_new;
  uint32_t nchoices;
  uint8_t n[max_choices], picked[max_choices];
  uint64_t points, switches, accesses, preemptions;
  int status, code, tid;
  char msg[1000];
  uint32_t loglen;
  char log[max_log];
  uint32_t tracelen;
  struct { int16_t from, to; int kind; uint64_t pc, addr; } trace[max_trace];
};

} // namespace mcrt

extern "C" {
void mc_begin(mcrt::Shared* sh);        // In the child: from here on there is one running thread at a time.
void mc_end();                          // In the child: the end of an execution.  Returns, with the memory of the program restored to what it was at mc_begin, if all threads ended; otherwise ends the process.
void mc_restart();                      // Start another execution.
void mc_setup(int on);                  // Whether memory that is allocated belongs to the program (initially true) or to the exploration.
void mc_point(char const* what);        // A scheduling point (always).
void mc_yield();
void mc_access(void* p, size_t n, int write, void* pc);    // As if the program accesses this memory.
void mc_log(char const* txt, size_t n);
int mc_tid();                           // 0 for the thread that called mc_begin, 1.. for threads in order of creation.
void mc_fail(char const* txt);          // Status CUSTOM; never returns.
int mc_controlled();                    // Whether the calling thread is controlled.
// Used by the stand-in for AIReadWriteMutex.
void mc_rdlock(void*); void mc_rdunlock(void*); void mc_wrlock(void*); void mc_wrunlock(void*);
int mc_rd2wrlock(void*); void mc_wr2rdlock(void*); void mc_rd2wryield(void*);
}
