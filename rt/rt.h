// Generated-case engine and controlled-schedule runtime: interface for harnesses.
//
// Every random decision of a case (program, arguments, schedule, faults) is a
// draw from one choice sequence, so a case is replayed and shrunk by editing
// that sequence.
#pragma once
#include <cstddef>
#include <cstdint>

namespace rt {

// --- choices -------------------------------------------------------------
// uniform in [0, bound); 0 is the simplest choice
uint32_t draw(uint32_t bound);
inline bool flip() { return draw(2) != 0; }
// true with probability num/den; false is the simplest choice
inline bool chance(uint32_t num, uint32_t den) { return draw(den) >= den - num; }
inline uint32_t range(uint32_t lo, uint32_t hi) { return lo + draw(hi - lo + 1); }

// --- verdicts and bookkeeping ---------------------------------------------
[[noreturn]] void fail(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
// description of the generated case (hashed for distinctness, kept for samples)
void trace(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
// classification counters; at most once per case and label is counted
void label(const char *name);
// mark the running case as non-trivial
void nontrivial();
// abandon this case without a verdict
[[noreturn]] void discard_process(const char *why);

#define RT_CHECK(cond, ...)                                                    \
  do {                                                                         \
    if (!(cond))                                                               \
      ::rt::fail(__VA_ARGS__);                                                 \
  } while (0)

// --- controlled scheduling (no-ops in the sequential/ASan build) -----------
// virtual time, nanoseconds since start of case
uint64_t now_ns();
// index of the running virtual thread: 0 is the case body
int self();
// explicit extra scheduling point
void yield_point();
// true while virtual thread t is blocked waiting on a condition variable (always true outside
// the controlled build)
bool parked(int t);
// allow injected spurious condition variable wake-ups in this case
void allow_spurious(bool on);
// the nth (1-based) operator new of this thread from now on throws bad_alloc (0 = off)
void fail_alloc_at(int nth);
int fail_alloc_left();
// allocation failures injected so far in this case
uint64_t alloc_faults();
// operator new calls so far in this case (any thread)
uint64_t alloc_count();
// the same, of the running thread only
uint64_t thread_alloc_count();
uint64_t live_blocks();
// number of runnable-thread switches forced by preemption so far
uint64_t preemptions();
bool sched_build();
// suspends the "leak at end of case" verdict for this case
void skip_leak_check();
// names of objects for messages are up to the harness

// --- uninstrumented shared cells for harness bookkeeping --------------------
// (access to them is invisible to the race detector and creates no ordering)
void cell_add(int idx, int64_t v);
void cell_set(int idx, int64_t v);
int64_t cell_get(int idx);
constexpr int max_cells = 1024;

} // namespace rt

// implemented by each harness
extern "C" const char *harness_name();
// what makes a case of this harness non-trivial
extern "C" const char *harness_rule();
void run_case();
