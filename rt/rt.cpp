// Engine: choice sequences, driver, shrinking, and (RT_SCHED) a controlled
// scheduler behind the compiler's thread-sanitizer instrumentation interface.
// This file is never instrumented itself.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "rt.h"

#include <cerrno>
#include <climits>
#include <initializer_list>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <dlfcn.h>
#include <exception>
#include <fcntl.h>
#include <linux/futex.h>
#include <new>
#include <pthread.h>
#include <sched.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <unistd.h>

#ifdef RT_SCHED
extern "C" char __libc_single_threaded;
#endif

namespace {

constexpr uint32_t MAX_CHOICES = 8192;
constexpr int MAX_LABELS = 160;
constexpr int TRACE_MAX = 12000;
constexpr int MSG_MAX = 3000;
constexpr int MAX_WORKERS = 64;
constexpr uint32_t HASHSET = 1u << 20;

struct Shm {
  // current case
  volatile uint64_t case_idx;
  volatile uint64_t heartbeat;
  uint32_t nchoices; // recorded
  uint32_t choices[MAX_CHOICES];
  uint32_t bounds[MAX_CHOICES];
  uint32_t ninput; // replay input length
  uint32_t input[MAX_CHOICES];
  char msg[MSG_MAX];
  char trace[TRACE_MAX];
  uint32_t trace_len;
  volatile int failed;
  // stats
  uint64_t evaluations, nontrivial, distinct_nontrivial, distinct_execs, discarded, steps,
      preempts, threads, overflow;
  uint64_t nlabels;
  char label_name[MAX_LABELS][48];
  uint64_t label_count[MAX_LABELS];
  uint64_t label_case[MAX_LABELS];
  // samples
  int nsamples;
  char samples[3][TRACE_MAX];
};

Shm *S; // this process' region

uint64_t g_hashset[HASHSET], g_hashset2[HASHSET];
uint64_t g_rng;
bool g_replay;
uint32_t g_pos;
bool g_nontrivial;
uint64_t g_trace_hash;
bool g_verbose;

inline uint64_t splitmix(uint64_t &x) {
  uint64_t z = (x += 0x9e3779b97f4a7c15ull);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}

uint64_t real_ms() {
  struct timespec ts;
  syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &ts);
  return ts.tv_sec * 1000ull + ts.tv_nsec / 1000000;
}

} // namespace

namespace rt {

uint32_t draw(uint32_t bound) {
  if (bound <= 1)
    return 0;
  uint32_t v;
  if (g_replay)
    v = g_pos < S->ninput ? S->input[g_pos] : 0;
  else
    v = g_pos < MAX_CHOICES ? uint32_t(splitmix(g_rng) >> 20) % bound : 0;
  if (v >= bound)
    v = bound - 1;
  if (g_pos < MAX_CHOICES) {
    S->choices[g_pos] = v;
    S->bounds[g_pos] = bound;
    S->nchoices = g_pos + 1;
  }
  ++g_pos;
  return v;
}

void fail(const char *fmt, ...) {
  if (!S->failed) {
    S->failed = 1;
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(S->msg, MSG_MAX, fmt, ap);
    va_end(ap);
  }
  _exit(3);
}

void discard_process(const char *why) {
  snprintf(S->msg, MSG_MAX, "discard: %s", why);
  _exit(5);
}

void trace(const char *fmt, ...) {
  va_list ap;
  va_start(ap, fmt);
  char buf[600];
  int n = vsnprintf(buf, sizeof buf, fmt, ap);
  va_end(ap);
  if (n < 0)
    return;
  if (n >= int(sizeof buf))
    n = sizeof buf - 1;
  for (int i = 0; i < n; ++i)
    g_trace_hash = (g_trace_hash ^ (unsigned char)buf[i]) * 0x100000001b3ull;
  g_trace_hash = (g_trace_hash ^ 0x5f) * 0x100000001b3ull;
  if (S->trace_len + n + 2 < TRACE_MAX) {
    memcpy(S->trace + S->trace_len, buf, n);
    S->trace_len += n;
    S->trace[S->trace_len++] = '\n';
    S->trace[S->trace_len] = 0;
  }
  if (g_verbose)
    fprintf(stderr, "  | %s\n", buf);
}

void label(const char *name) {
  for (uint64_t i = 0; i < S->nlabels; ++i)
    if (strcmp(S->label_name[i], name) == 0) {
      if (S->label_case[i] != S->case_idx + 1) {
        S->label_case[i] = S->case_idx + 1;
        ++S->label_count[i];
      }
      return;
    }
  if (S->nlabels < MAX_LABELS) {
    strncpy(S->label_name[S->nlabels], name, 47);
    S->label_count[S->nlabels] = 1;
    S->label_case[S->nlabels] = S->case_idx + 1;
    ++S->nlabels;
  }
}

void nontrivial() { g_nontrivial = true; }

static int64_t g_cells[max_cells];
void cell_add(int i, int64_t v) { g_cells[i] += v; }
void cell_set(int i, int64_t v) { g_cells[i] = v; }
int64_t cell_get(int i) { return g_cells[i]; }

} // namespace rt

// ===========================================================================
namespace {
void begin_case(uint64_t idx);
}
#ifdef RT_SCHED
#include "sched.inc"
#else
namespace rt {
uint64_t now_ns() { return 0; }
int self() { return 0; }
void yield_point() {}
bool parked(int) { return true; }
void allow_spurious(bool) {}
void fail_alloc_at(int) {}
int fail_alloc_left() { return 0; }
uint64_t alloc_faults() { return 0; }
uint64_t thread_alloc_count() { return 0; }
uint64_t alloc_count() { return 0; }
uint64_t live_blocks() { return 0; }
uint64_t preemptions() { return 0; }
bool sched_build() { return false; }
void skip_leak_check() {}
} // namespace rt
namespace {
void sched_init() {}
void run_controlled() { run_case(); }
} // namespace
#endif

// ===========================================================================
// driver
namespace {

void on_signal(int sig) {
  if (S && !S->failed) {
    S->failed = 1;
    const char *n = sig == SIGSEGV   ? "SIGSEGV"
                    : sig == SIGBUS  ? "SIGBUS"
                    : sig == SIGFPE  ? "SIGFPE"
                    : sig == SIGILL  ? "SIGILL"
                    : sig == SIGABRT ? "SIGABRT"
                                     : "signal";
    snprintf(S->msg, MSG_MAX, "crash: %s", n);
  }
  _exit(4);
}

void on_terminate() {
  const char *what = "";
  char buf[200] = "";
  if (auto p = std::current_exception()) {
    try {
      std::rethrow_exception(p);
    } catch (const std::exception &e) {
      snprintf(buf, sizeof buf, "%s", e.what());
      what = buf;
    } catch (...) {
      what = "non-std exception";
    }
  }
  rt::fail("std::terminate called (%s)", what);
}

} // namespace

extern "C" void __assert_fail(const char *expr, const char *file, unsigned line,
                              const char *func) noexcept {
  (void)func;
  const char *base = strrchr(file, '/');
  rt::fail("assertion failed: %s (%s:%u)", expr, base ? base + 1 : file, line);
}

#ifndef RT_SCHED
extern "C" const char *__asan_default_options() {
  return "detect_leaks=0:detect_stack_use_after_return=1:abort_on_error=0:exitcode=4:"
         "allocator_may_return_null=1:handle_abort=0:symbolize=0:new_delete_type_mismatch=1";
}
extern "C" const char *__ubsan_default_options() { return "print_stacktrace=0:halt_on_error=1:exitcode=4"; }
extern "C" void __sanitizer_set_death_callback(void (*)(void)) __attribute__((weak));
extern "C" void __sanitizer_set_report_fd(void *) __attribute__((weak));
static void on_sanitizer_death() {
  if (S && !S->failed) {
    S->failed = 1;
    snprintf(S->msg, MSG_MAX, "sanitizer report (memory error or undefined behaviour)");
  }
}
#endif

namespace {

void child_init() {
  static char alt[65536];
  stack_t ss{};
  ss.ss_sp = alt;
  ss.ss_size = sizeof alt;
  sigaltstack(&ss, nullptr);
  struct sigaction sa{};
  sa.sa_handler = on_signal;
  sa.sa_flags = SA_ONSTACK;
#ifdef RT_SCHED
  for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT})
    sigaction(s, &sa, nullptr);
#else
  for (int s : {SIGABRT})
    sigaction(s, &sa, nullptr);
  if (__sanitizer_set_death_callback)
    __sanitizer_set_death_callback(on_sanitizer_death);
#endif
  struct rlimit rl{0, 0};
  setrlimit(RLIMIT_CORE, &rl);
  std::set_terminate(on_terminate);
  sched_init();
}

void begin_case(uint64_t idx) {
  S->case_idx = idx;
  S->nchoices = 0;
  S->trace_len = 0;
  S->trace[0] = 0;
  g_pos = 0;
  g_nontrivial = false;
  g_trace_hash = 0xcbf29ce484222325ull;
  memset(rt::g_cells, 0, sizeof rt::g_cells);
}

void end_case() {
  ++S->evaluations;
  if (g_nontrivial) {
    ++S->nontrivial;
    uint64_t h = g_trace_hash | 1;
    uint64_t h2 = 0xcbf29ce484222325ull;
    for (uint32_t i = 0; i < S->nchoices; ++i)
      h2 = (h2 ^ S->choices[i]) * 0x100000001b3ull;
    h2 = (h2 ^ (h2 >> 29)) | 1;
    bool old = false;
    for (uint32_t k = h2 % HASHSET, n = 0; n < 64; ++n, k = (k + 1) % HASHSET) {
      if (g_hashset2[k] == h2) {
        old = true;
        break;
      }
      if (!g_hashset2[k]) {
        g_hashset2[k] = h2;
        break;
      }
    }
    S->distinct_execs += !old;
    for (uint32_t k = h % HASHSET, n = 0; n < 64; ++n, k = (k + 1) % HASHSET) {
      if (g_hashset[k] == h)
        goto seen;
      if (!g_hashset[k]) {
        g_hashset[k] = h;
        break;
      }
    }
    ++S->distinct_nontrivial;
    if (S->nsamples < 3 && S->distinct_nontrivial % 97 == 1) {
      memcpy(S->samples[S->nsamples], S->trace, S->trace_len + 1);
      ++S->nsamples;
    }
  seen:;
  }
  S->heartbeat = S->heartbeat + 1;
}

Shm *new_shm() {
  void *p = mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE,
                 MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (p == MAP_FAILED) {
    perror("mmap");
    exit(2);
  }
  return static_cast<Shm *>(p);
}

uint64_t hash_name(const char *s) {
  uint64_t h = 0xcbf29ce484222325ull;
  for (; *s; ++s)
    h = (h ^ (unsigned char)*s) * 0x100000001b3ull;
  return h;
}

void pin(int k) {
  cpu_set_t set;
  if (sched_getaffinity(0, sizeof set, &set) != 0)
    return;
  int n = CPU_COUNT(&set);
  if (n <= 1)
    return;
  k %= n;
  for (int c = 0; c < CPU_SETSIZE; ++c)
    if (CPU_ISSET(c, &set) && k-- == 0) {
      cpu_set_t one;
      CPU_ZERO(&one);
      CPU_SET(c, &one);
      sched_setaffinity(0, sizeof one, &one);
      return;
    }
}

// Runs one choice sequence in a forked child. Returns true if the case fails.
bool run_input(Shm *shm, const uint32_t *in, uint32_t n, unsigned timeout_ms, bool verbose) {
  memcpy(shm->input, in, n * sizeof *in);
  shm->ninput = n;
  shm->failed = 0;
  shm->msg[0] = 0;
  shm->nchoices = 0;
  fflush(stdout);
  fflush(stderr);
  pid_t pid = fork();
  if (pid == 0) {
    if (!verbose) {
      int fd = open("/dev/null", O_WRONLY);
      dup2(fd, 2);
    }
    S = shm;
    g_replay = true;
    g_verbose = verbose;
    child_init();
    begin_case(0);
    run_controlled();
    end_case();
    _exit(0);
  }
  uint64_t t0 = real_ms();
  int st = 0;
  unsigned us = 100;
  for (;;) {
    pid_t r = waitpid(pid, &st, WNOHANG);
    if (r == pid)
      break;
    if (real_ms() - t0 > timeout_ms) {
      kill(pid, SIGKILL);
      waitpid(pid, &st, 0);
      snprintf(shm->msg, MSG_MAX, "case does not terminate (no progress in %u s)", timeout_ms / 1000);
      shm->failed = 2;
      return true;
    }
    usleep(us);
    if (us < 2000)
      us += 50;
  }
  if (WIFEXITED(st) && (WEXITSTATUS(st) == 0 || WEXITSTATUS(st) == 5))
    return false;
  if (!shm->failed) {
    shm->failed = 1;
    if (WIFSIGNALED(st))
      snprintf(shm->msg, MSG_MAX, "crash: signal %d", WTERMSIG(st));
    else
      snprintf(shm->msg, MSG_MAX, "crash: exit status %d", WEXITSTATUS(st));
  }
  return true;
}

struct Seq {
  uint32_t n;
  uint32_t v[MAX_CHOICES];
};

void take(Shm *shm, Seq &s) {
  // the choices actually consumed by the failing run
  s.n = shm->nchoices;
  memcpy(s.v, shm->choices, s.n * sizeof(uint32_t));
  while (s.n && s.v[s.n - 1] == 0)
    --s.n;
}

// shortlex smaller?
bool smaller(const Seq &a, const Seq &b) {
  if (a.n != b.n)
    return a.n < b.n;
  for (uint32_t i = 0; i < a.n; ++i)
    if (a.v[i] != b.v[i])
      return a.v[i] < b.v[i];
  return false;
}

void shrink(Shm *shm, Seq &best, unsigned budget_ms, unsigned hang_ms) {
  uint64_t t0 = real_ms();
  static Seq cand, got;
  uint64_t tries = 0;
  auto attempt = [&](const Seq &c) {
    if (real_ms() - t0 > budget_ms)
      return false;
    ++tries;
    if (!run_input(shm, c.v, c.n, hang_ms, false))
      return false;
    take(shm, got);
    if (smaller(got, best)) {
      best = got;
      return true;
    }
    if (smaller(c, best)) {
      best = c;
      return true;
    }
    return false;
  };
  bool progress = true;
  while (progress && real_ms() - t0 <= budget_ms) {
    progress = false;
    for (uint32_t blk = 64; blk >= 1; blk /= 2)
      for (int64_t i = int64_t(best.n) - blk; i >= 0; i -= (blk > 1 ? blk / 2 : 1)) {
        if (real_ms() - t0 > budget_ms)
          return;
        if (uint32_t(i) + blk > best.n)
          continue;
        cand.n = best.n - blk;
        memcpy(cand.v, best.v, i * sizeof(uint32_t));
        memcpy(cand.v + i, best.v + i + blk, (best.n - i - blk) * sizeof(uint32_t));
        if (attempt(cand))
          progress = true;
      }
    for (uint32_t blk = 16; blk >= 1; blk /= 2)
      for (int64_t i = int64_t(best.n) - blk; i >= 0; i -= blk) {
        if (real_ms() - t0 > budget_ms)
          return;
        if (uint32_t(i) + blk > best.n)
          continue;
        cand = best;
        bool nz = false;
        for (uint32_t k = 0; k < blk; ++k) {
          nz |= cand.v[i + k] != 0;
          cand.v[i + k] = 0;
        }
        if (nz && attempt(cand))
          progress = true;
      }
    for (uint32_t i = 0; i < best.n; ++i) {
      while (best.v[i] > 0 && i < best.n && real_ms() - t0 <= budget_ms) {
        cand = best;
        cand.v[i] /= 2;
        if (cand.v[i] != best.v[i] && attempt(cand)) {
          progress = true;
          continue;
        }
        if (i >= best.n)
          break;
        cand = best;
        cand.v[i] -= 1;
        if (attempt(cand)) {
          progress = true;
          continue;
        }
        break;
      }
    }
  }
}

void json_str(FILE *f, const char *s) {
  fputc('"', f);
  for (; *s; ++s) {
    unsigned char c = *s;
    if (c == '"' || c == '\\')
      fprintf(f, "\\%c", c);
    else if (c == '\n')
      fputs("\\n", f);
    else if (c < 0x20 || c >= 0x7f)
      fprintf(f, "\\u%04x", c);
    else
      fputc(c, f);
  }
  fputc('"', f);
}

} // namespace

int main(int argc, char **argv) {
  uint64_t seed = 1, cases = 1000;
  int workers = 8;
  unsigned cap_ms = 600000, shrink_ms = 25000;
  const char *out = nullptr, *replay = nullptr, *replay_out = nullptr;
  bool verbose = false;
  for (int i = 1; i < argc; ++i) {
    auto arg = [&](const char *n) { return strcmp(argv[i], n) == 0 && i + 1 < argc; };
    if (arg("--seed")) seed = strtoull(argv[++i], nullptr, 10);
    else if (arg("--cases")) cases = strtoull(argv[++i], nullptr, 10);
    else if (arg("--workers")) workers = atoi(argv[++i]);
    else if (arg("--cap-ms")) cap_ms = atoi(argv[++i]);
    else if (arg("--shrink-ms")) shrink_ms = atoi(argv[++i]);
    else if (arg("--out")) out = argv[++i];
    else if (arg("--replay")) replay = argv[++i];
    else if (arg("--replay-out")) replay_out = argv[++i];
    else if (strcmp(argv[i], "-v") == 0) verbose = true;
    else { fprintf(stderr, "unknown argument %s\n", argv[i]); return 2; }
  }
  if (workers > MAX_WORKERS) workers = MAX_WORKERS;
  const unsigned hang_ms = 20000;

  if (replay) {
    FILE *f = fopen(replay, "r");
    if (!f) { perror(replay); return 2; }
    static Seq s;
    char line[256];
    while (fgets(line, sizeof line, f))
      if (line[0] == 'c' && line[1] == ' ' && s.n < MAX_CHOICES)
        s.v[s.n++] = strtoul(line + 2, nullptr, 10);
    fclose(f);
    Shm *shm = new_shm();
    bool bad = run_input(shm, s.v, s.n, hang_ms, verbose);
    printf("%s", shm->trace);
    if (bad) printf("FAILS: %s\n", shm->msg);
    else printf("passes\n");
    return bad ? 1 : 0;
  }

  uint64_t t0 = real_ms();
  uint64_t base = seed * 0x9e3779b97f4a7c15ull ^ hash_name(harness_name());
  Shm *shm[MAX_WORKERS];
  pid_t pid[MAX_WORKERS];
  uint64_t beat[MAX_WORKERS], beat_t[MAX_WORKERS], resume_at[MAX_WORKERS];
  bool done[MAX_WORKERS];
  int flaky = 0;
  bool capped = false;
  auto spawn = [&](int w, uint64_t from) {
    shm[w]->failed = 0;
    fflush(stdout);
    fflush(stderr);
    pid[w] = fork();
    if (pid[w] == 0) {
      S = shm[w];
      if (!verbose) {
        int fd = open("/dev/null", O_WRONLY);
        dup2(fd, 2);
      }
      pin(w);
      child_init();
      for (uint64_t i = from; i < cases; i += workers) {
        uint64_t x = base + i * 0xd1342543de82ef95ull;
        g_rng = splitmix(x);
        begin_case(i);
        run_controlled();
        end_case();
      }
      _exit(0);
    }
    beat[w] = shm[w]->heartbeat;
    beat_t[w] = real_ms();
  };
  for (int w = 0; w < workers; ++w) {
    shm[w] = new_shm();
    done[w] = false;
    resume_at[w] = w;
    spawn(w, w);
  }
  int failed_w = -1;
  static Seq fail_seq;
  char fail_msg[MSG_MAX] = "";
  int left = workers;
  while (left > 0 && failed_w < 0) {
    usleep(2000);
    uint64_t now = real_ms();
    if (now - t0 > cap_ms) {
      capped = true;
      break;
    }
    for (int w = 0; w < workers && failed_w < 0; ++w) {
      if (done[w]) continue;
      int st;
      bool ended = waitpid(pid[w], &st, WNOHANG) == pid[w];
      bool hung = false;
      if (!ended) {
        if (shm[w]->heartbeat != beat[w]) {
          beat[w] = shm[w]->heartbeat;
          beat_t[w] = now;
        } else if (now - beat_t[w] > hang_ms) {
          if (getenv("RT_HANG_PAUSE")) { fprintf(stderr, "hung %d\n", pid[w]); sleep(1000); }
          kill(pid[w], SIGKILL);
          waitpid(pid[w], &st, 0);
          hung = true;
        }
        if (!hung) continue;
      }
      if (!hung && WIFEXITED(st) && WEXITSTATUS(st) == 0) {
        done[w] = true;
        --left;
        continue;
      }
      if (!hung && WIFEXITED(st) && WEXITSTATUS(st) == 5) {
        ++shm[w]->discarded;
        spawn(w, shm[w]->case_idx + workers);
        continue;
      }
      // candidate failure: must reproduce three times from its choices alone
      take(shm[w], fail_seq);
      snprintf(fail_msg, MSG_MAX, "%s", shm[w]->failed ? shm[w]->msg : hung ? "no progress" : "crash");
      Shm *r = new_shm();
      int rep = 0;
      for (int k = 0; k < 3; ++k)
        rep += run_input(r, fail_seq.v, fail_seq.n, hang_ms, false);
      munmap(r, sizeof(Shm));
      if (rep == 3) {
        failed_w = w;
      } else {
        ++flaky;
        fprintf(stderr, "note: case %llu did not reproduce (%d/3): %s (status %x)\n",
                (unsigned long long)shm[w]->case_idx, rep, fail_msg, st);
        if (flaky > 50) {
          done[w] = true;
          --left;
        } else
          spawn(w, shm[w]->case_idx + workers);
      }
    }
  }
  for (int w = 0; w < workers; ++w)
    if (!done[w]) {
      kill(pid[w], SIGKILL);
      waitpid(pid[w], nullptr, 0);
    }

  int rc = 0;
  if (failed_w >= 0) {
    rc = 1;
    Shm *r = new_shm();
    static Seq orig;
    orig = fail_seq;
    shrink(r, fail_seq, shrink_ms, 5000);
    int rep = 0;
    for (int k = 0; k < 3; ++k)
      rep += run_input(r, fail_seq.v, fail_seq.n, hang_ms, false);
    if (rep != 3) {
      fail_seq = orig;
      run_input(r, fail_seq.v, fail_seq.n, hang_ms, false);
    }
    snprintf(fail_msg, MSG_MAX, "%s", r->msg);
    printf("FAILED harness=%s case=%llu choices=%u: %s\n%s", harness_name(),
           (unsigned long long)shm[failed_w]->case_idx, fail_seq.n, fail_msg, r->trace);
    if (replay_out) {
      FILE *f = fopen(replay_out, "w");
      if (f) {
        fprintf(f, "# harness %s\n# %s\n", harness_name(), fail_msg);
        char *t = r->trace;
        for (char *p = strtok(t, "\n"); p; p = strtok(nullptr, "\n"))
          fprintf(f, "# | %s\n", p);
        for (uint32_t i = 0; i < fail_seq.n; ++i)
          fprintf(f, "c %u\n", fail_seq.v[i]);
        fclose(f);
      }
    }
  }
  if (out) {
    FILE *f = fopen(out, "w");
    if (!f) { perror(out); return 2; }
    uint64_t ev = 0, nt = 0, dn = 0, de = 0, steps = 0, pre = 0, thr = 0, disc = 0;
    for (int w = 0; w < workers; ++w) {
      ev += shm[w]->evaluations;
      nt += shm[w]->nontrivial;
      dn += shm[w]->distinct_nontrivial;
      de += shm[w]->distinct_execs;
      steps += shm[w]->steps;
      pre += shm[w]->preempts;
      thr += shm[w]->threads;
      disc += shm[w]->discarded;
    }
    fprintf(f, "{\"harness\":\"%s\",\"rule\":", harness_name());
    json_str(f, harness_rule());
    fprintf(f, ",\"evaluations\":%llu,\"nontrivial\":%llu,\"distinct_nontrivial\":%llu,\"distinct_executions\":%llu,"
               "\"sync_steps\":%llu,\"preemptions\":%llu,\"threads_started\":%llu,"
               "\"discarded\":%llu,\"unreproducible\":%d,\"time_capped\":%s,\"wall_s\":%.2f,\"failed\":%s",
            (unsigned long long)ev, (unsigned long long)nt, (unsigned long long)dn,
            (unsigned long long)de,
            (unsigned long long)steps, (unsigned long long)pre, (unsigned long long)thr,
            (unsigned long long)disc, flaky, capped ? "true" : "false",
            (real_ms() - t0) / 1000.0, rc ? "true" : "false");
    if (rc) {
      fprintf(f, ",\"message\":");
      json_str(f, fail_msg);
    }
    fprintf(f, ",\"labels\":{");
    bool first = true;
    // merge labels
    for (int w = 0; w < workers; ++w)
      for (uint64_t i = 0; i < shm[w]->nlabels; ++i) {
        const char *n = shm[w]->label_name[i];
        bool seen = false;
        for (int v = 0; v < w && !seen; ++v)
          for (uint64_t k = 0; k < shm[v]->nlabels && !seen; ++k)
            seen = strcmp(shm[v]->label_name[k], n) == 0;
        if (seen) continue;
        uint64_t c = 0;
        for (int v = w; v < workers; ++v)
          for (uint64_t k = 0; k < shm[v]->nlabels; ++k)
            if (strcmp(shm[v]->label_name[k], n) == 0) c += shm[v]->label_count[k];
        fprintf(f, "%s", first ? "" : ",");
        json_str(f, n);
        fprintf(f, ":%llu", (unsigned long long)c);
        first = false;
      }
    fprintf(f, "},\"samples\":[");
    first = true;
    for (int w = 0, n = 0; w < workers && n < 3; ++w)
      for (int k = 0; k < shm[w]->nsamples && n < 3; ++k, ++n) {
        fprintf(f, "%s", first ? "" : ",");
        json_str(f, shm[w]->samples[k]);
        first = false;
      }
    fprintf(f, "]}\n");
    fclose(f);
  }
  return rc;
}
