// Controlled scheduler, happens-before race detector and checking allocator.
//
// The harness and the library are compiled with clang's ThreadSanitizer
// instrumentation but linked against this runtime instead of the real one, so
// every plain and atomic memory access and (by symbol interposition) every
// mutex, condition variable, thread and clock operation arrives here. Exactly
// one thread runs at a time; which one is decided by draws of the choice
// sequence. Included by rt.cpp only.

#include <elf.h>
#include <link.h>
#include <malloc.h>

namespace {

constexpr int MAXT = 14;
constexpr size_t STACK_SZ = 256 * 1024;
constexpr size_t ARENA_SZ = 96u << 20;
constexpr uint64_t STEP_LIMIT = 60000;

struct VC {
  uint32_t c[MAXT];
};
inline void vc_join(VC &a, const VC &b) {
  for (int i = 0; i < MAXT; ++i)
    if (b.c[i] > a.c[i])
      a.c[i] = b.c[i];
}

enum State : int { FREE, RUN, B_MUTEX, B_COND, B_JOIN, B_SLEEP, B_GUARD, B_RW, DONE };

struct Thread {
  int go;
  State state;
  bool timed;
  bool timed_out;
  bool joined;
  pthread_t real;
  void *(*fn)(void *);
  void *arg;
  VC vc, acq_pending, rel_fence;
  bool has_rel_fence;
  uintptr_t sp;
  const void *waddr;
  uint64_t deadline;
};

Thread g_t[MAXT];
int g_nt;
thread_local int tl_id = -1;
volatile int g_cur = -1;
bool g_incase;
uint64_t g_steps, g_case_preempt;
uint64_t g_vtime;
int g_mode, g_gap, g_spur_budget, g_timed_budget;
bool g_allow_spurious;
int g_fail_alloc, g_fail_thread;
uint64_t g_alloc_faults;
uint64_t g_allocs, g_live, g_thread_allocs[MAXT];
bool g_skip_leak;
uint32_t g_gen = 1;
char *g_stacks;
int g_done_fd;

int (*real_create)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
int (*real_join)(pthread_t, void **);
int (*real_clock_gettime)(clockid_t, struct timespec *);
void (*real_tls_dtors)();
void *(*real_alloc_exc)(size_t);

inline bool active() { return g_incase && tl_id >= 0; }

const char *state_name(State s) {
  switch (s) {
  case B_MUTEX: return "mutex";
  case B_COND: return "condition variable";
  case B_JOIN: return "thread join";
  case B_SLEEP: return "sleep";
  case B_GUARD: return "static initialisation";
  case B_RW: return "rwlock";
  default: return "-";
  }
}

// --------------------------------------------------------------------------
// baton

void park(Thread &t) {
  while (__atomic_load_n(&t.go, __ATOMIC_ACQUIRE) == 0)
    syscall(SYS_futex, &t.go, FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0);
  __atomic_store_n(&t.go, 0, __ATOMIC_RELAXED);
}

void handoff(int to) {
  g_cur = to;
  __atomic_store_n(&g_t[to].go, 1, __ATOMIC_RELEASE);
  syscall(SYS_futex, &g_t[to].go, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0);
}

void prepare_run(int to) {
  Thread &t = g_t[to];
  if (t.state == B_COND || t.state == B_SLEEP) {
    // woken by time-out (or spuriously)
    if (t.timed) {
      if (g_vtime < t.deadline)
        g_vtime = t.deadline;
      t.timed_out = true;
    }
    t.state = RUN;
  }
}

void switch_to(int to) {
  int me = tl_id;
  if (to == me)
    return;
  g_t[me].sp = (uintptr_t)__builtin_frame_address(0);
  handoff(to);
  park(g_t[me]);
}

[[noreturn]] void report_deadlock() {
  char buf[900];
  int n = 0;
  for (int i = 0; i < g_nt && n < 800; ++i)
    if (g_t[i].state != DONE && g_t[i].state != FREE)
      n += snprintf(buf + n, sizeof buf - n, "%sthread %d blocked on %s", n ? ", " : "", i, state_name(g_t[i].state));
  rt::fail("no thread can ever proceed: %s", buf);
}

// deadlines further away than this pass only when nothing else can happen
constexpr uint64_t FAR_NS = 1800ull * 1000000000ull;
bool far_off(int i) { return g_t[i].deadline > g_vtime + FAR_NS; }

// chooses a thread to run when the current one cannot
int pick_blocked() {
  int cand[MAXT], n = 0;
  for (int i = 0; i < g_nt; ++i)
    if (g_t[i].state == RUN)
      cand[n++] = i;
  int tc[MAXT], tn = 0;
  for (int i = 0; i < g_nt; ++i)
    if ((g_t[i].state == B_COND || g_t[i].state == B_SLEEP) && g_t[i].timed) {
      if (g_t[i].deadline <= g_vtime)
        cand[n++] = i;
      else
        tc[tn++] = i;
    }
  if (n > 0) {
    // rarely let a pending time-out win against runnable threads
    int nn = 0, nc[MAXT];
    for (int i = 0; i < tn; ++i)
      if (!far_off(tc[i]))
        nc[nn++] = tc[i];
    if (nn > 0 && g_timed_budget > 0 && rt::draw(6) == 5) {
      --g_timed_budget;
      return nc[rt::draw(nn)];
    }
    return cand[n > 1 ? rt::draw(n) : 0];
  }
  if (tn > 0) {
    // earliest deadline first: with nothing runnable time simply passes
    int b = tc[0];
    for (int i = 1; i < tn; ++i)
      if (g_t[tc[i]].deadline < g_t[b].deadline)
        b = tc[i];
    return b;
  }
  report_deadlock();
}

void new_gap() {
  switch (g_mode) {
  case 0: g_gap = INT_MAX; return;
  case 1: g_gap = 1 + rt::draw(5); return;
  case 2: g_gap = 1 + rt::draw(12); return;
  case 3: g_gap = 1 + rt::draw(30); return;
  case 4:
    if (rt::draw(3) == 0) { g_gap = INT_MAX; return; }
    g_gap = 1 + rt::draw(40);
    return;
  default:
    if (rt::draw(3) == 0) { g_gap = INT_MAX; return; }
    g_gap = 1 + rt::draw(150);
    return;
  }
}

// scheduling point before a visible operation of the running thread
void sched_point() {
  if (!active())
    return;
  int me = tl_id;
  ++g_steps;
  ++g_vtime;
  if (g_steps > STEP_LIMIT)
    rt::fail("no progress: more than %llu synchronisation steps in one case", (unsigned long long)STEP_LIMIT);
  int cand[MAXT], n = 0, sp[MAXT], sn = 0;
  for (int i = 0; i < g_nt; ++i) {
    if (i == me)
      continue;
    if (g_t[i].state == RUN)
      cand[n++] = i;
    else if (g_t[i].state == B_COND || g_t[i].state == B_SLEEP) {
      if (g_t[i].timed ? (g_timed_budget > 0 && !far_off(i)) || g_t[i].deadline <= g_vtime ||
                             (g_t[i].state == B_COND && g_spur_budget > 0)
                       : g_spur_budget > 0)
        sp[sn++] = i;
    }
  }
  if (n + sn == 0)
    return;
  if (g_mode < 0) {
    g_mode = rt::draw(6);
    new_gap();
  }
  if (g_steps > STEP_LIMIT / 2) {
    // fairness, so that only genuinely stuck programs reach the limit
    if (n > 0 && g_steps % 16 == 0) {
      int best = cand[0];
      for (int i = 0; i < n; ++i)
        if (cand[i] > me) { best = cand[i]; break; }
      switch_to(best);
    }
    return;
  }
  if (g_gap == INT_MAX || --g_gap > 0)
    return;
  int to;
  if (n == 0 || (sn > 0 && rt::draw(5) == 4)) {
    to = sp[rt::draw(sn)];
    if (g_t[to].timed) {
      const bool late = g_t[to].deadline <= g_vtime;
      const bool may_time = late || (g_timed_budget > 0 && !far_off(to));
      const bool may_spur = g_t[to].state == B_COND && g_spur_budget > 0;
      if (may_spur && (!may_time || rt::draw(2))) {
        --g_spur_budget; // wakes up early, nothing has happened
        g_t[to].state = RUN;
      } else if (!late)
        --g_timed_budget;
    } else
      --g_spur_budget;
  } else
    to = cand[rt::draw(n)];
  new_gap();
  ++g_case_preempt;
  prepare_run(to);
  switch_to(to);
}

// the running thread has set its own state to a blocked one
void block_self() {
  int to = pick_blocked();
  if (to == tl_id) {
    prepare_run(to);
    return;
  }
  prepare_run(to);
  switch_to(to);
}

// --------------------------------------------------------------------------
// shadow memory

struct Access {
  uint32_t clk;
  uint32_t pc;
  uint8_t tid, mask, flags, pad;
};
enum : uint8_t { A_WRITE = 1, A_ATOMIC = 2, A_FREE = 4 };

constexpr int NACC = 6;
struct Cell {
  uint32_t sync; // index of sync clock, 0 = none
  uint8_t n, rot, freed_mask, pad;
  uint32_t free_pc;
  Access a[NACC];
};
constexpr uint32_t NIDX = 1u << 17, NCELL = 1u << 16, NSYNC = 1u << 14;
struct Idx {
  uintptr_t key;
  uint32_t gen, cell;
};
Idx *g_idx;
Cell *g_cells;
VC *g_sync;
uint32_t g_ncell, g_nsync;

Cell *cell_at(uintptr_t key, bool create = true) {
  uint32_t h = uint32_t((key * 0x9e3779b97f4a7c15ull) >> 40) & (NIDX - 1);
  for (;;) {
    Idx &e = g_idx[h];
    if (e.gen != g_gen) {
      if (!create || g_ncell >= NCELL)
        return nullptr;
      e.gen = g_gen;
      e.key = key;
      e.cell = g_ncell++;
      Cell &c = g_cells[e.cell];
      c.sync = 0;
      c.n = c.rot = c.freed_mask = 0;
      c.free_pc = 0;
      return &c;
    }
    if (e.key == key)
      return &g_cells[e.cell];
    h = (h + 1) & (NIDX - 1);
  }
}

VC *sync_of(Cell *c) {
  if (!c)
    return nullptr;
  if (!c->sync) {
    if (g_nsync >= NSYNC)
      return nullptr;
    c->sync = g_nsync++;
    memset(&g_sync[c->sync], 0, sizeof(VC));
  }
  return &g_sync[c->sync];
}

[[noreturn]] void report_race(uintptr_t addr, const Access &o, uint32_t pc, uint8_t flags) {
  auto kind = [](uint8_t f) {
    return f & A_FREE ? "destruction" : f & A_ATOMIC ? (f & A_WRITE ? "atomic write" : "atomic read")
                                                     : (f & A_WRITE ? "write" : "read");
  };
  rt::fail("data race: %s by thread %d at pc=0x%x is not ordered with %s by thread %d at pc=0x%x (address %p)",
           kind(flags), tl_id, pc, kind(o.flags), o.tid, o.pc, (void *)addr);
}

void check_stack(uintptr_t a, uint32_t pc) {
  uintptr_t off = a - (uintptr_t)g_stacks;
  if (off >= MAXT * STACK_SZ)
    return;
  int s = off / STACK_SZ;
  if (s == tl_id)
    return;
  if (g_t[s].state == DONE)
    rt::fail("use after scope: thread %d accesses the stack of finished thread %d at pc=0x%x", tl_id, s, pc);
  if (g_t[s].state != FREE && g_t[s].sp && a + 8 < g_t[s].sp - 64)
    rt::fail("use after scope: thread %d accesses a dead stack frame of thread %d at pc=0x%x", tl_id, s, pc);
}

void access_cell(uintptr_t key, uint8_t mask, uint8_t flags, uint32_t pc) {
  Cell *c = cell_at(key);
  if (!c)
    return;
  Thread &me = g_t[tl_id];
  if (c->freed_mask & mask)
    rt::fail("use after free: thread %d at pc=0x%x accesses memory freed at pc=0x%x", tl_id, pc, c->free_pc);
  int slot = -1;
  for (int i = 0; i < c->n;) {
    Access &o = c->a[i];
    if (o.mask & mask) {
      if (o.tid == tl_id) {
        // superseded by the new access?
        if ((o.mask & ~mask) == 0 && ((flags & A_WRITE) || !(o.flags & A_WRITE)) &&
            (!(flags & A_ATOMIC) || (o.flags & A_ATOMIC))) {
          o = c->a[--c->n];
          continue;
        }
      } else if (((flags | o.flags) & A_WRITE) && !(flags & o.flags & A_ATOMIC)) {
        if (me.vc.c[o.tid] < o.clk)
          report_race(key, o, pc, flags);
        // ordered before a write that covers it: the write stands for both
        if ((flags & A_WRITE) && !(flags & A_ATOMIC) && (o.mask & ~mask) == 0) {
          o = c->a[--c->n];
          continue;
        }
      }
    }
    ++i;
  }
  if (c->n < NACC)
    slot = c->n++;
  else
    slot = c->rot = (c->rot + 1) % NACC;
  c->a[slot] = Access{me.vc.c[tl_id], pc, uint8_t(tl_id), mask, flags, 0};
}

void mem_access(uintptr_t a, size_t sz, uint8_t flags, void *ra) {
  if (!active() || !sz)
    return;
  uint32_t pc = (uint32_t)(uintptr_t)ra - 1;
  check_stack(a, pc);
  uintptr_t end = a + sz;
  uintptr_t k = a >> 3;
  while ((k << 3) < end) {
    unsigned lo = (k << 3) < a ? a & 7 : 0;
    unsigned hi = ((k + 1) << 3) > end ? unsigned(end - (k << 3)) : 8;
    uint8_t mask = uint8_t((0xffu << lo) & (0xffu >> (8 - hi)));
    access_cell(k, mask, flags, pc);
    ++k;
  }
}

void mark_freed(uintptr_t a, size_t sz, uint32_t pc) {
  for (uintptr_t k = a >> 3; (k << 3) < a + sz; ++k) {
    Cell *c = cell_at(k);
    if (!c)
      return;
    unsigned hi = ((k + 1) << 3) > a + sz ? unsigned(a + sz - (k << 3)) : 8;
    c->freed_mask |= uint8_t(0xffu >> (8 - hi));
    c->free_pc = pc;
  }
}

void forget_range(uintptr_t a, size_t sz) {
  for (uintptr_t k = a >> 3; (k << 3) < a + sz; ++k)
    if (Cell *c = cell_at(k, false)) {
      c->n = 0;
      c->freed_mask = 0;
      c->sync = 0;
    }
}

void tick() { ++g_t[tl_id].vc.c[tl_id]; }

void sync_release(VC *s) {
  if (s)
    *s = g_t[tl_id].vc;
  tick();
}
void sync_release_join(VC *s) {
  if (s)
    vc_join(*s, g_t[tl_id].vc);
  tick();
}

// --------------------------------------------------------------------------
// pthread objects, keyed by address; state lives outside of the objects

struct Obj {
  uintptr_t key;
  uint32_t gen;
  int owner, count, readers;
  VC vc, rvc;
};
constexpr uint32_t NOBJ = 1u << 11;
Obj *g_obj;
uint32_t g_nobj;

Obj *obj_at(const void *p) {
  uintptr_t key = (uintptr_t)p;
  uint32_t h = uint32_t((key * 0x9e3779b97f4a7c15ull) >> 44) & (NOBJ - 1);
  for (uint32_t n = 0; n < NOBJ; ++n) {
    Obj &o = g_obj[h];
    if (o.gen != g_gen) {
      o.gen = g_gen;
      o.key = key;
      o.owner = -1;
      o.count = o.readers = 0;
      memset(&o.vc, 0, sizeof o.vc);
      memset(&o.rvc, 0, sizeof o.rvc);
      return &o;
    }
    if (o.key == key)
      return &o;
    h = (h + 1) & (NOBJ - 1);
  }
  rt::discard_process("too many synchronisation objects");
}

void wake_waiters(const void *p, State st) {
  for (int i = 0; i < g_nt; ++i)
    if (g_t[i].state == st && g_t[i].waddr == p)
      g_t[i].state = RUN;
}

constexpr uint64_t DEAD = 0xD5D5D5D5D5D5D5D5ull;

void touch_sync(const void *p, size_t sz, void *ra, const char *what) {
  if (*(const volatile uint64_t *)p == DEAD)
    rt::fail("use of a destroyed %s by thread %d at pc=0x%x", what, tl_id, (uint32_t)(uintptr_t)ra - 1);
  mem_access((uintptr_t)p, sz, A_WRITE | A_ATOMIC, ra);
}

uint64_t to_virtual(clockid_t clk, const struct timespec *ts);

void mutex_acquire(pthread_mutex_t *m) {
  // precondition: running; no scheduling point here
  Obj *o = obj_at(m);
  for (;;) {
    if (o->owner < 0)
      break;
    Thread &me = g_t[tl_id];
    me.state = B_MUTEX;
    me.timed = false;
    me.waddr = m;
    block_self();
  }
  o->owner = tl_id;
  o->count = 1;
  vc_join(g_t[tl_id].vc, o->vc);
}

void mutex_release(pthread_mutex_t *m) {
  Obj *o = obj_at(m);
  if (o->owner != tl_id)
    rt::fail("thread %d unlocks a mutex it does not own", tl_id);
  o->owner = -1;
  o->count = 0;
  o->vc = g_t[tl_id].vc;
  tick();
  wake_waiters(m, B_MUTEX);
}

int mutex_kind(pthread_mutex_t *m) { return m->__data.__kind & 3; }

int do_lock(pthread_mutex_t *m, void *ra) {
  touch_sync(m, 8, ra, "mutex");
  sched_point();
  Obj *o = obj_at(m);
  if (o->owner == tl_id && mutex_kind(m) == PTHREAD_MUTEX_RECURSIVE) {
    ++o->count;
    return 0;
  }
  mutex_acquire(m);
  return 0;
}

int cond_wait_impl(pthread_cond_t *c, pthread_mutex_t *m, bool timed, uint64_t deadline, void *ra) {
  touch_sync(c, 8, ra, "condition variable");
  touch_sync(m, 8, ra, "mutex");
  sched_point();
  if (g_allow_spurious && g_spur_budget < 0)
    g_spur_budget = rt::draw(6) >= 4 ? 2 : 0;
  Thread &me = g_t[tl_id];
  mutex_release(m);
  me.state = B_COND;
  me.waddr = c;
  me.timed = timed;
  me.timed_out = false;
  me.deadline = deadline;
  block_self();
  bool to = me.timed_out;
  me.timed = false;
  me.timed_out = false;
  mutex_acquire(m);
  return to ? ETIMEDOUT : 0;
}

uint64_t ts_ns(const struct timespec *ts) {
  if (ts->tv_sec < 0)
    return 0;
  return uint64_t(ts->tv_sec) * 1000000000ull + uint64_t(ts->tv_nsec);
}
constexpr uint64_t MONO_BASE = 1000ull * 1000000000ull;
constexpr uint64_t REAL_BASE = 1700000000ull * 1000000000ull;
uint64_t to_virtual(clockid_t clk, const struct timespec *ts) {
  uint64_t b = clk == CLOCK_MONOTONIC ? MONO_BASE : REAL_BASE;
  if (ts->tv_sec > 9000000000ll)
    return UINT64_MAX / 2;
  uint64_t v = ts_ns(ts);
  return v > b ? v - b : 0;
}

// --------------------------------------------------------------------------
// allocator

struct Hdr {
  uint64_t magic;
  uint32_t state; // 1 live, 2 freed, 3 skipped
  uint32_t pc;
  uint64_t size;
  uint64_t total; // distance to the next header
  uint64_t user;  // user pointer
  uint32_t align;
  uint32_t gen;
};
static_assert(sizeof(Hdr) == 48, "");
constexpr uint64_t MAGIC = 0x51a7e5b10c5a110cull;
char *g_arena, *g_arena_start, *g_arena_cur;

void *alloc(size_t n, size_t align, void *ra, bool nothrow) {
  if (active()) {
    ++g_allocs;
    ++g_thread_allocs[rt::self()];
    if (g_fail_alloc > 0 && g_fail_thread == rt::self() && --g_fail_alloc == 0) {
      ++g_alloc_faults;
      if (nothrow)
        return nullptr;
      throw std::bad_alloc();
    }
  }
  if (!g_incase || !g_arena) {
    if (align < 16)
      align = 16;
    void *p = aligned_alloc(align, ((n ? n : 1) + align - 1) & ~(align - 1));
    if (!p && !nothrow)
      throw std::bad_alloc();
    return p;
  }
  if (align < 16)
    align = 16;
  uintptr_t h = (uintptr_t)g_arena_cur;
  // the header word pair right before the block points back to the header
  uintptr_t u = (h + sizeof(Hdr) + 16 + align - 1) & ~uintptr_t(align - 1);
  uintptr_t end = (u + (n ? n : 1) + 31) & ~uintptr_t(15);
  if (n > (32u << 20) || end > (uintptr_t)g_arena + ARENA_SZ) {
    if (nothrow)
      return nullptr;
    throw std::bad_alloc();
  }
  Hdr *hd = (Hdr *)h;
  hd->magic = MAGIC;
  hd->state = 1;
  hd->pc = (uint32_t)(uintptr_t)ra - 1;
  hd->size = n;
  hd->total = end - h;
  hd->user = u;
  hd->align = align;
  hd->gen = g_gen;
  ((uint64_t *)u)[-1] = MAGIC ^ h;
  g_arena_cur = (char *)end;
  memset((void *)u, 0xBE, n);
  ++g_live;
  return (void *)u;
}

void dealloc(void *p, size_t n, size_t align, void *ra) {
  if (!p)
    return;
  uintptr_t u = (uintptr_t)p;
  if (u < (uintptr_t)g_arena || u >= (uintptr_t)g_arena + ARENA_SZ) {
    free(p);
    return;
  }
  uintptr_t h = ((uint64_t *)u)[-1] ^ MAGIC;
  Hdr *hd = (Hdr *)h;
  uint32_t pc = (uint32_t)(uintptr_t)ra - 1;
  if (h < (uintptr_t)g_arena || h >= u || hd->magic != MAGIC || hd->user != u)
    rt::fail("operator delete of a pointer that was never allocated (pc=0x%x)", pc);
  if (hd->state != 1)
    rt::fail("double free at pc=0x%x of a block allocated at pc=0x%x", pc, hd->pc);
  if (n != SIZE_MAX && n != hd->size)
    rt::fail("operator delete with size %zu of a block of size %zu (pc=0x%x)", n, (size_t)hd->size, pc);
  if (align != SIZE_MAX && (align < 16 ? 16 : align) != hd->align)
    rt::fail("operator delete with a different alignment (pc=0x%x)", pc);
  if (active()) {
    mem_access(u, hd->size, A_WRITE | A_FREE, ra);
    mark_freed(u, hd->size, pc);
  }
  hd->state = 2;
  if (hd->gen == g_gen)
    --g_live;
  memset(p, 0xDD, hd->size);
}

} // namespace

// --------------------------------------------------------------------------
namespace rt {
uint64_t now_ns() { return g_vtime; }
int self() { return tl_id < 0 ? 0 : tl_id; }
void yield_point() { sched_point(); }
bool parked(int t) { return t >= 0 && t < g_nt && g_t[t].state == B_COND; }
void allow_spurious(bool on) { g_allow_spurious = on; }
void fail_alloc_at(int n) {
  g_fail_alloc = n;
  g_fail_thread = self();
}
int fail_alloc_left() { return g_fail_thread == self() ? g_fail_alloc : 0; }
uint64_t alloc_faults() { return g_alloc_faults; }
uint64_t alloc_count() { return g_allocs; }
uint64_t thread_alloc_count() { return g_thread_allocs[self()]; }
uint64_t live_blocks() { return g_live; }
uint64_t preemptions() { return g_case_preempt; }
bool sched_build() { return true; }
void skip_leak_check() { g_skip_leak = true; }
} // namespace rt

// operator new / delete
#define RA __builtin_return_address(0)
void *operator new(size_t n) { return alloc(n, 16, RA, false); }
void *operator new[](size_t n) { return alloc(n, 16, RA, false); }
void *operator new(size_t n, const std::nothrow_t &) noexcept { return alloc(n, 16, RA, true); }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { return alloc(n, 16, RA, true); }
void *operator new(size_t n, std::align_val_t a) { return alloc(n, size_t(a), RA, false); }
void *operator new[](size_t n, std::align_val_t a) { return alloc(n, size_t(a), RA, false); }
void *operator new(size_t n, std::align_val_t a, const std::nothrow_t &) noexcept { return alloc(n, size_t(a), RA, true); }
void *operator new[](size_t n, std::align_val_t a, const std::nothrow_t &) noexcept { return alloc(n, size_t(a), RA, true); }
void operator delete(void *p) noexcept { dealloc(p, SIZE_MAX, SIZE_MAX, RA); }
void operator delete[](void *p) noexcept { dealloc(p, SIZE_MAX, SIZE_MAX, RA); }
void operator delete(void *p, size_t n) noexcept { dealloc(p, n, SIZE_MAX, RA); }
void operator delete[](void *p, size_t n) noexcept { dealloc(p, n, SIZE_MAX, RA); }
void operator delete(void *p, const std::nothrow_t &) noexcept { dealloc(p, SIZE_MAX, SIZE_MAX, RA); }
void operator delete[](void *p, const std::nothrow_t &) noexcept { dealloc(p, SIZE_MAX, SIZE_MAX, RA); }
void operator delete(void *p, std::align_val_t a) noexcept { dealloc(p, SIZE_MAX, size_t(a), RA); }
void operator delete[](void *p, std::align_val_t a) noexcept { dealloc(p, SIZE_MAX, size_t(a), RA); }
void operator delete(void *p, size_t n, std::align_val_t a) noexcept { dealloc(p, n, size_t(a), RA); }
void operator delete[](void *p, size_t n, std::align_val_t a) noexcept { dealloc(p, n, size_t(a), RA); }

extern "C" {

// --------------------------------------------------------------------------
// instrumentation interface
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
void __tsan_ignore_thread_begin() {}
void __tsan_ignore_thread_end() {}

#define RW(N)                                                                                          \
  void __tsan_read##N(void *p) { mem_access((uintptr_t)p, N, 0, RA); }                                 \
  void __tsan_write##N(void *p) { mem_access((uintptr_t)p, N, A_WRITE, RA); }                          \
  void __tsan_unaligned_read##N(void *p) { mem_access((uintptr_t)p, N, 0, RA); }                       \
  void __tsan_unaligned_write##N(void *p) { mem_access((uintptr_t)p, N, A_WRITE, RA); }                \
  void __tsan_read_write##N(void *p) { mem_access((uintptr_t)p, N, A_WRITE, RA); }                     \
  void __tsan_unaligned_read_write##N(void *p) { mem_access((uintptr_t)p, N, A_WRITE, RA); }           \
  void __tsan_volatile_read##N(void *p) { mem_access((uintptr_t)p, N, 0, RA); }                        \
  void __tsan_volatile_write##N(void *p) { mem_access((uintptr_t)p, N, A_WRITE, RA); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, size_t n) { mem_access((uintptr_t)p, n, 0, RA); }
void __tsan_write_range(void *p, size_t n) { mem_access((uintptr_t)p, n, A_WRITE, RA); }
void __tsan_vptr_read(void **p) { mem_access((uintptr_t)p, 8, 0, RA); }
void __tsan_vptr_update(void **p, void *v) {
  if (*p != v)
    mem_access((uintptr_t)p, 8, A_WRITE, RA);
}
void *__tsan_memcpy(void *d, const void *s, size_t n) {
  mem_access((uintptr_t)s, n, 0, RA);
  mem_access((uintptr_t)d, n, A_WRITE, RA);
  return memcpy(d, s, n);
}
void *__tsan_memmove(void *d, const void *s, size_t n) {
  mem_access((uintptr_t)s, n, 0, RA);
  mem_access((uintptr_t)d, n, A_WRITE, RA);
  return memmove(d, s, n);
}
void *__tsan_memset(void *d, int v, size_t n) {
  mem_access((uintptr_t)d, n, A_WRITE, RA);
  return memset(d, v, n);
}

} // extern "C"

namespace {
// LLVM order of memory_order: relaxed, consume, acquire, release, acq_rel, seq_cst
inline bool is_acq(int mo) { return mo == 1 || mo == 2 || mo == 4 || mo == 5; }
inline bool is_rel(int mo) { return mo == 3 || mo == 4 || mo == 5; }

VC *atomic_prologue(const volatile void *p, size_t n, bool write, void *ra) {
  sched_point();
  mem_access((uintptr_t)p, n, uint8_t(A_ATOMIC | (write ? A_WRITE : 0)), ra);
  return sync_of(cell_at((uintptr_t)p >> 3));
}
void on_load(VC *s, int mo) {
  Thread &t = g_t[tl_id];
  if (!s)
    return;
  if (is_acq(mo))
    vc_join(t.vc, *s);
  else
    vc_join(t.acq_pending, *s);
}
void on_store(VC *s, int mo) {
  Thread &t = g_t[tl_id];
  if (is_rel(mo))
    sync_release(s);
  else if (s) {
    if (t.has_rel_fence)
      *s = t.rel_fence;
    else
      memset(s, 0, sizeof *s);
  }
}
void on_rmw(VC *s, int mo) {
  Thread &t = g_t[tl_id];
  on_load(s, mo);
  if (is_rel(mo))
    sync_release_join(s);
  else if (s && t.has_rel_fence)
    vc_join(*s, t.rel_fence);
}
} // namespace

extern "C" {

#define ATOMICS(N, T)                                                                       \
  T __tsan_atomic##N##_load(const volatile T *p, int mo) {                                  \
    if (!active()) return *p;                                                               \
    VC *s = atomic_prologue(p, sizeof(T), false, RA);                                       \
    T v = *p;                                                                               \
    on_load(s, mo);                                                                         \
    return v;                                                                               \
  }                                                                                         \
  void __tsan_atomic##N##_store(volatile T *p, T v, int mo) {                               \
    if (!active()) { *p = v; return; }                                                      \
    VC *s = atomic_prologue(p, sizeof(T), true, RA);                                        \
    *p = v;                                                                                 \
    on_store(s, mo);                                                                        \
  }                                                                                         \
  T __tsan_atomic##N##_exchange(volatile T *p, T v, int mo) {                               \
    if (!active()) { T o = *p; *p = v; return o; }                                          \
    VC *s = atomic_prologue(p, sizeof(T), true, RA);                                        \
    T o = *p;                                                                               \
    *p = v;                                                                                 \
    on_rmw(s, mo);                                                                          \
    return o;                                                                               \
  }                                                                                         \
  T __tsan_atomic##N##_fetch_add(volatile T *p, T v, int mo) {                              \
    if (!active()) { T o = *p; *p = o + v; return o; }                                      \
    VC *s = atomic_prologue(p, sizeof(T), true, RA);                                        \
    T o = *p; *p = o + v; on_rmw(s, mo); return o;                                          \
  }                                                                                         \
  T __tsan_atomic##N##_fetch_sub(volatile T *p, T v, int mo) {                              \
    if (!active()) { T o = *p; *p = o - v; return o; }                                      \
    VC *s = atomic_prologue(p, sizeof(T), true, RA);                                        \
    T o = *p; *p = o - v; on_rmw(s, mo); return o;                                          \
  }                                                                                         \
  T __tsan_atomic##N##_fetch_and(volatile T *p, T v, int mo) {                              \
    if (!active()) { T o = *p; *p = o & v; return o; }                                      \
    VC *s = atomic_prologue(p, sizeof(T), true, RA);                                        \
    T o = *p; *p = o & v; on_rmw(s, mo); return o;                                          \
  }                                                                                         \
  T __tsan_atomic##N##_fetch_or(volatile T *p, T v, int mo) {                               \
    if (!active()) { T o = *p; *p = o | v; return o; }                                      \
    VC *s = atomic_prologue(p, sizeof(T), true, RA);                                        \
    T o = *p; *p = o | v; on_rmw(s, mo); return o;                                          \
  }                                                                                         \
  T __tsan_atomic##N##_fetch_xor(volatile T *p, T v, int mo) {                              \
    if (!active()) { T o = *p; *p = o ^ v; return o; }                                      \
    VC *s = atomic_prologue(p, sizeof(T), true, RA);                                        \
    T o = *p; *p = o ^ v; on_rmw(s, mo); return o;                                          \
  }                                                                                         \
  T __tsan_atomic##N##_fetch_nand(volatile T *p, T v, int mo) {                             \
    if (!active()) { T o = *p; *p = ~(o & v); return o; }                                   \
    VC *s = atomic_prologue(p, sizeof(T), true, RA);                                        \
    T o = *p; *p = ~(o & v); on_rmw(s, mo); return o;                                       \
  }                                                                                         \
  T __tsan_atomic##N##_compare_exchange_val(volatile T *p, T e, T v, int mo, int fmo) {     \
    if (!active()) { T o = *p; if (o == e) *p = v; return o; }                              \
    VC *s = atomic_prologue(p, sizeof(T), true, RA);                                        \
    T o = *p;                                                                               \
    if (o == e) { *p = v; on_rmw(s, mo); } else on_load(s, fmo);                            \
    return o;                                                                               \
  }                                                                                         \
  int __tsan_atomic##N##_compare_exchange_strong(volatile T *p, T *e, T v, int mo, int f) { \
    T x = *e;                                                                               \
    T o = __tsan_atomic##N##_compare_exchange_val(p, x, v, mo, f);                          \
    if (o == x) return 1;                                                                   \
    *e = o;                                                                                 \
    return 0;                                                                               \
  }                                                                                         \
  int __tsan_atomic##N##_compare_exchange_weak(volatile T *p, T *e, T v, int mo, int f) {   \
    return __tsan_atomic##N##_compare_exchange_strong(p, e, v, mo, f);                      \
  }
ATOMICS(8, uint8_t)
ATOMICS(16, uint16_t)
ATOMICS(32, uint32_t)
ATOMICS(64, uint64_t)
ATOMICS(128, unsigned __int128)

void __tsan_atomic_thread_fence(int mo) {
  if (!active())
    return;
  sched_point();
  Thread &t = g_t[tl_id];
  if (is_acq(mo))
    vc_join(t.vc, t.acq_pending);
  if (is_rel(mo)) {
    t.rel_fence = t.vc;
    t.has_rel_fence = true;
    tick();
  }
}
void __tsan_atomic_signal_fence(int) {}

// --------------------------------------------------------------------------
// pthread interposition
static void reset_tls();
static int g_case_done;

// OS threads are created once per slot and reused by all cases of a process
static void *trampoline(void *a) {
  int id = (int)(intptr_t)a;
  Thread &t = g_t[id];
  for (;;) {
    park(t);
    reset_tls();
    tl_id = id;
    t.fn(t.arg);
    if (real_tls_dtors)
      real_tls_dtors();
    sched_point();
    t.state = DONE;
    t.sp = 0;
    wake_waiters(&t, B_JOIN);
    bool left = false;
    for (int i = 0; i < g_nt; ++i)
      left |= g_t[i].state != DONE;
    int to = left ? pick_blocked() : -1;
    if (left)
      prepare_run(to);
    tl_id = -1;
    if (left)
      handoff(to);
    else {
      g_cur = -1;
      __atomic_store_n(&g_case_done, 1, __ATOMIC_RELEASE);
      syscall(SYS_futex, &g_case_done, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0);
    }
  }
  return nullptr;
}

static int spawn_thread(void *(*fn)(void *), void *arg, pthread_t *out) {
  int id = g_nt;
  if (id >= MAXT)
    rt::discard_process("too many threads");
  Thread &t = g_t[id];
  // everything but the baton word and the OS thread
  t.timed = t.timed_out = t.joined = t.has_rel_fence = false;
  memset(&t.acq_pending, 0, sizeof t.acq_pending);
  memset(&t.rel_fence, 0, sizeof t.rel_fence);
  t.sp = 0;
  t.waddr = nullptr;
  t.deadline = 0;
  t.fn = fn;
  t.arg = arg;
  t.state = RUN;
  if (tl_id >= 0)
    t.vc = g_t[tl_id].vc;
  else
    memset(&t.vc, 0, sizeof t.vc);
  t.vc.c[id] = 1;
  ++g_nt;
  if (tl_id >= 0)
    tick();
  if (!t.real) {
    pthread_attr_t at;
    pthread_attr_init(&at);
    pthread_attr_setstack(&at, g_stacks + size_t(id) * STACK_SZ, STACK_SZ);
    int rc = real_create(&t.real, &at, trampoline, (void *)(intptr_t)id);
    pthread_attr_destroy(&at);
    if (rc != 0)
      rt::discard_process("pthread_create failed");
  }
  if (out)
    *out = t.real;
  return 0;
}

static void resolve_real() {
  if (!real_create) {
    real_create = (decltype(real_create))dlsym(RTLD_NEXT, "pthread_create");
    real_join = (decltype(real_join))dlsym(RTLD_NEXT, "pthread_join");
    real_clock_gettime = (decltype(real_clock_gettime))dlsym(RTLD_NEXT, "clock_gettime");
    real_tls_dtors = (decltype(real_tls_dtors))dlsym(RTLD_DEFAULT, "__call_tls_dtors");
    real_alloc_exc = (decltype(real_alloc_exc))dlsym(RTLD_NEXT, "__cxa_allocate_exception");
  }
}

int pthread_create(pthread_t *out, const pthread_attr_t *a, void *(*fn)(void *), void *arg) noexcept {
  resolve_real();
  if (!active())
    return real_create(out, a, fn, arg);
  sched_point();
  ++S->threads;
  spawn_thread(fn, arg, out);
  sched_point();
  return 0;
}

int pthread_join(pthread_t th, void **ret) {
  resolve_real();
  if (!active())
    return real_join(th, ret);
  sched_point();
  for (int i = 0; i < g_nt; ++i)
    if (g_t[i].real == th) {
      if (i == tl_id)
        return EDEADLK;
      if (g_t[i].joined)
        rt::fail("thread %d joined twice", i);
      while (g_t[i].state != DONE) {
        Thread &me = g_t[tl_id];
        me.state = B_JOIN;
        me.timed = false;
        me.waddr = &g_t[i];
        block_self();
      }
      g_t[i].joined = true;
      vc_join(g_t[tl_id].vc, g_t[i].vc);
      if (ret)
        *ret = nullptr;
      return 0;
    }
  return ESRCH;
}

int pthread_detach(pthread_t) noexcept { return 0; }

int pthread_mutex_lock(pthread_mutex_t *m) noexcept {
  if (!active())
    return 0;
  return do_lock(m, RA);
}
int pthread_mutex_trylock(pthread_mutex_t *m) noexcept {
  if (!active())
    return 0;
  touch_sync(m, 8, RA, "mutex");
  sched_point();
  Obj *o = obj_at(m);
  if (o->owner >= 0) {
    if (o->owner == tl_id && mutex_kind(m) == PTHREAD_MUTEX_RECURSIVE) {
      ++o->count;
      return 0;
    }
    return EBUSY;
  }
  mutex_acquire(m);
  return 0;
}
int pthread_mutex_unlock(pthread_mutex_t *m) noexcept {
  if (!active())
    return 0;
  touch_sync(m, 8, RA, "mutex");
  sched_point();
  Obj *o = obj_at(m);
  if (o->owner == tl_id && o->count > 1) {
    --o->count;
    return 0;
  }
  mutex_release(m);
  return 0;
}
static int mutex_timed(pthread_mutex_t *m, uint64_t deadline, void *ra) {
  touch_sync(m, 8, ra, "mutex");
  sched_point();
  Obj *o = obj_at(m);
  if (o->owner == tl_id && mutex_kind(m) == PTHREAD_MUTEX_RECURSIVE) {
    ++o->count;
    return 0;
  }
  while (o->owner >= 0) {
    if (g_vtime >= deadline)
      return ETIMEDOUT;
    Thread &me = g_t[tl_id];
    me.state = B_SLEEP; // polls: woken by time only or by chance
    me.timed = true;
    me.deadline = g_vtime + 1000 < deadline ? g_vtime + 1000 : deadline;
    me.waddr = m;
    block_self();
    me.timed = me.timed_out = false;
  }
  mutex_acquire(m);
  return 0;
}
int pthread_mutex_timedlock(pthread_mutex_t *m, const struct timespec *ts) noexcept {
  return active() ? mutex_timed(m, to_virtual(CLOCK_REALTIME, ts), RA) : 0;
}
int pthread_mutex_clocklock(pthread_mutex_t *m, clockid_t c, const struct timespec *ts) noexcept {
  return active() ? mutex_timed(m, to_virtual(c, ts), RA) : 0;
}
int pthread_mutex_destroy(pthread_mutex_t *m) noexcept {
  if (active()) {
    mem_access((uintptr_t)m, sizeof *m, A_WRITE | A_FREE, RA);
    if (obj_at(m)->owner >= 0)
      rt::fail("locked mutex destroyed by thread %d", tl_id);
  }
  return 0;
}

int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) {
  if (!active())
    return 0;
  return cond_wait_impl(c, m, false, 0, RA);
}
int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *ts) {
  if (!active())
    return ETIMEDOUT;
  return cond_wait_impl(c, m, true, to_virtual(CLOCK_REALTIME, ts), RA);
}
int pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t clk, const struct timespec *ts) {
  if (!active())
    return ETIMEDOUT;
  return cond_wait_impl(c, m, true, to_virtual(clk, ts), RA);
}
int pthread_cond_signal(pthread_cond_t *c) noexcept {
  if (!active())
    return 0;
  touch_sync(c, 8, RA, "condition variable");
  sched_point();
  int w[MAXT], n = 0;
  for (int i = 0; i < g_nt; ++i)
    if (g_t[i].state == B_COND && g_t[i].waddr == c)
      w[n++] = i;
  if (n) {
    int k = w[n > 1 ? rt::draw(n) : 0];
    g_t[k].state = RUN;
    g_t[k].timed = false;
  }
  return 0;
}
int pthread_cond_broadcast(pthread_cond_t *c) noexcept {
  if (!active())
    return 0;
  touch_sync(c, 8, RA, "condition variable");
  sched_point();
  for (int i = 0; i < g_nt; ++i)
    if (g_t[i].state == B_COND && g_t[i].waddr == c) {
      g_t[i].state = RUN;
      g_t[i].timed = false;
    }
  return 0;
}
int pthread_cond_destroy(pthread_cond_t *c) noexcept {
  if (active()) {
    mem_access((uintptr_t)c, sizeof *c, A_WRITE | A_FREE, RA);
    for (int i = 0; i < g_nt; ++i)
      if (g_t[i].state == B_COND && g_t[i].waddr == c)
        rt::fail("condition variable destroyed by thread %d while thread %d waits on it", tl_id, i);
    memset(c, 0xD5, sizeof *c);
  }
  return 0;
}

int pthread_rwlock_rdlock(pthread_rwlock_t *l) noexcept {
  if (!active()) return 0;
  touch_sync(l, 8, RA, "rwlock");
  sched_point();
  Obj *o = obj_at(l);
  while (o->owner >= 0) {
    g_t[tl_id].state = B_RW; g_t[tl_id].timed = false; g_t[tl_id].waddr = l;
    block_self();
  }
  ++o->readers;
  vc_join(g_t[tl_id].vc, o->vc);
  return 0;
}
int pthread_rwlock_wrlock(pthread_rwlock_t *l) noexcept {
  if (!active()) return 0;
  touch_sync(l, 8, RA, "rwlock");
  sched_point();
  Obj *o = obj_at(l);
  while (o->owner >= 0 || o->readers > 0) {
    g_t[tl_id].state = B_RW; g_t[tl_id].timed = false; g_t[tl_id].waddr = l;
    block_self();
  }
  o->owner = tl_id;
  vc_join(g_t[tl_id].vc, o->vc);
  vc_join(g_t[tl_id].vc, o->rvc);
  return 0;
}
int pthread_rwlock_tryrdlock(pthread_rwlock_t *l) noexcept {
  if (active() && obj_at(l)->owner >= 0) { sched_point(); return EBUSY; }
  return pthread_rwlock_rdlock(l);
}
int pthread_rwlock_trywrlock(pthread_rwlock_t *l) noexcept {
  if (active() && (obj_at(l)->owner >= 0 || obj_at(l)->readers > 0)) { sched_point(); return EBUSY; }
  return pthread_rwlock_wrlock(l);
}
int pthread_rwlock_unlock(pthread_rwlock_t *l) noexcept {
  if (!active()) return 0;
  touch_sync(l, 8, RA, "rwlock");
  sched_point();
  Obj *o = obj_at(l);
  if (o->owner == tl_id) {
    o->owner = -1;
    o->vc = g_t[tl_id].vc;
  } else {
    --o->readers;
    vc_join(o->rvc, g_t[tl_id].vc);
  }
  tick();
  wake_waiters(l, B_RW);
  return 0;
}

int pthread_once(pthread_once_t *c, void (*fn)(void)) {
  if (!active()) {
    if (*c != 2) { *c = 2; fn(); }
    return 0;
  }
  Obj *o = obj_at(c);
  while (*c == 1) {
    g_t[tl_id].state = B_GUARD; g_t[tl_id].timed = false; g_t[tl_id].waddr = c;
    block_self();
  }
  if (*c == 2) {
    vc_join(g_t[tl_id].vc, o->vc);
    return 0;
  }
  *c = 1;
  fn();
  *c = 2;
  o->vc = g_t[tl_id].vc;
  tick();
  wake_waiters(c, B_GUARD);
  return 0;
}

int __cxa_guard_acquire(uint64_t *g) {
  volatile char *b = (volatile char *)g;
  if (b[0])  {
    if (active()) vc_join(g_t[tl_id].vc, obj_at(g)->vc);
    return 0;
  }
  if (!active())
    return 1;
  while (b[1]) {
    g_t[tl_id].state = B_GUARD; g_t[tl_id].timed = false; g_t[tl_id].waddr = g;
    block_self();
  }
  if (b[0]) {
    vc_join(g_t[tl_id].vc, obj_at(g)->vc);
    return 0;
  }
  b[1] = 1;
  return 1;
}
void __cxa_guard_release(uint64_t *g) {
  volatile char *b = (volatile char *)g;
  b[0] = 1;
  b[1] = 0;
  if (active()) {
    obj_at(g)->vc = g_t[tl_id].vc;
    if (VC *s = sync_of(cell_at((uintptr_t)g >> 3)))
      *s = g_t[tl_id].vc;
    tick();
    wake_waiters(g, B_GUARD);
  }
}
void __cxa_guard_abort(uint64_t *g) {
  ((volatile char *)g)[1] = 0;
  if (active())
    wake_waiters(g, B_GUARD);
}

// exception objects are reference counted inside libstdc++, out of sight of
// the race detector: a recycled address must not inherit old accesses
void *__cxa_allocate_exception(size_t n) noexcept {
  resolve_real();
  void *p = real_alloc_exc(n);
  if (active())
    forget_range((uintptr_t)p, n);
  return p;
}

static int vsleep(uint64_t deadline) {
  sched_point();
  Thread &me = g_t[tl_id];
  while (g_vtime < deadline) {
    me.state = B_SLEEP;
    me.timed = true;
    me.deadline = deadline;
    me.waddr = nullptr;
    block_self();
  }
  me.timed = me.timed_out = false;
  return 0;
}
int nanosleep(const struct timespec *ts, struct timespec *rem) {
  if (!active())
    return syscall(SYS_nanosleep, ts, rem);
  return vsleep(g_vtime + ts_ns(ts));
}
int clock_nanosleep(clockid_t c, int flags, const struct timespec *ts, struct timespec *rem) {
  if (!active())
    return syscall(SYS_clock_nanosleep, c, flags, ts, rem) ? errno : 0;
  return vsleep(flags & TIMER_ABSTIME ? to_virtual(c, ts) : g_vtime + ts_ns(ts));
}
int sched_yield() noexcept {
  if (!active())
    return 0;
  ++g_steps;
  int c[MAXT], n = 0;
  for (int i = 0; i < g_nt; ++i)
    if (i != tl_id && g_t[i].state == RUN)
      c[n++] = i;
  if (n)
    switch_to(c[n > 1 ? rt::draw(n) : 0]);
  else
    sched_point();
  return 0;
}
int clock_gettime(clockid_t c, struct timespec *ts) noexcept {
  if (!active()) {
    return syscall(SYS_clock_gettime, c, ts);
  }
  g_vtime += 20;
  uint64_t v = g_vtime + (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE ? REAL_BASE : MONO_BASE);
  ts->tv_sec = v / 1000000000ull;
  ts->tv_nsec = v % 1000000000ull;
  return 0;
}

} // extern "C"

// --------------------------------------------------------------------------
namespace {
// thread_local objects of the program start afresh in every virtual thread:
// the executable's TLS block lies directly below the thread pointer
struct TlsImage {
  const void *init;
  size_t filesz, memsz, align;
} g_tls;
int find_tls(struct dl_phdr_info *i, size_t, void *) {
  if (i->dlpi_name && i->dlpi_name[0])
    return 0;
  for (int k = 0; k < i->dlpi_phnum; ++k)
    if (i->dlpi_phdr[k].p_type == PT_TLS) {
      g_tls.init = (const void *)(i->dlpi_addr + i->dlpi_phdr[k].p_vaddr);
      g_tls.filesz = i->dlpi_phdr[k].p_filesz;
      g_tls.memsz = i->dlpi_phdr[k].p_memsz;
      g_tls.align = i->dlpi_phdr[k].p_align;
    }
  return 1;
}

} // namespace
static void reset_tls() {
  if (!g_tls.init)
    return;
  uintptr_t tp = (uintptr_t)__builtin_thread_pointer();
  char *b = (char *)((tp - g_tls.memsz) & ~uintptr_t(g_tls.align - 1));
  memcpy(b, g_tls.init, g_tls.filesz);
  memset(b + g_tls.filesz, 0, g_tls.memsz - g_tls.filesz);
}

namespace {

void sched_init() {
  dl_iterate_phdr(find_tls, nullptr);
  resolve_real();
  __libc_single_threaded = 0;
  mallopt(M_ARENA_MAX, 1);
  auto map = [](size_t n, void *hint) {
    void *p = mmap(hint, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED)
      _exit(5);
    return (char *)p;
  };
  g_stacks = map(MAXT * STACK_SZ, (void *)0x7a0000000000ull);
  g_arena = map(ARENA_SZ, (void *)0x7b0000000000ull);
  g_arena_start = g_arena_cur = g_arena;
  g_idx = (Idx *)map(NIDX * sizeof(Idx), nullptr);
  g_cells = (Cell *)map(NCELL * sizeof(Cell), nullptr);
  g_sync = (VC *)map(NSYNC * sizeof(VC), nullptr);
  g_obj = (Obj *)map(NOBJ * sizeof(Obj), nullptr);
}

void *case_body(void *) {
  run_case();
  // threads the case did not join itself must be able to finish
  for (int i = 1; i < g_nt; ++i)
    if (!g_t[i].joined)
      pthread_join(g_t[i].real, nullptr);
  return nullptr;
}

void run_once() {
  ++g_gen;
  g_ncell = 0;
  g_nsync = 1;
  g_nt = 0;
  g_steps = g_case_preempt = 0;
  g_vtime = 1000;
  g_mode = -1;
  g_gap = INT_MAX;
  g_spur_budget = -1;
  g_timed_budget = 2;
  g_allow_spurious = true;
  g_fail_alloc = 0;
  g_alloc_faults = 0;
  g_allocs = g_live = 0;
  memset(g_thread_allocs, 0, sizeof g_thread_allocs);
  g_skip_leak = false;
  g_arena_cur = g_arena_start;
  for (int i = 0; i < MAXT; ++i)
    g_t[i].state = FREE;
  __libc_single_threaded = 0;
  spawn_thread(case_body, nullptr, nullptr);
  g_incase = true;
  __atomic_store_n(&g_case_done, 0, __ATOMIC_RELAXED);
  handoff(0);
  while (__atomic_load_n(&g_case_done, __ATOMIC_ACQUIRE) == 0)
    syscall(SYS_futex, &g_case_done, FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0);
  g_incase = false;
  S->steps += g_steps;
  S->preempts += g_case_preempt;
}

void run_controlled() {
  static uint32_t saved[MAX_CHOICES];
  run_once();
  if (g_live && !g_skip_leak) {
    // a block outliving the case is a leak only if it is not a one-time
    // initialisation: the same case must leave blocks behind again
    bool rep = g_replay;
    uint32_t n = S->nchoices;
    memcpy(saved, S->choices, n * sizeof *saved);
    for (int k = 0; k < 2 && g_live; ++k) {
      g_arena_start = g_arena_cur;
      S->ninput = n;
      memcpy(S->input, saved, n * sizeof *saved);
      g_replay = true;
      begin_case(S->case_idx);
      run_once();
      g_replay = rep;
    }
    if (g_live) {
      char buf[400];
      int len = 0, cnt = 0;
      for (char *p = g_arena_start; p < g_arena_cur && cnt < 6;) {
        Hdr *h = (Hdr *)p;
        if (h->state == 1) {
          len += snprintf(buf + len, sizeof buf - len, " [%zu bytes pc=0x%x]", (size_t)h->size, h->pc);
          ++cnt;
        }
        p += h->total;
      }
      rt::fail("leak: %llu heap blocks are never released:%s", (unsigned long long)g_live, buf);
    }
  }
  if (g_live)
    g_arena_start = g_arena_cur;
}

} // namespace
