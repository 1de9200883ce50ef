// Rules, reference model and oracle of the history machine. The PROFILE macro
// selects operation weights and the non-triviality rule of one property.
#include "machine.h"
#include <deque>
#include <cstdarg>

#ifndef PROFILE
#define PROFILE 1
#endif

namespace mach {

int g_live[MAXID];
int g_ncopies;
int g_copy_bomb;
int g_alloc_live[16];
Obj g_objs[MAXID];
constexpr unsigned MAGIC = 0x70c3a11fu;

Tok::Tok(int i) : id(i), magic(MAGIC) { ++g_live[id]; }
Tok::Tok(const Tok &o) : id(o.id), magic(MAGIC) {
  o.check();
  if (g_copy_bomb > 0 && --g_copy_bomb == 0)
    throw CopyFailure{};
  if (id >= 0) {
    ++g_live[id];
    ++g_ncopies;
  }
}
Tok::Tok(Tok &&o) noexcept : id(o.id), magic(MAGIC) {
  o.check();
  o.id = -1;
}
Tok &Tok::operator=(const Tok &o) {
  check();
  o.check();
  if (id >= 0)
    --g_live[id];
  id = o.id;
  if (id >= 0) {
    ++g_live[id];
    ++g_ncopies;
  }
  return *this;
}
Tok &Tok::operator=(Tok &&o) noexcept {
  check();
  o.check();
  if (this == &o)
    return *this;
  if (id >= 0)
    --g_live[id];
  id = o.id;
  o.id = -1;
  return *this;
}
Tok::~Tok() {
  check();
  magic = 0xdeadu;
  if (id >= 0)
    --g_live[id];
}
void Tok::check() const { RT_CHECK(magic == MAGIC, "an object is used or destroyed outside of its lifetime (token %d)", id); }

const char *show(const Outcome &o) {
  static char buf[4][48];
  static int k;
  char *b = buf[k = (k + 1) % 4];
  static const char *n[] = {"nothing", "value", "error", "broken_promise", "no_state", "future_error", "bad_alloc"};
  snprintf(b, 48, "%s %d", n[o.k], o.id);
  return b;
}

// --- injected failures ----------------------------------------------------------
FnRec *g_unwrapping;
uint64_t g_unwrap_faults;
void Pause::settle() {
  if (g_unwrapping && rt::alloc_faults() != g_unwrap_faults)
    g_unwrapping->unwrap_failed = true;
  g_unwrapping = nullptr;
}
Pause::~Pause() {
  settle();
  g_unwrapping = unwrap;
  g_unwrap_faults = rt::alloc_faults();
  rt::fail_alloc_at(unwrap ? 1 : 0);
}

// --- model -------------------------------------------------------------------
int g_expected_cancels[MAXID], g_cancels[MAXID];
void Canceler::operator()() {
  tok.check();
  ++g_cancels[idx];
}

int new_group();
M::M() : group(new_group()) {}
M::~M() {
  if (!ready && canceler >= 0)
    ++g_expected_cancels[canceler];
}
MAct::~MAct() {
  if (fn)
    fn->m_live = false;
}
M *m_root(const MP &s) {
  M *r = s.get();
  while (r->inner)
    r = r->inner.get();
  return r;
}
Outcome m_outcome(const MP &s) { return m_root(s)->out; }
void m_fire(const MP &s) {
  MP keep = s;
  s->ready = true;
  MP self = std::move(s->self);
  s->self = nullptr;
  auto c = std::move(s->conts);
  s->conts.clear();
  for (auto &f : c)
    f();
}
void m_complete(const MP &s, Outcome o) {
  s->out = o;
  m_fire(s);
}
void m_push(const MP &s, std::function<void()> f) {
  if (s->ready)
    f();
  else
    s->conts.push_back(std::move(f));
}
void m_abandon(const MP &s) {
  if (!s->ready && !s->inner)
    m_complete(s, Outcome{Outcome::Broken, 0, nullptr});
  s->act = nullptr;
}
void MWrite::abandon() {
  // a promise that never gave away its future has nobody to tell
  if (valid && !strong)
    if (auto s = weak.lock())
      m_abandon(s);
  strong = nullptr;
  weak.reset();
}

// --- machine state ---------------------------------------------------------------
struct MTask { // a posted task in the model
  int exec;
  std::weak_ptr<M> c;          // continuation or task state
  std::shared_ptr<MAct> notif; // notification function
  ~MTask() {
    if (!done)
      if (auto s = c.lock())
        m_abandon(s);
  }
  bool done = false;
};

struct Machine {
  std::vector<std::unique_ptr<HBase>> hs;
  std::vector<std::unique_ptr<WBase>> ws;
  std::vector<std::unique_ptr<TaskBase>> tasks;
  std::vector<std::unique_ptr<MTask>> mtasks;
  std::deque<FnRec> fns;
  std::vector<Exec> execs;
  int next_id = 1;
  // functions own either promises or inner futures: with both, the order in
  // which a cancelled function and its argument are destroyed (unspecified)
  // would decide which other functions run
  bool caps = false;
  std::vector<int> uf; // dependency graph components
  int ncancel = 0;
  std::vector<int> cancel_ids;
  std::vector<int> exec_stack;
  // statistics for the non-triviality rules
  int n_ops = 0, n_ran = 0, n_err_passed = 0, n_unwrap_late = 0, n_broken = 0, n_cancelled_fn = 0, n_cancel = 0,
      n_detach_drop = 0, n_misuse = 0, n_posted_run = 0, n_gets = 0, n_shared_gets = 0, n_faults = 0, n_copy_faults = 0;
};
Machine *g;

int new_group() {
  g->uf.push_back(int(g->uf.size()));
  return int(g->uf.size()) - 1;
}
int group(int x) {
  while (g->uf[x] != x)
    x = g->uf[x] = g->uf[g->uf[x]];
  return x;
}
void join_groups(const MP &a, const MP &b) {
  if (a && b)
    g->uf[group(a->group)] = group(b->group);
}
Exec &exec_of(int id) { return g->execs[id]; }

void note_post(int exec) {
  for (auto &f : g->fns)
    if (f.exec == exec)
      ++f.posts;
}
void push_task(std::unique_ptr<TaskBase> t) { g->tasks.push_back(std::move(t)); }
ExecScope::ExecScope(int id) { g->exec_stack.push_back(id); }
ExecScope::~ExecScope() { g->exec_stack.pop_back(); }

void keep_promise(FnRec *fn, std::unique_ptr<WBase> w) {
  fn->deferred = w.get();
  g->ws.push_back(std::move(w));
}

void Closure::enter(const Outcome &seen) {
  tok.check();
  RT_CHECK(tok.id == fn->id, "a moved-from function is invoked");
  ++fn->runs;
  fn->seen = seen;
  if (fn->exec >= 0)
    RT_CHECK(!g->exec_stack.empty() && g->exec_stack.back() == fn->exec,
             "function f%d runs outside of the executor it was given to", fn->id);
  RT_CHECK(fn->runs == 1, "function f%d runs %d times", fn->id, fn->runs);
  if (fn->cap_set == 1 && cap && cap->w)
    cap->w->set_value(fn->cap_value, false);
}

void m_run(const MP &c) {
  Pause::settle();
  auto act = std::move(c->act);
  c->act = nullptr;
  if (!act)
    return;
  FnRec *fn = act->fn;
  if (act->how == 2) {
    Outcome po = m_outcome(act->parent);
    if (po.k != Outcome::Value) {
      ++g->n_err_passed;
      act = nullptr;
      m_complete(c, po);
      return;
    }
  }
  ++fn->m_runs;
  ++g->n_ran;
  if (act->parent) {
    fn->m_seen = m_outcome(act->parent);
    fn->m_seen.addr = m_root(act->parent)->addr;
  }
  if (fn->cap_set == 1 && act->cap_write)
    if (auto s = act->cap_write->lock())
      if (!s->ready)
        m_complete(s, Outcome{Outcome::Value, fn->cap_value, nullptr});
  act->parent = nullptr;
  if (act->how == 3) {
    switch (fn->intr) {
    case 0: m_complete(c, Outcome{Outcome::Value, fn->ret == VOID ? 0 : fn->value, nullptr}); break;
    case 1: m_complete(c, Outcome{Outcome::Error, fn->err, nullptr}); break;
    case 2: m_abandon(c); break;
    default: {
      RT_CHECK(fn->deferred, "function f%d should have been invoked", fn->id);
      auto w = std::make_shared<MWrite>();
      w->weak = c;
      w->retrieved = true;
      fn->deferred->m = w;
    }
    }
    return;
  }
  if (fn->throws) {
    m_complete(c, Outcome{Outcome::Error, fn->err, nullptr});
    return;
  }
  if (fn->rk == Direct) {
    m_complete(c, Outcome{Outcome::Value, fn->ret == VOID ? 0 : fn->value, nullptr});
    return;
  }
  MP inner = std::move(act->captured);
  act->captured = nullptr;
  if (fn->unwrap_failed) {
    ++g->n_faults;
    inner = nullptr;
    m_complete(c, Outcome{Outcome::Alloc, 0, nullptr});
    return;
  }
  if (!inner) {
    m_complete(c, Outcome{Outcome::Broken, 0, nullptr});
    return;
  }
  c->inner = inner;
  if (!inner->ready)
    ++g->n_unwrap_late;
  std::weak_ptr<M> wc = c;
  m_push(inner, [wc] {
    if (auto s = wc.lock())
      m_fire(s);
  });
}

// hands the continuation state c over to an executor
void m_schedule(std::weak_ptr<M> wc, int exec, FnRec *fn) {
  auto c = wc.lock();
  if (!c)
    return;
  if (exec < 0) {
    m_run(c);
    return;
  }
  ++fn->m_posts;
  switch (exec_of(exec).mode) {
  case 0: m_run(c); break;
  case 1: {
    auto t = std::make_unique<MTask>();
    t->exec = exec;
    t->c = c;
    g->mtasks.push_back(std::move(t));
    break;
  }
  default: m_abandon(c);
  }
}

// --- generation helpers ------------------------------------------------------------
int fresh() {
  int id = g->next_id++;
  if (id >= MAXID - 4)
    rt::discard_process("too many ids");
  g_live[id] = 0;
  g_objs[id].id = id;
  return id;
}
const char *tyname(int t) {
  static const char *n[] = {"Cpy", "Mov", "void", "Obj&"};
  return n[t];
}

struct Weights {
  int source, task, async, ready, set, err, dropw, movew, assignw, retrieve, call, then_, next_, intr, notify, share, copy, move,
      assign, get, wait, droph, detach, runtask, droptask, misuse;
};
// clang-format off
#if PROFILE == 1   // C01 round trip
constexpr Weights W{10,5,4,4, 14,6,2,3,1,4,5, 2,2,1,1, 8,8,4,3,16,3,3,1, 5,1, 2};
#elif PROFILE == 4 // C04 chains
constexpr Weights W{8,1,2,3, 9,4,1,1,0,2,1, 14,16,4,3, 6,4,2,1,6,1,3,1, 8,1, 1};
#elif PROFILE == 5 // C05 unwrapping
constexpr Weights W{8,4,5,2, 10,4,2,1,0,2,4, 12,12,1,1, 5,4,2,1,6,1,4,1, 9,1, 1};
#elif PROFILE == 6 // C06 broken promise
constexpr Weights W{9,4,4,1, 4,2,10,2,6,3,2, 8,8,4,3, 5,4,2,1,5,1,2,1, 4,8, 1};
#elif PROFILE == 7 // C07 cancellation
constexpr Weights W{9,3,4,1, 5,2,3,1,1,2,2, 9,9,3,4, 6,6,3,4,3,1,14,1, 5,2, 1};
#elif PROFILE == 9 // C09 detach
constexpr Weights W{9,3,4,1, 6,2,3,1,1,2,2, 8,8,3,3, 5,5,2,2,3,1,10,10, 6,2, 1};
#elif PROFILE == 12 // C12 misuse
constexpr Weights W{8,5,2,2, 9,5,2,4,2,9,6, 4,4,2,2, 6,4,5,2,8,3,3,3, 4,1, 24};
#elif PROFILE == 13 // C13 executors
constexpr Weights W{8,2,8,2, 9,3,2,1,0,2,1, 11,11,4,8, 5,4,2,1,4,1,3,1, 14,3, 1};
#elif PROFILE == 21 // C21 failures
constexpr Weights W{9,5,6,2, 9,4,3,1,1,3,4, 11,11,4,6, 5,4,2,2,6,4,4,5, 7,2, 1};
#else              // C14 lifetimes
constexpr Weights W{9,5,5,2, 8,4,4,3,3,4,5, 8,8,4,4, 6,6,3,3,6,1,6,3, 7,4, 3};
#endif
// clang-format on

template <class F> auto by_ty(int y, F &&f) {
  switch (y) {
  case CPY: return f(std::integral_constant<int, CPY>{});
  case MOV: return f(std::integral_constant<int, MOV>{});
  case VOID: return f(std::integral_constant<int, VOID>{});
  default: return f(std::integral_constant<int, REF>{});
  }
}

int add_h(std::unique_ptr<HBase> h) {
  g->hs.push_back(std::move(h));
  return int(g->hs.size()) - 1;
}
int add_w(std::unique_ptr<WBase> w) {
  g->ws.push_back(std::move(w));
  return int(g->ws.size()) - 1;
}
int pick_h() { return g->hs.empty() ? -1 : int(rt::draw(g->hs.size())); }
template <class P> int pick_h_if(P pred) {
  int c[256], n = 0;
  for (int i = 0; i < int(g->hs.size()) && n < 256; ++i)
    if (pred(*g->hs[i]))
      c[n++] = i;
  return n ? c[rt::draw(n)] : -1;
}
template <class P> int pick_w_if(P pred) {
  int c[256], n = 0;
  for (int i = 0; i < int(g->ws.size()) && n < 256; ++i)
    if (pred(*g->ws[i]))
      c[n++] = i;
  return n ? c[rt::draw(n)] : -1;
}
bool usable(const HBase &h) { return h.m != nullptr; }
int pick_w() { return g->ws.empty() ? -1 : int(rt::draw(g->ws.size())); }

// which allocation of the next operation fails
int gen_fault() {
  if (PROFILE != 21 || !rt::chance(1, 4))
    return 0;
  return 1 + int(rt::draw(2));
}
// true: memory ran out during f
template <class F> bool out_of_memory(int fault, const char *what, F &&f) {
  auto before = rt::alloc_faults();
  bool thrown = false;
  rt::fail_alloc_at(fault);
  try {
    f();
    rt::fail_alloc_at(0);
  } catch (const std::bad_alloc &) {
    rt::fail_alloc_at(0);
    thrown = true;
  }
  RT_CHECK(!thrown || rt::alloc_faults() != before, "%s throws bad_alloc without a reason", what);
  if (thrown) {
    ++g->n_faults;
    rt::trace("  (%s: allocation %d fails)", what, fault);
  }
  return thrown;
}

Pair make_pair_with_model(int ty, int kind, int fault = 0) {
  int ci = -1;
  if (kind >= 4) {
    ci = fresh();
    g->cancel_ids.push_back(ci);
    g_cancels[ci] = g_expected_cancels[ci] = 0;
  }
  Pair p;
  if (out_of_memory(fault, "creating a promise", [&] {
        p = by_ty(ty, [&](auto y) { return Factory<decltype(y)::value>::make_pair(kind, ci); });
      }))
    return Pair{};
  auto m = std::make_shared<M>();
  m->canceler = ci;
  p.first->m = std::make_shared<MWrite>();
  if (p.second) {
    p.first->m->weak = m;
    p.first->m->retrieved = true;
    p.second->m = m;
  } else
    p.first->m->strong = m;
  return p;
}

// a handle of the given type to be captured as the function's result
// (never one that depends on what the function itself depends on: then the
// unspecified order in which continuations of one future run would matter)
std::unique_ptr<HBase> inner_handle(int ty, bool shared, std::string &text, const MP &parent) {
  // prefer an existing handle
  std::vector<int> c;
  for (int i = 0; i < int(g->hs.size()); ++i)
    if (g->hs[i]->ty == ty && g->hs[i]->shared == shared && g->hs[i]->m &&
        (!parent || group(parent->group) != group(g->hs[i]->m->group)))
      c.push_back(i);
  switch (rt::draw(c.empty() ? 4 : 8)) {
  case 0: { // fresh pending promise
    Pair p = make_pair_with_model(ty, rt::draw(2) ? 4 : 0);
    text += " fresh future of w" + std::to_string(g->ws.size());
    add_w(std::move(p.first));
    auto h = std::move(p.second);
    if (shared) {
      MP m = h->m;
      auto s = h->share();
      s->m = m;
      return s;
    }
    return h;
  }
  case 1: { // ready
    int id = fresh();
    auto h = by_ty(ty, [&](auto y) { return Factory<decltype(y)::value>::ready(id); });
    h->m = std::make_shared<M>();
    m_complete(h->m, Outcome{Outcome::Value, ty == VOID ? 0 : id, nullptr});
    text += " ready future";
    if (shared) {
      MP m = h->m;
      auto s = h->share();
      s->m = m;
      return s;
    }
    return h;
  }
  case 2: {
    int id = fresh();
    auto h = by_ty(ty, [&](auto y) { return Factory<decltype(y)::value>::exceptional(id, false); });
    h->m = std::make_shared<M>();
    m_complete(h->m, Outcome{Outcome::Error, id, nullptr});
    text += " failed future";
    if (shared) {
      MP m = h->m;
      auto s = h->share();
      s->m = m;
      return s;
    }
    return h;
  }
  case 3:
    text += " invalid future";
    return by_ty(ty, [&](auto y) { return Factory<decltype(y)::value>::invalid(shared); });
  default: {
    int i = c[rt::draw(c.size())];
    text += " h" + std::to_string(i);
    HBase &h = *g->hs[i];
    MP m = h.m;
    std::unique_ptr<HBase> r;
    if (shared && rt::flip()) {
      r = h.copy();
    } else {
      r = h.move();
      h.m = nullptr;
    }
    r->m = m;
    return r;
  }
  }
}

struct Fn {
  FnRec *rec;
  std::unique_ptr<Cap> cap;
  std::unique_ptr<HBase> inner;
  std::shared_ptr<MAct> act;
};

// how: 0 task, 1 then, 2 next, 3 interruptible, 4 notify
// from: result type of the parent; only some (type, kind) combinations are instantiated
Fn gen_fn(int how, int exec, int from = -1, const MP &parent = nullptr) {
  Fn f;
  g->fns.emplace_back();
  FnRec &r = g->fns.back();
  f.rec = &r;
  r.id = fresh();
  r.exec = exec;
  r.ret = from < 0 ? Ty(rt::draw(NTY)) : exec >= 0 && rt::flip() ? second(from) : Ty(from);
  r.value = fresh();
  r.err = fresh();
  std::string t = "f" + std::to_string(r.id);
  f.act = std::make_shared<MAct>();
  f.act->how = how;
  if (how == 3) {
    r.intr = rt::draw(4);
    static const char *n[] = {" sets value", " sets error", " drops its promise", " keeps its promise"};
    t += n[r.intr];
  } else if (how != 4) {
    r.throws = rt::chance(1, 5);
    bool futures = !g->caps && rt::chance(PROFILE == 5 ? 4 : 2, 5);
    r.rk = futures ? (rt::chance(1, 3) && (from < 0 || (exec >= 0 && r.ret == from)) ? SFut : UFut) : Direct;
    if (r.rk != Direct) {
      t += r.throws ? " throws, holding" : " returns";
      f.inner = inner_handle(r.ret, r.rk == SFut, t, parent);
      f.act->captured = f.inner->m;
      r.fault_unwrap = PROFILE == 21 && f.inner->m && rt::chance(1, 4);
      if (r.fault_unwrap)
        t += " (memory runs out unwrapping it)";
    } else
      t += r.throws ? " throws" : std::string(" returns ") + tyname(r.ret);
  }
  if (g->caps && rt::chance(1, 4)) {
    // the function owns a promise
    r.cap_set = 1 + int(rt::draw(2));
    r.cap_value = fresh();
    Pair p = make_pair_with_model(CPY, 0);
    t += r.cap_set == 1 ? " fulfils the promise of h" : " owns the promise of h";
    t += std::to_string(g->hs.size());
    f.cap = std::make_unique<Cap>();
    f.act->cap_write = p.first->m;
    p.first->m = nullptr;
    f.cap->w = std::move(p.first);
    add_h(std::move(p.second));
  }
  if (rt::chance(1, 6))
    r.wait_first = true;
  f.act->fn = &r;
  r.text = t;
  return f;
}

// the function was not accepted by the library
void drop_fn(Fn &f) {
  f.cap.reset();
  f.inner.reset();
  f.act = nullptr;
}

int gen_exec() {
  // -1: none
  int k = rt::draw(PROFILE == 13 ? 8 : 6);
  if (k < 2)
    return -1;
  int mode = k == 2 ? 0 : rt::chance(1, 8) ? 2 + int(rt::draw(2)) : 1;
  g->execs.push_back(Exec{int(g->execs.size()), mode});
  return int(g->execs.size()) - 1;
}
const char *exec_text(int e) {
  static const char *n[] = {"inline", "queue", "discarding", "overwriting"};
  return e < 0 ? "none" : n[exec_of(e).mode];
}

// --- oracle ---------------------------------------------------------------------
void check_seen(const FnRec &f) {
  RT_CHECK(f.runs == f.m_runs, "function %s: executed %d times, expected %d", f.text.c_str(), f.runs, f.m_runs);
  if (f.runs)
    RT_CHECK(f.seen.same(f.m_seen), "function %s saw %s, expected %s", f.text.c_str(), show(f.seen), show(f.m_seen));
  RT_CHECK(f.posts == f.m_posts, "function %s: handed to its executor %d times, expected %d", f.text.c_str(), f.posts, f.m_posts);
  RT_CHECK((g_live[f.id] > 0) == f.m_live, "function %s is %s, expected it to be %s", f.text.c_str(),
           g_live[f.id] > 0 ? "still stored" : "destroyed", f.m_live ? "stored" : "destroyed");
  RT_CHECK(g_live[f.id] <= 1, "function %s duplicated", f.text.c_str());
}
void verify() {
  for (auto &f : g->fns)
    check_seen(f);
  for (size_t i = 0; i < g->hs.size(); ++i) {
    HBase &h = *g->hs[i];
    RT_CHECK(h.valid() == bool(h.m), "h%zu.valid() is %d, expected %d", i, h.valid(), bool(h.m));
    if (!h.m && PROFILE != 12)
      continue; // throwing is slow
    int want = h.m ? int(h.m->ready) : -1;
    int got = h.is_ready();
    RT_CHECK(got == want, "h%zu.is_ready() is %d, expected %d", i, got, want);
  }
  for (size_t i = 0; i < g->ws.size(); ++i) {
    WBase &w = *g->ws[i];
    if (w.kind == 6)
      RT_CHECK(w.valid() == w.m->valid, "w%zu.valid() is %d, expected %d", i, w.valid(), w.m->valid);
    else {
      if (!w.m->valid && PROFILE != 12)
        continue;
      int want = !w.m->valid ? -1 : w.m->lock() ? 1 : 0;
      int got = w.awaiten();
      RT_CHECK(got == want, "w%zu.is_awaiten() is %d, expected %d", i, got, want);
    }
  }
  for (int c : g->cancel_ids)
    RT_CHECK(g_cancels[c] == g_expected_cancels[c], "canceler %d invoked %d times, expected %d", c, g_cancels[c],
             g_expected_cancels[c]);
}

void expect_err(const Outcome &o, Outcome::K k, int code, const char *what) {
  RT_CHECK(o.k == k && (k != Outcome::Other || o.id == code), "%s reported %s", what, show(o));
}

// --- operations -------------------------------------------------------------------
void op_source() {
  int ty = rt::draw(NTY);
  int kind = rt::draw(6);
  // a promise with canceler that never gives away its future is out of scope:
  // kind 5 retrieves it at once
  Pair p = make_pair_with_model(ty, kind, gen_fault());
  if (!p.first)
    return;
  static const char *n[] = {"make_promise", "promise", "make_promise(alloc)", "promise(alloc)", "make_promise(canceler)", "promise(canceler)"};
  std::string hn;
  if (kind == 5) {
    Outcome o;
    p.second = p.first->get_future(o);
    RT_CHECK(p.second, "get_future of a fresh promise reported %s", show(o));
    p.second->m = p.first->m->strong;
    p.first->m->weak = p.first->m->strong;
    p.first->m->strong = nullptr;
    p.first->m->retrieved = true;
  }
  if (p.second)
    hn = " h" + std::to_string(add_h(std::move(p.second)));
  int wi = add_w(std::move(p.first));
  rt::trace("w%d%s = %s<%s>", wi, hn.c_str(), n[kind], tyname(ty));
}
void op_task() {
  Fn f = gen_fn(0, -1);
  std::unique_ptr<WBase> w;
  if (out_of_memory(gen_fault(), "creating a task", [&] {
        w = by_ty(f.rec->ret, [&](auto y) {
          return Factory<decltype(y)::value>::make_task(f.rec->rk, f.rec, std::move(f.cap), f.inner.get());
        });
      }))
    return drop_fn(f);
  if (f.inner)
    f.inner->m = nullptr;
  w->m = std::make_shared<MWrite>();
  w->m->strong = std::make_shared<M>();
  join_groups(w->m->strong, f.act->captured);
  w->m->strong->act = std::move(f.act);
  int wi = add_w(std::move(w));
  rt::trace("w%d = packaged_task(%s)", wi, f.rec->text.c_str());
}
void op_async() {
  int e;
  do
    e = gen_exec();
  while (e < 0 && (g->execs.push_back(Exec{int(g->execs.size()), 1}), e = int(g->execs.size()) - 1, false));
  Fn f = gen_fn(0, e);
  std::unique_ptr<HBase> h;
  if (out_of_memory(gen_fault(), "async", [&] {
        h = by_ty(f.rec->ret, [&](auto y) {
          return Factory<decltype(y)::value>::make_async(exec_of(e), f.rec->rk, f.rec, std::move(f.cap), f.inner.get());
        });
      }))
    return drop_fn(f);
  if (f.inner)
    f.inner->m = nullptr;
  MP c = std::make_shared<M>();
  join_groups(c, f.act->captured);
  c->act = std::move(f.act);
  h->m = c;
  int hi = add_h(std::move(h));
  rt::trace("h%d = async(%s executor, %s)", hi, exec_text(e), f.rec->text.c_str());
  m_schedule(c, e, f.rec);
}
void op_ready() {
  int ty = rt::draw(NTY), id = fresh();
  std::unique_ptr<HBase> h;
  if (rt::draw(3) < 2) {
    if (out_of_memory(gen_fault(), "make_ready_future",
                      [&] { h = by_ty(ty, [&](auto y) { return Factory<decltype(y)::value>::ready(id); }); }))
      return;
    h->m = std::make_shared<M>();
    m_complete(h->m, Outcome{Outcome::Value, ty == VOID ? 0 : id, nullptr});
    rt::trace("h%zu = make_ready_future<%s>", g->hs.size(), tyname(ty));
  } else {
    bool ptr = rt::flip();
    if (out_of_memory(gen_fault(), "make_exceptional_future",
                      [&] { h = by_ty(ty, [&](auto y) { return Factory<decltype(y)::value>::exceptional(id, ptr); }); }))
      return;
    h->m = std::make_shared<M>();
    m_complete(h->m, Outcome{Outcome::Error, id, nullptr});
    rt::trace("h%zu = make_exceptional_future<%s>", g->hs.size(), tyname(ty));
  }
  add_h(std::move(h));
}
void op_set(bool error, int i = -1) {
  if (i < 0)
    i = pick_w_if([](WBase &w) { return w.kind != 6 && w.m->valid; });
  if (i < 0 || g->ws[i]->kind == 6)
    return;
  WBase &w = *g->ws[i];
  if (!w.m->valid)
    return;
  MP s = w.m->lock();
  if (s && (s->ready || s->out.k != Outcome::None) && PROFILE != 12 && rt::draw(4) != 0)
    return;
  int id = fresh();
  bool lv = rt::flip();
  rt::trace("w%d.%s", i, error ? "set_exception" : lv ? "set_value(lvalue)" : "set_value");
  bool had = s != nullptr, was = s && s->ready;
  s = nullptr;
  bool bomb = PROFILE == 21 && !error && lv && w.ty == CPY && rt::chance(1, 3);
  g_copy_bomb = bomb;
  Outcome o = error ? w.set_error(id) : w.set_value(id, lv);
  bomb = bomb && !g_copy_bomb; // a copy was made and failed
  g_copy_bomb = 0;
  s = w.m->lock();
  if (bomb) {
    ++g->n_copy_faults;
    rt::trace("  (copying the value fails)");
    RT_CHECK(o.k == Outcome::Error && o.id == 0, "set_value with a failing copy constructor reported %s", show(o));
    return;
  }
  if (!had) {
    // nobody can ever see the result: silently ignored
    RT_CHECK(o.k == Outcome::None || o.k == Outcome::Other, "setting a result nobody waits for reported %s", show(o));
    return;
  }
  if (was) {
    ++g->n_misuse;
    expect_err(o, Outcome::Other, int(std::future_errc::promise_already_satisfied), "setting a result twice");
    return;
  }
  RT_CHECK(o.k == Outcome::None, "setting a result reported %s", show(o));
  m_complete(s, error ? Outcome{Outcome::Error, id, nullptr} : Outcome{Outcome::Value, w.ty == VOID ? 0 : id, nullptr});
}
void erase_w(int i) {
  auto w = std::move(g->ws[i]);
  g->ws.erase(g->ws.begin() + i);
  auto m = std::move(w->m);
  w.reset();
  rt::fail_alloc_at(0);
  m = nullptr;
}
void note_pending(const std::shared_ptr<MWrite> &m) {
  if (m && m->valid)
    if (auto s = m->lock())
      if (!s->ready && !s->inner)
        ++g->n_broken;
}
void op_dropw() {
  int i = pick_w();
  if (i < 0)
    return;
  note_pending(g->ws[i]->m);
  rt::trace("destroy w%d", i);
  erase_w(i);
}
void op_movew() {
  int i = pick_w();
  if (i < 0)
    return;
  WBase &w = *g->ws[i];
  auto n = w.move();
  n->m = w.m;
  w.m = std::make_shared<MWrite>();
  w.m->valid = false;
  // a moved-from task keeps its function record for messages only
  rt::trace("w%zu = move(w%d)", g->ws.size(), i);
  add_w(std::move(n));
}
void op_assignw() {
  int i = pick_w();
  if (i < 0)
    return;
  WBase *to = g->ws[i].get();
  int j = pick_w_if([&](WBase &w) { return &w != to && w.same_type(*to); });
  if (j < 0)
    return;
  if (i < 0 || i == j || !g->ws[i]->same_type(*g->ws[j]))
    return;
  WBase &a = *g->ws[i], &b = *g->ws[j];
  if (rt::chance(1, 4)) {
    bool member = rt::flip();
    rt::trace("swap w%d and w%d%s", i, j, member ? " (member)" : "");
    a.swap(b, member);
    std::swap(a.m, b.m);
    std::swap(a.fn, b.fn);
    std::swap(a.kind, b.kind);
    return;
  }
  note_pending(a.m);
  rt::trace("w%d = move(w%d) (assignment)", i, j);
  a.assign(b);
  rt::fail_alloc_at(0);
  auto old = std::move(a.m);
  a.m = b.m;
  a.fn = b.fn;
  a.kind = b.kind;
  b.m = std::make_shared<MWrite>();
  b.m->valid = false;
  old = nullptr;
}
void op_retrieve() {
  int i = PROFILE == 12 ? pick_w() : pick_w_if([](WBase &w) { return w.m->valid && (!w.m->retrieved || rt::draw(8) == 7); });
  if (i < 0)
    return;
  WBase &w = *g->ws[i];
  if (!w.m->valid)
    return;
  rt::trace("h%zu = w%d.get_future()", g->hs.size(), i);
  Outcome o;
  auto h = w.get_future(o);
  if (w.m->retrieved) {
    ++g->n_misuse;
    expect_err(o, Outcome::Other, int(std::future_errc::future_already_retrieved), "get_future called twice");
    return;
  }
  RT_CHECK(h && o.k == Outcome::None, "get_future reported %s", show(o));
  h->m = w.m->strong;
  w.m->weak = w.m->strong;
  w.m->strong = nullptr;
  w.m->retrieved = true;
  add_h(std::move(h));
}
void op_call(int i = -1) {
  if (i < 0)
    i = pick_w_if([](WBase &w) { return w.kind == 6 && w.m->valid; });
  if (i < 0)
    return;
  WBase &w = *g->ws[i];
  bool had = w.m->lock() != nullptr;
  bool fresh_task = had && w.m->lock()->act;
  rt::trace("w%d()", i);
  Outcome o = w.call();
  if (!had) {
    RT_CHECK(o.k == Outcome::None || o.k == Outcome::Other, "calling a cancelled task reported %s", show(o));
    return;
  }
  if (!fresh_task) {
    ++g->n_misuse;
    expect_err(o, Outcome::Other, int(std::future_errc::promise_already_satisfied), "calling a task twice");
    return;
  }
  RT_CHECK(o.k == Outcome::None, "calling a task reported %s", show(o));
  if (auto s = w.m->lock())
    m_run(s);
}
void op_attach(int how) {
  int i = pick_h_if([&](HBase &h) { return !!h.m; });
  if (i < 0)
    return;
  if (!g->hs[i]->m)
    return;
  int e = gen_exec();
  // the parent leaves its slot: a function must not be able to take it as its own result
  std::unique_ptr<HBase> parent;
  HBase *h = g->hs[i].get();
  if (!h->shared) {
    MP m = h->m;
    parent = h->move();
    parent->m = m;
    h->m = nullptr;
    h = parent.get();
  } else {
    MP m = h->m;
    parent = h->copy();
    parent->m = m;
    h = parent.get();
  }
  Fn f = gen_fn(how, e, h->ty, h->m);
  static const char *n[] = {"", "then", "next", "interruptible then"};
  bool was_ready = h->m->ready;
  Outcome o;
  int fault = gen_fault();
  rt::fail_alloc_at(fault);
  auto r = h->attach(how, e < 0 ? nullptr : &exec_of(e), f.rec, std::move(f.cap), f.inner.get(), o);
  if (o.k == Outcome::Alloc && fault) {
    ++g->n_faults;
    rt::trace("h%d.%s(%s executor, %s): allocation %d fails", i, n[how], exec_text(e), f.rec->text.c_str(), fault);
    RT_CHECK(!r, "%s succeeds and throws", n[how]);
    drop_fn(f);
    RT_CHECK(h->valid() || !h->shared, "a failed %s leaves the shared_future invalid", n[how]);
    if (!h->valid())
      h->m = nullptr;
    add_h(std::move(parent));
    return;
  }
  RT_CHECK(r && o.k == Outcome::None, "%s reported %s", n[how], show(o));
  if (f.inner)
    f.inner->m = nullptr;
  RT_CHECK(h->valid() == h->shared, "%s leaves a %s %s", n[how], h->shared ? "shared_future" : "future", h->shared ? "invalid" : "valid");
  MP p = h->m;
  h->m = nullptr;
  parent.reset();
  MP c = std::make_shared<M>();
  join_groups(c, p);
  join_groups(c, f.act->captured);
  f.act->parent = p;
  c->act = std::move(f.act);
  r->m = c;
  int hi = add_h(std::move(r));
  rt::trace("h%d = h%d.%s(%s executor, %s)%s", hi, i, n[how], exec_text(e), f.rec->text.c_str(), was_ready ? " [ready]" : "");
  std::weak_ptr<M> wc = c;
  FnRec *rec = f.rec;
  m_push(p, [wc, e, rec] { m_schedule(wc, e, rec); });
}
void op_notify() {
  int i = pick_h_if(usable);
  if (i < 0 || !g->hs[i]->m)
    return;
  int e = gen_exec();
  Fn f = gen_fn(4, e);
  rt::trace("h%d.notify(%s executor, %s)", i, exec_text(e), f.rec->text.c_str());
  Outcome o;
  HBase &h = *g->hs[i];
  int fault = gen_fault();
  rt::fail_alloc_at(fault);
  h.notify(e < 0 ? nullptr : &exec_of(e), f.rec, std::move(f.cap), o);
  if (o.k == Outcome::Alloc && fault) {
    ++g->n_faults;
    rt::trace("  (allocation %d fails)", fault);
    return drop_fn(f);
  }
  RT_CHECK(o.k == Outcome::None, "notify reported %s", show(o));
  auto act = std::move(f.act);
  f.act = nullptr;
  FnRec *rec = f.rec;
  m_push(h.m, [act, e, rec]() mutable {
    auto a = std::move(act);
    act = nullptr;
    auto run = [](FnRec *fn, MAct &a2) {
      ++fn->m_runs;
      if (fn->cap_set == 1 && a2.cap_write)
        if (auto s = a2.cap_write->lock())
          if (!s->ready)
            m_complete(s, Outcome{Outcome::Value, fn->cap_value, nullptr});
    };
    if (e < 0) {
      run(rec, *a);
      return;
    }
    ++rec->m_posts;
    if (exec_of(e).mode == 0)
      run(rec, *a);
    else if (exec_of(e).mode == 1) {
      auto t = std::make_unique<MTask>();
      t->exec = e;
      t->notif = a;
      g->mtasks.push_back(std::move(t));
    }
  });
}
void op_share() {
  int i = pick_h_if([](HBase &h) { return h.m && !h.shared; });
  if (i < 0 || g->hs[i]->shared || !g->hs[i]->m)
    return;
  rt::trace("h%zu = h%d.share()", g->hs.size(), i);
  MP m = g->hs[i]->m;
  auto s = g->hs[i]->share();
  g->hs[i]->m = nullptr;
  s->m = m;
  add_h(std::move(s));
}
void op_copy() {
  int i = pick_h_if([](HBase &h) { return h.shared; });
  if (i < 0 || !g->hs[i]->shared)
    return;
  rt::trace("h%zu = copy of h%d", g->hs.size(), i);
  auto c = g->hs[i]->copy();
  c->m = g->hs[i]->m;
  add_h(std::move(c));
}
void op_move() {
  int i = pick_h();
  if (i < 0)
    return;
  rt::trace("h%zu = move(h%d)", g->hs.size(), i);
  auto c = g->hs[i]->move();
  c->m = g->hs[i]->m;
  g->hs[i]->m = nullptr;
  add_h(std::move(c));
}
void op_assign() {
  int i = pick_h();
  if (i < 0)
    return;
  HBase *to = g->hs[i].get();
  int j = pick_h_if([&](HBase &h) { return &h != to && h.ty == to->ty && h.shared == to->shared; });
  if (j < 0)
    return;
  if (i < 0 || i == j)
    return;
  HBase &a = *g->hs[i], &b = *g->hs[j];
  if (a.ty != b.ty || a.shared != b.shared)
    return;
  if (rt::chance(1, 4)) {
    rt::trace("swap h%d and h%d", i, j);
    a.swap(b);
    std::swap(a.m, b.m);
    return;
  }
  MP old = a.m;
  if (a.shared && rt::flip()) {
    rt::trace("h%d = h%d (copy assignment)", i, j);
    a.copy_assign(b);
    a.m = b.m;
  } else {
    rt::trace("h%d = move(h%d) (assignment)", i, j);
    a.assign(b);
    a.m = b.m;
    b.m = nullptr;
  }
  old = nullptr;
}
void check_get(HBase &h, const Outcome &o, const char *what) {
  Outcome want = m_outcome(h.m);
  RT_CHECK(o.same(want), "%s yields %s, expected %s", what, show(o), show(want));
  if (h.shared && o.k == Outcome::Value && o.addr) {
    M *r = m_root(h.m);
    if (!r->addr)
      r->addr = o.addr;
    RT_CHECK(r->addr == o.addr, "readers of one shared result see different objects");
  }
}
void op_get() {
  int i = pick_h_if([](HBase &h) { return h.m && h.m->ready; });
  if (i < 0 || !g->hs[i]->m || !g->hs[i]->m->ready)
    return;
  HBase &h = *g->hs[i];
  rt::trace("h%d.get()", i);
  int fault = gen_fault();
  rt::fail_alloc_at(fault);
  Outcome o = h.get();
  if (o.k == Outcome::Alloc && fault && m_outcome(h.m).k != Outcome::Alloc) {
    ++g->n_faults;
    rt::trace("  (allocation %d fails)", fault);
    RT_CHECK(h.valid() || !h.shared, "a failed get() leaves the shared_future invalid");
    if (!h.valid())
      h.m = nullptr;
    return;
  }
  if (fault && h.valid() && !h.shared)
    return; // failed: the result itself is bad_alloc
  ++g->n_gets;
  g->n_shared_gets += h.shared;
  check_get(h, o, "get()");
  if (!h.shared)
    h.m = nullptr;
}
void op_wait() {
  int i = pick_h_if([](HBase &h) { return h.m && h.m->ready; });
  if (i < 0 || !g->hs[i]->m || !g->hs[i]->m->ready)
    return;
  rt::trace("h%d.wait()", i);
  int fault = gen_fault();
  rt::fail_alloc_at(fault);
  Outcome o = g->hs[i]->wait();
  if (o.k == Outcome::Alloc && fault) {
    ++g->n_faults;
    rt::trace("  (allocation %d fails)", fault);
    return;
  }
  RT_CHECK(o.k == Outcome::None, "wait() reported %s", show(o));
}
void op_droph(int i = -1) {
  if (i < 0)
    i = pick_h();
  if (i < 0)
    return;
  rt::trace("destroy h%d", i);
  auto h = std::move(g->hs[i]);
  g->hs.erase(g->hs.begin() + i);
  MP m = std::move(h->m);
  h->m = nullptr;
  if (m && m->self && m.use_count() == 2)
    ++g->n_detach_drop;
  h.reset();
  rt::fail_alloc_at(0);
  int live = 0;
  for (auto &f : g->fns)
    live += f.m_live;
  m = nullptr;
  for (auto &f : g->fns)
    live -= f.m_live;
  if (live > 0)
    ++g->n_cancelled_fn;
}
void op_detach() {
  int i = pick_h_if(usable);
  if (i < 0 || !g->hs[i]->m)
    return;
  HBase &h = *g->hs[i];
  rt::trace("h%zu = h%d.detach()", g->hs.size(), i);
  Outcome o;
  int fault = gen_fault();
  rt::fail_alloc_at(fault);
  auto d = h.detach(o);
  if (o.k == Outcome::Alloc && fault) {
    ++g->n_faults;
    rt::trace("  (allocation %d fails)", fault);
    if (!h.valid())
      h.m = nullptr;
    return;
  }
  RT_CHECK(d && o.k == Outcome::None, "detach reported %s", show(o));
  MP m = h.m;
  h.m = nullptr;
  if (!m->ready)
    m->self = m;
  d->m = m;
  int k = add_h(std::move(d));
  m = nullptr;
  if (PROFILE == 9 && rt::flip()) {
    verify();
    op_droph(k);
  }
}
int find_mtask(int exec) {
  for (int i = 0; i < int(g->mtasks.size()); ++i)
    if (g->mtasks[i]->exec == exec)
      return i;
  rt::fail("a task was posted that should not have been");
}
void op_runtask(int i, bool again) {
  auto t = std::move(g->tasks[i]);
  g->tasks.erase(g->tasks.begin() + i);
  int k = find_mtask(t->exec);
  auto mt = std::move(g->mtasks[k]);
  g->mtasks.erase(g->mtasks.begin() + k);
  bool as_fn = rt::flip();
  bool notif = mt->notif != nullptr;
  rt::trace("run task of executor %d%s%s", t->exec, as_fn ? " as unique_function" : "", again && !notif && !as_fn ? " twice" : "");
  ++g->n_posted_run;
  Outcome o = catch_all([&](Outcome &) {
    if (as_fn)
      t->run_as_function();
    else
      t->run();
  });
  bool alive = notif || mt->c.lock();
  RT_CHECK(o.k == Outcome::None || !alive, "running a posted task reported %s", show(o));
  if (again && !notif && !as_fn)
    catch_all([&](Outcome &) { t->run(); });
  t.reset();
  mt->done = true;
  if (notif) {
    auto a = std::move(mt->notif);
    mt->notif = nullptr;
    ++a->fn->m_runs;
    if (a->fn->cap_set == 1 && a->cap_write)
      if (auto s = a->cap_write->lock())
        if (!s->ready)
          m_complete(s, Outcome{Outcome::Value, a->fn->cap_value, nullptr});
  } else if (auto c = mt->c.lock())
    m_run(c);
}
void op_droptask(int i) {
  auto t = std::move(g->tasks[i]);
  g->tasks.erase(g->tasks.begin() + i);
  int k = find_mtask(t->exec);
  auto mt = std::move(g->mtasks[k]);
  g->mtasks.erase(g->mtasks.begin() + k);
  bool over = rt::flip();
  rt::trace("discard task of executor %d%s", t->exec, over ? " by move assignment" : "");
  if (auto c = mt->c.lock())
    if (!c->ready)
      ++g->n_broken;
  if (over)
    t->discard_by_overwriting();
  t.reset();
  rt::fail_alloc_at(0);
  mt.reset();
}
void op_misuse() {
  // operations on invalid objects
  if (rt::flip()) {
    int i = pick_h();
    if (i < 0)
      return;
    HBase *h = g->hs[i].get();
    std::unique_ptr<HBase> tmp;
    if (h->m) {
      tmp = by_ty(h->ty, [&](auto y) { return Factory<decltype(y)::value>::invalid(h->shared); });
      h = tmp.get();
    }
    ++g->n_misuse;
    Outcome o;
    int k = rt::draw(8);
    static const char *n[] = {"get", "wait", "is_ready", "detach", "then", "next", "interruptible then", "notify"};
    rt::trace("%s on an invalid %s<%s>", n[k], h->shared ? "shared_future" : "future", tyname(h->ty));
    auto use_fn = [&](int how) {
      int e = gen_exec();
      Fn f = gen_fn(how, e, how == 4 ? -1 : h->ty);
      const Exec *x = e < 0 ? nullptr : &exec_of(e);
      if (how == 4)
        h->notify(x, f.rec, std::move(f.cap), o);
      else
        RT_CHECK(!h->attach(how, x, f.rec, std::move(f.cap), f.inner.get(), o), "attaching to an invalid future succeeds");
      f.cap.reset();
      f.inner.reset();
      f.act = nullptr;
    };
    switch (k) {
    case 0: o = h->get(); break;
    case 1: o = h->wait(); break;
    case 2:
      RT_CHECK(h->is_ready() == -1, "is_ready() on an invalid future does not report no_state");
      o.k = Outcome::NoState;
      break;
    case 3: RT_CHECK(!h->detach(o), "detach() on an invalid future succeeds"); break;
    case 4: use_fn(1); break;
    case 5: use_fn(2); break;
    case 6: use_fn(3); break;
    default: use_fn(4);
    }
    expect_err(o, Outcome::NoState, 0, n[k]);
    RT_CHECK(!h->valid(), "an invalid future became valid");
  } else {
    int i = pick_w();
    if (i < 0)
      return;
    WBase *w = g->ws[i].get();
    if (w->m->valid)
      return;
    ++g->n_misuse;
    Outcome o;
    if (w->kind == 6) {
      bool call = rt::flip();
      rt::trace("%s of the invalid task w%d", call ? "call" : "get_future", i);
      if (call)
        o = w->call();
      else
        RT_CHECK(!w->get_future(o), "get_future of an invalid task succeeds");
    } else {
      int k = rt::draw(3);
      static const char *n[] = {"set_value", "set_exception", "get_future"};
      rt::trace("%s on the invalid promise w%d", n[k], i);
      if (k == 0)
        o = w->set_value(fresh(), false);
      else if (k == 1)
        o = w->set_error(fresh());
      else
        RT_CHECK(!w->get_future(o), "get_future of an invalid promise succeeds");
    }
    expect_err(o, Outcome::NoState, 0, "using a moved-from write end");
  }
}

void step() {
  static const int w[] = {W.source, W.task, W.async, W.ready, W.set, W.err, W.dropw, W.movew, W.assignw, W.retrieve, W.call,
                          W.then_, W.next_, W.intr, W.notify, W.share, W.copy, W.move, W.assign, W.get, W.wait, W.droph,
                          W.detach, W.runtask, W.droptask, W.misuse};
  int total = 0;
  for (int x : w)
    total += x;
  int k = rt::draw(total), op = 0;
  while (k >= w[op])
    k -= w[op++];
  switch (op) {
  case 0: op_source(); break;
  case 1: op_task(); break;
  case 2: op_async(); break;
  case 3: op_ready(); break;
  case 4: op_set(false); break;
  case 5: op_set(true); break;
  case 6: op_dropw(); break;
  case 7: op_movew(); break;
  case 8: op_assignw(); break;
  case 9: op_retrieve(); break;
  case 10: op_call(); break;
  case 11: op_attach(1); break;
  case 12: op_attach(2); break;
  case 13: op_attach(3); break;
  case 14: op_notify(); break;
  case 15: op_share(); break;
  case 16: op_copy(); break;
  case 17: op_move(); break;
  case 18: op_assign(); break;
  case 19: op_get(); break;
  case 20: op_wait(); break;
  case 21: op_droph(); break;
  case 22: op_detach(); break;
  case 23:
    if (!g->tasks.empty())
      op_runtask(rt::draw(g->tasks.size()), rt::chance(1, 4));
    break;
  case 24:
    if (!g->tasks.empty())
      op_droptask(rt::draw(g->tasks.size()));
    break;
  default: op_misuse();
  }
}

const char *rule() {
  switch (PROFILE) {
  case 1: return "at least two results were read back, one of them through a shared_future or from a task";
  case 4: return "at least two attached functions ran and an error was passed on by next, or at least three ran";
  case 5: return "a function returned a future that was not ready yet (late unwrapping)";
  case 6: return "an unfulfilled promise, task or posted task was destroyed, overwritten or discarded while it had a read end";
  case 7: return "destroying or overwriting a read end cancelled stored functions or invoked a canceler";
  case 9: return "the last visible read end of a detached, unfinished result was destroyed";
  case 12: return "at least one misuse (double set, double retrieval, double call, use of an invalid object) was issued";
  case 21: return "an allocation or a copy constructor failed inside of an operation, or while a returned future was unwrapped";
  case 13: return "at least one function given together with an executor was run or discarded by that executor";
  default: return "at least two functions were handed to the library and at least one ran";
  }
}

void run() {
  Machine m;
  g = &m;
  // index 0 of the objects is never used
  g->caps = PROFILE != 5 && rt::flip();
  int n = 4 + int(rt::draw(24));
  op_source();
  for (int i = 0; i < n; ++i) {
    step();
    verify();
  }
  rt::trace("-- wind down");
  // everything is resolved and destroyed in a generated order
  for (int guard = 0; guard < 1000; ++guard) {
    int nh = g->hs.size(), nw = g->ws.size(), nt = g->tasks.size();
    if (nh + nw + nt == 0)
      break;
    int k = rt::draw(nh + nw + nt);
    if (k < nt) {
      if (rt::flip())
        op_runtask(k, false);
      else
        op_droptask(k);
    } else if (k < nt + nw) {
      WBase &w = *g->ws[k - nt];
      if (rt::flip() && w.m->valid) {
        if (w.kind != 6)
          op_set(rt::chance(1, 4), k - nt);
        else
          op_call(k - nt);
        verify();
        continue;
      }
      note_pending(g->ws[k - nt]->m);
      rt::trace("destroy w%d", k - nt);
      erase_w(k - nt);
    } else {
      int i = k - nt - nw;
      HBase &h = *g->hs[i];
      if (h.m && h.m->ready && rt::flip()) {
        rt::trace("h%d.get()", i);
        Outcome o = h.get();
        ++g->n_gets;
        g->n_shared_gets += h.shared;
        check_get(h, o, "get()");
        if (!h.shared)
          h.m = nullptr;
      }
      rt::trace("destroy h%d", i);
      auto p = std::move(g->hs[i]);
      g->hs.erase(g->hs.begin() + i);
      MP mm = std::move(p->m);
      p->m = nullptr;
      p.reset();
      rt::fail_alloc_at(0);
      mm = nullptr;
    }
    verify();
  }
  for (int i = 1; i < g->next_id; ++i)
    RT_CHECK(g_live[i] == 0, "object %d is still alive after everything was destroyed", i);
  for (int b = 0; b < 16; ++b)
    RT_CHECK(g_alloc_live[b] == 0, "memory of a user allocator is not returned");
  for (int c : g->cancel_ids)
    if (g_cancels[c])
      ++g->n_cancel;
  bool nt = false;
  int ran = 0;
  for (auto &f : g->fns)
    ran += f.runs;
  switch (PROFILE) {
  case 1: nt = g->n_gets >= 2 && (g->n_shared_gets || ran); break;
  case 4: nt = (ran >= 2 && g->n_err_passed) || ran >= 3; break;
  case 5: nt = g->n_unwrap_late > 0; break;
  case 6: nt = g->n_broken > 0; break;
  case 7: nt = g->n_cancelled_fn > 0 || g->n_cancel > 0; break;
  case 9: nt = g->n_detach_drop > 0; break;
  case 12: nt = g->n_misuse > 0; break;
  case 21: nt = g->n_faults || g->n_copy_faults; break;
  case 13: nt = g->n_posted_run > 0 || g->n_broken > 0; break;
  default: nt = g->fns.size() >= 2 && ran >= 1; break;
  }
  if (nt)
    rt::nontrivial();
  if (g->n_err_passed) rt::label("error passed on by next");
  if (g->n_unwrap_late) rt::label("late unwrapping");
  if (g->n_broken) rt::label("write end dropped with readers");
  if (g->n_cancelled_fn) rt::label("functions cancelled by dropping a read end");
  if (g->n_cancel) rt::label("canceler invoked");
  if (g->n_detach_drop) rt::label("detached and dropped while pending");
  if (g->n_misuse) rt::label("misuse");
  if (g->n_posted_run) rt::label("posted task run");
  if (g->n_shared_gets) rt::label("shared get");
  if (g->n_faults) rt::label("allocation failed");
  if (g->n_copy_faults) rt::label("copy constructor failed");
  if (ran) rt::label("function ran");
  if (ran > 3) rt::label("more than 3 functions ran");
  g = nullptr;
}
} // namespace mach

static std::string hname() { return "machine_p" + std::to_string(PROFILE); }
extern "C" const char *harness_name() {
  static std::string n = hname();
  return n.c_str();
}
extern "C" const char *harness_rule() { return mach::rule(); }
void run_case() { mach::run(); }
