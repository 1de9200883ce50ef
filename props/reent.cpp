// User code called by the library - functions, executors, destructors of
// function objects - uses the library itself, on the very objects whose
// operation is in progress: it drops read ends, completes other results,
// attaches further functions, runs or discards queued tasks.
//
// What is known about every result is kept here: who can still read it, which
// functions are stored for it and with what outcome. Everything that depends
// on the (unspecified) order in which functions of one result run is taken
// from the observed history, not predicted.
#include "common.h"
#include <deque>
#include <portable_concurrency/future>

#ifndef PROFILE
#define PROFILE 7
#endif
HARNESS("reent", "user code called by the library performed at least two library operations")

namespace {
enum Kind { Root, Next, Then, Intr, Unwrap, Note, NKIND };
const char *kname[] = {"root", "next", "then", "interruptible then", "unwrapping next", "notify"};
enum FnState { NoFn, Pending, Running, Finished, Destroyed };
enum Tri { No, Yes, Maybe };
struct Out {
  int k = 0; // 0 value, 1 error, 2 broken
  int v = 0;
  bool operator==(const Out &o) const { return k == o.k && (k == 2 || v == o.v); }
};
struct Err {
  int v;
};
struct Node {
  int idx = 0, parent = -1;
  Kind kind = Root;
  bool shared = false;
  pc::future<int> uq;
  bool has_uq = false;
  std::deque<pc::shared_future<int>> sh;
  std::unique_ptr<pc::promise<int>> p;
  int inop = 0;          // a handle or the write end is inside a library call
  bool started = false;  // its completion has begun
  bool done = false;     // and the call that completes it has returned
  bool lost = false;     // completed when (perhaps) nobody could read it
  bool detached = false;
  Out out;
  bool out_known = false;
  FnState fn = NoFn;
  int exec = -1; // -1 none, 0 inline, 1 queue
  bool posted = false, discarded = false;
  int add = 0, fails = 0, intr = 0;
  int inner = -1;
  std::vector<int> kids, outer;
  int handles() const { return int(sh.size()) + has_uq; }
};
struct World;
World *w;
int g_dtor, g_depth, g_script_ops;

struct TaskBase {
  int node;
  virtual ~TaskBase() {}
  virtual void run() = 0;
};
struct World {
  std::deque<Node> n;
  std::deque<std::unique_ptr<TaskBase>> q;
  int budget = 0;
  int next_value = 1;
  int in_exec = 0;
};

Tri operator||(Tri a, Tri b) { return a == Yes || b == Yes ? Yes : a == Maybe || b == Maybe ? Maybe : No; }

// can somebody still read the (unfinished) result of x?
Tri alive(Node &x) {
  if (x.inop)
    return Maybe;
  if (x.handles())
    return Yes;
  if (x.detached && !x.done)
    return x.started ? Maybe : Yes;
  Tri r = No;
  for (int c : x.kids)
    if (w->n[c].kind != Note && w->n[c].fn == Pending)
      r = r || alive(w->n[c]);
  for (int c : x.outer)
    if (!w->n[c].done)
      r = r || (w->n[c].started ? Maybe : alive(w->n[c]));
  return r;
}
// the outcome of x, and whether somebody may already have seen it
Out result(Node &x) {
  if (x.inner >= 0)
    return result(w->n[x.inner]);
  if (x.out_known)
    return x.out;
  return result(w->n[x.parent]); // error passed on by next
}
bool begun(Node &x) {
  if (x.started)
    return true;
  if (x.inner >= 0)
    return begun(w->n[x.inner]);
  return (x.kind == Next || x.kind == Unwrap) && begun(w->n[x.parent]) && result(w->n[x.parent]).k != 0;
}
struct InOp {
  Node *x;
  explicit InOp(Node &n) : x(&n) { ++x->inop; }
  ~InOp() { --x->inop; }
};
void script(bool dtor);

struct Fn {
  int node;
  bool owner = true;
  unsigned magic = 0x51ab37u;
  explicit Fn(int n) : node(n) {}
  Fn(Fn &&o) noexcept : node(o.node), owner(o.owner) { o.owner = false; }
  ~Fn() {
    RT_CHECK(magic == 0x51ab37u, "a function object is destroyed twice");
    magic = 0;
    if (!owner)
      return;
    Node &x = w->n[node];
    RT_CHECK(x.fn == Pending || x.fn == Finished, "the function of node %d is destroyed while it runs", node);
    if (x.fn == Pending)
      rt::trace("%*s(the function of %d is destroyed)", g_depth, "", node);
    x.fn = Destroyed;
    ++g_dtor;
    script(true);
    --g_dtor;
  }
  void enter(Node &x) {
    RT_CHECK(magic == 0x51ab37u && owner, "a function object is used outside of its lifetime");
    RT_CHECK(x.fn == Pending, "the function of node %d runs twice", x.idx);
    RT_CHECK(begun(w->n[x.parent]), "the function of node %d runs before its source is complete", x.idx);
    if (x.exec >= 0)
      RT_CHECK(w->in_exec == x.idx, "the function of node %d runs outside of its executor", x.idx);
    if (x.kind != Note && !g_dtor)
      RT_CHECK(alive(x) != No, "the function of node %d runs although nobody can read its result", x.idx);
    rt::trace("%*s-> function of %d", g_depth, "", x.idx);
    x.fn = Running;
    ++g_depth;
    script(false);
    --g_depth;
  }
  void leave(Node &x, Out o) {
    rt::trace("%*s<- function of %d", g_depth, "", x.idx);
    x.fn = Finished;
    if (x.kind != Intr) {
      x.out = o;
      x.out_known = true;
      x.started = true;
    }
  }
};
void same(const Node &x, const Out &got, const Out &want) {
  RT_CHECK(got == want, "the function of node %d gets outcome %d/%d instead of %d/%d", x.idx, got.k, got.v, want.k, want.v);
}
template <class F> Out read(F &f) {
  try {
    return Out{0, f.get()};
  } catch (Err &e) {
    return Out{1, e.v};
  } catch (std::future_error &e) {
    RT_CHECK(e.code() == std::future_errc::broken_promise, "reading reports %s", e.what());
    return Out{2, 0};
  }
}
struct NextFn : Fn {
  using Fn::Fn;
  int operator()(int v) {
    Node &x = w->n[node];
    enter(x);
    same(x, Out{0, v}, result(w->n[x.parent]));
    if (x.fails) {
      leave(x, Out{1, x.add});
      throw Err{x.add};
    }
    leave(x, Out{0, v + x.add});
    return v + x.add;
  }
};
struct ThenFn : Fn {
  using Fn::Fn;
  template <class F> int run(F f) {
    Node &x = w->n[node];
    enter(x);
    RT_CHECK(f.valid() && f.is_ready(), "the function of node %d gets a future that is not ready", x.idx);
    Out o = read(f);
    same(x, o, result(w->n[x.parent]));
    if (rt::flip())
      f = F();
    if (x.fails) {
      leave(x, Out{1, x.add});
      throw Err{x.add};
    }
    leave(x, Out{0, o.v + x.add});
    return o.v + x.add;
  }
  int operator()(pc::future<int> f) { return run(std::move(f)); }
  int operator()(pc::shared_future<int> f) { return run(std::move(f)); }
};
void complete(Node &x, int how);
struct IntrFn : Fn {
  using Fn::Fn;
  template <class F> void run(pc::promise<int> p, F f) {
    Node &x = w->n[node];
    x.p = std::make_unique<pc::promise<int>>(std::move(p));
    enter(x); // its script may drop the read ends of x and look at is_awaiten, or complete x
    RT_CHECK(f.valid() && f.is_ready(), "the function of node %d gets a future that is not ready", x.idx);
    Out o = read(f);
    same(x, o, result(w->n[x.parent]));
    if (!x.started && x.p && x.intr < 3)
      complete(x, x.intr);
    leave(x, Out{});
  }
  void operator()(pc::promise<int> p, pc::future<int> f) { run(std::move(p), std::move(f)); }
  void operator()(pc::promise<int> p, pc::shared_future<int> f) { run(std::move(p), std::move(f)); }
};
struct UnwrapFn : Fn {
  using Fn::Fn;
  pc::shared_future<int> operator()(int v) {
    Node &x = w->n[node];
    enter(x);
    same(x, Out{0, v}, result(w->n[x.parent]));
    // results of functions may depend on x: only roots are returned
    int c[64], k = 0;
    for (auto &r : w->n)
      if (r.kind == Root && !r.sh.empty() && !r.inop && k < 64)
        c[k++] = r.idx;
    if (!k || x.fails) {
      leave(x, Out{2, 0});
      return {};
    }
    Node &r = w->n[c[rt::draw(k)]];
    rt::trace("%*sfunction of %d returns the result of %d", g_depth, "", x.idx, r.idx);
    x.fn = Finished;
    x.inner = r.idx;
    r.outer.push_back(x.idx);
    return r.sh.front();
  }
};
struct NoteFn : Fn {
  using Fn::Fn;
  void operator()() {
    Node &x = w->n[node];
    enter(x);
    leave(x, Out{});
  }
};

struct Exec {
  int node;
};
template <class F> struct Task : TaskBase {
  F f;
  explicit Task(F &&x) : f(std::move(x)) {}
  void run() override { f(); }
};
struct InExec {
  int was;
  explicit InExec(int n) : was(w->in_exec) { w->in_exec = n; }
  ~InExec() { w->in_exec = was; }
};
template <class F> void post(Exec e, F f) {
  Node &x = w->n[e.node];
  RT_CHECK(!x.posted, "the function of node %d is handed to its executor twice", x.idx);
  RT_CHECK(begun(w->n[x.parent]), "the function of node %d is handed to its executor before its source is complete", x.idx);
  x.posted = true;
  if (rt::chance(1, 4)) {
    rt::trace("%*sexecutor of %d", g_depth, "", x.idx);
    ++g_depth;
    script(false);
    --g_depth;
  }
  if (x.exec == 0) {
    InExec in(x.idx);
    f();
    return;
  }
  auto t = std::make_unique<Task<F>>(std::move(f));
  t->node = x.idx;
  w->q.push_back(std::move(t));
}
} // namespace
namespace portable_concurrency {
template <> struct is_executor<Exec> : std::true_type {};
} // namespace portable_concurrency
namespace {

// --- operations, from the case body and from user code ------------------------------
// is the result of x set for good (or surely not yet)?
Tri ready(Node &x) {
  if (x.kind == Root || (x.kind == Intr && (x.p || x.started)))
    return x.done ? Yes : x.started ? Maybe : No;
  if (g_depth || g_dtor) // some call is in progress
    return x.fn == Pending && !begun(w->n[x.parent]) ? No : Maybe;
  if (x.discarded)
    return Yes;
  Node &p = w->n[x.parent];
  if (ready(p) != Yes)
    return ready(p);
  if (x.exec == 1 && x.posted && x.fn == Pending)
    return No;
  if (x.kind == Intr)
    return x.discarded ? Yes : No;
  if (x.inner >= 0)
    return ready(w->n[x.inner]);
  return Yes;
}
void complete(Node &x, int how) {
  auto p = std::move(x.p);
  static const char *n[] = {"value", "error", "broken promise"};
  rt::trace("%*scomplete %d with %s", g_depth, "", x.idx, n[how]);
  if (alive(x) != Yes)
    x.lost = true;
  x.out = Out{how, how == 2 ? 0 : w->next_value++};
  x.out_known = true;
  x.started = true;
  ++g_depth;
  if (how == 0)
    p->set_value(x.out.v);
  else if (how == 1)
    p->set_exception(std::make_exception_ptr(Err{x.out.v}));
  p.reset();
  --g_depth;
  x.done = true;
}
void drop(Node &x, bool all) {
  rt::trace("%*sdrop %s of %d", g_depth, "", all ? "all handles" : "a handle", x.idx);
  ++g_depth;
  do {
    InOp in(x);
    if (x.has_uq) {
      auto f = std::move(x.uq);
      x.has_uq = false;
    } else if (!x.sh.empty()) {
      auto f = std::move(x.sh.back());
      x.sh.pop_back();
    }
  } while (all && x.handles());
  --g_depth;
}
template <class F, class H> void attach_to(Node &c, H &h) {
  // fresh() already made room for the result
  auto keep = [&](auto &&f) {
    if (c.shared)
      c.sh.push_back(f.share());
    else {
      c.uq = std::move(f);
      c.has_uq = true;
    }
  };
  auto keep_shared = [&](auto &&f) { c.sh.push_back(std::move(f)); };
  (void)keep_shared;
  (void)keep;
  if constexpr (std::is_same<F, NextFn>::value) {
    keep(c.exec < 0 ? h.next(F(c.idx)) : h.next(Exec{c.idx}, F(c.idx)));
  } else if constexpr (std::is_same<F, ThenFn>::value) {
    struct One {
      ThenFn f;
      int operator()(H x) { return f(std::move(x)); }
    };
    keep(c.exec < 0 ? h.then(One{F(c.idx)}) : h.then(Exec{c.idx}, One{F(c.idx)}));
  } else if constexpr (std::is_same<F, IntrFn>::value) {
    struct One {
      IntrFn f;
      void operator()(pc::promise<int> p, H x) { f(std::move(p), std::move(x)); }
    };
    keep(c.exec < 0 ? h.then(One{F(c.idx)}) : h.then(Exec{c.idx}, One{F(c.idx)}));
  } else if constexpr (std::is_same<F, UnwrapFn>::value) {
    keep_shared(c.exec < 0 ? h.next(F(c.idx)) : h.next(Exec{c.idx}, F(c.idx)));
  } else {
    if (c.exec < 0)
      h.notify(F(c.idx));
    else
      h.notify(Exec{c.idx}, F(c.idx));
  }
}
template <class H> void attach_kind(Node &c, H &h) {
  switch (c.kind) {
  case Next: attach_to<NextFn>(c, h); break;
  case Then: attach_to<ThenFn>(c, h); break;
  case Intr: attach_to<IntrFn>(c, h); break;
  case Unwrap: attach_to<UnwrapFn>(c, h); break;
  default: attach_to<NoteFn>(c, h);
  }
}
void attach(Node &x) {
  w->n.emplace_back();
  Node &c = w->n.back();
  c.idx = int(w->n.size()) - 1;
  c.parent = x.idx;
  c.kind = Kind(1 + rt::draw(5));
  c.exec = int(rt::draw(4)) - 2;
  if (c.exec < -1)
    c.exec = -1;
  c.shared = c.kind == Unwrap || rt::flip();
  c.add = w->next_value++ * 100;
  c.fails = rt::chance(1, 5);
  c.intr = int(rt::draw(4));
  c.fn = Pending;
  static const char *en[] = {"", " on an inline executor", " on a queue"};
  rt::trace("%*s%d = %s of %d%s%s", g_depth, "", c.idx, kname[c.kind], x.idx, en[c.exec + 1], c.shared ? ", shared" : "");
  ++g_depth;
  {
    InOp a(x), b(c);
    if (x.has_uq) {
      auto h = std::move(x.uq);
      bool note = c.kind == Note;
      if (!note)
        x.has_uq = false;
      x.kids.push_back(c.idx);
      attach_kind(c, h);
      if (note)
        x.uq = std::move(h);
    } else {
      auto h = x.sh.front();
      x.kids.push_back(c.idx);
      attach_kind(c, h);
    }
  }
  --g_depth;
}
void detach(Node &x) {
  rt::trace("%*sdetach %d", g_depth, "", x.idx);
  ++g_depth;
  {
    InOp in(x);
    if (x.has_uq) {
      auto h = std::move(x.uq);
      x.has_uq = false;
      h.detach();
    } else {
      auto h = std::move(x.sh.back());
      x.sh.pop_back();
      h.detach();
    }
    x.detached = true;
  }
  --g_depth;
}
void run_task() {
  size_t i = rt::draw(uint32_t(w->q.size()));
  auto t = std::move(w->q[i]);
  w->q.erase(w->q.begin() + i);
  rt::trace("%*srun the task of %d", g_depth, "", t->node);
  ++g_depth;
  InExec in(t->node);
  t->run();
  t.reset();
  --g_depth;
}
void drop_task() {
  size_t i = rt::draw(uint32_t(w->q.size()));
  auto t = std::move(w->q[i]);
  w->q.erase(w->q.begin() + i);
  rt::trace("%*sdiscard the task of %d", g_depth, "", t->node);
  Node &x = w->n[t->node];
  if (x.kind != Note) {
    x.discarded = true;
    x.out = Out{2, 0};
    x.out_known = true;
    x.started = true;
  }
  ++g_depth;
  t.reset();
  --g_depth;
}
void look() {
  for (auto &x : w->n) {
    if (x.inop || g_dtor)
      continue;
    if (x.p && !x.started) {
      Tri a = alive(x);
      if (a != Maybe)
        RT_CHECK(x.p->is_awaiten() == (a == Yes), "the promise of node %d is%s awaited", x.idx, a == Yes ? " not" : "");
    }
    if (!x.handles())
      continue;
    Tri r = ready(x);
    if (r == Maybe)
      continue;
    bool is = x.has_uq ? x.uq.is_ready() : x.sh.front().is_ready();
    RT_CHECK(is == (r == Yes), "the result of node %d is%s ready", x.idx, is ? "" : " not");
  }
}
bool can_attach(Node &x) { return x.kind != Note && !x.inop && x.handles(); }
template <class P> Node *pick(P pred) {
  int c[64], k = 0;
  for (auto &x : w->n)
    if (k < 64 && pred(x))
      c[k++] = x.idx;
  return k ? &w->n[c[rt::draw(k)]] : nullptr;
}
void action(bool dtor, bool top) {
#if PROFILE == 3
  static const int W[] = {1, 1, 3, 2, 1, 5, 1, 3, 1};
#elif PROFILE == 7
  static const int W[] = {4, 4, 3, 2, 1, 3, 1, 3, 1};
#elif PROFILE == 9
  static const int W[] = {2, 3, 3, 2, 1, 3, 4, 2, 1};
#elif PROFILE == 6
  static const int W[] = {1, 2, 4, 2, 3, 3, 1, 2, 1};
#else
  static const int W[] = {2, 3, 3, 2, 2, 3, 2, 1, 1};
#endif
  int sum = 0;
  for (int x : W)
    sum += x;
  int d = int(rt::draw(sum)), a = 0;
  while (d >= W[a])
    d -= W[a++];
  Node *x = nullptr;
  if (!top)
    ++g_script_ops;
  switch (a) {
  case 0:
  case 1:
    if ((x = pick([](Node &n) { return !n.inop && n.handles() > 0; })))
      drop(*x, a == 1);
    break;
  case 2:
    if ((x = pick([](Node &n) { return n.p && !n.started; })))
      complete(*x, rt::chance(1, PROFILE == 6 ? 2 : 4) ? 2 : int(rt::draw(2)));
    break;
  case 3:
    if (!w->q.empty())
      run_task();
    break;
  case 4:
    if (!w->q.empty())
      drop_task();
    break;
  case 5:
    if (!dtor && w->n.size() < 24 && (x = pick(can_attach)))
      attach(*x);
    break;
  case 6:
    if (!dtor && (x = pick([](Node &n) { return !n.inop && n.kind != Note && n.handles() > 0; })))
      detach(*x);
    break;
  case 7:
    if (!dtor)
      look();
    break;
  default:
    if (!dtor && (x = pick([](Node &n) { return !n.inop && !n.sh.empty() && n.sh.size() < 4; }))) {
      rt::trace("%*scopy a handle of %d", g_depth, "", x->idx);
      x->sh.push_back(pc::shared_future<int>(x->sh.front()));
    }
  }
}
void script(bool dtor) {
  if (g_depth > 12 || w->budget <= 0)
    return;
  int k = int(rt::draw(dtor ? 2 : 4));
  for (int i = 0; i < k && w->budget > 0; ++i) {
    --w->budget;
    action(dtor, false);
  }
}

// nothing is in progress: everything that can be known is exact
void verify() {
  look();
  for (auto &x : w->n) {
    if (x.fn == NoFn)
      continue;
    RT_CHECK(x.fn != Running, "a function is still running");
    RT_CHECK(x.fn != Finished, "the function of node %d is not destroyed after it ran", x.idx);
    if (x.fn != Pending)
      continue;
    Node &p = w->n[x.parent];
    bool queued = x.exec == 1 && x.posted;
    if (x.kind == Note) {
      RT_CHECK(queued || !begun(p) || p.lost || ready(p) != Yes, "the notification %d was never called", x.idx);
      RT_CHECK(queued || begun(p) || alive(p) != No, "the notification %d outlives the result it was attached to", x.idx);
      continue;
    }
    RT_CHECK(alive(x) != No, "the function of node %d is stored although nobody can read its result", x.idx);
    RT_CHECK(queued || ready(p) != Yes || p.lost, "the function of node %d was never run", x.idx);
  }
}
} // namespace

void run_case() {
  World world;
  w = &world;
  g_dtor = g_depth = g_script_ops = 0;
  world.budget = int(rt::range(2, 24));
  int roots = int(rt::range(1, 3));
  for (int i = 0; i < roots; ++i) {
    w->n.emplace_back();
    Node &x = w->n.back();
    x.idx = i;
    bool cancel = rt::chance(1, 3);
    auto pf = cancel ? pc::make_promise<int>(pc::canceler_arg, [] { script(true); }) : pc::make_promise<int>();
    x.p = std::make_unique<pc::promise<int>>(std::move(pf.first));
    x.shared = rt::flip();
    rt::trace("%d = %s%s", i, x.shared ? "shared root" : "root", cancel ? " with canceler" : "");
    if (x.shared) {
      x.sh.push_back(pf.second.share());
      if (rt::flip())
        x.sh.push_back(pc::shared_future<int>(x.sh.front()));
    } else {
      x.uq = std::move(pf.second);
      x.has_uq = true;
    }
  }
  int build = int(rt::range(1, 7));
  for (int i = 0; i < build; ++i)
    if (Node *x = pick(can_attach))
      attach(*x);
  int steps = int(rt::range(2, 10));
  for (int i = 0; i < steps; ++i) {
    action(false, true);
    verify();
  }
  if (g_script_ops >= 2)
    rt::nontrivial();
  // finish everything
  world.budget = 0;
  while (Node *x = pick([](Node &n) { return n.p && !n.started; })) {
    complete(*x, 0);
    verify();
  }
  while (!world.q.empty()) {
    run_task();
    verify();
    while (Node *x = pick([](Node &n) { return n.p && !n.started; }))
      complete(*x, 0);
  }
  verify();
  for (auto &x : w->n) {
    if (!x.handles() || x.kind == Note)
      continue;
    bool is = x.has_uq ? x.uq.is_ready() : x.sh.front().is_ready();
    RT_CHECK(is, "the result of node %d is not ready although everything is complete", x.idx);
    Out o = x.has_uq ? read(x.uq) : read(x.sh.front());
    Out e = result(x);
    RT_CHECK(o == e, "the result of node %d is %d/%d instead of %d/%d", x.idx, o.k, o.v, e.k, e.v);
  }
  for (auto &x : w->n) {
    x.uq = pc::future<int>();
    x.sh.clear();
  }
  for (auto &x : w->n)
    RT_CHECK(x.fn == NoFn || x.fn == Destroyed, "the function of node %d leaks", x.idx);
}
