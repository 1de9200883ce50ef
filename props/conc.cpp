// Generated concurrent programs over promises, futures and continuations.
//
// A case is a dataflow graph (sources, continuations, nested futures) plus 1..3
// threads, each with its own handles and list of operations. Every program is
// free of deadlocks and races by construction, so for every schedule the value
// of each node that stays referenced is known in advance; nodes whose read ends
// are dropped may or may not have been computed.
#include "common.h"
#include <deque>
#include <portable_concurrency/functional>
#include <portable_concurrency/future>

#ifndef PROFILE
#define PROFILE 2
#endif

namespace {

struct Err {
  int id;
};
struct Outcome {
  enum K { None, Value, Error, Broken, Bad } k = None;
  int id = 0;
  bool operator==(const Outcome &o) const { return k == o.k && id == o.id; }
};
std::string show(const Outcome &o) {
  static const char *n[] = {"nothing", "value ", "error ", "broken_promise", "an unexpected future_error "};
  return n[o.k] + (o.k == Outcome::None || o.k == Outcome::Broken ? std::string() : std::to_string(o.id));
}
template <class F> Outcome catch_all(F &&f) {
  Outcome o;
  try {
    f(o);
  } catch (const Err &e) {
    o = {Outcome::Error, e.id};
  } catch (const std::future_error &e) {
    if (e.code() == std::future_errc::broken_promise)
      o = {Outcome::Broken, 0};
    else
      o = {Outcome::Bad, e.code().value()};
  }
  return o;
}

// move-only payload with memory of its own
struct V {
  int *p = nullptr;
  explicit V(int id) : p(new int(id)) {}
  V(V &&o) noexcept : p(o.p) { o.p = nullptr; }
  V &operator=(V &&o) noexcept {
    std::swap(p, o.p);
    return *this;
  }
  ~V() { delete p; }
};
struct Obj {
  int id;
};
Obj g_objs[512];

template <class T> struct Pay;
template <> struct Pay<V> {
  static V make(int id) { return V(id); }
  static Outcome of(const V &v) {
    RT_CHECK(v.p, "a moved-from value is delivered");
    return {Outcome::Value, *v.p};
  }
  static bool set(pc::promise<V> &p, int id) {
    V v(id);
    p.set_value(std::move(v));
    return !v.p;
  }
  static constexpr bool knows_stored = true;
  static int norm(int id) { return id; }
};
template <> struct Pay<Obj &> {
  static Obj &make(int id) { return g_objs[id]; }
  static Outcome of(const Obj &v) {
    RT_CHECK(&v == &g_objs[v.id], "another object delivered");
    return {Outcome::Value, v.id};
  }
  static bool set(pc::promise<Obj &> &p, int id) {
    p.set_value(g_objs[id]);
    return true;
  }
  static constexpr bool knows_stored = false;
  static int norm(int id) { return id; }
};
template <> struct Pay<void> {
  static void make(int) {}
  static bool set(pc::promise<void> &p, int) {
    p.set_value();
    return true;
  }
  static constexpr bool knows_stored = false;
  static int norm(int) { return 0; }
};

template <class T> struct Rd {
  static Outcome get(pc::future<T> &f) {
    return catch_all([&](Outcome &o) {
      T v = f.get();
      o = Pay<T>::of(v);
    });
  }
  static Outcome get(const pc::shared_future<T> &f) {
    return catch_all([&](Outcome &o) { o = Pay<T>::of(f.get()); });
  }
};
template <> struct Rd<void> {
  template <class F> static Outcome get(F &f) {
    return catch_all([&](Outcome &o) {
      f.get();
      o = {Outcome::Value, 0};
    });
  }
};

// --- program -----------------------------------------------------------------
enum NodeKind { SrcPromise, SrcTask, Async, Then, Next, Intr };
enum RetKind { Direct, UFut, SFut };
enum ExMode { Inline, Worker, Discard, DeferRun, DeferDrop };
struct Node {
  int idx = 0;
  NodeKind kind = SrcPromise;
  int parent = -1, inner = -1;
  int exec = -1; // mode, -1: no executor
  bool throws = false;
  RetKind rk = Direct;
  bool notify = false; // pseudo node of a notification
  int val = 0, err = 0, intr = 0;
  int make = 0; // how the promise is made
  int make2 = 0;
  // sources
  int write = 0; // 0 value, 1 error, 2 abandon, 3 abandon by overwriting
  int writer = -1; // thread, -1: main after everything else
  bool probes = false;
  // derived
  Outcome expected;
  bool expect_run = false, blockable = false, shared_result = false;
  bool kept = false, done_written = false;
  int group = 0;
  std::vector<int> deps; // sources whose write happens before this result
  // observed
  int runs = 0, posts = 0;
  int cancels = 0;
  int stored = -1; // -1: unknown
  int data = 0;    // written by the function when it runs
  Outcome seen;
};
enum OpKind { OSet, OGet, OWait, OPoll, OShare, OCopy, OMove, ODrop, OThen, ONotify, ODetach, OAsync, OAwaiten };
struct Op {
  OpKind k;
  int slot = -1, to = -1, node = -1, inner_slot = -1;
};
struct Slot {
  int node;
  bool shared, live;
};
struct Prog {
  std::deque<Node> nodes;
  std::vector<Slot> slots[4]; // per thread; [0] main
  std::vector<Op> ops[4];
  std::vector<int> group;
  int nthreads = 1;
  bool worker = false;
  int next_id = 1;
};
Prog *g;
int g_srcdata[64]; // plain data published by the write of a source

int find_group(int x) {
  while (g->group[x] != x)
    x = g->group[x];
  return x;
}
Node &new_node(NodeKind k) {
  g->nodes.emplace_back();
  Node &n = g->nodes.back();
  n.idx = int(g->nodes.size()) - 1;
  n.kind = k;
  n.val = g->next_id++;
  n.err = g->next_id++;
  g->group.push_back(n.idx);
  return n;
}
void join(int a, int b) { g->group[find_group(a)] = find_group(b); }

// --- executor -----------------------------------------------------------------
struct Ex {
  int node, mode;
};
struct Queue {
  std::mutex m;
  std::condition_variable cv;
  std::deque<std::pair<int, pc::unique_function<void()>>> q;
  bool closed = false;
};
Queue *g_worker;
std::mutex *g_deferred_m;
std::vector<std::pair<Ex, pc::unique_function<void()>>> *g_deferred;
int g_cur[16]; // node whose posted task is running, per thread

struct Enter {
  int old;
  explicit Enter(int n) : old(g_cur[rt::self()]) { g_cur[rt::self()] = n; }
  ~Enter() { g_cur[rt::self()] = old; }
};
void check_ready_before(const Node &n, const char *what) {
  if (n.parent >= 0)
    for (int s : g->nodes[n.parent].deps)
      RT_CHECK(rt::cell_get(s), "%s of node %d happens before the result of source %d was stored", what, n.idx, s);
}
template <class F> void post(Ex e, F f) {
  Node &n = g->nodes[e.node];
  ++n.posts;
  RT_CHECK(n.posts == 1, "function of node %d is handed to its executor twice", n.idx);
  check_ready_before(n, "scheduling the function");
  switch (e.mode) {
  case Inline: {
    Enter s(e.node);
    f();
    break;
  }
  case Worker: {
    std::lock_guard<std::mutex> l(g_worker->m);
    g_worker->q.emplace_back(e.node, std::move(f));
    g_worker->cv.notify_one();
    break;
  }
  case Discard: break;
  default: {
    std::lock_guard<std::mutex> l(*g_deferred_m);
    g_deferred->emplace_back(e, pc::unique_function<void()>(std::move(f)));
  }
  }
}
void run_posted(int node, pc::unique_function<void()> f) {
  Enter s(node);
  f();
}
void worker_loop() {
  for (;;) {
    std::pair<int, pc::unique_function<void()>> t;
    {
      std::unique_lock<std::mutex> l(g_worker->m);
      g_worker->cv.wait(l, [] { return g_worker->closed || !g_worker->q.empty(); });
      if (g_worker->q.empty())
        return;
      t = std::move(g_worker->q.front());
      g_worker->q.pop_front();
    }
    run_posted(t.first, std::move(t.second));
  }
}

} // namespace
namespace portable_concurrency {
template <> struct is_executor<Ex> : std::true_type {};
} // namespace portable_concurrency
namespace {

// --- functions -----------------------------------------------------------------
struct Fn { // everything a stored function owns
  Node *n;
  int *mem; // leak and use-after-free detector
  explicit Fn(Node *x) : n(x), mem(new int(x->idx)) {}
  Fn(Fn &&o) noexcept : n(o.n), mem(o.mem) { o.mem = nullptr; }
  Fn &operator=(Fn &&o) noexcept {
    std::swap(n, o.n);
    std::swap(mem, o.mem);
    return *this;
  }
  ~Fn() { delete mem; }
  void enter(const Outcome &seen) {
    RT_CHECK(mem && *mem == n->idx, "a moved-from function is invoked");
    ++n->runs;
    RT_CHECK(n->runs == 1, "function of node %d runs twice", n->idx);
    n->seen = seen;
    if (n->exec >= 0)
      RT_CHECK(g_cur[rt::self()] == n->idx, "function of node %d runs outside of its executor", n->idx);
    check_ready_before(*n, "running the function");
    if (n->parent >= 0) {
      for (int s : g->nodes[n->parent].deps)
        RT_CHECK(g_srcdata[s] == 7000 + s, "what was done before storing the result is not visible to a continuation");
    }
    n->data = 9000 + n->idx;
  }
};
template <class T> struct Hd {
  pc::future<T> u;
  pc::shared_future<T> s;
};
template <class T, RetKind K> struct Ret;
template <class T> struct Ret<T, Direct> {
  using type = T;
  explicit Ret(Hd<T> *) {}
  T produce(Node *n) {
    if (n->throws)
      throw Err{n->err};
    return Pay<T>::make(n->val);
  }
};
template <class T> struct Ret<T, UFut> {
  using type = pc::future<T>;
  pc::future<T> f;
  explicit Ret(Hd<T> *h) : f(std::move(h->u)) {}
  type produce(Node *n) {
    if (n->throws)
      throw Err{n->err};
    return std::move(f);
  }
};
template <class T> struct Ret<T, SFut> {
  using type = pc::shared_future<T>;
  pc::shared_future<T> f;
  explicit Ret(Hd<T> *h) : f(std::move(h->s)) {}
  type produce(Node *n) {
    if (n->throws)
      throw Err{n->err};
    return std::move(f);
  }
};
template <class T, RetKind K> struct TaskFn : Fn {
  Ret<T, K> r;
  TaskFn(Node *n, Hd<T> *i) : Fn(n), r(i) {}
  typename Ret<T, K>::type operator()() {
    enter({});
    return r.produce(n);
  }
};
template <class T, class F, RetKind K> struct ThenFn : Fn {
  Ret<T, K> r;
  ThenFn(Node *n, Hd<T> *i) : Fn(n), r(i) {}
  typename Ret<T, K>::type operator()(F f) {
    RT_CHECK(f.valid() && f.is_ready(), "a continuation is given a future that is not ready");
    enter(Rd<T>::get(f));
    return r.produce(n);
  }
};
template <class T, class A, RetKind K> struct NextFn : Fn {
  Ret<T, K> r;
  NextFn(Node *n, Hd<T> *i) : Fn(n), r(i) {}
  typename Ret<T, K>::type operator()(A a) {
    enter(Pay<T>::of(a));
    return r.produce(n);
  }
};
template <RetKind K> struct NextFn<void, void, K> : Fn {
  Ret<void, K> r;
  NextFn(Node *n, Hd<void> *i) : Fn(n), r(i) {}
  typename Ret<void, K>::type operator()() {
    enter({Outcome::Value, 0});
    return r.produce(n);
  }
};
template <class T> struct IntrFn : Fn {
  explicit IntrFn(Node *n) : Fn(n) {}
  void operator()(pc::promise<T> p, pc::future<T> f) {
    RT_CHECK(f.valid() && f.is_ready(), "a continuation is given a future that is not ready");
    enter(Rd<T>::get(f));
    switch (n->intr) {
    case 0: Pay<T>::set(p, n->val); break;
    case 1: p.set_exception(std::make_exception_ptr(Err{n->err})); break;
    default: break;
    }
  }
};
struct NoteFn : Fn {
  explicit NoteFn(Node *n) : Fn(n) {}
  void operator()() { enter({}); }
};
struct Canceler {
  int *mem;
  int node;
  explicit Canceler(int n) : mem(new int(n)), node(n) {}
  Canceler(Canceler &&o) noexcept : mem(o.mem), node(o.node) { o.mem = nullptr; }
  Canceler(const Canceler &o) : mem(o.mem ? new int(*o.mem) : nullptr), node(o.node) {}
  ~Canceler() { delete mem; }
  void operator()() {
    RT_CHECK(mem && *mem == node, "a moved-from canceler is invoked");
    ++g->nodes[node].cancels;
  }
};

// --- generation -----------------------------------------------------------------
struct W {
  int get, wait, poll, share, copy, move, drop, then_, notify, detach, async;
};
// clang-format off
#if PROFILE == 2    // waking readers
constexpr W w{30,14,8, 8,10,3, 4, 4,2,2,1};
#elif PROFILE == 3  // attaching against completing
constexpr W w{6,2,2, 7,9,3, 3, 30,22,2,2};
#elif PROFILE == 5  // unwrapping
constexpr W w{8,3,3, 6,5,2, 6, 34,4,2,6};
#elif PROFILE == 6  // abandonment
constexpr W w{14,5,3, 7,7,2, 4, 20,8,2,4};
#elif PROFILE == 8  // cancellation
constexpr W w{5,2,2, 7,8,3, 26, 20,7,3,4};
#elif PROFILE == 9  // detach
constexpr W w{5,2,2, 6,6,3, 16, 14,5,18,4};
#elif PROFILE == 13 // executors
constexpr W w{7,2,2, 6,6,2, 5, 26,12,2,12};
#else
constexpr W w{9,4,3, 7,7,3, 12, 18,8,5,5};
#endif
// clang-format on

bool runs_tasks(int mode) { return mode != Discard && mode != DeferDrop; }
int gen_exec(bool must) {
  int k = rt::draw(PROFILE == 13 ? 12 : 10);
  if (!must && k < 4)
    return -1;
  switch (k) {
  case 0:
  case 4: return Inline;
  case 1:
  case 5:
  case 6: return Worker;
  case 2:
  case 7: return DeferRun;
  case 3:
  case 8: return PROFILE == 6 || rt::flip() ? Discard : Inline;
  case 9: return PROFILE == 6 ? DeferDrop : Worker;
  default: return Worker;
  }
}
int add_slot(int t, int node, bool shared) {
  g->slots[t].push_back({node, shared, true});
  return int(g->slots[t].size()) - 1;
}
template <class P> int pick(int t, P pred) {
  int c[64], n = 0;
  for (int i = 0; i < int(g->slots[t].size()) && n < 64; ++i)
    if (g->slots[t][i].live && pred(g->slots[t][i]))
      c[n++] = i;
  return n ? c[rt::draw(n)] : -1;
}
void derive(Node &n) {
  auto merge = [&](int from) {
    for (int d : g->nodes[from].deps)
      n.deps.push_back(d);
  };
  bool exec_ok = n.exec < 0 || runs_tasks(n.exec);
  n.blockable = n.exec < 0 || n.exec == Inline || n.exec == Worker || n.exec == Discard;
  if (n.parent >= 0) {
    merge(n.parent);
    n.blockable = n.blockable && g->nodes[n.parent].blockable;
  }
  auto produce = [&] {
    if (n.kind == Intr) {
      n.expected = n.intr == 0   ? Outcome{Outcome::Value, n.val}
                   : n.intr == 1 ? Outcome{Outcome::Error, n.err}
                                 : Outcome{Outcome::Broken, 0};
    } else if (n.throws)
      n.expected = {Outcome::Error, n.err};
    else if (n.rk == Direct)
      n.expected = {Outcome::Value, n.val};
    else if (n.inner < 0)
      n.expected = {Outcome::Broken, 0};
    else {
      n.expected = g->nodes[n.inner].expected;
      n.blockable = n.blockable && g->nodes[n.inner].blockable;
      merge(n.inner);
    }
  };
  switch (n.kind) {
  case SrcPromise:
    n.blockable = n.writer >= 0;
    n.deps.push_back(n.idx);
    n.expected = n.write == 0   ? Outcome{Outcome::Value, n.val}
                 : n.write == 1 ? Outcome{Outcome::Error, n.err}
                                : Outcome{Outcome::Broken, 0};
    break;
  case SrcTask:
    n.blockable = n.writer >= 0;
    n.deps.push_back(n.idx);
    n.expect_run = n.write < 2;
    if (n.expect_run)
      produce();
    else
      n.expected = {Outcome::Broken, 0};
    break;
  default:
    if (!exec_ok) {
      n.expected = {Outcome::Broken, 0};
      break;
    }
    if (n.kind == Next && g->nodes[n.parent].expected.k != Outcome::Value) {
      n.expected = g->nodes[n.parent].expected;
      break;
    }
    n.expect_run = true;
    produce();
  }
}
void gen_fn(Node &n, int t, Op *op) {
  n.throws = rt::chance(1, 6);
  if (rt::chance(PROFILE == 5 ? 3 : 1, 4)) {
    bool sh = rt::chance(1, 4);
    int i = pick(t, [&](Slot &s) {
      return s.shared == sh && find_group(s.node) != find_group(n.idx) && (n.parent < 0 || find_group(s.node) != find_group(n.parent));
    });
    if (i >= 0) {
      n.rk = sh ? SFut : UFut;
      n.inner = g->slots[t][i].node;
      g->slots[t][i].live = false;
      op->inner_slot = i;
      join(n.idx, n.inner);
    } else if (rt::chance(1, 8)) {
      n.rk = sh ? SFut : UFut; // an invalid future
    }
  }
  n.shared_result = n.rk == SFut;
}
const char *mode_name(int m) {
  static const char *n[] = {"", "inline ", "worker ", "discarding ", "deferred ", "deferred-discard "};
  return n[m + 1];
}
std::string fn_text(const Node &n) {
  if (n.kind == Intr)
    return n.intr == 0 ? "sets value" : n.intr == 1 ? "sets error" : "drops its promise";
  if (n.throws)
    return "throws";
  if (n.rk == Direct)
    return "returns value";
  return (n.rk == SFut ? "returns shared node " : "returns node ") + std::to_string(n.inner);
}
// one operation of thread t; phase 0 may not block
bool gen_op(int t, bool may_block) {
  static const int ws[] = {w.get, w.wait, w.poll, w.share, w.copy, w.move, w.drop, w.then_, w.notify, w.detach, w.async};
  int total = 0;
  for (int x : ws)
    total += x;
  int k = rt::draw(total), c = 0;
  while (k >= ws[c])
    k -= ws[c++];
  Op op{};
  op.slot = op.to = op.node = op.inner_slot = -1;
  auto any = [](Slot &) { return true; };
  auto done = [&](const char *fmt, int a, int b) {
    g->ops[t].push_back(op);
    rt::trace(fmt, t, a, b);
    return true;
  };
  switch (c) {
  case 0:
  case 1: {
    if (!may_block)
      return false;
    int s = pick(t, [](Slot &x) { return g->nodes[x.node].blockable; });
    if (s < 0)
      return false;
    op.k = c == 0 ? OGet : OWait;
    op.slot = s;
    int n = g->slots[t][s].node;
    g->nodes[n].kept = true;
    if (c == 0 && !g->slots[t][s].shared)
      g->slots[t][s].live = false;
    return done(c == 0 ? "T%d: get #%d (node %d)" : "T%d: wait #%d (node %d)", s, n);
  }
  case 2: {
    int s = pick(t, any);
    if (s < 0)
      return false;
    op.k = OPoll;
    op.slot = s;
    return done("T%d: poll #%d (node %d)", s, g->slots[t][s].node);
  }
  case 3: {
    int s = pick(t, [](Slot &x) { return !x.shared; });
    if (s < 0)
      return false;
    op.k = OShare;
    op.slot = s;
    g->slots[t][s].live = false;
    op.to = add_slot(t, g->slots[t][s].node, true);
    return done("T%d: share #%d -> #%d", s, op.to);
  }
  case 4: {
    int s = pick(t, [](Slot &x) { return x.shared; });
    if (s < 0)
      return false;
    op.k = OCopy;
    op.slot = s;
    op.to = add_slot(t, g->slots[t][s].node, true);
    return done("T%d: copy #%d -> #%d", s, op.to);
  }
  case 5: {
    int s = pick(t, any);
    if (s < 0)
      return false;
    op.k = OMove;
    op.slot = s;
    g->slots[t][s].live = false;
    op.to = add_slot(t, g->slots[t][s].node, g->slots[t][s].shared);
    return done("T%d: move #%d -> #%d", s, op.to);
  }
  case 6: {
    int s = pick(t, any);
    if (s < 0)
      return false;
    op.k = ODrop;
    op.slot = s;
    g->slots[t][s].live = false;
    return done("T%d: drop #%d (node %d)", s, g->slots[t][s].node);
  }
  case 7: {
    if (g->nodes.size() > 20)
      return false;
    int s = pick(t, any);
    if (s < 0)
      return false;
    bool sh = g->slots[t][s].shared;
    int kk = rt::draw(sh ? 2 : 5);
    Node &n = new_node(kk == 4 ? Intr : kk % 2 ? Next : Then);
    n.parent = g->slots[t][s].node;
    join(n.idx, n.parent);
    n.exec = gen_exec(false);
    op.k = OThen;
    op.slot = s;
    if (!sh)
      g->slots[t][s].live = false;
    if (n.kind == Intr)
      n.intr = rt::draw(3);
    else
      gen_fn(n, t, &op);
    derive(n);
    op.node = n.idx;
    op.to = add_slot(t, n.idx, n.shared_result);
    g->ops[t].push_back(op);
    rt::trace("T%d: #%d = node %d = #%d.%s(%s%s)", t, op.to, n.idx, s, n.kind == Intr ? "interruptible then" : n.kind == Then ? "then" : "next",
              mode_name(n.exec), fn_text(n).c_str());
    return true;
  }
  case 8: {
    if (g->nodes.size() > 20)
      return false;
    int s = pick(t, any);
    if (s < 0)
      return false;
    Node &n = new_node(Then);
    n.notify = true;
    n.parent = g->slots[t][s].node;
    join(n.idx, n.parent);
    n.exec = gen_exec(false);
    n.expect_run = n.exec < 0 || runs_tasks(n.exec);
    op.k = ONotify;
    op.slot = s;
    op.node = n.idx;
    g->ops[t].push_back(op);
    rt::trace("T%d: #%d.notify(%sfunction %d)", t, s, mode_name(n.exec), n.idx);
    return true;
  }
  case 9: {
    int s = pick(t, any);
    if (s < 0)
      return false;
    op.k = ODetach;
    op.slot = s;
    int n = g->slots[t][s].node;
    g->nodes[n].kept = true;
    g->slots[t][s].live = false;
    op.to = add_slot(t, n, g->slots[t][s].shared);
    return done("T%d: detach #%d -> #%d", s, op.to);
  }
  default: {
    if (g->nodes.size() > 20)
      return false;
    Node &n = new_node(Async);
    n.exec = gen_exec(true);
    op.k = OAsync;
    gen_fn(n, t, &op);
    derive(n);
    op.node = n.idx;
    op.to = add_slot(t, n.idx, n.shared_result);
    g->ops[t].push_back(op);
    rt::trace("T%d: #%d = node %d = async(%s%s)", t, op.to, n.idx, mode_name(n.exec), fn_text(n).c_str());
    return true;
  }
  }
}

void compute_kept() {
  for (int t = 0; t <= g->nthreads; ++t)
    for (auto &s : g->slots[t])
      if (s.live)
        g->nodes[s.node].kept = true;
  // children come after their parents and inner nodes
  for (int i = int(g->nodes.size()) - 1; i >= 0; --i) {
    Node &n = g->nodes[i];
    if (!n.kept || n.notify)
      continue;
    if (n.parent >= 0)
      g->nodes[n.parent].kept = true;
    if (n.inner >= 0 && n.expect_run && !n.throws)
      g->nodes[n.inner].kept = true;
  }
}

// --- execution -----------------------------------------------------------------
template <class T> struct Run {
  struct Src {
    pc::promise<T> p{std::move(pc::make_promise<T>().first)};
    pc::packaged_task<T()> t0;
    pc::packaged_task<pc::future<T>()> t1;
    pc::packaged_task<pc::shared_future<T>()> t2;
  };
  std::vector<Hd<T>> hs[4];
  std::deque<Src> srcs;
  std::vector<int> src_of; // node -> src

  static void check_deps(const Node &n, const char *what) {
    for (int s : n.deps) {
      RT_CHECK(rt::cell_get(s), "%s: node %d is ready before source %d was written", what, n.idx, s);
      RT_CHECK(g_srcdata[s] == 7000 + s, "%s: effects before the store are not visible", what);
    }
    if (n.expect_run)
      RT_CHECK(n.data == 9000 + n.idx, "%s: effects of the function are not visible", what);
  }
  Outcome normalize(Outcome o) {
    if (o.k == Outcome::Value)
      o.id = Pay<T>::norm(o.id);
    return o;
  }
  void check_result(const Node &n, const Outcome &o, const char *what) {
    Outcome e = normalize(n.expected);
    RT_CHECK(o == e, "%s of node %d yields %s, expected %s", what, n.idx, show(o).c_str(), show(e).c_str());
    check_deps(n, what);
  }
  void write(Node &n) {
    Src &s = srcs[src_of[n.idx]];
    if (n.kind == SrcPromise) {
      int aw = -1;
      if (n.probes) {
        aw = s.p.is_awaiten();
        if (n.kept)
          RT_CHECK(aw == 1, "is_awaiten() is false although node %d has read ends", n.idx);
      }
      g_srcdata[n.idx] = 7000 + n.idx;
      rt::cell_set(n.idx, 1);
      Outcome o = catch_all([&](Outcome &) {
        switch (n.write) {
        case 0:
          n.stored = Pay<T>::set(s.p, n.val);
          if (!Pay<T>::knows_stored)
            n.stored = -1;
          break;
        case 1: s.p.set_exception(std::make_exception_ptr(Err{n.err})); break;
        case 2: {
          pc::promise<T> dead(std::move(s.p));
          break;
        }
        default: s.p = std::move(pc::make_promise<T>().first);
        }
      });
      RT_CHECK(o.k == Outcome::None, "storing a result for the first time reports %s", show(o).c_str());
      if (aw == 0 && n.stored == 1)
        rt::fail("a result is stored although is_awaiten() was false");
      if (n.write < 2 && rt::cell_get(100 + n.idx)) {
        pc::promise<T> dead(std::move(s.p)); // destroyed right after the store
      }
    } else {
      g_srcdata[n.idx] = 7000 + n.idx;
      rt::cell_set(n.idx, 1);
      auto call = [&](auto &task) {
        if (n.write < 2) {
          Outcome o = catch_all([&](Outcome &) { task(); });
          // a task whose read ends are gone has nobody to work for
          RT_CHECK(o.k == Outcome::None || !n.kept, "calling a task reports %s", show(o).c_str());
        } else {
          auto dead = std::move(task);
        }
      };
      switch (n.rk) {
      case Direct: call(s.t0); break;
      case UFut: call(s.t1); break;
      default: call(s.t2);
      }
    }
  }
  void make_source(Node &n, Hd<T> *inner) {
    srcs.emplace_back();
    src_of.resize(n.idx + 1, -1);
    src_of[n.idx] = int(srcs.size()) - 1;
    Src &s = srcs.back();
    Hd<T> h;
    if (n.kind == SrcPromise) {
      switch (n.make) {
      case 0: std::tie(s.p, h.u) = pc::make_promise<T>(); break;
      case 1:
        s.p = pc::promise<T>();
        h.u = s.p.get_future();
        break;
      case 2:
        s.p = pc::promise<T>(std::allocator_arg, std::allocator<int>());
        h.u = s.p.get_future();
        break;
      default: {
        Canceler c(n.idx);
        switch (n.make2) {
        case 0: std::tie(s.p, h.u) = pc::make_promise<T>(pc::canceler_arg, std::move(c)); break;
        case 1: std::tie(s.p, h.u) = pc::make_promise<T>(pc::canceler_arg, c); break;
        case 2:
          s.p = pc::promise<T>(pc::canceler_arg, std::move(c));
          h.u = s.p.get_future();
          break;
        default:
          s.p = pc::promise<T>(pc::canceler_arg, c);
          h.u = s.p.get_future();
        }
        RT_CHECK(!(n.make2 & 1) || (c.mem && *c.mem == n.idx), "a canceler given by its name was moved from");
        if (c.mem)
          *c.mem = -1; // nobody may look at it any more
      }
      }
    } else {
      switch (n.rk) {
      case Direct:
        s.t0 = pc::packaged_task<T()>(TaskFn<T, Direct>(&n, inner));
        h.u = s.t0.get_future();
        break;
      case UFut:
        s.t1 = pc::packaged_task<pc::future<T>()>(TaskFn<T, UFut>(&n, inner));
        h.u = s.t1.get_future();
        break;
      default:
        s.t2 = pc::packaged_task<pc::shared_future<T>()>(TaskFn<T, SFut>(&n, inner));
        h.s = s.t2.get_future();
      }
    }
    hs[0].push_back(std::move(h));
  }
  template <RetKind K> static void attach(Node &n, Hd<T> &h, bool shared, Hd<T> *inner, Hd<T> &out) {
    Ex e{n.idx, n.exec};
    auto put = [&](auto &&f) { store(out, std::move(f)); };
    if (n.kind == Then) {
      if (shared) {
        ThenFn<T, pc::shared_future<T>, K> f(&n, inner);
        if (n.exec < 0)
          put(h.s.then(std::move(f)));
        else
          put(h.s.then(e, std::move(f)));
      } else {
        ThenFn<T, pc::future<T>, K> f(&n, inner);
        if (n.exec < 0)
          put(h.u.then(std::move(f)));
        else
          put(h.u.then(e, std::move(f)));
      }
    } else {
      if (shared) {
        NextFn<T, std::conditional_t<std::is_same<T, V>::value, const V &, T>, K> f(&n, inner);
        if (n.exec < 0)
          put(h.s.next(std::move(f)));
        else
          put(h.s.next(e, std::move(f)));
      } else {
        NextFn<T, T, K> f(&n, inner);
        if (n.exec < 0)
          put(h.u.next(std::move(f)));
        else
          put(h.u.next(e, std::move(f)));
      }
    }
  }
  static void store(Hd<T> &o, pc::future<T> &&f) { o.u = std::move(f); }
  static void store(Hd<T> &o, pc::shared_future<T> &&f) { o.s = std::move(f); }

  Outcome read(int t, int slot) {
    Hd<T> &h = hs[t][slot];
    return g->slots[t][slot].shared ? Rd<T>::get(h.s) : Rd<T>::get(h.u);
  }
  void exec_op(int t, const Op &op) {
    Node *n = op.node >= 0 ? &g->nodes[op.node] : nullptr;
    bool sh = op.slot >= 0 && g->slots[t][op.slot].shared;
    Hd<T> none;
    Hd<T> *inner = op.inner_slot >= 0 ? &hs[t][op.inner_slot] : &none;
    Hd<T> out;
    switch (op.k) {
    case OSet: write(*n); return;
    case OGet: check_result(g->nodes[g->slots[t][op.slot].node], read(t, op.slot), "get()"); return;
    case OWait: {
      Hd<T> &h = hs[t][op.slot];
      const Node &m = g->nodes[g->slots[t][op.slot].node];
      sh ? h.s.wait() : h.u.wait();
      RT_CHECK(sh ? h.s.is_ready() : h.u.is_ready(), "wait() returned before node %d is ready", m.idx);
      check_deps(m, "wait()");
      return;
    }
    case OPoll: {
      Hd<T> &h = hs[t][op.slot];
      const Node &m = g->nodes[g->slots[t][op.slot].node];
      if (sh ? h.s.is_ready() : h.u.is_ready()) {
        check_deps(m, "is_ready()");
        if (sh) // ready stays ready and can be read at once
          check_result(m, Rd<T>::get(h.s), "get() after is_ready()");
        else
          h.u.wait();
      }
      return;
    }
    case OShare: out.s = hs[t][op.slot].u.share(); break;
    case OCopy: out.s = hs[t][op.slot].s; break;
    case OMove:
      if (sh)
        out.s = std::move(hs[t][op.slot].s);
      else
        out.u = std::move(hs[t][op.slot].u);
      break;
    case ODrop: {
      Hd<T> dead(std::move(hs[t][op.slot]));
      return;
    }
    case ODetach:
      if (sh)
        out.s = hs[t][op.slot].s.detach();
      else
        out.u = hs[t][op.slot].u.detach();
      break;
    case ONotify:
      if (sh) {
        if (n->exec < 0)
          hs[t][op.slot].s.notify(NoteFn(n));
        else
          hs[t][op.slot].s.notify(Ex{n->idx, n->exec}, NoteFn(n));
      } else {
        if (n->exec < 0)
          hs[t][op.slot].u.notify(NoteFn(n));
        else
          hs[t][op.slot].u.notify(Ex{n->idx, n->exec}, NoteFn(n));
      }
      return;
    case OThen:
      if (n->kind == Intr) {
        if (n->exec < 0)
          out.u = hs[t][op.slot].u.then(pc::inplace_executor, IntrFn<T>(n));
        else
          out.u = hs[t][op.slot].u.then(Ex{n->idx, n->exec}, IntrFn<T>(n));
      } else
        switch (n->rk) {
        case Direct: attach<Direct>(*n, hs[t][op.slot], sh, inner, out); break;
        case UFut: attach<UFut>(*n, hs[t][op.slot], sh, inner, out); break;
        default: attach<SFut>(*n, hs[t][op.slot], sh, inner, out);
        }
      break;
    case OAsync: {
      Ex e{n->idx, n->exec};
      switch (n->rk) {
      case Direct: out.u = pc::async(e, TaskFn<T, Direct>(n, inner)); break;
      case UFut: out.u = pc::async(e, TaskFn<T, UFut>(n, inner)); break;
      default: out.s = pc::async(e, TaskFn<T, SFut>(n, inner));
      }
      break;
    }
    default: return;
    }
    hs[t].push_back(std::move(out));
    RT_CHECK(int(hs[t].size()) - 1 == op.to, "harness: slot mismatch");
  }
  void go();
};

template <class T> void Run<T>::go() {
  Queue q;
  g_worker = &q;
  std::mutex dm;
  g_deferred_m = &dm;
  std::vector<std::pair<Ex, pc::unique_function<void()>>> deferred;
  g_deferred = &deferred;
  for (int &x : g_cur)
    x = -1;

  // sources, made by the main thread
  const int nsrc = 1 + int(rt::draw(PROFILE == 5 ? 4 : 3));
  g->nthreads = rt::draw(6) == 0 ? 1 : 2 + int(rt::draw(2));
  g->worker = rt::flip();
  std::vector<int> write_at[4];
  for (int i = 0; i < nsrc; ++i) {
    Node &n = new_node(rt::chance(1, 5) ? SrcTask : SrcPromise);
    n.writer = rt::chance(PROFILE == 8 || PROFILE == 9 ? 1 : 0, 6) ? -1 : 1 + int(rt::draw(g->nthreads));
    n.write = PROFILE == 6 ? int(rt::draw(4)) : rt::chance(1, 4) ? 1 + int(rt::draw(3)) : 0;
    n.make = PROFILE == 8 && rt::chance(1, 2) ? 3 : int(rt::draw(4));
    n.make2 = n.make == 3 ? int(rt::draw(4)) : 0;
    n.probes = rt::chance(1, 4);
    rt::cell_set(n.idx, 0);
    rt::cell_set(100 + n.idx, rt::chance(1, 3));
    Op op{};
    op.inner_slot = -1;
    if (n.kind == SrcTask)
      gen_fn(n, 0, &op);
    derive(n);
    Hd<T> none;
    make_source(n, op.inner_slot >= 0 ? &hs[0][op.inner_slot] : &none);
    add_slot(0, n.idx, n.shared_result);
    static const char *wr[] = {"value", "error", "abandon", "overwrite"};
    rt::trace("main: #%d = node %d = %s%s, %s by T%d%s", int(g->slots[0].size()) - 1, n.idx,
              n.kind == SrcTask ? "task that " : n.make == 3 ? "promise with canceler" : n.make == 2 ? "promise with allocator" : "promise",
              n.kind == SrcTask ? fn_text(n).c_str() : "", wr[n.write], n.writer, n.writer < 0 ? " (main, at the end)" : "");
    if (n.writer >= 0)
      write_at[n.writer].push_back(n.idx);
  }
  // operations of the main thread before the start
  {
    int k = rt::draw(4);
    for (int i = 0; i < k; ++i) {
      size_t before = g->ops[0].size();
      if (gen_op(0, false) && g->ops[0].size() > before) {
        const Op &o = g->ops[0].back();
        exec_op(0, o);
      }
    }
  }
  // hand the read ends out
  for (int i = 0; i < int(g->slots[0].size()); ++i) {
    Slot &s = g->slots[0][i];
    if (!s.live)
      continue;
    int to = int(rt::draw(g->nthreads + 1));
    if (!s.shared && rt::flip()) {
      // make it shared by several threads
      pc::shared_future<T> f = hs[0][i].u.share();
      s.live = false;
      int copies = 1 + int(rt::draw(3));
      for (int c = 0; c < copies; ++c) {
        int th = 1 + (to + c) % g->nthreads;
        add_slot(th, s.node, true);
        Hd<T> h;
        h.s = f;
        hs[th].push_back(std::move(h));
        rt::trace("T%d gets shared #%d (node %d)", th, int(g->slots[th].size()) - 1, s.node);
      }
    } else if (to > 0) {
      s.live = false;
      add_slot(to, s.node, s.shared);
      hs[to].push_back(std::move(hs[0][i]));
      rt::trace("T%d gets #%d (node %d)", to, int(g->slots[to].size()) - 1, s.node);
    }
  }
  for (int t = 1; t <= g->nthreads; ++t) {
    // writes come before anything that may block
    auto &wr = write_at[t];
    int k = rt::draw(PROFILE == 2 ? 3 : 6);
    for (;;) {
      if (!wr.empty() && (k <= 0 || rt::draw(3) == 0)) {
        Op op{};
        op.k = OSet;
        op.slot = op.to = op.inner_slot = -1;
        int pos = rt::draw(wr.size());
        op.node = wr[pos];
        wr.erase(wr.begin() + pos);
        g->ops[t].push_back(op);
        rt::trace("T%d: write node %d", t, op.node);
        continue;
      }
      if (k-- <= 0)
        break;
      gen_op(t, false);
    }
    k = rt::draw(4);
    for (int i = 0; i < k; ++i)
      gen_op(t, true);
  }
  compute_kept();
  bool need_worker = false;
  for (auto &n : g->nodes)
    need_worker |= n.exec == Worker;

  {
    std::vector<std::thread> th;
    std::thread worker;
    if (need_worker)
      worker = std::thread(worker_loop);
    for (int t = 1; t <= g->nthreads; ++t)
      th.emplace_back([this, t] {
        for (auto &op : g->ops[t])
          exec_op(t, op);
      });
    for (auto &x : th)
      x.join();
    for (auto &n : g->nodes)
      if (n.writer < 0 && (n.kind == SrcPromise || n.kind == SrcTask))
        write(n);
    if (need_worker) {
      // deferred tasks may post to the worker
      auto drain = [&] {
        bool any = false;
        while (!deferred.empty()) {
          any = true;
          auto t = std::move(deferred.back());
          {
            std::lock_guard<std::mutex> l(dm);
            deferred.pop_back();
          }
          if (t.first.mode == DeferRun)
            run_posted(t.first.node, std::move(t.second));
        }
        return any;
      };
      for (int i = 0; i < 40; ++i) {
        {
          std::lock_guard<std::mutex> l(q.m);
          q.closed = true;
          q.cv.notify_all();
        }
        worker.join();
        drain();
        if (q.q.empty())
          break;
        q.closed = false;
        worker = std::thread(worker_loop);
      }
    }
    while (!deferred.empty()) {
      auto t = std::move(deferred.back());
      deferred.pop_back();
      if (t.first.mode == DeferRun)
        run_posted(t.first.node, std::move(t.second));
    }
  }
  // everything has been written and run
  for (int t = 0; t <= g->nthreads; ++t)
    for (int i = 0; i < int(g->slots[t].size()); ++i) {
      Slot &s = g->slots[t][i];
      if (!s.live)
        continue;
      Node &n = g->nodes[s.node];
      Hd<T> &h = hs[t][i];
      RT_CHECK(s.shared ? h.s.valid() : h.u.valid(), "handle of node %d lost its state", n.idx);
      RT_CHECK(s.shared ? h.s.is_ready() : h.u.is_ready(), "node %d never becomes ready", n.idx);
      check_result(n, read(t, i), "final get()");
    }
  for (auto &x : hs)
    x.clear();
  srcs.clear();
  int blocked = 0, cancelled = 0;
  for (auto &n : g->nodes) {
    bool alive = n.notify ? g->nodes[n.parent].kept : n.kept;
    bool is_fn = n.kind != SrcPromise;
    if (is_fn) {
      if (alive)
        RT_CHECK(n.runs == int(n.expect_run), "function of node %d ran %d times, expected %d", n.idx, n.runs, int(n.expect_run));
      else
        RT_CHECK(n.runs <= int(n.expect_run), "function of node %d ran although it never should", n.idx);
      if (n.runs && !n.notify && n.parent >= 0 && n.parent < n.idx) {
        Outcome e = normalize(g->nodes[n.parent].expected);
        RT_CHECK(n.seen == e, "function of node %d saw %s, expected %s", n.idx, show(n.seen).c_str(), show(e).c_str());
      }
      if (!n.runs && n.expect_run)
        ++cancelled;
      if (n.exec >= 0 && (alive || n.kind == Async))
        RT_CHECK(n.posts == 1, "function of node %d was handed to its executor %d times", n.idx, n.posts);
    } else if (n.make == 3) {
      RT_CHECK(n.cancels <= 1, "canceler invoked %d times", n.cancels);
      if (n.kept)
        RT_CHECK(n.cancels == 0, "canceler invoked although a read end of node %d survived", n.idx);
      if (n.stored >= 0)
        RT_CHECK(n.cancels == !n.stored, "result %s but the canceler was invoked %d times", n.stored ? "stored" : "not stored", n.cancels);
      if (n.cancels)
        rt::label("canceler invoked");
      if (n.stored == 0)
        rt::label("result arrived too late");
    }
    if (n.kept && n.stored == 0)
      rt::fail("the result of node %d was not stored", n.idx);
  }
  (void)blocked;
  bool reads = false, attaches = false, drops = false, det = false, inner = false, ab = false, ex = false;
  for (int t = 1; t <= g->nthreads; ++t)
    for (auto &op : g->ops[t]) {
      reads |= op.k == OGet || op.k == OWait;
      attaches |= op.k == OThen || op.k == ONotify;
      drops |= op.k == ODrop;
      det |= op.k == ODetach;
    }
  for (auto &n : g->nodes) {
    inner |= n.inner >= 0 && n.runs;
    ab |= n.expected.k == Outcome::Broken && n.kept;
    ex |= n.exec >= 0 && n.posts;
  }
  bool sw = rt::preemptions() > 0;
  bool nt = false;
  switch (PROFILE) {
  case 2: nt = reads; break;
  case 3: nt = attaches; break;
  case 5: nt = inner; break;
  case 6: nt = ab && (reads || attaches); break;
  case 8: nt = drops && (cancelled || attaches); break;
  case 9: nt = det; break;
  case 13: nt = ex; break;
  default: nt = attaches && (drops || reads);
  }
  if (nt && sw)
    rt::nontrivial();
  if (sw) rt::label("with preemptions");
  if (reads) rt::label("blocking reads");
  if (attaches) rt::label("attaches in threads");
  if (drops) rt::label("drops in threads");
  if (cancelled) rt::label("function cancelled");
  if (inner) rt::label("unwrapped");
  if (ab) rt::label("broken promise observed");
  if (det) rt::label("detached");
}

const char *rule() {
  switch (PROFILE) {
  case 2: return "a thread other than main executed a blocking get()/wait() and the schedule had a preemption";
  case 3: return "a thread attached a function while the program was running and the schedule had a preemption";
  case 5: return "a function that returned a future ran and the schedule had a preemption";
  case 6: return "an observed result is broken_promise, a thread read or attached, and the schedule had a preemption";
  case 8: return "a thread dropped a read end and a function was cancelled or attached, with a preemption in the schedule";
  case 9: return "a thread detached a handle and the schedule had a preemption";
  case 13: return "a task went through an executor and the schedule had a preemption";
  default: return "a thread attached a function and a thread dropped or read a handle, with a preemption in the schedule";
  }
}
} // namespace

extern "C" const char *harness_name() {
  static std::string n = "conc_p" + std::to_string(PROFILE);
  return n.c_str();
}
extern "C" const char *harness_rule() { return rule(); }
void run_case() {
  Prog p;
  g = &p;
  for (int i = 0; i < 512; ++i)
    g_objs[i].id = i;
  rt::allow_spurious(rt::chance(1, 4));
  switch (rt::draw(4)) {
  case 0:
  case 1: {
    rt::trace("payload: move-only object");
    Run<V> r;
    r.go();
    break;
  }
  case 2: {
    rt::trace("payload: void");
    Run<void> r;
    r.go();
    break;
  }
  default: {
    rt::trace("payload: reference");
    Run<Obj &> r;
    r.go();
  }
  }
  g = nullptr;
}
