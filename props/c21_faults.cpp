// C21: failures injected into one operation at a time (allocation, copy and
// move constructors of values, functions, executors and arguments); afterwards
// everything that was set up before must still work.
#include "common.h"
#include <portable_concurrency/functional>
#include <portable_concurrency/future>
#include <portable_concurrency/latch>
#include <portable_concurrency/thread_pool>
#include <portable_concurrency/timed_waiter>
#include <new>

HARNESS("c21_faults", "an injected failure hit an operation of the library")

namespace {
enum { LiveVal = 0, LiveFn, LiveExec, Runs = 16, MaxFn = 256 };

struct Boom {
  int id;
};
// the nth copy/move of a bomb type in this thread from now on throws
int g_copy = 0, g_move = 0, g_blasts = 0;
void on_copy() {
  if (g_copy > 0 && --g_copy == 0) {
    ++g_blasts;
    throw Boom{1};
  }
}
void on_move() {
  if (g_move > 0 && --g_move == 0) {
    ++g_blasts;
    throw Boom{2};
  }
}

struct Val { // copies and moves may throw
  int id;
  unsigned magic = 0x51515151;
  explicit Val(int i) : id(i) { rt::cell_add(LiveVal, 1); }
  Val(const Val &o) : id(o.id) {
    o.check();
    on_copy();
    rt::cell_add(LiveVal, 1);
  }
  Val(Val &&o) : id(o.id) {
    o.check();
    on_move();
    o.id = -1;
    rt::cell_add(LiveVal, 1);
  }
  Val &operator=(const Val &) = delete;
  ~Val() {
    check();
    magic = 0;
    rt::cell_add(LiveVal, -1);
  }
  void check() const { RT_CHECK(magic == 0x51515151, "a value is used outside of its lifetime"); }
};

// a function that may fail to be copied, but not to be moved
struct Fn {
  int slot;
  unsigned magic = 0x52525252;
  explicit Fn(int s) : slot(s) { rt::cell_add(LiveFn, 1); }
  Fn(const Fn &o) : slot(o.slot) {
    o.check();
    on_copy();
    rt::cell_add(LiveFn, 1);
  }
  Fn(Fn &&o) noexcept : slot(o.slot) {
    o.check();
    o.slot = -1;
    rt::cell_add(LiveFn, 1);
  }
  Fn &operator=(const Fn &) = delete;
  ~Fn() {
    check();
    magic = 0;
    rt::cell_add(LiveFn, -1);
  }
  void check() const { RT_CHECK(magic == 0x52525252, "a function is used outside of its lifetime"); }
  template <class... A> int operator()(A &&...) {
    check();
    RT_CHECK(slot >= 0, "a moved-from function is called");
    rt::cell_add(Runs + slot, 1);
    return slot;
  }
};
struct VoidFn : Fn { // for notifications
  using Fn::Fn;
  template <class... A> void operator()(A &&...a) { Fn::operator()(std::forward<A>(a)...); }
};
struct BigFn : VoidFn { // needs heap memory in a unique_function
  using VoidFn::VoidFn;
  char pad[64] = {};
};
struct Arg {
  int id;
  explicit Arg(int i) : id(i) {}
  Arg(const Arg &o) : id(o.id) { on_copy(); }
  Arg(Arg &&o) noexcept : id(o.id) {}
};

int g_slot; // next function
std::vector<int> *g_expect; // expected number of runs per function
int new_fn(int runs) {
  int s = g_slot++;
  RT_CHECK(s < MaxFn, "too many functions");
  rt::cell_set(Runs + s, 0);
  g_expect->push_back(runs);
  return s;
}
void refused(int slot) { (*g_expect)[slot] = 0; }

// an executor with its own queue, copies may fail
struct Queue {
  std::vector<std::unique_ptr<pc::unique_function<void()>>> q;
  void run() {
    while (!q.empty()) {
      auto t = std::move(q.front());
      q.erase(q.begin());
      (*t)();
    }
  }
};
struct Ex {
  Queue *q;
  explicit Ex(Queue *x) : q(x) { rt::cell_add(LiveExec, 1); }
  Ex(const Ex &o) : q(o.q) {
    on_copy();
    rt::cell_add(LiveExec, 1);
  }
  Ex(Ex &&o) noexcept : q(o.q) { rt::cell_add(LiveExec, 1); }
  ~Ex() { rt::cell_add(LiveExec, -1); }
};
template <class F> void post(const Ex &e, F f) {
  int left = rt::fail_alloc_left(); // user code
  rt::fail_alloc_at(0);
  e.q->q.push_back(std::make_unique<pc::unique_function<void()>>(std::move(f)));
  rt::fail_alloc_at(left);
}
} // namespace
namespace portable_concurrency {
template <> struct is_executor<Ex> : std::true_type {};
} // namespace portable_concurrency
namespace {

struct Fault {
  int alloc = 0, copy = 0, move = 0;
};
Fault gen_fault(bool copies, bool moves = false) {
  Fault f;
  switch (rt::draw(copies ? moves ? 4 : 3 : 2)) {
  case 0: break;
  case 1: f.alloc = 1 + int(rt::draw(4)); break;
  case 2: f.copy = 1 + int(rt::draw(2)); break;
  default: f.move = 1 + int(rt::draw(2));
  }
  return f;
}
int g_hits;
// performs op under the fault; true: it failed
template <class Op> bool faulty(Fault f, const char *what, Op &&op) {
  rt::trace("%s%s%s%s%d", what, f.alloc ? " allocation fails: " : "", f.copy ? " copy fails: " : "", f.move ? " move fails: " : "",
            f.alloc + f.copy + f.move);
  auto faults = rt::alloc_faults();
  int blasts = g_blasts;
  int res = 0;
  g_copy = f.copy;
  g_move = f.move;
  rt::fail_alloc_at(f.alloc);
  try {
    op();
    rt::fail_alloc_at(0);
  } catch (const std::bad_alloc &) {
    rt::fail_alloc_at(0);
    res = 1;
  } catch (const Boom &) {
    rt::fail_alloc_at(0);
    res = 2;
  }
  g_copy = g_move = 0;
  bool alloc_hit = rt::alloc_faults() != faults, blast = g_blasts != blasts;
  RT_CHECK(res != 1 || alloc_hit, "%s throws bad_alloc without a reason", what);
  RT_CHECK(res != 2 || blast, "%s throws without a reason", what);
  // (an operation may also recover from a failed allocation and succeed)
  RT_CHECK(res != 0 || !blast, "%s: the exception of the constructor does not reach the caller", what);
  if (alloc_hit || blast) {
    ++g_hits;
    rt::label(alloc_hit ? "allocation failed" : f.copy ? "copy failed" : "move failed");
  }
  return res != 0;
}

template <class X> using PF = std::pair<pc::promise<X>, pc::future<X>>;
template <class X> PF<X> make_source() {
  switch (rt::draw(3)) {
  case 0: return pc::make_promise<X>();
  case 1: return pc::make_promise<X>(std::allocator<char>{});
  default: return pc::make_promise<X>(pc::canceler_arg, [] {});
  }
}

// --- storing a value fails -----------------------------------------------------
void store() {
  auto pf = make_source<Val>();
  pc::promise<Val> p = std::move(pf.first);
  bool shared = rt::flip();
  pc::future<Val> f = std::move(pf.second);
  std::vector<int> notif;
  int n = rt::draw(3);
  for (int i = 0; i < n; ++i) {
    notif.push_back(new_fn(1));
    f.notify(VoidFn(notif.back()));
  }
  pc::shared_future<Val> sf;
  pc::future<int> cnt;
  if (shared) {
    sf = f.share();
    if (rt::flip())
      cnt = sf.then([](pc::shared_future<Val> x) {
        try {
          return x.get().id;
        } catch (const Boom &b) {
          return -b.id;
        } catch (const std::future_error &) {
          return -100;
        }
      });
  }
  int tries = rt::draw(3);
  bool stored = false;
  int id = 7;
  for (int t = 0; t < tries && !stored; ++t) {
    bool lv = rt::flip();
    id = 10 + t;
    Val v(id);
    Fault ft = gen_fault(true, !lv);
    ft.alloc = 0; // continuations run inside of set_value
    stored = !faulty(ft, lv ? "set_value(const T&)" : "set_value(T&&)", [&] {
      if (lv)
        p.set_value(static_cast<const Val &>(v));
      else
        p.set_value(std::move(v));
    });
    bool ready = shared ? sf.is_ready() : f.is_ready();
    RT_CHECK(ready == stored, "after %s set_value the future is %s", stored ? "a successful" : "a failed", ready ? "ready" : "not ready");
    RT_CHECK(p.is_awaiten(), "nobody waits for a promise after set_value");
    for (int s : notif)
      RT_CHECK(rt::cell_get(Runs + s) == (stored ? 1 : 0), "a notification ran %d times", int(rt::cell_get(Runs + s)));
  }
  int end = stored ? 0 : 1 + int(rt::draw(3));
  switch (end) {
  case 1: id = 99; p.set_value(Val(id)); break;
  case 2: p.set_exception(std::make_exception_ptr(Boom{3})); break;
  case 3: { pc::promise<Val> q = std::move(p); } break;
  default: break;
  }
  rt::trace("end %d", end);
  int got;
  try {
    got = shared ? sf.get().id : f.get().id;
  } catch (const Boom &b) {
    got = -b.id;
  } catch (const std::future_error &e) {
    RT_CHECK(e.code() == std::future_errc::broken_promise, "wrong error");
    got = -100;
  }
  int want = end == 2 ? -3 : end == 3 ? -100 : id;
  RT_CHECK(got == want, "the future yields %d, expected %d", got, want);
  if (cnt.valid()) {
    RT_CHECK(cnt.is_ready(), "the continuation did not run");
    RT_CHECK(cnt.get() == want, "the continuation saw something else");
  }
}
void ready_made() {
  Val v(5);
  pc::future<Val> f;
  bool lv = rt::flip();
  if (faulty(gen_fault(true, !lv), "make_ready_future", [&] { f = lv ? pc::make_ready_future(v) : pc::make_ready_future(std::move(v)); })) {
    RT_CHECK(!f.valid(), "make_ready_future throws and returns");
  } else {
    RT_CHECK(f.is_ready() && f.get().id == 5, "make_ready_future yields something else");
  }
}

// --- attaching fails --------------------------------------------------------------
void attach() {
  Queue q;
  Ex ex(&q);
  auto pf = make_source<int>();
  bool shared = rt::flip(), pre = rt::chance(1, 4);
  pc::future<int> f = std::move(pf.second);
  pc::shared_future<int> sf;
  if (shared)
    sf = f.share();
  if (pre)
    pf.first.set_value(1);
  std::vector<pc::future<int>> results;
  std::vector<int> slots;
  std::vector<int> earlier;
  auto survivor = [&] { // attached before or after the failure
    if (!shared && !f.valid())
      return;
    int s = new_fn(1);
    earlier.push_back(s);
    if (shared)
      sf.notify(VoidFn(s));
    else
      f.notify(VoidFn(s));
  };
  survivor();
  int n = 1 + rt::draw(4);
  for (int i = 0; i < n; ++i) {
    if (!shared && !f.valid())
      break;
    int s = new_fn(1);
    bool failed = false;
    pc::future<int> r;
    int k = rt::draw(6);
    static const char *nm[] = {"notify", "notify(executor)", "then", "then(executor)", "next", "next(executor)"};
    {
      VoidFn nf(s);
      Fn fn(s);
      failed = faulty(gen_fault(true), nm[k], [&] {
        switch (k) {
        case 0: shared ? sf.notify(nf) : f.notify(nf); break;
        case 1: shared ? sf.notify(ex, nf) : f.notify(ex, nf); break;
        case 2: r = shared ? sf.then(fn) : f.then(fn); break;
        case 3: r = shared ? sf.then(ex, fn) : f.then(ex, fn); break;
        case 4: r = shared ? sf.next(fn) : f.next(fn); break;
        default: r = shared ? sf.next(ex, fn) : f.next(ex, fn);
        }
      });
    }
    if (failed) {
      refused(s);
      RT_CHECK(!r.valid(), "a failed %s returns a future", nm[k]);
      if (shared || k < 2)
        RT_CHECK(shared ? sf.valid() : f.valid(), "a failed %s invalidates the future", nm[k]);
      else if (!f.valid() && !pre) // consumed: as if the only read end were destroyed
        for (int e : earlier)
          refused(e);
    } else if (k < 2) {
      earlier.push_back(s);
    } else {
      RT_CHECK(shared ? sf.valid() : !f.valid(), "%s leaves the wrong validity", nm[k]);
      results.push_back(std::move(r));
      slots.push_back(s);
    }
    if (rt::flip())
      survivor();
  }
  // misc. operations which may also fail, but do not change anything
  if (shared || f.valid()) {
    if (rt::flip()) {
      pc::timed_waiter tw;
      bool failed = faulty(gen_fault(false), "timed_waiter", [&] { tw = shared ? pc::timed_waiter(sf) : pc::timed_waiter(f); });
      RT_CHECK(shared ? sf.valid() : f.valid(), "timed_waiter invalidates the future");
      if (!failed)
        RT_CHECK(tw.wait_for(std::chrono::milliseconds(0)) == (pre ? pc::future_status::ready : pc::future_status::timeout), "timed_waiter is wrong");
    }
    if (rt::flip()) {
      pc::future_status st{};
      bool failed = faulty(gen_fault(false), "wait_for", [&] {
        st = shared ? sf.wait_for(std::chrono::milliseconds(1)) : f.wait_for(std::chrono::milliseconds(1));
      });
      if (!failed)
        RT_CHECK(st == (pre ? pc::future_status::ready : pc::future_status::timeout), "wait_for is wrong");
    }
  }
  if (!pre)
    pf.first.set_value(1);
  q.run();
  for (size_t i = 0; i < results.size(); ++i) {
    RT_CHECK(results[i].is_ready(), "a continuation attached successfully did not produce its result");
    RT_CHECK(results[i].get() == slots[i], "a continuation yields something else");
  }
  if (shared)
    RT_CHECK(sf.get() == 1, "the shared_future yields something else");
  else if (f.valid())
    RT_CHECK(f.get() == 1, "the future yields something else");
}

// --- creating tasks fails -------------------------------------------------------------
void tasks() {
  Queue q;
  Ex ex(&q);
  int s = new_fn(1);
  switch (rt::draw(4)) {
  case 0: {
    Fn fn(s);
    pc::packaged_task<int()> t;
    bool failed = faulty(gen_fault(true), "packaged_task", [&] { t = pc::packaged_task<int()>(fn); });
    if (failed) {
      refused(s);
      RT_CHECK(!t.valid(), "an assignment that did not happen");
    } else {
      auto f = t.get_future();
      t();
      RT_CHECK(f.get() == s, "the task yields something else");
    }
    break;
  }
  case 1: {
    Fn fn(s);
    Arg a(3);
    pc::future<int> f;
    bool failed = faulty(gen_fault(true), "async", [&] {
      f = pc::async(
          ex, [](Fn &x, const Arg &y) { return x(y); }, std::ref(fn), a);
    });
    if (failed)
      refused(s);
    else {
      q.run();
      RT_CHECK(f.get() == s, "async yields something else");
    }
    RT_CHECK(q.q.empty(), "a failed async leaves a task behind");
    break;
  }
  case 2: {
    Fn fn(s);
    pc::future<int> f;
    bool failed = faulty(gen_fault(true), "async", [&] { f = pc::async(ex, fn, 1, Arg(2)); });
    if (failed)
      refused(s);
    else {
      q.run();
      RT_CHECK(f.get() == s, "async yields something else");
    }
    break;
  }
  default: {
    BigFn fn(s);
    pc::unique_function<void()> u([] {});
    bool failed = faulty(gen_fault(true), "unique_function", [&] { u = pc::unique_function<void()>(fn); });
    if (failed) {
      refused(s);
      RT_CHECK(bool(u), "a failed construction empties another function");
    }
    u();
  }
  }
}

// --- combining fails -----------------------------------------------------------------
template <bool Any> struct Comb;
template <> struct Comb<false> {
  template <class... A> static auto make(A &&...a) { return pc::when_all(std::forward<A>(a)...); }
  template <class X> static X &seq(X &x) { return x; }
};
template <> struct Comb<true> {
  template <class... A> static auto make(A &&...a) { return pc::when_any(std::forward<A>(a)...); }
  template <class X> static auto &seq(X &x) { return x.futures; }
};
template <bool Any> void combine() {
  int n = 1 + rt::draw(4);
  std::vector<pc::promise<int>> ps;
  std::vector<pc::future<int>> fs;
  std::vector<pc::shared_future<int>> ss;
  std::vector<char> done(n, 0);
  bool shared = rt::flip();
  std::vector<pc::future<int>> conts;
  for (int i = 0; i < n; ++i) {
    auto pf = make_source<int>();
    ps.push_back(std::move(pf.first));
    pf.second.notify(VoidFn(new_fn(1)));
    if (shared) {
      ss.push_back(pf.second.share());
      if (rt::flip())
        conts.push_back(ss.back().next([](int v) { return v; }));
      else
        conts.emplace_back();
    } else
      fs.push_back(std::move(pf.second));
    if (rt::chance(1, 5)) {
      ps.back().set_value(100 + i);
      done[i] = 1;
    }
  }
  auto complete = [&](int i) {
    if (done[i])
      return;
    done[i] = 1;
    ps[i].set_value(100 + i);
  };
  auto check = [&](auto &res) {
    int ready = 0;
    for (char d : done)
      ready += d;
    RT_CHECK(res.is_ready() == (Any ? ready > 0 : ready == n), "the combined future is %s with %d of %d ready", res.is_ready() ? "ready" : "not ready",
             ready, n);
  };
  auto finish = [&](auto &res) {
    check(res);
    for (int i = n - 1; i >= 0; --i) {
      complete(i);
      check(res);
    }
    auto r = res.get();
    auto &seq = Comb<Any>::seq(r);
    RT_CHECK(int(seq.size()) == n, "wrong number of futures");
    for (int i = 0; i < n; ++i)
      RT_CHECK(seq[i].get() == 100 + i, "wrong future");
  };
  int kind = rt::draw(3);
  rt::trace("%s of %d %s", Any ? "when_any" : "when_all", n, shared ? "shared" : "unique");
  if (shared) {
    pc::future<std::conditional_t<Any, pc::when_any_result<std::vector<pc::shared_future<int>>>, std::vector<pc::shared_future<int>>>> res;
    std::vector<pc::shared_future<int>> arg = ss;
    bool failed = faulty(gen_fault(false), "combine", [&] {
      if (kind == 0)
        res = Comb<Any>::make(arg.begin(), arg.end());
      else if (kind == 1)
        res = Comb<Any>::make(std::move(arg));
      else
        res = Comb<Any>::make(arg);
    });
    if (kind != 1)
      for (int i = 0; i < n; ++i)
        RT_CHECK(arg[i].valid(), "a copied shared_future becomes invalid");
    arg.clear();
    if (failed) {
      for (int i = 0; i < n; ++i)
        complete(i);
    } else
      finish(res);
    for (int i = 0; i < n; ++i) {
      RT_CHECK(ss[i].valid() && ss[i].is_ready() && ss[i].get() == 100 + i, "an input does not work any more");
      if (conts[i].valid())
        RT_CHECK(conts[i].is_ready() && conts[i].get() == 100 + i, "another continuation of an input is lost");
    }
  } else if (kind < 2) {
    pc::future<std::conditional_t<Any, pc::when_any_result<std::vector<pc::future<int>>>, std::vector<pc::future<int>>>> res;
    bool failed = faulty(gen_fault(false), "combine", [&] {
      if (kind == 0)
        res = Comb<Any>::make(fs.begin(), fs.end());
      else
        res = Comb<Any>::make(std::move(fs));
    });
    if (failed) {
      for (int i = 0; i < n; ++i) {
        // inputs that were not consumed yet still work; the result of the others is ignored
        if (i < int(fs.size()) && fs[i].valid()) {
          complete(i);
          RT_CHECK(fs[i].is_ready() && fs[i].get() == 100 + i, "an input does not work any more");
        } else if (ps[i].is_awaiten()) {
          complete(i);
        } else if (!done[i])
          refused((*g_expect).size() - n + i); // read end gone: the notification is dropped
      }
    } else
      finish(res);
  } else {
    auto a = std::move(fs[0]);
    auto b = pc::make_ready_future(5).share();
    auto b2 = b;
    pc::future<std::conditional_t<Any, pc::when_any_result<std::tuple<pc::future<int>, pc::shared_future<int>>>,
                                  std::tuple<pc::future<int>, pc::shared_future<int>>>>
        res;
    bool failed = faulty(gen_fault(false), "combine", [&] { res = Comb<Any>::make(std::move(a), b); });
    RT_CHECK(b.valid() && b.get() == 5 && b2.get() == 5, "an input does not work any more");
    for (int i = 0; i < n; ++i) {
      if (failed && i == 0 && !a.valid() && !ps[0].is_awaiten() && !done[0])
        refused((*g_expect).size() - n);
      else
        complete(i);
    }
    if (!failed) {
      auto r = res.get();
      auto &seq = Comb<Any>::seq(r);
      RT_CHECK(std::get<0>(seq).get() == 100 && std::get<1>(seq).get() == 5, "wrong future");
    } else if (a.valid())
      RT_CHECK(a.get() == 100, "an input does not work any more");
  }
}

// --- thread pools ---------------------------------------------------------------------
void pool() {
  int n = 1 + rt::draw(3);
  std::unique_ptr<pc::static_thread_pool> p;
  Fault ff;
  if (rt::flip())
    ff.alloc = 1 + int(rt::draw(n + 3));
  std::aligned_storage_t<sizeof(pc::static_thread_pool), alignof(pc::static_thread_pool)> buf;
  pc::static_thread_pool *raw = nullptr;
  bool failed = faulty(ff, "static_thread_pool", [&] { raw = new (&buf) pc::static_thread_pool(n); });
  if (failed)
    return;
  struct Out {
    pc::static_thread_pool *p;
    ~Out() { p->~static_thread_pool(); }
  } out{raw};
  int tasks = 1 + rt::draw(24);
  std::vector<pc::future<int>> fs;
  std::vector<int> slots;
  int src_slot = -1;
  auto pf = pc::make_promise<int>();
  pc::shared_future<int> sf = pf.second.share();
  if (rt::flip())
    pf.first.set_value(1);
  for (int i = 0; i < tasks; ++i) {
    int s = new_fn(1);
    Fault f = rt::chance(1, 3) ? gen_fault(true) : Fault{};
    bool failed2;
    switch (rt::draw(4)) {
    case 0: {
      BigFn fn(s);
      failed2 = faulty(f, "post", [&] { post(raw->executor(), fn); });
      break;
    }
    case 1: {
      VoidFn fn(s);
      failed2 = faulty(f, "post", [&] { post(raw->executor(), fn); });
      break;
    }
    case 2: {
      Fn fn(s);
      pc::future<int> r;
      failed2 = faulty(f, "async(pool)", [&] { r = pc::async(raw->executor(), fn); });
      if (!failed2) {
        fs.push_back(std::move(r));
        slots.push_back(s);
      }
      break;
    }
    default: {
      Fn fn(s);
      pc::future<int> r;
      failed2 = faulty(f, "then(pool)", [&] { r = sf.then(raw->executor(), fn); });
      if (!failed2) {
        fs.push_back(std::move(r));
        slots.push_back(s);
      }
    }
    }
    if (failed2)
      refused(s);
  }
  (void)src_slot;
  if (!sf.is_ready())
    pf.first.set_value(1);
  for (size_t i = 0; i < fs.size(); ++i)
    RT_CHECK(fs[i].get() == slots[i], "a task yields something else");
  raw->wait();
}

// --- a failing attachment among concurrent ones -----------------------------------
void racing() {
  auto pf = pc::make_promise<int>();
  pc::shared_future<int> sf = pf.second.share();
  int s1 = new_fn(1), s2 = new_fn(1), s3 = new_fn(1);
  bool failed = false;
  std::thread writer([&] { pf.first.set_value(1); });
  std::thread reader([sf, s1]() mutable {
    sf.notify(VoidFn(s1));
    sf.wait();
  });
  {
    auto f = sf.next([s2](int) { return Fn(s2)(); });
    VoidFn fn(s3);
    failed = faulty(gen_fault(true), "racing notify", [&] { sf.notify(fn); });
    if (failed)
      refused(s3);
    bool w = faulty(gen_fault(false), "racing wait", [&] { sf.wait(); });
    if (!w)
      RT_CHECK(sf.is_ready(), "wait() returns too early");
    RT_CHECK(f.get() == s2, "a continuation yields something else");
  }
  writer.join();
  reader.join();
}

#if defined(PC_HAS_COROUTINES)
pc::future<int> coro(pc::future<int> a, Fault f, bool guard, int slot, bool &failed) {
  Fn fn(slot);
  int v = -1;
  auto before = rt::alloc_faults();
  rt::fail_alloc_at(f.alloc);
  try {
    v = co_await a;
    rt::fail_alloc_at(0);
  } catch (const std::bad_alloc &) {
    rt::fail_alloc_at(0);
    RT_CHECK(rt::alloc_faults() != before, "co_await throws bad_alloc without a reason");
    failed = true;
    ++g_hits;
    rt::label("co_await failed");
    if (!guard)
      throw;
  }
  fn();
  co_return v;
}
void coroutine() {
  auto pf = make_source<int>();
  bool pre = rt::chance(1, 3), guard = rt::flip(), failed = false;
  if (pre)
    pf.first.set_value(4);
  int s = new_fn(1);
  pc::future<int> r;
  Fault inner;
  inner.alloc = rt::draw(3);
  Fault outer = inner.alloc ? Fault{} : gen_fault(false);
  if (outer.alloc) {
    // creation of the coroutine fails
    bool res = faulty(outer, "coroutine", [&] { r = coro(std::move(pf.second), inner, guard, s, failed); });
    if (res) {
      refused(s);
      RT_CHECK(!r.valid(), "a failed call returns a future");
      return;
    }
  } else {
    r = coro(std::move(pf.second), inner, guard, s, failed);
    rt::fail_alloc_at(0);
  }
  rt::trace("coroutine: await allocation %d, %s, %s", inner.alloc, guard ? "caught" : "not caught", pre ? "ready" : "pending");
  if (!pre) {
    RT_CHECK(r.is_ready() == failed, "the coroutine is %s", failed ? "stuck" : "finished too early");
    pf.first.set_value(4);
    rt::fail_alloc_at(0);
  }
  RT_CHECK(r.is_ready(), "the coroutine did not finish");
  int got = 0;
  try {
    got = r.get();
  } catch (const std::bad_alloc &) {
    got = -7;
  }
  RT_CHECK(got == (failed ? guard ? -1 : -7 : 4), "the coroutine yields %d", got);
  if (failed && !guard)
    refused(s);
}
#endif
} // namespace

void run_case() {
  for (int i = 0; i < 16; ++i)
    rt::cell_set(i, 0);
  g_slot = g_hits = g_copy = g_move = g_blasts = 0;
  std::vector<int> expect;
  g_expect = &expect;
  int n = 1 + rt::draw(2);
  for (int i = 0; i < n; ++i) {
    size_t base = expect.size();
    (void)base;
    switch (rt::draw(16)) {
    case 0: case 1: case 2: store(); break;
    case 3: ready_made(); break;
    case 4: case 5: case 6: attach(); break;
    case 7: tasks(); break;
    case 8: case 9: combine<false>(); break;
    case 10: case 11: combine<true>(); break;
    case 12: racing(); break;
    case 13: case 14:
#if defined(PC_HAS_COROUTINES)
      coroutine();
      break;
#endif
    default: pool();
    }
  }
  for (size_t s = 0; s < expect.size(); ++s)
    RT_CHECK(rt::cell_get(Runs + s) == expect[s], "function %zu ran %d times, expected %d", s, int(rt::cell_get(Runs + s)), expect[s]);
  static const char *nm[] = {"value", "function", "executor"};
  for (int i = 0; i < 3; ++i)
    RT_CHECK(rt::cell_get(i) == 0, "%d instances of a %s are left", int(rt::cell_get(i)), nm[i]);
  if (g_hits)
    rt::nontrivial();
}
