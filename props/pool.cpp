// C15/C16: generated programs over one static_thread_pool.
#include "common.h"
#include <deque>
#include <portable_concurrency/functional>
#include <portable_concurrency/future>
#include <portable_concurrency/thread_pool>

#ifndef PROFILE
#define PROFILE 15
#endif

namespace {
struct Task;
struct Event { // harness side event
  std::mutex m;
  std::condition_variable cv;
  bool set = false;
  void signal() {
    std::lock_guard<std::mutex> l(m);
    set = true;
    cv.notify_all();
  }
  void wait() {
    std::unique_lock<std::mutex> l(m);
    cv.wait(l, [&] { return set; });
  }
};
enum Cell { WaitCalled = 900, StopReturned, WaitReturned, Destroyed, DtorEntered };
struct Spec {
  int id = 0;
  int parent = -1;           // posting task, -1: a thread
  int poster = 0;            // thread posting it (0 main)
  std::vector<int> children; // posted while running
  int via = 0;               // 0 post, 1 async
  int waits = -1, signals = -1;
  bool stops = false;   // calls stop() while running
  bool sleeps = false;  // until every other thread sleeps or is blocked
  int promise = 0;      // 1 owned and fulfilled, 2 owned and dropped
  bool chain = false;   // the owned promise's future continues on the pool
  bool big = false;     // too big for the small buffer
  // observed
  int in = 0, out = 0;
  int runs = 0;
  bool posted_before_wait = false, posted_after_close = false, posted = false;
  int chain_runs = 0;
  pc::future<int> fut, res, cont;
};
struct World {
  std::deque<Spec> tasks;
  pc::static_thread_pool *pool = nullptr;
  Event ev[4], gate;
  int alive_fn = 0;
};
World *w;
int no_more[16];

struct Fn {
  int *mem;
  Spec *s;
  pc::promise<int> p;
  char pad[1];
  Fn(Spec *x, pc::promise<int> &&pr) : mem(new int(x->id)), s(x), p(std::move(pr)) { rt::cell_add(s->id, 1); }
  Fn(Fn &&o) noexcept : mem(o.mem), s(o.s), p(std::move(o.p)) { o.mem = nullptr; }
  ~Fn() {
    if (mem)
      rt::cell_add(s->id, -1);
    delete mem;
  }
  void operator()();
};
struct SmallFn { // fits into the small buffer of unique_function
  std::unique_ptr<Fn> f;
  void operator()() { (*f)(); }
};
void post_task(Spec &s);

void Fn::operator()() {
  RT_CHECK(mem && *mem == s->id, "a moved-from task is run");
  RT_CHECK(!rt::cell_get(Destroyed), "task %d runs after the pool has been destroyed", s->id);
  RT_CHECK(!no_more[rt::self()], "thread %d starts task %d although the pool was stopped while it was busy", rt::self(), s->id);
  RT_CHECK(!s->posted_after_close, "task %d, posted after the pool was closed, runs", s->id);
  ++s->runs;
  RT_CHECK(s->runs == 1, "task %d runs %d times", s->id, s->runs);
  RT_CHECK(s->in == 100 + s->id, "what was done before posting is not visible to the task");
  if (s->waits >= 0)
    w->ev[s->waits].wait();
  if (s->signals >= 0)
    w->ev[s->signals].signal();
  for (int c : s->children)
    post_task(w->tasks[c]);
  if (s->stops) {
    w->pool->stop();
    rt::cell_set(StopReturned, 1);
    rt::label("stopped by a task");
  }
  if (s->promise == 1)
    p.set_value(s->id);
  s->out = 200 + s->id;
  if (s->sleeps) {
    std::this_thread::sleep_for(std::chrono::hours(24));
    // the thread destroying the pool is waiting for this task, nothing else can hold it up
    if (rt::cell_get(DtorEntered)) {
      rt::label("task running across the destructor's stop");
      no_more[rt::self()] = 1;
    }
  }
  if (rt::cell_get(StopReturned))
    no_more[rt::self()] = 1;
}

void post_task(Spec &s) {
  s.in = 100 + s.id;
  bool closed = rt::cell_get(StopReturned) || rt::cell_get(WaitReturned);
  s.posted_after_close = closed;
  std::unique_ptr<Fn> f;
  pc::promise<int> p = std::move(pc::make_promise<int>().first);
  if (s.promise) {
    std::tie(p, s.fut) = pc::make_promise<int>();
    if (s.chain)
      s.cont = s.fut.then(w->pool->executor(), [&s](pc::future<int>) {
        RT_CHECK(!rt::cell_get(Destroyed), "a continuation runs after the pool has been destroyed");
        ++s.chain_runs;
        return 1;
      });
  }
  Fn fn(&s, std::move(p));
  if (s.via == 1) {
    if (s.big)
      s.res = pc::async(w->pool->executor(), [fn = std::move(fn)]() mutable {
        fn();
        return 5;
      });
    else
      s.res = pc::async(w->pool->executor(), [fn = std::make_unique<Fn>(std::move(fn))] {
        (*fn)();
        return 5;
      });
  } else if (s.big)
    post(w->pool->executor(), std::move(fn));
  else
    post(w->pool->executor(), SmallFn{std::make_unique<Fn>(std::move(fn))});
  // the child may have been executed already: only the bookkeeping of the poster
  rt::cell_set(100 + s.id, 1 + (rt::cell_get(WaitCalled) == 0));
}
} // namespace

void run_case() {
  World world;
  w = &world;
  for (int &x : no_more)
    x = 0;
  for (int i : {WaitCalled, StopReturned, WaitReturned, Destroyed, DtorEntered})
    rt::cell_set(i, 0);
  rt::allow_spurious(rt::chance(1, 4));
  const bool P16 = PROFILE == 16;
  const int attached = int(rt::draw(3));
  // a pool without workers of its own lives on its attached threads
  const int workers = P16 || attached ? int(rt::draw(4)) : 1 + int(rt::draw(3));
  const int posters = int(rt::draw(3));
  const int ntasks = int(rt::draw(8));
  rt::trace("pool of %d workers, %d attached threads, %d posting threads", workers, attached, posters);
  int blocking = 0;
  for (int i = 0; i < ntasks; ++i) {
    world.tasks.emplace_back();
    Spec &s = world.tasks.back();
    s.id = i;
    rt::cell_set(i, 0);
    rt::cell_set(100 + i, 0);
    if (i > 0 && rt::chance(1, 3)) {
      s.parent = int(rt::draw(i));
      world.tasks[s.parent].children.push_back(i);
    } else
      s.poster = posters ? int(rt::draw(posters + 1)) : 0;
    s.via = rt::chance(1, 3);
    s.big = rt::flip();
    if (!P16 && s.parent < 0 && blocking < workers - 1 && blocking < 3 && rt::chance(1, 2)) {
      s.waits = blocking++; // released by another task
    } else if (P16 && rt::chance(1, 6))
      s.stops = true;
    else if (P16 && rt::chance(1, 6))
      s.sleeps = true;
    if (rt::chance(2, 5)) {
      s.promise = 1 + int(rt::draw(2));
      s.chain = rt::chance(1, 2);
    }
  }
  for (int b = 0; b < blocking; ++b) {
    world.tasks.emplace_back();
    Spec &s = world.tasks.back();
    s.id = int(world.tasks.size()) - 1;
    rt::cell_set(s.id, 0);
    rt::cell_set(100 + s.id, 0);
    s.signals = b;
    s.poster = posters ? int(rt::draw(posters + 1)) : 0;
    s.big = rt::flip();
  }
  for (auto &s : world.tasks) {
    std::string ch;
    for (int c : s.children)
      ch += " " + std::to_string(c);
    rt::trace("task %d: %s by %s%d%s%s%s%s%s%s", s.id, s.via ? "async" : "post", s.parent >= 0 ? "task " : "thread ",
              s.parent >= 0 ? s.parent : s.poster, s.big ? " big" : "", ch.empty() ? "" : (" posts" + ch).c_str(),
              s.waits >= 0 ? " waits for another task" : "", s.signals >= 0 ? " releases a waiting task" : "", s.stops ? " calls stop()" : s.sleeps ? " sleeps" : "",
              s.promise == 1   ? (s.chain ? " fulfils promise with pool continuation" : " fulfils promise")
              : s.promise == 2 ? (s.chain ? " drops promise with pool continuation" : " drops promise")
                               : "");
  }
  // how the pool ends: 0 wait, 1 stop+wait, 2 stop, 3 destructor only, 4 stop by another thread
  const int ending = P16 ? int(rt::draw(5)) : 0;
  const bool await_futures = !P16 && rt::flip();
  const bool late_posts = rt::chance(1, 3);
  const bool join_first = !P16 || rt::flip(); // posters are joined before the ending starts
  static const char *en[] = {"wait()", "stop(), wait()", "stop()", "destructor", "stop() by another thread"};
  rt::trace("ending: %s%s%s", en[ending], await_futures ? ", after awaiting the promises of the tasks" : "", late_posts ? ", posting afterwards" : "");

  {
    auto pool = std::make_unique<pc::static_thread_pool>(workers);
    world.pool = pool.get();
    std::vector<std::thread> att, pst;
    for (int i = 0; i < attached; ++i)
      att.emplace_back([&] { world.pool->attach(); });
    if (!P16 && !workers) { // one thread at least is known to be attached
      post(world.pool->executor(), [] { w->gate.signal(); });
      world.gate.wait();
      rt::label("attached threads only");
    }
    // threads known to be attached may outlive the pool
    const bool outlive = P16 && attached && rt::chance(1, 2);
    std::vector<Event> there(outlive ? workers + attached : 0);
    if (outlive) {
      rt::trace("attached threads are joined after the pool is destroyed");
      rt::label("pool destroyed with attached threads");
      for (auto &e : there)
        post(world.pool->executor(), [&e] {
          e.signal();
          w->gate.wait();
        });
      for (auto &e : there)
        e.wait();
      world.gate.signal();
    }
    std::thread stopper;
    if (ending == 4)
      stopper = std::thread([&] {
        world.pool->stop();
        rt::cell_set(StopReturned, 1);
      });
    for (int i = 1; i <= posters; ++i)
      pst.emplace_back([&, i] {
        for (auto &s : world.tasks)
          if (s.parent < 0 && s.poster == i)
            post_task(s);
      });
    for (auto &s : world.tasks)
      if (s.parent < 0 && s.poster == 0)
        post_task(s);
    if (join_first)
      for (auto &t : pst)
        t.join();
    if (await_futures)
      for (auto &s : world.tasks) {
        if (s.parent < 0 && s.promise && !s.chain) {
          // the task runs and is destroyed without any further action
          try {
            int v = s.fut.get();
            RT_CHECK(s.promise == 1 && v == s.id, "wrong value from a task");
          } catch (const std::future_error &) {
            RT_CHECK(s.promise == 2, "promise of task %d broken although the task fulfils it", s.id);
          }
          rt::label("awaited the promise of a task");
        } else if (s.parent < 0 && s.promise && s.chain) {
          try {
            int v = s.cont.get();
            RT_CHECK(v == 1, "wrong value from a continuation");
          } catch (const std::future_error &) {
            rt::fail("continuation of task %d broken although the pool is running", s.id);
          }
          s.cont = pc::make_ready_future(1);
          rt::label("awaited a continuation on the pool");
        }
      }
    auto do_wait = [&] {
      rt::cell_set(WaitCalled, 1);
      world.pool->wait();
      rt::cell_set(WaitReturned, 1);
    };
    auto do_stop = [&] {
      rt::cell_set(WaitCalled, 1);
      world.pool->stop();
      rt::cell_set(StopReturned, 1);
    };
    bool told = true;
    switch (ending) {
    case 0: do_wait(); break;
    case 1:
      do_stop();
      do_wait();
      break;
    case 2: do_stop(); break;
    case 3:
      if ((attached && !outlive) || !join_first)
        do_stop(); // threads using the pool have to be gone before it is destroyed
      else
        told = false;
      break;
    default:
      stopper.join();
    }
    (void)told;
    if (!join_first)
      for (auto &t : pst)
        t.join();
    const bool att_first = P16 ? !outlive : rt::flip();
    if (att_first)
      for (auto &t : att)
        t.join();
    if (!P16) {
      for (auto &s : world.tasks) {
        bool must = s.parent < 0 || rt::cell_get(100 + s.id) == 2;
        if (s.parent >= 0 && !w->tasks[s.parent].runs)
          must = false;
        if (must) {
          RT_CHECK(s.runs == 1, "task %d, posted before wait(), ran %d times when wait() returned", s.id, s.runs);
          RT_CHECK(s.out == 200 + s.id, "the effects of task %d are not visible after wait()", s.id);
          RT_CHECK(rt::cell_get(s.id) == 0, "task %d is still stored after wait() returned", s.id);
          if (s.via == 1)
            RT_CHECK(s.res.is_ready() && s.res.get() == 5, "future of task %d is not ready after wait()", s.id);
        }
      }
    }
    if (!P16 && !att_first)
      for (auto &t : att)
        t.join();
    if (late_posts && rt::cell_get(StopReturned) + rt::cell_get(WaitReturned) > 0) {
      int late = int(world.tasks.size());
      world.tasks.emplace_back();
      Spec &s = world.tasks.back();
      s.id = late;
      rt::cell_set(s.id, 0);
      s.via = rt::flip();
      s.promise = 2;
      post_task(s);
      RT_CHECK(s.fut.is_ready(), "a task posted after the pool was closed is kept");
      if (s.via)
        RT_CHECK(s.res.is_ready(), "the future of a task posted after the pool was closed is not ready");
    }
    // make sure blocked/late signals never matter
    rt::cell_set(DtorEntered, 1);
    pool.reset();
    rt::cell_set(Destroyed, 1);
    for (auto &t : att)
      if (t.joinable())
        t.join();
  }
  bool unrun = false;
  for (auto &s : world.tasks) {
    bool posted = s.in != 0;
    RT_CHECK(s.runs <= 1, "task %d ran %d times", s.id, s.runs);
    RT_CHECK(rt::cell_get(s.id) == 0, "task %d is still stored after the pool was destroyed", s.id);
    if (!posted)
      continue;
    if (!s.runs)
      unrun = true;
    auto broken = [&](pc::future<int> &f, const char *what) {
      RT_CHECK(f.is_ready(), "%s of task %d is not ready after the destruction of the pool", what, s.id);
      try {
        f.get();
        return false;
      } catch (const std::future_error &e) {
        RT_CHECK(e.code() == std::future_errc::broken_promise, "unexpected error");
        return true;
      }
    };
    if (s.via == 1 && s.res.valid()) {
      bool b = broken(s.res, "future");
      RT_CHECK(b == !s.runs, "future of task %d is %s although the task ran %d times", s.id, b ? "broken" : "fulfilled", s.runs);
    }
    if (s.promise && s.fut.valid()) {
      bool b = broken(s.fut, "owned promise");
      RT_CHECK(b == !(s.runs && s.promise == 1), "promise owned by task %d has the wrong outcome", s.id);
    }
    if (s.cont.valid() && s.chain && s.chain_runs <= 1) {
      RT_CHECK(s.cont.is_ready(), "continuation of task %d is not ready after the destruction of the pool", s.id);
    }
    RT_CHECK(s.chain_runs <= 1, "continuation runs twice");
  }
  int ran = 0;
  for (auto &s : world.tasks)
    ran += s.runs;
  if (unrun) rt::label("tasks left unrun");
  if (attached) rt::label("attached threads");
  if (blocking && !P16) rt::label("blocking tasks");
  bool nt = P16 ? ntasks > 0 && (unrun || ran) : ran >= 2;
  if (rt::preemptions() > 0) {
    rt::label("with preemptions");
    if (nt)
      rt::nontrivial();
  }
  w = nullptr;
}
extern "C" const char *harness_name() { return PROFILE == 15 ? "pool_drain" : "pool_stop"; }
extern "C" const char *harness_rule() {
  return PROFILE == 15 ? "at least two tasks ran on the pool under a schedule with a preemption"
                       : "at least one task was posted to a pool that was stopped or destroyed, under a schedule with a preemption";
}
