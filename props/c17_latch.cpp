// C17: latch. Generated programs of 1..4 threads over one latch, all schedules.
#include "common.h"
#include <portable_concurrency/latch>

HARNESS("c17_latch", "at least one thread really waited on the latch while another one counted it down "
                     "(count > 0 when the waiter arrived) and at least two threads took part")

namespace {
enum OpKind { CountDown, CountDownWait, Wait, Ready };
struct Op {
  OpKind kind;
  int n;
};
struct Plan {
  std::vector<Op> ops;
};
} // namespace

void run_case() {
  const int nthreads = 1 + int(rt::draw(4));
  // a plan never counts below zero: the total over all threads is the count
  std::vector<Plan> plans(nthreads);
  int total = 0;
  bool any_wait = false;
  for (int t = 0; t < nthreads; ++t) {
    const int nops = int(rt::draw(4));
    bool waited = false;
    for (int i = 0; i < nops; ++i) {
      switch (rt::draw(5)) {
      case 0:
      case 1: {
        // after this thread waited, the count is zero: only count_down(0) is legal
        int n = waited ? 0 : int(rt::draw(4));
        plans[t].ops.push_back({CountDown, n});
        total += n;
        break;
      }
      case 2:
        if (waited) {
          plans[t].ops.push_back({Ready, 0});
        } else {
          plans[t].ops.push_back({CountDownWait, 1});
          total += 1;
          waited = any_wait = true;
        }
        break;
      case 3:
        plans[t].ops.push_back({Wait, 0});
        waited = any_wait = true;
        break;
      default:
        plans[t].ops.push_back({Ready, 0});
      }
    }
  }
  // A separate destroyer waits for its own release and then destroys the latch
  // at once: count-downs may still be on their way out. Only legal if nobody
  // else *starts* an operation after the latch is released, so all other
  // threads perform nothing but count downs of a positive amount.
  const bool heap_waiter_destroys = rt::chance(1, 2);
  // In the second variant the count is held back until every thread that is
  // going to wait has fallen asleep inside the latch: plain wait() is legal too.
  const bool held_back = heap_waiter_destroys && rt::flip();
  if (heap_waiter_destroys) {
    total = 0;
    for (auto &p : plans) {
      std::vector<Op> keep;
      bool w = false;
      for (auto &o : p.ops)
        if (!w && ((o.kind == CountDown && o.n > 0) || o.kind == CountDownWait || (held_back && o.kind != CountDown))) {
          keep.push_back(o);
          w = o.kind == CountDownWait || o.kind == Wait;
          total += o.n;
        }
      p.ops = keep;
    }
    any_wait = true;
  }
  // Two threads that both wait before their count downs would deadlock by
  // design: count downs of a thread always precede its waits (see above).
  int extra = int(rt::draw(3)); // counted down by the main thread
  if (held_back)
    ++extra;
  total += extra;
  rt::trace("latch(%d) threads=%d extra=%d destroyed_by=%s", total, nthreads, extra,
            held_back ? "main, released, when all waiters were asleep" : heap_waiter_destroys ? "released waiter" : "main after join");
  for (int t = 0; t < nthreads; ++t) {
    std::string s;
    for (auto &o : plans[t].ops)
      s += o.kind == CountDown       ? " count_down(" + std::to_string(o.n) + ")"
           : o.kind == CountDownWait ? " count_down_and_wait"
           : o.kind == Wait          ? " wait"
                                     : " is_ready";
    rt::trace("  T%d:%s", t + 1, s.c_str());
  }

  auto *l = new pc::latch(total);
  struct Shared {
    int issued = 0;   // bookkeeping in cells, see below
  };
  // cell 0: amount whose count-down has been *started*; cell 1: completed
  // cell 2: threads that waited with a positive count
  enum { Started = 0, Finished = 1, Blocked = 2 };
  int data[8] = {}; // written before counting down, read after waiting: ordering oracle

  auto after_release = [&](const char *what) {
    RT_CHECK(rt::cell_get(Started) == total, "%s returned although only %lld of %d were counted down", what,
             (long long)rt::cell_get(Started), total);
  };
  for (int t = 0; t < nthreads; ++t)
    rt::cell_set(10 + t, 0), rt::cell_set(20 + t, 0);
  auto body = [&](int t) {
    rt::cell_set(10 + t, rt::self());
    bool counted = false;
    bool waited = false;
    int left = 0;
    for (auto &o : plans[t].ops)
      if (o.kind == CountDown || o.kind == CountDownWait)
        left += o.n;
    if (left > 0)
      data[t] = 100 + t; // published by the count downs below
    (void)counted;
    for (auto &o : plans[t].ops) {
      switch (o.kind) {
      case CountDown:
        rt::cell_add(Started, o.n);
        l->count_down(o.n);
        rt::cell_add(Finished, o.n);
        break;
      case CountDownWait:
        rt::cell_add(Started, 1);
        if (rt::cell_get(Started) < total)
          rt::cell_add(Blocked, 1);
        l->count_down_and_wait();
        rt::cell_add(Finished, 1);
        after_release("count_down_and_wait");
        waited = true;
        break;
      case Wait:
        if (rt::cell_get(Started) < total)
          rt::cell_add(Blocked, 1);
        l->wait();
        after_release("wait");
        waited = true;
        break;
      case Ready: {
        auto finished = rt::cell_get(Finished);
        bool r = l->is_ready();
        if (r)
          after_release("is_ready() == true");
        else
          RT_CHECK(finished < total, "is_ready() is false although the count reached zero before");
        if (waited)
          RT_CHECK(r, "is_ready() is false after wait returned");
        break;
      }
      }
      if (waited)
        for (int k = 0; k < nthreads; ++k) {
          int expect = 0;
          for (auto &p : plans[k].ops)
            if (p.kind == CountDown || p.kind == CountDownWait)
              expect += p.n;
          if (expect)
            RT_CHECK(data[k] == 100 + k, "effects before count_down are not visible after the wait");
        }
    }
    rt::cell_set(20 + t, 1);
  };

  {
    std::vector<std::thread> th;
    for (int t = 0; t < nthreads; ++t)
      th.emplace_back(body, t);
    bool asleep = true;
    if (held_back)
      for (int t = 0; t < nthreads; ++t) {
        auto &ops = plans[t].ops;
        if (ops.empty())
          continue;
        const bool waits = ops.back().kind == Wait || ops.back().kind == CountDownWait;
        // (a latch that makes its waiters sleep elsewhere is not put through this)
        int tries = 3000;
        while (waits ? !rt::parked(int(rt::cell_get(10 + t))) : !rt::cell_get(20 + t)) {
          if (--tries == 0)
            break;
          sched_yield();
        }
        if (!tries)
          asleep = false;
      }
    if (heap_waiter_destroys && asleep) {
      if (held_back)
        rt::label("destroyed while waiters leave");
      if (held_back && extra == 1 && rt::flip()) {
        rt::cell_add(Started, 1);
        l->count_down_and_wait();
        rt::cell_add(Finished, 1);
        extra = 0;
      }
      if (extra) {
        rt::cell_add(Started, extra);
        l->count_down(extra);
        rt::cell_add(Finished, extra);
      }
      if (rt::cell_get(Started) < total)
        rt::cell_add(Blocked, 1);
      l->wait();
      after_release("wait");
      delete l;
      l = nullptr;
    } else {
      for (int i = 0; i < extra; ++i) {
        rt::cell_add(Started, 1);
        l->count_down();
        rt::cell_add(Finished, 1);
      }
    }
    for (auto &t : th)
      t.join();
    if (l) {
      RT_CHECK(l->is_ready(), "latch not ready after all count downs");
      l->wait();
      delete l;
    }
  }
  if (rt::cell_get(Blocked) > 0) {
    rt::label("waiter arrived before release");
    rt::nontrivial();
  }
  if (heap_waiter_destroys)
    rt::label("destroyed by a released waiter");
  if (rt::preemptions() > 0)
    rt::label("with preemptions");
  (void)any_wait;
}
