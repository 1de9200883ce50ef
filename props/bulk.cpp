// Sizes far beyond what the scheduled harnesses use: many attached functions,
// many inputs, long chains, long queues, huge counts. One thread (plus pool
// workers), so that only the number of objects matters.
#include "common.h"
#include <deque>
#include <limits>
#include <portable_concurrency/functional>
#include <portable_concurrency/future>
#include <portable_concurrency/latch>
#include <portable_concurrency/thread_pool>
#include <sys/resource.h>

#ifndef PROFILE
#define PROFILE 3
#endif
HARNESS("bulk", "more than 100 objects (functions, inputs, tasks, levels, or a count above 2^15)")

namespace {
struct Err {
  int id;
};
int64_t g_live;
struct Tok { // counted
  Tok() { ++g_live; }
  Tok(Tok &&) noexcept { ++g_live; }
  Tok(const Tok &) { ++g_live; }
  Tok &operator=(const Tok &) = default;
  ~Tok() { --g_live; }
};
// sizes around the limits of narrow counters
int size(int cap) {
  int n;
  switch (rt::draw(16)) {
  case 0: case 1: case 2: n = int(rt::draw(9)); break;
  case 3: case 4: case 5: case 6: case 7: n = int(rt::range(120, 136)); break;
  case 8: case 9: case 10: case 11: case 12: n = int(rt::range(250, 262)); break;
  case 13: case 14: n = int(rt::range(500, 4000)); break;
  default: n = rt::chance(1, 4) ? int(rt::range(65500, 65600)) : int(rt::range(32700, 32800));
  }
  if (n > cap)
    n = cap;
  if (n > 100)
    rt::nontrivial();
  return n;
}
struct Lcg {
  uint64_t s;
  uint32_t next(uint32_t n) {
    s = s * 6364136223846793005ull + 1442695040888963407ull;
    return uint32_t((s >> 33) % n);
  }
};
std::vector<int> order(int n) {
  std::vector<int> o(n);
  for (int i = 0; i < n; ++i)
    o[i] = i;
  switch (rt::draw(3)) {
  case 0: break;
  case 1: std::reverse(o.begin(), o.end()); break;
  default: {
    Lcg g{rt::draw(1000)};
    for (int i = n - 1; i > 0; --i)
      std::swap(o[i], o[g.next(i + 1)]);
  }
  }
  return o;
}
void finish(pc::promise<int> &p, int how, int v) {
  if (how == 0)
    p.set_value(v);
  else if (how == 1)
    p.set_exception(std::make_exception_ptr(Err{v}));
  else {
    pc::promise<int> dead(std::move(p));
  }
}
// outcome of a read: value, 100000+id for Err, -1 for broken_promise
template <class F> int64_t outcome(F &f) {
  try {
    return f.get();
  } catch (Err &e) {
    return 1000000 + e.id;
  } catch (std::future_error &e) {
    return e.code() == std::future_errc::broken_promise ? -1 : -2;
  }
}
int64_t expected(int how, int v) { return how == 0 ? v : how == 1 ? 1000000 + v : -1; }

struct SmallStack {
  rlimit was;
  SmallStack() {
    getrlimit(RLIMIT_STACK, &was);
    rlimit r = was;
    r.rlim_cur = 1 << 19;
    setrlimit(RLIMIT_STACK, &r);
  }
  ~SmallStack() { setrlimit(RLIMIT_STACK, &was); }
};

// --- many functions attached to one result -----------------------------------------
void attachments(bool dropped) {
  int n = size(70000);
  SmallStack little; // the number of functions must not cost stack
  int how = int(rt::draw(3)), kinds = int(rt::draw(4)), make = int(rt::draw(3));
  if (n > 5000 && !dropped)
    how = 0; // throwing is slow
  bool after = rt::chance(1, 4) && !dropped;
  rt::trace("%d functions of kind %d attached %s completion %d, promise %d%s", n, kinds, after ? "after" : "before", how, make,
            dropped ? ", all read ends dropped" : "");
  auto ran = std::make_unique<std::vector<unsigned char>>(n);
  std::vector<pc::future<int>> results;
  {
    auto pf = make == 0   ? pc::make_promise<int>()
              : make == 1 ? pc::make_promise<int>(std::allocator<char>())
                          : pc::make_promise<int>(pc::canceler_arg, [t = Tok()] {});
    auto s = pf.second.share();
    if (after)
      finish(pf.first, how, 5);
    auto *r = ran.get();
    for (int i = 0; i < n; ++i) {
      int k = kinds == 3 ? i % 3 : kinds;
      if (k == 0)
        s.notify([r, i, t = Tok()] { ++(*r)[i]; });
      else if (k == 1)
        results.push_back(s.then([r, i, t = Tok()](pc::shared_future<int> f) {
          ++(*r)[i];
          return int(f.get() + i);
        }));
      else
        results.push_back(s.next([r, i, t = Tok()](int v) {
          ++(*r)[i];
          return v + i;
        }));
    }
    if (dropped) { // nobody can read any more: nothing may run, everything must go
      if (rt::flip()) {
        results.clear();
        s = pc::shared_future<int>();
      } else {
        s = pc::shared_future<int>();
        results.clear();
      }
      RT_CHECK(!pf.first.is_awaiten(), "the promise is still awaited after all %d continuations were dropped", n);
      RT_CHECK(g_live == 0, "%lld function objects survive their future", (long long)g_live);
      finish(pf.first, how, 5);
      for (int i = 0; i < n; ++i)
        RT_CHECK((*r)[i] == 0, "function %d of %d ran after everything was dropped", i, n);
      return;
    }
    if (!after) {
      for (int i = 0; i < n; ++i)
        RT_CHECK((*r)[i] == 0, "function %d of %d ran before the result", i, n);
      finish(pf.first, how, 5);
    }
    RT_CHECK(outcome(s) == expected(how, 5), "wrong result");
  }
  size_t at = 0;
  for (int i = 0; i < n; ++i) {
    int k = kinds == 3 ? i % 3 : kinds;
    bool call = k != 2 || how == 0;
    RT_CHECK((*ran)[i] == call, "function %d of %d ran %d times", i, n, (*ran)[i]);
    if (k) {
      RT_CHECK(results[at].is_ready(), "result %d of %d is not ready", i, n);
      int64_t o = outcome(results[at++]);
      RT_CHECK(o == (how == 0 ? 5 + i : expected(how, 5)), "continuation %d of %d yields %lld", i, n, (long long)o);
    }
  }
}

// --- many inputs ---------------------------------------------------------------------
template <class Fut, class Make> void inputs(bool all, Make &&make) {
  int n = size(70000);
  SmallStack little;
  int form = int(rt::draw(2));
  std::vector<pc::promise<int>> ps(n);
  std::vector<Fut> fs(n);
  for (int i = 0; i < n; ++i) {
    auto pf = pc::make_promise<int>();
    ps[i] = std::move(pf.first);
    fs[i] = make(std::move(pf.second));
  }
  auto ord = order(n);
  int how = int(rt::draw(4)); // 3: mixed
  if (n > 5000)
    how = 0; // throwing is slow
  int pre = n && rt::chance(1, 3) ? int(rt::draw(n)) : 0;
  rt::trace("%s of %d inputs, form %d, %d completed before, outcome %d, first completed %d", all ? "when_all" : "when_any", n, form, pre, how,
            n ? ord[0] : -1);
  auto what = [&](int i) { return how == 3 ? i % 3 : how; };
  for (int k = 0; k < pre; ++k)
    finish(ps[ord[k]], what(ord[k]), ord[k]);
  auto check = [&](auto &v) {
    RT_CHECK(int(v.size()) == n, "%d inputs became %zu", n, v.size());
    for (int i = 0; i < n; ++i) {
      RT_CHECK(v[i].valid(), "input %d of %d is invalid", i, n);
      RT_CHECK(v[i].is_ready(), "input %d of %d is not ready", i, n);
      int64_t o = outcome(v[i]);
      RT_CHECK(o == expected(what(i), i), "input %d of %d yields %lld", i, n, (long long)o);
    }
  };
  if (all) {
    auto f = form ? pc::when_all(fs.begin(), fs.end()) : pc::when_all(std::move(fs));
    for (int k = pre; k < n; ++k) {
      RT_CHECK(!f.is_ready(), "when_all is ready after %d of %d inputs", k, n);
      finish(ps[ord[k]], what(ord[k]), ord[k]);
    }
    RT_CHECK(f.is_ready(), "when_all is not ready after all %d inputs", n);
    auto v = f.get();
    check(v);
  } else {
    auto f = form ? pc::when_any(fs.begin(), fs.end()) : pc::when_any(std::move(fs));
    RT_CHECK(f.is_ready() == (pre > 0 || n == 0), "when_any of %d inputs, %d of them ready, is ready: %d", n, pre, f.is_ready());
    for (int k = pre; k < n; ++k) {
      finish(ps[ord[k]], what(ord[k]), ord[k]);
      RT_CHECK(f.is_ready(), "when_any is not ready after an input");
    }
    auto r = f.get();
    if (n == 0)
      RT_CHECK(r.index == size_t(-1), "when_any of nothing names input %zu", r.index);
    else {
      RT_CHECK(r.index < size_t(n), "when_any names input %zu of %d", r.index, n);
      if (pre == 0)
        RT_CHECK(int(r.index) == ord[0], "when_any names input %zu, the first one was %d", r.index, ord[0]);
      else {
        bool was = false;
        for (int k = 0; k < pre; ++k)
          was = was || ord[k] == int(r.index);
        RT_CHECK(was, "when_any names input %zu which was not ready", r.index);
      }
    }
    check(r.futures);
  }
}

// --- long chains -----------------------------------------------------------------------
void chain() {
  int n = size(260);
  Lcg g{rt::draw(100000)};
  int how = int(rt::draw(3));
  int fail_at = rt::chance(1, 3) && n ? int(rt::draw(n)) : -1;
  rt::trace("chain of %d levels, source %d, failing at %d", n, how, fail_at);
  auto pf = pc::make_promise<int>();
  pc::future<int> f = std::move(pf.second);
  int64_t calls = 0, want_calls = 0;
  int64_t want = expected(how, 1);
  bool done = rt::chance(1, 4);
  if (done)
    finish(pf.first, how, 1);
  for (int i = 0; i < n; ++i) {
    bool ok = want >= 0 && want < 1000000;
    bool bad = i == fail_at;
    switch (g.next(6)) {
    case 0:
      f = f.next([&calls, bad, t = Tok()](int v) { return ++calls, bad ? throw Err{3} : v + 1; });
      if (ok)
        ++want_calls, want = bad ? 1000003 : want + 1;
      break;
    case 1:
      f = f.then([&calls, bad, t = Tok()](pc::future<int> f) { return ++calls, bad ? throw Err{3} : int(outcome(f) % 1000000 + 1); });
      ++want_calls, want = bad ? 1000003 : want % 1000000 + 1;
      break;
    case 2:
      f = f.next([&calls, t = Tok()](int v) { return ++calls, pc::make_ready_future(v + 1); });
      if (ok)
        ++want_calls, want = want + 1;
      break;
    case 3:
      f = f.share().next([&calls, t = Tok()](const int &v) { return ++calls, v + 1; });
      if (ok)
        ++want_calls, want = want + 1;
      break;
    case 4:
      f = f.then([&calls, t = Tok()](pc::promise<int> p, pc::future<int> f) {
        ++calls;
        p.set_value(int(outcome(f) % 1000000 + 1));
      });
      ++want_calls, want = want % 1000000 + 1;
      break;
    default:
      f = f.detach().next([&calls, t = Tok()](int v) { return ++calls, pc::make_ready_future(int(v)).share(); }).next([](int v) { return v; });
      if (ok)
        ++want_calls;
    }
  }
  RT_CHECK(done || calls == 0, "a chain ran before its source");
  if (!done && rt::chance(1, 6)) { // dropped instead of read
    f = pc::future<int>();
    finish(pf.first, how, 1);
    return;
  }
  if (!done)
    finish(pf.first, how, 1);
  RT_CHECK(f.is_ready(), "a chain of %d levels is not ready", n);
  RT_CHECK(calls == want_calls, "%lld calls instead of %lld", (long long)calls, (long long)want_calls);
  int64_t o = outcome(f);
  RT_CHECK(o == want, "a chain of %d levels yields %lld instead of %lld", n, (long long)o, (long long)want);
}
// a loop: each level returns the future of the next one
pc::future<int> loop(pc::future<int> &first, int n, int how) {
  if (n == 0)
    return how == 0 ? pc::make_ready_future(42) : how == 1 ? pc::make_exceptional_future<int>(Err{42}) : pc::future<int>();
  return std::move(first).next([n, how, t = Tok()](int) {
    auto r = pc::make_ready_future(int(n));
    return loop(r, n - 1, how);
  });
}
void loops() {
  int n = size(260), how = int(rt::draw(3));
  rt::trace("loop of %d nested results, outcome %d", n, how);
  auto pf = pc::make_promise<int>();
  auto f = loop(pf.second, n, how);
  if (n == 0)
    return;
  RT_CHECK(!f.is_ready(), "a loop is ready before it began");
  pf.first.set_value(1);
  RT_CHECK(f.is_ready(), "a loop of %d levels is not ready", n);
  int64_t o = outcome(f);
  RT_CHECK(o == expected(how, 42), "a loop of %d levels yields %lld", n, (long long)o);
}
// inner results completed later, from the outside in or from the inside out
void nested() {
  int n = size(260), how = int(rt::draw(3));
  auto ord = order(n + 1);
  rt::trace("%d nested results completed starting with %d, outcome %d", n, ord[0], how);
  // level i yields level i+1; the last one yields the value
  std::vector<pc::promise<int>> gate(n + 1);
  std::vector<pc::future<int>> res(n + 1);
  for (int i = n; i >= 0; --i) {
    auto pf = pc::make_promise<int>();
    gate[i] = std::move(pf.first);
    if (i == n)
      res[i] = std::move(pf.second);
    else
      res[i] = pf.second.next([in = std::move(res[i + 1]), t = Tok()](int) mutable { return std::move(in); });
  }
  for (int k = 0; k <= n; ++k) {
    RT_CHECK(!res[0].is_ready(), "ready after %d of %d levels", k, n + 1);
    int i = ord[k];
    if (i == n)
      finish(gate[i], how, 9);
    else
      gate[i].set_value(1);
  }
  RT_CHECK(res[0].is_ready(), "not ready after all %d levels", n + 1);
  int64_t o = outcome(res[0]);
  RT_CHECK(o == expected(how, 9), "%d nested results yield %lld", n, (long long)o);
}

// --- long queues ---------------------------------------------------------------------------
void queue(bool stop) {
  int n = size(70000), workers = int(rt::range(1, 3));
  rt::trace("%d tasks queued behind a blocked one, %d workers, %s", n, workers, stop ? "stopped" : "drained");
  std::vector<std::atomic<int>> ran(n);
  std::atomic<int> order_errors{0}, last{-1};
  std::vector<pc::future<void>> fs;
  bool futs = rt::flip() && n < 5000;
  std::atomic<int> destroyed{0};
  struct Fn {
    std::atomic<int> *d;
    explicit Fn(std::atomic<int> *d) : d(d) {}
    Fn(Fn &&o) noexcept : d(o.d) { o.d = nullptr; }
    ~Fn() {
      if (d)
        ++*d;
    }
  };
  {
    pc::static_thread_pool pool(workers);
    std::vector<pc::promise<void>> gates(workers);
    pc::latch started(workers + 1);
    for (int w = 0; w < workers; ++w) {
      auto pf = pc::make_promise<void>();
      gates[w] = std::move(pf.first);
      post(pool.executor(), [&started, f = std::make_shared<pc::future<void>>(std::move(pf.second))] {
        started.count_down_and_wait();
        f->get();
      });
    }
    started.count_down_and_wait();
    for (int i = 0; i < n; ++i) {
      auto fn = [&, i, x = Fn(&destroyed)] {
        ++ran[i];
        if (last.exchange(i) > i && workers == 1)
          ++order_errors;
      };
      if (futs)
        fs.push_back(pc::async(pool.executor(), std::move(fn)));
      else
        post(pool.executor(), std::move(fn));
    }
    if (stop)
      pool.stop();
    for (auto &g : gates)
      g.set_value();
    if (!stop)
      pool.wait();
    if (!stop)
      RT_CHECK(destroyed == n, "%d of %d tasks are destroyed after wait()", destroyed.load(), n);
  }
  RT_CHECK(destroyed == n, "%d of %d tasks are destroyed", destroyed.load(), n);
  for (int i = 0; i < n; ++i)
    RT_CHECK(ran[i] == !stop, "task %d of %d ran %d times", i, n, ran[i].load());
  for (auto &f : fs) {
    RT_CHECK(f.is_ready(), "the future of a task is not ready");
    bool broken = false;
    try {
      f.get();
    } catch (std::future_error &e) {
      broken = e.code() == std::future_errc::broken_promise;
    }
    RT_CHECK(broken == stop, "the future of a task is broken: %d", broken);
  }
}

// --- huge counts -----------------------------------------------------------------------------
void counts() {
  static const int64_t base[] = {0, 1, 127, 255, 32767, 65535, 0x7fffffff, 0xffffffffll, 0x7fffffffffffffffll};
  unsigned b = rt::draw(9);
  int64_t n = base[b] + (b == 8 ? -int64_t(rt::draw(3)) : int64_t(rt::draw(4)));
  if (n > 32000)
    rt::nontrivial();
  rt::trace("latch of %lld", (long long)n);
  pc::latch l(n);
  int64_t left = n;
  for (int i = 0; i < 12 && left > 0; ++i) {
    RT_CHECK(!l.is_ready(), "ready with %lld left", (long long)left);
    int64_t k;
    switch (rt::draw(5)) {
    case 0: k = 1; break;
    case 1: k = left - 1; break;
    case 2: k = std::min<int64_t>(left, base[rt::draw(9)] + int64_t(rt::draw(2))); break;
    case 3: k = left / 2; break;
    default: k = 0;
    }
    k = std::min(std::max<int64_t>(k, 0), left);
    rt::trace("count_down(%lld)", (long long)k);
    l.count_down(k);
    left -= k;
    RT_CHECK(l.is_ready() == (left == 0), "is_ready() is %d with %lld left", l.is_ready(), (long long)left);
  }
  if (left > 1)
    l.count_down(left - 1), left = 1;
  if (left)
    l.count_down_and_wait();
  RT_CHECK(l.is_ready(), "not ready at zero");
  l.wait();
}
} // namespace

void run_case() {
  g_live = 0;
#if PROFILE == 3
  attachments(false);
#elif PROFILE == 4
  chain();
#elif PROFILE == 5
  rt::flip() ? loops() : nested();
#elif PROFILE == 10 || PROFILE == 11
  if (rt::flip())
    inputs<pc::future<int>>(PROFILE == 10, [](pc::future<int> f) { return f; });
  else
    inputs<pc::shared_future<int>>(PROFILE == 10, [](pc::future<int> f) { return f.share(); });
#elif PROFILE == 7 || PROFILE == 14
  attachments(true);
#elif PROFILE == 15 || PROFILE == 16
  queue(PROFILE == 16);
#else
  counts();
#endif
  RT_CHECK(g_live == 0, "%lld function objects are never destroyed", (long long)g_live);
}
