// C22: histories over promises and vectors with user supplied allocators that
// keep exact books (owner, address, size) of their blocks.
#include "common.h"
#include <portable_concurrency/functional>
#include <portable_concurrency/future>
#include <portable_concurrency/timed_waiter>
#include <cstring>

HARNESS("c22_alloc", "memory of a user allocator was used by a waiter, detach, co_await or combined vector besides the shared state, or outlived its promise")

namespace {
// --- books ------------------------------------------------------------------
struct Block {
  char *p;
  size_t bytes, align;
  int book;
  bool live;
};
constexpr int NBLOCK = 512, NBOOK = 12;
alignas(128) char g_arena[1 << 18];
struct Books {
  Block b[NBLOCK];
  int n;
  size_t used;
  int live[NBOOK], total[NBOOK];
  int fail_at; // the nth allocation from now on fails
  int failed;
};
Books g;
// the books are kept out of sight of the scheduler: no code of the library runs
// between the statements of these two functions
__attribute__((no_sanitize("thread"), noinline)) void *book_allocate(int book, size_t bytes, size_t align) {
  if (g.fail_at > 0 && --g.fail_at == 0) {
    ++g.failed;
    return nullptr;
  }
  g.used = (g.used + align - 1) / align * align;
  if (g.n == NBLOCK || g.used + bytes > sizeof g_arena)
    rt::discard_process("arena exhausted");
  char *p = g_arena + g.used;
  g.used += bytes + 16;
  memset(p, 0xA5, bytes);
  g.b[g.n++] = Block{p, bytes, align, book, true};
  ++g.live[book];
  ++g.total[book];
  return p;
}
__attribute__((no_sanitize("thread"), noinline)) void book_deallocate(int book, void *p, size_t bytes, size_t align) {
  for (int i = 0; i < g.n; ++i) {
    Block &b = g.b[i];
    if (b.p != p)
      continue;
    RT_CHECK(b.live, "a block of %zu bytes is returned twice", b.bytes);
    RT_CHECK(b.book == book, "a block of allocator %d is returned to allocator %d", b.book, book);
    RT_CHECK(b.bytes == bytes, "a block requested with %zu bytes is returned with %zu", b.bytes, bytes);
    RT_CHECK(b.align == align, "a block requested with alignment %zu is returned with %zu", b.align, align);
    b.live = false;
    --g.live[book];
    memset(b.p, 0x5A, b.bytes);
    return;
  }
  rt::fail("memory that was not allocated with allocator %d is returned to it", book);
}
__attribute__((no_sanitize("thread"), noinline)) int live(int book) { return g.live[book]; }
__attribute__((no_sanitize("thread"), noinline)) int total(int book) { return g.total[book]; }

constexpr int Stateless = NBOOK - 1;
template <class X> struct Al { // stateful, no default constructor
  using value_type = X;
  int book;
  unsigned magic = 0xA110C;
  explicit Al(int b) : book(b) {}
  Al(const Al &o) noexcept : book(o.get()) {}
  Al(Al &&o) noexcept : book(o.get()) {} // moved-from allocators keep working
  Al &operator=(const Al &o) noexcept {
    book = o.get();
    return *this;
  }
  template <class Y> Al(const Al<Y> &o) noexcept : book(o.get()) {}
  ~Al() { magic = 0; }
  int get() const {
    RT_CHECK(magic == 0xA110C, "an allocator is used after its destruction");
    return book;
  }
  X *allocate(size_t n) {
    void *p = book_allocate(get(), n * sizeof(X), alignof(X));
    if (!p)
      throw std::bad_alloc();
    return static_cast<X *>(p);
  }
  void deallocate(X *p, size_t n) { book_deallocate(get(), p, n * sizeof(X), alignof(X)); }
  template <class Y> bool operator==(const Al<Y> &o) const { return get() == o.get(); }
  template <class Y> bool operator!=(const Al<Y> &o) const { return get() != o.get(); }
};
template <class X> struct A0 { // stateless
  using value_type = X;
  A0() = default;
  template <class Y> A0(const A0<Y> &) noexcept {}
  X *allocate(size_t n) {
    void *p = book_allocate(Stateless, n * sizeof(X), alignof(X));
    if (!p)
      throw std::bad_alloc();
    return static_cast<X *>(p);
  }
  void deallocate(X *p, size_t n) { book_deallocate(Stateless, p, n * sizeof(X), alignof(X)); }
  template <class Y> bool operator==(const A0<Y> &) const { return true; }
  template <class Y> bool operator!=(const A0<Y> &) const { return false; }
};

// --- payloads ------------------------------------------------------------------
struct V { // move-only
  int id;
  explicit V(int i) : id(i) {}
  V(V &&o) noexcept : id(o.id) { o.id = -1; }
  V &operator=(V &&o) noexcept {
    id = o.id;
    o.id = -1;
    return *this;
  }
};
struct alignas(64) Big {
  int id;
  char pad[100];
  explicit Big(int i) : id(i) {}
};
struct Obj {
  int id;
};
Obj g_obj[64];
struct Err {
  int id;
};
template <class T> struct Mk;
template <> struct Mk<V> {
  static void set(pc::promise<V> &p, int id) { p.set_value(V(id)); }
  static int num(const V &v) { return v.id; }
};
template <> struct Mk<Big> {
  static void set(pc::promise<Big> &p, int id) {
    Big b(id);
    p.set_value(b);
  }
  static int num(const Big &v) {
    RT_CHECK(reinterpret_cast<uintptr_t>(&v) % 64 == 0, "a result is misaligned");
    return v.id;
  }
};
template <> struct Mk<Obj &> {
  static void set(pc::promise<Obj &> &p, int id) { p.set_value(g_obj[id]); }
  static int num(Obj &o) {
    RT_CHECK(&o == &g_obj[o.id], "wrong object");
    return o.id;
  }
};
template <class T> int read(pc::future<T> &f) { return Mk<T>::num(f.get()); }
template <class T> int read(pc::shared_future<T> &f) { return Mk<T>::num(f.get()); }
int read(pc::future<void> &f) {
  f.get();
  return 0;
}
int read(pc::shared_future<void> &f) {
  f.get();
  return 0;
}
template <class T> void store(pc::promise<T> &p, int id) { Mk<T>::set(p, id); }
void store(pc::promise<void> &p, int) { p.set_value(); }
template <class F> int outcome(F &f) {
  try {
    return read(f);
  } catch (const Err &e) {
    return -e.id;
  } catch (const std::future_error &e) {
    RT_CHECK(e.code() == std::future_errc::broken_promise, "wrong error");
    return -1000;
  }
}

bool g_nt;
// f must not take memory from the global heap; true: it threw bad_alloc
template <class F> bool no_heap(const char *what, F &&f) {
  auto before = rt::thread_alloc_count();
  bool res = false;
  try {
    f();
  } catch (const std::bad_alloc &) {
    res = true;
  }
  RT_CHECK(rt::thread_alloc_count() == before, "%s takes %d blocks from the global heap", what, int(rt::thread_alloc_count() - before));
  return res;
}
__attribute__((no_sanitize("thread"), noinline)) void fail_at(int n) { g.fail_at = n; }
// an allocation of the user allocator fails in one of n operations
int gen_fail() { return rt::chance(1, 8) ? 1 + int(rt::draw(2)) : 0; }

template <class T> struct Made {
  pc::promise<T> p;
  pc::future<T> f;
};
template <class T, class A> bool create(pc::promise<T> &p, pc::future<T> &f, const A &a, int fail) {
  bool ctor = rt::flip();
  rt::trace("%s%s", ctor ? "promise(allocator_arg)" : "make_promise(allocator)", fail ? " [fails]" : "");
  fail_at(fail);
  bool failed = no_heap("creating a promise", [&] {
    if (ctor) {
      pc::promise<T> q(std::allocator_arg, a);
      f = q.get_future();
      p = std::move(q);
    } else {
      auto pf = pc::make_promise<T>(a);
      f = std::move(pf.second);
      p = std::move(pf.first);
    }
  });
  fail_at(0);
  return !failed;
}

#if defined(PC_HAS_COROUTINES)
uint64_t g_await_from;
template <class F> pc::future<int> waiter(F f) {
  g_await_from = rt::thread_alloc_count();
  co_await std::move(f);
  co_return 1;
}
#endif

template <class T> struct Run {
  int book;
  pc::promise<T> p;
  bool have_p = true;
  int state = 0; // 0 pending, 1 stored
  int want = 0;
  std::vector<pc::future<T>> us;
  std::vector<pc::shared_future<T>> ss;
  std::vector<pc::future<int>> conts, coros;
  std::vector<int> kinds; // of conts: 0 then, 1 next
  std::vector<std::thread> threads;
  int notified = 0, expect_notified = 0;

  void complete(int how) {
    if (state)
      return;
    state = 1;
    switch (how) {
    case 0:
      want = std::is_void<T>::value ? 0 : 7;
      store(p, 7);
      break;
    case 1:
      want = -5;
      p.set_exception(std::make_exception_ptr(Err{5}));
      break;
    default: {
      want = -1000;
      pc::promise<T> q = std::move(p);
      have_p = false;
    }
    }
  }
  template <class F> void waiting_thread(F f) {
    threads.emplace_back([f = std::move(f)]() mutable {
      no_heap("wait()", [&] { f.wait(); });
      RT_CHECK(f.is_ready(), "wait() returns too early");
    });
    rt::label("waiting thread");
  }
  void step() {
    bool u = !us.empty() && (ss.empty() || rt::flip());
    if (us.empty() && ss.empty())
      return;
    size_t i = rt::draw(u ? us.size() : ss.size());
    int fail = threads.empty() ? gen_fail() : 0; // must hit this thread
    int k = rt::draw(12);
    static const char *nm[] = {"share/copy", "detach", "waiting thread", "then", "next", "notify", "drop", "move promise", "complete",
                               "get", "co_await", "wait"};
    rt::trace("%s %s", nm[k], u ? "future" : "shared_future");
    switch (k) {
    case 0:
      if (u) {
        ss.push_back(us[i].share());
        us.erase(us.begin() + i);
      } else
        ss.push_back(pc::shared_future<T>(ss[i]));
      break;
    case 1: {
      fail_at(fail);
      bool failed;
      g_nt = true;
      if (u) {
        pc::future<T> d;
        failed = no_heap("detach()", [&] { d = us[i].detach(); });
        fail_at(0);
        if (!failed)
          us[i] = std::move(d);
        else if (!us[i].valid())
          us.erase(us.begin() + i);
      } else {
        pc::shared_future<T> d;
        failed = no_heap("detach()", [&] { d = ss[i].detach(); });
        fail_at(0);
        if (!failed)
          ss[i] = std::move(d);
        else if (!ss[i].valid())
          ss.erase(ss.begin() + i);
      }
      break;
    }
    case 2:
      if (threads.size() >= 2)
        break;
      g_nt = true;
      if (!u)
        waiting_thread(ss[i]);
      break;
    case 3:
    case 4: {
      auto any = [this](auto f) {
        int r = outcome(f);
        RT_CHECK(r == want, "a continuation sees %d, expected %d", r, want);
        return 1;
      };
      pc::future<int> c;
      if (k == 3)
        c = u ? us[i].then(any) : ss[i].then(any);
      else
        c = u ? us[i].next([](auto &&...) { return 1; }) : ss[i].next([](auto &&...) { return 1; });
      if (u)
        us.erase(us.begin() + i);
      conts.push_back(std::move(c));
      kinds.push_back(k - 3);
      break;
    }
    case 5: {
      auto fn = [this] { ++notified; };
      if (u)
        us[i].notify(fn);
      else
        ss[i].notify(fn);
      break;
    }
    case 6:
      if (u)
        us.erase(us.begin() + i);
      else
        ss.erase(ss.begin() + i);
      break;
    case 7:
      if (have_p) {
        pc::promise<T> q = std::move(p);
        p = std::move(q);
      }
      break;
    case 8: complete(rt::draw(3)); break;
    case 9:
      if (!state)
        break;
      if (u) {
        int r = outcome(us[i]);
        RT_CHECK(r == want, "get() yields %d, expected %d", r, want);
        us.erase(us.begin() + i);
      } else {
        int r = outcome(ss[i]);
        RT_CHECK(r == want, "get() yields %d, expected %d", r, want);
      }
      break;
#if defined(PC_HAS_COROUTINES)
    case 10: {
      pc::future<int> c;
      if (u) {
        c = waiter(std::move(us[i]));
        us.erase(us.begin() + i);
      } else
        c = waiter(ss[i]);
      if (!c.is_ready()) {
        g_nt = true;
        rt::label("co_await");
        RT_CHECK(rt::thread_alloc_count() == g_await_from, "co_await takes memory from the global heap");
      }
      coros.push_back(std::move(c));
      break;
    }
#endif
    case 11:
      if (!state)
        break;
      fail_at(fail);
      if (u)
        no_heap("wait()", [&] { us[i].wait(); });
      else
        no_heap("wait()", [&] { ss[i].wait(); });
      fail_at(0);
      RT_CHECK(u ? us[i].valid() : ss[i].valid(), "wait() invalidates the future");
      break;
    default: break;
    }
  }
  void finish() {
    complete(rt::draw(3));
    for (auto &t : threads)
      t.join();
    for (auto &f : us) {
      int r = outcome(f);
      RT_CHECK(r == want, "get() yields %d, expected %d", r, want);
    }
    for (auto &f : ss) {
      int r = outcome(f);
      RT_CHECK(r == want, "get() yields %d, expected %d", r, want);
    }
    for (size_t i = 0; i < conts.size(); ++i) {
      RT_CHECK(conts[i].is_ready(), "a continuation did not run");
      int r = 0;
      try {
        r = conts[i].get();
      } catch (const Err &e) {
        r = -e.id;
      } catch (const std::future_error &) {
        r = -1000;
      }
      int w = kinds[i] == 1 && want < 0 ? want : 1;
      RT_CHECK(r == w, "a continuation yields %d, expected %d", r, w);
    }
    for (auto &f : coros) {
      RT_CHECK(f.is_ready(), "a coroutine was not resumed");
      int r = 0;
      try {
        r = f.get();
      } catch (const Err &e) {
        r = -e.id;
      } catch (const std::future_error &) {
        r = -1000;
      }
      RT_CHECK(r == (want < 0 ? want : 1), "a coroutine yields %d", r);
    }
  }
};

template <class T, class A> void history(int book, const A &alloc) {
  bool unwrap = rt::chance(1, 4);
  {
    Run<T> r;
    r.book = book;
    pc::future<T> f;
    {
      A a(alloc); // the original allocator may be gone at any time
      if (!create(r.p, f, a, gen_fail())) {
        RT_CHECK(live(book) == 0, "a failed creation keeps memory");
        return;
      }
    }
    RT_CHECK(live(book) > 0, "the shared state does not live in the memory of the allocator");
    if (unwrap) {
      // behind a continuation returning it
      auto s = std::make_shared<pc::future<T>>(std::move(f));
      f = pc::make_ready_future().then([s](pc::future<void>) { return std::move(*s); });
      s.reset();
      rt::trace("unwrapped");
      // registrations on the outer state are not ours
      r.us.push_back(std::move(f));
    } else
      r.us.push_back(std::move(f));
    if (!unwrap) {
      int n = 1 + rt::draw(12);
      for (int i = 0; i < n; ++i)
        r.step();
      if (live(book) > 1)
        rt::label("several blocks at once");
    } else
      g_nt = true;
    r.finish();
    if (rt::flip())
      r.have_p = false;
    if (rt::flip()) { // the promise outlives all read ends
      r.us.clear();
      r.ss.clear();
      r.conts.clear();
      r.coros.clear();
      g_nt = true;
    }
  }
  RT_CHECK(live(book) == 0, "%d blocks are not returned to the allocator", live(book));
}

// --- combined vectors -----------------------------------------------------------
template <bool Any, class Fut, class A> void combine(int book, const A &alloc) {
  using Vec = std::vector<Fut, typename std::allocator_traits<A>::template rebind_alloc<Fut>>;
  int n = rt::draw(5);
  bool lvalue = !std::is_same<Fut, pc::future<int>>::value && rt::flip();
  rt::trace("%s of %d in a vector%s", Any ? "when_any" : "when_all", n, lvalue ? " (copied)" : "");
  std::vector<pc::promise<int>> ps;
  {
    Vec v{typename Vec::allocator_type(alloc)};
    if (rt::flip())
      v.reserve(n + 2);
    for (int i = 0; i < n; ++i) {
      auto pf = pc::make_promise<int>();
      ps.push_back(std::move(pf.first));
      v.push_back(Fut(std::move(pf.second)));
    }
    const void *data = v.data();
    auto cap = v.capacity();
    int t0 = total(book);
    auto take = [](auto &res) { return res.get(); };
    auto make = [&](auto &&x) {
      if constexpr (Any)
        return pc::when_any(std::forward<decltype(x)>(x));
      else
        return pc::when_all(std::forward<decltype(x)>(x));
    };
    // only shared_futures can be copied
    auto f = [&] {
      if constexpr (!std::is_same<Fut, pc::future<int>>::value)
        if (lvalue)
          return make(v);
      return make(std::move(v));
    }();
    if (n)
      g_nt = true;
    if (!lvalue)
      RT_CHECK(total(book) == t0, "combining a vector allocates from its allocator");
    int order = rt::draw(2);
    for (int i = 0; i < n; ++i) {
      int j = order ? n - 1 - i : i;
      if (rt::chance(1, 5)) {
        pc::promise<int> q = std::move(ps[j]);
      } else
        ps[j].set_value(10 + j);
    }
    RT_CHECK(f.is_ready(), "the combined future is not ready");
    auto r = take(f);
    auto &seq = [&]() -> Vec & {
      if constexpr (Any)
        return r.futures;
      else
        return r;
    }();
    RT_CHECK(int(seq.size()) == n, "wrong size");
    RT_CHECK(seq.get_allocator() == typename Vec::allocator_type(alloc), "the result has a different allocator");
    if (!lvalue) {
      RT_CHECK(seq.data() == data || n == 0, "the vector was reallocated");
      RT_CHECK(seq.capacity() == cap || n == 0, "the vector was reallocated");
    }
    for (int i = 0; i < n; ++i) {
      int o;
      try {
        o = seq[i].get();
      } catch (const std::future_error &) {
        o = 10 + i;
      }
      RT_CHECK(o == 10 + i, "wrong order");
    }
  }
  RT_CHECK(live(book) == 0, "%d blocks are not returned to the allocator of the vector", live(book));
}

template <class A> void one(int book, const A &a) {
  switch (rt::draw(8)) {
  case 0: case 1: history<V>(book, a); break;
  case 2: history<Big>(book, a); break;
  case 3: history<void>(book, a); break;
  case 4: history<Obj &>(book, a); break;
  case 5:
    if (rt::flip())
      combine<false, pc::future<int>>(book, a);
    else
      combine<true, pc::future<int>>(book, a);
    break;
  case 6:
    if (rt::flip())
      combine<false, pc::shared_future<int>>(book, a);
    else
      combine<true, pc::shared_future<int>>(book, a);
    break;
  default: history<V>(book, a);
  }
}
} // namespace

void run_case() {
  memset(&g, 0, sizeof g);
  for (int i = 0; i < 64; ++i)
    g_obj[i].id = i;
  g_nt = false;
  int n = 1 + rt::draw(2);
  for (int i = 0; i < n; ++i) {
    if (rt::chance(1, 3)) {
      rt::trace("stateless allocator");
      one(Stateless, A0<char>{});
    } else {
      rt::trace("allocator %d", i);
      one(i, Al<char>(i));
    }
  }
  for (int b = 0; b < NBOOK; ++b)
    RT_CHECK(live(b) == 0, "memory of allocator %d is not returned", b);
  if (g_nt)
    rt::nontrivial();
}
