// C20: generated programs of coroutines awaiting sources and each other; the
// sources are completed before, after and concurrently with the awaits.
#include "common.h"
#include <coroutine>
#include <portable_concurrency/functional>
#include <portable_concurrency/future>
#include <variant>

HARNESS("c20_coro", "a coroutine was suspended on a result that came later (or raced with it)")

namespace {
struct Err {
  int id;
};
struct V { // move-only
  int *p = nullptr;
  explicit V(int id) : p(new int(id)) {}
  V(V &&o) noexcept : p(o.p) { o.p = nullptr; }
  V &operator=(V &&o) noexcept {
    std::swap(p, o.p);
    return *this;
  }
  ~V() { delete p; }
};
struct Cpy { // copyable, copies may throw
  int *p = nullptr;
  bool bomb = false;
  explicit Cpy(int id) : p(new int(id)) {}
  Cpy(const Cpy &o) {
    if (o.bomb)
      throw Err{900};
    p = new int(*o.p);
  }
  Cpy(Cpy &&o) noexcept : p(o.p), bomb(o.bomb) { o.p = nullptr; }
  ~Cpy() { delete p; }
};
struct Obj {
  int id;
};
Obj g_obj[1024];

struct Outcome {
  enum K { Value, Error, Broken, Other } k = Value; // Other: some other future_error
  int id = 0;
};
enum Ty { TV, TVoid, TRef, TCpy, NTy };
enum SrcKind { KPromise, KAlloc, KReady, KCont, KUnwrap, NKind };

using H = std::variant<std::monostate, pc::future<V>, pc::shared_future<V>, pc::future<void>, pc::shared_future<void>, pc::future<Obj &>,
                       pc::shared_future<Obj &>, pc::future<Cpy>, pc::shared_future<Cpy>>;

struct Step {
  int dep;     // node
  bool guard;  // errors are caught
  bool lvalue; // co_await on a named future
};
struct Node {
  bool coro = false;
  Ty ty = TV;
  bool shared = false;
  // source
  SrcKind kind = KPromise;
  Outcome out;
  int owner = 0;
  std::function<void()> complete;
  // coroutine
  std::vector<Step> steps;
  int end = 0; // 0 returns, 1 throws, 2 returns a copy, 3 returns a copy which throws
  bool drop = false;
  // result handle
  H h;
  int users = 0;
};
enum { CStart = 0, CEnd = 32, CFrames = 64, CSteps = 96, CDone = 128, CDelay = 160 };
struct World {
  std::vector<Node> n;
};
World *w;

// what a node yields as a number
int norm(Ty t, int v) { return t == TVoid ? 1 : v % 1000; }
Outcome outcome(int i) {
  Node &n = w->n[i];
  if (!n.coro) {
    Outcome o = n.out;
    if (o.k == Outcome::Value)
      o.id = norm(n.ty, o.id);
    return o;
  }
  int acc = i + 1;
  for (auto &s : n.steps) {
    Outcome o = outcome(s.dep);
    if (o.k == Outcome::Value)
      acc = (acc * 7 + o.id) % 1000;
    else if (s.guard)
      acc = (acc * 5 + (o.k == Outcome::Error ? o.id : 3)) % 1000;
    else
      return o;
  }
  if (n.end == 1)
    return {Outcome::Error, 500 + i};
  if (n.end == 4)
    return {Outcome::Other, int(std::future_errc::no_state)};
  if (n.end == 3 && n.ty == TCpy)
    return {Outcome::Error, 900};
  return {Outcome::Value, norm(n.ty, acc)};
}
bool started(int i) { // may node i be ready?
  Node &n = w->n[i];
  return n.coro ? rt::cell_get(CDone + i) != 0 : rt::cell_get(CStart + i) != 0;
}

int num(V &&v) {
  RT_CHECK(v.p, "a moved-from value is delivered");
  return *v.p;
}
int num(const V &v) {
  RT_CHECK(v.p, "a moved-from value is delivered");
  return *v.p;
}
int num(const Cpy &v) {
  RT_CHECK(v.p, "a moved-from value is delivered");
  return *v.p;
}
int num(Obj &o) {
  RT_CHECK(&o >= g_obj && &o < g_obj + 1024, "unknown object");
  return int(&o - g_obj);
}

struct Frame { // lives in a coroutine frame
  int i;
  int *mem;
  explicit Frame(int i) : i(i), mem(new int(i)) {
    rt::cell_add(CFrames + i, 1);
    RT_CHECK(rt::cell_get(CFrames + i) == 1, "a coroutine starts twice");
  }
  Frame(const Frame &) = delete;
  ~Frame() {
    RT_CHECK(*mem == i, "a destroyed frame is destroyed");
    delete mem;
    rt::cell_add(CFrames + i, -1);
  }
};



// one await; a macro because co_await belongs to the body of the coroutine
#define AWAIT_ALT(IDX)                                                         \
  if (dep.index() == IDX) {                                                    \
    auto &f = std::get<IDX>(dep);                                              \
    if constexpr (IDX == 3 || IDX == 4) {                                      \
      if (s.lvalue)                                                            \
        co_await f;                                                            \
      else                                                                     \
        co_await std::move(f);                                                 \
      got = 1;                                                                 \
    } else if (s.lvalue)                                                       \
      got = num(co_await f);                                                   \
    else                                                                       \
      got = num(co_await std::move(f));                                        \
  }

template <class Fut, class T> Fut coro(int i, std::vector<H> deps) {
  Frame frame(i);
  Node &n = w->n[i];
  int acc = i + 1;
  for (size_t k = 0; k < n.steps.size(); ++k) {
    const Step s = n.steps[k];
    H dep = std::move(deps[k]);
    int got = 0;
    bool failed = false;
    std::exception_ptr err;
    if (!started(s.dep))
      rt::nontrivial();
    try {
      AWAIT_ALT(1)
      AWAIT_ALT(2)
      AWAIT_ALT(3)
      AWAIT_ALT(4)
      AWAIT_ALT(5)
      AWAIT_ALT(6)
      AWAIT_ALT(7)
      AWAIT_ALT(8)
    } catch (...) {
      failed = true;
      err = std::current_exception();
    }
    RT_CHECK(*frame.mem == i, "resumed in a destroyed frame");
    rt::cell_add(CSteps + i, 1);
    RT_CHECK(rt::cell_get(CSteps + i) == int(k) + 1, "a coroutine is resumed %d times for %zu awaits", int(rt::cell_get(CSteps + i)), k + 1);
    RT_CHECK(started(s.dep), "a coroutine is resumed before the awaited result exists");
    const Outcome want = outcome(s.dep);
    if (failed) {
      Outcome o{Outcome::Broken, 0};
      try {
        std::rethrow_exception(err);
      } catch (const Err &e) {
        o = {Outcome::Error, e.id};
      } catch (const std::future_error &e) {
        if (e.code() != std::future_errc::broken_promise)
          o = {Outcome::Other, e.code().value()};
      }
      RT_CHECK(o.k == want.k && o.id == want.id, "co_await throws error %d (kind %d) instead of %d (kind %d)", o.id, o.k, want.id, want.k);
      if (!s.guard)
        rt::cell_set(CDone + i, 1);
      if (!s.guard)
        std::rethrow_exception(err);
      acc = (acc * 5 + (o.k == Outcome::Error ? o.id : 3)) % 1000;
    } else {
      RT_CHECK(want.k == Outcome::Value, "co_await yields a value instead of throwing");
      RT_CHECK(norm(w->n[s.dep].ty, got) == want.id, "co_await yields %d instead of %d", got, want.id);
      acc = (acc * 7 + want.id) % 1000;
    }
  }
  rt::cell_set(CDone + i, 1);
  if (n.end == 1)
    throw Err{500 + i};
  if (n.end == 4)
    throw std::future_error(std::future_errc::no_state);
  if constexpr (std::is_same_v<T, V>)
    co_return V(acc);
  else if constexpr (std::is_same_v<T, void>)
    co_return;
  else if constexpr (std::is_same_v<T, Cpy>) {
    Cpy r(acc);
    if (n.end == 2 || n.end == 3) {
      const Cpy &c = r;
      r.bomb = n.end == 3;
      co_return c;
    }
    co_return r;
  } else
    co_return g_obj[acc];
}

template <class T> struct Set {
  static void set(pc::promise<T> &p, int v) { p.set_value(T(v)); }
};
template <> struct Set<void> {
  static void set(pc::promise<void> &p, int) { p.set_value(); }
};
template <> struct Set<Obj &> {
  static void set(pc::promise<Obj &> &p, int v) { p.set_value(g_obj[v]); }
};

struct Book {
  long blocks = 0;
};
Book *g_book;
std::mutex *g_book_m;
template <class T> struct Alloc {
  using value_type = T;
  Alloc() = default;
  template <class U> Alloc(const Alloc<U> &) {}
  T *allocate(size_t n) {
    std::lock_guard<std::mutex> l(*g_book_m);
    ++g_book->blocks;
    return std::allocator<T>().allocate(n);
  }
  void deallocate(T *p, size_t n) {
    std::lock_guard<std::mutex> l(*g_book_m);
    --g_book->blocks;
    std::allocator<T>().deallocate(p, n);
  }
  bool operator==(const Alloc &) const { return true; }
};

template <class T> H wrap(pc::future<T> f, bool shared) {
  if (shared)
    return H(f.share());
  return H(std::move(f));
}
template <class T> void make_source(int i) {
  Node &n = w->n[i];
  const Outcome out = n.out;
  auto pr = n.kind == KAlloc ? pc::make_promise<T>(Alloc<int>{}) : pc::make_promise<T>();
  auto p = std::make_shared<pc::promise<T>>(std::move(pr.first));
  pc::future<T> f = std::move(pr.second);
  if (n.kind == KCont)
    f = f.then([](pc::future<T> x) -> T { return x.get(); });
  else if (n.kind == KUnwrap)
    f = pc::make_ready_future(1).next([f = std::move(f)](int) mutable { return std::move(f); });
  n.complete = [p, out]() mutable {
    auto q = std::move(p);
    if (out.k == Outcome::Value)
      Set<T>::set(*q, out.id);
    else if (out.k == Outcome::Error)
      q->set_exception(std::make_exception_ptr(Err{out.id}));
    else
      *q = pc::promise<T>{};
  };
  n.h = wrap(std::move(f), n.shared);
}
void complete(int i) {
  Node &n = w->n[i];
  rt::cell_set(CStart + i, 1);
  auto f = std::move(n.complete);
  n.complete = nullptr;
  f();
  f = nullptr;
  rt::cell_set(CEnd + i, 1);
}
H copy_of(const H &h) {
  H r;
  if (auto *p = std::get_if<2>(&h))
    r = *p;
  else if (auto *p = std::get_if<4>(&h))
    r = *p;
  else if (auto *p = std::get_if<6>(&h))
    r = *p;
  else if (auto *p = std::get_if<8>(&h))
    r = *p;
  return r;
}
H start(int i) {
  Node &n = w->n[i];
  std::vector<H> deps;
  for (auto &s : n.steps) {
    Node &d = w->n[s.dep];
    deps.push_back(d.shared ? copy_of(d.h) : std::move(d.h));
    if (!d.shared)
      d.h = H{};
  }
  switch (n.ty) {
  case TV:
    if (n.shared)
      return coro<pc::shared_future<V>, V>(i, std::move(deps));
    return coro<pc::future<V>, V>(i, std::move(deps));
  case TVoid:
    if (n.shared)
      return coro<pc::shared_future<void>, void>(i, std::move(deps));
    return coro<pc::future<void>, void>(i, std::move(deps));
  case TRef:
    if (n.shared)
      return coro<pc::shared_future<Obj &>, Obj &>(i, std::move(deps));
    return coro<pc::future<Obj &>, Obj &>(i, std::move(deps));
  default:
    if (n.shared)
      return coro<pc::shared_future<Cpy>, Cpy>(i, std::move(deps));
    return coro<pc::future<Cpy>, Cpy>(i, std::move(deps));
  }
}
// blocking read of a result handle
void read(H &h, int i) {
  const Outcome want = outcome(i);
  const Ty ty = w->n[i].ty;
  auto examine = [&](auto &f) {
    using F = std::decay_t<decltype(f)>;
    if constexpr (!std::is_same_v<F, std::monostate>) {
      RT_CHECK(f.valid(), "a coroutine's result is not valid");
      try {
        int got;
        if constexpr (std::is_void_v<decltype(f.get())>) {
          f.get();
          got = 1;
        } else
          got = num(f.get());
        RT_CHECK(want.k == Outcome::Value, "node %d yields a value instead of an error", i);
        RT_CHECK(norm(ty, got) == want.id, "node %d yields %d instead of %d", i, got, want.id);
      } catch (const Err &e) {
        RT_CHECK(want.k == Outcome::Error && want.id == e.id, "node %d yields error %d, not outcome %d of kind %d", i, e.id, want.id, want.k);
      } catch (const std::future_error &e) {
        const bool broken = e.code() == std::future_errc::broken_promise;
        RT_CHECK(broken ? want.k == Outcome::Broken : want.k == Outcome::Other && want.id == e.code().value(), "node %d yields %s", i, e.what());
      }
      RT_CHECK(started(i), "node %d has a result already", i);
    }
  };
  std::visit(examine, h);
}
bool is_ready(const H &h) {
  return std::visit(
      [](auto &f) {
        if constexpr (std::is_same_v<std::decay_t<decltype(f)>, std::monostate>)
          return true;
        else
          return f.is_ready();
      },
      h);
}
} // namespace

void run_case() {
  World world;
  w = &world;
  Book book;
  std::mutex bm;
  g_book = &book;
  g_book_m = &bm;
  for (int i = 0; i < 1024; ++i)
    g_obj[i].id = i;
  const int ns = rt::range(1, 3), nc = rt::range(1, 4);
  const int nt = rt::draw(3);
  std::string d;
  w->n.resize(ns + nc);
  static const char *tn[] = {"V", "void", "Obj&", "Cpy"};
  static const char *kn[] = {"promise", "alloc", "ready", "continuation", "unwrapped"};
  static const char *on[] = {"value", "error", "abandoned"};
  for (int i = 0; i < ns; ++i) {
    Node &n = w->n[i];
    n.ty = Ty(rt::draw(NTy));
    n.shared = rt::flip();
    n.kind = SrcKind(rt::draw(NKind));
    n.out.k = Outcome::K(rt::draw(4) % 3);
    n.out.id = n.out.k == Outcome::Broken ? 0 : 10 + i;
    n.owner = nt ? rt::draw(nt + 1) : 0;
    d += std::string(" n") + std::to_string(i) + "=" + (n.shared ? "shared " : "") + kn[n.kind] + "<" + tn[n.ty] + ">:" + on[n.out.k];
  }
  for (int i = ns; i < ns + nc; ++i) {
    Node &n = w->n[i];
    n.coro = true;
    n.ty = Ty(rt::draw(NTy));
    n.shared = rt::flip();
    n.end = rt::chance(1, 5) ? (rt::flip() ? 4 : 1) : rt::draw(4) < 2 ? 0 : rt::range(2, 3);
    d += "\n n" + std::to_string(i) + "=" + (n.shared ? "shared " : "") + "coroutine<" + tn[n.ty] + "> awaits";
    const int k = rt::draw(4);
    for (int s = 0; s < k; ++s) {
      int dep = rt::draw(i);
      if (!w->n[dep].shared && w->n[dep].users)
        continue;
      ++w->n[dep].users;
      Step st{dep, rt::chance(1, 2), rt::flip()};
      n.steps.push_back(st);
      d += " n" + std::to_string(dep) + (st.guard ? "(guarded)" : "");
    }
    d += n.end == 1 || n.end == 4 ? " throws" : " returns";
    n.drop = rt::chance(1, 6);
  }
  // what happens in main: completions owned by it and coroutine starts, in a
  // generated order
  std::vector<int> acts;
  for (int i = 0; i < ns; ++i)
    if (w->n[i].owner == 0 && w->n[i].kind != KReady)
      acts.push_back(i);
  for (int i = 0, at = 0; i < nc; ++i) {
    at += rt::draw(acts.size() + 1 - at);
    acts.insert(acts.begin() + at, ns + i);
    ++at;
  }
  const bool threads_first = rt::flip();
  d += "\n main:";
  for (int a : acts)
    d += std::string(w->n[a].coro ? " start n" : " complete n") + std::to_string(a);
  rt::trace("%s threads=%d\n", d.c_str(), nt);

  for (int i = 0; i < ns; ++i) {
    switch (w->n[i].ty) {
    case TV: make_source<V>(i); break;
    case TVoid: make_source<void>(i); break;
    case TRef: make_source<Obj &>(i); break;
    default: make_source<Cpy>(i);
    }
    if (w->n[i].kind == KReady)
      complete(i);
  }
  std::vector<std::thread> ths;
  auto spawn = [&] {
    for (int t = 1; t <= nt; ++t)
      ths.emplace_back([t, ns] {
        for (int i = 0; i < ns; ++i)
          if (w->n[i].owner == t && w->n[i].kind != KReady)
            complete(i);
      });
  };
  if (threads_first)
    spawn();
  // a coroutine in a thread-free program must have finished by now?
  auto settled = [&](int i, auto &self) -> bool {
    Node &n = w->n[i];
    if (!n.coro)
      return rt::cell_get(CEnd + i);
    for (auto &s : n.steps) {
      if (!self(s.dep, self))
        return false;
      if (outcome(s.dep).k != Outcome::Value && !s.guard)
        break;
    }
    return true;
  };
  std::vector<bool> launched(ns + nc);
  auto probe = [&] {
    if (nt)
      return;
    for (int i = ns; i < ns + nc; ++i)
      if (launched[i]) {
        const bool want = settled(i, settled);
        RT_CHECK((rt::cell_get(CDone + i) != 0) == want, "coroutine n%d %s", i, want ? "did not finish although all it awaits is there" : "finished too early");
        RT_CHECK((rt::cell_get(CFrames + i) != 0) == !want, "the frame of coroutine n%d %s", i, want ? "outlives its completion" : "is gone before its completion");
        if (w->n[i].h.index())
          RT_CHECK(is_ready(w->n[i].h) == want, "the result of coroutine n%d is %s", i, want ? "not ready" : "ready too early");
      }
  };
  for (int a : acts) {
    if (w->n[a].coro) {
      H h = start(a);
      launched[a] = true;
      w->n[a].h = std::move(h);
      if (w->n[a].drop && !w->n[a].users) {
        w->n[a].h = H{};
        rt::label("result dropped");
      }
    } else
      complete(a);
    probe();
  }
  if (!threads_first)
    spawn();
  // results are read by main or by threads blocking in get
  std::vector<std::thread> rd;
  for (int i = ns; i < ns + nc; ++i)
    if (w->n[i].h.index() && ths.size() + rd.size() < 5 && rt::chance(1, 3))
      rd.emplace_back([h = std::move(w->n[i].h), i]() mutable { read(h, i); });
  for (int i = 0; i < ns + nc; ++i)
    if (w->n[i].h.index() && !w->n[i].h.valueless_by_exception())
      if (w->n[i].coro || w->n[i].shared || !w->n[i].users) {
        // moved-out handles of threads above are invalid now
        bool v = std::visit(
            [](auto &f) {
              if constexpr (std::is_same_v<std::decay_t<decltype(f)>, std::monostate>)
                return false;
              else
                return f.valid();
            },
            w->n[i].h);
        if (v)
          read(w->n[i].h, i);
      }
  for (auto &t : ths)
    t.join();
  for (auto &t : rd)
    t.join();
  for (int i = ns; i < ns + nc; ++i) {
    RT_CHECK(rt::cell_get(CDone + i), "coroutine n%d never finished", i);
    RT_CHECK(rt::cell_get(CFrames + i) == 0, "the frame of coroutine n%d is still there", i);
  }
  w->n.clear();
  RT_CHECK(book.blocks == 0, "the user's allocator is owed %ld blocks", book.blocks);
}
