// C04 / C13: every kind of callable x way of passing it x attach operation x kind
// of executor x outcome, against a direct call of the same function.
#include "common.h"
#include <array>
#include <portable_concurrency/functional>
#include <portable_concurrency/future>
#include <portable_concurrency/thread_pool>

#ifndef PART
#define PART 0
#endif
HARNESS("zoo_calls", "the function was attached before the source was completed, or ran through a posted task")

namespace {
struct Err {
  int id;
};
std::string text(int i) { return "a string that does not fit any buffer " + std::to_string(i); }
int id_of(const std::string &s) { return s.size() >= text(0).size() && s.compare(0, text(0).size() - 1, text(0), 0, text(0).size() - 1) == 0 ? std::stoi(s.substr(text(0).size() - 1)) : -1; }

// --- log of one function ----------------------------------------------------------
struct Log {
  int calls = 0, arg = -9, err = 0;
  bool throws = false;
  int salt = 0;
  int objs = 0; // live instances of the callable
  bool posted = false, inside = false;
} *g;
struct Life { // counted, notices use after move and destruction
  int state = 1;
  const Life *self = this;
  Life() { ++g->objs; }
  Life(const Life &o) : state(o.state) {
    o.check("copied");
    ++g->objs;
  }
  Life(Life &&o) noexcept : state(o.state) {
    o.check("moved");
    o.state = 2;
    ++g->objs;
  }
  Life &operator=(const Life &) = delete;
  ~Life() {
    RT_CHECK(self == this && state, "a function object is destroyed twice or relocated");
    state = 0;
    self = nullptr;
    --g->objs;
  }
  void check(const char *what) const {
    RT_CHECK(self == this && state == 1, "a function object is %s %s", what, state == 2 ? "after it was moved from" : "after destruction");
  }
};
// the argument as seen by the function
int seen(std::string &&s) {
  std::string t = std::move(s);
  return id_of(t);
}
int seen(const std::string &s) { return id_of(s); }
template <class F> int read(F &f) {
  RT_CHECK(f.valid() && f.is_ready(), "a continuation got a future that is not valid and ready");
  try {
    return seen(f.get());
  } catch (Err &e) {
    return 1000 + e.id;
  }
}
int seen(pc::future<std::string> &&f) { return read(f); }
int seen(pc::shared_future<std::string> &&f) { return read(f); }
int seen(const pc::shared_future<std::string> &f) { return read(f); }
int seen(const pc::future<std::string> &f) { return read(const_cast<pc::future<std::string> &>(f)); }

int body(int arg) {
  RT_CHECK(g->inside, "a function ran outside of its executor");
  ++g->calls;
  g->arg = arg;
  if (g->throws)
    throw Err{500 + g->salt};
  return arg * 10 + g->salt;
}

// --- kinds of callables -------------------------------------------------------------
#define CALL(Q)                                                                \
  template <class A> int operator()(A &&a) Q {                                 \
    this->l.check("called");                                                   \
    return body(seen(std::forward<A>(a)));                                     \
  }
struct Plain {
  Life l;
  CALL()
};
struct Const {
  Life l;
  CALL(const)
};
struct Final final {
  Life l;
  CALL()
};
struct Large {
  Life l;
  std::array<int, 100> pad{};
  CALL()
};
struct alignas(64) Wide {
  Life l;
  template <class A> int operator()(A &&a) {
    RT_CHECK(reinterpret_cast<uintptr_t>(this) % 64 == 0, "a function object lies at a misaligned address");
    l.check("called");
    return body(seen(std::forward<A>(a)));
  }
};
struct MoveOnly {
  Life l;
  std::unique_ptr<int> p = std::make_unique<int>(1);
  template <class A> int operator()(A &&a) {
    l.check("called");
    RT_CHECK(p && *p == 1, "a moved-from function is called");
    return body(seen(std::forward<A>(a)));
  }
};
struct CopyOnly { // no move constructor is declared
  Life l;
  CopyOnly() = default;
  CopyOnly(const CopyOnly &o) : l(o.l) {}
  CALL()
};
struct Traps { // overloaded & and comma
  Life l;
  CALL()
  Traps *operator&() { rt::fail("overloaded operator& of a function object is used"); }
  const Traps *operator&() const { rt::fail("overloaded operator& of a function object is used"); }
  template <class U> int operator,(U &&) const { rt::fail("overloaded comma of a function object is used"); }
};
struct NoThrow {
  Life l;
  template <class A> int operator()(A &&a) noexcept(false) { return l.check("called"), body(seen(std::forward<A>(a))); }
};
struct ListInit { // constructing it with braces from another one picks the wrong constructor
  Life l;
  bool wrong = false;
  ListInit() = default;
  ListInit(const ListInit &) = default;
  ListInit(ListInit &&) = default;
  ListInit(std::initializer_list<ListInit>) : wrong(true) {}
  template <class A> int operator()(A &&a) {
    RT_CHECK(!wrong, "a function object was constructed from an initializer list");
    l.check("called");
    return body(seen(std::forward<A>(a)));
  }
};
// one argument type each
template <class A> int free_fn(A a) { return body(seen(std::move(a))); }
template <class A> int free_cref(const A &a) { return body(seen(a)); }
template <class A> struct Obj {
  Life l;
  int method(A a) { return l.check("called"), body(seen(std::move(a))); }
};

// --- executors -----------------------------------------------------------------------
std::vector<pc::unique_function<void()>> *g_queue;
int g_posts;
void enqueue(pc::unique_function<void()> t) {
  ++g_posts;
  g->posted = true;
  g_queue->push_back(std::move(t));
}
void drain(bool drop = false) {
  while (!g_queue->empty()) {
    auto q = std::move(*g_queue);
    g_queue->clear();
    for (auto &t : q) {
      if (!drop) {
        g->inside = true;
        t();
        g->inside = false;
      }
      t = pc::unique_function<void()>();
    }
  }
}
struct Queue {
  int id = 1;
};
template <class T> void post(Queue, T &&t) { enqueue(std::forward<T>(t)); }
struct ByPtr { // move-only executor
  std::unique_ptr<int> p = std::make_unique<int>(3);
};
template <class T> void post(ByPtr &e, T t) {
  RT_CHECK(e.p && *e.p == 3, "a moved-from executor is used");
  enqueue(std::move(t));
}
struct FinalEx final {};
template <class T> void post(const FinalEx &, T &&t) { // keeps the task as what it is
  auto p = std::make_shared<std::decay_t<T>>(std::forward<T>(t));
  enqueue([p] { (*p)(); });
}
struct BigEx {
  std::shared_ptr<int> p = std::make_shared<int>(5);
  std::array<char, 200> pad{};
};
void post(BigEx e, pc::unique_function<void()> t) {
  RT_CHECK(e.p && *e.p == 5, "a moved-from executor is used");
  enqueue(std::move(t));
}
struct CopyEx { // copyable only
  std::string s = text(3);
  CopyEx() = default;
  CopyEx(const CopyEx &o) : s(o.s) {}
};
void post(const CopyEx &e, pc::unique_function<void()> t) {
  RT_CHECK(e.s == text(3), "an executor was not copied properly");
  enqueue(std::move(t));
}
struct AtOnce {}; // runs in post
template <class T> void post(AtOnce, T &&t) {
  ++g_posts;
  g->posted = true;
  bool was = g->inside;
  g->inside = true;
  std::decay_t<T> task(std::forward<T>(t));
  task();
  g->inside = was;
}
} // namespace
namespace portable_concurrency {
template <> struct is_executor<Queue> : std::true_type {};
template <> struct is_executor<ByPtr> : std::true_type {};
template <> struct is_executor<FinalEx> : std::true_type {};
template <> struct is_executor<BigEx> : std::true_type {};
template <> struct is_executor<CopyEx> : std::true_type {};
template <> struct is_executor<AtOnce> : std::true_type {};
} // namespace portable_concurrency
namespace {

// --- one attach operation ---------------------------------------------------------------
struct Source {
  std::shared_ptr<pc::promise<std::string>> p;
  pc::future<std::string> f;
  bool fails;
  void complete() {
    if (!p)
      return;
    auto q = std::move(p);
    if (fails)
      q->set_exception(std::make_exception_ptr(Err{7}));
    else
      q->set_value(text(7));
  }
};

enum Op { UThen, UNext, SThen, SNext, Async, Task };
const char *const opname[] = {"future.then", "future.next", "shared_future.then", "shared_future.next", "async", "packaged_task"};

template <class A> struct As { using type = A; };
struct Case {
  Op op;
  int ex;      // -1: none, otherwise kind of executor
  bool before; // attached before completion
  bool fails;  // the source fails
  bool drop;   // queued tasks are dropped instead of run
  int pass;    // 0 rvalue, 1 lvalue, 2 const lvalue
};

// passes fn the chosen way; whatever is passed as an lvalue has to stay usable
template <bool Cp, class A, class F, class K> auto pass(const Case &c, F &fn, K &&k) {
  if constexpr (Cp && std::is_invocable<const F &, A>::value) {
    if (c.pass == 2)
      return k(static_cast<const F &>(fn));
  }
  if constexpr (Cp) {
    if (c.pass)
      return k(fn);
  }
  return k(std::move(fn));
}

template <class F, class K> pc::future<int> with_executor(const Case &c, K &&k) {
  switch (c.ex) {
  case 0: return k(Queue{});
  case 1: return k(ByPtr{});
  case 2: {
    FinalEx e;
    return k(e);
  }
  case 3: {
    BigEx e;
    auto r = c.pass == 2 ? k(static_cast<const BigEx &>(e)) : k(e);
    RT_CHECK(e.p && *e.p == 5, "an executor passed as an lvalue was moved from");
    return r;
  }
  case 4: {
    CopyEx e;
    return k(e);
  }
  default: return k(AtOnce{});
  }
}

// MK<A>() makes the callable for argument type A; COPY: may be passed as an lvalue
template <class A, class MK> pc::future<int> attach(Op op, const Case &c, Source &s, pc::shared_future<std::string> &sh, MK &&mk) {
  auto fn = mk(As<A>{});
  using F = decltype(fn);
  constexpr bool Cp = std::is_copy_constructible<F>::value && !std::remove_reference_t<MK>::rvalue_only;
  auto k = [&](auto &&f) -> pc::future<int> {
    using G = decltype(f);
    if constexpr (std::is_same<A, pc::future<std::string>>::value) {
      if (c.ex < 0)
        return s.f.then(std::forward<G>(f));
      return with_executor<F>(c, [&](auto &&e) -> pc::future<int> { return s.f.then(std::forward<decltype(e)>(e), std::forward<G>(f)); });
    } else if constexpr (std::is_same<A, pc::shared_future<std::string>>::value) {
      if (c.ex < 0)
        return sh.then(std::forward<G>(f));
      return with_executor<F>(c, [&](auto &&e) -> pc::future<int> { return sh.then(std::forward<decltype(e)>(e), std::forward<G>(f)); });
    } else if (op == UNext) {
      if (c.ex < 0)
        return s.f.next(std::forward<G>(f));
      return with_executor<F>(c, [&](auto &&e) -> pc::future<int> { return s.f.next(std::forward<decltype(e)>(e), std::forward<G>(f)); });
    } else if (op == SNext) {
      if (c.ex < 0)
        return sh.next(std::forward<G>(f));
      return with_executor<F>(c, [&](auto &&e) -> pc::future<int> { return sh.next(std::forward<decltype(e)>(e), std::forward<G>(f)); });
    } else if (op == Async) {
      std::string arg = text(7);
      pc::future<int> r;
      bool lv = rt::flip();
      if (c.ex < 0) {
        g->inside = true;
        r = lv ? pc::async(pc::inplace_executor, std::forward<G>(f), arg) : pc::async(pc::inplace_executor, std::forward<G>(f), text(7));
        g->inside = false;
      } else
        r = with_executor<F>(c, [&](auto &&e) -> pc::future<int> {
          return lv ? pc::async(std::forward<decltype(e)>(e), std::forward<G>(f), arg)
                    : pc::async(std::forward<decltype(e)>(e), std::forward<G>(f), text(7));
        });
      RT_CHECK(arg == text(7), "async modifies an argument passed as an lvalue");
      return r;
    } else {
      pc::packaged_task<int(std::string)> t(std::forward<G>(f));
      auto r = t.get_future();
      if (c.ex < 0) {
        g->inside = true;
        t(text(7));
        g->inside = false;
      } else
        enqueue([t = std::make_shared<decltype(t)>(std::move(t))] { (*t)(text(7)); });
      return r;
    }
  };
  auto r = pass<Cp, A>(c, fn, k);
  if (Cp && c.pass)
    mk.intact(fn);
  return r;
}

template <class MK> void run_callable(const char *name, MK &&mk) {
  Case c;
  c.op = Op(rt::draw(6));
  c.ex = rt::chance(2, 3) ? int(rt::draw(6)) : -1;
  c.before = rt::flip();
  c.fails = c.op < Async && rt::chance(1, 4);
  c.pass = int(rt::draw(3));
  c.drop = c.ex >= 0 && rt::chance(1, 8);
  g->throws = rt::chance(1, 5);
  g->salt = int(rt::draw(7));
  rt::trace("%s by %s, function %s passed as %s, executor %d, %s, source %s, %s%s", opname[c.op], c.op < Async ? (c.before ? "before" : "after") : "call",
            name, c.pass == 0 ? "rvalue" : c.pass == 1 ? "lvalue" : "const lvalue", c.ex, "int", c.fails ? "fails" : "succeeds",
            g->throws ? "throws" : "returns", c.drop ? ", tasks dropped" : "");
  if (c.before || c.ex >= 0)
    rt::nontrivial();
  auto pf = pc::make_promise<std::string>();
  Source s{std::make_shared<pc::promise<std::string>>(std::move(pf.first)), std::move(pf.second), c.fails};
  bool shared = c.op == SThen || c.op == SNext;
  pc::shared_future<std::string> sh;
  if (shared)
    sh = s.f.share();
  bool chained = c.op < Async;
  g->inside = c.ex < 0; // without an executor it runs in place
  if (chained && !c.before)
    s.complete();
  pc::future<int> r;
  if (c.op == UThen)
    r = attach<pc::future<std::string>>(c.op, c, s, sh, mk);
  else if (c.op == SThen)
    r = attach<pc::shared_future<std::string>>(c.op, c, s, sh, mk);
  else
    r = attach<std::string>(c.op, c, s, sh, mk);
  RT_CHECK(r.valid(), "attaching yields an invalid future");
  if (chained) {
    RT_CHECK(s.f.valid() == false, "attaching does not consume a unique future");
    RT_CHECK(sh.valid() == shared, "attaching consumes a shared_future");
    if (c.before) {
      RT_CHECK(g->calls == 0 && g_posts == 0 && !r.is_ready(), "a function ran or was posted before its source was ready");
      s.complete();
    }
  }
  if (c.ex >= 0) {
    if (c.op != Task)
      RT_CHECK(g_posts == 1, "a function with an executor was posted %d times", g_posts);
    if (c.ex != 5 || c.op == Task)
      RT_CHECK(g->calls == 0 && !r.is_ready(), "a posted function had an effect before the executor ran it");
  }
  bool dropped = c.drop && !g_queue->empty();
  drain(c.drop);
  RT_CHECK(r.is_ready(), "the result is not ready after everything ran");
  bool expect_call = !dropped && !(c.fails && (c.op == UNext || c.op == SNext));
  RT_CHECK(g->calls == (expect_call ? 1 : 0), "the function was called %d times", g->calls);
  int arg = c.fails ? 1007 : 7;
  if (expect_call)
    RT_CHECK(g->arg == arg, "the function saw %d instead of %d", g->arg, arg);
  // result by direct evaluation
  int got = -5, err = -1;
  bool broken = false;
  try {
    got = r.get();
  } catch (Err &e) {
    err = e.id;
  } catch (std::future_error &e) {
    broken = e.code() == std::future_errc::broken_promise;
  }
  if (dropped)
    RT_CHECK(broken, "a dropped task does not deliver broken_promise");
  else if (!expect_call)
    RT_CHECK(err == 7, "next does not pass the error on");
  else if (g->throws)
    RT_CHECK(err == 500 + g->salt, "the exception of the function is not the result");
  else
    RT_CHECK(got == arg * 10 + g->salt && err == -1 && !broken, "the result is %d instead of %d", got, arg * 10 + g->salt);
  if (shared) {
    try {
      RT_CHECK(id_of(sh.get()) == 7 && !c.fails, "the shared source changed");
    } catch (Err &e) {
      RT_CHECK(c.fails && e.id == 7, "the shared source changed");
    }
  }
}

template <class T, bool Rv = false> struct Functor {
  static constexpr bool rvalue_only = Rv;
  template <class A> T operator()(As<A>) { return T{}; }
  void intact(const T &f) { f.l.check("left"); }
};
struct Lambda { // mutable lambda with state
  static constexpr bool rvalue_only = false;
  template <class A> auto operator()(As<A>) {
    return [l = Life(), n = 0](auto &&a) mutable {
      l.check("called");
      RT_CHECK(n++ == 0, "a function is called again");
      return body(seen(std::forward<decltype(a)>(a)));
    };
  }
  template <class F> void intact(F &f) {
    F again(f); // a moved-from Life can not be copied
    (void)again;
  }
};
struct FnPtr {
  static constexpr bool rvalue_only = false;
  template <class A> auto operator()(As<A>) { return &free_fn<A>; }
  template <class F> void intact(F f) { RT_CHECK(f, "a function pointer passed as an lvalue was changed"); }
};
struct FnCref {
  static constexpr bool rvalue_only = false;
  template <class A> auto operator()(As<A>) { return &free_cref<A>; }
  template <class F> void intact(F f) { RT_CHECK(f, "a function pointer passed as an lvalue was changed"); }
};
struct StdFn {
  static constexpr bool rvalue_only = false;
  template <class A> auto operator()(As<A>) { return std::function<int(A)>(Plain{}); }
  template <class F> void intact(F &f) { RT_CHECK(f, "a std::function passed as an lvalue was moved from"); }
};
struct UniqueFn {
  static constexpr bool rvalue_only = true;
  template <class A> auto operator()(As<A>) { return pc::unique_function<int(A)>(MoveOnly{}); }
  template <class F> void intact(F &) {}
};
struct RefWrap {
  static constexpr bool rvalue_only = false;
  Plain target;
  template <class A> auto operator()(As<A>) { return std::ref(target); }
  template <class F> void intact(F &) { target.l.check("left"); }
};
struct Bind {
  static constexpr bool rvalue_only = false;
  std::shared_ptr<void> keep;
  template <class A> auto operator()(As<A>) {
    auto o = std::make_shared<Obj<A>>();
    return std::bind([o](auto &&a) { return o->method(std::forward<decltype(a)>(a)); }, std::placeholders::_1);
  }
  template <class F> void intact(F &f) {
    F again(f);
    (void)again;
  }
};
#if PART == 0
void pick() {
  switch (rt::draw(6)) {
  case 0: return run_callable("class", Functor<Plain>{});
  case 1: return run_callable("const class", Functor<Const>{});
  case 2: return run_callable("mutable lambda", Lambda{});
  case 3: return run_callable("function pointer", FnPtr{});
  case 4: return run_callable("move-only class", Functor<MoveOnly, true>{});
  default: return run_callable("large class", Functor<Large>{});
  }
}
#elif PART == 1
void pick() {
  switch (rt::draw(6)) {
  case 0: return run_callable("class with noexcept(false)", Functor<NoThrow>{});
  case 1: return run_callable("final class", Functor<Final>{});
  case 2: return run_callable("over-aligned class", Functor<Wide>{});
  case 3: return run_callable("copy-only class", Functor<CopyOnly>{});
  case 4: return run_callable("class with traps", Functor<Traps>{});
  default: return run_callable("initializer list class", Functor<ListInit>{});
  }
}
#elif PART == 2
void pick() {
  switch (rt::draw(5)) {
  case 0: return run_callable("function pointer (const&)", FnCref{});
  case 1: return run_callable("std::function", StdFn{});
  case 2: return run_callable("unique_function", UniqueFn{});
  case 3: return run_callable("reference_wrapper", RefWrap{});
  default: return run_callable("bind", Bind{});
  }
}
#elif PART == 4
// --- named function objects x every kind of source and result ------------------------
int g_obj[2] = {3, 3};
enum Src { Str, Void, Ref };
template <int S> struct SrcT;
template <> struct SrcT<Str> { using type = std::string; };
template <> struct SrcT<Void> { using type = void; };
template <> struct SrcT<Ref> { using type = int &; };
template <int S, bool Sh> using FutT = std::conditional_t<Sh, pc::shared_future<typename SrcT<S>::type>, pc::future<typename SrcT<S>::type>>;
enum Ret { RInt, RVoid, RRef, RFut, RSFut };
template <int R> struct RetT { using type = int; using val = int; };
template <> struct RetT<RVoid> { using type = void; using val = void; };
template <> struct RetT<RRef> { using type = int &; using val = int &; };
template <> struct RetT<RFut> { using type = pc::future<int>; using val = int; };
template <> struct RetT<RSFut> { using type = pc::shared_future<int>; using val = int; };
int look(const std::string &s) { return id_of(s); }
int look(int &r) { return &r == &g_obj[0] ? 7 : -1; }
template <class F> int look_fut(F &f) {
  RT_CHECK(f.valid() && f.is_ready(), "a continuation got a future that is not valid and ready");
  try {
    return look(f.get());
  } catch (Err &e) {
    return 1000 + e.id;
  }
}
template <> int look_fut(pc::future<void> &f) {
  try {
    f.get();
    return 7;
  } catch (Err &e) {
    return 1000 + e.id;
  }
}
template <> int look_fut(pc::shared_future<void> &f) {
  try {
    f.get();
    return 7;
  } catch (Err &e) {
    return 1000 + e.id;
  }
}
template <int R> typename RetT<R>::type finish(int arg) {
  int v = body(arg);
  if constexpr (R == RInt)
    return v;
  else if constexpr (R == RVoid)
    return;
  else if constexpr (R == RRef)
    return g_obj[1];
  else if constexpr (R == RFut)
    return pc::make_ready_future(int(v));
  else
    return pc::make_ready_future(int(v)).share();
}
template <int S, bool Sh, int R> struct NThen {
  Life l;
  typename RetT<R>::type operator()(FutT<S, Sh> f) {
    l.check("called");
    return finish<R>(look_fut(f));
  }
};
template <int S, int R> struct NNext {
  Life l;
  typename RetT<R>::type operator()(std::conditional_t<S == Str, const std::string &, int &> a) {
    l.check("called");
    return finish<R>(look(a));
  }
};
template <int R> struct NNext<Void, R> {
  Life l;
  typename RetT<R>::type operator()() {
    l.check("called");
    return finish<R>(7);
  }
};
template <int S, bool Sh, int R> struct NIntr {
  Life l;
  void operator()(pc::promise<typename RetT<R>::val> p, FutT<S, Sh> f) {
    l.check("called");
    try {
      int v = body(look_fut(f));
      if constexpr (R == RInt)
        p.set_value(v);
      else if constexpr (R == RVoid)
        p.set_value();
      else
        p.set_value(g_obj[1]);
    } catch (Err &) {
      p.set_exception(std::current_exception());
    }
  }
};
struct NNote {
  Life l;
  void operator()() {
    l.check("called");
    RT_CHECK(g->inside, "a function ran outside of its executor");
    ++g->calls;
  }
};
// runs k with the function the chosen way
template <class F, class K> auto give(int pass, K &&k) {
  F fn;
  if (pass == 0)
    return k(std::move(fn));
  if constexpr (!std::is_void<decltype(k(fn))>::value) {
    auto r = k(fn);
    fn.l.check("left");
    return r;
  } else {
    k(fn);
    fn.l.check("left");
  }
}
template <int S, bool Sh, int R> void named_case() {
  const int how = rt::draw(R == RFut || R == RSFut ? 2 : 3);
  const bool posted = rt::flip(), before = rt::flip(), fails = rt::chance(1, 4);
  const int pass = rt::chance(1, 4) ? 0 : 1;
  g->throws = rt::chance(1, 5);
  g->salt = int(rt::draw(7));
  static const char *sn[] = {"string", "void", "int&"}, *rn[] = {"int", "void", "int&", "future<int>", "shared_future<int>"},
                    *hn[] = {"then", "next", "interruptible then"};
  rt::trace("%s<%s>.%s(%s%s function returning %s), attached %s, source %s, function %s", Sh ? "shared_future" : "future", sn[S], hn[how],
            posted ? "executor, " : "", pass ? "named" : "temporary", rn[R], before ? "before" : "after", fails ? "fails" : "succeeds",
            g->throws ? "throws" : "returns");
  if (before || posted)
    rt::nontrivial();
  auto pf = pc::make_promise<typename SrcT<S>::type>();
  FutT<S, Sh> f;
  if constexpr (Sh)
    f = pf.second.share();
  else
    f = std::move(pf.second);
  FutT<S, Sh> keep;
  if constexpr (Sh)
    keep = f;
  auto complete = [&] {
    g->inside = !posted;
    if (fails)
      pf.first.set_exception(std::make_exception_ptr(Err{7}));
    else if constexpr (S == Str)
      pf.first.set_value(text(7));
    else if constexpr (S == Void)
      pf.first.set_value();
    else
      pf.first.set_value(g_obj[0]);
    g->inside = false;
  };
  if (!before)
    complete();
  std::conditional_t<R == RSFut, pc::shared_future<int>, pc::future<typename RetT<R>::val>> r;
  const bool plain = rt::flip();
  g->inside = !posted;
  auto attach = [&](auto &&fn, auto op) {
    using G = decltype(fn);
    if (posted)
      return op(Queue{}, std::forward<G>(fn));
    return op(pc::inplace_executor, std::forward<G>(fn));
  };
  auto then_op = [&](auto e, auto &&fn) {
    using G = decltype(fn);
    return plain && std::is_same<decltype(e), std::decay_t<decltype(pc::inplace_executor)>>::value ? f.then(std::forward<G>(fn)) : f.then(e, std::forward<G>(fn));
  };
  auto next_op = [&](auto e, auto &&fn) {
    using G = decltype(fn);
    return plain && std::is_same<decltype(e), std::decay_t<decltype(pc::inplace_executor)>>::value ? f.next(std::forward<G>(fn)) : f.next(e, std::forward<G>(fn));
  };
  if (how == 0)
    r = give<NThen<S, Sh, R>>(pass, [&](auto &&fn) { return attach(std::forward<decltype(fn)>(fn), then_op); });
  else if (how == 1)
    r = give<NNext<S, R>>(pass, [&](auto &&fn) { return attach(std::forward<decltype(fn)>(fn), next_op); });
  else if constexpr (R != RFut && R != RSFut)
    r = give<NIntr<S, Sh, R>>(pass, [&](auto &&fn) { return attach(std::forward<decltype(fn)>(fn), then_op); });
  g->inside = false;
  RT_CHECK(r.valid(), "attaching yields an invalid future");
  if (before) {
    RT_CHECK(g->calls == 0 && g_posts == 0 && !r.is_ready(), "a function ran or was posted before its source was ready");
    complete();
  }
  RT_CHECK(g_posts == posted, "posted %d times", g_posts);
  if (posted)
    RT_CHECK(g->calls == 0 && !r.is_ready(), "a posted function had an effect before the executor ran it");
  drain();
  const bool called = !(how == 1 && fails);
  RT_CHECK(g->calls == called, "the function was called %d times", g->calls);
  RT_CHECK(r.is_ready(), "the result is not ready after everything ran");
  const int arg = fails ? 1007 : 7;
  if (called)
    RT_CHECK(g->arg == arg, "the function saw %d instead of %d", g->arg, arg);
  int err = -1, got = arg * 10 + g->salt;
  try {
    if constexpr (R == RVoid)
      r.get();
    else if constexpr (R == RRef)
      got = &r.get() == &g_obj[1] ? got : -5;
    else
      got = r.get();
  } catch (Err &e) {
    err = e.id;
  }
  RT_CHECK(err == (!called ? 7 : g->throws ? 500 + g->salt : -1), "the result is error %d", err);
  if (err < 0)
    RT_CHECK(got == arg * 10 + g->salt, "the result is %d", got);
  if constexpr (Sh)
    RT_CHECK(look_fut(keep) == arg, "the shared source changed");
}
template <bool Sh> void note_case() {
  const bool posted = rt::flip(), before = rt::flip();
  const int pass = rt::chance(1, 4) ? 0 : 1;
  rt::trace("%s.notify(%s%s function), attached %s", Sh ? "shared_future" : "future", posted ? "executor, " : "", pass ? "named" : "temporary", before ? "before" : "after");
  rt::nontrivial();
  auto pf = pc::make_promise<std::string>();
  FutT<Str, Sh> f;
  if constexpr (Sh)
    f = pf.second.share();
  else
    f = std::move(pf.second);
  g->inside = !posted;
  if (!before)
    pf.first.set_value(text(7));
  give<NNote>(pass, [&](auto &&fn) {
    using G = decltype(fn);
    if (posted)
      f.notify(Queue{}, std::forward<G>(fn));
    else
      f.notify(std::forward<G>(fn));
  });
  if (before) {
    RT_CHECK(g->calls == 0 && g_posts == 0, "a notification came before the result");
    pf.first.set_value(text(7));
  }
  g->inside = false;
  RT_CHECK(f.valid() && look_fut(f) == 7, "the source changed");
  RT_CHECK(g_posts == posted, "posted %d times", g_posts);
  drain();
  RT_CHECK(g->calls == 1, "the notification ran %d times", g->calls);
}
template <int S, bool Sh> void pick_ret() {
  switch (rt::draw(5)) {
  case 0: return named_case<S, Sh, RInt>();
  case 1: return named_case<S, Sh, RVoid>();
  case 2: return named_case<S, Sh, RRef>();
  case 3: return named_case<S, Sh, RFut>();
  default: return named_case<S, Sh, RSFut>();
  }
}
void pick() {
  switch (rt::draw(8)) {
  case 0: return pick_ret<Str, false>();
  case 1: return pick_ret<Str, true>();
  case 2: return pick_ret<Void, false>();
  case 3: return pick_ret<Void, true>();
  case 4: return pick_ret<Ref, false>();
  case 5: return pick_ret<Ref, true>();
  case 6: return note_case<false>();
  default: return note_case<true>();
  }
}
#else
// --- member pointers, arguments, void and reference results, interruptible functions ---
struct Rec {
  int v = 0;
  std::string s;
  int add(int x) { return body(v + x); }
  int size() const { return body(v); }
  int take(std::unique_ptr<int> p, const std::string &t, int &r) {
    r += 1;
    return body(v + *p + id_of(t));
  }
};
struct RecD : Rec {};
int many(int a, long b, short c, double d, const char *s, std::string t, std::unique_ptr<int> p) {
  return body(a + int(b) + c + int(d) + (*s - 'a') + id_of(t) + *p);
}
int by_ref(int &r, const std::string &s) {
  r += 5;
  return body(id_of(s));
}
template <class F> void expect(F f, int arg) {
  if (g_queue->size())
    RT_CHECK(g->calls == 0 && !f.is_ready(), "a posted function had an effect before the executor ran it");
  drain();
  RT_CHECK(f.is_ready(), "the result is not ready after everything ran");
  RT_CHECK(g->calls == 1 && g->arg == arg, "called %d times, saw %d instead of %d", g->calls, g->arg, arg);
  try {
    int r = f.get();
    RT_CHECK(!g->throws && r == arg * 10 + g->salt, "the result is %d instead of %d", r, arg * 10 + g->salt);
  } catch (Err &e) {
    RT_CHECK(g->throws && e.id == 500 + g->salt, "the exception of the function is not the result");
  }
}
template <class E> void args(E ex, bool queued) {
  int k = int(rt::draw(16));
  g->throws = rt::chance(1, 5);
  g->salt = int(rt::draw(7));
  rt::trace("arguments %d, %s, %s", k, queued ? "queued" : "in place", g->throws ? "throws" : "returns");
  if (queued)
    rt::nontrivial();
  g->inside = !queued;
  Rec rec;
  rec.v = 3;
  RecD der;
  der.v = 4;
  int r = 0;
  std::string str = text(2);
  auto up = std::make_unique<Rec>();
  up->v = 6;
  auto sp = std::make_shared<RecD>();
  sp->v = 8;
  switch (k) {
  case 0: expect(pc::async(ex, &Rec::add, &rec, 5), 8); break;
  case 1: expect(pc::async(ex, &Rec::add, std::ref(rec), 5), 8); break;
  case 2: expect(pc::async(ex, &Rec::size, rec), 3); break;
  case 3: expect(pc::async(ex, &Rec::size, &der), 4); break;
  case 4: expect(pc::async(ex, &Rec::add, std::move(up), 1), 7); break;
  case 5: expect(pc::async(ex, &Rec::add, sp, 1), 9); RT_CHECK(sp.use_count() == 1, "an argument is kept"); break;
  case 6: expect(pc::async(ex, &Rec::take, &rec, std::make_unique<int>(4), str, std::ref(r)), 9); RT_CHECK(r == 1, "a reference argument was copied"); break;
  case 7: expect(pc::async(ex, many, 1, 2L, short(3), 4.5, "bcd", str, std::make_unique<int>(5)), 1 + 2 + 3 + 4 + 1 + 2 + 5); break;
  case 8: expect(pc::async(ex, by_ref, std::ref(r), str), 2); RT_CHECK(r == 5, "a reference argument was copied"); break;
  case 9: expect(pc::async(ex, std::mem_fn(&Rec::size), &rec), 3); break;
  case 10: { // data member through a pointer: a reference to the member itself
    auto f = pc::async(ex, &Rec::s, &rec);
    rec.s = text(1);
    drain();
    std::string &s = f.get();
    RT_CHECK(&s == &rec.s, "a member pointer yields a reference to something else");
    break;
  }
  case 11: { // packaged_task with reference, rvalue and move-only parameters
    pc::packaged_task<int(int &, const std::string &, std::unique_ptr<int>, std::string &&)> t(
        [](int &a, const std::string &b, std::unique_ptr<int> c, std::string &&d) {
          a += 2;
          std::string m = std::move(d);
          return body(id_of(b) + *c + id_of(m));
        });
    auto f = t.get_future();
    g->inside = true;
    std::string d = text(4);
    const void *where = d.data();
    (void)where;
    t(r, str, std::make_unique<int>(3), std::move(d));
    RT_CHECK(r == 2 && str == text(2), "a reference parameter was copied or an argument modified");
    expect(std::move(f), 9);
    break;
  }
  case 12: { // value continuation given member functions
    auto pf = pc::make_promise<Rec>();
    auto f = pf.second.next(ex, &Rec::size);
    rec.v = 5;
    pf.first.set_value(rec);
    expect(std::move(f), 5);
    break;
  }
  case 13: { // reference continuation
    auto pf = pc::make_promise<Rec &>();
    auto f = pf.second.next(ex, [&](Rec &x) {
      RT_CHECK(&x == &rec, "a continuation got a reference to something else");
      return x.size();
    });
    pf.first.set_value(rec);
    expect(std::move(f), 3);
    break;
  }
  case 14: { // interruptible continuation as a function pointer
    auto pf = pc::make_promise<int>();
    auto f = pf.second.then(ex, +[](pc::promise<int> p, pc::future<int> x) {
      try {
        p.set_value(body(x.get()));
      } catch (...) {
        p.set_exception(std::current_exception());
      }
    });
    pf.first.set_value(6);
    expect(std::move(f), 6);
    break;
  }
  default: { // a function returning a reference, then void
    auto pf = pc::make_promise<void>();
    auto f = pf.second.next(ex, [&]() -> Rec & { return rec; });
    pf.first.set_value();
    drain();
    Rec &x = f.get();
    RT_CHECK(&x == &rec, "a reference result is a reference to something else");
    auto v = pc::async(ex, [&] { (void)body(3); });
    static_assert(std::is_same<decltype(v), pc::future<void>>::value, "");
    drain();
    RT_CHECK(g->calls == 1, "called %d times", g->calls);
    try {
      v.get();
      RT_CHECK(!g->throws, "an exception got lost");
    } catch (Err &) {
      RT_CHECK(g->throws, "a void function failed");
    }
  }
  }
}
void pick() {
  switch (rt::draw(3)) {
  case 0: return args(Queue{}, true);
  case 1: return args(FinalEx{}, true);
  default: return args(pc::inplace_executor, false);
  }
}
#endif
} // namespace

void run_case() {
  Log log;
  g = &log;
  std::vector<pc::unique_function<void()>> q;
  g_queue = &q;
  g_posts = 0;
  pick();
  RT_CHECK(q.empty(), "something was posted late");
  RT_CHECK(log.objs == 0, "%d function objects are not destroyed", log.objs);
  g = nullptr;
  g_queue = nullptr;
}
