// C10/C11: generated programs over when_all / when_any.
//
// A case: 0..4 inputs of mixed kinds, one call of a generated overload, a
// generated order (or interleaving) of input completions, and generated users
// of the combined future. The oracle is the set of inputs whose completion has
// begun / has ended at each observation.
#include "common.h"
#include <deque>
#include <list>
#include <portable_concurrency/functional>
#include <portable_concurrency/future>
#include <tuple>

#ifndef PROFILE
#define PROFILE 10
#endif
#define ALL (PROFILE == 10)
#ifndef PART
#define PART 0 // 0: tuples, 1..3: sequences of futures of V, void, Obj&
#endif

namespace {
struct Err {
  int id;
};
struct V {
  int *p = nullptr;
  explicit V(int id) : p(new int(id)) {}
  V(V &&o) noexcept : p(o.p) { o.p = nullptr; }
  V &operator=(V &&o) noexcept {
    std::swap(p, o.p);
    return *this;
  }
  ~V() { delete p; }
};
struct Obj {
  int id;
};
Obj g_obj[16];
int g_before[16]; // plain data written before an input is completed

// allocator that keeps books
struct Book {
  long blocks = 0, bytes = 0, total = 0;
};
template <class T> struct Alloc {
  using value_type = T;
  Book *b;
  explicit Alloc(Book *b) : b(b) {}
  template <class U> Alloc(const Alloc<U> &o) : b(o.b) {}
  T *allocate(size_t n) {
    T *r = std::allocator<T>().allocate(n);
    b->blocks += 1, b->bytes += n * sizeof(T), b->total += 1;
    return r;
  }
  void deallocate(T *p, size_t n) {
    b->blocks -= 1, b->bytes -= n * sizeof(T);
    std::allocator<T>().deallocate(p, n);
  }
  bool operator==(const Alloc &o) const { return b == o.b; }
  bool operator!=(const Alloc &o) const { return b != o.b; }
};

// executor which keeps the tasks
struct Queue {
  std::mutex m;
  std::deque<pc::unique_function<void()>> q;
};
struct Exec {
  Queue *q;
};
template <class T> void post(Exec e, T t) {
  pc::unique_function<void()> f{std::move(t)};
  std::lock_guard<std::mutex> l(e.q->m);
  e.q->q.push_back(std::move(f));
}
} // namespace
namespace portable_concurrency {
template <> struct is_executor<Exec> : std::true_type {};
} // namespace portable_concurrency
namespace {

enum Out { OValue, OError, OBroken };
enum Src { SPromise, SReady, STask, SCont, SUnwrap, SCanceler, SNSrc };
struct In {
  int id = 0;
  Out out = OValue;
  Src src = SPromise;
  int owner = 0;    // thread completing it
  int same_as = -1; // a copy of an earlier shared input
  int late = 0;     // what is done with it once extracted
  std::function<void()> complete, abandon;
  std::function<bool()> awaiten;
};
enum { CStart = 0, CEnd = 16, CRuns = 32, CNotify = 40, CCancel = 48 };

struct World {
  std::vector<In> in;
  bool threads = false;
  Queue queue;
  Book book;
  const void *data = nullptr;
  bool queued_needed = false;
  std::vector<std::function<void()>> at_end;
};
World *w;
bool started(int i) { return rt::cell_get(CStart + (w->in[i].same_as >= 0 ? w->in[i].same_as : i)); }
bool ended(int i) { return rt::cell_get(CEnd + (w->in[i].same_as >= 0 ? w->in[i].same_as : i)); }
bool may_be_ready() {
  size_t n = 0;
  for (size_t i = 0; i < w->in.size(); ++i)
    n += started(i);
  return ALL ? n == w->in.size() : n > 0 || w->in.empty();
}
// (a completion in progress may have won and not have told anybody yet)
bool must_be_ready() {
  size_t n = 0;
  for (size_t i = 0; i < w->in.size(); ++i) {
    n += ended(i);
    if (started(i) && !ended(i))
      return false;
  }
  return ALL ? n == w->in.size() : n > 0 || w->in.empty();
}

template <class T> struct Pay;
template <> struct Pay<V> {
  static V make(int id) { return V(id); }
  static void set(pc::promise<V> &p, int id) { p.set_value(V(id)); }
  template <class F> static int read(F &f) {
    auto &&v = f.get();
    RT_CHECK(v.p, "a moved-from value is delivered");
    return *v.p;
  }
};
template <> struct Pay<Obj &> {
  static Obj &make(int id) { return g_obj[id]; }
  static void set(pc::promise<Obj &> &p, int id) { p.set_value(g_obj[id]); }
  template <class F> static int read(F &f) {
    Obj &o = f.get();
    RT_CHECK(&o >= g_obj && &o < g_obj + 16, "unknown object delivered");
    return &o - g_obj;
  }
};
template <> struct Pay<void> {
  static void make(int) {}
  static void set(pc::promise<void> &p, int) { p.set_value(); }
  template <class F> static int read(F &f) {
    f.get();
    return -1;
  }
};

template <class T> pc::future<T> make_source(In &in) {
  const int id = in.id;
  const Out out = in.out;
  auto setup = [&](std::shared_ptr<pc::promise<T>> p) {
    in.complete = [p, id, out]() {
      auto q = std::move(p); // the write end goes away with the completion
      if (out == OValue)
        Pay<T>::set(*q, id);
      else if (out == OError)
        q->set_exception(std::make_exception_ptr(Err{id}));
      else
        *q = std::move(pc::make_promise<T>().first);
    };
    in.awaiten = [p = std::weak_ptr<pc::promise<T>>(p)] {
      auto q = p.lock();
      return q && q->is_awaiten();
    };
  };
  auto once = [&](auto f) {
    // makes a function which owns its captures until called
    auto h = std::make_shared<decltype(f)>(std::move(f));
    in.complete = [h]() { (*h)(); };
  };
  switch (in.src) {
  case SReady:
    in.complete = [] {};
    rt::cell_set(CStart + id, 1);
    rt::cell_set(CEnd + id, 1);
    if (out == OError)
      return pc::make_exceptional_future<T>(Err{id});
    if (out == OBroken) {
      auto pr = pc::make_promise<T>();
      pr.first = std::move(pc::make_promise<T>().first);
      return std::move(pr.second);
    } else {
      auto pr = pc::make_promise<T>();
      Pay<T>::set(pr.first, id);
      return std::move(pr.second);
    }
  case STask: {
    pc::packaged_task<T()> t{[id, out]() -> T {
      if (out == OError)
        throw Err{id};
      return Pay<T>::make(id);
    }};
    pc::future<T> f = t.get_future();
    once([t = std::move(t), out]() mutable {
      if (out == OBroken)
        t = pc::packaged_task<T()>{};
      else
        t();
    });
    return f;
  }
  case SCont: {
    pc::promise<int> p;
    pc::future<int> f;
    std::tie(p, f) = pc::make_promise<int>();
    once([p = std::move(p), out]() mutable {
      if (out == OBroken)
        p = std::move(pc::make_promise<int>().first);
      else
        p.set_value(1);
    });
    return f.next([id, out](int) -> T {
      if (out == OError)
        throw Err{id};
      return Pay<T>::make(id);
    });
  }
  case SUnwrap: {
    auto pr = pc::make_promise<T>();
    pc::packaged_task<pc::future<T>()> t{[f = std::move(pr.second)]() mutable { return std::move(f); }};
    pc::future<T> f = t.get_future();
    setup(std::make_shared<pc::promise<T>>(std::move(pr.first)));
    in.awaiten = nullptr;
    t();
    return f;
  }
  case SCanceler: {
    pc::promise<T> p{pc::canceler_arg, [id] { rt::cell_add(CCancel + id, 1); }};
    pc::future<T> f = p.get_future();
    setup(std::make_shared<pc::promise<T>>(std::move(p)));
    return f;
  }
  default: {
    auto pr = pc::make_promise<T>();
    setup(std::make_shared<pc::promise<T>>(std::move(pr.first)));
    return std::move(pr.second);
  }
  }
}

void complete(int i) {
  In &in = w->in[i];
  if (in.same_as >= 0 || in.src == SReady)
    return;
  rt::cell_set(CStart + i, 1);
  g_before[i] = 1;
  auto f = std::move(in.complete);
  in.complete = nullptr;
  f();
  rt::cell_set(CEnd + i, 1);
}

// --- examining inputs which came out ---------------------------------------
template <class F> struct PayOf;
template <class T> struct PayOf<pc::future<T>> {
  using type = T;
};
template <class T> struct PayOf<pc::shared_future<T>> {
  using type = T;
};
template <class F> void check_outcome(F &f, int pos) {
  using T = typename PayOf<std::decay_t<F>>::type;
  const In &in = w->in[pos];
  const int want = in.same_as >= 0 ? in.same_as : pos;
  const Out out = w->in[want].out;
  try {
    int got = Pay<T>::read(f);
    RT_CHECK(out == OValue, "input %d yields a value instead of %s", pos, out == OError ? "its error" : "broken_promise");
    RT_CHECK(got == -1 || got == want, "at position %d there is the result of input %d", pos, got);
  } catch (const Err &e) {
    RT_CHECK(out == OError, "input %d yields an error instead of %s", pos, out == OValue ? "its value" : "broken_promise");
    RT_CHECK(e.id == want, "at position %d there is the error of input %d", pos, e.id);
  } catch (const std::future_error &e) {
    RT_CHECK(e.code() == std::future_errc::broken_promise && out == OBroken, "input %d yields %s", pos, e.what());
  }
}

template <class Fn> void each(std::tuple<> &, Fn &&) {}
template <class Tup, class Fn, size_t... I> void each_t(Tup &t, Fn &fn, std::index_sequence<I...>) {
  (fn(std::get<I>(t), int(I)), ...);
}
template <class... A, class Fn> void each(std::tuple<A...> &t, Fn &&fn) {
  each_t(t, fn, std::make_index_sequence<sizeof...(A)>{});
}
template <class... A, class Fn> void each(const std::tuple<A...> &t, Fn &&fn) {
  each_t(t, fn, std::make_index_sequence<sizeof...(A)>{});
}
template <class F, class A, class Fn> void each(std::vector<F, A> &t, Fn &&fn) {
  RT_CHECK(t.size() == w->in.size(), "%zu inputs went in, %zu came out", w->in.size(), t.size());
  for (size_t i = 0; i < t.size(); ++i)
    fn(t[i], int(i));
}
template <class F, class A, class Fn> void each(const std::vector<F, A> &t, Fn &&fn) {
  RT_CHECK(t.size() == w->in.size(), "%zu inputs went in, %zu came out", w->in.size(), t.size());
  for (size_t i = 0; i < t.size(); ++i)
    fn(t[i], int(i));
}
template <class S> struct is_any : std::false_type {};
template <class S> struct is_any<pc::when_any_result<S>> : std::true_type {};

template <class R> auto &seq_of(R &r) {
  if constexpr (is_any<std::decay_t<R>>::value)
    return r.futures;
  else
    return r;
}
template <class S> const void *data_of(const S &) { return nullptr; }
template <class F, class A> const void *data_of(const std::vector<F, A> &v) { return v.data(); }

// the combined result as seen by one observer; first look, before anything is
// taken out of it
template <class R> void look(R &r) {
  RT_CHECK(may_be_ready(), "the combined future is ready although %s", ALL ? "an input is still pending" : "no input is ready");
  auto &s = seq_of(r);
  auto visible = [](int i) {
    const In &in = w->in[i];
    const int j = in.same_as >= 0 ? in.same_as : i;
    RT_CHECK(w->in[j].src == SReady || g_before[j] == 1, "what was done before input %d was completed is not visible", i);
  };
  if constexpr (is_any<std::decay_t<R>>::value) {
    if (r.index < w->in.size())
      visible(r.index);
  } else {
    for (size_t i = 0; i < w->in.size(); ++i)
      visible(i);
  }
  if (w->data)
    RT_CHECK(data_of(s) == w->data, "the vector which was passed in is not the one that comes out");
  each(s, [&](auto &f, int pos) {
    RT_CHECK(f.valid(), "input %d came out invalid", pos);
    if (ALL)
      RT_CHECK(f.is_ready(), "the combined future is ready although input %d is not", pos);
    const bool done = ended(pos), ready = f.is_ready();
    RT_CHECK(ready || !done, "input %d was completed but is not ready", pos);
    RT_CHECK(!ready || started(pos), "input %d is ready although nothing completed it", pos);
  });
  if constexpr (is_any<std::decay_t<R>>::value) {
    if (w->in.empty()) {
      RT_CHECK(r.index == size_t(-1), "index %zu for no inputs", r.index);
      return;
    }
    RT_CHECK(r.index < w->in.size(), "index %zu of %zu inputs", r.index, w->in.size());
    each(s, [&](auto &f, int pos) {
      if (size_t(pos) == r.index)
        RT_CHECK(f.is_ready(), "index %zu designates an input which is not ready", r.index);
    });
  }
}

// owner of the result: takes the inputs out and examines them; `blocking`: may
// wait for the late ones
template <class R> void take(R r, bool blocking) {
  look(r);
  size_t idx = size_t(-1);
  if constexpr (is_any<R>::value)
    idx = r.index;
  each(seq_of(r), [&](auto &f, int pos) {
    using F = std::decay_t<decltype(f)>;
    using T = typename PayOf<F>::type;
    if (ALL || size_t(pos) == idx) {
      check_outcome(f, pos);
      return;
    }
    switch (w->in[pos].late) {
    case 1:
      if (blocking) {
        rt::label("waits for a late input");
        check_outcome(f, pos);
        return;
      }
      break;
    case 2: { // dropped
      In &in = w->in[pos];
      const bool untouched = !w->threads && rt::self() == 0 && !started(pos) && in.awaiten;
      if (untouched && std::is_same<F, pc::future<T>>::value) {
        { F x = std::move(f); }
        RT_CHECK(!in.awaiten(), "a late input was taken out and dropped but its promise is still awaited");
        if (in.src == SCanceler)
          RT_CHECK(rt::cell_get(CCancel + pos) == 1, "canceler of a dropped late input ran %d times", int(rt::cell_get(CCancel + pos)));
        rt::label("late input dropped");
      }
      return;
    }
    case 3: {
      rt::label("continuation on a late input");
      rt::cell_add(CRuns + 4, 1);
      auto h = std::make_shared<pc::future<int>>(f.then([pos](F x) {
        rt::cell_add(CRuns + 4, -1);
        RT_CHECK(started(pos), "continuation of a late input runs before it is completed");
        check_outcome(x, pos);
        return 1;
      }));
      // handed to main without synchronisation of its own: join orders it
      w->in[pos].abandon = [h] { RT_CHECK(h->get() == 1, "wrong value"); };
      return;
    }
    }
    auto h = std::make_shared<F>(std::move(f));
    w->in[pos].abandon = [h, pos] {
      RT_CHECK(h->valid() && h->is_ready(), "late input %d is not ready at the end", pos);
      check_outcome(*h, pos);
    };
  });
}

struct Plan {
  int user = 0;
  bool notify = false, wrap = false, late_make = false, user_thread = false;
  int nthreads = 0;
};

template <class R> void use(pc::future<R> c, const Plan &pl, std::vector<std::thread> &ths, const std::function<void()> &rest, const std::function<void()> &join_resolvers) {
  RT_CHECK(c.valid(), "the combined future is not valid");
  auto probe = [&](auto &f) {
    const bool must = must_be_ready();
    const bool r = f.is_ready();
    RT_CHECK(!r || may_be_ready(), "the combined future is ready although %s", ALL ? "an input is still pending" : "no input is ready");
    RT_CHECK(r || !must, "the combined future is not ready although %s", ALL ? "all inputs are" : "an input is");
  };
  probe(c);
  if (pl.notify) {
    rt::cell_set(CNotify, 1);
    c.notify([] {
      rt::cell_add(CNotify, 1);
      RT_CHECK(may_be_ready(), "notification too early");
      RT_CHECK(rt::cell_get(CNotify) == 2, "notification runs twice");
    });
    RT_CHECK(c.valid(), "notify invalidates");
  }
  auto runs_once = [](int k) {
    rt::cell_add(CRuns + k, 1);
    RT_CHECK(rt::cell_get(CRuns + k) == 1, "a continuation of the combined future runs twice");
    RT_CHECK(may_be_ready(), "a continuation of the combined future runs although %s", ALL ? "an input is still pending" : "no input is ready");
  };
  auto finish = [&] {
    rest();
    join_resolvers();
  };
  auto waiting = [&](auto &f) {
    if (pl.notify)
      RT_CHECK(rt::cell_get(CNotify) == (must_be_ready() ? 2 : 1) || w->threads, "notification ran too early or not at all");
    (void)f;
  };
  switch (pl.user) {
  case 0: // get in the main thread, after everything this thread completes
    rest();
    probe(c);
    waiting(c);
    c.wait();
    RT_CHECK(c.is_ready(), "wait returned, not ready");
    take(c.get(), !w->threads || true);
    RT_CHECK(!c.valid(), "get left the future valid");
    join_resolvers();
    break;
  case 1: // a thread blocks in get
  {
    std::thread t([c = std::move(c)]() mutable {
      take(c.get(), true);
      rt::cell_add(CRuns, 1);
    });
    finish();
    t.join();
    RT_CHECK(rt::cell_get(CRuns) == 1, "get did not return");
    break;
  }
  case 2:   // then, in place
  case 3:   // next, in place
  case 4: { // then, executor
    pc::future<int> d;
    if (pl.user == 2)
      d = c.then([runs_once](pc::future<R> f) {
        runs_once(0);
        RT_CHECK(f.is_ready(), "continuation gets a pending future");
        take(f.get(), false);
        return 7;
      });
    else if (pl.user == 3)
      d = c.next([runs_once](R r) {
        runs_once(0);
        take(std::move(r), false);
        return 7;
      });
    else
      d = c.then(Exec{&w->queue}, [runs_once](pc::future<R> f) {
        runs_once(0);
        take(f.get(), false);
        return 7;
      });
    if (pl.user != 4)
      probe(d);
    rest();
    if (pl.user != 4)
      probe(d);
    join_resolvers();
    if (pl.user == 4) {
      RT_CHECK(w->queue.q.size() == 1, "%zu tasks posted for one continuation", w->queue.q.size());
      RT_CHECK(!d.is_ready(), "ready before the executor ran the task");
      w->queue.q.front()();
      w->queue.q.clear();
    }
    RT_CHECK(d.is_ready(), "continuation of the combined future did not run");
    RT_CHECK(d.get() == 7, "wrong value");
    break;
  }
  case 5: { // shared by several readers
    pc::shared_future<R> s = c.share();
    std::vector<std::thread> rd;
    for (int i = 0; i < (pl.user_thread ? 2 : 0); ++i)
      rd.emplace_back([s]() mutable { look(s.get()); });
    pc::future<int> d = s.next([runs_once](const R &r) {
      runs_once(1);
      look(r);
      return 9;
    });
    probe(s);
    rest();
    probe(s);
    join_resolvers();
    for (auto &t : rd)
      t.join();
    RT_CHECK(s.is_ready() && d.is_ready(), "not ready at the end");
    auto &r = s.get();
    look(r);
    look(s.get());
    RT_CHECK(&r == &s.get(), "two different results");
    RT_CHECK(d.get() == 9, "wrong value");
    break;
  }
  case 6: // dropped
    c = pc::future<R>{};
    finish();
    break;
  case 7: { // part of another combination
    auto d = pc::when_all(std::move(c), pc::make_ready_future(3)).next([](auto t) {
      RT_CHECK(std::get<1>(t).get() == 3, "wrong value");
      return std::move(std::get<0>(t)); // unwrapped
    });
    probe(d);
    rest();
    probe(d);
    join_resolvers();
    RT_CHECK(d.is_ready(), "not ready at the end");
    take(d.get(), true);
    break;
  }
  }
  (void)ths;
}

template <class R> void program_r(const Plan &pl, const std::function<pc::future<R>()> &mk);
template <class M> void program(const Plan &pl, M &&mk) {
  using F = decltype(mk());
  program_r<std::decay_t<decltype(std::declval<F &>().get())>>(pl, std::function<F()>(std::ref(mk)));
}
template <class R> void program_r(const Plan &pl, const std::function<pc::future<R>()> &mk) {
  // the order of completions of each thread is a generated permutation
  const int n = w->in.size();
  std::vector<std::vector<int>> work(pl.nthreads + 1);
  {
    std::vector<int> perm;
    for (int i = 0; i < n; ++i)
      perm.insert(perm.begin() + (perm.size() - rt::draw(perm.size() + 1)), i);
    for (int i : perm)
      work[w->in[i].owner].push_back(i);
  }
  const size_t before = rt::draw(work[0].size() + 1); // completed by main before the call
  const bool threads_first = rt::flip();
  std::vector<std::thread> ths;
  auto start = [&] {
    for (int t = 1; t <= pl.nthreads; ++t)
      ths.emplace_back([&, t] {
        for (int i : work[t])
          complete(i);
      });
  };
  std::string d;
  for (int t = 0; t <= pl.nthreads; ++t)
    for (size_t k = 0; k < work[t].size(); ++k)
      d += (k ? "," : t ? " T" + std::to_string(t) + ":" : " main:") + std::to_string(work[t][k]) +
           (t == 0 && k + 1 == before ? "(call)" : "");
  rt::trace("order%s before=%zu %s user=%d%s\n", d.c_str(), before, threads_first ? "threads first" : "call first", pl.user, pl.notify ? " notify" : "");
  if (threads_first)
    start();
  for (size_t k = 0; k < before; ++k)
    complete(work[0][k]);
  auto c = mk();
  if (!threads_first)
    start();
  use(
      std::move(c), pl, ths,
      [&] {
        for (size_t k = before; k < work[0].size(); ++k)
          complete(work[0][k]);
      },
      [&] {
        for (auto &t : ths)
          t.join();
        ths.clear();
      });
  for (auto &in : w->in)
    if (in.abandon) {
      auto f = std::move(in.abandon);
      f();
    }
  if (pl.notify)
    RT_CHECK(rt::cell_get(CNotify) == 2, "a notification of the combined future never ran");
  RT_CHECK(rt::cell_get(CRuns + 4) == 0, "a continuation of a late input did not run");
}

template <class... F> auto call_t(F &&...f) {
#if ALL
  return pc::when_all(std::forward<F>(f)...);
#else
  return pc::when_any(std::forward<F>(f)...);
#endif
}

// single pass: all copies share one position
template <class F> struct OnePass {
  using iterator_category = std::input_iterator_tag;
  using value_type = F;
  using difference_type = std::ptrdiff_t;
  using pointer = F *;
  using reference = F &;
  struct Pos {
    F *cur, *end;
  };
  Pos *pos = nullptr; // null: the end
  bool done() const { return !pos || pos->cur == pos->end; }
  F &operator*() const {
    RT_CHECK(!done(), "an input iterator is dereferenced past its end");
    return *pos->cur;
  }
  F *operator->() const { return &**this; }
  OnePass &operator++() {
    RT_CHECK(!done(), "an input iterator is moved past its end");
    ++pos->cur;
    return *this;
  }
  struct Old {
    F *p;
    F &operator*() const { return *p; }
  };
  Old operator++(int) {
    Old o{&**this};
    ++*this;
    return o;
  }
  friend bool operator==(const OnePass &a, const OnePass &b) { return a.done() == b.done(); }
  friend bool operator!=(const OnePass &a, const OnePass &b) { return !(a == b); }
};

template <class T> auto many_unique(int form, const Plan &pl) {
  std::vector<pc::future<T>> v;
  for (auto &in : w->in)
    v.push_back(make_source<T>(in));
  auto gone = [](auto &c) {
    for (auto &f : c)
      RT_CHECK(!f.valid(), "an input passed by iterators is still valid in the source");
  };
  switch (form) {
  case 0:
    return program(pl, [&] {
      auto r = call_t(v.begin(), v.end());
      gone(v);
      return r;
    });
  case 1:
    return program(pl, [&] {
      w->data = v.data();
      return call_t(std::move(v));
    });
  case 2: {
    std::list<pc::future<T>> l(std::make_move_iterator(v.begin()), std::make_move_iterator(v.end()));
    return program(pl, [&] {
      auto r = call_t(l.begin(), l.end());
      gone(l);
      return r;
    });
  }
  case 3:
    return program(pl, [&] {
      auto r = call_t(v.data(), v.data() + v.size());
      gone(v);
      return r;
    });
  case 4:
    return program(pl, [&] {
      typename OnePass<pc::future<T>>::Pos pos{v.data(), v.data() + v.size()};
      auto r = call_t(OnePass<pc::future<T>>{&pos}, OnePass<pc::future<T>>{});
      gone(v);
      return r;
    });
  case 5: {
    std::deque<pc::future<T>> q;
    for (auto &f : v)
      q.push_front(std::move(f));
    return program(pl, [&] {
      auto r = call_t(q.rbegin(), q.rend());
      gone(q);
      return r;
    });
  }
  default: {
    std::vector<pc::future<T>, Alloc<pc::future<T>>> a{Alloc<pc::future<T>>(&w->book)};
    a.reserve(v.size());
    for (auto &f : v)
      a.push_back(std::move(f));
    return program(pl, [&] {
      w->data = a.data();
      return call_t(std::move(a));
    });
  }
  }
}
template <class T> auto many_shared(int form, const Plan &pl) {
  std::vector<pc::shared_future<T>> v;
  for (auto &in : w->in)
    v.push_back(in.same_as >= 0 ? v[in.same_as] : make_source<T>(in).share());
  auto kept = [](auto &c) {
    for (auto &f : c)
      RT_CHECK(f.valid(), "a shared input passed by iterators became invalid in the source");
  };
  bool keep = rt::flip();
  auto after = [&](auto &c) {
    if (!keep)
      c.clear();
    else
      w->at_end.push_back([copy = std::vector<pc::shared_future<T>>(c.begin(), c.end())]() mutable {
        for (size_t i = 0; i < copy.size(); ++i) {
          RT_CHECK(copy[i].is_ready(), "not ready");
          check_outcome(copy[i], i);
        }
      });
  };
  switch (form) {
  case 0:
    return program(pl, [&] {
      auto r = call_t(v.begin(), v.end());
      kept(v);
      after(v);
      return r;
    });
  case 1:
    return program(pl, [&] {
      w->data = v.data();
      if (keep) {
        auto x = v;
        after(x);
      }
      return call_t(std::move(v));
    });
  case 2: {
    const std::list<pc::shared_future<T>> l(v.begin(), v.end());
    v.clear();
    return program(pl, [&] {
      auto r = call_t(l.begin(), l.end());
      kept(l);
      return r;
    });
  }
  case 3:
    return program(pl, [&] { // passed as lvalue: the vector is copied
      auto r = call_t(v);
      kept(v);
      RT_CHECK(v.size() == w->in.size(), "vector passed by value was modified");
      after(v);
      return r;
    });
  case 4:
    return program(pl, [&] {
      typename OnePass<pc::shared_future<T>>::Pos pos{v.data(), v.data() + v.size()};
      auto r = call_t(OnePass<pc::shared_future<T>>{&pos}, OnePass<pc::shared_future<T>>{});
      kept(v);
      after(v);
      return r;
    });
  case 5:
    return program(pl, [&] {
      std::vector<pc::shared_future<T>> x(v.rbegin(), v.rend());
      auto r = call_t(x.crbegin(), x.crend());
      kept(x);
      after(v);
      return r;
    });
  default: {
    using A = Alloc<pc::shared_future<T>>;
    std::vector<pc::shared_future<T>, A> a(v.begin(), v.end(), A(&w->book));
    v.clear();
    return program(pl, [&] {
      w->data = a.data();
      return call_t(std::move(a));
    });
  }
  }
}

template <class T> struct Tag {};
template <class T> void with_type(Tag<T>, int form, int sub, const Plan &pl) {
  form < 8 ? many_unique<T>(sub, pl) : many_shared<T>(sub, pl);
}
} // namespace

void run_case() {
  World world;
  w = &world;
  Plan pl;
#if PART == 0
  const int form = 0; // tuples
#else
  const int form = 4 + rt::draw(8); // < 8: unique, else shared
#endif
  int n;
  static const int tuple_size[] = {0, 1, 2, 2, 3, 3, 3, 5};
  const int tup = rt::draw(8);
  if (form < 4)
    n = tuple_size[tup];
  else
    n = rt::chance(1, 16) ? rt::range(5, 12) : rt::draw(5);
  w->in.resize(n);
  w->threads = rt::draw(3) != 0;
  pl.nthreads = w->threads ? rt::range(1, 2) : 0;
  std::string d;
  for (int i = 0; i < n; ++i) {
    In &in = w->in[i];
    in.id = i;
    g_before[i] = 0;
    g_obj[i].id = i;
    in.out = Out(rt::draw(4) % 3);
    in.src = Src(rt::draw(SNSrc));
    in.owner = w->threads ? rt::draw(pl.nthreads + 1) : 0;
    in.late = rt::draw(4);
    if (form < 4 && tup == 6) {
      if (i != 1)
        in.same_as = i == 2 ? 0 : -1;
    } else if (form >= 8 && i > 0 && rt::chance(1, 5)) {
      in.same_as = rt::draw(i);
      if (w->in[in.same_as].same_as >= 0)
        in.same_as = w->in[in.same_as].same_as;
    }
    static const char *sn[] = {"promise", "ready", "task", "continuation", "unwrapped", "cancelable"};
    static const char *on[] = {"value", "error", "abandoned"};
    if (in.same_as >= 0)
      d += " copy" + std::to_string(in.same_as);
    else
      d += std::string(" ") + sn[in.src] + ":" + on[in.out];
  }
  pl.user = rt::draw(8);
  pl.notify = rt::chance(1, 3);
  pl.user_thread = w->threads && rt::flip();
  const int type = PART - 1;
  const int sub = rt::draw(7);
  static const char *tn[] = {"V", "void", "Obj&"};
  rt::trace("%s form=%s%d.%s inputs:%s\n", ALL ? "when_all" : "when_any", form < 4 ? "tuple" : form < 8 ? "unique" : "shared", form < 4 ? tup : sub,
            form < 4 ? "-" : tn[type], d.c_str());
  int pending = 0;
  for (auto &in : w->in)
    pending += in.same_as < 0 && in.src != SReady;
  if (pending >= 2)
    rt::nontrivial();
  if (n == 0)
    rt::label("no inputs");
  if (w->threads)
    rt::label("completed by threads");
#if PART == 0
  {
    auto &I = w->in;
    switch (tup) {
    case 0:
      program(pl, [&] { return call_t(); });
      break;
    case 1: {
      auto a = make_source<V>(I[0]);
      program(pl, [&] {
        auto r = call_t(std::move(a));
        RT_CHECK(!a.valid(), "input still valid");
        return r;
      });
      break;
    }
    case 2: {
      auto a = make_source<V>(I[0]).share();
      auto b = make_source<void>(I[1]);
      program(pl, [&] {
        auto r = call_t(a, std::move(b));
        RT_CHECK(a.valid() && !b.valid(), "lvalue shared_future must be copied, future moved");
        a = {};
        return r;
      });
      break;
    }
    case 3: {
      auto a = make_source<Obj &>(I[0]);
      auto b = make_source<V>(I[1]).share();
      program(pl, [&] { return call_t(std::move(a), std::move(b)); });
      break;
    }
    case 4: {
      auto a = make_source<V>(I[0]);
      auto b = make_source<Obj &>(I[1]);
      auto c = make_source<void>(I[2]).share();
      program(pl, [&] {
        const auto &cc = c;
        auto r = call_t(std::move(a), std::move(b), cc);
        RT_CHECK(c.valid(), "const shared_future must be copied");
        c = {};
        return r;
      });
      break;
    }
    case 5: {
      auto a = make_source<void>(I[0]);
      auto b = make_source<V>(I[1]);
      auto c = make_source<V>(I[2]);
      program(pl, [&] { return call_t(std::move(a), std::move(b), std::move(c)); });
      break;
    }
    case 6: {
      auto a = make_source<V>(I[0]).share();
      auto b = make_source<void>(I[1]);
      program(pl, [&] {
        auto r = call_t(a, std::move(b), a);
        RT_CHECK(a.valid() && !b.valid(), "lvalue shared_future must be copied, future moved");
        a = {};
        return r;
      });
      break;
    }
    default: {
      auto a = make_source<V>(I[0]);
      auto b = make_source<V>(I[1]).share();
      auto c = make_source<void>(I[2]).share();
      auto d5 = make_source<Obj &>(I[3]);
      auto e = make_source<void>(I[4]);
      program(pl, [&] {
        auto r = call_t(std::move(a), std::move(b), c, std::move(d5), std::move(e));
        RT_CHECK(!a.valid() && !b.valid() && c.valid() && !d5.valid() && !e.valid(), "validity of the inputs after the call");
        c = {};
        return r;
      });
    }
    }
  }
#else
  using T = std::tuple_element_t<PART - 1, std::tuple<Tag<V>, Tag<void>, Tag<Obj &>>>;
  with_type(T{}, form, sub, pl);
#endif
  for (auto &f : w->at_end)
    f();
  w->at_end.clear();
  w->in.clear();
  RT_CHECK(w->book.blocks == 0 && w->book.bytes == 0, "the user's allocator is owed %ld blocks / %ld bytes", w->book.blocks, w->book.bytes);
  w = nullptr;
}

HARNESS(ALL ? "when_all" : "when_any", "at least two inputs pending when the case starts")
