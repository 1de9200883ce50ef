// C01 / C05: every kind of result type x write end x stored outcome x read path
// x order of storing and attaching, against direct evaluation.
// PART selects the group of types (compile time).
#include "common.h"
#include <algorithm>
#include <array>
#include <iterator>
#include <map>
#include <portable_concurrency/functional>
#include <portable_concurrency/future>
#include <portable_concurrency/timed_waiter>
#include <tuple>

#ifndef PROFILE
#define PROFILE 1
#endif
#ifndef PART
#define PART 0
#endif
HARNESS("zoo_types", "the result was read by a continuation attached before the store, through a shared_future, or an exception was stored")

namespace {
constexpr int NID = 8;

// --- result types -------------------------------------------------------------
int g_copies;
struct Over { // over-aligned, knows its address
  alignas(64) int v;
  const Over *self;
  explicit Over(int x) : v(x), self(this) { place(); }
  Over(const Over &o) : v(o.v), self(this) { place(), o.place(), ++g_copies; }
  Over(Over &&o) noexcept : v(o.v), self(this) { place(), o.place(); }
  Over &operator=(const Over &) = delete;
  ~Over() { place(), self = nullptr; }
  void place() const {
    RT_CHECK(self == this, "an object was copied or moved behind its back");
    RT_CHECK(reinterpret_cast<uintptr_t>(this) % 64 == 0, "a result is stored at a misaligned address");
  }
};
struct Big {
  unsigned char b[3000];
  explicit Big(int x) {
    for (size_t i = 0; i < sizeof b; ++i)
      b[i] = (unsigned char)(x * 31 + i);
  }
  int id() const {
    for (int k = 0; k < NID; ++k)
      if (b[0] == (unsigned char)(k * 31)) {
        for (size_t i = 0; i < sizeof b; ++i)
          RT_CHECK(b[i] == (unsigned char)(k * 31 + i), "a stored object was damaged");
        return k;
      }
    return -1;
  }
};
struct Any { // constructible from anything, remembers how often it was wrapped
  std::shared_ptr<int> v;
  int wraps = 0;
  Any(const Any &o) : v(o.v), wraps(o.wraps) { ++g_copies; }
  Any(Any &&o) noexcept : v(std::move(o.v)), wraps(o.wraps) {}
  Any(Any &o) : Any(const_cast<const Any &>(o)) {}
  Any &operator=(const Any &) = default;
  template <class U> Any(U &&) : v(std::make_shared<int>(-7)), wraps(1) {}
  Any(int x, char) : v(std::make_shared<int>(x)) {}
};
struct Cnt {
  std::unique_ptr<int> v;
  explicit Cnt(int x) : v(new int(x)) {}
  Cnt(const Cnt &o) : v(new int(*o.v)) { ++g_copies; }
  Cnt(Cnt &&o) noexcept : v(std::move(o.v)) {}
  Cnt &operator=(const Cnt &) = delete;
};
struct NoAddr { // unary & and comma are traps
  int v;
  explicit NoAddr(int x) : v(x) {}
  NoAddr *operator&() { rt::fail("overloaded operator& of a result is used"); }
  const NoAddr *operator&() const { rt::fail("overloaded operator& of a result is used"); }
  template <class U> int operator,(U &&) const { rt::fail("overloaded comma of a result is used"); }
};
struct Empty {};
enum class En : signed char { a, b, c, d, e, f, g, h };
struct Abs {
  int v = 0;
  virtual int id() const = 0;
  virtual ~Abs() = default;
};
struct Impl final : Abs {
  int id() const override { return v; }
};
struct Fin final {
  std::string s;
};
struct CopyOnly { // no move constructor is declared
  std::string s;
  explicit CopyOnly(std::string x) : s(std::move(x)) {}
  CopyOnly(const CopyOnly &o) : s(o.s) {}
  CopyOnly &operator=(const CopyOnly &) = delete;
};

Impl g_impl[NID];
int g_arr[NID][3];
Over *g_over[NID];
std::string *g_str[NID];
alignas(16) char g_noaddr[NID * sizeof(NoAddr)];
NoAddr &noaddr(int i) { return reinterpret_cast<NoAddr &>(g_noaddr[i * sizeof(NoAddr)]); }
volatile int g_vol[NID];
template <int N> int fun() { return N; }
using FnT = int();
FnT *const g_fun[NID] = {fun<0>, fun<1>, fun<2>, fun<3>, fun<4>, fun<5>, fun<6>, fun<7>};
template <int N> struct alignas(8) Fwd; // incomplete
using Incomplete = Fwd<0>;
alignas(8) char g_inc[NID][8];

std::string text(int i) { return "a string that does not fit any buffer " + std::to_string(i); }

template <class X> using cref = std::add_lvalue_reference_t<std::add_const_t<X>>; // X& of a reference
template <class X> struct K;
#define VAL(X, MAKE, ID)                                                       \
  template <> struct K<X> {                                                    \
    static constexpr const char *name = #X;                                    \
    static X make(int i) { return MAKE; }                                      \
    static int id(std::add_const_t<X> &x) { return ID; }                       \
  };
VAL(int, i, x)
VAL(bool, i % 2 != 0, x)
VAL(En, static_cast<En>(i), int(x))
VAL(double, i + 0.5, int(x - 0.5))
VAL(std::string, text(i), (x.size() == text(0).size() ? x.back() - '0' : -1))
using CStr = const std::string;
template <> struct K<CStr> {
  static constexpr const char *name = "const std::string";
  static CStr make(int i) { return text(i); }
  static int id(CStr &x) { return K<std::string>::id(x); }
};
VAL(std::unique_ptr<int>, std::make_unique<int>(i), (x ? *x : -1))
VAL(std::shared_ptr<int>, std::make_shared<int>(i), (x ? *x : -1))
VAL(const char *, text(0).c_str() ? ("abcdefgh" + i) : nullptr, *x - 'a')
using FnP = FnT *;
VAL(FnP, g_fun[i], x())
VAL(std::nullptr_t, (i, nullptr), (x, -2))
VAL(Over, Over(i), (x.place(), x.v))
VAL(Big, Big(i), x.id())
VAL(Any, Any(i, 'x'), (x.wraps ? -1 : *x.v))
VAL(Cnt, Cnt(i), (x.v ? *x.v : -1))
VAL(NoAddr, NoAddr(i), x.v)
VAL(Empty, (i, Empty{}), ((void)x, -2))
VAL(Fin, Fin{text(i)}, K<std::string>::id(x.s))
VAL(CopyOnly, CopyOnly(text(i)), K<std::string>::id(x.s))
VAL(std::vector<Any>, [&] { std::vector<Any> v; v.reserve(9); for (int k = 0; k <= i; ++k) v.emplace_back(i, 'x'); return v; }(), (x.size() > 0 && int(x.size()) == 1 + *x[0].v && !x[0].wraps ? *x[0].v : -1))
VAL(std::vector<int>, std::vector<int>(2 + i, i), (x.size() >= 2 && x.size() == size_t(2 + x[0]) ? x[0] : -1))
VAL(std::vector<bool>, std::vector<bool>(i), int(x.size()))
VAL(std::tuple<>, (i, std::tuple<>{}), ((void)x, -2))
VAL(std::function<int()>, [s = text(i)] { return K<std::string>::id(s); }, (x ? x() : -1))
using Tup = std::tuple<std::unique_ptr<int>, std::string>;
VAL(Tup, Tup(std::make_unique<int>(i), text(i)), (std::get<0>(x) && *std::get<0>(x) == K<std::string>::id(std::get<1>(x)) ? *std::get<0>(x) : -1))
VAL(std::exception_ptr *, reinterpret_cast<std::exception_ptr *>(8 * (i + 1)), int(reinterpret_cast<uintptr_t>(x) / 8 - 1))
// library handles as values
VAL(pc::unique_function<int()>, [p = std::make_unique<int>(i)] { return *p; }, (x ? const_cast<pc::unique_function<int()> &>(x)() : -1))
VAL(std::vector<pc::future<int>>, [&] { std::vector<pc::future<int>> v; v.push_back(pc::make_ready_future(int(i))); return v; }(),
    (x.size() == 1 && x[0].is_ready() ? const_cast<pc::future<int> &>(x[0]).share().get() : -1))
#define REFT(X, MAKE, ID)                                                      \
  template <> struct K<X> {                                                    \
    static constexpr const char *name = #X;                                    \
    static X make(int i) { return MAKE; }                                      \
    static int id(X x) { return ID; }                                          \
  };
template <class A, class B> bool same(A &a, B &b) {
  return static_cast<const volatile void *>(std::addressof(a)) == static_cast<const volatile void *>(std::addressof(b));
}
template <class A, class F> int which(A &a, F &&at) {
  for (int i = 0; i < NID; ++i)
    if (same(a, at(i)))
      return i;
  return -1;
}
REFT(Abs &, g_impl[i], which(x, [](int i) -> Abs & { return g_impl[i]; }))
REFT(const Impl &, g_impl[i], which(x, [](int i) -> const Impl & { return g_impl[i]; }))
using Arr = int[3];
REFT(Arr &, g_arr[i], which(x, [](int i) -> Arr & { return g_arr[i]; }))
REFT(Over &, *g_over[i], which(x, [](int i) -> Over & { return *g_over[i]; }))
REFT(const std::string &, *g_str[i], which(x, [](int i) -> const std::string & { return *g_str[i]; }))
REFT(NoAddr &, noaddr(i), which(x, [](int i) -> NoAddr & { return noaddr(i); }))
REFT(volatile int &, g_vol[i], which(x, [](int i) -> volatile int & { return g_vol[i]; }))
REFT(FnT &, *g_fun[i], x())

// --- outcomes -------------------------------------------------------------------
struct VB {
  int id;
  virtual ~VB() = default;
};
struct Virt : virtual VB {};
struct Heavy {
  std::shared_ptr<int> p;
};
std::exception_ptr make_error(int kind, int id) {
  switch (kind) {
  case 0: return std::make_exception_ptr(100 + id);
  case 1: return std::make_exception_ptr(std::runtime_error(text(id)));
  case 2: {
    Virt v;
    v.id = id;
    return std::make_exception_ptr(v);
  }
  case 3: return std::make_exception_ptr(Heavy{std::make_shared<int>(id)});
  default: return std::make_exception_ptr(static_cast<const char *>("abcdefgh" + id));
  }
}
[[noreturn]] void throw_error(int kind, int id) { std::rethrow_exception(make_error(kind, id)); }

struct Obs { // what a read produced
  int n = 0;
  int kind = -1; // -1: value, otherwise the kind of error; 9: broken_promise
  int id = -9;
  const void *addr = nullptr;
};
template <class F> void observe(Obs &o, F &&f) {
  ++o.n;
  try {
    o.kind = -1;
    f();
  } catch (int x) {
    o.kind = 0, o.id = x - 100;
  } catch (std::future_error &e) {
    o.kind = e.code() == std::future_errc::broken_promise ? 9 : 10, o.id = -2;
  } catch (std::runtime_error &e) {
    o.kind = 1, o.id = K<std::string>::id(e.what());
  } catch (VB &e) {
    o.kind = 2, o.id = e.id;
  } catch (Heavy &h) {
    o.kind = 3, o.id = *h.p;
  } catch (const char *s) {
    o.kind = 4, o.id = *s - 'a';
  }
}

// --- executor ---------------------------------------------------------------------
std::vector<pc::unique_function<void()>> *g_queue;
struct Exec {};
void post(Exec, pc::unique_function<void()> t) { g_queue->push_back(std::move(t)); }
void drain() {
  for (size_t i = 0; i < g_queue->size(); ++i)
    std::exchange((*g_queue)[i], pc::unique_function<void()>())();
  g_queue->clear();
}
} // namespace
namespace portable_concurrency {
template <> struct is_executor<Exec> : std::true_type {};
} // namespace portable_concurrency
namespace {

// --- write ends --------------------------------------------------------------------
struct Plan {
  int id, err; // err: -1 value, 0..4 error, 9 dropped
  bool lvalue;
};
template <class X> struct Src {
  pc::future<X> f;
  pc::shared_future<X> s;
  bool shared = false;
  std::function<void()> complete;
};
template <class X> X produce(const Plan &p) {
  if (p.err >= 0)
    throw_error(p.err, p.id);
  return K<X>::make(p.id);
}
template <class X, bool = std::is_reference<X>::value, bool = std::is_copy_constructible<X>::value> struct Store;
template <class X, bool C> struct Store<X, true, C> {
  static void value(pc::promise<X> &p, const Plan &pl) { p.set_value(K<X>::make(pl.id)); }
};
template <class X> struct Store<X, false, true> {
  static void value(pc::promise<X> &p, const Plan &pl) {
    if (pl.lvalue) {
      const X v(K<X>::make(pl.id));
      p.set_value(v);
      RT_CHECK(K<X>::id(v) == pl.id || K<X>::id(v) == -2 || K<X>::id(v) == pl.id % 2, "set_value(const T&) modifies its argument");
    } else
      p.set_value(K<X>::make(pl.id));
  }
};
template <class X> struct Store<X, false, false> {
  static void value(pc::promise<X> &p, const Plan &pl) { p.set_value(K<X>::make(pl.id)); }
};
template <class X> void fulfil(std::shared_ptr<pc::promise<X>> &p, const Plan &pl) {
  if (pl.err == 9)
    p.reset();
  else if (pl.err >= 0)
    p->set_exception(make_error(pl.err, pl.id));
  else
    Store<X>::value(*p, pl);
}
struct Cancel {
  std::shared_ptr<int> n;
  void operator()() { ++*n; }
};
// a packaged_task of values whose function returns a reference to somebody's object
template <class X, bool = std::is_copy_constructible<X>::value && !std::is_reference<X>::value> struct ByRef {
  static bool make(Src<X> &, Plan) { return false; }
};
template <class X> struct ByRef<X, true> {
  static bool make(Src<X> &s, Plan p) {
    auto obj = std::make_shared<std::remove_const_t<X>>(K<X>::make(p.id));
    auto t = std::make_shared<pc::packaged_task<X()>>([obj, p]() -> std::remove_const_t<X> & {
      if (p.err >= 0)
        throw_error(p.err, p.id);
      return *obj;
    });
    s.f = t->get_future();
    s.complete = [t, obj, p]() mutable {
      if (p.err != 9)
        (*t)();
      t.reset();
      int id = K<X>::id(*obj);
      RT_CHECK(id == p.id || id == -2 || id == p.id % 2, "a packaged_task modifies the object its function returns by reference");
    };
    return true;
  }
};

// a packaged_task of a shared_future whose function returns a reference to somebody's
// shared_future (or a unique future that is converted)
template <class X> void make_source(Src<X> &s, int kind, Plan pl);
template <class X, bool = std::is_reference<X>::value> struct SharedTask {
  static bool by_ref(Src<X> &, Plan) { return false; } // does not compile
};
template <class X> struct SharedTask<X, false> {
  static bool by_ref(Src<X> &s, Plan p) {
    auto in = std::make_shared<Src<X>>();
    make_source(*in, int(rt::draw(9)), p);
    auto held = std::make_shared<pc::shared_future<X>>(in->f.share());
    auto t = std::make_shared<pc::packaged_task<pc::shared_future<X>()>>([held]() -> pc::shared_future<X> & { return *held; });
    s.s = t->get_future();
    s.shared = true;
    bool first = rt::flip(), inner_first = rt::flip(), drop = rt::flip();
    auto run = [held, drop](auto &t) {
      t();
      RT_CHECK(held->valid(), "a task takes away the shared_future its function refers to");
      if (drop)
        *held = pc::shared_future<X>();
    };
    if (first)
      run(*t);
    s.complete = [=]() mutable {
      auto c = std::move(in->complete);
      if (inner_first)
        c();
      if (!first)
        run(*t);
      if (!inner_first)
        c();
      if (!drop) {
        RT_CHECK(held->valid(), "a task takes away the shared_future its function refers to");
        drain();
        RT_CHECK(held->is_ready(), "the inner future does not become ready");
      }
      t.reset();
      in.reset();
      held.reset();
    };
    return true;
  }
};
template <class X> void from_unique_task(Src<X> &s, Plan p) {
  auto in = std::make_shared<Src<X>>();
  make_source(*in, int(rt::draw(9)), p);
  auto t = std::make_shared<pc::packaged_task<pc::shared_future<X>()>>([in] { return std::move(in->f); });
  s.s = t->get_future();
  s.shared = true;
  bool first = rt::flip(), inner_first = rt::flip();
  if (first)
    (*t)();
  s.complete = [=]() mutable {
    auto c = std::move(in->complete);
    if (inner_first)
      c();
    if (!first)
      (*t)();
    if (!inner_first)
      c();
    t.reset();
    in.reset();
  };
}

template <class X, bool = std::is_reference<X>::value, bool = std::is_copy_constructible<X>::value> struct Ready;
template <class X, bool C> struct Ready<X, true, C> {
  static pc::future<X> make(Plan p) { return pc::make_ready_future(std::ref(K<X>::make(p.id))); }
};
template <class X> struct Ready<X, false, false> {
  static pc::future<X> make(Plan p) { return pc::make_ready_future(K<X>::make(p.id)); }
};
template <class X> struct Ready<X, false, true> {
  static auto make(Plan p) {
    if (!p.lvalue)
      return pc::make_ready_future(K<X>::make(p.id));
    std::remove_const_t<X> v(K<X>::make(p.id));
    auto f = pc::make_ready_future(v);
    int id = K<X>::id(v);
    RT_CHECK(id == p.id || id == -2 || id == p.id % 2, "make_ready_future modifies its argument");
    return f;
  }
};
template <> struct Ready<CStr, false, true> {
  static pc::future<CStr> make(Plan p) {
    auto pf = pc::make_promise<CStr>();
    pf.first.set_value(K<CStr>::make(p.id));
    return std::move(pf.second);
  }
};

template <class X> void make_source(Src<X> &s, int kind, Plan pl) {
  auto from_promise = [&](pc::promise<X> &&pr) {
    auto p = std::make_shared<pc::promise<X>>(std::move(pr));
    s.complete = [p, pl]() mutable {
      fulfil(p, pl);
      p.reset();
    };
  };
  auto own = [&](std::pair<pc::promise<X>, pc::future<X>> &&pf) {
    s.f = std::move(pf.second);
    from_promise(std::move(pf.first));
  };
  auto alone = [&](pc::promise<X> &&p) {
    s.f = p.get_future();
    from_promise(std::move(p));
  };
  auto task = [pl](auto &&...) -> X { return produce<X>(pl); };
  // gate: a void future completed by complete()
  auto gate = [&](bool fails) {
    auto g = pc::make_promise<void>();
    auto p = std::make_shared<pc::promise<void>>(std::move(g.first));
    s.complete = [p, fails]() mutable {
      if (!fails)
        p->set_value();
      p.reset();
      drain();
    };
    return std::move(g.second);
  };
  switch (kind) {
  case 0: own(pc::make_promise<X>()); break;
  case 1: alone(pc::promise<X>()); break;
  case 2: own(pc::make_promise<X>(std::allocator<int>())); break;
  case 3: alone(pc::promise<X>(std::allocator_arg, std::allocator<char>())); break;
  case 4: own(pc::make_promise<X>(pc::canceler_arg, Cancel{std::make_shared<int>()})); break;
  case 5: alone(pc::promise<X>(pc::canceler_arg, Cancel{std::make_shared<int>()})); break;
  case 6: {
    auto t = std::make_shared<pc::packaged_task<X()>>(task);
    s.f = t->get_future();
    s.complete = [t, pl]() mutable {
      if (pl.err != 9)
        (*t)();
      t.reset();
    };
    break;
  }
  case 7: {
    auto t = std::make_shared<pc::packaged_task<X(int, std::unique_ptr<int>)>>(task);
    s.f = t->get_future();
    s.complete = [t, pl]() mutable {
      if (pl.err != 9)
        (*t)(3, std::make_unique<int>(4));
      t.reset();
    };
    break;
  }
  case 8:
    s.f = pc::async(Exec{}, [task]() -> X { return task(); });
    s.complete = [pl] {
      if (pl.err == 9) {
        auto q = std::move(*g_queue);
        g_queue->clear();
        q.clear();
      } else
        drain();
    };
    break;
  case 9: s.f = gate(pl.err == 9).next([task]() -> X { return task(); }); break;
  case 10: s.f = gate(pl.err == 9).next(Exec{}, [task]() -> X { return task(); }); break;
  case 11:
    s.f = gate(pl.err == 9).then([task](pc::future<void> f) -> X {
      f.get();
      return task();
    });
    break;
  case 12:
    s.f = gate(pl.err == 9).then([pl](pc::promise<X> p, pc::future<void> f) {
      auto sp = std::make_shared<pc::promise<X>>(std::move(p));
      Plan q = pl;
      try {
        f.get();
      } catch (...) {
        q.err = 9;
      }
      fulfil(sp, q);
    });
    break;
  // nested
  case 13: {
    auto in = std::make_shared<Src<X>>();
    make_source(*in, int(rt::draw(9)), pl);
    s.f = pc::async(pc::inplace_executor, [in] { return std::move(in->f); });
    s.complete = in->complete;
    in->complete = nullptr;
    break;
  }
  case 14: {
    auto in = std::make_shared<Src<X>>();
    make_source(*in, int(rt::draw(9)), pl);
    auto t = std::make_shared<pc::packaged_task<pc::future<X>()>>([in] { return std::move(in->f); });
    s.f = t->get_future();
    bool first = rt::flip();
    if (first)
      (*t)();
    s.complete = [t, in, first]() mutable {
      auto c = std::move(in->complete);
      if (rt::flip()) {
        c();
        if (!first)
          (*t)();
      } else {
        if (!first)
          (*t)();
        c();
      }
      t.reset();
      in.reset();
    };
    break;
  }
  case 15: {
    auto in = std::make_shared<Src<X>>();
    make_source(*in, int(rt::draw(9)), pl);
    s.s = pc::make_ready_future().next([in] { return in->f.share(); });
    s.shared = true;
    s.complete = in->complete;
    in->complete = nullptr;
    break;
  }
  case 16:
    if (ByRef<X>::make(s, pl))
      break;
    own(pc::make_promise<X>());
    break;
  case 17:
    if (SharedTask<X>::by_ref(s, pl))
      break;
    own(pc::make_promise<X>());
    break;
  case 18: from_unique_task(s, pl); break;
  default: // ready at once
    if (pl.err >= 0 && pl.err != 9)
      s.f = pc::make_exceptional_future<X>(make_error(pl.err, pl.id));
    else if (pl.err < 0)
      s.f = Ready<X>::make(pl);
    else
      own(pc::make_promise<X>());
  }
}

// --- read paths ----------------------------------------------------------------------
template <class X> void note(Obs &o, cref<X> v) { o.id = K<X>::id(v); }
template <class X> void read_unique(Obs &o, pc::future<X> &f) {
  observe(o, [&] { note<X>(o, f.get()); });
}
template <class X> void read_shared(Obs &o, const pc::shared_future<X> &f) {
  observe(o, [&] {
    decltype(auto) v = f.get();
    static_assert(std::is_same<decltype(v), std::add_lvalue_reference_t<std::add_const_t<X>>>::value, "");
    note<X>(o, v);
  });
}
template <class X> const void *addr_of(const pc::shared_future<X> &f, std::true_type) { return std::addressof(f.get()); }
template <class X> const void *addr_of(const pc::shared_future<X> &, std::false_type) { return nullptr; }
template <class X> constexpr bool is_val = !std::is_reference<X>::value;

struct Final { // the end of a path: what is to be checked after completion
  std::function<void()> finish;
};
template <class X, bool = is_val<X> && std::is_copy_constructible<X>::value> struct SharedNextVal {
  static pc::future<void> attach(pc::shared_future<X> &s, Obs *o) {
    return s.next([o](cref<X> v) { observe(*o, [&] { note<X>(*o, v); }); });
  }
};
template <class X> struct SharedNextVal<X, true> { // by value: a copy
  static pc::future<void> attach(pc::shared_future<X> &s, Obs *o) {
    return s.next([o](X v) { observe(*o, [&] { note<X>(*o, v); }); });
  }
};
// passes errors of a next() chain on to the observation
inline void end_next(pc::future<void> &f, Obs &o) {
  if (!f.is_ready())
    return;
  try {
    f.get();
    return;
  } catch (...) {
    RT_CHECK(o.n == 0, "a next() function ran although its result is an error");
    auto e = std::current_exception();
    observe(o, [&] { std::rethrow_exception(e); });
  }
}

template <class X> void one_path(Src<X> &s, bool attach_first, int path, Plan pl) {
  Obs a, b;
  bool unique_path = false; // the value must have been moved all the way
  auto complete = [&] {
    auto c = std::move(s.complete);
    s.complete = nullptr;
    if (c)
      c();
    drain();
  };
  if (s.shared && path < 30)
    path += 30;
  bool shared = path >= 30;
  if (shared && !s.shared) {
    if (rt::flip())
      s.s = s.f.share();
    else
      s.s = std::move(s.f);
    RT_CHECK(!s.f.valid(), "share() leaves the future valid");
  }
  g_copies = 0;
  if (!attach_first)
    complete();
  auto done = [&] {
    if (attach_first)
      complete();
  };
  if (!shared) {
    unique_path = true;
    bool rdy = pc::future_ready(s.f);
    RT_CHECK(rdy == s.f.is_ready(), "future_ready differs from is_ready()");
    RT_CHECK(rdy == !s.complete, "is_ready() is %d %s the store", rdy, s.complete ? "before" : "after");
    switch (path) {
    case 0:
      done();
      RT_CHECK(s.f.is_ready(), "not ready after the store");
      read_unique(a, s.f);
      break;
    case 1:
      done();
      s.f.wait();
      observe(a, [&] { note<X>(a, pc::future_get(s.f)); });
      RT_CHECK(!s.f.valid(), "future_get leaves the future valid");
      break;
    case 2: {
      auto f = s.f.next([&a](X v) { observe(a, [&] { note<X>(a, std::forward<X>(v)); }); });
      done();
      end_next(f, a);
      break;
    }
    case 3: {
      auto f = s.f.next([&a](cref<X> v) { observe(a, [&] { note<X>(a, v); }); });
      done();
      end_next(f, a);
      break;
    }
    case 4: {
      auto f = s.f.next([&a](auto &&v) {
        RT_CHECK((std::is_same<decltype(v), X &&>::value), "next passes something else than the result");
        observe(a, [&] { note<X>(a, v); });
      });
      done();
      end_next(f, a);
      break;
    }
    case 5: {
      auto f = s.f.then([&a](pc::future<X> f) {
        RT_CHECK(f.valid() && f.is_ready(), "a continuation got a future that is not ready");
        read_unique(a, f);
      });
      done();
      f.get();
      break;
    }
    case 6: {
      auto f = s.f.then([&a](auto &&f) {
        RT_CHECK((std::is_same<decltype(f), pc::future<X> &&>::value), "then passes something else than the future");
        read_unique(a, f);
      });
      done();
      f.get();
      break;
    }
    case 7: {
      auto f = pc::when_all(std::move(s.f));
      done();
      auto t = f.get();
      read_unique(a, std::get<0>(t));
      break;
    }
    case 8: {
      auto f = pc::when_any(std::move(s.f));
      done();
      auto t = f.get();
      RT_CHECK(t.index == 0, "when_any of one input reports index %zu", t.index);
      read_unique(a, std::get<0>(t.futures));
      break;
    }
    case 9: {
      std::vector<pc::future<X>> v;
      v.push_back(std::move(s.f));
      auto f = pc::when_all(v.begin(), v.end());
      done();
      auto t = f.get();
      RT_CHECK(t.size() == 1, "when_all lost an input");
      std::for_each(t.begin(), t.end(), [&](pc::future<X> &x) { read_unique(a, x); });
      break;
    }
    case 10: {
      auto f = s.f.detach();
      done();
      read_unique(a, f);
      break;
    }
    case 11: {
      pc::timed_waiter w(s.f);
      auto st = w.wait_for(std::chrono::milliseconds(attach_first ? 0 : 5));
      RT_CHECK((st == pc::future_status::ready) == !s.complete, "timed wait reports the wrong status");
      done();
      RT_CHECK(w.wait_for(std::chrono::milliseconds(0)) == pc::future_status::ready, "timed wait does not see the result");
      read_unique(a, s.f);
      break;
    }
    case 12: { // a chain passing the value along
      auto f = s.f.next([](X v) -> X { return std::forward<X>(v); }).then([](auto f) -> X { return f.get(); });
      unique_path = unique_path && !std::is_const<X>::value;
      done();
      observe(a, [&] { note<X>(a, f.get()); });
      break;
    }
    case 13: { // through an unwrapped future
      auto f = pc::make_ready_future().next([g = std::move(s.f)]() mutable { return std::move(g); });
      RT_CHECK(f.is_ready() == !s.complete, "an unwrapped future is ready at the wrong time");
      done();
      read_unique(a, f);
      break;
    }
    case 14: { // through another promise
      auto pf = pc::make_promise<std::remove_const_t<X>>();
      auto f = s.f.then([p = std::move(pf.first)](pc::future<X> f) mutable {
        try {
          p.set_value(f.get());
        } catch (...) {
          p.set_exception(std::current_exception());
        }
      });
      done();
      f.get();
      read_unique(a, reinterpret_cast<pc::future<X> &>(pf.second));
      break;
    }
    case 15: {
      int n = 0;
      s.f.notify([&n] { ++n; });
      s.f.notify(Exec{}, [&n] { n += 10; });
      RT_CHECK(n == (s.complete ? 0 : 1), "a notification ran too early");
      done();
      drain();
      RT_CHECK(n == 11, "notifications did not run exactly once (%d)", n);
      read_unique(a, s.f);
      break;
    }
    case 16: { // moved and assigned handles
      pc::future<X> g(std::move(s.f));
      RT_CHECK(!s.f.valid() && g.valid(), "moving a future loses it");
      done();
      s.f = std::move(g);
      std::swap(s.f, g);
      RT_CHECK(g.valid() && !s.f.valid(), "swapping futures loses one");
      read_unique(a, g);
      break;
    }
    default: {
      std::vector<pc::future<X>> v(1);
      v[0] = std::move(s.f);
      done();
      RT_CHECK(std::all_of(v.begin(), v.end(), pc::future_ready), "not ready");
      read_unique(a, v[0]);
    }
    }
  } else {
    RT_CHECK(pc::future_ready(s.s) == s.s.is_ready() && s.s.is_ready() == !s.complete, "a shared_future reports the wrong readiness");
    pc::future<void> f;
    switch (path - 30) {
    case 0:
    case 1: done(); break;
    case 2: f = s.s.next([&a](std::add_lvalue_reference_t<std::add_const_t<X>> v) { observe(a, [&] { note<X>(a, v); }); }); break;
    case 3: f = s.s.next([&a](auto &&v) {
      RT_CHECK((std::is_same<decltype(v), std::add_lvalue_reference_t<std::add_const_t<X>>>::value), "next passes something else");
      observe(a, [&] { note<X>(a, v); });
    }); break;
    case 4: f = s.s.then([&a](pc::shared_future<X> f) { read_shared(a, f); }); break;
    case 5: f = s.s.then([&a](const pc::shared_future<X> &f) { read_shared(a, f); }); break;
    case 6: f = SharedNextVal<X>::attach(s.s, &a); break;
    case 7: f = pc::when_all(s.s, s.s).next([&a](auto t) { read_shared(a, std::get<1>(t)); }); break;
    case 8: f = pc::when_any(s.s, s.s).next([&a](auto t) { read_shared(a, std::get<0>(t.futures)); }); break;
    case 9: {
      auto d = s.s.detach();
      RT_CHECK(!s.s.valid() && d.valid(), "detach() of a shared_future");
      s.s = d;
      break;
    }
    case 10: f = s.s.next(Exec{}, [&a](auto &v) { observe(a, [&] { note<X>(a, v); }); }); break;
    default: {
      std::vector<pc::shared_future<X>> v(2, s.s);
      f = pc::when_all(v.begin(), v.end()).next([&a](std::vector<pc::shared_future<X>> t) {
        RT_CHECK(std::all_of(t.begin(), t.end(), pc::future_ready) && t.size() == 2, "when_all lost an input");
        read_shared(a, t[0]);
      });
    }
    }
    done();
    drain();
    if (f.valid())
      end_next(f, a);
    RT_CHECK(s.s.is_ready() && s.s.valid(), "a shared_future is not ready after the store");
    auto c = s.s;
    read_shared(b, c);
    if (a.n == 0)
      observe(a, [&] { note<X>(a, pc::future_get(s.s)); });
    RT_CHECK(a.kind == b.kind && a.id == b.id, "copies of a shared_future yield different results");
    if (pl.err < 0)
      RT_CHECK(addr_of(s.s, std::integral_constant<bool, is_val<X>>{}) == addr_of(c, std::integral_constant<bool, is_val<X>>{}),
               "copies of a shared_future yield different objects");
    b = Obs{};
    read_shared(b, s.s);
    RT_CHECK(a.kind == b.kind && a.id == b.id, "reading a shared_future again yields something else");
    rt::nontrivial();
  }
  RT_CHECK(a.n == 1, "the result was delivered %d times", a.n);
  RT_CHECK(a.kind == pl.err, "stored %d, delivered %d (-1: value, 9: broken_promise)", pl.err, a.kind);
  if (pl.err != 9 && !(pl.err < 0 && a.id == -2))
    RT_CHECK(a.id == pl.id || (std::is_same<X, bool>::value && pl.err < 0 && a.id == pl.id % 2),
             "the delivered result is not the stored one: %d instead of %d", a.id, pl.id);
  if (unique_path && pl.err < 0 && !pl.lvalue)
    RT_CHECK(g_copies == 0, "a value is copied on its way out of a unique future");
  if (attach_first || pl.err >= 0)
    rt::nontrivial();
}

template <class X> void run_type() {
  Plan pl;
  pl.id = int(rt::draw(NID));
  pl.err = rt::chance(1, 4) ? (rt::chance(1, 4) ? 9 : int(rt::draw(5))) : -1;
  pl.lvalue = rt::chance(1, 3);
  static const int nested[] = {13, 14, 15, 17, 18};
  int kind = PROFILE == 5 ? nested[rt::draw(5)] : int(rt::draw(20));
  bool first = rt::flip();
  bool shared = rt::chance(2, 5);
  int path = shared ? 30 + int(rt::draw(12)) : int(rt::draw(18));
  if (kind == 16)
    pl.lvalue = true;
  rt::trace("%s: source %d outcome %d id %d%s, %s, path %d", K<X>::name, kind, pl.err, pl.id, pl.lvalue ? " (lvalue)" : "",
            first ? "attached before" : "attached after", path);
  std::vector<pc::unique_function<void()>> q;
  g_queue = &q;
  {
    Src<X> s;
    make_source(s, kind, pl);
    one_path(s, first, path, pl);
    q.clear();
  }
  g_queue = nullptr;
}
using Fn = void (*)();
#if PART == 0
const Fn types[] = {run_type<int>, run_type<CStr>, run_type<bool>, run_type<En>, run_type<std::string>, run_type<std::unique_ptr<int>>,
                    run_type<std::shared_ptr<int>>, run_type<const char *>};
#elif PART == 1
const Fn types[] = {run_type<Over>, run_type<Big>, run_type<Any>, run_type<Cnt>, run_type<NoAddr>, run_type<Empty>, run_type<Fin>};
#elif PART == 2
const Fn types[] = {run_type<std::vector<Any>>, run_type<std::vector<int>>, run_type<std::tuple<>>, run_type<std::function<int()>>,
                    run_type<Tup>, run_type<FnP>, run_type<pc::unique_function<int()>>};
#else
const Fn types[] = {run_type<Abs &>, run_type<const Impl &>, run_type<Arr &>, run_type<Over &>, run_type<const std::string &>,
                    run_type<NoAddr &>, run_type<FnT &>};
#endif
} // namespace

void run_case() {
  std::vector<std::unique_ptr<std::string>> strs;
  std::vector<std::unique_ptr<Over>> overs;
  for (int i = 0; i < NID; ++i) {
    g_impl[i].v = i;
    new (g_noaddr + i * sizeof(NoAddr)) NoAddr(i);
#if PART == 3
    strs.push_back(std::make_unique<std::string>(text(i)));
    g_str[i] = strs.back().get();
    overs.push_back(std::make_unique<Over>(i));
    g_over[i] = overs.back().get();
#endif
  }
  types[rt::draw(sizeof types / sizeof *types)]();
}
