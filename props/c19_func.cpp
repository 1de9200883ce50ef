// C19: histories of construct / move / assign / swap / call / destroy over
// unique_function objects of several signatures, against a model.
#include "common.h"
#include <array>
#include <portable_concurrency/functional>
#include <portable_concurrency/future>

HARNESS("c19_func", "a target was called after it had been moved at least once, or a non-empty function was overwritten")

namespace {
struct Err {
  int id;
};
// copyable argument which counts copies
struct Arg {
  int *v;
  int copies = 0;
  explicit Arg(int x) : v(new int(x)) {}
  Arg(const Arg &o) : v(new int(*o.v)), copies(o.copies + 1) {}
  Arg(Arg &&o) noexcept : v(o.v), copies(o.copies) { o.v = nullptr; }
  Arg &operator=(Arg o) noexcept {
    std::swap(v, o.v);
    copies = o.copies;
    return *this;
  }
  ~Arg() { delete v; }
};
struct Base {
  virtual ~Base() {}
  int b = 0;
};
struct Derived : Base {
  int d = 0;
};
struct P {
  int id = 0;
  int x = 0;
  int get(int a) { return id * 1000 + a; }
  int cget(int a) const { return id * 1000 + a; }
  int nget(int a) noexcept { return id * 1000 + a; }
};
struct PD : P {
  int extra = 3;
};
P g_p[64];
Derived g_d[64];
Arg *g_a[64];

// --- bookkeeping of targets ---------------------------------------------------
constexpr int MAXID = 64;
int g_live[MAXID];    // owning (not moved-from) instances
int g_objs[MAXID];    // instances at all
int g_calls[MAXID];   // calls seen by the target
bool g_throw[MAXID];  // target throws when called
bool g_armed[MAXID];  // its moves throw
bool g_copy_throws;   // the next copy throws
std::vector<std::function<void()>> refs; // to be released after the history

template <size_t Size, size_t Align, bool Nothrow> struct alignas(Align) Body {
  int id;
  bool owner = true;
  int calls = 0;
  const Body *self;
  unsigned char fill[Size > 24 ? Size - 24 : 1];
  explicit Body(int i) : id(i), self(this) {
    ++g_live[id], ++g_objs[id];
    for (auto &c : fill)
      c = (unsigned char)(id + (&c - fill));
  }
  void take(const Body &o) {
    calls = o.calls;
    for (size_t i = 0; i < sizeof fill; ++i)
      fill[i] = o.fill[i];
  }
  Body(Body &&o) noexcept(Nothrow) : id(o.id), owner(o.owner), self(this) {
    o.check_place();
    if (!Nothrow && g_armed[id])
      throw Err{-1};
    take(o);
    o.owner = false;
    ++g_objs[id];
  }
  Body(const Body &o) : id(o.id), owner(o.owner), self(this) {
    if (g_copy_throws)
      throw Err{-2};
    take(o);
    ++g_objs[id];
    g_live[id] += owner;
  }
  ~Body() {
    check_place();
    self = nullptr;
    g_live[id] -= owner;
    --g_objs[id];
    RT_CHECK(g_live[id] >= 0, "target %d destroyed twice", id);
  }
  void check_place() const {
    RT_CHECK(self == this, "a target is used which was not constructed here or was destroyed");
    RT_CHECK(reinterpret_cast<uintptr_t>(this) % Align == 0, "a target with alignment %zu lies at %p", Align, (const void *)this);
  }
  int enter() {
    check_place();
    RT_CHECK(owner, "a moved-from target is called");
    for (auto &c : fill)
      RT_CHECK(c == (unsigned char)(id + (&c - fill)), "target %d is corrupted", id);
    ++calls;
    ++g_calls[id];
    RT_CHECK(calls == g_calls[id], "a target lost its state: %d calls seen by it, %d made", calls, g_calls[id]);
    if (g_throw[id])
      throw Err{id};
    return id;
  }
};

// --- signatures ----------------------------------------------------------------
// each one: F, impl(id, args...) computing the target's result, call(f, id)
// calling through the wrapper and examining the result
int fn_int(int a) { return 1000 * 63 + a; }
struct SInt {
  using F = int(int);
  static constexpr const char *name = "int(int)";
  static int impl(int id, int a) { return id * 1000 + a; }
  template <class U> static void call(const U &f, int id) {
    int a = rt::draw(900);
    int r = f(a);
    RT_CHECK(r == id * 1000 + a, "wrong result %d", r);
  }
};
struct SLong { // result converted
  using F = long(const int &);
  static constexpr const char *name = "long(const int&)";
  static int impl(int id, const int &a) { return id * 1000 + a; }
  template <class U> static void call(const U &f, int id) {
    int a = rt::draw(900);
    RT_CHECK(f(a) == id * 1000 + a, "wrong result");
  }
};
struct SVoid {
  using F = void();
  static constexpr const char *name = "void()";
  static int last;
  static int impl(int id) { return last = id; }
  template <class U> static void call(const U &f, int id) {
    last = -1;
    f();
    RT_CHECK(last == id, "the target was not called");
  }
};
int SVoid::last;
struct SCRef {
  using F = const Arg &();
  static constexpr const char *name = "const Arg&()";
  static const Arg &impl(int id) { return *g_a[id]; }
  template <class U> static void call(const U &f, int id) {
    const Arg &r = f();
    RT_CHECK(&r == g_a[id], "reference to another object returned");
  }
};
struct SRef {
  using F = Arg &(Arg &, const Arg &);
  static constexpr const char *name = "Arg&(Arg&, const Arg&)";
  static Arg &impl(int id, Arg &a, const Arg &b) {
    *a.v += id;
    RT_CHECK(a.copies == 0 && b.copies == 0, "an argument passed by reference was copied");
    return a;
  }
  template <class U> static void call(const U &f, int id) {
    Arg a(5), b(6);
    Arg &r = f(a, b);
    RT_CHECK(&r == &a, "reference to another object returned");
    RT_CHECK(*a.v == 5 + id, "the target worked on another object");
  }
};
struct SRRef {
  using F = Arg && (Arg &&);
  static constexpr const char *name = "Arg&&(Arg&&)";
  static Arg &&impl(int, Arg &&a) { return std::move(a); }
  template <class U> static void call(const U &f, int) {
    Arg a(5);
    Arg &&r = f(std::move(a));
    RT_CHECK(&r == &a && a.v && *a.v == 5, "reference to another object returned");
  }
};
struct SMove {
  using F = std::unique_ptr<int>(std::unique_ptr<int>, Arg);
  static constexpr const char *name = "unique_ptr(unique_ptr, Arg)";
  static std::unique_ptr<int> impl(int id, std::unique_ptr<int> p, Arg a) {
    RT_CHECK(p && a.v && *a.v == 77, "an argument got lost");
    RT_CHECK(a.copies <= 1, "an argument passed by value was copied %d times", a.copies);
    *p += id;
    return p;
  }
  template <class U> static void call(const U &f, int id) {
    std::unique_ptr<int> p(new int(9));
    int *raw = p.get();
    std::unique_ptr<int> r;
    if (rt::flip()) {
      r = f(std::move(p), Arg(77));
    } else {
      Arg a(77);
      r = f(std::move(p), a);
      RT_CHECK(a.v && *a.v == 77, "a caller's object was moved from");
    }
    RT_CHECK(r.get() == raw && *raw == 9 + id, "wrong result");
  }
};
struct SPtr { // result converted derived to base
  using F = Base *(Derived &);
  static constexpr const char *name = "Base*(Derived&)";
  static Derived *impl(int id, Derived &d) {
    d.d = id;
    return &d;
  }
  template <class U> static void call(const U &f, int id) {
    Derived d;
    Base *b = f(d);
    RT_CHECK(b == &d && d.d == id, "wrong result");
  }
};
struct SBaseRef {
  using F = const Base &();
  static constexpr const char *name = "const Base&()";
  static Derived &impl(int id) { return g_d[id]; }
  template <class U> static void call(const U &f, int id) {
    const Base &b = f();
    RT_CHECK(&b == &g_d[id], "reference to another object returned");
  }
};

template <class S, class F = typename S::F> struct Functor;
template <class S, class R, class... A> struct Functor<S, R(A...)> {
  template <size_t Size, size_t Align, bool Nothrow> struct Fn : Body<Size, Align, Nothrow> {
    using Body<Size, Align, Nothrow>::Body;
    explicit operator bool() const { return false; } // nobody's business: not a null target
    auto operator()(A... a) -> decltype(S::impl(0, std::forward<A>(a)...)) {
      int id = this->enter();
      return S::impl(id, std::forward<A>(a)...);
    }
  };
};

// a big callable which can be null
template <class S, class F = typename S::F> struct Nullable;
template <class S, class R, class... A> struct Nullable<S, R(A...)> {
  std::shared_ptr<typename Functor<S>::template Fn<24, 8, true>> f;
  char pad[64] = {};
  auto operator()(A... a) const -> decltype(S::impl(0, std::forward<A>(a)...)) {
    RT_CHECK(f, "a null target is called");
    return (*f)(std::forward<A>(a)...);
  }
  friend bool operator==(const Nullable &n, std::nullptr_t) { return !n.f; }
};

// --- the machine ----------------------------------------------------------------
struct M {
  enum K { Empty, Husk, Target } k = Empty;
  int id = -1;
  bool moved = false;
  bool tracked = false; // the target's instances are counted
};

// owner of one function object, at an address which is a multiple of 8 only
template <class U> struct Box {
  alignas(64) unsigned char raw[sizeof(U) + 64];
  U *p = nullptr;
  ~Box() { reset(); }
  void reset() {
    if (U *q = p) {
      p = nullptr;
      q->~U();
    }
  }
  template <class... A> void make(A &&...a) {
    reset();
    p = new (raw + 8 * rt::draw(8)) U(std::forward<A>(a)...);
  }
  U &operator*() { return *p; }
  U *get() { return p; }
  explicit operator bool() const { return p; }
};

template <class S> struct Machine {
  using UF = pc::unique_function<typename S::F>;
  template <size_t Size, size_t Align, bool N> using Fn = typename Functor<S>::template Fn<Size, Align, N>;
  static constexpr int N = 4;
  std::vector<Box<UF>> slot{N};
  M model[N];
  int next = 0;

  template <class T> void put(int i, T &&t, M m, const char *what) {
    rt::trace(" s%d=%s", i, what);
    const M old = model[i];
    if (!slot[i] || rt::flip()) {
      slot[i].reset(); // destroyed before the new one is built
      slot[i].make(std::forward<T>(t));
    } else
      *slot[i] = UF(std::forward<T>(t));
    model[i] = m;
    gone(old, i);
  }
  void gone(const M &old, int i) {
    if (old.k == M::Target) {
      rt::nontrivial();
      if (old.tracked)
        RT_CHECK(g_live[old.id] == 0, "target %d of slot %d was replaced or destroyed but is still alive", old.id, i);
    }
  }
  template <size_t Size, size_t Align, bool Nothrow> void put_fn(int i) {
    int id = next++;
    using Fx = Fn<Size, Align, Nothrow>;
    g_throw[id] = rt::chance(1, 6);
    M m;
    m.k = M::Target;
    m.id = id;
    m.tracked = true;
    char nm[48];
    snprintf(nm, sizeof nm, "fn(%zu,%zu%s)#%d%s", Size, Align, Nothrow ? "" : ",throwing move", id, g_throw[id] ? "!" : "");
    switch (rt::draw(4)) {
    case 0: {
      Fx f(id);
      put(i, std::move(f), m, nm);
      break;
    }
    case 3: { // copied from an object which its owner goes on using
      Fx f(id);
      put(i, f, m, nm);
      RT_CHECK(f.owner && g_live[id] == 2, "an object given by its name was moved from");
      break;
    }
    case 1: { // copied from a const object
      if (rt::chance(1, 4)) {
        const Fx f(id);
        g_copy_throws = true;
        try {
          if (slot[i])
            *slot[i] = UF(f);
          else
            slot[i].make(f);
          rt::fail("the exception thrown by a target's copy constructor got lost");
        } catch (const Err &e) {
          RT_CHECK(e.id == -2, "wrong exception");
        }
        g_copy_throws = false;
        rt::label("copy of target throws");
        return; // slot unchanged
      }
      const Fx f(id);
      put(i, f, m, nm);
      // now two owners: the original dies at the end of this scope
      break;
    }
    default:
      put(i, Fx(id), m, nm);
    }
    if (!Nothrow)
      g_armed[id] = true;
  }
  void put_any(int i);
  void check_bool(int i) {
    if (!slot[i])
      return;
    const UF &f = *slot[i];
    const M &m = model[i];
    if (m.k == M::Husk)
      return;
    RT_CHECK(bool(f) == (m.k == M::Target), "slot %d %s", i, m.k == M::Target ? "is false but holds a target" : "is true but empty");
    RT_CHECK((f == nullptr) == (m.k != M::Target), "comparison with nullptr is wrong");
  }
  void call(int i) {
    if (!slot[i] || model[i].k == M::Husk)
      return;
    const M &m = model[i];
    rt::trace(" call s%d", i);
    const UF &f = *slot[i];
    if (m.k == M::Empty) {
      try {
        S::call(f, 0);
        rt::fail("calling an empty function did not throw");
      } catch (const std::bad_function_call &) {
      }
      return;
    }
    if (m.moved)
      rt::nontrivial();
    const int before = g_calls[m.id];
    try {
      S::call(f, m.id);
      RT_CHECK(!g_throw[m.id], "the exception of target %d got lost", m.id);
    } catch (const Err &e) {
      RT_CHECK(e.id == m.id && g_throw[m.id], "wrong exception");
    }
    if (m.tracked)
      RT_CHECK(g_calls[m.id] == before + 1, "target %d called %d times by one call", m.id, g_calls[m.id] - before);
  }
  void step() {
    const int i = rt::draw(N), j = rt::draw(N);
    switch (rt::draw(10)) {
    case 0:
    case 1: put_any(i); break;
    case 2: { // move construct
      if (!slot[j] || i == j)
        break;
      rt::trace(" s%d(move s%d)", i, j);
      const M old = model[i];
      slot[i].make(std::move(*slot[j]));
      moved(i, j);
      gone(old, i);
      break;
    }
    case 3:
    case 4: { // move assign
      if (!slot[i] || !slot[j])
        break;
      rt::trace(" s%d=move s%d", i, j);
      if (i == j) {
        rt::label("self move");
        UF &r = *slot[j];
        *slot[i] = std::move(r);
        break;
      }
      const M old = model[i];
      UF &r = (*slot[i] = std::move(*slot[j]));
      RT_CHECK(&r == slot[i].get(), "assignment returns another object");
      moved(i, j);
      gone(old, i);
      break;
    }
    case 5: {
      if (!slot[i] || !slot[j])
        break;
      rt::trace(" swap s%d s%d", i, j);
      if (i == j)
        rt::label("self swap");
      std::swap(*slot[i], *slot[j]);
      std::swap(model[i], model[j]);
      model[i].moved = model[j].moved = true;
      break;
    }
    case 6: {
      rt::trace(" destroy s%d", i);
      const M old = model[i];
      slot[i].reset();
      model[i] = M{};
      gone(old, i);
      break;
    }
    case 7: { // through a vector which grows
      std::vector<UF> v;
      int n = 0;
      for (int k = 0; k < N; ++k)
        if (slot[k]) {
          v.push_back(std::move(*slot[k]));
          ++n;
        }
      rt::trace(" vector");
      n = 0;
      for (int k = 0; k < N; ++k)
        if (slot[k]) {
          *slot[k] = std::move(v[n++]);
          model[k].moved = true;
        }
      break;
    }
    default: call(i);
    }
    for (int k = 0; k < N; ++k) {
      check_bool(k);
      if (slot[k] && model[k].k == M::Target && model[k].tracked)
        RT_CHECK(g_live[model[k].id] == 1, "target %d of slot %d has %d live instances", model[k].id, k, g_live[model[k].id]);
    }
  }
  void moved(int i, int j) {
    model[i] = model[j];
    model[i].moved = true;
    if (model[j].k != M::Empty)
      model[j].k = M::Husk;
  }
  void run(int steps) {
    rt::trace("%s:", S::name);
    put_any(0);
    put_any(1);
    for (int k = 0; k < steps; ++k)
      step();
    for (int k = 0; k < N; ++k) {
      call(k);
      slot[k].reset();
    }
    for (auto &f : refs)
      f();
    for (int id = 0; id < MAXID; ++id)
      RT_CHECK(g_objs[id] == 0 && g_live[id] == 0, "%d instances of target %d were not destroyed", g_objs[id], id);
  }
};

template <class S> void put_more(Machine<S> &, int) {}
void put_more(Machine<SInt> &, int);
void put_more(Machine<SVoid> &, int);

template <class S> void Machine<S>::put_any(int i) {
  if (next >= 56)
    return;
  switch (rt::draw(16)) {
  case 0: put(i, UF(), M{}, "empty"); break;
  case 1: put(i, nullptr, M{}, "nullptr"); break;
  case 2: put_fn<25, 8, true>(i); break;
  case 3: put_fn<24, 8, true>(i); break;
  case 4: put_fn<40, 8, true>(i); break;  // exactly fills the buffer
  case 5: put_fn<41, 8, true>(i); break;  // just too big
  case 6: put_fn<32, 16, true>(i); break; // small but over-aligned
  case 7: put_fn<200, 64, true>(i); break;
  case 8: put_fn<24, 8, false>(i); break; // its moves may throw
  case 9: put_fn<64, 8, false>(i); break;
  case 10: { // a lambda owning memory
    int id = next++;
    M m;
    m.k = M::Target;
    m.id = id;
    m.tracked = true;
    auto f = std::make_shared<Fn<24, 8, true>>(id);
    if (rt::flip()) {
      auto l = [u = std::make_unique<Fn<24, 8, true>>(id)](auto &&...a) -> decltype(auto) {
        return (*u)(std::forward<decltype(a)>(a)...);
      };
      f.reset();
      put(i, std::move(l), m, "lambda");
    } else {
      auto l = [f, pad = std::array<char, 64>{}](auto &&...a) -> decltype(auto) { (void)pad; return (*f)(std::forward<decltype(a)>(a)...); };
      f.reset();
      put(i, std::move(l), m, "big lambda");
    }
    break;
  }
  case 11: { // std::function and the like
    if (rt::flip()) {
      Nullable<S> n;
      M m;
      if (rt::flip()) {
        m.k = M::Target;
        m.id = next++;
        m.tracked = true;
        n.f = std::make_shared<Fn<24, 8, true>>(m.id);
      }
      put(i, std::move(n), m, m.id < 0 ? "null nullable" : "nullable");
      break;
    }
    std::function<typename S::F> e;
    if constexpr (!std::is_same<S, SMove>::value) {
      if (rt::flip()) {
        int id = next++;
        M m;
        m.k = M::Target;
        m.id = id;
        m.tracked = true;
        e = Fn<24, 8, true>(id);
        put(i, std::move(e), m, "std::function");
        break;
      }
    }
    put(i, std::move(e), M{}, "empty std::function");
    break;
  }
  case 12: { // another unique_function inside
    int id = next++;
    M m;
    m.k = M::Target;
    m.id = id;
    m.tracked = true;
    UF inner = Fn<24, 8, true>(id);
    auto l = [u = std::move(inner)](auto &&...a) -> decltype(auto) { return u(std::forward<decltype(a)>(a)...); };
    put(i, std::move(l), m, "nested");
    break;
  }
  case 13: { // reference_wrapper, no allocation
    static Fn<24, 8, true> *keep; // outlives the history: untracked
    int id = next++;
    keep = new Fn<24, 8, true>(id);
    refs.push_back([k = keep] { delete k; });
    M m;
    m.k = M::Target;
    m.id = id;
    uint64_t a0 = rt::alloc_count();
    {
      UF t(std::ref(*keep));
      UF t2(std::move(t));
      t = std::move(t2);
      RT_CHECK(rt::alloc_count() == a0, "a reference_wrapper is stored with an allocation");
    }
    put(i, std::ref(*keep), m, "ref");
    break;
  }
  default: put_more(*this, i);
  }
}
} // namespace

// signature specific targets
namespace {
template <class T> void no_alloc(const char *what, T &&make) {
  uint64_t a0 = rt::alloc_count();
  make();
  RT_CHECK(rt::alloc_count() == a0, "%s is stored with an allocation", what);
}
void put_more(Machine<SInt> &m, int i) {
  using UF = Machine<SInt>::UF;
  M t;
  t.k = M::Target;
  t.id = 63;
  int (*fp)(int) = fn_int;
  switch (rt::draw(4)) {
  case 0:
    no_alloc("a function pointer", [&] {
      UF f(fp), g(std::move(f));
      f = std::move(g);
    });
    m.put(i, fp, t, "function pointer");
    break;
  case 1: m.put(i, fn_int, t, "function"); break;
  case 2:
    fp = nullptr;
    m.put(i, fp, M{}, "null function pointer");
    break;
  default: { // overloaded call operators: the mutable one on a stored object
    struct O {
      int operator()(int a) const { return -a - 1; }
      int operator()(int a) { return 63000 + a; }
    };
    m.put(i, O{}, t, "overloaded");
  }
  }
}
void put_more(Machine<SVoid> &m, int i) {
  using UF = Machine<SVoid>::UF;
  int id = m.next++;
  M t;
  t.k = M::Target;
  t.id = id;
  switch (rt::draw(2)) {
  case 0: { // packaged_task: no allocation, callable once only
    pc::packaged_task<int()> task{[id] { return SVoid::last = id; }};
    pc::future<int> f = task.get_future();
    pc::packaged_task<int()> other{[] { return 1; }};
    {
      const uint64_t a0 = rt::alloc_count();
      UF a(std::move(other)), b(std::move(a));
      a = std::move(b);
      RT_CHECK(rt::alloc_count() == a0, "a packaged_task is stored with an allocation");
    }
    UF u(std::move(task));
    UF v;
    v = std::move(u);
    RT_CHECK(!f.is_ready(), "ready before the call");
    SVoid::call(v, id);
    RT_CHECK(f.is_ready() && f.get() == id, "packaged_task in a function yields a wrong result");
    m.put(i, nullptr, M{}, "nullptr");
    break;
  }
  default: {
    struct L {
      int id;
      std::string operator()() const { // result of another type is dropped
        SVoid::last = id;
        return "a string which is too long for the small buffer";
      }
    };
    m.put(i, L{id}, t, "void ignoring result");
  }
  }
}
} // namespace
namespace {
// pointers to members with every way to name the object
template <class A> void member_case(const char *nm, A make_arg) {
  (void)nm;
  using Arg0 = decltype(make_arg(g_p[0]));
  const int id = rt::draw(60);
  P &p = g_p[id];
  const int a = rt::draw(100);
  using UF = pc::unique_function<int(Arg0, int)>;
  UF f, g;
  switch (rt::draw(4)) {
  case 0: no_alloc("a pointer to member function", [&] { f = UF(&P::get); }); break;
  case 1: f = UF(&P::cget); break;
  case 2: f = UF(&P::nget); break;
  default: {
    int (P::*null)(int) = nullptr;
    f = UF(null);
    RT_CHECK(!f, "null member pointer is not empty");
    try {
      f(make_arg(p), a);
      rt::fail("calling an empty function did not throw");
    } catch (const std::bad_function_call &) {
    }
    f = UF(&P::get);
  }
  }
  no_alloc("a pointer to member function", [&] {
    g = std::move(f);
    f = std::move(g);
  });
  RT_CHECK(f && f(make_arg(p), a) == id * 1000 + a, "wrong result of a member function");
  pc::unique_function<int &(Arg0)> d, e;
  int P::*np = nullptr;
  d = pc::unique_function<int &(Arg0)>(np);
  RT_CHECK(!d, "null member pointer is not empty");
  no_alloc("a pointer to data member", [&] {
    e = pc::unique_function<int &(Arg0)>(&P::x);
    d = std::move(e);
  });
  int &r = d(make_arg(p));
  RT_CHECK(&r == &p.x, "reference to another object returned");
}
template <class F> struct Sig {
  using type = F;
};
// arguments which the caller names, handed to targets that take them by value
template <class U, class O> void by_value_case(U f, O &&obj, bool rvalue) {
  U g(std::move(f));
  Arg a(41), b(42);
  const int r = g(std::forward<O>(obj), a, rvalue ? std::move(b) : Arg(42));
  RT_CHECK(r == 83, "a target got other arguments: %d", r);
  RT_CHECK(a.v && *a.v == 41 && a.copies == 0, "the caller's object was moved from");
}
struct Q {
  int take(Arg a, Arg b) const { return sum(a, b); }
  int steal(Arg a, Arg &&b) { return sum(a, b); }
  static int sum(const Arg &a, const Arg &b) {
    RT_CHECK(a.v && b.v, "an argument got lost");
    RT_CHECK(a.copies == 1 && b.copies == 0, "an argument was copied %d and %d times on its way", a.copies, b.copies);
    return *a.v + *b.v;
  }
};
void by_value_cases() {
  rt::trace("by value");
  const bool rv = rt::flip();
  const int kind = rt::draw(7), fk = rt::draw(2);
  Q q;
  auto pick = [&](auto tag) {
    using U = pc::unique_function<typename decltype(tag)::type>;
    return fk ? U(&Q::take) : U(&Q::steal);
  };
  switch (kind) {
  case 0: by_value_case(pick(Sig<int(Q &, Arg &, Arg)>{}), q, rv); break;
  case 1: by_value_case(pick(Sig<int(Q *, Arg &, Arg)>{}), &q, rv); break;
  case 2: by_value_case(pick(Sig<int(std::reference_wrapper<Q>, Arg &, Arg)>{}), std::ref(q), rv); break;
  case 3: by_value_case(pick(Sig<int(std::shared_ptr<Q>, Arg &, Arg &&)>{}), std::make_shared<Q>(), rv); break;
  case 4: by_value_case(pc::unique_function<int(int, Arg &, Arg)>([](int, Arg a, Arg b) { return Q::sum(a, b); }), 1, rv); break;
  case 5: by_value_case(pc::unique_function<int(int, Arg &, Arg &&)>([pad = std::array<char, 80>{}](int, Arg a, Arg b) { (void)pad; return Q::sum(a, b); }), 1, rv); break;
  default:
    by_value_case(pc::unique_function<int(int, const Arg &, Arg)>([](int, Arg a, Arg b) { return Q::sum(a, b); }), 1, rv);
  }
}
template <class S> void run_machine() {
  Machine<S> m;
  m.run(rt::range(3, 14));
}
} // namespace

void run_case() {
  for (int i = 0; i < MAXID; ++i) {
    g_live[i] = g_objs[i] = g_calls[i] = 0;
    g_throw[i] = g_armed[i] = false;
    g_p[i].id = i;
    g_a[i] = new Arg(i);
  }
  g_copy_throws = false;
  switch (rt::draw(10)) {
  case 0: run_machine<SInt>(); break;
  case 1: run_machine<SLong>(); break;
  case 2: run_machine<SVoid>(); break;
  case 3: run_machine<SCRef>(); break;
  case 4: run_machine<SRef>(); break;
  case 5: run_machine<SRRef>(); break;
  case 6: run_machine<SMove>(); break;
  case 7: run_machine<SPtr>(); break;
  case 8: run_machine<SBaseRef>(); break;
  default:
    rt::nontrivial();
    if (rt::flip()) {
      by_value_cases();
      break;
    }
    rt::trace("member pointers");
    member_case("P&", [](P &p) -> P & { return p; });
    member_case("P*", [](P &p) -> P * { return &p; });
    member_case("ref", [](P &p) { return std::ref(p); });
    {
      PD pd;
      pd.id = 7;
      pc::unique_function<int(PD &, int)> f = &P::get;
      RT_CHECK(f(pd, 1) == 7001, "wrong result of a base class member function");
      pc::unique_function<int(std::unique_ptr<PD>, int)> g = &P::cget;
      RT_CHECK(g(std::make_unique<PD>(pd), 1) == 7001, "wrong result of a base class member function");
      pc::unique_function<int(const std::shared_ptr<PD> &)> h = &PD::extra;
      RT_CHECK(h(std::make_shared<PD>(pd)) == 3, "wrong data member");
      pc::unique_function<int(PD &&)> k = &P::id;
      RT_CHECK(k(std::move(pd)) == 7, "wrong data member");
    }
  }
  refs.clear();
  refs.shrink_to_fit();
  for (auto &p : g_a)
    delete p;
}
