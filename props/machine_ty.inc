// Instantiates the typed part of the machine for payload type MY.
#include "machine.h"

namespace mach {
// address of the library handle inside an HBase
template <int Y, bool S> void *raw(HBase *h);
namespace {

template <int Y> struct MakeVal;
template <> struct MakeVal<CPY> { static Cpy make(int id) { return Cpy(Tok(id)); } };
template <> struct MakeVal<MOV> { static Mov make(int id) { return Mov(id); } };
template <> struct MakeVal<VOID> { static void make(int) {} };
template <> struct MakeVal<REF> { static Obj &make(int id) { return g_objs[id]; } };

inline Outcome val(const Cpy &v) { v.tok.check(); return Outcome{Outcome::Value, v.tok.id, &v}; }
inline Outcome val(const Mov &v) { v.tok.check(); return Outcome{Outcome::Value, v.tok.id, &v}; }
inline Outcome val(const Obj &v) {
  RT_CHECK(&v == &g_objs[v.id], "reference to a different object delivered");
  return Outcome{Outcome::Value, v.id, &v};
}

// reads a ready future
template <class X> Outcome read(pc::future<X> &f) {
  return catch_all([&](Outcome &o) {
    X v = f.get();
    o = val(v);
    o.addr = nullptr;
  });
}
inline Outcome read(pc::future<Cpy> &f) {
  return catch_all([&](Outcome &o) {
    int before = g_ncopies;
    Cpy v = f.get();
    o = val(v);
    o.addr = nullptr;
    RT_CHECK(before == g_ncopies, "future::get() copies the value instead of moving it");
  });
}
inline Outcome read(pc::future<void> &f) {
  return catch_all([&](Outcome &o) {
    f.get();
    o = Outcome{Outcome::Value, 0, nullptr};
  });
}
template <class X> Outcome read(pc::shared_future<X> &f) {
  return catch_all([&](Outcome &o) {
    decltype(auto) v = f.get();
    static_assert(std::is_reference<decltype(v)>::value, "");
    o = val(v);
  });
}
inline Outcome read(pc::shared_future<void> &f) {
  return catch_all([&](Outcome &o) {
    f.get();
    o = Outcome{Outcome::Value, 0, nullptr};
  });
}

template <class F> Outcome seen_future(F &f, FnRec *fn) {
  RT_CHECK(f.valid(), "a continuation function was given an invalid future");
  RT_CHECK(f.is_ready(), "a continuation function was given a future that is not ready");
  if (fn->wait_first)
    f.wait();
  return read(f);
}

template <int R, RetKind K> struct Ret;
template <int R> struct Ret<R, Direct> {
  using type = T<R>;
  explicit Ret(HBase *) {}
  type produce(FnRec *fn) {
    if (fn->throws)
      throw Err{fn->err};
    return MakeVal<R>::make(fn->value);
  }
};
template <int Y, bool S> struct H;
template <int R> struct Ret<R, UFut> {
  using type = pc::future<T<R>>;
  type inner;
  explicit Ret(HBase *h);
  type produce(FnRec *fn) {
    if (fn->throws)
      throw Err{fn->err};
    return std::move(inner);
  }
};
template <int R> struct Ret<R, SFut> {
  using type = pc::shared_future<T<R>>;
  type inner;
  explicit Ret(HBase *h);
  type produce(FnRec *fn) {
    if (fn->throws)
      throw Err{fn->err};
    return std::move(inner);
  }
};

// closures
template <int R, RetKind K> struct TaskFn : Closure {
  Ret<R, K> ret;
  TaskFn(Closure &&c, HBase *inner) : Closure(std::move(c)), ret(inner) {}
  typename Ret<R, K>::type operator()() {
    Pause pause;
    this->enter(Outcome{});
    this->arm_unwrap(pause);
    return ret.produce(this->fn);
  }
};
template <int Y, bool S, int R, RetKind K> struct ThenFn : Closure {
  Ret<R, K> ret;
  ThenFn(Closure &&c, HBase *inner) : Closure(std::move(c)), ret(inner) {}
  typename Ret<R, K>::type operator()(Fut<Y, S> f) {
    Pause pause;
    this->tok.check();
    this->enter(seen_future(f, this->fn));
    this->arm_unwrap(pause);
    return ret.produce(this->fn);
  }
};
template <int Y, bool S> struct ArgOf { using type = T<Y>; };
template <> struct ArgOf<CPY, true> { using type = const Cpy &; };
template <> struct ArgOf<MOV, true> { using type = const Mov &; };
template <int Y, bool S, int R, RetKind K> struct NextFn : Closure {
  Ret<R, K> ret;
  NextFn(Closure &&c, HBase *inner) : Closure(std::move(c)), ret(inner) {}
  typename Ret<R, K>::type operator()(typename ArgOf<Y, S>::type a) {
    Pause pause;
    this->tok.check();
    Outcome o = val(a);
    if (!S)
      o.addr = nullptr;
    this->enter(o);
    this->arm_unwrap(pause);
    return ret.produce(this->fn);
  }
};
template <bool S, int R, RetKind K> struct NextFn<VOID, S, R, K> : Closure {
  Ret<R, K> ret;
  NextFn(Closure &&c, HBase *inner) : Closure(std::move(c)), ret(inner) {}
  typename Ret<R, K>::type operator()() {
    Pause pause;
    this->tok.check();
    this->enter(Outcome{Outcome::Value, 0, nullptr});
    this->arm_unwrap(pause);
    return ret.produce(this->fn);
  }
};
template <int R> void fulfil(pc::promise<T<R>> &p, int id) { p.set_value(MakeVal<R>::make(id)); }
template <> inline void fulfil<VOID>(pc::promise<void> &p, int) { p.set_value(); }

template <int Y, bool S, int R> struct IntrFn : Closure {
  explicit IntrFn(Closure &&c) : Closure(std::move(c)) {}
  void operator()(pc::promise<T<R>> p, Fut<Y, S> f) {
    Pause pause;
    this->tok.check();
    Outcome o = seen_future(f, this->fn);
    this->enter(o);
    switch (this->fn->intr) {
    case 0: fulfil<R>(p, this->fn->value); break;
    case 1: p.set_exception(std::make_exception_ptr(Err{this->fn->err})); break;
    case 2: break;
    default: keep_promise(this->fn, wrap_promise<R>(std::move(p)));
    }
  }
};
struct NotifyFn : Closure {
  explicit NotifyFn(Closure &&c) : Closure(std::move(c)) {}
  void operator()() {
    Pause pause;
    this->tok.check();
    this->enter(Outcome{});
  }
};
struct BoxedNotify { // well below the size limit of notifications
  std::unique_ptr<NotifyFn> p;
  void operator()() {
    RT_CHECK(p, "a moved-from notification is run");
    (*p)();
  }
};

template <int Y, bool S> struct H : HBase {
  Fut<Y, S> f;
  explicit H(Fut<Y, S> &&x) : f(std::move(x)) {
    ty = Ty(Y);
    shared = S;
  }
  bool valid() const override { return f.valid(); }
  int is_ready() const override {
    int r = -1;
    Outcome o = catch_all([&](Outcome &) { r = f.is_ready(); });
    RT_CHECK(o.k == Outcome::None || o.k == Outcome::NoState, "is_ready() reported %s", show(o));
    return o.k == Outcome::NoState ? -1 : r;
  }
  Outcome get() override { return read(f); }
  Outcome wait() override {
    return catch_all([&](Outcome &) { f.wait(); });
  }
  std::unique_ptr<HBase> share() override { return share_impl(std::integral_constant<bool, S>{}); }
  std::unique_ptr<HBase> share_impl(std::false_type) { return wrap<Y, true>(f.share()); }
  std::unique_ptr<HBase> share_impl(std::true_type) { return nullptr; }
  std::unique_ptr<HBase> copy() override { return copy_impl(std::integral_constant<bool, S>{}); }
  std::unique_ptr<HBase> copy_impl(std::false_type) { return nullptr; }
  std::unique_ptr<HBase> copy_impl(std::true_type) {
    auto c = f;
    return wrap<Y, S>(std::move(c));
  }
  std::unique_ptr<HBase> move() override { return wrap<Y, S>(std::move(f)); }
  void assign(HBase &from) override { f = std::move(static_cast<H &>(from).f); }
  void swap(HBase &other) override { std::swap(f, static_cast<H &>(other).f); }
  void copy_assign(HBase &from) override { copy_assign_impl(from, std::integral_constant<bool, S>{}); }
  void copy_assign_impl(HBase &, std::false_type) {}
  void copy_assign_impl(HBase &from, std::true_type) {
    f = static_cast<const H &>(from).f;
  }
  std::unique_ptr<HBase> detach(Outcome &o) override {
    std::unique_ptr<HBase> r;
    o = catch_all([&](Outcome &) { r = wrap<Y, S>(f.detach()); });
    return r;
  }

  template <int R, RetKind K>
  std::unique_ptr<HBase> attach2(int how, const Exec *e, Closure &&c, HBase *inner) {
    if (how == 1) {
      ThenFn<Y, S, R, K> fn(std::move(c), inner);
      if (e)
        return wrap<R, K == SFut>(f.then(*e, std::move(fn)));
      return plain_then(std::move(fn), std::integral_constant<bool, (R == Y && K != SFut)>{});
    }
    NextFn<Y, S, R, K> fn(std::move(c), inner);
    if (e)
      return wrap<R, K == SFut>(f.next(*e, std::move(fn)));
    return plain_next(std::move(fn), std::integral_constant<bool, (R == Y && K != SFut)>{});
  }
  template <class F> std::unique_ptr<HBase> plain_then(F &&fn, std::true_type) { return wrap<Y, false>(f.then(std::move(fn))); }
  template <class F> std::unique_ptr<HBase> plain_then(F &&, std::false_type) { return nullptr; }
  template <class F> std::unique_ptr<HBase> plain_next(F &&fn, std::true_type) { return wrap<Y, false>(f.next(std::move(fn))); }
  template <class F> std::unique_ptr<HBase> plain_next(F &&, std::false_type) { return nullptr; }

  // a shared_future is used through a copy: whether this call takes its state is not specified
  Fut<Y, S> subject(std::true_type) { return f; }
  Fut<Y, S> &subject(std::false_type) { return f; }
  template <int R> std::unique_ptr<HBase> attach3(const Exec *e, Closure &&c) {
    IntrFn<Y, S, R> fn(std::move(c));
    if (e)
      return wrap<R, false>(subject(std::integral_constant<bool, S>{}).then(*e, std::move(fn)));
    return plain3(std::move(fn), std::integral_constant<bool, R == Y>{});
  }
  template <class F> std::unique_ptr<HBase> plain3(F &&fn, std::true_type) {
    if (fn.fn->id & 1)
      return wrap<Y, false>(subject(std::integral_constant<bool, S>{}).then(std::move(fn)));
    return wrap<Y, false>(subject(std::integral_constant<bool, S>{}).then(pc::inplace_executor, std::move(fn)));
  }
  template <class F> std::unique_ptr<HBase> plain3(F &&, std::false_type) { return nullptr; }
  template <int R> std::unique_ptr<HBase> attach_sf(int how, const Exec *e, Closure &&c, HBase *inner, std::true_type) {
    return attach2<R, SFut>(how, e, std::move(c), inner);
  }
  template <int R> std::unique_ptr<HBase> attach_sf(int, const Exec *, Closure &&, HBase *, std::false_type) { return nullptr; }
  template <int R> std::unique_ptr<HBase> attach1(int how, const Exec *e, FnRec *fn, Closure &&c, HBase *inner) {
    if (how == 3)
      return attach3<R>(e, std::move(c));
    switch (fn->rk) {
    case Direct: return attach2<R, Direct>(how, e, std::move(c), inner);
    case UFut: return attach2<R, UFut>(how, e, std::move(c), inner);
    default: return attach_sf<R>(how, e, std::move(c), inner, std::integral_constant<bool, R == Y>{});
    }
  }
  std::unique_ptr<HBase> attach(int how, const Exec *e, FnRec *fn, std::unique_ptr<Cap> cap, HBase *inner, Outcome &err) override {
    std::unique_ptr<HBase> r;
    err = catch_all([&](Outcome &) {
      Closure c{Tok(fn->id), fn, std::move(cap)};
      r = fn->ret == Y ? attach1<Y>(how, e, fn, std::move(c), inner) : attach1<second(Y)>(how, e, fn, std::move(c), inner);
    });
    return r;
  }
  void notify(const Exec *e, FnRec *fn, std::unique_ptr<Cap> cap, Outcome &err) override {
    err = catch_all([&](Outcome &) {
      NotifyFn n(Closure{Tok(fn->id), fn, std::move(cap)});
      if (e)
        f.notify(*e, BoxedNotify{std::make_unique<NotifyFn>(std::move(n))});
      else
        f.notify(std::move(n));
    });
  }
};
template <int R> Ret<R, UFut>::Ret(HBase *h) : inner(std::move(*static_cast<Fut<R, false> *>(raw<R, false>(h)))) {}
template <int R> Ret<R, SFut>::Ret(HBase *h) : inner(std::move(*static_cast<Fut<R, true> *>(raw<R, true>(h)))) {}

template <int Y> struct WP : WBase {
  pc::promise<T<Y>> p;
  explicit WP(pc::promise<T<Y>> &&x, int k) : p(std::move(x)) {
    ty = Ty(Y);
    kind = k;
  }
  Outcome set_value(int id, bool lvalue) override {
    return catch_all([&](Outcome &) { set(id, lvalue, std::integral_constant<int, Y>{}); });
  }
  void set(int id, bool lvalue, std::integral_constant<int, CPY>) {
    if (lvalue) {
      const Cpy v{Tok(id)};
      p.set_value(v);
      v.tok.check();
      RT_CHECK(v.tok.id == id, "set_value(const T&) modifies its argument");
    } else
      p.set_value(Cpy(Tok(id)));
  }
  void set(int id, bool, std::integral_constant<int, MOV>) { p.set_value(Mov(id)); }
  void set(int, bool, std::integral_constant<int, VOID>) { set_void(std::integral_constant<bool, Y == VOID>{}); }
  void set_void(std::true_type) { p.set_value(); }
  void set_void(std::false_type) {}
  void set(int id, bool, std::integral_constant<int, REF>) { p.set_value(g_objs[id]); }
  Outcome set_error(int err) override {
    return catch_all([&](Outcome &) { p.set_exception(std::make_exception_ptr(Err{err})); });
  }
  Outcome call() override { return Outcome{}; }
  int awaiten() override {
    int r = -1;
    Outcome o = catch_all([&](Outcome &) { r = p.is_awaiten(); });
    return o.k == Outcome::NoState ? -1 : r;
  }
  int valid() override { return -1; }
  std::unique_ptr<HBase> get_future(Outcome &err) override {
    std::unique_ptr<HBase> r;
    err = catch_all([&](Outcome &) { r = wrap<Y, false>(p.get_future()); });
    return r;
  }
  std::unique_ptr<WBase> move() override { return std::make_unique<WP>(std::move(p), kind); }
  void assign(WBase &from) override { p = std::move(static_cast<WP &>(from).p); }
  void swap(WBase &other, bool) override { std::swap(p, static_cast<WP &>(other).p); }
  bool same_type(const WBase &o) const override { return dynamic_cast<const WP *>(&o) != nullptr; }
};

template <int Y, RetKind K> struct WT : WBase {
  using PT = pc::packaged_task<typename Ret<Y, K>::type()>;
  PT t;
  explicit WT(PT &&x, FnRec *f) : t(std::move(x)) {
    ty = Ty(Y);
    kind = 6;
    fn = f;
  }
  Outcome set_value(int, bool) override { return Outcome{}; }
  Outcome set_error(int) override { return Outcome{}; }
  Outcome call() override {
    return catch_all([&](Outcome &) { t(); });
  }
  int awaiten() override { return -1; }
  int valid() override { return t.valid(); }
  std::unique_ptr<HBase> get_future(Outcome &err) override {
    std::unique_ptr<HBase> r;
    err = catch_all([&](Outcome &) { r = wrap<Y, K == SFut>(t.get_future()); });
    return r;
  }
  std::unique_ptr<WBase> move() override { return std::make_unique<WT>(std::move(t), fn); }
  void assign(WBase &from) override { t = std::move(static_cast<WT &>(from).t); }
  void swap(WBase &other, bool member) override {
    if (member)
      t.swap(static_cast<WT &>(other).t);
    else
      std::swap(t, static_cast<WT &>(other).t);
  }
  bool same_type(const WBase &o) const override { return dynamic_cast<const WT *>(&o) != nullptr; }
};

template <int Y, RetKind K> std::unique_ptr<WBase> task1(Closure &&c, HBase *inner, FnRec *fn) {
  typename WT<Y, K>::PT t(TaskFn<Y, K>(std::move(c), inner));
  rt::fail_alloc_at(0);
  return std::make_unique<WT<Y, K>>(std::move(t), fn);
}

} // namespace

template <int Y, bool S> void *raw(HBase *h) { return static_cast<void *>(&static_cast<H<Y, S> *>(h)->f); }
template void *raw<MY, false>(HBase *);
template void *raw<MY, true>(HBase *);

template <int Y, bool S> std::unique_ptr<HBase> wrap(Fut<Y, S> &&f) {
  rt::fail_alloc_at(0);
  return std::make_unique<H<Y, S>>(std::move(f));
}
template std::unique_ptr<HBase> wrap<MY, false>(Fut<MY, false> &&);
template std::unique_ptr<HBase> wrap<MY, true>(Fut<MY, true> &&);
template <int Y> std::unique_ptr<WBase> wrap_promise(pc::promise<T<Y>> &&p) { return std::make_unique<WP<Y>>(std::move(p), 0); }
template std::unique_ptr<WBase> wrap_promise<MY>(pc::promise<T<MY>> &&);

template <int Y> Pair Factory<Y>::make_pair(int kind, int ci) {
  using X = T<Y>;
  auto pack = [&](std::pair<pc::promise<X>, pc::future<X>> &&pf) {
    rt::fail_alloc_at(0);
    return Pair{std::make_unique<WP<Y>>(std::move(pf.first), kind), wrap<Y, false>(std::move(pf.second))};
  };
  auto alone = [&](pc::promise<X> &&p) {
    rt::fail_alloc_at(0);
    return Pair{std::make_unique<WP<Y>>(std::move(p), kind), nullptr};
  };
  switch (kind) {
  case 0: return pack(pc::make_promise<X>());
  case 1: return alone(pc::promise<X>());
  case 2: return pack(pc::make_promise<X>(Al<int>(Y)));
  case 3: return alone(pc::promise<X>(std::allocator_arg, Al<char>(Y)));
  default: {
    Canceler c{Tok(ci), ci};
    if (!(ci & 1))
      return kind == 4 ? pack(pc::make_promise<X>(pc::canceler_arg, std::move(c)))
                       : alone(pc::promise<X>(pc::canceler_arg, std::move(c)));
    // an object with a name is copied and is not needed afterwards
    auto r = kind == 4 ? pack(pc::make_promise<X>(pc::canceler_arg, c)) : alone(pc::promise<X>(pc::canceler_arg, c));
    c.tok.check();
    RT_CHECK(c.tok.id == ci, "a cancellation handler given by its name was moved from");
    return r;
  }
  }
}
template <int Y>
std::unique_ptr<WBase> Factory<Y>::make_task(RetKind rk, FnRec *fn, std::unique_ptr<Cap> cap, HBase *inner) {
  Closure c{Tok(fn->id), fn, std::move(cap)};
  switch (rk) {
  case Direct: return task1<Y, Direct>(std::move(c), inner, fn);
  case UFut: return task1<Y, UFut>(std::move(c), inner, fn);
  default: return task1<Y, SFut>(std::move(c), inner, fn);
  }
}
template <int Y>
std::unique_ptr<HBase> Factory<Y>::make_async(const Exec &e, RetKind rk, FnRec *fn, std::unique_ptr<Cap> cap, HBase *inner) {
  Closure c{Tok(fn->id), fn, std::move(cap)};
  switch (rk) {
  case Direct: return wrap<Y, false>(pc::async(e, TaskFn<Y, Direct>(std::move(c), inner)));
  case UFut: return wrap<Y, false>(pc::async(e, TaskFn<Y, UFut>(std::move(c), inner)));
  default: return wrap<Y, true>(pc::async(e, TaskFn<Y, SFut>(std::move(c), inner)));
  }
}
template <int Y> struct MakeReady {
  static std::unique_ptr<HBase> make(int id) { return wrap<Y, false>(pc::make_ready_future(MakeVal<Y>::make(id))); }
};
template <> struct MakeReady<VOID> {
  static std::unique_ptr<HBase> make(int) { return wrap<VOID, false>(pc::make_ready_future()); }
};
template <> struct MakeReady<REF> {
  static std::unique_ptr<HBase> make(int id) { return wrap<REF, false>(pc::make_ready_future(std::ref(g_objs[id]))); }
};
template <int Y> std::unique_ptr<HBase> Factory<Y>::ready(int id) { return MakeReady<Y>::make(id); }
template <int Y> std::unique_ptr<HBase> Factory<Y>::exceptional(int err, bool as_ptr) {
  if (as_ptr)
    return wrap<Y, false>(pc::make_exceptional_future<T<Y>>(std::make_exception_ptr(Err{err})));
  return wrap<Y, false>(pc::make_exceptional_future<T<Y>>(Err{err}));
}
template <int Y> std::unique_ptr<HBase> Factory<Y>::invalid(bool shared) {
  if (shared)
    return wrap<Y, true>(Fut<Y, true>());
  return wrap<Y, false>(Fut<Y, false>());
}
template struct Factory<MY>;

} // namespace mach
