// Histories over promises, tasks, futures and continuations, executed on the
// real library and on a plain single-threaded reference model at once.
#pragma once
#include "common.h"
#include <portable_concurrency/future>
#include <portable_concurrency/functional>

namespace mach {

// --- payload types ---------------------------------------------------------
constexpr int MAXID = 4096;
extern int g_live[MAXID];   // live, not moved-from instances per token id
extern int g_ncopies;      // copy constructions and assignments so far
struct Tok {
  int id;
  unsigned magic;
  explicit Tok(int i);
  Tok(const Tok &o);
  Tok(Tok &&o) noexcept;
  Tok &operator=(const Tok &o);
  Tok &operator=(Tok &&o) noexcept;
  ~Tok();
  void check() const;
};
struct Cpy { // its moves do not throw, but do not promise that either
  Tok tok;
  explicit Cpy(Tok t) : tok(std::move(t)) {}
  Cpy(const Cpy &) = default;
  Cpy(Cpy &&o) noexcept(false) : tok(std::move(o.tok)) {}
  Cpy &operator=(const Cpy &) = default;
  Cpy &operator=(Cpy &&o) noexcept(false) {
    tok = std::move(o.tok);
    return *this;
  }
};
struct Mov {
  Tok tok;
  explicit Mov(int i) : tok(i) {}
  Mov(Mov &&) noexcept = default;
  Mov &operator=(Mov &&) noexcept = default;
};
struct Obj {
  int id;
};
extern Obj g_objs[MAXID];

struct Err { // thrown by generated functions and stored by promises
  int id;
};

enum Ty { CPY, MOV, VOID, REF, NTY };
// continuations of a future<Y> return Y or second(Y)
constexpr Ty second(int y) { return y == CPY ? VOID : y == VOID ? MOV : y == MOV ? REF : CPY; }
template <int Y> struct TyOf;
template <> struct TyOf<CPY> { using type = Cpy; };
template <> struct TyOf<MOV> { using type = Mov; };
template <> struct TyOf<VOID> { using type = void; };
template <> struct TyOf<REF> { using type = Obj &; };
template <int Y> using T = typename TyOf<Y>::type;
template <class X> struct OfTy;
template <> struct OfTy<Cpy> { static constexpr int v = CPY; };
template <> struct OfTy<Mov> { static constexpr int v = MOV; };
template <> struct OfTy<void> { static constexpr int v = VOID; };
template <> struct OfTy<Obj &> { static constexpr int v = REF; };

template <int Y, bool S> struct FutOf { using type = pc::future<T<Y>>; };
template <int Y> struct FutOf<Y, true> { using type = pc::shared_future<T<Y>>; };
template <int Y, bool S> using Fut = typename FutOf<Y, S>::type;

struct Outcome {
  enum K { None, Value, Error, Broken, NoState, Other, Alloc } k = None;
  int id = 0;
  const void *addr = nullptr; // object behind a shared result
  bool same(const Outcome &o) const { return k == o.k && id == o.id; }
};
const char *show(const Outcome &o);

// --- reference model --------------------------------------------------------
struct M;
using MP = std::shared_ptr<M>;
struct FnRec;
struct MWrite;
struct MAct { // a stored function, with everything it keeps alive
  FnRec *fn = nullptr;
  int how = 0; // 0 task, 1 then, 2 next, 3 interruptible then, 4 notify
  MP parent;
  MP captured;                      // future returned by the function
  std::shared_ptr<MWrite> cap_write; // promise captured by the function
  ~MAct();
};
struct M {
  bool ready = false;
  Outcome out;
  std::vector<std::function<void()>> conts;
  std::shared_ptr<MAct> act;
  MP inner;
  MP self; // detached
  int canceler = -1;
  const void *addr = nullptr;
  int group; // connected component of the dependency graph
  M();
  ~M();
};
struct MWrite { // model of a promise
  MP strong;
  std::weak_ptr<M> weak;
  bool retrieved = false, valid = true;
  MP lock() const { return strong ? strong : weak.lock(); }
  void abandon();
  ~MWrite() { abandon(); }
};
void m_complete(const MP &s, Outcome o);
void m_push(const MP &s, std::function<void()> f);
Outcome m_outcome(const MP &s);
M *m_root(const MP &s);

// --- generated functions ------------------------------------------------------
enum RetKind { Direct, UFut, SFut };
struct HBase;
struct WBase;
struct FnRec {
  int id;       // token id of the closure
  int exec = -1; // id of the executor it was given to, -1: none
  Ty ret = CPY;
  RetKind rk = Direct;
  bool throws = false;
  int value = 0, err = 0;
  int intr = 0;      // interruptible: 0 set value, 1 set error, 2 drop, 3 keep
  int cap_set = 0;   // captured promise: 0 none, 1 set on run, 2 only destroyed
  int cap_value = 0;
  bool wait_first = false; // reads the argument only after wait()
  WBase *deferred = nullptr;
  bool fault_unwrap = false;  // memory runs out when the returned future is unwrapped
  bool unwrap_failed = false; // it did
  // observed / expected
  int runs = 0, m_runs = 0;
  Outcome seen, m_seen;
  bool m_live = true;
  int posts = 0, m_posts = 0;
  std::string text;
};

// --- injected failures --------------------------------------------------------
// they hit an operation of the library before it calls any user code, or the
// unwrapping of a future returned by a function
struct Pause {
  FnRec *unwrap = nullptr;
  Pause() {
    rt::fail_alloc_at(0);
    settle();
  }
  ~Pause();
  static void settle(); // notes whether the last unwrapping failed
  Pause(const Pause &) = delete;
};
struct Disarm {
  ~Disarm() { rt::fail_alloc_at(0); }
};
struct CopyFailure {}; // thrown by the copy constructor of a payload
extern int g_copy_bomb; // the nth copy from now on throws

// what a closure owns besides its result handle
struct Cap {
  std::unique_ptr<WBase> w;
};
struct Closure {
  Tok tok;
  FnRec *fn;
  std::unique_ptr<Cap> cap;
  // bookkeeping of one invocation, before the result is produced
  void enter(const Outcome &seen);
  void arm_unwrap(Pause &p) { p.unwrap = fn->fault_unwrap && !fn->throws ? fn : nullptr; }
};

// --- executors ----------------------------------------------------------------
struct TaskBase {
  int exec;
  bool ran = false;
  virtual ~TaskBase() {}
  virtual void run() = 0;
  virtual void run_as_function() = 0; // through unique_function<void()>
  virtual void discard_by_overwriting() = 0;
};
struct Exec {
  int id;
  int mode; // 0 inline, 1 queue, 2 discards every task, 3 discards by move assignment
};
void note_post(int exec);
void push_task(std::unique_ptr<TaskBase> t);
struct ExecScope {
  explicit ExecScope(int id);
  ~ExecScope();
};
template <class F> struct Task : TaskBase {
  std::unique_ptr<F> f;
  explicit Task(F &&x) : f(new F(std::move(x))) {}
  void run() override {
    ExecScope s(this->exec);
    (*f)();
  }
  void run_as_function() override {
    ExecScope s(this->exec);
    auto before = rt::alloc_count();
    pc::unique_function<void()> fn(std::move(*f));
    if (rt::alloc_count() != before && alloc_matters)
      rt::fail("converting a posted task to unique_function allocates memory");
    pc::unique_function<void()> fn2(std::move(fn));
    fn2();
  }
  void discard_by_overwriting() override {
    F a(std::move(*f));
    F b(std::move(a)); // a is moved-from, b owns the task
    b = std::move(a);
    f.reset();
  }
  bool alloc_matters = true;
};
template <class F> void post(Exec e, F task) {
  Pause pause;
  note_post(e.id);
  switch (e.mode) {
  case 0: {
    ExecScope s(e.id);
    task();
    break;
  }
  case 1: {
    auto t = std::make_unique<Task<F>>(std::move(task));
    t->exec = e.id;
    t->alloc_matters = !std::is_base_of<Closure, F>::value;
    push_task(std::move(t));
    break;
  }
  case 2:
    break;
  default: {
    F a(std::move(task));
    F b(std::move(a));
    b = std::move(a);
  }
  }
}

// --- handles --------------------------------------------------------------------
struct HBase {
  Ty ty;
  bool shared;
  MP m; // null: invalid
  virtual ~HBase() {}
  virtual bool valid() const = 0;
  // error of the call (no_state...) or None in *err
  virtual int is_ready() const = 0; // -1: no_state
  virtual Outcome get() = 0;
  virtual Outcome wait() = 0;
  virtual std::unique_ptr<HBase> share() = 0;
  virtual std::unique_ptr<HBase> copy() = 0;        // shared only
  virtual std::unique_ptr<HBase> move() = 0;        // move-construct
  virtual void assign(HBase &from) = 0;             // move-assign, same type
  virtual void copy_assign(HBase &from) = 0;        // shared only
  virtual void swap(HBase &other) = 0;              // same type
  virtual std::unique_ptr<HBase> detach(Outcome &o) = 0;
  // how: 1 then, 2 next, 3 interruptible then; ret: captured inner handle
  virtual std::unique_ptr<HBase> attach(int how, const Exec *e, FnRec *fn, std::unique_ptr<Cap> cap, HBase *inner, Outcome &err) = 0;
  virtual void notify(const Exec *e, FnRec *fn, std::unique_ptr<Cap> cap, Outcome &err) = 0;
};
struct WBase {
  Ty ty;
  int kind; // 0 make_promise, 1 promise, 2 alloc make_promise, 3 alloc promise, 4 canceler make_promise, 5 canceler promise, 6 task
  std::shared_ptr<MWrite> m;
  FnRec *fn = nullptr; // task
  virtual ~WBase() {}
  virtual Outcome set_value(int id, bool lvalue) = 0;
  virtual Outcome set_error(int err) = 0;
  virtual Outcome call() = 0;
  virtual int awaiten() = 0; // -1: no_state
  virtual int valid() = 0;   // tasks only, -1 otherwise
  virtual std::unique_ptr<HBase> get_future(Outcome &err) = 0;
  virtual std::unique_ptr<WBase> move() = 0;
  virtual void assign(WBase &from) = 0;
  virtual void swap(WBase &other, bool member) = 0; // same type
  virtual bool same_type(const WBase &o) const = 0;
};

struct Canceler {
  Tok tok;
  int idx;
  void operator()();
};

using Pair = std::pair<std::unique_ptr<WBase>, std::unique_ptr<HBase>>;

// a minimal stateful allocator with its own books
extern int g_alloc_live[16];
template <class X> struct Al {
  using value_type = X;
  int book;
  explicit Al(int b) : book(b) {}
  template <class Y> Al(const Al<Y> &o) : book(o.book) {}
  X *allocate(size_t n) {
    X *p = static_cast<X *>(::operator new(n * sizeof(X)));
    ++g_alloc_live[book];
    return p;
  }
  void deallocate(X *p, size_t n) {
    --g_alloc_live[book];
    (void)n;
    ::operator delete(p);
  }
  template <class Y> bool operator==(const Al<Y> &o) const { return book == o.book; }
  template <class Y> bool operator!=(const Al<Y> &o) const { return book != o.book; }
};

// implemented once per payload type (machine_ty.inc)
template <int Y> struct Factory {
  static Pair make_pair(int kind, int canceler_idx);
  static std::unique_ptr<WBase> make_task(RetKind rk, FnRec *fn, std::unique_ptr<Cap> cap, HBase *inner);
  static std::unique_ptr<HBase> make_async(const Exec &e, RetKind rk, FnRec *fn, std::unique_ptr<Cap> cap, HBase *inner);
  static std::unique_ptr<HBase> ready(int id);
  static std::unique_ptr<HBase> exceptional(int err, bool as_ptr);
  static std::unique_ptr<HBase> invalid(bool shared);
};
template <int Y, bool S> std::unique_ptr<HBase> wrap(Fut<Y, S> &&f);
template <int Y> std::unique_ptr<WBase> wrap_promise(pc::promise<T<Y>> &&p);
void keep_promise(FnRec *fn, std::unique_ptr<WBase> w);

template <class F> Outcome catch_all(F &&f) {
  Outcome o;
  Disarm disarm;
  try {
    f(o);
  } catch (const Err &e) {
    o.k = Outcome::Error;
    o.id = e.id;
  } catch (const std::future_error &e) {
    if (e.code() == std::future_errc::broken_promise)
      o.k = Outcome::Broken;
    else {
      o.k = Outcome::Other;
      o.id = e.code().value();
      if (e.code() == std::future_errc::no_state)
        o.k = Outcome::NoState;
    }
  } catch (const std::bad_alloc &) {
    o.k = Outcome::Alloc;
  } catch (const CopyFailure &) {
    o.k = Outcome::Error;
    o.id = 0;
  }
  return o;
}

} // namespace mach

namespace portable_concurrency {
template <> struct is_executor<mach::Exec> : std::true_type {};
} // namespace portable_concurrency
