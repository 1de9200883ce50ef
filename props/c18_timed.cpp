// C18: timed waits. Generated programs of waiting threads, writers and handle
// operations in virtual time.
#include "common.h"
#include <portable_concurrency/future>
#include <portable_concurrency/timed_waiter>

HARNESS("c18_timed", "a timed wait began while the result was not stored yet")

namespace {
using std::chrono::nanoseconds;
struct UserClock { // not known to the library
  using duration = std::chrono::microseconds;
  using rep = duration::rep;
  using period = duration::period;
  using time_point = std::chrono::time_point<UserClock>;
  static time_point now() {
    return time_point(std::chrono::duration_cast<duration>(std::chrono::steady_clock::now().time_since_epoch()) + std::chrono::hours(5));
  }
};
// clocks of the user's program that run at another speed
template <int Num, int Den> struct ScaledClock {
  using duration = nanoseconds;
  using rep = duration::rep;
  using period = duration::period;
  using time_point = std::chrono::time_point<ScaledClock>;
  static time_point now() { return time_point(nanoseconds(std::chrono::steady_clock::now().time_since_epoch().count() / Den * Num)); }
};
struct Err {
  int id;
};
constexpr int64_t MS = 1000000;
constexpr int64_t HOUR = 3600ll * 1000 * MS;
enum { NF = 2, CStart = 0, CEnd = 4, CReady = 8, CWaited = 12 };
int g_before[NF];

template <class T> struct Sets {
  static void set(pc::promise<T> &p, int v) { p.set_value(v); }
};
template <> struct Sets<void> {
  static void set(pc::promise<void> &p, int) { p.set_value(); }
};

// one future with its writer
struct Source {
  bool shared = false;
  int kind = 0;   // 0 promise, 1 continuation, 2 unwrapped, 3 already ready
  int out = 0;    // 0 value, 1 error, 2 abandoned
  int64_t delay = 0;
  pc::future<int> u;
  pc::shared_future<int> s;
  pc::promise<int> p;
};
std::vector<Source> *src;

void make(int i) {
  Source &s = (*src)[i];
  pc::future<int> f;
  std::tie(s.p, f) = pc::make_promise<int>();
  if (s.kind == 1)
    f = f.next([](int v) { return v; });
  else if (s.kind == 2) {
    pc::packaged_task<pc::future<int>()> t{[f = std::move(f)]() mutable { return std::move(f); }};
    f = t.get_future();
    t();
  }
  if (s.shared)
    s.s = f.share();
  else
    s.u = std::move(f);
}
void store(int i) {
  Source &s = (*src)[i];
  rt::cell_set(CStart + i, 1);
  g_before[i] = 1;
  if (s.out == 0)
    s.p.set_value(i);
  else if (s.out == 1)
    s.p.set_exception(std::make_exception_ptr(Err{i}));
  else
    s.p = pc::promise<int>{};
  rt::cell_set(CEnd + i, 1);
}

struct Wait {
  int clock = 0; // 0 wait_for, 1 steady, 2 system, 3 user clock, 4 slow user clock, 5 fast user clock
  int64_t d = 0;
  int unit = 0;
};
enum OpK { OWait, OMemberWait, ONew, OCopy, OMove, ODropHandle, OGet, OSleep };
struct Op {
  OpK k;
  int fut = 0;
  Wait w;
  int64_t sleep = 0;
};
const char *op_name[] = {"wait", "member wait", "new waiter", "copy", "move", "drop handle", "get", "sleep"};

int64_t draw_dur() {
  switch (rt::draw(8)) {
  case 0: return 0;
  case 1: return -int64_t(rt::draw(5)) * MS;
  case 2: return 2 * HOUR;
  case 3: return 100 * 365 * 24 * HOUR;
  case 4: return int64_t(rt::draw(2000)); // ns
  default: return int64_t(rt::draw(9)) * MS / 2;
  }
}

template <class W> pc::future_status do_wait(W &&w, const Wait &x) {
  const nanoseconds d(x.d);
  switch (x.clock) {
  case 0:
    switch (x.unit) {
    case 0: return w.wait_for(d);
    case 1: return w.wait_for(std::chrono::duration<double>(d));
    case 2: return w.wait_for(std::chrono::duration_cast<std::chrono::microseconds>(d));
    case 3: return x.d < HOUR ? w.wait_for(d) : w.wait_for(std::chrono::duration<int, std::ratio<3600>>(int(x.d / HOUR)));
    case 4: return x.d < HOUR ? w.wait_for(d) : w.wait_for(std::chrono::duration<float, std::ratio<86400>>(float(x.d / (HOUR / 4)) / 96));
    default: return x.d > 2 * HOUR ? w.wait_for(d) : w.wait_for(std::chrono::duration<int64_t, std::pico>(x.d * 1000));
    }
  case 1: return w.wait_until(std::chrono::steady_clock::now() + d);
  case 2: return w.wait_until(std::chrono::system_clock::now() + d);
  case 4: return w.wait_until(ScaledClock<1, 2>::now() + d);
  case 5: return w.wait_until(ScaledClock<4, 1>::now() + d);
  default: return w.wait_until(UserClock::now() + std::chrono::duration_cast<std::chrono::microseconds>(d));
  }
}

struct Slot {
  pc::timed_waiter w;
  int fut = -1;
  bool seen = false; // this waiter reported ready once
};

// `alive`: some handle of the future is certainly kept until the end
void timed(const Wait &x, int fut, bool alive, const std::function<pc::future_status()> &call, bool *was_ready) {
  const bool done0 = rt::cell_get(CEnd + fut);
  const uint64_t t0 = rt::now_ns();
  const pc::future_status st = call();
  const uint64_t t1 = rt::now_ns();
  const int64_t el = int64_t(t1 - t0);
  // the time that really has to pass
  const int64_t need = x.clock == 4 ? (x.d > HOUR ? x.d : x.d * 2) : x.clock == 5 ? x.d / 4 : x.d;
  // rounding of the requested time (clock ticks, floating point)
  const int64_t slack = x.clock == 3 ? 2000 : x.clock >= 4 ? 10 : x.clock ? 0 : x.unit == 2 ? 1000 : x.unit == 1 || x.unit == 4 ? 100 + x.d / 100000 : 0;
  if (!done0)
    rt::nontrivial();
  if (st == pc::future_status::ready) {
    RT_CHECK(rt::cell_get(CStart + fut), "a timed wait reports ready before anything is stored");
    RT_CHECK(g_before[fut] == 1, "what was done before the store is not visible after the wait");
    RT_CHECK(x.d < HOUR || el < HOUR, "the result was stored but the wait returned only when its time was up");
    *was_ready = true;
    rt::label("ready");
  } else {
    RT_CHECK(st == pc::future_status::timeout, "status %d", int(st));
    RT_CHECK(!done0 || !alive, "a timed wait for a stored result reports timeout");
    RT_CHECK(!*was_ready, "a timed wait reports timeout after an earlier one reported ready");
    RT_CHECK(el + slack >= need, "timeout reported after %lld ns of %lld", (long long)el, (long long)need);
    RT_CHECK(!alive || x.d < HOUR, "a two hour wait timed out although the result was stored within milliseconds");
    rt::label("timeout");
  }
}

struct Worker {
  std::vector<Op> ops;
  std::vector<Slot> slots;
  pc::shared_future<int> s[NF];
  pc::future<int> u[NF];
  bool seen[NF] = {};
  bool alive[NF] = {};

  void run() {
    for (const Op &o : ops) {
      switch (o.k) {
      case OWait: {
        for (auto &sl : slots)
          if (sl.fut == o.fut) {
            timed(o.w, o.fut, alive[o.fut], [&] { return do_wait(sl.w, o.w); }, &sl.seen);
            seen[o.fut] = seen[o.fut] || sl.seen;
            if (seen[o.fut] && s[o.fut].valid())
              RT_CHECK(s[o.fut].is_ready(), "a timed wait reports ready, the future is not");
            if (seen[o.fut] && u[o.fut].valid())
              RT_CHECK(u[o.fut].is_ready(), "a timed wait reports ready, the future is not");
            break;
          }
        break;
      }
      case OMemberWait:
        if (s[o.fut].valid()) {
          const auto &f = s[o.fut];
          timed(o.w, o.fut, true, [&] { return do_wait(f, o.w); }, &seen[o.fut]);
        } else if (u[o.fut].valid()) {
          const auto &f = u[o.fut];
          timed(o.w, o.fut, true, [&] { return do_wait(f, o.w); }, &seen[o.fut]);
        }
        break;
      case ONew:
        if (s[o.fut].valid())
          slots.insert(slots.begin(), {pc::timed_waiter{s[o.fut]}, o.fut, seen[o.fut]});
        else if (u[o.fut].valid())
          slots.insert(slots.begin(), {pc::timed_waiter{u[o.fut]}, o.fut, seen[o.fut]});
        break;
      case OCopy:
        if (!slots.empty()) {
          Slot x;
          x = slots.back();
          slots.insert(slots.begin(), x);
          slots.pop_back();
        }
        break;
      case OMove:
        if (slots.size() > 1) {
          // the waiter of one future is replaced by that of another
          slots[0].w = std::move(slots[1].w);
          slots[0].fut = slots[1].fut;
          slots[0].seen = slots[1].seen;
          slots.erase(slots.begin() + 1);
        }
        break;
      case ODropHandle:
        s[o.fut] = {};
        break;
      case OGet:
        if (seen[o.fut] && u[o.fut].valid()) {
          const uint64_t t0 = rt::now_ns();
          read(u[o.fut], o.fut);
          RT_CHECK(rt::now_ns() - t0 < uint64_t(HOUR), "get blocked");
          RT_CHECK(!u[o.fut].valid(), "get left the future valid");
        } else if (s[o.fut].valid())
          read(s[o.fut], o.fut);
        break;
      case OSleep:
        std::this_thread::sleep_for(nanoseconds(o.sleep));
      }
    }
  }
  template <class F> static void read(F &f, int i) {
    const int out = (*src)[i].out;
    try {
      RT_CHECK(f.get() == i && out == 0, "wrong value");
    } catch (const Err &e) {
      RT_CHECK(e.id == i && out == 1, "wrong error");
    } catch (const std::future_error &e) {
      RT_CHECK(out == 2 && e.code() == std::future_errc::broken_promise, "wrong error %s", e.what());
    }
  }
};
} // namespace

void run_case() {
  std::vector<Source> sources(NF);
  src = &sources;
  const int nf = 1 + rt::draw(NF);
  const int nw = 1 + rt::draw(3);
  const bool main_stores = rt::flip();
  std::string d;
  for (int i = 0; i < nf; ++i) {
    g_before[i] = 0;
    Source &s = sources[i];
    s.shared = rt::flip();
    s.kind = rt::draw(4);
    s.out = rt::draw(4) % 3;
    s.delay = rt::flip() ? 0 : int64_t(rt::draw(7)) * MS / 2;
    d += std::string(s.shared ? " shared" : " unique") + " kind" + std::to_string(s.kind) + " out" + std::to_string(s.out) + " after " +
         std::to_string(s.delay / 1000) + "us;";
  }
  std::vector<Worker> ws(nw);
  for (int k = 0; k < nw; ++k) {
    const int n = 1 + rt::draw(5);
    d += "\n T" + std::to_string(k + 1) + ":";
    for (int j = 0; j < n; ++j) {
      Op o;
      o.k = OpK(rt::draw(12) % 8);
      if (j == 0 && o.k >= OGet)
        o.k = OWait;
      o.fut = rt::draw(nf);
      o.w.clock = rt::draw(6);
      o.w.unit = rt::draw(6);
      o.w.d = draw_dur();
      if (o.w.clock >= 4)
        o.w.d = std::min(o.w.d, 2 * HOUR);
      o.sleep = int64_t(rt::draw(5)) * MS / 2;
      ws[k].ops.push_back(o);
      d += std::string(" ") + op_name[o.k] + std::to_string(o.fut);
      if (o.k <= OMemberWait)
        d += "(" + std::to_string(o.w.d) + "ns,c" + std::to_string(o.w.clock) + ")";
    }
  }
  rt::trace("%s\n", d.c_str());
  // a handle kept until the end; otherwise the future may die before the store
  bool keep[NF];
  pc::shared_future<int> kept[NF];
  for (int i = 0; i < nf; ++i) {
    make(i);
    keep[i] = !rt::chance(1, 6);
    if (sources[i].kind == 3)
      store(i);
    Source &s = sources[i];
    if (s.shared) {
      for (auto &w : ws)
        if (rt::chance(3, 4))
          w.s[i] = s.s;
      pc::timed_waiter tw{s.s};
      for (auto &w : ws) {
        w.slots.push_back({tw, i, false});
        w.alive[i] = keep[i];
      }
      if (keep[i])
        kept[i] = s.s;
      s.s = {};
    } else {
      // copies of one waiter; the future itself belongs to one thread
      pc::timed_waiter tw{s.u};
      for (auto &w : ws)
        w.slots.push_back({tw, i, false});
      const int owner = rt::draw(nw + 1);
      if (owner < nw && !keep[i])
        ws[owner].u[i] = std::move(s.u);
      else if (owner < nw) {
        ws[owner].u[i] = std::move(s.u); // dropped only after all threads ended
        for (auto &w : ws)
          w.alive[i] = true;
        for (auto &o : ws[owner].ops) // the owner must not consume it early
          if (o.k == OGet && o.fut == i)
            o.k = OWait;
      } else {
        for (auto &w : ws)
          w.alive[i] = true;
        keep[i] = true;
      }
    }
  }
  std::vector<std::thread> ths;
  for (auto &w : ws)
    ths.emplace_back([&w] { w.run(); });
  auto write = [nf](int only) {
    for (int i = 0; i < nf; ++i)
      if ((only < 0 || only == i) && (*src)[i].kind != 3) {
        if ((*src)[i].delay)
          std::this_thread::sleep_for(nanoseconds((*src)[i].delay));
        store(i);
      }
  };
  if (main_stores)
    write(-1);
  else {
    for (int i = 0; i < nf; ++i)
      ths.emplace_back([write, i] { write(i); });
  }
  for (auto &t : ths)
    t.join();
  // after everything: a kept future is ready for every waiter
  for (auto &w : ws) {
    for (auto &sl : w.slots)
      if (w.alive[sl.fut]) {
        Wait x;
        timed(x, sl.fut, true, [&] { return sl.w.wait_for(nanoseconds(0)); }, &sl.seen);
        RT_CHECK(sl.seen, "not ready in the end");
      }
  }
  for (int i = 0; i < nf; ++i)
    if (kept[i].valid())
      Worker::read(kept[i], i);
  ws.clear();
  sources.clear();
}
