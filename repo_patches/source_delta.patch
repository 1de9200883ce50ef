From ecc235acbd1d1f2232f10055de844afa973346ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:30:12 +0000
Subject: [PATCH 01/12] fix: latch::count_down must not touch the latch after
 releasing its waiters

---
 .../bits/portable_concurrency.cpp                | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/portable_concurrency/bits/portable_concurrency.cpp b/portable_concurrency/bits/portable_concurrency.cpp
index 7d12602..2b84e8e 100644
--- a/portable_concurrency/bits/portable_concurrency.cpp
+++ b/portable_concurrency/bits/portable_concurrency.cpp
@@ -117,14 +117,14 @@ void latch::count_down_and_wait() {
 }
 
 void latch::count_down(ptrdiff_t n) {
-  {
-    std::lock_guard<std::mutex> lock{mutex_};
-    assert(counter_ >= n);
-    assert(n >= 0);
-    counter_ -= n;
-    if (counter_ > 0)
-      return;
-  }
+  std::lock_guard<std::mutex> lock{mutex_};
+  assert(counter_ >= n);
+  assert(n >= 0);
+  counter_ -= n;
+  if (counter_ > 0)
+    return;
+  // Must be called under the lock: a waiter released by this call is allowed to
+  // destroy the latch as soon as it sees the zero counter.
   cv_.notify_all();
 }
 
-- 
2.43.0


From 677c2e67c091eb887b6ba0bc12c8ea5644f11b62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:09:30 +0000
Subject: [PATCH 02/12] fix: async of a function returning a reference must not
 decay its result

---
 portable_concurrency/bits/async.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/portable_concurrency/bits/async.h b/portable_concurrency/bits/async.h
index 1097b4c..27d9736 100644
--- a/portable_concurrency/bits/async.h
+++ b/portable_concurrency/bits/async.h
@@ -24,10 +24,12 @@ public:
   task(F &&f, A &&...a)
       : func_(std::forward<F>(f)), args_(std::forward<A>(a)...) {}
 
-  auto operator()() { return run(std::make_index_sequence<sizeof...(A)>()); }
+  decltype(auto) operator()() {
+    return run(std::make_index_sequence<sizeof...(A)>());
+  }
 
 private:
-  template <size_t... I> auto run(std::index_sequence<I...>) {
+  template <size_t... I> decltype(auto) run(std::index_sequence<I...>) {
     return this_ns::invoke(std::move(func_), std::move(std::get<I>(args_))...);
   }
 
-- 
2.43.0


From 0006a3c31b1c359288d038d09d14f5fbe3c1a0d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:09:42 +0000
Subject: [PATCH 03/12] fix: overwriting a posted continuation task must
 abandon it

---
 portable_concurrency/bits/then.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/portable_concurrency/bits/then.hpp b/portable_concurrency/bits/then.hpp
index bca2740..a487327 100644
--- a/portable_concurrency/bits/then.hpp
+++ b/portable_concurrency/bits/then.hpp
@@ -184,7 +184,7 @@ template <typename CntState> struct cnt_action {
   cnt_action(std::weak_ptr<CntState> wdata) : wdata(std::move(wdata)) {}
   cnt_action(cnt_action &&rhs) noexcept : wdata(std::move(rhs.wdata)) {}
   cnt_action &operator=(cnt_action &&rhs) noexcept {
-    wdata = std::move(rhs.wdata);
+    cnt_action old{std::exchange(wdata, std::exchange(rhs.wdata, {}))};
     return *this;
   }
 
-- 
2.43.0


From 6e58c618d46b464486a545f3342aa9cfcd6762bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:47:04 +0000
Subject: [PATCH 04/12] fix: thread pool must destroy a finished task before
 waiting for the next one

---
 portable_concurrency/bits/portable_concurrency.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/portable_concurrency/bits/portable_concurrency.cpp b/portable_concurrency/bits/portable_concurrency.cpp
index 2b84e8e..fdd6362 100644
--- a/portable_concurrency/bits/portable_concurrency.cpp
+++ b/portable_concurrency/bits/portable_concurrency.cpp
@@ -89,8 +89,12 @@ void process_queue(
   const std::atomic<bool> &stopped
 ) noexcept {
   unique_function<void()> task;
-  while (!stopped.load(std::memory_order_relaxed) && queue.pop(task))
+  while (!stopped.load(std::memory_order_relaxed) && queue.pop(task)) {
     task();
+    // Destroy finished task before waiting for the next one. It might be the
+    // last owner of a promise and it must not be destroyed with queue locked.
+    task = unique_function<void()>{};
+  }
 }
 
 } // namespace
-- 
2.43.0


From 690d6c36c5dc2a9337c0131abd4f833fc6d8a923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:17:39 +0000
Subject: [PATCH 05/12] fix: unique_function must not decay the reference
 result of a heap stored function

---
 portable_concurrency/bits/unique_function.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/portable_concurrency/bits/unique_function.hpp b/portable_concurrency/bits/unique_function.hpp
index 9933172..df98fdd 100644
--- a/portable_concurrency/bits/unique_function.hpp
+++ b/portable_concurrency/bits/unique_function.hpp
@@ -33,7 +33,9 @@ unique_function<R(A...)>::unique_function(F &&f, std::false_type) {
   if (detail::is_null(f))
     return;
   func_ = [func = std::make_unique<std::decay_t<F>>(std::forward<F>(f))](
-              A... a) { return detail::invoke(*func, std::forward<A>(a)...); };
+              A... a) -> decltype(auto) {
+    return detail::invoke(*func, std::forward<A>(a)...);
+  };
 }
 
 template <typename R, typename... A>
-- 
2.43.0


From edac67c1e3111928572ea74ff07d69b337795c53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:18:16 +0000
Subject: [PATCH 06/12] fix: moving a unique_function into itself must keep its
 target

---
 portable_concurrency/bits/small_unique_function.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/portable_concurrency/bits/small_unique_function.hpp b/portable_concurrency/bits/small_unique_function.hpp
index 0aadd0a..a302af3 100644
--- a/portable_concurrency/bits/small_unique_function.hpp
+++ b/portable_concurrency/bits/small_unique_function.hpp
@@ -123,6 +123,8 @@ small_unique_function<R(A...)>::small_unique_function(
 template <typename R, typename... A>
 small_unique_function<R(A...)> &small_unique_function<R(A...)>::operator=(
     small_unique_function<R(A...)> &&rhs) noexcept {
+  if (this == &rhs)
+    return *this;
   if (vtbl_)
     vtbl_->destroy(buffer_);
   if (rhs.vtbl_)
-- 
2.43.0


From fd1957ed7b369439b2941295cb0fdd909bb06587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:48:06 +0000
Subject: [PATCH 07/12] fix: result of a failed subscription on a nested future
 must be delivered

---
 portable_concurrency/bits/shared_state.h | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/portable_concurrency/bits/shared_state.h b/portable_concurrency/bits/shared_state.h
index 78707eb..d1228f2 100644
--- a/portable_concurrency/bits/shared_state.h
+++ b/portable_concurrency/bits/shared_state.h
@@ -100,10 +100,19 @@ public:
       return;
     }
     self->storage_.emplace(in_place_index_t<2>{}, val);
-    val->continuations().push([wself = std::weak_ptr<shared_state>(self)] {
-      if (auto self = wself.lock())
-        self->continuations().execute();
-    });
+    try {
+      val->continuations().push([wself = std::weak_ptr<shared_state>(self)] {
+        if (auto self = wself.lock())
+          self->continuations().execute();
+      });
+    } catch (...) {
+      if (self->continuations().executed())
+        throw;
+      // Failed to subscribe on the inner state. There will be no notification
+      // when it becomes ready so the failure is the only possible result.
+      self->storage_.clean();
+      self->set_exception(std::current_exception());
+    }
   }
 
   static void unwrap(std::shared_ptr<shared_state> &self, future<T> &&val) {
-- 
2.43.0


From 5eb5328181770356ab25042a66c0c8eeb981dc40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:53:09 +0000
Subject: [PATCH 08/12] fix: thread pool constructor must join started threads
 when it fails

---
 portable_concurrency/bits/portable_concurrency.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/portable_concurrency/bits/portable_concurrency.cpp b/portable_concurrency/bits/portable_concurrency.cpp
index fdd6362..3c09737 100644
--- a/portable_concurrency/bits/portable_concurrency.cpp
+++ b/portable_concurrency/bits/portable_concurrency.cpp
@@ -176,8 +176,16 @@ future<when_any_result<std::tuple<>>> when_any() {
 
 static_thread_pool::static_thread_pool(std::size_t num_threads) {
   threads_.reserve(num_threads);
-  while (num_threads-- > 0)
-    threads_.push_back(std::thread{&static_thread_pool::attach, this});
+  try {
+    while (num_threads-- > 0)
+      threads_.push_back(std::thread{&static_thread_pool::attach, this});
+  } catch (...) {
+    // Destructor is not going to be called, already started threads must be
+    // joined here.
+    stop();
+    wait();
+    throw;
+  }
 }
 
 static_thread_pool::~static_thread_pool() {
-- 
2.43.0


From 36a08906a6eb4bbb48108ac46044c79b3db5f189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:23:46 +0000
Subject: [PATCH 09/12] fix: static_thread_pool::wait must wait for attached
 threads of a pool without own ones

---
 portable_concurrency/bits/portable_concurrency.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/portable_concurrency/bits/portable_concurrency.cpp b/portable_concurrency/bits/portable_concurrency.cpp
index 3c09737..3dfd561 100644
--- a/portable_concurrency/bits/portable_concurrency.cpp
+++ b/portable_concurrency/bits/portable_concurrency.cpp
@@ -219,6 +219,9 @@ void static_thread_pool::wait() {
       thread.join();
   }
   threads_.clear();
+  // There might be no own threads which wait for attached ones.
+  std::unique_lock<std::mutex> lock{mutex_};
+  cv_.wait(lock, [&] { return attached_threads_ == 0; });
 }
 
 } // namespace cxx14_v1
-- 
2.43.0


From 9c6dec05da0a23a2348942be69558ca7b2404f99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:50:07 +0000
Subject: [PATCH 10/12] fix: packaged_task must not move from an object its
 function returns by reference

---
 portable_concurrency/bits/shared_state.h | 5 +++++
 portable_concurrency/bits/utils.h        | 2 +-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/portable_concurrency/bits/shared_state.h b/portable_concurrency/bits/shared_state.h
index d1228f2..cb17c81 100644
--- a/portable_concurrency/bits/shared_state.h
+++ b/portable_concurrency/bits/shared_state.h
@@ -124,6 +124,11 @@ public:
     unwrap(self, state_of(std::move(val)));
   }
 
+  static void unwrap(std::shared_ptr<shared_state> &self,
+                     shared_future<T> &val) {
+    unwrap(self, state_of(val));
+  }
+
   template <typename U>
   static std::enable_if_t<
       !std::is_same<std::decay_t<U>, std::shared_ptr<future_state<T>>>::value>
diff --git a/portable_concurrency/bits/utils.h b/portable_concurrency/bits/utils.h
index 6df231f..daa9e48 100644
--- a/portable_concurrency/bits/utils.h
+++ b/portable_concurrency/bits/utils.h
@@ -17,7 +17,7 @@ void set_state_value(std::shared_ptr<shared_state<R>> &state, F &&f, A &&...a) {
     auto &&res = ::portable_concurrency::cxx14_v1::detail::invoke(
         std::forward<F>(f), std::forward<A>(a)...);
     executed = true;
-    shared_state<R>::unwrap(state, std::move(res));
+    shared_state<R>::unwrap(state, std::forward<decltype(res)>(res));
   } catch (...) {
     if (executed)
       throw;
-- 
2.43.0


From 1b25a4f2456a7946c283739a3e631c1c6685bb47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:50:25 +0000
Subject: [PATCH 11/12] fix: next on a future of a reference must pass the
 reference itself to the function

---
 portable_concurrency/bits/then.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/portable_concurrency/bits/then.hpp b/portable_concurrency/bits/then.hpp
index a487327..2b398ac 100644
--- a/portable_concurrency/bits/then.hpp
+++ b/portable_concurrency/bits/then.hpp
@@ -86,7 +86,7 @@ auto decorate_unique_next(DirectContinuation<F, T> &&f,
       state->set_exception(std::move(error));
       return;
     }
-    set_state_value(state, std::move(f), std::move(parent->value_ref()));
+    set_state_value(state, std::move(f), static_cast<T &&>(parent->value_ref()));
   };
 }
 
@@ -101,8 +101,9 @@ auto decorate_unique_next(UnwrappableContinuation<F, T> &&f,
     }
     try {
       shared_state<R>::unwrap(
-          state, state_of(this_ns::invoke(std::move(f),
-                                          std::move(parent->value_ref()))));
+          state,
+          state_of(this_ns::invoke(
+              std::move(f), static_cast<T &&>(parent->value_ref()))));
     } catch (...) {
       state->set_exception(std::current_exception());
     }
-- 
2.43.0


From 91d9ba46f3850c8b55f69bc3607c4afba2ce37ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:19:37 +0000
Subject: [PATCH 12/12] fix: pool must not be destroyed while attached threads
 are leaving it

---
 .../bits/portable_concurrency.cpp               | 17 ++++++++++-------
 portable_concurrency/bits/thread_pool.h         |  1 +
 2 files changed, 11 insertions(+), 7 deletions(-)

diff --git a/portable_concurrency/bits/portable_concurrency.cpp b/portable_concurrency/bits/portable_concurrency.cpp
index 3dfd561..80f1e2e 100644
--- a/portable_concurrency/bits/portable_concurrency.cpp
+++ b/portable_concurrency/bits/portable_concurrency.cpp
@@ -197,14 +197,17 @@ void static_thread_pool::attach() {
   {
     std::lock_guard<std::mutex> lock{mutex_};
     ++attached_threads_;
+    ++threads_inside_;
   }
   process_queue(queue_, stopped_);
-  {
-    std::unique_lock<std::mutex> lock{mutex_};
-    --attached_threads_;
-    cv_.wait(lock, [&] { return attached_threads_ == 0; });
-  }
-  cv_.notify_all();
+  std::unique_lock<std::mutex> lock{mutex_};
+  if (--attached_threads_ == 0)
+    cv_.notify_all();
+  cv_.wait(lock, [&] { return attached_threads_ == 0; });
+  // Must be called under the lock: the pool might be destroyed as soon as
+  // wait() sees that the last thread is gone.
+  if (--threads_inside_ == 0)
+    cv_.notify_all();
 }
 
 void static_thread_pool::stop() { 
@@ -221,7 +224,7 @@ void static_thread_pool::wait() {
   threads_.clear();
   // There might be no own threads which wait for attached ones.
   std::unique_lock<std::mutex> lock{mutex_};
-  cv_.wait(lock, [&] { return attached_threads_ == 0; });
+  cv_.wait(lock, [&] { return threads_inside_ == 0; });
 }
 
 } // namespace cxx14_v1
diff --git a/portable_concurrency/bits/thread_pool.h b/portable_concurrency/bits/thread_pool.h
index c3410d9..b13d83a 100644
--- a/portable_concurrency/bits/thread_pool.h
+++ b/portable_concurrency/bits/thread_pool.h
@@ -62,6 +62,7 @@ private:
   detail::closable_queue<unique_function<void()>> queue_;
   std::vector<std::thread> threads_;
   unsigned attached_threads_ = 0;
+  unsigned threads_inside_ = 0;
   std::mutex mutex_;
   std::condition_variable cv_;
   std::atomic<bool> stopped_{false};
-- 
2.43.0

