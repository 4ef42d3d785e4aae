From 474d16b06294de39e21774457f234d266fa87f75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:49 +0000
Subject: [PATCH 01/15] fix: reverse_append relinks the reversed nodes
 (reversing a forest range dropped it)

---
 include/stlab/algorithm/reverse.hpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/include/stlab/algorithm/reverse.hpp b/include/stlab/algorithm/reverse.hpp
index aeb2a28..29a1fca 100644
--- a/include/stlab/algorithm/reverse.hpp
+++ b/include/stlab/algorithm/reverse.hpp
@@ -31,13 +31,20 @@ namespace unsafe {
 
 template <STLAB_CONCEPT(FORWARD_NODE_ITERATOR) I>
 auto reverse_append(I first, I last, I end) -> I {
+    if (first == last) return end;
+
+    // `end` may be `last`, and iterators may rely on intact links to advance, so it is linked last.
+    I back(first);
+    I result(first);
+    ++first;
     while (first != last) {
-        I prior(end);
+        I prior(first);
         ++first;
-        stlab::unsafe::set_next(prior, end);
-        end = prior;
+        stlab::unsafe::set_next(prior, result);
+        result = prior;
     }
-    return end;
+    stlab::unsafe::set_next(back, end);
+    return result;
 }
 
 /// Reverses `range` and appends `end`.  Returns the beginning of the reversed range such that
-- 
2.43.0


From 239159941d84ed3606d8262d897b6a77456203ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:49 +0000
Subject: [PATCH 02/15] fix: equal_shape reports different shapes when the
 first forest is a prefix of the second

---
 include/stlab/forest_algorithms.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stlab/forest_algorithms.hpp b/include/stlab/forest_algorithms.hpp
index 9ec9837..c035ccf 100644
--- a/include/stlab/forest_algorithms.hpp
+++ b/include/stlab/forest_algorithms.hpp
@@ -26,7 +26,7 @@ auto equal_shape(const Forest1& x, const Forest2& y) -> bool {
     for (auto first(x.begin()), last(x.end()); first != last; ++first, ++pos) {
         if (first.edge() != pos.edge()) return false;
     }
-    return true;
+    return pos == y.end();
 }
 
 /**************************************************************************************************/
-- 
2.43.0


From c7f23515ae96427857894e58c7bda010d08fa508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:32 +0000
Subject: [PATCH 03/15] fix: task move assignment and swap with itself
 destroyed the held callable before moving from it

---
 include/stlab/concurrency/task.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/stlab/concurrency/task.hpp b/include/stlab/concurrency/task.hpp
index 4e4e541..9e2d14e 100644
--- a/include/stlab/concurrency/task.hpp
+++ b/include/stlab/concurrency/task.hpp
@@ -224,6 +224,8 @@ public:
     auto operator=(const task_&) -> task_& = delete;
 
     auto operator=(task_&& x) noexcept -> task_& {
+        if (this == &x) return *this;
+
         _vtable_ptr->dtor(&_model);
         _vtable_ptr = x._vtable_ptr;
         _invoke = x._invoke;
-- 
2.43.0


From 1f5c3a9d3ba693b5bd11244e6e4cb319b99ed011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:01 +0000
Subject: [PATCH 04/15] fix: tracker_client assignment kept counting the task
 it overwrote

---
 include/stlab/concurrency/progress.hpp | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/include/stlab/concurrency/progress.hpp b/include/stlab/concurrency/progress.hpp
index 1617665..9ac8fb5 100644
--- a/include/stlab/concurrency/progress.hpp
+++ b/include/stlab/concurrency/progress.hpp
@@ -12,6 +12,8 @@
 #include <atomic>
 #include <functional>
 #include <memory>
+#include <type_traits>
+#include <utility>
 
 namespace stlab {
 namespace detail {
@@ -51,17 +53,19 @@ struct tracker_client {
         if (p) p->add_task();
     }
 
-    tracker_client& operator=(const tracker_client& x) {
-        _f = x._f;
-        _p = x._p;
+    tracker_client& operator=(const tracker_client& x) { return *this = tracker_client(x); }
+
+    tracker_client(tracker_client&&) = default;
+    tracker_client& operator=(tracker_client&& x) noexcept(std::is_nothrow_move_assignable_v<F>) {
+        if (this == &x) return *this;
+
         auto p = _p.lock();
-        if (p) p->add_task();
+        _f = std::move(x._f);
+        _p = std::move(x._p);
+        if (p) p->drop_task();
         return *this;
     }
 
-    tracker_client(tracker_client&&) = default;
-    tracker_client& operator=(tracker_client&&) = default;
-
     tracker_client(std::shared_ptr<tracker_server>& p, F&& f) : _f(std::move(f)), _p(p) {
         p->add_task();
     }
-- 
2.43.0


From cefada890d6df45b4568230fd67bb88da8f1ea33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:31 +0000
Subject: [PATCH 05/15] fix: overwriting a packaged task or promise breaks the
 overwritten one

---
 include/stlab/concurrency/future.hpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/stlab/concurrency/future.hpp b/include/stlab/concurrency/future.hpp
index ce61c43..c37ad80 100644
--- a/include/stlab/concurrency/future.hpp
+++ b/include/stlab/concurrency/future.hpp
@@ -581,7 +581,11 @@ public:
     }
 
     promise(promise&&) noexcept = default;
-    auto operator=(promise&&) noexcept -> promise& = default;
+    auto operator=(promise&& x) noexcept -> promise& {
+        promise tmp{std::move(x)};
+        _p.swap(tmp._p); // an overwritten promise is destroyed with tmp, which breaks it
+        return *this;
+    }
 
     promise(const promise&) = delete;
     auto operator=(const promise&) -> promise& = delete;
@@ -665,7 +669,11 @@ public:
     auto operator=(const packaged_task&) -> packaged_task& = delete;
 
     packaged_task(packaged_task&&) noexcept = default;
-    auto operator=(packaged_task&& x) noexcept -> packaged_task& = default;
+    auto operator=(packaged_task&& x) noexcept -> packaged_task& {
+        packaged_task tmp{std::move(x)};
+        _p.swap(tmp._p); // an overwritten task is destroyed with tmp, which breaks its promise
+        return *this;
+    }
 
     template <class... A>
     void operator()(A&&... args) noexcept {
-- 
2.43.0


From 92cb4e32046d94bab88374bcda35f299babcf1a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:48 +0000
Subject: [PATCH 06/15] fix: blocking_get_for returns the future it waited for

---
 include/stlab/concurrency/await.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stlab/concurrency/await.hpp b/include/stlab/concurrency/await.hpp
index 8780d03..7aba406 100644
--- a/include/stlab/concurrency/await.hpp
+++ b/include/stlab/concurrency/await.hpp
@@ -152,7 +152,7 @@ auto blocking_get(future<T> x) -> T {
 template <class T>
 [[deprecated("Use await_for instead.")]]
 auto blocking_get_for(future<T> x, const std::chrono::nanoseconds& timeout) -> future<T> {
-    await_for(std::move(x), timeout);
+    return await_for(std::move(x), timeout);
 }
 
 template <class T>
-- 
2.43.0


From 977b2fdf17a3237e32fbd24158a1d32de16b71b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:27 +0000
Subject: [PATCH 07/15] fix: when_all/when_any cancel the other inputs after
 releasing the lock

Cancelling an input destroys the work behind it, which may fail (or complete) another input of
the same operation on the same thread; reporting that deadlocked on the lock still held.
---
 include/stlab/concurrency/future.hpp | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/include/stlab/concurrency/future.hpp b/include/stlab/concurrency/future.hpp
index c37ad80..23da60a 100644
--- a/include/stlab/concurrency/future.hpp
+++ b/include/stlab/concurrency/future.hpp
@@ -1095,12 +1095,16 @@ struct when_all_shared {
     void failure(const std::exception_ptr& error) {
         auto run{false};
         {
-            std::unique_lock<std::mutex> lock{_guard};
-            if (!_exception) {
-                for (auto& h : _holds)
-                    h.reset();
-                _exception = error;
-                run = true;
+            // The other inputs are cancelled after the lock is released, destroying them may execute
+            // arbitrary code (including the failure of another input).
+            decltype(_holds) holds;
+            {
+                std::unique_lock<std::mutex> lock{_guard};
+                if (!_exception) {
+                    holds.swap(_holds);
+                    _exception = error;
+                    run = true;
+                }
             }
         }
         if (run) _f();
@@ -1432,11 +1436,15 @@ struct single_trigger {
     template <class C, class F>
     static auto go(C& context, F&& f, size_t index) -> bool {
         auto run{false};
+        // The other inputs are cancelled after the lock is released, destroying them may execute
+        // arbitrary code (including the failure of another input).
+        std::vector<future<void>> holds;
         {
             std::unique_lock<std::mutex> lock{context._guard};
             if (!context._single_event) {
+                holds.resize(context._holds.size());
                 for (auto i = 0u; i < context._holds.size(); ++i) {
-                    if (i != index) context._holds[i].reset();
+                    if (i != index) holds[i].swap(context._holds[i]);
                 }
                 context._single_event = true;
                 context.apply(std::forward<F>(f), index);
-- 
2.43.0


From 25f7bd810b94db77f958e4156154274de8cc6f44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:54 +0000
Subject: [PATCH 08/15] fix: when_all without inputs becomes ready

when_all(executor, f) never scheduled f, the future returned stayed pending forever; it now behaves
as when_all of an empty range does.
---
 include/stlab/concurrency/future.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/stlab/concurrency/future.hpp b/include/stlab/concurrency/future.hpp
index 23da60a..8e6e0d5 100644
--- a/include/stlab/concurrency/future.hpp
+++ b/include/stlab/concurrency/future.hpp
@@ -1267,9 +1267,13 @@ auto when_all(const E& executor, F f, future<Ts>... args) {
     auto shared = std::make_shared<detail::when_all_shared<F, opt_t>>();
     auto p = package<result_t()>(
         executor, [_f = std::move(f), _p = shared] { return detail::apply_when_all_args(_f, _p); });
-    shared->_f = std::move(p.first);
+    if constexpr (sizeof...(Ts) == 0) {
+        executor(std::move(p.first)); // there is nothing to wait for
+    } else {
+        shared->_f = std::move(p.first);
 
-    detail::attach_when_args(executor, shared, std::move(args)...);
+        detail::attach_when_args(executor, shared, std::move(args)...);
+    }
 
     return std::move(p.second);
 }
-- 
2.43.0


From 5261f7178bc798b56bf571e04d96ccdad87732e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:25:44 +0000
Subject: [PATCH 09/15] fix: channel annotations combine with an annotated
 process

---
 include/stlab/concurrency/channel.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/stlab/concurrency/channel.hpp b/include/stlab/concurrency/channel.hpp
index 21bc9b2..156958f 100644
--- a/include/stlab/concurrency/channel.hpp
+++ b/include/stlab/concurrency/channel.hpp
@@ -1372,7 +1372,7 @@ struct annotated_process {
     annotated_process(F f, executor&& e) : _f(std::move(f)), _annotations(std::move(e._executor)) {}
     annotated_process(F f, annotations&& a) : _f(std::move(f)), _annotations(std::move(a)) {}
     annotated_process(executor_task_pair<F>&& etp, buffer_size bs) :
-        _f(std::move(etp._f)), _annotations(std::move(etp._executor), bs) {}
+        _f(std::move(etp._f)), _annotations(std::move(etp._executor), bs._value) {}
 };
 
 template <typename B, typename E>
@@ -1433,14 +1433,14 @@ auto operator&(F&& f, detail::annotations&& a) -> detail::annotated_process<F> {
 template <typename F>
 auto operator&(detail::annotated_process<F>&& a, executor&& e) -> detail::annotated_process<F> {
     auto result{std::move(a)};
-    a._annotations._executor = std::move(e._executor);
+    result._annotations._executor = std::move(e._executor);
     return result;
 }
 
 template <typename F>
 auto operator&(detail::annotated_process<F>&& a, buffer_size bs) -> detail::annotated_process<F> {
     auto result{std::move(a)};
-    a._annotations._buffer_size = bs._value;
+    result._annotations._buffer_size = bs._value;
     return result;
 }
 
-- 
2.43.0


From df7e7ac8bb81acf976fdb25059eb716fb02f9984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:25:44 +0000
Subject: [PATCH 10/15] fix: overwriting a sender or receiver drops the
 overwritten one

---
 include/stlab/concurrency/channel.hpp | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/include/stlab/concurrency/channel.hpp b/include/stlab/concurrency/channel.hpp
index 156958f..8caa14d 100644
--- a/include/stlab/concurrency/channel.hpp
+++ b/include/stlab/concurrency/channel.hpp
@@ -1487,7 +1487,12 @@ public:
         return *this = receiver(x);
     }
 
-    auto operator=(receiver&& x) noexcept -> receiver& = default;
+    auto operator=(receiver&& x) noexcept -> receiver& {
+        receiver tmp(std::move(x)); // drops the overwritten receiver
+        std::swap(_p, tmp._p);
+        std::swap(_ready, tmp._ready);
+        return *this;
+    }
 
     void set_ready() {
         if (!_ready && _p) _p->remove_receiver();
@@ -1585,7 +1590,11 @@ public:
         return *this = sender(x);
     }
 
-    auto operator=(sender&&) noexcept -> sender& = default;
+    auto operator=(sender&& x) noexcept -> sender& {
+        sender tmp(std::move(x)); // drops the overwritten sender
+        std::swap(_p, tmp._p);
+        return *this;
+    }
 
     void swap(sender& x) noexcept { std::swap(*this, x); }
 
@@ -1643,7 +1652,11 @@ public:
     sender(const sender& x) = delete;
     sender(sender&&) noexcept = default;
     auto operator=(const sender& x) -> sender& = delete;
-    auto operator=(sender&&) noexcept -> sender& = default;
+    auto operator=(sender&& x) noexcept -> sender& {
+        sender tmp(std::move(x)); // drops the overwritten sender
+        std::swap(_p, tmp._p);
+        return *this;
+    }
 
     void swap(sender& x) noexcept { std::swap(*this, x); }
 
-- 
2.43.0


From bd91625223162c7eb15d67836a601e67a061ac1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:25:44 +0000
Subject: [PATCH 11/15] fix: an exception sent to a function process is
 propagated downstream

---
 include/stlab/concurrency/channel.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stlab/concurrency/channel.hpp b/include/stlab/concurrency/channel.hpp
index 8caa14d..20e633e 100644
--- a/include/stlab/concurrency/channel.hpp
+++ b/include/stlab/concurrency/channel.hpp
@@ -1106,7 +1106,7 @@ struct shared_process
         if (message) {
             auto error = find_argument_error(*message);
             if (error) {
-                do_close = true;
+                broadcast(std::move(*error));
             } else {
                 try {
                     broadcast(
-- 
2.43.0


From fa906bbec9ae4e5503a98d2bc92dc67e3a7a7559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:25:44 +0000
Subject: [PATCH 12/15] fix: a process is closed only once, and finishes after
 it yielded what is left

---
 include/stlab/concurrency/channel.hpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/include/stlab/concurrency/channel.hpp b/include/stlab/concurrency/channel.hpp
index 20e633e..7cd5510 100644
--- a/include/stlab/concurrency/channel.hpp
+++ b/include/stlab/concurrency/channel.hpp
@@ -859,7 +859,7 @@ struct shared_process
         std::unique_lock<std::mutex> lock(_process_mutex);
         if (_queue.empty()) {
             std::swap(do_close, _process_close_queue);
-            _process_final = do_close; // unravel after any yield
+            _process_final = _process_final || do_close; // unravel after any yield
         } else {
             message = std::move(_queue.front());
             _queue.pop_front();
@@ -893,8 +893,6 @@ struct shared_process
                     do_close = true;
             } else
                 await_variant_args<process_t, Args...>(*_process, *message);
-        } else {
-            do_close = true;
         }
 
         if (do_close) process_close(_process);
-- 
2.43.0


From f4d535f8b6ab049809abba777d9d0aa7c3cef9c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:17 +0000
Subject: [PATCH 13/15] fix: the steps of a channel process never overlap, and
 it finishes what it yields after its close

---
 include/stlab/concurrency/channel.hpp | 72 ++++++++++++++++++++-------
 1 file changed, 54 insertions(+), 18 deletions(-)

diff --git a/include/stlab/concurrency/channel.hpp b/include/stlab/concurrency/channel.hpp
index 7cd5510..2c0be99 100644
--- a/include/stlab/concurrency/channel.hpp
+++ b/include/stlab/concurrency/channel.hpp
@@ -741,6 +741,11 @@ struct shared_process
     std::mutex _process_mutex;
 
     bool _process_running = false;
+    // Steps never overlap. What happens during a step is left to the end of the step: a task to
+    // execute the next step, and the signal to continue.
+    bool _process_stepping = false;
+    bool _process_step_again = false;
+    bool _process_continue = false;
     std::atomic_size_t _process_suspend_count{0};
     bool _process_close_queue = false;
     // REVISIT (sparent) : I'm not certain final needs to be under the mutex
@@ -824,33 +829,60 @@ struct shared_process
         }
     }
 
-    void clear_to_send() override {
-        {
-            std::unique_lock<std::mutex> lock(_process_mutex);
-            if (_process_final) {
+    auto begin_step() -> bool {
+        std::unique_lock<std::mutex> lock(_process_mutex);
+        if (_process_stepping) _process_step_again = true;
+        return !std::exchange(_process_stepping, true);
+    }
+
+    void end_step() {
+        while (true) {
+            bool do_run = false;
+            {
+                std::unique_lock<std::mutex> lock(_process_mutex);
+                if (!std::exchange(_process_continue, false)) {
+                    _process_stepping = false;
+                    do_run = std::exchange(_process_step_again, false);
+                    _process_running = _process_running || do_run;
+                    if (!do_run) return;
+                }
+            }
+            if (do_run) {
+                run();
                 return;
             }
+            continue_process();
         }
+    }
+
+    // The process is not suspended anymore. Only called for the process that is stepping.
+    void continue_process() {
+        if (!_process) return;
 
-        bool do_run = false;
+        bool do_run;
         {
             const auto ps = get_process_state(_process);
             std::unique_lock<std::mutex> lock(_process_mutex);
-            if (_process_suspend_count > 0) --_process_suspend_count; // could be atomic?
-
-            if (!_process_suspend_count) {
-                if (ps.first == process_state::yield || !_queue.empty() || _process_close_queue) {
-                    do_run = true;
-                } else {
-                    _process_running = false;
-                    do_run = false;
-                }
-            }
+            do_run = ps.first == process_state::yield || !_queue.empty() || _process_close_queue ||
+                     _process_final;
+            _process_running = do_run;
         }
         // Somebody told me that his name was Bill
         if (do_run) run();
     }
 
+    void clear_to_send() override {
+        {
+            std::unique_lock<std::mutex> lock(_process_mutex);
+            if (_process_suspend_count > 0) --_process_suspend_count; // could be atomic?
+            if (_process_suspend_count) return;
+
+            _process_continue = true;
+            if (std::exchange(_process_stepping, true)) return; // at the end of the step
+        }
+        end_step();
+    }
+
     auto pop_from_queue() {
         std::optional<typename Q::value_type> message;
         std::array<bool, sizeof...(Args)> do_cts = {{false}};
@@ -941,8 +973,9 @@ struct shared_process
                     execute_at(duration, _executor)(
                         [_weak_this = make_weak_ptr(this->shared_from_this())]() noexcept {
                             auto _this = _weak_this.lock();
-                            if (!_this) return;
+                            if (!_this || !_this->begin_step()) return;
                             _this->try_broadcast();
+                            _this->end_step();
                         });
             }
 
@@ -1025,8 +1058,9 @@ struct shared_process
                     execute_at(duration, _executor)(
                         [_weak_this = make_weak_ptr(this->shared_from_this())]() noexcept {
                             auto _this = _weak_this.lock();
-                            if (!_this) return;
+                            if (!_this || !_this->begin_step()) return;
                             _this->try_broadcast();
+                            _this->end_step();
                         });
             }
 
@@ -1121,7 +1155,9 @@ struct shared_process
     void run() {
         _executor([_p = make_weak_ptr(this->shared_from_this())]() noexcept {
             auto p = _p.lock();
-            if (p) p->template step<T>();
+            if (!p || !p->begin_step()) return;
+            if (p->_process) p->template step<T>();
+            p->end_step();
         });
     }
 
-- 
2.43.0


From a0069fc36c38ef2106c36443e55089d3f442bc26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:17 +0000
Subject: [PATCH 14/15] fix: a channel process does not wait for downstream
 processes that are gone

---
 include/stlab/concurrency/channel.hpp | 61 +++++++++++++++++++++++----
 1 file changed, 52 insertions(+), 9 deletions(-)

diff --git a/include/stlab/concurrency/channel.hpp b/include/stlab/concurrency/channel.hpp
index 2c0be99..cbe2ed8 100644
--- a/include/stlab/concurrency/channel.hpp
+++ b/include/stlab/concurrency/channel.hpp
@@ -667,9 +667,14 @@ struct downstream<R, std::enable_if_t<std::is_copy_constructible_v<R> || std::is
 
     [[nodiscard]] auto size() const -> std::size_t { return _data.size(); }
 
+    // returns the number of processes that are still there to receive the message
     template <typename... Args>
-    void send(std::size_t n, Args... args) {
-        stlab::for_each_n(begin(_data), n, [&](const auto& e) { e(args...); });
+    auto send(std::size_t n, Args... args) -> std::size_t {
+        std::size_t result{0};
+        stlab::for_each_n(begin(_data), n, [&](const auto& e) {
+            if (e.send(args...)) ++result;
+        });
+        return result;
     }
 
     [[nodiscard]] auto minimum_free_buffer() const -> std::size_t {
@@ -698,8 +703,8 @@ struct downstream<R,
     [[nodiscard]] auto size() const -> std::size_t { return 1; }
 
     template <typename... Args>
-    void send(std::size_t, Args&&... args) {
-        if (_data) (*_data)(std::forward<Args>(args)...);
+    auto send(std::size_t, Args&&... args) -> std::size_t {
+        return _data && (*_data).send(std::forward<Args>(args)...) ? 1 : 0;
     }
 
     [[nodiscard]] auto minimum_free_buffer() const -> std::size_t {
@@ -780,6 +785,17 @@ struct shared_process
         _receiver_count = !std::is_same_v<result_t, void>;
     }
 
+    ~shared_process() override { clear_upstream(std::make_index_sequence<sizeof...(Args)>()); }
+
+    // The messages that are left are gone, the upstream processes don't have to wait for them.
+    template <std::size_t... I>
+    void clear_upstream(std::index_sequence<I...>) {
+        ((std::get<I>(_upstream) && _queue.template queue_size<I>() != 0 ?
+              std::get<I>(_upstream)->clear_to_send() :
+              void()),
+         ...);
+    }
+
     void add_receiver() override {
         if (std::is_same_v<result_t, void>) return;
         ++_receiver_count;
@@ -1191,7 +1207,14 @@ struct shared_process
             n elements are good.
         */
 
-        _downstream.send(n, std::forward<A>(args)...);
+        const std::size_t received = _downstream.send(n, std::forward<A>(args)...);
+
+        if (suspend_process && received != n) {
+            // the processes that are gone don't signal
+            std::unique_lock<std::mutex> lock(_process_mutex);
+            _process_suspend_count -=
+                std::min<std::size_t>(_process_suspend_count, n - received);
+        }
 
         clear_to_send(); // unsuspend this process and decrement the _process_suspend_count
                          // immediately by 1
@@ -1602,8 +1625,19 @@ class sender<T, enable_if_copyable<T>> {
 
     friend struct detail::channel_combiner;
 
+    template <typename U, typename V>
+    friend struct detail::downstream;
+
     sender(ptr_t p) : _p(std::move(p)) {}
 
+    // returns false if there is no process to send to
+    template <typename... A>
+    auto send(A&&... args) const -> bool {
+        auto p = _p.lock();
+        if (p) p->send(std::forward<A>(args)...);
+        return static_cast<bool>(p);
+    }
+
 public:
     sender() = default;
 
@@ -1648,8 +1682,7 @@ public:
 
     template <typename... A>
     void operator()(A&&... args) const {
-        auto p = _p.lock();
-        if (p) p->send(std::forward<A>(args)...);
+        (void)send(std::forward<A>(args)...);
     }
 
     [[nodiscard]] auto free_buffer() const -> std::optional<std::size_t> {
@@ -1673,8 +1706,19 @@ class sender<T, enable_if_not_copyable<T>> {
 
     friend struct detail::channel_combiner;
 
+    template <typename U, typename V>
+    friend struct detail::downstream;
+
     sender(ptr_t p) : _p(std::move(p)) {}
 
+    // returns false if there is no process to send to
+    template <typename... A>
+    auto send(A&&... args) const -> bool {
+        auto p = _p.lock();
+        if (p) p->send(std::forward<A>(args)...);
+        return static_cast<bool>(p);
+    }
+
 public:
     sender() = default;
 
@@ -1710,8 +1754,7 @@ public:
 
     template <typename... A>
     void operator()(A&&... args) const {
-        auto p = _p.lock();
-        if (p) p->send(std::forward<A>(args)...);
+        (void)send(std::forward<A>(args)...);
     }
 
     [[nodiscard]] auto free_buffer() const -> std::optional<std::size_t> {
-- 
2.43.0


From 77fcce913515836c126d60a35798a167107aeccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:17 +0000
Subject: [PATCH 15/15] fix: the free buffer of an overfull channel process is
 zero

---
 include/stlab/concurrency/channel.hpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/include/stlab/concurrency/channel.hpp b/include/stlab/concurrency/channel.hpp
index cbe2ed8..acf3241 100644
--- a/include/stlab/concurrency/channel.hpp
+++ b/include/stlab/concurrency/channel.hpp
@@ -630,10 +630,9 @@ struct shared_process_sender_indexed : public shared_process_sender<Arg> {
 
     [[nodiscard]] auto free_buffer() const -> std::size_t override {
         std::unique_lock<std::mutex> lock(_shared_process._process_mutex);
-        return _shared_process._process_buffer_size == 0 ?
-                   std::numeric_limits<std::size_t>::max() :
-                   (_shared_process._process_buffer_size -
-                    _shared_process._queue.template queue_size<I>());
+        const std::size_t limit = _shared_process._process_buffer_size;
+        if (limit == 0) return std::numeric_limits<std::size_t>::max();
+        return limit - std::min(limit, _shared_process._queue.template queue_size<I>());
     }
 };
 
-- 
2.43.0

