From c41081c684a2d1182d0b2bccf82180c6dca00b2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:54 +0000
Subject: [PATCH 01/22] fix: latch awaiters read their coroutine frame after
 publishing the node

---
 include/kelcoro/latch.hpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/include/kelcoro/latch.hpp b/include/kelcoro/latch.hpp
index 8d5e25c..8d5a651 100644
--- a/include/kelcoro/latch.hpp
+++ b/include/kelcoro/latch.hpp
@@ -22,11 +22,13 @@ struct latch {
       return l.ready();
     }
     void await_suspend(std::coroutine_handle<> handle) noexcept {
+      // copy, because after push coroutine may be resumed and destroyed with this awaiter
+      latch& l_ = l;
       node.task = handle;
-      l.stack.push(&node);
+      l_.stack.push(&node);
       // in case if 'ready' changed from 'false' to 'true' wakeup all who call 'wait'
-      if (l.ready())
-        l.wakeup_all();
+      if (l_.ready())
+        l_.wakeup_all();
     }
     static void await_resume() noexcept {
     }
@@ -47,9 +49,12 @@ struct latch {
       return false;
     }
     void await_suspend(std::coroutine_handle<> handle) noexcept {
+      // copy, because after push coroutine may be resumed and destroyed with this awaiter
+      latch& l_ = l;
+      ptrdiff_t n_ = n;
       node.task = handle;
-      l.stack.push(&node);
-      l.count_down(n);
+      l_.stack.push(&node);
+      l_.count_down(n_);
     }
     static void await_resume() noexcept {
     }
-- 
2.43.0


From 09ea4db014d77f220b374c28dd16e42d1e09cf06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:13 +0000
Subject: [PATCH 02/22] fix: when_any over events read its awaiter after the
 first subscription could resume the coroutine

---
 include/kelcoro/events.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/kelcoro/events.hpp b/include/kelcoro/events.hpp
index 5691981..ca52f85 100644
--- a/include/kelcoro/events.hpp
+++ b/include/kelcoro/events.hpp
@@ -205,8 +205,10 @@ KELCORO_CO_AWAIT_REQUIRED constexpr auto when_any(event<Inputs>&... events) {
           };
         }
       };
+      // copy, because after first subscription coroutine may be resumed and destroyed with this awaiter
+      auto events_copy = events_;
       [&]<size_t... Is>(std::index_sequence<Is...>) {
-        (std::get<Is>(events_).set_callback(
+        (std::get<Is>(events_copy).set_callback(
              create_cb_for(std::type_identity<Inputs>{}, std::integral_constant<size_t, Is>{})),
          ...);
       }  // INVOKED HERE
-- 
2.43.0


From e1697168da9696c4485344942d32ebefe814000e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:56 +0000
Subject: [PATCH 03/22] fix: ~thread_pool pushed its deadpill into the next
 queue while it was still in a stopped one

---
 include/kelcoro/thread_pool.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/kelcoro/thread_pool.hpp b/include/kelcoro/thread_pool.hpp
index 859facb..885b4f1 100644
--- a/include/kelcoro/thread_pool.hpp
+++ b/include/kelcoro/thread_pool.hpp
@@ -283,6 +283,9 @@ struct thread_pool {
       if (threads[i].joinable()) {
         queues[i].push(&pill);
         threads[i].join();
+        // if thread was already stopped (request_stop), then pill is still in queue and must not be pushed
+        // into another queue before it leaves this one
+        noexport::cancel_tasks(queues[i].pop_all());
       }
     }
     for (auto& q : queues)
-- 
2.43.0


From ba809ae623a67ce5518e90fee77d2a1b83f21951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:56 +0000
Subject: [PATCH 04/22] fix: this_coro::operation_hash could not be awaited

---
 include/kelcoro/operation_hash.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/kelcoro/operation_hash.hpp b/include/kelcoro/operation_hash.hpp
index e71bc98..6b5b1ec 100644
--- a/include/kelcoro/operation_hash.hpp
+++ b/include/kelcoro/operation_hash.hpp
@@ -11,6 +11,9 @@ namespace dd {
 // from different tasks, its used to improve thread pool performance
 using operation_hash_t = size_t;
 
+template <typename O>
+[[gnu::pure]] constexpr operation_hash_t calculate_operation_hash(const O& operation) noexcept;
+
 namespace noexport {
 
 // copy from one of stdlibcs, because hash for void* on linux gcc/clang really bad
@@ -47,6 +50,10 @@ struct KELCORO_CO_AWAIT_REQUIRED op_hash_t {
   constexpr operation_hash_t await_resume() noexcept {
     return hash;
   }
+  // for awaiting on constant
+  constexpr op_hash_t operator co_await() const noexcept {
+    return *this;
+  }
 };
 
 }  // namespace noexport
-- 
2.43.0


From f28b95142fe2d12aff4491dd46543896cdde0720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:05 +0000
Subject: [PATCH 05/22] fix: fixed_array (thread_pool) forgot its memory
 resource

---
 include/kelcoro/noexport/fixed_array.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/kelcoro/noexport/fixed_array.hpp b/include/kelcoro/noexport/fixed_array.hpp
index 5641054..105d639 100644
--- a/include/kelcoro/noexport/fixed_array.hpp
+++ b/include/kelcoro/noexport/fixed_array.hpp
@@ -27,7 +27,8 @@ struct fixed_array {
     std::swap(resource, rhs.resource);
     return *this;
   }
-  fixed_array(size_t n, std::pmr::memory_resource& resource = *std::pmr::new_delete_resource()) : n(n) {
+  fixed_array(size_t n, std::pmr::memory_resource& resource = *std::pmr::new_delete_resource())
+      : n(n), resource(std::addressof(resource)) {
     if (n == 0)
       return;
     arr = (T*)resource.allocate(sizeof(T) * n, alignof(T));
-- 
2.43.0


From d80958bd4e9c905b0632974b7e789a81d7496896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:55 +0000
Subject: [PATCH 06/22] fix: stack_resource::reuse_memory left the initial
 buffer in use

---
 include/kelcoro/stack_memory_resource.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/kelcoro/stack_memory_resource.hpp b/include/kelcoro/stack_memory_resource.hpp
index 37f23e3..3b4435b 100644
--- a/include/kelcoro/stack_memory_resource.hpp
+++ b/include/kelcoro/stack_memory_resource.hpp
@@ -179,6 +179,7 @@ struct stack_resource {
       m = b;
       drop_cur_chunk();
     }
+    m = b;
   }
 };
 
-- 
2.43.0


From 894a0697572671648e63045e6feb1c0bca70dfb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:55 +0000
Subject: [PATCH 07/22] fix: async_task with a memory resource did not compile

---
 include/kelcoro/async_task.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/kelcoro/async_task.hpp b/include/kelcoro/async_task.hpp
index e5bccae..47ae263 100644
--- a/include/kelcoro/async_task.hpp
+++ b/include/kelcoro/async_task.hpp
@@ -33,8 +33,10 @@ struct async_task_promise : return_block<Result> {
     static bool await_ready() noexcept {
       return false;
     }
-    bool await_suspend(std::coroutine_handle<async_task_promise> handle) const noexcept {
-      auto& p = handle.promise();
+    // P is async_task_promise or resourced_promise of it
+    template <typename P>
+    bool await_suspend(std::coroutine_handle<P> handle) const noexcept {
+      async_task_promise& p = handle.promise();
       p.ready.exchange(true, std::memory_order::acq_rel);
       p.ready.notify_one();
       // continue and destroy if ref count == 0
-- 
2.43.0


From 9b85305e3e4a16e5e1645a11f38d39c6b60880a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:05 +0000
Subject: [PATCH 08/22] fix: polymorphic coroutines ignored
 dd::pmr::set_default_resource

---
 include/kelcoro/memory_support.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/kelcoro/memory_support.hpp b/include/kelcoro/memory_support.hpp
index 7e2de52..9748b7b 100644
--- a/include/kelcoro/memory_support.hpp
+++ b/include/kelcoro/memory_support.hpp
@@ -126,7 +126,7 @@ struct polymorphic_resource {
  public:
   polymorphic_resource() noexcept : passed(std::exchange(passed_resource(), nullptr)) {
     if (!passed)
-      passed = std::pmr::get_default_resource();
+      passed = default_resource().load(std::memory_order_acquire);
     assert(passed != nullptr);
   }
   polymorphic_resource(std::pmr::memory_resource& m) noexcept : passed(&m) {
-- 
2.43.0


From 3f4de21d784242ffebae6109f91e56a38aed0b21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:01 +0000
Subject: [PATCH 09/22] fix: this_coro::stop_token could not be awaited in a
 logical_thread with a memory resource

---
 include/kelcoro/logical_thread.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/kelcoro/logical_thread.hpp b/include/kelcoro/logical_thread.hpp
index 7749945..5f04d0b 100644
--- a/include/kelcoro/logical_thread.hpp
+++ b/include/kelcoro/logical_thread.hpp
@@ -98,8 +98,9 @@ struct logical_thread_promise {
     static bool await_ready() noexcept {
       return false;
     }
-    KELCORO_ASSUME_NOONE_SEES bool await_suspend(
-        std::coroutine_handle<logical_thread_promise> handle) noexcept {
+    // P is logical_thread_promise or resourced_promise of it
+    template <typename P>
+    KELCORO_ASSUME_NOONE_SEES bool await_suspend(std::coroutine_handle<P> handle) noexcept {
       stop_state = &handle.promise().stop_requested_;
       return false;  // never suspend rly
     }
-- 
2.43.0


From efd55fe1676a4c7aa63d5bf70b35a1411031db33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:01 +0000
Subject: [PATCH 10/22] fix: this_coro::handle could not be awaited in a task
 or generator with a memory resource

---
 include/kelcoro/common.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/kelcoro/common.hpp b/include/kelcoro/common.hpp
index db6b327..8676a84 100644
--- a/include/kelcoro/common.hpp
+++ b/include/kelcoro/common.hpp
@@ -202,8 +202,9 @@ struct KELCORO_CO_AWAIT_REQUIRED get_handle_t {
     static constexpr bool await_ready() noexcept {
       return false;
     }
-    KELCORO_ASSUME_NOONE_SEES bool await_suspend(std::coroutine_handle<PromiseType> handle) noexcept {
-      handle_ = handle;
+    // 'handle' may be a handle of resourced_promise<PromiseType>
+    KELCORO_ASSUME_NOONE_SEES bool await_suspend(std::coroutine_handle<> handle) noexcept {
+      handle_ = std::coroutine_handle<PromiseType>::from_address(handle.address());
       return false;
     }
     [[nodiscard]] std::coroutine_handle<PromiseType> await_resume() const noexcept {
-- 
2.43.0


From cfdbf302329723364700634bfd9ddb80e98fdeaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:04 +0000
Subject: [PATCH 11/22] fix: the operation hash of a channel did not compile
 (private member)

---
 include/kelcoro/channel.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/kelcoro/channel.hpp b/include/kelcoro/channel.hpp
index 0dcb699..80deb60 100644
--- a/include/kelcoro/channel.hpp
+++ b/include/kelcoro/channel.hpp
@@ -18,6 +18,7 @@ struct channel_promise : not_movable {
   friend channel_iterator<Yield>;
   friend noexport::attach_leaf<channel<Yield>>;
   friend noexport::hold_value_until_resume<Yield>;
+  friend operation_hash<handle_type>;
 
   // invariant: root != nullptr
   channel_promise* root = this;
-- 
2.43.0


From 3b9af395ef62be87052f97877791f70e2336619e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:08 +0000
Subject: [PATCH 12/22] fix: expected::error returns the error, not a pointer
 to it

---
 include/kelcoro/noexport/expected.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/kelcoro/noexport/expected.hpp b/include/kelcoro/noexport/expected.hpp
index dd4410d..b972d9f 100644
--- a/include/kelcoro/noexport/expected.hpp
+++ b/include/kelcoro/noexport/expected.hpp
@@ -56,12 +56,12 @@ struct expected {
   // precondition: !has_value()
   E& error() noexcept {
     assert(!has_value());
-    return std::get_if<1>(&data);
+    return *std::get_if<1>(&data);
   }
   // precondition: !has_value()
   const E& error() const noexcept {
     assert(!has_value());
-    return std::get_if<1>(&data);
+    return *std::get_if<1>(&data);
   }
 };
 
-- 
2.43.0


From a21f2e6c844d0cd027a97c017654be5966f2a3f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:08 +0000
Subject: [PATCH 13/22] fix: iterating an empty generator<nothing_t> does not
 dereference a null handle

---
 include/kelcoro/generator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/kelcoro/generator.hpp b/include/kelcoro/generator.hpp
index 4ae3185..3a31069 100644
--- a/include/kelcoro/generator.hpp
+++ b/include/kelcoro/generator.hpp
@@ -177,7 +177,7 @@ struct generator_iterator {
     if constexpr (!std::is_same_v<nothing_t, Yield>) {
       return self->current_result == nullptr;
     } else {
-      return self->top.done();
+      return self->empty();
     }
   }
   constexpr reference operator*() const noexcept {
-- 
2.43.0


From 4a9e5eced7525000d64c65a4de1d81beacd8e94c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:08 +0000
Subject: [PATCH 14/22] fix: generator::reset makes itself the consumer of the
 new coroutine

---
 include/kelcoro/generator.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/kelcoro/generator.hpp b/include/kelcoro/generator.hpp
index 3a31069..87b6f14 100644
--- a/include/kelcoro/generator.hpp
+++ b/include/kelcoro/generator.hpp
@@ -304,6 +304,8 @@ struct generator : enable_resource_deduction {
   constexpr void reset(handle_type handle) noexcept {
     clear();
     top = handle;
+    if (top)
+      prepare_to_start();
   }
 
   // postcondition: .empty()
-- 
2.43.0


From 6fd7722dd6f66526caa050003c425b79fad9a1d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:08 +0000
Subject: [PATCH 15/22] fix: a cleared or released generator forgets its
 current value, so begin() == end()

---
 include/kelcoro/generator.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/kelcoro/generator.hpp b/include/kelcoro/generator.hpp
index 87b6f14..e603041 100644
--- a/include/kelcoro/generator.hpp
+++ b/include/kelcoro/generator.hpp
@@ -311,6 +311,7 @@ struct generator : enable_resource_deduction {
   // postcondition: .empty()
   // its caller responsibility to correctly destroy handle
   [[nodiscard]] constexpr handle_type release() noexcept {
+    current_result = nullptr;
     return std::exchange(top, nullptr);
   }
   [[nodiscard]] constexpr handle_type raw_handle() const noexcept {
@@ -323,6 +324,7 @@ struct generator : enable_resource_deduction {
       top.destroy();
       top = nullptr;
     }
+    current_result = nullptr;
   }
   constexpr ~generator() {
     clear();
-- 
2.43.0


From 0866991cd3ce9c914bcff941d5aac931a1c53090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:17 +0000
Subject: [PATCH 16/22] fix: channel_iterator::owner did not compile and
 equivalent compared the iterators' own addresses

---
 include/kelcoro/channel.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/kelcoro/channel.hpp b/include/kelcoro/channel.hpp
index 80deb60..4bb63b1 100644
--- a/include/kelcoro/channel.hpp
+++ b/include/kelcoro/channel.hpp
@@ -156,10 +156,10 @@ struct channel_iterator {
 
   // return true if they are attached to same 'channel' object
   constexpr bool equivalent(const channel_iterator& other) const noexcept {
-    return std::addressof(chan) == std::addressof(other.chan);
+    return chan == other.chan;
   }
   channel<Yield>& owner() const noexcept {
-    return chan;
+    return *chan;
   }
 
   constexpr bool operator==(std::default_sentinel_t) const noexcept {
-- 
2.43.0


From b21d768926cff158d4f6cd0fa9dd6f40d1260dc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:35 +0000
Subject: [PATCH 17/22] fix: swapped channels write their values and resume
 consumers of the object which is iterated

---
 include/kelcoro/channel.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/kelcoro/channel.hpp b/include/kelcoro/channel.hpp
index 4bb63b1..889cd2e 100644
--- a/include/kelcoro/channel.hpp
+++ b/include/kelcoro/channel.hpp
@@ -236,9 +236,13 @@ struct channel : enable_resource_deduction {
   // iterators to 'other' and 'this' are swapped too
   void swap(channel& other) noexcept {
     std::swap(current_result, other.current_result);
-    std::swap(handle, other.handle);
     std::swap(top, other.top);
     std::swap(exception, other.exception);
+    // 'handle' is not swapped, it is a coroutine which uses iterators to this object
+    if (top)
+      top.promise()._consumer = this;
+    if (other.top)
+      other.top.promise()._consumer = std::addressof(other);
   }
   friend void swap(channel& a, channel& b) noexcept {
     a.swap(b);
@@ -247,6 +251,8 @@ struct channel : enable_resource_deduction {
   constexpr void reset(handle_type handle) noexcept {
     clear();
     top = handle;
+    if (top)
+      top.promise()._consumer = this;
   }
   // postcondition: .empty()
   // after this method its caller responsibility to correctly destroy 'handle'
-- 
2.43.0


From d4ea4a98d19c235008f8f33e3d2ea794f2f5b14b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:35 +0000
Subject: [PATCH 18/22] fix: a cleared or released channel forgets its current
 value and exception

---
 include/kelcoro/channel.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/kelcoro/channel.hpp b/include/kelcoro/channel.hpp
index 889cd2e..409822a 100644
--- a/include/kelcoro/channel.hpp
+++ b/include/kelcoro/channel.hpp
@@ -257,6 +257,7 @@ struct channel : enable_resource_deduction {
   // postcondition: .empty()
   // after this method its caller responsibility to correctly destroy 'handle'
   [[nodiscard]] constexpr handle_type release() noexcept {
+    current_result = nullptr;
     return std::exchange(top, nullptr);
   }
   [[nodiscard]] constexpr handle_type raw_handle() const noexcept {
@@ -269,6 +270,8 @@ struct channel : enable_resource_deduction {
       top.destroy();
       top = nullptr;
     }
+    current_result = nullptr;
+    exception = nullptr;
   }
   ~channel() {
     clear();
-- 
2.43.0


From 18f4c0709275ab94ac3e190ed748505a914ac5c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:57 +0000
Subject: [PATCH 19/22] fix: event::notify_all keeps subscribers waiting when
 copying the input throws

---
 include/kelcoro/events.hpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/include/kelcoro/events.hpp b/include/kelcoro/events.hpp
index ca52f85..efdbdbc 100644
--- a/include/kelcoro/events.hpp
+++ b/include/kelcoro/events.hpp
@@ -83,9 +83,16 @@ struct event {
     task_node* top = subscribers.try_pop_all();
     if (!top)
       return false;
-    // TODO not ignore exception from attach/copy construct
+    // TODO not ignore exception from attach
+    try {
+      for (task_node* node = top; node; node = node->next)
+        static_cast<subscribe*>(node)->input = input;
+    } catch (...) {
+      // no one is resumed yet, all return to waiting
+      subscribers.push_stack(top);
+      throw;
+    }
     while (top) {
-      static_cast<subscribe*>(top)->input = input;
       task_node* next = top->next;
       exe.attach(top);
       top = next;
-- 
2.43.0


From d21cab1f5872fdd248920668b43fb6da7f6773b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:44 +0000
Subject: [PATCH 20/22] fix: a coroutine does not move the resource out of its
 with_resource argument

---
 include/kelcoro/memory_support.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/kelcoro/memory_support.hpp b/include/kelcoro/memory_support.hpp
index 9748b7b..3799dd4 100644
--- a/include/kelcoro/memory_support.hpp
+++ b/include/kelcoro/memory_support.hpp
@@ -214,7 +214,11 @@ struct overload_new_delete {
     else {
       frame_sz += noexport::padding_len<alignof(R)>(frame_sz);
       std::byte* p = (std::byte*)r.allocate(frame_sz + sizeof(R));
-      new (p + frame_sz) R(std::move(r));
+      // 'r' may be in an argument, which caller or coroutine itself will use again
+      if constexpr (std::is_nothrow_copy_constructible_v<R>)
+        new (p + frame_sz) R(std::as_const(r));
+      else
+        new (p + frame_sz) R(std::move(r));
       return p;
     }
   }
-- 
2.43.0


From 47a416b046dc6086c03cc79138ebca39fdfac36c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:16 +0000
Subject: [PATCH 21/22] fix: copying of not const expected tried to build its
 value from the expected itself

---
 include/kelcoro/noexport/expected.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/kelcoro/noexport/expected.hpp b/include/kelcoro/noexport/expected.hpp
index b972d9f..1eee986 100644
--- a/include/kelcoro/noexport/expected.hpp
+++ b/include/kelcoro/noexport/expected.hpp
@@ -28,7 +28,9 @@ struct expected {
 
   expected() = default;
 
+  // must not be chosen for copying of not const expected
   template <typename U = T>
+    requires(!std::is_same_v<std::remove_cvref_t<U>, expected>)
   expected(U&& arg) : data(std::forward<U>(arg)) {
   }
   template <typename U>
-- 
2.43.0


From c7065918fd7f25235b5fd31adae32471bb7999f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:04:34 +0000
Subject: [PATCH 22/22] fix: destroy_and_transfer_control_to read its target
 from the destroyed frame when inlined (clang, optimised)

---
 include/kelcoro/common.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/kelcoro/common.hpp b/include/kelcoro/common.hpp
index 8676a84..619a74f 100644
--- a/include/kelcoro/common.hpp
+++ b/include/kelcoro/common.hpp
@@ -260,7 +260,8 @@ struct [[nodiscard("co_await it!")]] destroy_and_transfer_control_to {
   static bool await_ready() noexcept {
     return false;
   }
-  KELCORO_ASSUME_NOONE_SEES std::coroutine_handle<> await_suspend(std::coroutine_handle<> self) noexcept {
+  // must not be KELCORO_ASSUME_NOONE_SEES: when inlined, 'w' may end up in the frame which is destroyed here
+  std::coroutine_handle<> await_suspend(std::coroutine_handle<> self) noexcept {
     // move it to stack memory to save from destruction
     auto w = who_waits;
     self.destroy();
-- 
2.43.0

