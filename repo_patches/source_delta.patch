From 7c78237e3716878ec1a2e84447d7664f4e303c35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:47 +0000
Subject: [PATCH 01/73] fix: worker thread executor enqueues a local task once

A task submitted from the worker itself was put on the private queue and
then an empty one on the public queue; a shutdown in between made the
submission throw although the task still ran.
---
 framework/core/src/concurrency/executor/worker_thread.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/framework/core/src/concurrency/executor/worker_thread.cc b/framework/core/src/concurrency/executor/worker_thread.cc
index 00f968e..ab418f5 100644
--- a/framework/core/src/concurrency/executor/worker_thread.cc
+++ b/framework/core/src/concurrency/executor/worker_thread.cc
@@ -137,14 +137,14 @@ void WorkerThread::enqueue_foreign(std::span<Task> tasks) {
 
 void WorkerThread::enqueue(Task task) {
   if (detail::s_tl_this_worker == this)
-    enqueue_local(task);
+    return enqueue_local(task);
 
   enqueue_foreign(task);
 }
 
 void WorkerThread::enqueue(std::span<Task> tasks) {
   if (detail::s_tl_this_worker == this)
-    enqueue_local(tasks);
+    return enqueue_local(tasks);
 
   enqueue_foreign(tasks);
 }
-- 
2.43.0


From 2f468ff99db04e8c242e47218046bb3f9ac53b1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:47 +0000
Subject: [PATCH 02/73] fix: thread pool worker keeps running if a task arrives
 as it times out

The enqueuer saw a live worker and did not start a thread while the worker
had already decided to go idle: the task was stranded until the next one.
---
 framework/core/src/concurrency/executor/thread_pool.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/framework/core/src/concurrency/executor/thread_pool.cc b/framework/core/src/concurrency/executor/thread_pool.cc
index 5f5fc1b..dea82f9 100644
--- a/framework/core/src/concurrency/executor/thread_pool.cc
+++ b/framework/core/src/concurrency/executor/thread_pool.cc
@@ -291,7 +291,8 @@ bool ThreadPoolWorker::wait_for_task(std::unique_lock<std::mutex> &lock) {
 
   if (!lock.owns_lock())
     lock.lock();
-  if (!event_found || abort_) {
+  // A task may have been queued after the last wait timed out.
+  if ((!event_found && public_queue_.empty()) || abort_) {
     idle_ = true;
     lock.unlock();
     return false;
-- 
2.43.0


From af520ebb33a26f73f5979806f744e77904290e04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:47 +0000
Subject: [PATCH 03/73] fix: tasks posted from one thread pool to another run
 on the other

The per-thread worker was used without looking at the pool it belongs to,
so the task ran on (and was refused after the shutdown of) the wrong pool.
---
 .../plain/concurrency/executor/thread_pool.h  |  2 ++
 .../src/concurrency/executor/thread_pool.cc   | 20 +++++++++++++++----
 2 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/framework/core/include/plain/concurrency/executor/thread_pool.h b/framework/core/include/plain/concurrency/executor/thread_pool.h
index 762682a..480f3b1 100644
--- a/framework/core/include/plain/concurrency/executor/thread_pool.h
+++ b/framework/core/include/plain/concurrency/executor/thread_pool.h
@@ -92,6 +92,8 @@ ThreadPool final : public Derivable<ThreadPool> {
   void find_idle_workers(
     size_t caller_index, std::vector<size_t> &buffer, size_t max_count) noexcept;
   detail::ThreadPoolWorker &worker_at(size_t index) noexcept;
+  // The worker of this pool the calling thread is, or null.
+  detail::ThreadPoolWorker *current_worker() const noexcept;
 
 };
 
diff --git a/framework/core/src/concurrency/executor/thread_pool.cc b/framework/core/src/concurrency/executor/thread_pool.cc
index dea82f9..156f9f0 100644
--- a/framework/core/src/concurrency/executor/thread_pool.cc
+++ b/framework/core/src/concurrency/executor/thread_pool.cc
@@ -60,6 +60,10 @@ class alignas(kCacheInlineAlignment) ThreadPoolWorker {
 
   bool appears_empty() const noexcept;
 
+  bool belongs_to(const ThreadPool &pool) const noexcept {
+    return &parent_pool_ == &pool;
+  }
+
  private:
   std::deque<Task> private_queue_;
   std::vector<size_t> idle_worker_list_;
@@ -532,9 +536,17 @@ void ThreadPool::mark_worker_active(size_t index) noexcept {
   idle_workers_.set_active(index);
 }
 
-void ThreadPool::enqueue(Task task) {
+ThreadPoolWorker *ThreadPool::current_worker() const noexcept {
   const auto this_worker = detail::s_tl_thread_pool_data.this_worker;
-  const auto this_worker_index = detail::s_tl_thread_pool_data.this_thread_index;
+  if (this_worker == nullptr || !this_worker->belongs_to(*this))
+    return nullptr;
+  return this_worker;
+}
+
+void ThreadPool::enqueue(Task task) {
+  const auto this_worker = current_worker();
+  const auto this_worker_index = this_worker != nullptr ?
+    detail::s_tl_thread_pool_data.this_thread_index : static_cast<size_t>(-1);
   if (this_worker != nullptr && this_worker->appears_empty()) {
     return this_worker->enqueue_local(task);
   }
@@ -551,8 +563,8 @@ void ThreadPool::enqueue(Task task) {
 }
 
 void ThreadPool::enqueue(std::span<Task> tasks) {
-  if (detail::s_tl_thread_pool_data.this_worker != nullptr) {
-    return detail::s_tl_thread_pool_data.this_worker->enqueue_local(tasks);
+  if (const auto this_worker = current_worker(); this_worker != nullptr) {
+    return this_worker->enqueue_local(tasks);
   }
   if (tasks.size() < workers_.size()) {
     for (auto &task : tasks) {
-- 
2.43.0


From cf5ae3d5d4744ca06c21eef96ed72a6376c816ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:45 +0000
Subject: [PATCH 04/73] fix: manual executor's timed wait for a task succeeds
 with several queued

wait_for_task_for and wait_for_task_until reported failure when more than
one task was waiting.
---
 framework/core/include/plain/concurrency/executor/manual.h | 2 +-
 framework/core/src/concurrency/executor/manual.cc          | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/framework/core/include/plain/concurrency/executor/manual.h b/framework/core/include/plain/concurrency/executor/manual.h
index 8e4ecbf..06af73e 100644
--- a/framework/core/include/plain/concurrency/executor/manual.h
+++ b/framework/core/include/plain/concurrency/executor/manual.h
@@ -65,7 +65,7 @@ Manual final : public Derivable<Manual> {
   template <typename Clock, typename Duration = typename Clock::duration>
   bool wait_for_task_until(
     std::chrono::time_point<Clock, Duration> timeout_time) {
-    return wait_for_tasks_impl(1, to_system_time_point(timeout_time)) == 1;
+    return wait_for_tasks_impl(1, to_system_time_point(timeout_time)) >= 1;
   }
 
   void wait_for_tasks(size_t count);
diff --git a/framework/core/src/concurrency/executor/manual.cc b/framework/core/src/concurrency/executor/manual.cc
index e050c04..377e914 100644
--- a/framework/core/src/concurrency/executor/manual.cc
+++ b/framework/core/src/concurrency/executor/manual.cc
@@ -97,7 +97,7 @@ void Manual::wait_for_task() {
 }
 
 bool Manual::wait_for_task_for(std::chrono::milliseconds max_waiting_time) {
-  return wait_for_tasks_impl(1, time_point_from_now(max_waiting_time)) == 1;
+  return wait_for_tasks_impl(1, time_point_from_now(max_waiting_time)) >= 1;
 }
 
 void Manual::wait_for_tasks(size_t count) {
-- 
2.43.0


From 8a03a831dbf9802bfa98703fbed32a053f223b0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:29:45 +0000
Subject: [PATCH 05/73] fix: when_any notices a result that completes while it
 is registered

The status read before the failed registration was returned, so the caller
suspended for a result that had already been produced and never resumed.
---
 framework/core/src/concurrency/result/detail/state.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/framework/core/src/concurrency/result/detail/state.cc b/framework/core/src/concurrency/result/detail/state.cc
index 3b4c5e2..ccdf904 100644
--- a/framework/core/src/concurrency/result/detail/state.cc
+++ b/framework/core/src/concurrency/result/detail/state.cc
@@ -91,7 +91,10 @@ ProcessStatus StateBasic::when_any(
     ProcessStatus::ConsumerSet,
     std::memory_order_acq_rel,
     std::memory_order_acquire);
-  if (!idle) assert_done();
+  if (!idle) {
+    assert_done();
+    return ProcessStatus::ProducerDone;
+  }
   return status;
 }
 
-- 
2.43.0


From 7d7196f7abae0e4bbae5f3af58948a5b86cfa1ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:39 +0000
Subject: [PATCH 06/73] fix: keep a result alive while its producer reads the
 consumer context

A consumer that learns of the completion elsewhere (the other branch of a
when_any, or the last owner of a shared result going away) could free the
state between the producer's exchange and its use of the context.
---
 .../plain/concurrency/result/detail/state.h    | 10 ++++++++++
 .../result/detail/consumer_context.cc          |  3 +++
 .../src/concurrency/result/detail/state.cc     | 18 +++++++++++++++++-
 3 files changed, 30 insertions(+), 1 deletion(-)

diff --git a/framework/core/include/plain/concurrency/result/detail/state.h b/framework/core/include/plain/concurrency/result/detail/state.h
index 638c7ae..11da0e7 100644
--- a/framework/core/include/plain/concurrency/result/detail/state.h
+++ b/framework/core/include/plain/concurrency/result/detail/state.h
@@ -35,13 +35,21 @@ class PLAIN_API StateBasic {
 
   void try_rewind_consumer() noexcept;
 
+  // The producer has taken what it needs from the consumer context.
+  void consumer_taken() noexcept {
+    consumer_taken_.store(true, std::memory_order_release);
+  }
+
  protected:
   std::atomic<ProcessStatus> process_status_{ProcessStatus::Idle};
   ConsumerContext consumer_;
+  bool consumer_set_{false}; // Only used by the consumer.
+  std::atomic_bool consumer_taken_{false};
   coroutine_handle<void> done_handle_;
 
  protected:
   void assert_done() const noexcept;
+  void wait_consumer_taken() const noexcept;
 
 };
 
@@ -138,6 +146,7 @@ class State : public StateBasic {
       ProcessStatus::ConsumerDone, std::memory_order_acq_rel);
     assert(status != ProcessStatus::ConsumerSet);
     if (status == ProcessStatus::ProducerDone) {
+      wait_consumer_taken();
       return delete_self(this);
     }
     assert(status == ProcessStatus::Idle);
@@ -145,6 +154,7 @@ class State : public StateBasic {
 
   void complete_joined_consumer() noexcept {
     assert_done();
+    wait_consumer_taken();
     delete_self(this);
   }
 
diff --git a/framework/core/src/concurrency/result/detail/consumer_context.cc b/framework/core/src/concurrency/result/detail/consumer_context.cc
index 7942b71..59ff822 100644
--- a/framework/core/src/concurrency/result/detail/consumer_context.cc
+++ b/framework/core/src/concurrency/result/detail/consumer_context.cc
@@ -175,15 +175,18 @@ void ConsumerContext::resume_consumer(StateBasic &self) const {
       auto caller_handle = storage_.caller_handle;
       assert(static_cast<bool>(caller_handle));
       assert(!caller_handle.done());
+      self.consumer_taken();
       return caller_handle();
     }
     case ConsumerStatus::WhenAny: {
       const auto when_any_ctx = storage_.when_any_ctx;
+      self.consumer_taken();
       return when_any_ctx->try_resume(self);
     }
     case ConsumerStatus::Shared: {
       const auto weak_shared_ctx = storage_.shared_ctx;
       const auto shared_ctx = weak_shared_ctx.lock();
+      self.consumer_taken();
       if (static_cast<bool>(shared_ctx)) {
         shared_ctx->on_finished();
       }
diff --git a/framework/core/src/concurrency/result/detail/state.cc b/framework/core/src/concurrency/result/detail/state.cc
index ccdf904..dd2e04c 100644
--- a/framework/core/src/concurrency/result/detail/state.cc
+++ b/framework/core/src/concurrency/result/detail/state.cc
@@ -1,4 +1,5 @@
 #include "plain/concurrency/result/detail/state.h"
+#include <thread>
 #include "plain/sys/atomic_wait.h"
 #include "plain/concurrency/result/detail/shared_state.h"
 
@@ -10,6 +11,12 @@ void StateBasic::assert_done() const noexcept {
     == ProcessStatus::ProducerDone);
 }
 
+void StateBasic::wait_consumer_taken() const noexcept {
+  if (!consumer_set_) return;
+  while (!consumer_taken_.load(std::memory_order_acquire))
+    std::this_thread::yield();
+}
+
 void StateBasic::wait() noexcept {
   const auto status = process_status_.load(std::memory_order_acquire);
   if (status == ProcessStatus::ProducerDone) return;
@@ -69,6 +76,7 @@ bool StateBasic::await(coroutine_handle<void> caller_handle) noexcept {
   if (status == ProcessStatus::ProducerDone) return false;
 
   consumer_.set_await_handle(caller_handle);
+  consumer_set_ = true;
   
   auto expected_status = ProcessStatus::Idle;
    const auto idle = process_status_.compare_exchange_strong(
@@ -76,7 +84,10 @@ bool StateBasic::await(coroutine_handle<void> caller_handle) noexcept {
     ProcessStatus::ConsumerSet,
     std::memory_order_acq_rel,
     std::memory_order_acquire);
-  if (!idle) assert_done();
+  if (!idle) {
+    consumer_set_ = false;
+    assert_done();
+  }
   return idle;
 }
 
@@ -85,6 +96,7 @@ ProcessStatus StateBasic::when_any(
   const auto status = process_status_.load(std::memory_order_acquire);
   if (status == ProcessStatus::ProducerDone) return status;
   consumer_.set_when_any_context(when_any_state);
+  consumer_set_ = true;
   auto expected_status = ProcessStatus::Idle;
   const auto idle = process_status_.compare_exchange_strong(
     expected_status,
@@ -92,6 +104,7 @@ ProcessStatus StateBasic::when_any(
     std::memory_order_acq_rel,
     std::memory_order_acquire);
   if (!idle) {
+    consumer_set_ = false;
     assert_done();
     return ProcessStatus::ProducerDone;
   }
@@ -105,6 +118,7 @@ void StateBasic::share(
     return shared_result_state->on_finished();
 
   consumer_.set_shared_context(shared_result_state);
+  consumer_set_ = true;
   
   auto expected_status = ProcessStatus::Idle;
   const auto idle = process_status_.compare_exchange_strong(
@@ -113,6 +127,7 @@ void StateBasic::share(
     std::memory_order_acq_rel,
     std::memory_order_acquire);
   if (idle) return;
+  consumer_set_ = false;
   assert_done();
   shared_result_state->on_finished();
 }
@@ -131,4 +146,5 @@ void StateBasic::try_rewind_consumer() noexcept {
     return;
   }
   consumer_.clear();
+  consumer_set_ = false;
 }
-- 
2.43.0


From 049258f17e0a101c5d6c6541decccf28e4a4030b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:47:18 +0000
Subject: [PATCH 07/73] fix: a pool worker that leaves during shutdown is not
 started again with old tasks

A worker that saw the abort flag, or that failed to hand work to a worker
already shut down, left with tasks in its private queue while enqueuers could
still start it again (assertion failure, process abort).
---
 .../core/src/concurrency/executor/thread_pool.cc      | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/framework/core/src/concurrency/executor/thread_pool.cc b/framework/core/src/concurrency/executor/thread_pool.cc
index 156f9f0..8adbd23 100644
--- a/framework/core/src/concurrency/executor/thread_pool.cc
+++ b/framework/core/src/concurrency/executor/thread_pool.cc
@@ -360,6 +360,13 @@ void ThreadPoolWorker::work_loop() {
         return;
     }
   } catch (const std::runtime_error &) {
+    // Another worker is shut down already.  This one can still be started
+    // again until it is shut down as well, so leave nothing behind.
+    idle_worker_list_.clear();
+    while (!private_queue_.empty()) {
+      decltype(private_queue_) discarded;
+      std::swap(discarded, private_queue_);
+    }
     std::unique_lock<decltype(lock_)> lock{lock_};
     idle_ = true;
   }
@@ -462,10 +469,12 @@ void ThreadPoolWorker::enqueue_local(std::span<Task> tasks) {
 
 void ThreadPoolWorker::shutdown() {
   assert(!atomic_abort_.load(std::memory_order_relaxed));
-  atomic_abort_.store(true, std::memory_order_relaxed);
 
   {
+    // Both at once: a worker that leaves because of atomic_abort_ must not be
+    // started again by an enqueuer that does not see abort_ yet.
     std::unique_lock<decltype(lock_)> lock{lock_};
+    atomic_abort_.store(true, std::memory_order_relaxed);
     abort_ = true;
   }
 
-- 
2.43.0


From b6a32fcb7dd515d2f315ae158ddddf8122f1228b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:11:33 +0000
Subject: [PATCH 08/73] fix: a timer whose executor is shut down as it fires
 does not end the process

---
 framework/core/src/engine/timer.cc | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/framework/core/src/engine/timer.cc b/framework/core/src/engine/timer.cc
index 7f12a7b..be22249 100644
--- a/framework/core/src/engine/timer.cc
+++ b/framework/core/src/engine/timer.cc
@@ -21,12 +21,16 @@ void TimerStateBasic::fire() {
   deadline_ = make_deadline(milliseconds(frequency));
 
   assert(static_cast<bool>(executor_));
-  // FIXME: share the executor maybe get shutdown before post.
   if (executor_->shutdown_requested()) return;
 
-  executor_->post([self = shared_from_this()]() mutable {
-    self->execute();
-  });
+  try {
+    executor_->post([self = shared_from_this()]() mutable {
+      self->execute();
+    });
+  } catch (const std::runtime_error &) {
+    // The executor was shut down in the meantime.
+    if (!executor_->shutdown_requested()) throw;
+  }
 }
 
 Timer::Timer(std::shared_ptr<TimerStateBasic> timer_impl) noexcept :
-- 
2.43.0


From 2e929eba5fb0c6022b288b346f50f2260e38234d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:11:33 +0000
Subject: [PATCH 09/73] fix: timer queue shutdown drops pending requests
 outside its lock

Dropping a pending delay resumes its coroutine, which could not use the queue
(deadlock) while the lock was held.
---
 framework/core/src/engine/timer_queue.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/framework/core/src/engine/timer_queue.cc b/framework/core/src/engine/timer_queue.cc
index 698a958..ebe8161 100644
--- a/framework/core/src/engine/timer_queue.cc
+++ b/framework/core/src/engine/timer_queue.cc
@@ -304,6 +304,7 @@ void TimerQueue::shutdown() {
   impl_->abort = true;
   if (!impl_->worker.joinable())
     return;
+  const auto request_queue = std::move(impl_->request_queue);
   impl_->request_queue.clear();
   lock.unlock();
 
-- 
2.43.0


From add9250a03739ab781a152a163fc1dff6c172f71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:31:55 +0000
Subject: [PATCH 10/73] fix: a growing ring buffer keeps its elements in order

---
 framework/core/include/plain/basic/ring.h | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/framework/core/include/plain/basic/ring.h b/framework/core/include/plain/basic/ring.h
index e7d3bee..f51f6c3 100644
--- a/framework/core/include/plain/basic/ring.h
+++ b/framework/core/include/plain/basic/ring.h
@@ -241,6 +241,11 @@ using cookie_func_t = std::function<void()>;
     size_.store(size, std::memory_order_relaxed);
     mask_.store(size - 1, std::memory_order_relaxed);
   }
+  void copy_to(T *buffer, std::size_t size) const {
+    auto head = head_.load(std::memory_order_relaxed);
+    for (auto i = tail_.load(std::memory_order_relaxed); i != head; ++i)
+      buffer[i & (size - 1)] = buffer_[i & mask_];
+  }
 
  private:
   virtual bool resize(size_t) { return false; }
@@ -304,10 +309,12 @@ class DynamicRing : public Ring<T, fake_tso> {
   bool resize(std::size_t size) override {
     std::unique_lock<decltype(mutex_)> auto_lock{mutex_};
     if (size == 0) {
-      buffer_.clear();
+      this->consumer_clear();
       size = SIZE;
     }
-    buffer_.resize(size);
+    std::vector<T> buffer(size);
+    this->copy_to(buffer.data(), size); // Where the elements are in the new one.
+    buffer_.swap(buffer);
     this->set_buffer(buffer_.data(), size);
     return true;
   }
-- 
2.43.0


From 4b98754e78c9933f86784bc9b6ae7071a4e26cec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:31:55 +0000
Subject: [PATCH 11/73] fix: reading a ring buffer empty does not take back
 what is being written

---
 framework/core/include/plain/basic/ring.h | 18 ++++--------------
 1 file changed, 4 insertions(+), 14 deletions(-)

diff --git a/framework/core/include/plain/basic/ring.h b/framework/core/include/plain/basic/ring.h
index f51f6c3..5c8589e 100644
--- a/framework/core/include/plain/basic/ring.h
+++ b/framework/core/include/plain/basic/ring.h
@@ -93,12 +93,8 @@ using cookie_func_t = std::function<void()>;
     count = (count > avail) ? avail : count;
 
 		std::atomic_signal_fence(std::memory_order_release);
-    if (count == avail) {
-      tail_.store(0, index_release_barrier);
-      head_.store(0, index_release_barrier);
-    } else {
-      tail_.store(tmp_tail + count, index_release_barrier);
-    }
+    // The head belongs to the producer.
+    tail_.store(tmp_tail + count, index_release_barrier);
     return count;
 	}
 
@@ -155,14 +151,8 @@ using cookie_func_t = std::function<void()>;
 
 		std::atomic_signal_fence(std::memory_order_release);
     // read only not set the tail_.
-    if (!read_only) {
-      if (to_read == available) {
-        head_.store(0, index_release_barrier);
-        tail_.store(0, index_release_barrier);
-      } else {
-        tail_.store(tmp_tail, index_release_barrier);
-      }
-    }
+    if (!read_only)
+      tail_.store(tmp_tail, index_release_barrier);
 		return to_read;
   }
 
-- 
2.43.0


From 2a4bc90b833ace48b41d9f8ab74ed26c9d334041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:42:34 +0000
Subject: [PATCH 12/73] fix: clearing a mark of a packet clears that mark

Every clear cleared the readable mark instead, so a packet stayed
writeable, or a request, for ever.
---
 framework/core/src/net/packet/basic.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/framework/core/src/net/packet/basic.cc b/framework/core/src/net/packet/basic.cc
index 832c1a5..04f77bd 100644
--- a/framework/core/src/net/packet/basic.cc
+++ b/framework/core/src/net/packet/basic.cc
@@ -27,7 +27,7 @@ void Basic::Impl::set_flag(bool _flag, uint32_t type) noexcept {
   if (_flag)
     flag |= (1 << type);
   else
-    flag &= ~(1 << kReadableFlag);
+    flag &= ~(1 << type);
 }
 
 size_t Basic::write(std::string_view str) {
-- 
2.43.0


From 758094e31cb0a8579500a79dd93bfc42793549d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:42:34 +0000
Subject: [PATCH 13/73] fix: an empty string written to a packet can be read
 back

Nothing was written for it, not even its length, so the next value was
taken for the string.
---
 framework/core/src/net/packet/basic.cc | 1 -
 1 file changed, 1 deletion(-)

diff --git a/framework/core/src/net/packet/basic.cc b/framework/core/src/net/packet/basic.cc
index 04f77bd..517b909 100644
--- a/framework/core/src/net/packet/basic.cc
+++ b/framework/core/src/net/packet/basic.cc
@@ -32,7 +32,6 @@ void Basic::Impl::set_flag(bool _flag, uint32_t type) noexcept {
 
 size_t Basic::write(std::string_view str) {
   if (!impl_->have_flag(kWriteableFlag)) return 0;
-  if (str.size() == 0) return 0;
   const auto *buffer = reinterpret_cast<const std::byte *>(str.data());
   auto size = str.size();
   *this << static_cast<uint32_t>(size);
-- 
2.43.0


From 9b1404ce1a164f83046fed6725a037fb47c7a2c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:42:34 +0000
Subject: [PATCH 14/73] fix: line decoding looks at no more than the length
 limit

It looked at the capacity of its buffer, which can be larger: lines over
a short limit were accepted, or waited for for ever.
---
 framework/core/src/net/stream/codec.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/framework/core/src/net/stream/codec.cc b/framework/core/src/net/stream/codec.cc
index dae238f..8d06487 100644
--- a/framework/core/src/net/stream/codec.cc
+++ b/framework/core/src/net/stream/codec.cc
@@ -92,7 +92,7 @@ line_decode(stream::Basic *input, const packet::limit_t &packet_limit) {
   if (!input) return Error{ErrorCode::RunTime};
   bytes_t bytes;
   bytes.reserve(packet_limit.max_length);
-  auto readed = input->peek(bytes.data(), bytes.capacity());
+  auto readed = input->peek(bytes.data(), packet_limit.max_length);
   if (readed == 0) return ErrorCode{ErrorCode::NetPacketNeedRecv};
   std::string_view str{reinterpret_cast<char *>(bytes.data()), readed};
   auto pos = str.find('\n');
-- 
2.43.0


From 7b0c40ca225bd316e521a416b20ed872df982a5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:42:34 +0000
Subject: [PATCH 15/73] fix: a call packet in line form is decoded without its
 end mark

---
 framework/core/src/net/stream/codec.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/framework/core/src/net/stream/codec.cc b/framework/core/src/net/stream/codec.cc
index 8d06487..f34180c 100644
--- a/framework/core/src/net/stream/codec.cc
+++ b/framework/core/src/net/stream/codec.cc
@@ -126,7 +126,7 @@ line_decode(stream::Basic *input, const packet::limit_t &packet_limit) {
   if (pos > 0) {
     p->set_writeable(true);
     if (p->is_call_request() || p->is_call_response() || p->is_call_notify()) { // Rpc
-      p->write(bytes.data() + 2, pos - 2);
+      p->write(bytes.data() + 2, pos - 4); // Without the marks.
     } else {
       p->write(bytes.data(), pos);
     }
-- 
2.43.0


From 2e685b96ae1160b7776ccbfdd5645852ea89afda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:54:38 +0000
Subject: [PATCH 16/73] fix: unsigned values 2, 4, 6 and 8 are unpacked as
 packed

They were packed as one byte, which the unpacker takes for the code of an
unsigned type and reads on.
---
 framework/core/src/net/rpc/packer.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/framework/core/src/net/rpc/packer.cc b/framework/core/src/net/rpc/packer.cc
index 1d7b68f..77330e1 100644
--- a/framework/core/src/net/rpc/packer.cc
+++ b/framework/core/src/net/rpc/packer.cc
@@ -56,7 +56,12 @@ void Packer::pack(int64_t value) noexcept {
 }
 
 void Packer::pack(uint8_t value) noexcept {
-  if (value <= 0x7f) {
+  // The values of the unsigned type codes would be taken for these.
+  bool is_code = value == std::to_underlying(Type::Uint8) ||
+    value == std::to_underlying(Type::Uint16) ||
+    value == std::to_underlying(Type::Uint32) ||
+    value == std::to_underlying(Type::Uint64);
+  if (value <= 0x7f && !is_code) {
     serialized_object_.emplace_back(value);
   } else {
     serialized_object_.emplace_back(std::to_underlying(Type::Uint8));
-- 
2.43.0


From 1d59913afdcebb5622c884e15ecc25f1d141e84c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:54:38 +0000
Subject: [PATCH 17/73] fix: small negative numbers are unpacked as packed

A number from -127 to -1 is packed as one byte and was unpacked into the
wider types without its sign.
---
 framework/core/src/net/rpc/unpacker.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/framework/core/src/net/rpc/unpacker.cc b/framework/core/src/net/rpc/unpacker.cc
index 6d3a185..d64ce97 100644
--- a/framework/core/src/net/rpc/unpacker.cc
+++ b/framework/core/src/net/rpc/unpacker.cc
@@ -42,7 +42,7 @@ void Unpacker::unpack(int16_t &value) noexcept {
     unpack(val);
     value = val;
   } else {
-    value = data();
+    value = static_cast<int8_t>(data());
     increment();
   }
 }
@@ -69,7 +69,7 @@ void Unpacker::unpack(int32_t &value) noexcept {
     unpack(val);
     value = val;
   } else {
-    value = data();
+    value = static_cast<int8_t>(data());
     increment();
   }
 }
@@ -100,7 +100,7 @@ void Unpacker::unpack(int64_t &value) noexcept {
     unpack(val);
     value = val;
   } else {
-    value = data();
+    value = static_cast<int8_t>(data());
     increment();
   }
 }
-- 
2.43.0


From f63446c26d1eaef671c5e0d76a4c1661d472617f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:54:38 +0000
Subject: [PATCH 18/73] fix: the least 32-bit and 64-bit numbers are packed,
 not zero

Their absolute values do not exist, so the comparisons that pick a shorter
form went wrong.
---
 framework/core/include/plain/net/rpc/packer.h | 28 +++----------------
 framework/core/src/net/rpc/packer.cc          |  7 +++--
 2 files changed, 8 insertions(+), 27 deletions(-)

diff --git a/framework/core/include/plain/net/rpc/packer.h b/framework/core/include/plain/net/rpc/packer.h
index ee3bbda..52ddfe8 100644
--- a/framework/core/include/plain/net/rpc/packer.h
+++ b/framework/core/include/plain/net/rpc/packer.h
@@ -130,39 +130,19 @@ class PLAIN_API Packer {
  public:
 
   std::bitset<64> twos_complement(int64_t value) noexcept {
-    if (value < 0) {
-      auto abs_v = std::abs(value);
-      return ~abs_v + 1;
-    } else {
-      return {static_cast<uint64_t>(value)};
-    }
+    return {static_cast<uint64_t>(value)};
   }
 
   std::bitset<32> twos_complement(int32_t value) noexcept {
-    if (value < 0) {
-      auto abs_v = std::abs(value);
-      return ~abs_v + 1;
-    } else {
-      return {static_cast<uint32_t>(value)};
-    }
+    return {static_cast<uint32_t>(value)};
   }
 
   std::bitset<16> twos_complement(int16_t value) noexcept {
-    if (value < 0) {
-      auto abs_v = std::abs(value);
-      return ~abs_v + 1;
-    } else {
-      return {static_cast<uint16_t>(value)};
-    }
+    return {static_cast<uint16_t>(value)};
   }
 
   std::bitset<8> twos_complement(int8_t value) noexcept {
-    if (value < 0) {
-      auto abs_v = std::abs(value);
-      return ~abs_v + 1;
-    } else {
-      return {static_cast<uint8_t>(value)};
-    }
+    return {static_cast<uint8_t>(value)};
   }
 
  public:
diff --git a/framework/core/src/net/rpc/packer.cc b/framework/core/src/net/rpc/packer.cc
index 77330e1..413cb04 100644
--- a/framework/core/src/net/rpc/packer.cc
+++ b/framework/core/src/net/rpc/packer.cc
@@ -27,7 +27,8 @@ void Packer::pack(int16_t value) noexcept {
 }
 
 void Packer::pack(int32_t value) noexcept {
-  if (std::abs(value) < std::abs(std::numeric_limits<int16_t>::min())) {
+  if (value > std::numeric_limits<int16_t>::min() &&
+      value <= std::numeric_limits<int16_t>::max()) {
     pack(static_cast<int16_t>(value));
   } else {
     serialized_object_.emplace_back(std::to_underlying(Type::Int32));
@@ -41,8 +42,8 @@ void Packer::pack(int32_t value) noexcept {
 }
 
 void Packer::pack(int64_t value) noexcept {
-  if (std::abs(value) < std::abs(std::numeric_limits<int32_t>::min()) &&
-      value != std::numeric_limits<int64_t>::min()) {
+  if (value > std::numeric_limits<int32_t>::min() &&
+      value <= std::numeric_limits<int32_t>::max()) {
     pack(static_cast<int32_t>(value));
   } else {
     serialized_object_.emplace_back(std::to_underlying(Type::Int64));
-- 
2.43.0


From 49a2874dbb1527a6db2f60174a7f69f767a18fe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:54:38 +0000
Subject: [PATCH 19/73] fix: unsigned numbers are unpacked over the old value,
 not added to it

also, a 64-bit number in 32-bit form was followed by a skipped byte.
---
 framework/core/src/net/rpc/unpacker.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/framework/core/src/net/rpc/unpacker.cc b/framework/core/src/net/rpc/unpacker.cc
index d64ce97..7325391 100644
--- a/framework/core/src/net/rpc/unpacker.cc
+++ b/framework/core/src/net/rpc/unpacker.cc
@@ -119,6 +119,7 @@ void Unpacker::unpack(uint8_t &value) noexcept {
 void Unpacker::unpack(uint16_t &value) noexcept {
   if (data() == std::to_underlying(Type::Uint16)) {
     increment();
+    value = 0;
     for (auto i = sizeof(uint16_t); i > 0; --i) {
       value += data() << 8 * (i - 1);
       increment();
@@ -136,12 +137,14 @@ void Unpacker::unpack(uint16_t &value) noexcept {
 void Unpacker::unpack(uint32_t &value) noexcept {
   if (data() == std::to_underlying(Type::Uint32)) {
     increment();
+    value = 0;
     for (auto i = sizeof(uint32_t); i > 0; --i) {
       value += data() << 8 * (i - 1);
       increment();
     }
   } else if (data() == std::to_underlying(Type::Uint16)) {
     increment();
+    value = 0;
     for (auto i = sizeof(uint16_t); i > 0; --i) {
       value += data() << 8 * (i - 1);
       increment();
@@ -159,19 +162,21 @@ void Unpacker::unpack(uint32_t &value) noexcept {
 void Unpacker::unpack(uint64_t &value) noexcept {
   if (data() == std::to_underlying(Type::Uint64)) {
     increment();
+    value = 0;
     for (auto i = sizeof(uint64_t); i > 0; --i) {
       value += uint64_t(data()) << 8 * (i - 1);
       increment();
     }
   } else if (data() == std::to_underlying(Type::Uint32)) {
     increment();
+    value = 0;
     for (auto i = sizeof(uint32_t); i > 0; --i) {
       value += uint64_t(data()) << 8 * (i - 1);
       increment();
     }
-    data_++;
   } else if (data() == std::to_underlying(Type::Uint16)) {
     increment();
+    value = 0;
     for (auto i = sizeof(uint16_t); i > 0; --i) {
       value += uint64_t(data()) << 8 * (i - 1);
       increment();
-- 
2.43.0


From 920890f1903425ae0a68171426314c6ad6f5c0d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:54:38 +0000
Subject: [PATCH 20/73] fix: floating point numbers are unpacked as packed

Fractions below one lost their exponent (0.5 became infinite), negative
whole numbers their sign, large ones and the special values were
undefined, and whole doubles were rounded to float.
---
 framework/core/src/net/rpc/packer.cc   | 76 +++++++------------------
 framework/core/src/net/rpc/unpacker.cc | 78 +++++---------------------
 2 files changed, 36 insertions(+), 118 deletions(-)

diff --git a/framework/core/src/net/rpc/packer.cc b/framework/core/src/net/rpc/packer.cc
index 413cb04..f1dab23 100644
--- a/framework/core/src/net/rpc/packer.cc
+++ b/framework/core/src/net/rpc/packer.cc
@@ -1,4 +1,5 @@
 #include "plain/net/rpc/packer.h"
+#include <bit>
 
 using plain::net::rpc::Packer;
 
@@ -118,72 +119,37 @@ void Packer::pack(bool value) noexcept {
 }
 
 void Packer::pack(float value) noexcept {
-  double integral_part{.0};
-  auto fractional_remainder = float(std::modf(value, &integral_part));
-
-  if (fractional_remainder == 0) { // Just pack as int
-    pack(int64_t(integral_part));
+  static_assert(std::numeric_limits<float>::is_iec559);
+  // Just pack as int, if that gives the value back.
+  constexpr float limit{9223372036854775808.0}; // 2^63
+  bool negative_zero = value == 0 && std::signbit(value);
+  if (value > -limit && value < limit && std::trunc(value) == value &&
+      !negative_zero) {
+    pack(static_cast<int64_t>(value));
   } else {
-    static_assert(std::numeric_limits<float>::radix == 2);
-    auto exponent = std::ilogb(value);
-    float full_mantissa = value / float(scalbn(1.0, exponent));
-    auto sign_mask = std::bitset<32>(
-      static_cast<uint32_t>(std::signbit(full_mantissa)) << 31);
-    auto excess_127_exponent_mask =
-      std::bitset<32>(uint32_t(exponent + 127) << 23);
-    auto normalized_mantissa_mask = std::bitset<32>();
-    float implied_mantissa = std::fabs(full_mantissa) - 1.0f;
-    for (auto i = 23U; i > 0; --i) {
-      integral_part = 0;
-      implied_mantissa *= 2;
-      implied_mantissa = float(std::modf(implied_mantissa, &integral_part));
-      if (uint8_t(integral_part) == 1) {
-        normalized_mantissa_mask |= std::bitset<32>(uint32_t(1 << (i - 1)));
-      }
-    }
-
-    uint32_t ieee754_float32 = (sign_mask | excess_127_exponent_mask |
-       normalized_mantissa_mask).to_ulong();
+    auto bits = std::bit_cast<uint32_t>(value);
     serialized_object_.emplace_back(std::to_underlying(Type::Float32));
-    for (auto i = sizeof(uint32_t); i > 0; --i) {
+    for (auto i = sizeof(bits); i > 0; --i) {
       serialized_object_.emplace_back(
-        uint8_t(ieee754_float32 >> (8U * (i - 1)) & 0xff));
+        uint8_t(bits >> (8U * (i - 1)) & 0xff));
     }
   }
 }
 
 void Packer::pack(double value) noexcept {
-  double integral_part{.0};
-  double fractional_remainder = std::modf(value, &integral_part);
-
-  if (fractional_remainder == 0) { // Just pack as int
-    pack(int64_t(integral_part));
+  static_assert(std::numeric_limits<double>::is_iec559);
+  // Just pack as int, if that gives the value back.
+  constexpr double limit{9223372036854775808.0}; // 2^63
+  bool negative_zero = value == 0 && std::signbit(value);
+  if (value > -limit && value < limit && std::trunc(value) == value &&
+      !negative_zero) {
+    pack(static_cast<int64_t>(value));
   } else {
-    static_assert(std::numeric_limits<float>::radix == 2);
-    auto exponent = std::ilogb(value);
-    double full_mantissa = value / std::scalbn(1.0, exponent);
-    auto sign_mask =
-      std::bitset<64>(uint64_t(std::signbit(full_mantissa)) << 63);
-    auto excess_127_exponent_mask =
-      std::bitset<64>(uint64_t(exponent + 1023) << 52);
-    auto normalized_mantissa_mask = std::bitset<64>();
-    double implied_mantissa = std::fabs(full_mantissa) - 1.0f;
-
-    for (auto i = 52U; i > 0; --i) {
-      integral_part = 0;
-      implied_mantissa *= 2;
-      implied_mantissa = modf(implied_mantissa, &integral_part);
-      if (uint8_t(integral_part) == 1) {
-        normalized_mantissa_mask |= std::bitset<64>(uint64_t(1) << (i - 1));
-      }
-    }
-    auto ieee754_float64 = 
-      (sign_mask | excess_127_exponent_mask |
-       normalized_mantissa_mask).to_ullong();
+    auto bits = std::bit_cast<uint64_t>(value);
     serialized_object_.emplace_back(std::to_underlying(Type::Float64));
-    for (auto i = sizeof(ieee754_float64); i > 0; --i) {
+    for (auto i = sizeof(bits); i > 0; --i) {
       serialized_object_.emplace_back(
-        uint8_t(ieee754_float64 >> (8U * (i - 1)) & 0xff));
+        uint8_t(bits >> (8U * (i - 1)) & 0xff));
     }
   }
 }
diff --git a/framework/core/src/net/rpc/unpacker.cc b/framework/core/src/net/rpc/unpacker.cc
index 7325391..6296d9b 100644
--- a/framework/core/src/net/rpc/unpacker.cc
+++ b/framework/core/src/net/rpc/unpacker.cc
@@ -1,6 +1,6 @@
 #include "plain/net/rpc/unpacker.h"
+#include <bit>
 #include <bitset>
-#include <cmath>
 
 using plain::net::rpc::Unpacker;
 
@@ -203,80 +203,32 @@ void Unpacker::unpack(bool &value) noexcept {
 void Unpacker::unpack(float &value) noexcept {
   if (data() == std::to_underlying(Type::Float32)) {
     increment();
-    uint32_t _data = 0;
-    for (auto i = sizeof(uint32_t); i > 0; --i) {
-      _data += data() << 8 * (i - 1);
+    uint32_t bits = 0;
+    for (auto i = sizeof(bits); i > 0; --i) {
+      bits += uint32_t(data()) << 8 * (i - 1);
       increment();
     }
-    auto bits = std::bitset<32>(_data);
-    auto mantissa = 1.0f;
-    for (auto i = 23U; i > 0; --i) {
-      if (bits[i - 1]) {
-        mantissa += 1.0f / (1 << (24 - i));
-      }
-    }
-    if (bits[31]) {
-      mantissa *= -1;
-    }
-    uint8_t exponent = 0;
-    for (auto i = 0U; i < 8; ++i) {
-      exponent += bits[i + 23] << i;
-    }
-    exponent -= 127;
-    value = std::ldexp(mantissa, exponent);
+    value = std::bit_cast<float>(bits);
   } else {
-    if (data() == std::to_underlying(Type::Int8) ||
-        data() == std::to_underlying(Type::Int16) ||
-        data() == std::to_underlying(Type::Int32) ||
-        data() == std::to_underlying(Type::Int64)) {
-      int64_t val = 0;
-      unpack(val);
-      value = float(val);
-    } else {
-      uint64_t val = 0;
-      unpack(val);
-      value = float(val);
-    }
+    int64_t val = 0;
+    unpack(val);
+    value = float(val);
   }
 }
 
 void Unpacker::unpack(double &value) noexcept {
   if (data() == std::to_underlying(Type::Float64)) {
     increment();
-    uint64_t _data = 0;
-    for (auto i = sizeof(uint64_t); i > 0; --i) {
-      _data += uint64_t(data()) << 8 * (i - 1);
+    uint64_t bits = 0;
+    for (auto i = sizeof(bits); i > 0; --i) {
+      bits += uint64_t(data()) << 8 * (i - 1);
       increment();
     }
-    auto bits = std::bitset<64>(_data);
-    auto mantissa = 1.0;
-    for (auto i = 52U; i > 0; --i) {
-      if (bits[i - 1]) {
-        mantissa += 1.0 / (uint64_t(1) << (53 - i));
-      }
-    }
-    if (bits[63]) {
-      mantissa *= -1;
-    }
-    uint16_t exponent = 0;
-    for (auto i = 0U; i < 11; ++i) {
-      exponent += bits[i + 52] << i;
-    }
-    exponent -= 1023;
-    value = ldexp(mantissa, exponent);
+    value = std::bit_cast<double>(bits);
   } else {
-    if (data() == std::to_underlying(Type::Int8) ||
-        data() == std::to_underlying(Type::Int16) ||
-        data() == std::to_underlying(Type::Int32) ||
-        data() == std::to_underlying(Type::Int64)) {
-      int64_t val = 0;
-      unpack(val);
-      value = float(val);
-    } else {
-      uint64_t val = 0;
-      unpack(val);
-      value = float(val);
-    }
+    int64_t val = 0;
+    unpack(val);
+    value = double(val);
   }
 }
 
-- 
2.43.0


From ab34d82b537d30c929aaae97db7a8b73c95bfb49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:54:38 +0000
Subject: [PATCH 21/73] fix: unpacking too many elements into an array does not
 write past it

---
 framework/core/include/plain/net/rpc/unpacker.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/framework/core/include/plain/net/rpc/unpacker.h b/framework/core/include/plain/net/rpc/unpacker.h
index 6c414a1..66d6ff1 100644
--- a/framework/core/include/plain/net/rpc/unpacker.h
+++ b/framework/core/include/plain/net/rpc/unpacker.h
@@ -149,6 +149,10 @@ class PLAIN_API Unpacker {
     using ValueType = typename T::value_type;
     auto vec = std::vector<ValueType>{};
     unpack_array(vec);
+    if (vec.size() > array.size()) {
+      error_ = ErrorCode::OutOfRange;
+      vec.resize(array.size());
+    }
     std::copy(vec.begin(), vec.end(), array.begin());
   }
 
-- 
2.43.0


From 1f9cb8d168659004aa3e977a740aa79709a8f485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:54:38 +0000
Subject: [PATCH 22/73] fix: unpacking a container stops where the data ends

A few bytes announcing four billion elements kept the receiver busy and
its memory growing.
---
 framework/core/include/plain/net/rpc/unpacker.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/framework/core/include/plain/net/rpc/unpacker.h b/framework/core/include/plain/net/rpc/unpacker.h
index 66d6ff1..433f29b 100644
--- a/framework/core/include/plain/net/rpc/unpacker.h
+++ b/framework/core/include/plain/net/rpc/unpacker.h
@@ -116,7 +116,7 @@ class PLAIN_API Unpacker {
         increment();
       }
       std::vector<uint32_t> x{};
-      for (auto i = 0U; i < array_size; ++i) {
+      for (auto i = 0U; i < array_size && !error_; ++i) {
         ValueType val{};
         unpack(val);
         array.emplace_back(val);
@@ -128,7 +128,7 @@ class PLAIN_API Unpacker {
         array_size += uint16_t(data()) << 8 * (i - 1);
         increment();
       }
-      for (auto i = 0U; i < array_size; ++i) {
+      for (auto i = 0U; i < array_size && !error_; ++i) {
         ValueType val{};
         unpack(val);
         array.emplace_back(val);
@@ -136,7 +136,7 @@ class PLAIN_API Unpacker {
     } else {
       std::size_t array_size = data() & 0b00001111;
       increment();
-      for (auto i = 0U; i < array_size; ++i) {
+      for (auto i = 0U; i < array_size && !error_; ++i) {
         ValueType val{};
         unpack(val);
         array.emplace_back(val);
@@ -168,7 +168,7 @@ class PLAIN_API Unpacker {
         increment();
       }
       std::vector<uint32_t> x{};
-      for (auto i = 0U; i < map_size; ++i) {
+      for (auto i = 0U; i < map_size && !error_; ++i) {
         KeyType key{};
         MappedType value{};
         unpack(key);
@@ -182,7 +182,7 @@ class PLAIN_API Unpacker {
         map_size += uint16_t(data()) << 8 * (i - 1);
         increment();
       }
-      for (auto i = 0U; i < map_size; ++i) {
+      for (auto i = 0U; i < map_size && !error_; ++i) {
         KeyType key{};
         MappedType value{};
         unpack(key);
@@ -192,7 +192,7 @@ class PLAIN_API Unpacker {
     } else {
       std::size_t map_size = data() & 0b00001111;
       increment();
-      for (auto i = 0U; i < map_size; ++i) {
+      for (auto i = 0U; i < map_size && !error_; ++i) {
         KeyType key{};
         MappedType value{};
         unpack(key);
-- 
2.43.0


From f45dab61f943e17cb13fdd8535026a518aa8d254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:54:38 +0000
Subject: [PATCH 23/73] fix: unpacking a nested object does not forget an
 earlier error

---
 framework/core/include/plain/net/rpc/unpacker.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/framework/core/include/plain/net/rpc/unpacker.h b/framework/core/include/plain/net/rpc/unpacker.h
index 433f29b..cb2db54 100644
--- a/framework/core/include/plain/net/rpc/unpacker.h
+++ b/framework/core/include/plain/net/rpc/unpacker.h
@@ -90,7 +90,7 @@ class PLAIN_API Unpacker {
         Unpacker{recursive_data.data(), recursive_data.size()};
 
       value.pack(recursive_unpacker);
-      error_ = recursive_unpacker.error_;
+      if (recursive_unpacker.error_) error_ = recursive_unpacker.error_;
     }
 
   }
-- 
2.43.0


From d0cfe3f564bf5ca6c2cf031facb6389a148522d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:18:45 +0000
Subject: [PATCH 24/73] fix: a connection's name is the one last given to it

---
 framework/core/src/net/connection/manager.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/framework/core/src/net/connection/manager.cc b/framework/core/src/net/connection/manager.cc
index dbc5c98..0f961c0 100644
--- a/framework/core/src/net/connection/manager.cc
+++ b/framework/core/src/net/connection/manager.cc
@@ -350,6 +350,7 @@ std::shared_ptr<plain::net::connection::Basic> Manager::new_conn() noexcept {
     }
   }
   if (id == kInvalidId) return {};
+  impl_->conn_names.erase(id); // The name of the last one with this id.
   auto r = impl_->connection_info.list[id - 1];
   if (!r) r = std::make_shared<Basic>();
   r->set_id(id);
@@ -611,7 +612,7 @@ void Manager::set_name(
   auto conn = get_conn(conn_id);
   if (!conn) return;
   std::unique_lock<decltype(impl_->mutex)> lock{impl_->mutex};
-  impl_->conn_names.emplace(conn_id, name.data());
+  impl_->conn_names.insert_or_assign(conn_id, std::string{name});
 }
   
 std::string Manager::get_name(connection::id_t conn_id) const noexcept {
-- 
2.43.0


From 31f172cca236ace1880ee681f6ea40dc9f1b1904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:18:45 +0000
Subject: [PATCH 25/73] fix: connections do not share an unsynchronised table
 of callbacks

---
 framework/core/src/net/connection/basic.cc | 34 +++++++---------------
 1 file changed, 10 insertions(+), 24 deletions(-)

diff --git a/framework/core/src/net/connection/basic.cc b/framework/core/src/net/connection/basic.cc
index a189b57..7912d24 100644
--- a/framework/core/src/net/connection/basic.cc
+++ b/framework/core/src/net/connection/basic.cc
@@ -15,23 +15,9 @@
 using plain::net::connection::Basic;
 using plain::net::connection::callable_func;
 
-static std::unordered_map<std::string, callable_func> s_callables;
 static constexpr size_t kOnceHandlePacketCount{12};
 static constexpr size_t kCantPeekMaxCount{60};
 
-static std::string
-get_callable_key(Basic *p, std::string_view suffix) noexcept {
-  auto np = (int64_t)(reinterpret_cast<int64_t *>(p));
-  return std::to_string(np) + std::string{suffix};
-}
-
-static void check_callable(Basic *p, std::string_view suffix) noexcept {
-  auto key = get_callable_key(p, suffix);
-  auto it = s_callables.find(key);
-  if (it != s_callables.end())
-    it->second(p);
-}
-
 struct Basic::Impl {
   Impl();
   Impl(std::shared_ptr<socket::Basic> socket);
@@ -43,6 +29,8 @@ struct Basic::Impl {
   stream::codec_t codec;
   std::weak_ptr<Manager> manager;
   packet::dispatch_func dispatcher;
+  callable_func connect_callback;
+  callable_func disconnect_callback;
   uint8_t error_times{0};
   uint8_t work_flags{0};
   std::atomic_bool working{false};
@@ -414,10 +402,8 @@ bool Basic::init() noexcept {
   impl_->ostream->clear();
   impl_->callings.clear();
   impl_->call_index = 0;
-  auto connect_call_key = get_callable_key(this, "__connect");
-  s_callables.erase(connect_call_key);
-  auto disconnect_call_key = get_callable_key(this, "__disconnect");
-  s_callables.erase(disconnect_call_key);
+  impl_->connect_callback = nullptr;
+  impl_->disconnect_callback = nullptr;
   // if (!impl_->socket->create()) return false;
   return true;
 }
@@ -497,13 +483,11 @@ void Basic::set_codec(const stream::codec_t &codec) noexcept {
 }
   
 void Basic::set_connect_callback(callable_func func) noexcept {
-  auto key = get_callable_key(this, "__connect");
-  s_callables[key] = func;
+  impl_->connect_callback = func;
 }
   
 void Basic::set_disconnect_callback(callable_func func) noexcept {
-  auto key = get_callable_key(this, "__disconnect");
-  s_callables[key] = func;
+  impl_->disconnect_callback = func;
 }
   
 void Basic::set_manager(std::shared_ptr<Manager> manager) noexcept {
@@ -523,14 +507,16 @@ bool Basic::send(const std::shared_ptr<packet::Basic> &packet) noexcept {
 }
 
 void Basic::on_connect() noexcept {
-  check_callable(this, "__connect");
+  if (static_cast<bool>(impl_->connect_callback))
+    impl_->connect_callback(this);
 }
   
 void Basic::on_disconnect() noexcept {
   impl_->istream->clear();
   impl_->ostream->clear();
   impl_->working.store(false, std::memory_order_relaxed);
-  check_callable(this, "__disconnect");
+  if (static_cast<bool>(impl_->disconnect_callback))
+    impl_->disconnect_callback(this);
 }
 
 void Basic::set_keep_alive(bool flag) const noexcept {
-- 
2.43.0


From f5aaf72849c6a6cc5b44432f2f5dafb85b608304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:18:45 +0000
Subject: [PATCH 26/73] fix: input that arrives while a connection reads is not
 overlooked

---
 framework/core/src/net/connection/basic.cc | 13 +++++--------
 framework/core/src/net/stream/basic.cc     |  3 ++-
 2 files changed, 7 insertions(+), 9 deletions(-)

diff --git a/framework/core/src/net/connection/basic.cc b/framework/core/src/net/connection/basic.cc
index 7912d24..eaa9419 100644
--- a/framework/core/src/net/connection/basic.cc
+++ b/framework/core/src/net/connection/basic.cc
@@ -82,26 +82,23 @@ Basic::Impl::~Impl() = default;
 
 bool Basic::Impl::process_input(Basic *conn) noexcept {
   if (!has_work_flag(WorkFlag::Input)) return true;
-  scoped_executor_t check_flag([this]{
-    if (socket->avail() == 0)
-      set_work_flag(WorkFlag::Input, false);
-  });
   assert(conn);
   if (!socket->valid()) return false;
+  // What arrives from here on sets the flag again.
+  set_work_flag(WorkFlag::Input, false);
   auto r = istream->pull();
   if (r < 0) {
     LOG_ERROR << get_name(conn) << " pull failed: " << r;
     return false;
   }
+  if (r == 0) return true;
   auto m = manager.lock();
   if (m) {
     m->increase_recv_size(r);
   }
   set_work_flag(WorkFlag::Command, true);
-  /*
-  if (socket->avail() == 0)
-    set_work_flag(WorkFlag::Input, false);
-  */
+  // There may be more, or the end of the stream.
+  set_work_flag(WorkFlag::Input, true);
   return true;
 }
 
diff --git a/framework/core/src/net/stream/basic.cc b/framework/core/src/net/stream/basic.cc
index a3e2f75..1dc2eff 100644
--- a/framework/core/src/net/stream/basic.cc
+++ b/framework/core/src/net/stream/basic.cc
@@ -30,7 +30,8 @@ Basic::~Basic() = default;
 
 int32_t Basic::pull() noexcept {
   auto socket = impl_->weak_socket.lock();
-  if (!socket || !socket->valid()) return 0;
+  // A socket with an error is reported by receiving.
+  if (!socket || socket->id() == socket::kInvalidId) return 0;
   auto socket_avail = socket->avail();
   if (socket_avail == 0) socket_avail = 1;
   // auto once_max = impl_->buffer.write_avail() + impl_->buffer.size();
-- 
2.43.0


From 9f5b5527a598893a24c6b52ab4cccdd249c9d9ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:18:45 +0000
Subject: [PATCH 27/73] fix: a packet sent while a connection finishes writing
 is not left behind

---
 framework/core/src/net/connection/basic.cc | 23 +++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/framework/core/src/net/connection/basic.cc b/framework/core/src/net/connection/basic.cc
index eaa9419..640f451 100644
--- a/framework/core/src/net/connection/basic.cc
+++ b/framework/core/src/net/connection/basic.cc
@@ -106,20 +106,21 @@ bool Basic::Impl::process_output(Basic *conn) noexcept {
   if (!has_work_flag(WorkFlag::Output)) return true;
   assert(conn);
   if (!socket->valid()) return false;
+  int32_t r{0};
   {
     std::unique_lock<std::mutex> lock{mutex};
-    auto r = ostream->push();
-    if (r < 0) {
-      LOG_ERROR << get_name(conn) << " push failed: " << r;
-      return false;
-    }
-    auto m = manager.lock();
-    if (r > 0 && m) {
-      m->increase_send_size(r);
-    }
+    r = ostream->push();
+    if (r >= 0 && ostream->size() == 0)
+      work_flags &= ~(0x1 << std::to_underlying(WorkFlag::Output));
+  }
+  if (r < 0) {
+    LOG_ERROR << get_name(conn) << " push failed: " << r;
+    return false;
+  }
+  auto m = manager.lock();
+  if (r > 0 && m) {
+    m->increase_send_size(r);
   }
-  if (ostream->size() == 0)
-    set_work_flag(WorkFlag::Output, false);
   return true;
 }
 
-- 
2.43.0


From a7bdf40c81ceaaee332893c09f17b5989e86119c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:18:45 +0000
Subject: [PATCH 28/73] fix: packets followed by a part of a header do not add
 up to an error

---
 framework/core/src/net/connection/basic.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/framework/core/src/net/connection/basic.cc b/framework/core/src/net/connection/basic.cc
index 640f451..b018e39 100644
--- a/framework/core/src/net/connection/basic.cc
+++ b/framework/core/src/net/connection/basic.cc
@@ -190,6 +190,7 @@ bool Basic::Impl::process_command(Basic *conn) noexcept {
     }
     auto p = std::get_if<std::shared_ptr<packet::Basic>>(&r);
     if (!p) return false; // impossible.
+    error_times = 0;
     // Handle packet.
     if ((*p)->is_call_request() || (*p)->is_call_notify()) {
       if (!handle_rpc_request(conn, *p)) return false;
@@ -204,7 +205,6 @@ bool Basic::Impl::process_command(Basic *conn) noexcept {
     }
     if (istream->size() == 0) break;
   }
-  error_times = 0;
   return true;
 }
 
-- 
2.43.0


From 2fb36ef94df8219de0e4fa9c8dbb07bfc6a407cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:19:36 +0000
Subject: [PATCH 29/73] fix: a new connection does not take over the settings
 of an old one

---
 framework/core/src/net/connection/basic.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/framework/core/src/net/connection/basic.cc b/framework/core/src/net/connection/basic.cc
index b018e39..c09b81e 100644
--- a/framework/core/src/net/connection/basic.cc
+++ b/framework/core/src/net/connection/basic.cc
@@ -402,6 +402,10 @@ bool Basic::init() noexcept {
   impl_->call_index = 0;
   impl_->connect_callback = nullptr;
   impl_->disconnect_callback = nullptr;
+  impl_->codec = {};
+  impl_->dispatcher = nullptr;
+  impl_->timeout = std::nullopt;
+  impl_->error_times = 0;
   // if (!impl_->socket->create()) return false;
   return true;
 }
-- 
2.43.0


From ed99323578da5f753eacf36d1e4330547ab59137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:19:36 +0000
Subject: [PATCH 30/73] fix: ending a connection does not race with sending on
 it

---
 framework/core/src/net/connection/basic.cc | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/framework/core/src/net/connection/basic.cc b/framework/core/src/net/connection/basic.cc
index c09b81e..6f0c344 100644
--- a/framework/core/src/net/connection/basic.cc
+++ b/framework/core/src/net/connection/basic.cc
@@ -393,6 +393,7 @@ Basic::~Basic() = default;
 Basic &Basic::operator=(Basic &&object) noexcept = default;
 
 bool Basic::init() noexcept {
+  std::unique_lock<std::mutex> lock{impl_->mutex};
   if (!impl_->socket->close()) return false;
   impl_->working.store(false, std::memory_order_relaxed);
   impl_->work_flags = 0;
@@ -416,11 +417,13 @@ bool Basic::idle() const noexcept {
 }
   
 bool Basic::shutdown(int32_t how) noexcept {
+  std::unique_lock<std::mutex> lock{impl_->mutex};
   if (!impl_->socket->valid()) return true;
   return impl_->socket->shutdown(how);
 }
   
 bool Basic::close() noexcept {
+  std::unique_lock<std::mutex> lock{impl_->mutex};
   if (!impl_->socket->valid()) return true;
   return impl_->socket->close();
 }
@@ -514,9 +517,13 @@ void Basic::on_connect() noexcept {
 }
   
 void Basic::on_disconnect() noexcept {
-  impl_->istream->clear();
-  impl_->ostream->clear();
-  impl_->working.store(false, std::memory_order_relaxed);
+  {
+    std::unique_lock<std::mutex> lock{impl_->mutex};
+    impl_->istream->clear();
+    impl_->ostream->clear();
+    impl_->work_flags = 0;
+    impl_->working.store(false, std::memory_order_relaxed);
+  }
   if (static_cast<bool>(impl_->disconnect_callback))
     impl_->disconnect_callback(this);
 }
-- 
2.43.0


From c6461b7a5ed4ce752d728a650f64d8f05af7ecaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:19:36 +0000
Subject: [PATCH 31/73] fix: a connection is worked on by one thread at a time
 and ends once

---
 .../include/plain/net/connection/manager.h    |  1 +
 framework/core/src/net/connection/basic.cc    |  8 ++--
 framework/core/src/net/connection/epoll.cc    |  2 +-
 framework/core/src/net/connection/manager.cc  | 46 +++++++++++++------
 framework/core/src/net/connection/select.cc   |  2 +-
 framework/core/src/net/connector.cc           |  1 +
 6 files changed, 41 insertions(+), 19 deletions(-)

diff --git a/framework/core/include/plain/net/connection/manager.h b/framework/core/include/plain/net/connection/manager.h
index 11bec3f..109c93f 100644
--- a/framework/core/include/plain/net/connection/manager.h
+++ b/framework/core/include/plain/net/connection/manager.h
@@ -80,6 +80,7 @@ class PLAIN_API Manager :
   void foreach(std::function<void(std::shared_ptr<Basic> conn)> func); // valid
   void recv_ctrl_cmd() noexcept;
   void enqueue(connection::id_t conn_id) noexcept;
+  void release(connection::id_t conn_id) noexcept;
   void set_name(connection::id_t conn_id, std::string_view name) noexcept;
   std::string get_name(connection::id_t conn_id) const noexcept;
   rpc::Dispatcher *rpc_dispatcher() const noexcept;
diff --git a/framework/core/src/net/connection/basic.cc b/framework/core/src/net/connection/basic.cc
index 6f0c344..984743f 100644
--- a/framework/core/src/net/connection/basic.cc
+++ b/framework/core/src/net/connection/basic.cc
@@ -209,8 +209,7 @@ bool Basic::Impl::process_command(Basic *conn) noexcept {
 }
 
 bool Basic::Impl::process_exception() noexcept {
-  if (!has_work_flag(WorkFlag::Except)) return true;
-  return true;
+  return !has_work_flag(WorkFlag::Except);
 }
 
 bool Basic::Impl::work(Basic *conn) noexcept {
@@ -413,7 +412,7 @@ bool Basic::init() noexcept {
 
 bool Basic::idle() const noexcept {
   std::unique_lock<std::mutex> lock{impl_->mutex};
-  return !impl_->socket->valid() || (impl_->work_flags == 0);
+  return impl_->work_flags == 0;
 }
   
 bool Basic::shutdown(int32_t how) noexcept {
@@ -517,6 +516,7 @@ void Basic::on_connect() noexcept {
 }
   
 void Basic::on_disconnect() noexcept {
+  auto ended = is_keep_alive() && impl_->socket->id() == socket::kInvalidId;
   {
     std::unique_lock<std::mutex> lock{impl_->mutex};
     impl_->istream->clear();
@@ -524,7 +524,7 @@ void Basic::on_disconnect() noexcept {
     impl_->work_flags = 0;
     impl_->working.store(false, std::memory_order_relaxed);
   }
-  if (static_cast<bool>(impl_->disconnect_callback))
+  if (static_cast<bool>(impl_->disconnect_callback) && !ended)
     impl_->disconnect_callback(this);
 }
 
diff --git a/framework/core/src/net/connection/epoll.cc b/framework/core/src/net/connection/epoll.cc
index 7db956a..36f8f60 100644
--- a/framework/core/src/net/connection/epoll.cc
+++ b/framework/core/src/net/connection/epoll.cc
@@ -230,7 +230,7 @@ void Epoll::handle_input() noexcept {
       }
       if (conn->socket()->error()) {
         LOG_ERROR << setting_.name << " socket error: " << conn_id;
-        remove(conn_id);
+        conn->enqueue_work(WorkFlag::Except); // The work will remove it.
         continue;
       }
       conn->enqueue_work(WorkFlag::Input);
diff --git a/framework/core/src/net/connection/manager.cc b/framework/core/src/net/connection/manager.cc
index 0f961c0..8f21a06 100644
--- a/framework/core/src/net/connection/manager.cc
+++ b/framework/core/src/net/connection/manager.cc
@@ -57,6 +57,8 @@ struct Manager::Impl {
   std::atomic_uint32_t working_conn_count{0};
   std::deque<connection::id_t> wait_work_conn_id_deque;
   std::set<connection::id_t> wait_work_conn_ids;
+  // The connections at work or being set up(no other work on them).
+  std::set<connection::id_t> working_conn_ids;
   int32_t working_conn_max_count{32};
   std::latch latch{1};
 
@@ -155,10 +157,9 @@ void Manager::Impl::work(
   std::shared_ptr<Manager> manager, connection::id_t id) noexcept {
   auto conn = manager->get_conn(id);
   bool r{false};
-  bool enqueue_work{true};
   // Ensure end work try to enqueue working.
-  scoped_executor_t scoped_enqueue([&enqueue_work, manager]() {
-    if (enqueue_work) manager->enqueue(connection::kInvalidId);
+  scoped_executor_t scoped_enqueue([manager]() {
+    manager->enqueue(connection::kInvalidId);
   });
   {
     scoped_executor_t scoped_executor([manager]() {
@@ -171,16 +172,12 @@ void Manager::Impl::work(
       }
     });
     if (!conn) return;
-    if (!conn->valid()) return;
     r = conn->work();
   }
   if (!r) {
     manager->remove(conn);
   } else {
-    if (!conn->idle()) {
-       manager->enqueue(id);
-       enqueue_work = false;
-    }
+    manager->release(id);
   }
 }
 
@@ -356,6 +353,7 @@ std::shared_ptr<plain::net::connection::Basic> Manager::new_conn() noexcept {
   r->set_id(id);
   r->init();
   r->set_manager(shared_from_this());
+  impl_->working_conn_ids.emplace(id); // Until release.
   ++(impl_->connection_info.size);
   if (impl_->connection_info.ids.use_count() > 1) {
     impl_->connection_info.ids.reset(
@@ -387,14 +385,20 @@ void Manager::remove(
   assert(conn_id != connection::kInvalidId);
   if (conn_id <= 0 || conn_id > impl_->connection_info.max_id)
     return;
-  auto &conn = impl_->connection_info.list[conn_id - 1];
+  if (!impl_->connection_info.ids->contains(conn_id)) return;
+  impl_->working_conn_ids.erase(conn_id);
+  auto conn = impl_->connection_info.list[conn_id - 1];
   if (conn) {
+    // A kept one stays after its end.
+    auto ended = conn->is_keep_alive() &&
+      conn->socket()->id() == socket::kInvalidId;
     if (!no_event) {
       conn->on_disconnect();
-      if (static_cast<bool>(impl_->disconnect_callback))
+      if (static_cast<bool>(impl_->disconnect_callback) && !ended)
         impl_->disconnect_callback(conn.get());
     }
-    if (sock && conn->socket()->valid()) this->sock_remove(conn->socket()->id());
+    if (sock && conn->socket()->id() != socket::kInvalidId)
+      this->sock_remove(conn->socket()->id());
     conn->shutdown();
     conn->close();
     if (conn->is_keep_alive()) return; // The connector will keep alive.
@@ -488,6 +492,7 @@ std::shared_ptr<plain::net::connection::Basic> Manager::accept() noexcept {
   if (static_cast<bool>(impl_->connect_callback)) {
     impl_->connect_callback(conn.get());
   }
+  release(conn->id());
   return conn;
 }
   
@@ -531,6 +536,7 @@ Manager::accept(socket::id_t sock_id) noexcept {
   if (static_cast<bool>(impl_->connect_callback)) {
     impl_->connect_callback(conn.get());
   }
+  release(conn->id());
   return conn;
 }
 
@@ -588,15 +594,19 @@ uint64_t Manager::recv_size() const noexcept {
 void Manager::enqueue(connection::id_t id) noexcept {
   std::unique_lock<decltype(impl_->mutex)> lock{impl_->mutex};
   if (!running()) return;
+  // The one working on it will look again when it is done(release).
+  if (impl_->working_conn_ids.contains(id)) return;
   auto working_conn_count =
     impl_->working_conn_count.load(std::memory_order_acquire);
   if (impl_->working_conn_max_count <= 0 ||
       working_conn_count < static_cast<uint32_t>(
         impl_->working_conn_max_count)) {
-    if (id == connection::kInvalidId) {
+    if (id != connection::kInvalidId) impl_->push_work_id(id); // After others.
+    do {
       id = impl_->pop_work_id();
-    }
+    } while (impl_->working_conn_ids.contains(id));
     if (id == connection::kInvalidId) return;
+    impl_->working_conn_ids.emplace(id);
 		std::atomic_signal_fence(std::memory_order_release);
     impl_->working_conn_count.fetch_add(1, std::memory_order_release);
     impl_->executor->enqueue([m = shared_from_this(), id]() {
@@ -607,6 +617,16 @@ void Manager::enqueue(connection::id_t id) noexcept {
   }
 }
 
+// The work on a connection or its setting up is done.
+void Manager::release(connection::id_t id) noexcept {
+  {
+    std::unique_lock<decltype(impl_->mutex)> lock{impl_->mutex};
+    impl_->working_conn_ids.erase(id);
+  }
+  auto conn = get_conn(id);
+  if (conn && !conn->idle()) enqueue(id);
+}
+
 void Manager::set_name(
   connection::id_t conn_id, std::string_view name) noexcept {
   auto conn = get_conn(conn_id);
diff --git a/framework/core/src/net/connection/select.cc b/framework/core/src/net/connection/select.cc
index 1e133f4..0d682ac 100644
--- a/framework/core/src/net/connection/select.cc
+++ b/framework/core/src/net/connection/select.cc
@@ -123,7 +123,7 @@ void Select::handle_io() noexcept {
       auto id = conn->socket()->id();
       if (FD_ISSET(id, &impl_->except_fds.use)) {
         LOG_ERROR << setting_.name << " connection has except: " << conn->id();
-        this->remove(conn->id());
+        conn->enqueue_work(WorkFlag::Except); // The work will remove it.
         return;
       } else if (FD_ISSET(id, &impl_->read_fds.use)) {
         conn->enqueue_work(WorkFlag::Input);
diff --git a/framework/core/src/net/connector.cc b/framework/core/src/net/connector.cc
index 0a0d3a7..afb53fb 100644
--- a/framework/core/src/net/connector.cc
+++ b/framework/core/src/net/connector.cc
@@ -134,6 +134,7 @@ Connector::connect_impl(
     LOG_ERROR << "sock add failed";
     return {};
   }
+  impl_->manager->release(conn->id());
   impl_->manager->send_ctrl_cmd("w"); // wakeup to add socket descriptor.
   conn->on_connect();
   const auto &callback = impl_->manager->connect_callback();
-- 
2.43.0


From f33d06f8a46ea120d9447de7067633418ee60869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:20:36 +0000
Subject: [PATCH 32/73] fix: the thread of a manager does not miss its first
 connection or its stop

---
 framework/core/src/net/connection/manager.cc | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/framework/core/src/net/connection/manager.cc b/framework/core/src/net/connection/manager.cc
index 8f21a06..fe010a7 100644
--- a/framework/core/src/net/connection/manager.cc
+++ b/framework/core/src/net/connection/manager.cc
@@ -27,7 +27,7 @@ struct ConnectionInfo {
   std::vector<std::shared_ptr<plain::net::connection::Basic>> list;
   std::shared_ptr<std::set<id_t>> ids; // The valid ids.
   std::set<id_t> free_ids;
-  size_t size{0};
+  std::atomic_size_t size{0};
   id_t max_id{0};
 };
 
@@ -147,6 +147,7 @@ bool Manager::Impl::wait_work(std::shared_ptr<Manager> manager) noexcept {
         manager->impl_->connection_info.size > 0 || !manager->running();
     });
   }
+  lock.unlock();
   if (!manager->running() || !manager->work()) return false;
   // std::this_thread::sleep_for(1ms); // change to executor thread work.
   return true;
@@ -266,7 +267,10 @@ void Manager::stop() {
     if (conn && conn->valid()) conn->shutdown();
   }
 #ifndef PLAIN_NET_MANAGER_ENABLE_COROUTINE
-  impl_->cv.notify_one(); // Just one for wait work.
+  {
+    std::unique_lock<std::mutex> wait_lock{impl_->wait_mutex};
+    impl_->cv.notify_one(); // Just one for wait work.
+  }
 #endif
   send_ctrl_cmd("k"); // Send stop.
 
@@ -362,6 +366,7 @@ std::shared_ptr<plain::net::connection::Basic> Manager::new_conn() noexcept {
   impl_->connection_info.ids->emplace(id);
 
 #ifndef PLAIN_NET_MANAGER_ENABLE_COROUTINE
+  std::unique_lock<std::mutex> wait_lock{impl_->wait_mutex};
   impl_->cv.notify_one(); // Just one for wait work.
 #endif
   return r;
-- 
2.43.0


From 1aebb4ff7e903cc11291ee10b06e4b6cf77c0275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:20:36 +0000
Subject: [PATCH 33/73] fix: stopping a manager is safe while connections work
 and come

---
 framework/core/src/net/connection/manager.cc | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/framework/core/src/net/connection/manager.cc b/framework/core/src/net/connection/manager.cc
index fe010a7..2706a87 100644
--- a/framework/core/src/net/connection/manager.cc
+++ b/framework/core/src/net/connection/manager.cc
@@ -258,12 +258,21 @@ bool Manager::start() {
 
 void Manager::stop() {
   // std::cout << "stop: " << this << std::endl;
-  auto running = impl_->running.exchange(false, std::memory_order_relaxed);
-  if (!running) return;
+  {
+    // No connection work is enqueued after this.
+    std::unique_lock<decltype(impl_->mutex)> lock{impl_->mutex};
+    auto running = impl_->running.exchange(false, std::memory_order_relaxed);
+    if (!running) return;
+  }
   if (setting_.name != "console") // console is kernel owner
     ENGINE->remove_net(setting_.name);
   off();
-  for (auto conn : impl_->connection_info.list) {
+  decltype(impl_->connection_info.list) list;
+  {
+    std::unique_lock<decltype(impl_->mutex)> lock{impl_->mutex};
+    list = impl_->connection_info.list;
+  }
+  for (auto conn : list) {
     if (conn && conn->valid()) conn->shutdown();
   }
 #ifndef PLAIN_NET_MANAGER_ENABLE_COROUTINE
-- 
2.43.0


From 1f39b36ebe825beba65c620f6b1a0ba0057fd6cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:20:36 +0000
Subject: [PATCH 34/73] fix: an interrupted or outdated wait does not end the
 thread of a manager

---
 framework/core/src/net/connection/epoll.cc  |  1 +
 framework/core/src/net/connection/select.cc | 23 +++++++++++++++------
 2 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/framework/core/src/net/connection/epoll.cc b/framework/core/src/net/connection/epoll.cc
index 36f8f60..2bf2a55 100644
--- a/framework/core/src/net/connection/epoll.cc
+++ b/framework/core/src/net/connection/epoll.cc
@@ -154,6 +154,7 @@ bool Epoll::work() noexcept {
 #ifdef PLAIN_EPOLL_ENABLE
   poll_wait(impl_->data, -1);
   if (impl_->data.result_event_count < 0) {
+    if (errno == EINTR) return true;
     LOG_ERROR << "error: " << impl_->data.result_event_count;
     return false;
   }
diff --git a/framework/core/src/net/connection/select.cc b/framework/core/src/net/connection/select.cc
index 0d682ac..ebecd83 100644
--- a/framework/core/src/net/connection/select.cc
+++ b/framework/core/src/net/connection/select.cc
@@ -53,17 +53,27 @@ struct Select::Impl {
 };
 
 void Select::Impl::select() noexcept {
-  if (max_fd == socket::kInvalidId) return;
-  read_fds.use = read_fds.full;
-  // write_fds.use = write_fds.full;
-  except_fds.use = except_fds.full;
+  socket::id_t max{socket::kInvalidId};
+  {
+    std::unique_lock lock{mutex};
+    max = max_fd;
+    read_fds.use = read_fds.full;
+    // write_fds.use = write_fds.full;
+    except_fds.use = except_fds.full;
+  }
+  if (max == socket::kInvalidId) return;
   if (select_timeout >= 0) {
     select_result = socket::select(
-      max_fd + 1, &read_fds.use, nullptr, &except_fds.use, &timeout);
+      max + 1, &read_fds.use, nullptr, &except_fds.use, &timeout);
   } else {
     select_result = socket::select(
-      max_fd + 1, &read_fds.use, nullptr, &except_fds.use, nullptr);
+      max + 1, &read_fds.use, nullptr, &except_fds.use, nullptr);
   }
+#if OS_UNIX || OS_MAC
+  // Interrupted, or a connection has been closed before the call.
+  if (select_result < 0 && (errno == EINTR || errno == EBADF))
+    select_result = 0;
+#endif
 }
 
 Select::Select(
@@ -121,6 +131,7 @@ void Select::handle_io() noexcept {
   try {
     foreach([this, listen_fd = listen_fd_](std::shared_ptr<Basic> conn){
       auto id = conn->socket()->id();
+      if (id == socket::kInvalidId) return; // Closed just now.
       if (FD_ISSET(id, &impl_->except_fds.use)) {
         LOG_ERROR << setting_.name << " connection has except: " << conn->id();
         conn->enqueue_work(WorkFlag::Except); // The work will remove it.
-- 
2.43.0


From 669fd432988216cb2b50f3fd3c4f8b95b1f92058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:56 +0000
Subject: [PATCH 35/73] fix: calling a function without result does not crash

---
 framework/core/src/net/connection/basic.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/framework/core/src/net/connection/basic.cc b/framework/core/src/net/connection/basic.cc
index 984743f..e00edf0 100644
--- a/framework/core/src/net/connection/basic.cc
+++ b/framework/core/src/net/connection/basic.cc
@@ -320,7 +320,7 @@ bool Basic::Impl::handle_rpc_request(
       (*p) << error;
       if (!e) {
         auto temp = std::get_if<std::shared_ptr<rpc::Packer>>(&r);
-        if (temp) (*p) << (*temp)->vector();
+        if (temp && *temp) (*p) << (*temp)->vector();
       }
       p->set_writeable(false);
       conn->send(p);
-- 
2.43.0


From 7224c8a09518dbd79d3ec37fdeb2852099b5b5f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:56 +0000
Subject: [PATCH 36/73] fix: the result of a call keeps its data

---
 framework/core/include/plain/net/rpc/unpacker.h | 4 ++++
 framework/core/src/net/connection/basic.cc      | 2 +-
 framework/core/src/net/rpc/unpacker.cc          | 6 ++++++
 3 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/framework/core/include/plain/net/rpc/unpacker.h b/framework/core/include/plain/net/rpc/unpacker.h
index cb2db54..76c65ba 100644
--- a/framework/core/include/plain/net/rpc/unpacker.h
+++ b/framework/core/include/plain/net/rpc/unpacker.h
@@ -25,6 +25,9 @@ class PLAIN_API Unpacker {
  public:
   Unpacker();
   Unpacker(const uint8_t *data, size_t size);
+  // The owner keeps the data.
+  Unpacker(
+    std::shared_ptr<const void> owner, const uint8_t *data, size_t size);
   ~Unpacker();
 
  public:
@@ -230,6 +233,7 @@ class PLAIN_API Unpacker {
  private:
   const uint8_t *data_{nullptr};
   const uint8_t *data_end_{nullptr};
+  std::shared_ptr<const void> owner_;
 
 };
 
diff --git a/framework/core/src/net/connection/basic.cc b/framework/core/src/net/connection/basic.cc
index e00edf0..4474c9e 100644
--- a/framework/core/src/net/connection/basic.cc
+++ b/framework/core/src/net/connection/basic.cc
@@ -356,7 +356,7 @@ bool Basic::Impl::handle_rpc_response(
     auto data = reinterpret_cast<const uint8_t *>(
       packet->data().data() + packet->offset());
     auto size = packet->data().size() - packet->offset();
-    std::get<1>(call).set_value(rpc::Unpacker(data, size));
+    std::get<1>(call).set_value(rpc::Unpacker(packet, data, size));
   } catch(...) {
     std::get<1>(call).set_exception(std::current_exception());
   }
diff --git a/framework/core/src/net/rpc/unpacker.cc b/framework/core/src/net/rpc/unpacker.cc
index 6296d9b..4909bee 100644
--- a/framework/core/src/net/rpc/unpacker.cc
+++ b/framework/core/src/net/rpc/unpacker.cc
@@ -11,6 +11,12 @@ Unpacker::Unpacker(const uint8_t *data, size_t size) :
 
 }
 
+Unpacker::Unpacker(
+  std::shared_ptr<const void> owner, const uint8_t *data, size_t size) :
+  data_{data}, data_end_{data + size}, owner_{owner} {
+
+}
+
 Unpacker::~Unpacker() = default;
 
 void Unpacker::unpack(int8_t &value) noexcept {
-- 
2.43.0


From 6c6c03d972ee1814c42203996a0fddc034b20ba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:56 +0000
Subject: [PATCH 37/73] fix: the table of calls is used by one thread at a time
 and forgets the answered ones

---
 framework/core/src/net/connection/basic.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/framework/core/src/net/connection/basic.cc b/framework/core/src/net/connection/basic.cc
index 4474c9e..24ab1c2 100644
--- a/framework/core/src/net/connection/basic.cc
+++ b/framework/core/src/net/connection/basic.cc
@@ -343,12 +343,16 @@ bool Basic::Impl::handle_rpc_response(
   (*packet) >> index;
   if (0 == index) return true; // No call(notify?).
   (*packet) >> error;
+  std::unique_lock<std::mutex> lock{mutex};
   auto it = callings.find(index);
   if (it == callings.end()) {
+    lock.unlock();
     LOG_WARN << "rpc response no calling: " << index << " error: " << error;
     return false;
   }
-  auto &call = it->second;
+  auto call = std::move(it->second);
+  callings.erase(it);
+  lock.unlock();
   try {
     if (error != std::to_underlying(ErrorCode::None)) {
       throw std::logic_error("error: " + std::to_string(error));
-- 
2.43.0


From cf96feddab38175b6db23b5b28634f88884e86c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:03 +0000
Subject: [PATCH 38/73] fix: a function is not called without all of its
 arguments

---
 framework/core/include/plain/net/rpc/dispatcher.h | 2 ++
 framework/core/src/net/rpc/dispatcher.cc          | 4 +++-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/framework/core/include/plain/net/rpc/dispatcher.h b/framework/core/include/plain/net/rpc/dispatcher.h
index 7cd642e..a24476f 100644
--- a/framework/core/include/plain/net/rpc/dispatcher.h
+++ b/framework/core/include/plain/net/rpc/dispatcher.h
@@ -60,6 +60,7 @@ class PLAIN_API Dispatcher {
       //enforce_arg_count(name, args_count, args.via.array.size);
       args_type args_real;
       args.unpack(args_real);
+      if (args.error_) return std::shared_ptr<Packer>{};
       call(func, args_real);
       return std::shared_ptr<Packer>{};
     }));
@@ -94,6 +95,7 @@ class PLAIN_API Dispatcher {
       //enforce_arg_count(name, args_count, args.via.array.size);
       args_type args_real;
       args.process(args_real);
+      if (args.error_) return std::shared_ptr<Packer>{};
       auto r = call(func, args_real);
       auto packer = std::make_shared<Packer>();
       packer->process(r);
diff --git a/framework/core/src/net/rpc/dispatcher.cc b/framework/core/src/net/rpc/dispatcher.cc
index 8bd79c2..dae3d0e 100644
--- a/framework/core/src/net/rpc/dispatcher.cc
+++ b/framework/core/src/net/rpc/dispatcher.cc
@@ -21,7 +21,9 @@ Dispatcher::dispatch(std::shared_ptr<packet::Basic> pack) {
   auto size = pack->data().size() - pack->offset();
   Unpacker unpacker(data, size);
 
-  return it->second(unpacker);
+  auto r = it->second(unpacker);
+  if (unpacker.error_) return unpacker.error_;
+  return r;
 }
 
 void Dispatcher::enforce_unique_name(const std::string &name) {
-- 
2.43.0


From a27f2af75ba273f04f0f49891c2f7b6a7c05785d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:03 +0000
Subject: [PATCH 39/73] fix: a called function that throws fails the call, not
 the process

---
 framework/core/src/net/rpc/dispatcher.cc | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/framework/core/src/net/rpc/dispatcher.cc b/framework/core/src/net/rpc/dispatcher.cc
index dae3d0e..2516a70 100644
--- a/framework/core/src/net/rpc/dispatcher.cc
+++ b/framework/core/src/net/rpc/dispatcher.cc
@@ -21,9 +21,15 @@ Dispatcher::dispatch(std::shared_ptr<packet::Basic> pack) {
   auto size = pack->data().size() - pack->offset();
   Unpacker unpacker(data, size);
 
-  auto r = it->second(unpacker);
-  if (unpacker.error_) return unpacker.error_;
-  return r;
+  try {
+    auto r = it->second(unpacker);
+    if (unpacker.error_) return unpacker.error_;
+    return r;
+  } catch (const std::exception &e) {
+    return Error{ErrorCode::RunTime, e.what()};
+  } catch (...) {
+    return Error{ErrorCode::RunTime};
+  }
 }
 
 void Dispatcher::enforce_unique_name(const std::string &name) {
-- 
2.43.0


From bb86bcc976ba94defd4a0fc57258b8b486dcee3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:03 +0000
Subject: [PATCH 40/73] fix: a call to a side without functions is answered

---
 framework/core/src/net/connection/basic.cc | 49 +++++++++++-----------
 1 file changed, 25 insertions(+), 24 deletions(-)

diff --git a/framework/core/src/net/connection/basic.cc b/framework/core/src/net/connection/basic.cc
index 24ab1c2..eee28e0 100644
--- a/framework/core/src/net/connection/basic.cc
+++ b/framework/core/src/net/connection/basic.cc
@@ -304,33 +304,34 @@ bool Basic::Impl::handle_rpc_request(
   auto m = manager.lock();
   if (!m) return false;
   auto dispatcher = m->rpc_dispatcher();
-  if (dispatcher) {
-    uint32_t index{0};
-    if (packet->is_call_request())
-      (*packet) >> index;
-    auto r = dispatcher->dispatch(packet);
-    auto e = get_error(r);
-    int32_t error = e ? e->code() : std::to_underlying(ErrorCode::None);
-    if (packet->is_call_request()) {
-      auto p = std::make_shared<packet::Basic>();
-      p->set_id(packet::kRpcResponseId);
-      p->set_writeable(true);
-      p->set_call_response(true);
-      (*p) << index;
-      (*p) << error;
-      if (!e) {
-        auto temp = std::get_if<std::shared_ptr<rpc::Packer>>(&r);
-        if (temp && *temp) (*p) << (*temp)->vector();
-      }
-      p->set_writeable(false);
-      conn->send(p);
-    } else if (e) { // Notify
-      LOG_ERROR << "rpc request error: " << error;
-    }
-  } else {
+  if (!dispatcher) {
     LOG_WARN << "rpc request unhandled, check you " <<
       m->setting_.name << " codec";
   }
+  uint32_t index{0};
+  if (packet->is_call_request())
+    (*packet) >> index;
+  error_or_t<std::shared_ptr<rpc::Packer>> r{
+    Error{ErrorCode::NetRpcFunctionNotFound}};
+  if (dispatcher) r = dispatcher->dispatch(packet);
+  auto e = get_error(r);
+  int32_t error = e ? e->code() : std::to_underlying(ErrorCode::None);
+  if (packet->is_call_request()) {
+    auto p = std::make_shared<packet::Basic>();
+    p->set_id(packet::kRpcResponseId);
+    p->set_writeable(true);
+    p->set_call_response(true);
+    (*p) << index;
+    (*p) << error;
+    if (!e) {
+      auto temp = std::get_if<std::shared_ptr<rpc::Packer>>(&r);
+      if (temp && *temp) (*p) << (*temp)->vector();
+    }
+    p->set_writeable(false);
+    conn->send(p);
+  } else if (e) { // Notify
+    LOG_ERROR << "rpc request error: " << error;
+  }
 
   return true;
 }
-- 
2.43.0


From c5295487af979c191c210d38aca3de14cdc42dd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:03 +0000
Subject: [PATCH 41/73] fix: the calls under way when a connection ends fail

---
 framework/core/src/net/connection/basic.cc   | 2 ++
 framework/core/src/net/connection/manager.cc | 7 +++++++
 2 files changed, 9 insertions(+)

diff --git a/framework/core/src/net/connection/basic.cc b/framework/core/src/net/connection/basic.cc
index eee28e0..b14d766 100644
--- a/framework/core/src/net/connection/basic.cc
+++ b/framework/core/src/net/connection/basic.cc
@@ -428,6 +428,7 @@ bool Basic::shutdown(int32_t how) noexcept {
   
 bool Basic::close() noexcept {
   std::unique_lock<std::mutex> lock{impl_->mutex};
+  impl_->callings.clear(); // No answers anymore.
   if (!impl_->socket->valid()) return true;
   return impl_->socket->close();
 }
@@ -546,6 +547,7 @@ bool Basic::send_call(
   uint32_t index, const std::string &func_name,
   std::shared_ptr<std::promise<rpc::Unpacker>> promise) {
   std::unique_lock<std::mutex> lock{impl_->mutex};
+  if (!impl_->socket->valid()) return false;
   packet->set_call_request(true);
   auto r = impl_->write(packet);
   if (r && static_cast<bool>(promise)) {
diff --git a/framework/core/src/net/connection/manager.cc b/framework/core/src/net/connection/manager.cc
index 2706a87..119ab6f 100644
--- a/framework/core/src/net/connection/manager.cc
+++ b/framework/core/src/net/connection/manager.cc
@@ -292,6 +292,13 @@ void Manager::stop() {
 #endif
   std::this_thread::sleep_for(1ms);
   impl_->executor->shutdown();
+  {
+    std::unique_lock<decltype(impl_->mutex)> lock{impl_->mutex};
+    list = impl_->connection_info.list;
+  }
+  for (auto conn : list) {
+    if (conn) conn->close(); // Ends the calls under way.
+  }
 }
 
 bool Manager::running() const noexcept {
-- 
2.43.0


From 45ec9b08c5adf9992a48bb75801e11e54166f112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:19 +0000
Subject: [PATCH 42/73] fix: a connection with a pending error is closed

---
 framework/core/src/net/connection/basic.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/framework/core/src/net/connection/basic.cc b/framework/core/src/net/connection/basic.cc
index b14d766..1519b35 100644
--- a/framework/core/src/net/connection/basic.cc
+++ b/framework/core/src/net/connection/basic.cc
@@ -429,7 +429,7 @@ bool Basic::shutdown(int32_t how) noexcept {
 bool Basic::close() noexcept {
   std::unique_lock<std::mutex> lock{impl_->mutex};
   impl_->callings.clear(); // No answers anymore.
-  if (!impl_->socket->valid()) return true;
+  // Also with a pending error(then it is not valid).
   return impl_->socket->close();
 }
   
-- 
2.43.0


From 01e2ff1739d78aa19f9363223420417cb7412676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:44 +0000
Subject: [PATCH 43/73] fix: what was logged before a logger is stopped is
 written

---
 framework/core/src/basic/async_logger.cc | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/framework/core/src/basic/async_logger.cc b/framework/core/src/basic/async_logger.cc
index 0e34b14..ea6e66b 100644
--- a/framework/core/src/basic/async_logger.cc
+++ b/framework/core/src/basic/async_logger.cc
@@ -172,7 +172,10 @@ void AsyncLogger::Impl::start() {
 }
 
 void AsyncLogger::Impl::stop() {
-  running_ = false;
+  {
+    std::unique_lock<std::mutex> auto_lock{mutex_};
+    running_ = false;
+  }
   cond_.notify_one();
   thread_.join();
 }
@@ -194,20 +197,21 @@ void AsyncLogger::Impl::append(const std::string_view &log) {
 }
 
 void AsyncLogger::Impl::thread_handle() {
-  assert(true == running_);
   File file(name_, roll_size_, false);
   BufferPtr buffer1{std::make_unique<Buffer>()};
   BufferPtr buffer2{std::make_unique<Buffer>()};
   BufferVector write_buffers;
   write_buffers.reserve(16);
-  while (running_) {
+  auto more{true};
+  while (more) {
     assert(buffer1 && 0 == buffer1->read_avail());
     assert(buffer2 && 0 == buffer2->read_avail());
     {
       std::unique_lock<std::mutex> auto_lock{mutex_};
-      if (buffers_.empty()) {
+      if (running_ && buffers_.empty()) {
         cond_.wait_for(auto_lock, flush_interval_ * 1000ms);
       }
+      more = running_; // The last round takes all that was logged before stop.
       buffers_.emplace_back(std::move(current_buffer_));
       current_buffer_ = std::move(buffer1);
       write_buffers.swap(buffers_);
-- 
2.43.0


From a1d959654b4a198580818b5a846fa233ba3a75bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:39 +0000
Subject: [PATCH 44/73] fix: memory of a pool is not given out twice or lost

The two counters of a leaf were changed one after the other, the counter of
free memory was not restored when there was too little, and the header of a
returned block was cleared when it could belong to somebody else already.
---
 .../core/include/plain/sys/memory/pool.h      | 93 +++++++++----------
 1 file changed, 46 insertions(+), 47 deletions(-)

diff --git a/framework/core/include/plain/sys/memory/pool.h b/framework/core/include/plain/sys/memory/pool.h
index e7807cc..82ec20b 100644
--- a/framework/core/include/plain/sys/memory/pool.h
+++ b/framework/core/include/plain/sys/memory/pool.h
@@ -70,35 +70,33 @@ public:
       functionality will remain operational.
     */
     do {
-      const int32_t available =
-        leaf_array_[leaf_id].available.load(std::memory_order_acquire);
+      // we reserve memory
+      // (the buffer is distributed from the end with a bite):
+      auto &leaf = leaf_array_[leaf_id];
+      auto state = leaf.state.load(std::memory_order_acquire);
+      while (available_of(state) >= real_size
+          && !leaf.state.compare_exchange_weak(
+            state, state - real_size, std::memory_order_acq_rel)) {}
+      const int32_t available = available_of(state);
       // std::cout << "available: " << available << std::endl;
       if (available <= 0) break;
       if (available >= real_size) {
-        // we reserve memory 
-        // (the buffer is distributed from the end with a bite):
-        const int32_t available_after =
-          leaf_array_[leaf_id].available.fetch_sub(
-              real_size, std::memory_order_acq_rel) - real_size;
-        // and if successful, a positive number should have returned,
-        // otherwise we would have broken through the bottom of the buffer:
-        if (available_after >= 0) {
-          // the resulting distribution address is easy to obtain, because it
-          // starts immediately after "available", since addressing from &[0]
-          // then this is "buf + available":
-          re = leaf_array_[leaf_id].buf + available_after;
-          if (available_after < kAverageAllocation) {
-            // Let's tell the rest of the threads to use a different
-            // memory page:
-            const int32_t next_id = start_leaf + 1;
-            if (next_id >= kLeafCount) {
-              cur_leaf_.store(0, std::memory_order_release);
-            } else {
-              cur_leaf_.store(next_id, std::memory_order_release);
-            }
+        const int32_t available_after = available - real_size;
+        // the resulting distribution address is easy to obtain, because it
+        // starts immediately after "available", since addressing from &[0]
+        // then this is "buf + available":
+        re = leaf.buf + available_after;
+        if (available_after < kAverageAllocation) {
+          // Let's tell the rest of the threads to use a different
+          // memory page:
+          const int32_t next_id = start_leaf + 1;
+          if (next_id >= kLeafCount) {
+            cur_leaf_.store(0, std::memory_order_release);
+          } else {
+            cur_leaf_.store(next_id, std::memory_order_release);
           }
-          break; // finished the search, return the allocation pointer
         }
+        break; // finished the search, return the allocation pointer
       }
       ++leaf_id;
       if (kLeafCount == leaf_id) { leaf_id = 0; }
@@ -154,21 +152,19 @@ public:
         && leaf_array_[head->leaf_id].buf) {
       // ok this is my allocation
       const int32_t real_size = head->size + sizeof(AllocHeader);
-      const int32_t deallocated =
-        leaf_array_[head->leaf_id].deallocated.fetch_add(
-            real_size, std::memory_order_acq_rel) + real_size;
-      int32_t available =
-        leaf_array_[head->leaf_id].available.load(std::memory_order_acquire);
-      if (deallocated == (kLeafSizeBytes - available)) {
-        // everything that was allocated is now returned, we will try, carefully, reset the Leaf
-        if (leaf_array_[head->leaf_id].available.compare_exchange_strong(
-              available, kLeafSizeBytes)) {
-          leaf_array_[head->leaf_id].deallocated -= deallocated;
-        }
-      }
-
-      // Cleanup so that unique TAG_my_alloc will be keep unique in RAM:
+      auto &leaf = leaf_array_[head->leaf_id];
+      // Cleanup so that unique TAG_my_alloc will be keep unique in RAM
+      // (before the memory can be allocated again):
       memset((char *)head, 0, sizeof(AllocHeader));
+      auto state = leaf.state.load(std::memory_order_acquire);
+      uint64_t after{0};
+      do {
+        after = state + (static_cast<uint64_t>(real_size) << 32);
+        // everything that was allocated is now returned: reset the Leaf
+        if (deallocated_of(after) == kLeafSizeBytes - available_of(after))
+          after = kLeafSizeBytes;
+      } while (!leaf.state.compare_exchange_weak(
+            state, after, std::memory_order_acq_rel));
     } else if ((uint64_t)kTagOSMalloc == head->tag_this
         && kOSMallocID == head->leaf_id
         && head->size > 0) {
@@ -277,14 +273,11 @@ public:
     for (int32_t i = 0; i < kLeafCount; ++i) {
       if (buf_array[i]) {
         leaf_array_[i].buf = static_cast<char *>(buf_array[i]);
-        leaf_array_[i].available.store(
+        leaf_array_[i].state.store(
             kLeafSizeBytes, std::memory_order_relaxed);
-        leaf_array_[i].deallocated.store(0, std::memory_order_relaxed);
       } else {
         leaf_array_[i].buf = nullptr;
-        leaf_array_[i].available.store(0, std::memory_order_relaxed);
-        leaf_array_[i].deallocated.store(
-            kLeafSizeBytes, std::memory_order_relaxed);
+        leaf_array_[i].state.store(0, std::memory_order_relaxed);
       }
     }
     std::atomic_thread_fence(std::memory_order_release);
@@ -439,11 +432,17 @@ public:
 private:
   struct leaf_t {
     char *buf;
-    // available == offset
-    std::atomic<int32_t> available{ kLeafSizeBytes };
-    // control of deallocations:
-    std::atomic<int32_t> deallocated{ 0 };
+    // low half: available == offset
+    // high half: control of deallocations
+    // (in one word: they only make sense together)
+    std::atomic<uint64_t> state{ kLeafSizeBytes };
   };
+  static int32_t available_of(uint64_t state) {
+    return static_cast<int32_t>(state & 0xFFFFFFFF);
+  }
+  static int32_t deallocated_of(uint64_t state) {
+    return static_cast<int32_t>(state >> 32);
+  }
 
   /*
    * AllocHeader
-- 
2.43.0


From ab1b2932043b2b4a54925f2b72ad72295a4b74b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:39 +0000
Subject: [PATCH 45/73] fix: a full leaf does not keep a pool from using the
 next one

---
 framework/core/include/plain/sys/memory/pool.h | 1 -
 1 file changed, 1 deletion(-)

diff --git a/framework/core/include/plain/sys/memory/pool.h b/framework/core/include/plain/sys/memory/pool.h
index 82ec20b..8c17d21 100644
--- a/framework/core/include/plain/sys/memory/pool.h
+++ b/framework/core/include/plain/sys/memory/pool.h
@@ -79,7 +79,6 @@ public:
             state, state - real_size, std::memory_order_acq_rel)) {}
       const int32_t available = available_of(state);
       // std::cout << "available: " << available << std::endl;
-      if (available <= 0) break;
       if (available >= real_size) {
         const int32_t available_after = available - real_size;
         // the resulting distribution address is easy to obtain, because it
-- 
2.43.0


From 7bf8c6a1e7e68f9b5930b928eea25c7a04709ace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:39 +0000
Subject: [PATCH 46/73] fix: a request larger than a pool can count fails

---
 framework/core/include/plain/sys/memory/pool.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/framework/core/include/plain/sys/memory/pool.h b/framework/core/include/plain/sys/memory/pool.h
index 8c17d21..445b5cc 100644
--- a/framework/core/include/plain/sys/memory/pool.h
+++ b/framework/core/include/plain/sys/memory/pool.h
@@ -53,6 +53,8 @@ public:
    */
   void* malloc(std::size_t allocation_size) {
     // Allocation will include a header with service information:
+    if (allocation_size > std::numeric_limits<int32_t>::max() / 2)
+      return nullptr;
     const int32_t real_size = static_cast<int32_t>(
         allocation_size + sizeof(AllocHeader));
     // Starting leaf for finding the allocation place:
-- 
2.43.0


From 763b5e4ac4ab2e1fb5b8ee154abc65f44231e409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:39 +0000
Subject: [PATCH 47/73] fix: an empty block that a pool took from the system
 can be returned

---
 framework/core/include/plain/sys/memory/pool.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/framework/core/include/plain/sys/memory/pool.h b/framework/core/include/plain/sys/memory/pool.h
index 445b5cc..19acf6a 100644
--- a/framework/core/include/plain/sys/memory/pool.h
+++ b/framework/core/include/plain/sys/memory/pool.h
@@ -168,7 +168,7 @@ public:
             state, after, std::memory_order_acq_rel));
     } else if ((uint64_t)kTagOSMalloc == head->tag_this
         && kOSMallocID == head->leaf_id
-        && head->size > 0) {
+        && head->size >= 0) {
       // ok, to OS malloc
       // Cleanup so that unique TAG_my_alloc will be keep unique in RAM:
       memset((char *)head,  0,  sizeof(AllocHeader));
@@ -233,7 +233,7 @@ public:
       } // elseif (!buf
     } else if (kTagOSMalloc == head->tag_this
          && kOSMallocID == head->leaf_id
-         && head->size > 0) {
+         && head->size >= 0) {
       // Let's check whether it has gone beyond the allocation limits:
       char *start = static_cast<char *>(base_alloc_ptr);
       char *end = start + head->size;
-- 
2.43.0


From 91a796bc993e2902d8544b1abfa63a5fefa3e004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:39 +0000
Subject: [PATCH 48/73] fix: memory of a pool is aligned for every type

---
 .../core/include/plain/sys/memory/pool.h      | 21 ++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/framework/core/include/plain/sys/memory/pool.h b/framework/core/include/plain/sys/memory/pool.h
index 19acf6a..25cb2eb 100644
--- a/framework/core/include/plain/sys/memory/pool.h
+++ b/framework/core/include/plain/sys/memory/pool.h
@@ -55,8 +55,8 @@ public:
     // Allocation will include a header with service information:
     if (allocation_size > std::numeric_limits<int32_t>::max() / 2)
       return nullptr;
-    const int32_t real_size = static_cast<int32_t>(
-        allocation_size + sizeof(AllocHeader));
+    const int32_t real_size = real_size_of(
+        static_cast<int32_t>(allocation_size));
     // Starting leaf for finding the allocation place:
     const int32_t start_leaf = static_cast<int32_t>(
         cur_leaf_.load(std::memory_order_relaxed));
@@ -152,7 +152,7 @@ public:
         && ((uint64_t)this) == (head->tag_this - head->leaf_id)
         && leaf_array_[head->leaf_id].buf) {
       // ok this is my allocation
-      const int32_t real_size = head->size + sizeof(AllocHeader);
+      const int32_t real_size = real_size_of(head->size);
       auto &leaf = leaf_array_[head->leaf_id];
       // Cleanup so that unique TAG_my_alloc will be keep unique in RAM
       // (before the memory can be allocated again):
@@ -162,8 +162,8 @@ public:
       do {
         after = state + (static_cast<uint64_t>(real_size) << 32);
         // everything that was allocated is now returned: reset the Leaf
-        if (deallocated_of(after) == kLeafSizeBytes - available_of(after))
-          after = kLeafSizeBytes;
+        if (deallocated_of(after) == kLeafUsable - available_of(after))
+          after = kLeafUsable;
       } while (!leaf.state.compare_exchange_weak(
             state, after, std::memory_order_acq_rel));
     } else if ((uint64_t)kTagOSMalloc == head->tag_this
@@ -275,7 +275,7 @@ public:
       if (buf_array[i]) {
         leaf_array_[i].buf = static_cast<char *>(buf_array[i]);
         leaf_array_[i].state.store(
-            kLeafSizeBytes, std::memory_order_relaxed);
+            kLeafUsable, std::memory_order_relaxed);
       } else {
         leaf_array_[i].buf = nullptr;
         leaf_array_[i].state.store(0, std::memory_order_relaxed);
@@ -431,12 +431,19 @@ public:
 
 #endif
 private:
+  // All blocks are aligned as those of malloc.
+  static constexpr int32_t kAlign = alignof(std::max_align_t);
+  static constexpr int32_t kLeafUsable = kLeafSizeBytes / kAlign * kAlign;
+  static int32_t real_size_of(int32_t size) {
+    return (size + static_cast<int32_t>(sizeof(AllocHeader)) + kAlign - 1)
+      / kAlign * kAlign;
+  }
   struct leaf_t {
     char *buf;
     // low half: available == offset
     // high half: control of deallocations
     // (in one word: they only make sense together)
-    std::atomic<uint64_t> state{ kLeafSizeBytes };
+    std::atomic<uint64_t> state{ kLeafUsable };
   };
   static int32_t available_of(uint64_t state) {
     return static_cast<int32_t>(state & 0xFFFFFFFF);
-- 
2.43.0


From 9b1edec75eaf3788dc670ae471facfa0b21d6c02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:42:36 +0000
Subject: [PATCH 49/73] fix: a task queue is not looked at while it is being
 changed

---
 .../core/include/plain/basic/task_queue.h     | 25 ++++++++++++-------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/framework/core/include/plain/basic/task_queue.h b/framework/core/include/plain/basic/task_queue.h
index 9cf7680..19ea335 100644
--- a/framework/core/include/plain/basic/task_queue.h
+++ b/framework/core/include/plain/basic/task_queue.h
@@ -19,17 +19,10 @@ class TaskQueue {
 
 public:
    void work_one() {
-     std::function<void()> task;
-     {
-       std::unique_lock<std::mutex> lock(queue_mutex_);
-       if (tasks_.empty()) return;
-       task = std::move(tasks_.front());
-       tasks_.pop();
-     }
-     task();
+     try_work_one();
    }
    void work_all() {
-     while (!tasks_.empty()) work_one();
+     while (try_work_one()) {}
    }
 
  public:
@@ -62,6 +55,20 @@ public:
      return res;
    }
 
+ private:
+   // Returns false if there was nothing to do.
+   bool try_work_one() {
+     std::function<void()> task;
+     {
+       std::unique_lock<std::mutex> lock(queue_mutex_);
+       if (tasks_.empty()) return false;
+       task = std::move(tasks_.front());
+       tasks_.pop();
+     }
+     task();
+     return true;
+   }
+
  private:
    // The task queue
    std::queue<std::function<void()>> tasks_;
-- 
2.43.0


From caaee2e68ac70fb8c90ccfc6530634d739348e85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:49:20 +0000
Subject: [PATCH 50/73] fix: tasks, timers and promises accept arguments for
 their function

---
 framework/core/include/plain/basic/bind.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/framework/core/include/plain/basic/bind.h b/framework/core/include/plain/basic/bind.h
index f61e6fd..703bf23 100644
--- a/framework/core/include/plain/basic/bind.h
+++ b/framework/core/include/plain/basic/bind.h
@@ -26,7 +26,7 @@ template <typename F, typename ...Args>
 auto bind(F &&function, Args &&...args) {
   constexpr static auto inti = std::is_nothrow_invocable_v<F, Args...>;
   return [function = std::forward<F>(function),
-         tuple = std::make_tuple(std::forward(args)...)]()
+         tuple = std::make_tuple(std::forward<Args>(args)...)]()
            mutable noexcept(inti) -> decltype(auto) {
     return std::apply(function, tuple);
   };
-- 
2.43.0


From 781bcf8f497889b18e96d095455dea726bc972ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:56:37 +0000
Subject: [PATCH 51/73] fix: an ini file with empty or long lines, repeated
 sections or long values is read safely, and again after closing

---
 framework/core/src/file/ini.cc | 48 ++++++++++++++++++++--------------
 1 file changed, 29 insertions(+), 19 deletions(-)

diff --git a/framework/core/src/file/ini.cc b/framework/core/src/file/ini.cc
index c92fec6..d92e55c 100644
--- a/framework/core/src/file/ini.cc
+++ b/framework/core/src/file/ini.cc
@@ -27,8 +27,9 @@ Ini::~Ini() {
 }
 
 bool Ini::open(const char *filename) noexcept {
+  close();
   buffer_ = new char[INI_VALUE_MAX];
-  bufferlength_max_ += INI_VALUE_MAX; 
+  bufferlength_max_ = INI_VALUE_MAX; 
   strncpy(filename_, filename, FILENAME_MAX - 1);
   fstream_.open(filename, std::ios_base::in);
   if (!fstream_) {
@@ -37,14 +38,15 @@ bool Ini::open(const char *filename) noexcept {
     AssertEx(false, msg);
     return false;
   }
-  char buffer[512] = {0};
-  while (fstream_.getline(buffer, 512)) {
+  std::string line;
+  while (std::getline(fstream_, line)) {
+    char *buffer = line.data();
     _trimstring(buffer);
     char *section;
     if(_parsesection(buffer, &section)) {
-      current_section_ = new valueset_t;
-      sectiondata_.insert(
-          std::make_pair(std::string(section), current_section_));
+      auto &data = sectiondata_[section];
+      if (data == nullptr) data = new valueset_t;
+      current_section_ = data;
       continue;
     }
     char *key = nullptr, *value = nullptr;
@@ -54,6 +56,7 @@ bool Ini::open(const char *filename) noexcept {
         snprintf(
           msg, 128, "[file] format invalid! file: %s, key: %s", filename, key);
         AssertEx(false, msg);
+        continue;
       }
       int position = _add_bufferstring(value);
       current_section_->insert(std::make_pair(std::string(key), position));
@@ -64,7 +67,8 @@ bool Ini::open(const char *filename) noexcept {
 }
 
 void Ini::close() noexcept {
-  if (fstream_) fstream_.close();
+  if (fstream_.is_open()) fstream_.close();
+  fstream_.clear();
   safe_delete_array(buffer_);
   sectionset_t::iterator iter = sectiondata_.begin();
   for (; iter != sectiondata_.end(); iter++) {
@@ -72,6 +76,7 @@ void Ini::close() noexcept {
     safe_delete(_section);
   }
   sectiondata_.clear();
+  current_section_ = nullptr;
   bufferlength_ = 0;
   bufferlength_max_ = 0;
   memset(filename_, 0, FILENAME_MAX);
@@ -117,11 +122,13 @@ bool Ini::getstring(
   const char *section, const char *key, char *str, int32_t size,
   const char *_default) {
   if (_getstring(section, key, str, size)) return true;
-  strncpy(str, _default, size);
-  int32_t _size = 
-    static_cast<int32_t>(strlen(_default)) > size - 1 ? size - 1 : 
-    static_cast<int32_t>(strlen(_default));
-  str[_size] = 0;
+  if (size > 0) {
+    strncpy(str, _default, size);
+    int32_t _size = 
+      static_cast<int32_t>(strlen(_default)) > size - 1 ? size - 1 : 
+      static_cast<int32_t>(strlen(_default));
+    str[_size] = 0;
+  }
   char msg[5120] = {0};
   snprintf(
     msg, sizeof(msg) - 1, "[ini] invalid key! file: %s, section: %s, key: %s", 
@@ -194,10 +201,11 @@ bool Ini::_getstring(
     if (it2 == _section->end()) return false;
     int position = it2->second;
     char *value = get_bufferstring(position);
+    if (size <= 0) return true;
     size_t valuelength = strlen(value);
-    safecopy(str, value, valuelength + 1);
     size_t _size = 
       valuelength > static_cast<size_t>(size - 1) ? size - 1 : valuelength;
+    memcpy(str, value, _size);
     str[_size] = 0;
     return true;
   }
@@ -218,9 +226,9 @@ void Ini::_trimstring(char *buffer) {
       break;
     }
   }
-  for (i = strlen(buffer) - 1; i > 0; --i) {
-    if (' '== buffer[i] || '\t' == buffer[i]) {
-      buffer[i] = 0;
+  for (i = strlen(buffer); i > 1; --i) {
+    if (' '== buffer[i - 1] || '\t' == buffer[i - 1]) {
+      buffer[i - 1] = 0;
     } else {
       break;
     }
@@ -250,9 +258,11 @@ bool Ini::_parsekey(char *buffer, char **key, char **value) {
 }
 
 void Ini::_buffer_resize() {
+  auto buffer = new char[bufferlength_max_ * 2];
+  memcpy(buffer, buffer_, bufferlength_);
+  safe_delete_array(buffer_);
+  buffer_ = buffer;
   bufferlength_max_ *= 2;
-  buffer_ = (char*)realloc(buffer_, bufferlength_max_);
-  if (is_null(buffer_)) Assert(false);
 }
 
 char *Ini::get_bufferstring(int32_t position) {
@@ -263,7 +273,7 @@ char *Ini::get_bufferstring(int32_t position) {
 int32_t Ini::_add_bufferstring(char *str) {
   int32_t position = 0;
   size_t size = strlen(str);
-  if (bufferlength_ + static_cast<int32_t>(size + 1) >= bufferlength_max_) 
+  while (bufferlength_ + static_cast<int32_t>(size + 1) >= bufferlength_max_) 
     _buffer_resize();
   memcpy(buffer_ + bufferlength_, str, size + 1);
   position = bufferlength_;
-- 
2.43.0


From 337fb12804dfa26aa40ea5497df830b57e3ad48e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:56:37 +0000
Subject: [PATCH 52/73] fix: Ini::get compiles and returns numbers and strings

---
 framework/core/include/plain/file/ini.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/framework/core/include/plain/file/ini.h b/framework/core/include/plain/file/ini.h
index 4fcad71..a43f8ed 100644
--- a/framework/core/include/plain/file/ini.h
+++ b/framework/core/include/plain/file/ini.h
@@ -53,7 +53,8 @@ class PLAIN_API Ini {
   T get(
     std::string_view section, std::string_view key, T _default = {}) noexcept {
     T r{};
-    if (!_get<T>(section.data(), key.data(), r)) return _default;
+    if (!_get(std::string{section}.c_str(), std::string{key}.c_str(), r))
+      return _default;
     return r;
   }
 
@@ -73,7 +74,12 @@ class PLAIN_API Ini {
   bool _get(const char *section, const char *key, float &result);
   bool _get(
     const char *section, const char *key, std::string &result) noexcept {
-    return _getstring(section, key, result.data(), result.capacity() - 1);
+    auto it = sectiondata_.find(section);
+    if (it == sectiondata_.end()) return false;
+    auto it2 = it->second->find(key);
+    if (it2 == it->second->end()) return false;
+    result = get_bufferstring(it2->second);
+    return true;
   }
   bool _getstring(
     const char *section, const char *key, char *str, int32_t size) noexcept;
-- 
2.43.0


From e2cb186ca8094544e48941e47551e285c62ab5ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:58:18 +0000
Subject: [PATCH 53/73] fix: a table opened twice, large tables, cells and
 indexes out of range and of other columns

---
 framework/core/include/plain/file/tab.h |  1 +
 framework/core/src/file/tab.cc          | 46 +++++++++++++++++--------
 framework/core/src/sys/assert.cc        | 12 +++----
 3 files changed, 38 insertions(+), 21 deletions(-)

diff --git a/framework/core/include/plain/file/tab.h b/framework/core/include/plain/file/tab.h
index 8598cc1..d8c1ab7 100644
--- a/framework/core/include/plain/file/tab.h
+++ b/framework/core/include/plain/file/tab.h
@@ -102,6 +102,7 @@ class PLAIN_API Tab {
   int32_t index_column_{0};
 
  private:
+  void clear();
   bool open_from_memory_text(
     const char *memory, const char *end, const char *filename = nullptr);
   bool open_from_memory_binary(
diff --git a/framework/core/src/file/tab.cc b/framework/core/src/file/tab.cc
index 91ff2c1..1d0f299 100644
--- a/framework/core/src/file/tab.cc
+++ b/framework/core/src/file/tab.cc
@@ -15,10 +15,19 @@ Tab::Tab(uint32_t id) :
 }
 
 Tab::~Tab() {
-  if (!is_null(string_buffer_)) {
-    delete[] string_buffer_;
-    string_buffer_ = nullptr;
-  }
+  clear();
+}
+
+void Tab::clear() {
+  safe_delete_array(string_buffer_);
+  string_buffer_size_ = 0;
+  record_number_ = 0;
+  field_number_ = 0;
+  type_.clear();
+  data_buffer_.clear();
+  fieldnames_.clear();
+  hash_index_.clear();
+  index_column_ = INDEX_INVALID;
 }
 
 bool Tab::open_from_txt(const char *filename) {
@@ -42,6 +51,7 @@ bool Tab::open_from_txt(const char *filename) {
 bool Tab::open_from_memory(
   const char *memory, const char *end, const char *filename) {
   bool result = true;
+  clear();
   if (end - memory >= static_cast<int32_t>(sizeof(file_head_t)) && 
       *((uint32_t*)memory) == FILE_DATABASE_INDENTIFY) {
     result = open_from_memory_binary(memory, end, filename);
@@ -59,7 +69,9 @@ const Tab::field_data* Tab::search_index_equal(int32_t index) const {
 
 const char *Tab::get_fieldname(int32_t index) {
   const char *name = nullptr;
-  Assert(index >= 0 && index <= field_number_);
+  Assert(index >= 0 && index < field_number_);
+  if (index < 0 || index >= static_cast<int32_t>(fieldnames_.size()))
+    return name;
   name = fieldnames_[index].c_str();
   return name;
 }
@@ -77,21 +89,23 @@ int32_t Tab::get_fieldindex(const char *name) {
 }
 
 uint8_t Tab::get_fieldtype(int32_t index) {
-  Assert(index >= 0 && index <= field_number_);
+  Assert(index >= 0 && index < field_number_);
   uint8_t result = static_cast<uint8_t>(type_[index]);
   return result;
 }
 
 const Tab::field_data *
 Tab::search_position(int32_t line, int32_t column) const {
-  int32_t position = line * get_field_number() + column;
-  if (line < 0 || position > static_cast<int32_t>(data_buffer_.size())) {
+  size_t position =
+    static_cast<size_t>(line) * get_field_number() + column;
+  if (line < 0 || line >= record_number_ ||
+      column < 0 || column >= field_number_) {
     char temp[256];
     memset(temp, '\0', sizeof(temp));
     snprintf(temp, 
              sizeof(temp) - 1, 
              "plain_file::Tab::search_position is failed,"
-             " position out for range[line:%d, column:%d] position:%d",
+             " position out for range[line:%d, column:%d] position:%zu",
              line,
              column,
              position);
@@ -107,7 +121,7 @@ Tab::search_position(int32_t line, int32_t column) const {
 
 const Tab::field_data *
 Tab::search_first_column_equal(int32_t column, const field_data &value) const {
-  if (column < 0 || column > field_number_) return nullptr;
+  if (column < 0 || column >= field_number_) return nullptr;
   field_type_enum type = type_[column];
   int32_t i;
   for (i = 0; i < record_number_; ++i) {
@@ -141,25 +155,27 @@ int32_t Tab::get_record_number() const {
 }
 
 void Tab::create_index(int32_t column, const char *filename) {
-  if (column < 0 || column > field_number_ || index_column_ == column) return;
+  if (column < 0 || column >= field_number_ || index_column_ == column) return;
   hash_index_.clear();
+  index_column_ = column;
   int32_t i;
   for (i = 0; i < record_number_; ++i) {
     field_data* _field_data = &(data_buffer_[i * field_number_]);
-    field_hashmap::iterator it_find = hash_index_.find(_field_data->int_value);
+    const auto value = data_buffer_[i * field_number_ + column].int_value;
+    field_hashmap::iterator it_find = hash_index_.find(value);
     if (it_find != hash_index_.end()) {
       char temp[256];
       memset(temp, '\0', sizeof(temp));
       snprintf(
         temp, sizeof(temp) - 1, "[%s]multi index at line: %d(smae value: %d)", 
-        filename, i + 1, _field_data->int_value);
+        filename, i + 1, value);
 #ifdef _plain_THROW_EXCEPTION_AS_STD_STRING
       throw std::string(temp);
 #else
       AssertEx(false, temp);
 #endif
     }
-    hash_index_.insert(std::make_pair(_field_data->int_value, _field_data));
+    hash_index_.insert(std::make_pair(value, _field_data));
   }
 }
 
@@ -323,7 +339,7 @@ bool Tab::open_from_memory_text(
   }
 
   //relocate string block
-  uint16_t m, n;
+  int32_t m, n;
   for (m = 0; m < field_number; ++m) {
     if (type_[m] != kTypeString) continue;
     for (n = 0; n < record_number; ++n) {
diff --git a/framework/core/src/sys/assert.cc b/framework/core/src/sys/assert.cc
index 6d61a96..f76879d 100644
--- a/framework/core/src/sys/assert.cc
+++ b/framework/core/src/sys/assert.cc
@@ -29,9 +29,9 @@ void __assert__(
   const char *file, unsigned int line, const char *func, const char *expr) {
   char temp[1024] = {0};
 #if OS_UNIX || OS_MAC //换个格式
-  sprintf(temp, "[%s][%d][%s][%s]\n", file, line, func, expr);
+  snprintf(temp, sizeof(temp), "[%s][%d][%s][%s]\n", file, line, func, expr);
 #else
-  sprintf(temp, "[%s][%d][%s][%s]", file, line, func, expr);
+  snprintf(temp, sizeof(temp), "[%s][%d][%s][%s]", file, line, func, expr);
 #endif
   __show__(temp);
 }
@@ -41,9 +41,9 @@ void __assertex__(
   const char *msg) {
   char temp[1024] = {0};
 #if OS_UNIX || OS_MAC
-  sprintf(temp, "[%s][%d][%s][%s]\n[%s]\n", file, line, func, expr, msg);
+  snprintf(temp, sizeof(temp), "[%s][%d][%s][%s]\n[%s]\n", file, line, func, expr, msg);
 #else
-  sprintf(temp, "[%s][%d][%s][%s]\n[%s]", file, line, func, expr, msg);
+  snprintf(temp, sizeof(temp), "[%s][%d][%s][%s]\n[%s]", file, line, func, expr, msg);
 #endif
   __show__(temp);
 }
@@ -53,9 +53,9 @@ void __assertspecial__(
   const char *msg) {
   char temp[1024] = {0};
 #if OS_UNIX || OS_MAC
-  sprintf(temp, "S[%s][%d][%s][%s]\n[%s]\n", file, line, func, expr, msg) ;
+  snprintf(temp, sizeof(temp), "S[%s][%d][%s][%s]\n[%s]\n", file, line, func, expr, msg) ;
 #else
-  sprintf(temp, "S[%s][%d][%s][%s]\n[%s]", file, line, func, expr, msg ) ;
+  snprintf(temp, sizeof(temp), "S[%s][%d][%s][%s]\n[%s]", file, line, func, expr, msg ) ;
 #endif
   __show__(temp) ;
 }
-- 
2.43.0


From 6047400e0fe513607d72d51edc05b94c51469469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:59:26 +0000
Subject: [PATCH 54/73] fix: a table saved as binary is read back as it was

---
 framework/core/src/file/tab.cc | 64 +++++++++++++++++++++-------------
 1 file changed, 40 insertions(+), 24 deletions(-)

diff --git a/framework/core/src/file/tab.cc b/framework/core/src/file/tab.cc
index 1d0f299..e1cf388 100644
--- a/framework/core/src/file/tab.cc
+++ b/framework/core/src/file/tab.cc
@@ -357,11 +357,21 @@ bool Tab::open_from_memory_binary(
   file_head_t file_head;
   memcpy(&file_head, _memory, sizeof(file_head_t));
   if (file_head.identify != FILE_DATABASE_INDENTIFY) return false;
+  if (file_head.field_number <= 0 || file_head.record_number < 0 ||
+      file_head.string_block_size <= 0) {
+    return false;
+  }
   //check memory size
-  if (sizeof(file_head) +
-      sizeof(uint32_t) * file_head.field_number +
-      sizeof(field_data) * file_head.record_number * file_head.field_number +
-      + file_head.string_block_size > static_cast<uint64_t>(end - memory)) {
+  const auto left = static_cast<uint64_t>(end - memory) - sizeof(file_head);
+  const auto field_number = static_cast<uint64_t>(file_head.field_number);
+  const auto record_number = static_cast<uint64_t>(file_head.record_number);
+  const auto string_block_size =
+    static_cast<uint64_t>(file_head.string_block_size);
+  if (sizeof(uint32_t) * field_number > left ||
+      field_number * record_number > left / sizeof(field_data) ||
+      sizeof(uint32_t) * field_number +
+      sizeof(field_data) * field_number * record_number +
+      string_block_size > left) {
     return false;
   }
   _memory += sizeof(file_head);
@@ -390,32 +400,34 @@ bool Tab::open_from_memory_binary(
         break;
       }
       default: {
-        if (!is_null(string_buffer_)) {
-          delete[] string_buffer_;
-          string_buffer_ = nullptr;
-        }
+        clear();
         return false;
       }
     }
   }
+  _memory += sizeof(uint32_t) * field_number_;
 
   //read all field
-  data_buffer_.resize(field_number_ * record_number_);
-  memcpy(
-    &(data_buffer_[0]), _memory, 
-    sizeof(field_data) * field_number_ * record_number_);
-  _memory += sizeof(field_data) * field_number_ * record_number_;
+  const auto data_number = static_cast<size_t>(field_number * record_number);
+  data_buffer_.resize(data_number);
+  if (data_number > 0)
+    memcpy(data_buffer_.data(), _memory, sizeof(field_data) * data_number);
+  _memory += sizeof(field_data) * data_number;
   memcpy(string_buffer_, _memory, string_buffer_size_);
   string_buffer_[string_buffer_size_ - 1] = '\0';
 
   //runtime address
   for (i = 0; i < field_number_; ++i) {
     if (field_types[i] != kTypeString) continue;
-    std::string str;
     int32_t j;
     for (j = 0; j < record_number_; ++j) {
-      data_buffer_[i + field_number_ + j].string_value += 
-        reinterpret_cast<uint64_t>(string_buffer_); 
+      auto &data = data_buffer_[static_cast<size_t>(j) * field_number_ + i];
+      const auto position = reinterpret_cast<uint64_t>(data.string_value);
+      if (position >= string_block_size) {
+        clear();
+        return false;
+      }
+      data.string_value = string_buffer_ + position;
     }
   }
   create_index(0, filename);
@@ -429,12 +441,18 @@ bool Tab::save_tobinary(const char *filename) {
     filehead.string_block_size = string_buffer_size_;
     FILE *fp = fopen(filename, "wb");
     if (nullptr == fp) return false;
+    //the strings by their positions
+    auto data = data_buffer_;
+    for (size_t i = 0; i < data.size(); ++i) {
+      if (type_[i % field_number_] != kTypeString) continue;
+      const auto position =
+        static_cast<uint64_t>(data[i].string_value - string_buffer_);
+      data[i].string_value = reinterpret_cast<const char *>(position);
+    }
     fwrite(&filehead, sizeof(filehead), 1, fp);
-    fwrite(&(type_[0]), sizeof(field_type_enum) *filehead.field_number, 1, fp);
-    fwrite(
-      &(data_buffer_[0]), filehead.field_number * filehead.record_number, 
-      1, fp);
-    fwrite(string_buffer_, filehead.string_block_size, 1, fp);
+    fwrite(type_.data(), sizeof(field_type_enum), type_.size(), fp);
+    fwrite(data.data(), sizeof(field_data), data.size(), fp);
+    fwrite(string_buffer_, 1, string_buffer_size_, fp);
     fclose(fp);
     return true;
 }
@@ -465,9 +483,7 @@ bool Tab::save_totext(const char *filename) {
   }
 
   for(int i=0; i<static_cast<int>(fieldnames_.size()); ++i){
-    char temp[64] = {0};
-    snprintf(temp, sizeof(temp) - 1, fieldnames_[i].c_str());
-    fwrite(temp, strlen(temp), 1, fp); 
+    fwrite(fieldnames_[i].c_str(), fieldnames_[i].size(), 1, fp); 
     if(i == static_cast<int>(fieldnames_.size()-1)){
       fwrite("\n", 1, 1, fp);
     } else{
-- 
2.43.0


From ca1bbd69ae56cf531688f92f9ec19856b2aef5ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:06 +0000
Subject: [PATCH 55/73] fix: an address text keeps its port in range, may leave
 it out, and can be read back (IPv6)

---
 framework/core/src/net/address.cc | 31 ++++++++++++++++---------------
 1 file changed, 16 insertions(+), 15 deletions(-)

diff --git a/framework/core/src/net/address.cc b/framework/core/src/net/address.cc
index 297a10e..1b244de 100644
--- a/framework/core/src/net/address.cc
+++ b/framework/core/src/net/address.cc
@@ -102,14 +102,13 @@ bool plain::net::is_valid_addr(const bytes_t &addr, bool verbose) noexcept {
 }
 
 static bool is_ipv4(std::string_view address) noexcept {
-  if (address.find(':') == address.rfind(':')) return true;
-  return address.find('.') != std::string::npos;
+  return address.find(':') == address.rfind(':');
 }
 
 /* std::tuple<ip_v4, ip, port> */
-static std::tuple<bool, std::string, uint16_t>
+static std::tuple<bool, std::string, int64_t>
 parse_address(std::string_view address) noexcept {
-  uint16_t port{0};
+  int64_t port{0};
   if (address.empty())
     return std::make_tuple(true, "", port);
   using std::operator ""sv;
@@ -124,8 +123,7 @@ parse_address(std::string_view address) noexcept {
         if (index++ == 0) {
           ip = std::string_view{str};
         } else {
-          port = static_cast<uint16_t>(
-            plain::toint64(std::string_view{str}.data()));
+          port = plain::toint64(std::string{std::string_view{str}}.c_str());
           break;
         }
       }
@@ -142,9 +140,9 @@ parse_address(std::string_view address) noexcept {
         if (index++ == 0) {
           ip = std::string_view{str};
           if (!ip.empty() && *ip.begin() == '[') ip.erase(ip.begin());
+          if (!ip.empty() && ip.back() == ']') ip.pop_back(); // Has no port.
         } else {
-          port = static_cast<uint16_t>(
-            plain::toint64(std::string_view{str}.data()));
+          port = plain::toint64(std::string{std::string_view{str}}.c_str());
           break;
         }
       }
@@ -154,11 +152,11 @@ parse_address(std::string_view address) noexcept {
 }
 
 static Address::value_type
-to_addr(bool ip_v4, std::string_view ip, uint16_t port, bool listen) {
+to_addr(bool ip_v4, const std::string &ip, uint16_t port, bool listen) {
   Address::value_type r;
   using value_t = Address::value_type::value_type;
   if (ip_v4) {
-    sockaddr_in addr;
+    sockaddr_in addr{};
     addr.sin_family = AF_INET;
     r.reserve(sizeof addr);
     if (ip.empty() || ip == "127.0.0.1" || ip == "0.0.0.0") {
@@ -167,7 +165,7 @@ to_addr(bool ip_v4, std::string_view ip, uint16_t port, bool listen) {
       else
         addr.sin_addr.s_addr = inet_addr("127.0.0.1");
     } else {
-      addr.sin_addr.s_addr = inet_addr(ip.data());
+      addr.sin_addr.s_addr = inet_addr(ip.c_str());
     }
     if (addr.sin_addr.s_addr == INADDR_NONE)
       throw std::invalid_argument("ip invalid");
@@ -188,7 +186,7 @@ to_addr(bool ip_v4, std::string_view ip, uint16_t port, bool listen) {
           throw std::invalid_argument("ip invalid");
       }
     } else {
-      auto cr = inet_pton(AF_INET6, ip.data(), &addr.sin6_addr);
+      auto cr = inet_pton(AF_INET6, ip.c_str(), &addr.sin6_addr);
       if (cr != 1)
         throw std::invalid_argument("ip invalid");
     }
@@ -200,7 +198,9 @@ to_addr(bool ip_v4, std::string_view ip, uint16_t port, bool listen) {
 
 static Address::value_type to_addr(std::string_view str, bool listen) {
   auto [ip_v4, ip, port] = parse_address(str);
-  return to_addr(ip_v4, ip, port, listen);
+  if (port < 0 || port > 65535)
+    throw std::invalid_argument("port invalid");
+  return to_addr(ip_v4, ip, static_cast<uint16_t>(port), listen);
 }
 
 Address::Address(const value_type &value) : value_{value} {
@@ -220,7 +220,7 @@ Address::Address(std::string_view value, bool listen) :
 }
 
 Address::Address(std::string_view ip, uint16_t port, bool listen) :
-  value_{to_addr(is_ipv4(ip), ip, port, listen)} {
+  value_{to_addr(is_ipv4(ip), std::string{ip}, port, listen)} {
   if (!is_valid_addr(value_))
     throw std::invalid_argument("Address value is invalid");
 }
@@ -266,7 +266,8 @@ size_t Address::size() const noexcept {
 }
 
 std::string Address::text() const noexcept {
-  return host() + ":" + std::to_string(port());
+  auto _host = family() == AF_INET6 ? "[" + host() + "]" : host();
+  return _host + ":" + std::to_string(port());
 }
 
 std::string Address::host() const noexcept {
-- 
2.43.0


From 4591bd55135c1808c8f21aeb76b1ff00c9544850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:06 +0000
Subject: [PATCH 56/73] fix: postfix --, operator> and arithmetic with another
 variable compute what they say

---
 .../core/include/plain/basic/type/variable.h  | 22 ++++++++++---------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/framework/core/include/plain/basic/type/variable.h b/framework/core/include/plain/basic/type/variable.h
index 9041689..9746bf6 100644
--- a/framework/core/include/plain/basic/type/variable.h
+++ b/framework/core/include/plain/basic/type/variable.h
@@ -98,7 +98,7 @@ struct PLAIN_API variable_struct {
 
   variable_t &operator+=(const variable_t &object) noexcept {
     std::unique_lock<std::mutex> auto_lock(mutex);
-    value = object.to_int64() + to_double();
+    value = object.to_double() + to_double();
     return *this;
   }
   template <typename T>
@@ -110,7 +110,7 @@ struct PLAIN_API variable_struct {
 
   variable_t &operator-=(const variable_t &object) noexcept {
     std::unique_lock<std::mutex> auto_lock(mutex);
-    value = to_double() - object.to_int64();
+    value = to_double() - object.to_double();
     return *this;
   }
   template <typename T>
@@ -122,7 +122,7 @@ struct PLAIN_API variable_struct {
 
   variable_t &operator*=(const variable_t &object) noexcept {
     std::unique_lock<std::mutex> auto_lock(mutex);
-    value = to_double() * object.to_int64();
+    value = to_double() * object.to_double();
     return *this;
   }
   
@@ -135,7 +135,7 @@ struct PLAIN_API variable_struct {
 
   variable_t &operator/=(const variable_t &object) {
     std::unique_lock<std::mutex> auto_lock(mutex);
-    value = to_double() / object.to_int64();
+    value = to_double() / object.to_double();
     return *this;
   }
   template <typename T>
@@ -155,15 +155,17 @@ struct PLAIN_API variable_struct {
     value = to_int64() - 1;
     return *this;
   }
-  variable_t &operator++(int32_t) noexcept {
+  variable_t operator++(int32_t) {
     std::unique_lock<std::mutex> auto_lock(mutex);
+    variable_t r{*this};
     value = to_int64() + 1;
-    return *this;
+    return r;
   }
-  variable_t &operator--(int32_t) noexcept {
+  variable_t operator--(int32_t) {
     std::unique_lock<std::mutex> auto_lock(mutex);
-    value = to_int64() + 1;
-    return *this;
+    variable_t r{*this};
+    value = to_int64() - 1;
+    return r;
   }
   
   friend bool operator==(
@@ -180,7 +182,7 @@ struct PLAIN_API variable_struct {
   }
 
   friend bool operator>(const variable_t &lhs, const variable_t &rhs) noexcept {
-    return lhs.value < rhs.value;
+    return lhs.value > rhs.value;
   }
 
   friend auto operator<=>(
-- 
2.43.0


From c1cfa236bd319f0f80ba407ad361768f807cb225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:06 +0000
Subject: [PATCH 57/73] fix: plain::md5 and the digest's operator<< are defined
 where they are declared

---
 framework/core/src/basic/md5.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/framework/core/src/basic/md5.cc b/framework/core/src/basic/md5.cc
index 23f7e07..856f4c2 100644
--- a/framework/core/src/basic/md5.cc
+++ b/framework/core/src/basic/md5.cc
@@ -337,13 +337,13 @@ std::string MD5::hexdigest() const {
  
 //////////////////////////////
  
-std::ostream& operator<<(std::ostream& out, MD5 md5) {
+std::ostream& plain::operator<<(std::ostream& out, MD5 md5) {
   return out << md5.hexdigest();
 }
  
 //////////////////////////////
  
-std::string md5(const std::string &str) {
+std::string plain::md5(const std::string &str) {
   MD5 md5 = MD5(str);
   return md5.hexdigest();
 }
-- 
2.43.0


From 79fe9b1e2f4a198f7c14227f0119f1dc9c2d021c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:51 +0000
Subject: [PATCH 58/73] fix: trim removes every character of the mask, whatever
 their order

---
 framework/core/include/plain/basic/utility.h |  6 +++---
 framework/core/src/basic/utility.cc          | 15 +++------------
 2 files changed, 6 insertions(+), 15 deletions(-)

diff --git a/framework/core/include/plain/basic/utility.h b/framework/core/include/plain/basic/utility.h
index 14d4ca3..ad64e96 100644
--- a/framework/core/include/plain/basic/utility.h
+++ b/framework/core/include/plain/basic/utility.h
@@ -56,15 +56,15 @@ PLAIN_API bool checkstr(const char *in, uint32_t size);
 
 // Retira espacios en blanco (u otros caracteres) del inicio de un string.
 PLAIN_API std::string &ltrim(
-    std::string &str, std::string_view character_mask = " \t\n\r\0\x0B");
+    std::string &str, std::string_view character_mask = {" \t\n\r\0\x0B", 6});
 
 // Retira los espacios en blanco (u otros caracteres) del final de un string.
 PLAIN_API std::string &rtrim(
-    std::string &str, std::string_view character_mask = " \t\n\r\0\x0B");
+    std::string &str, std::string_view character_mask = {" \t\n\r\0\x0B", 6});
 
 // Elimina espacio en blanco (u otro tipo de caracteres) del inicio y el final de la cadena.
 PLAIN_API std::string &trim(
-    std::string &str, std::string_view character_mask = " \t\n\r\0\x0B");
+    std::string &str, std::string_view character_mask = {" \t\n\r\0\x0B", 6});
 
 // Determine if a given string contains a given substring.
 PLAIN_API bool contains(
diff --git a/framework/core/src/basic/utility.cc b/framework/core/src/basic/utility.cc
index ff253ec..ccc3a74 100644
--- a/framework/core/src/basic/utility.cc
+++ b/framework/core/src/basic/utility.cc
@@ -621,27 +621,18 @@ bool decrypt(std::string_view in, int32_t &number, std::string &out) {
 
 std::string &ltrim(std::string &str, std::string_view character_mask) {
   if (str.empty()) return str;
-  for (size_t i = 0; i < character_mask.length(); ++i) {
-    str.erase(0, str.find_first_not_of(character_mask[i]));
-  }
+  str.erase(0, str.find_first_not_of(character_mask));
   return str;
 }
 
 std::string &rtrim(std::string &str, std::string_view character_mask) {
   if (str.empty()) return str;
-  for (size_t i = 0; i < character_mask.length(); ++i) {
-    str.erase(str.find_last_not_of(character_mask[i]) + 1);
-  }
+  str.erase(str.find_last_not_of(character_mask) + 1);
   return str;
 }
 
 std::string &trim(std::string &str, std::string_view character_mask) {
-  if (str.empty()) return str;
-  for (size_t i = 0; i < character_mask.length(); ++i) {
-    str.erase(0, str.find_first_not_of(character_mask[i]));
-    str.erase(str.find_last_not_of(character_mask[i]) + 1);
-  }
-  return str;
+  return ltrim(rtrim(str, character_mask), character_mask);
 }
 
 bool contains(
-- 
2.43.0


From 4300553f778ddcbf951242b04ac65cd52344f471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:51 +0000
Subject: [PATCH 59/73] fix: str_replace ends on an empty search text and
 str_replaces keeps earlier replacements

---
 framework/core/src/basic/utility.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/framework/core/src/basic/utility.cc b/framework/core/src/basic/utility.cc
index ccc3a74..0484149 100644
--- a/framework/core/src/basic/utility.cc
+++ b/framework/core/src/basic/utility.cc
@@ -648,6 +648,7 @@ std::string str_replace(
   std::string_view search, std::string_view replace, std::string_view subject, 
   int32_t count) {
   std::string r{subject};
+  if (search.empty()) return r;
   int32_t replace_count{0};
   auto it = r.find(search);
   auto search_length = search.length();
@@ -665,7 +666,7 @@ std::string str_replaces(
   std::string_view subject, int32_t count) {
   std::string r{subject};
   for (std::string_view item : search)
-    r = str_replace(item, replace, subject, count);
+    r = str_replace(item, replace, r, count);
   return r;
 }
 
-- 
2.43.0


From b7368a65cc460519d826727bd6075fadf9e5b0bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:51 +0000
Subject: [PATCH 60/73] fix: explode ends on an empty separator

---
 framework/core/src/basic/utility.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/framework/core/src/basic/utility.cc b/framework/core/src/basic/utility.cc
index 0484149..416fe12 100644
--- a/framework/core/src/basic/utility.cc
+++ b/framework/core/src/basic/utility.cc
@@ -284,6 +284,8 @@ int32_t explode(
   std::string::size_type right;
   if (one_key) {
     right = str.find_first_of(key);
+  } else if ('\0' == key[0]) { // Nothing to split at.
+    right = std::string::npos;
   } else {
     right = str.find(key);
   }
-- 
2.43.0


From 401e1edbbdb3e8997df103fef8a96686b4843019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:51 +0000
Subject: [PATCH 61/73] fix: getescape, str2wstr and complementpath stay inside
 their buffers

---
 framework/core/src/basic/utility.cc | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/framework/core/src/basic/utility.cc b/framework/core/src/basic/utility.cc
index 416fe12..d0d2f4e 100644
--- a/framework/core/src/basic/utility.cc
+++ b/framework/core/src/basic/utility.cc
@@ -250,6 +250,7 @@ bool getescape(const char *in, size_t insize, char *out, size_t outsize) {
   for ( ; index1 < insize && index2 < outsize; ++index1) {
     char _char;
     if (get_escapechar(in[index1], _char)) {
+    if (outsize - index2 < 2) break;
     out[index2] = '\\';
     ++index2;
     out[index2] = _char;
@@ -701,7 +702,7 @@ std::wstring str2wstr(std::string_view str) {
   safe_delete_array(wszUtf8);
 #else
   wchar_t temp[512]{0,};
-  mbstowcs(temp, str.data(), sizeof(temp) - 1);
+  mbstowcs(temp, std::string{str}.c_str(), sizeof(temp) / sizeof(temp[0]) - 1);
   r = temp;
 #endif
   return r;
@@ -985,8 +986,10 @@ uint32_t get_lowsection(uint64_t value) {
 
 void complementpath(char *filepath, size_t size, char delimiter) {
   uint32_t length = static_cast<uint32_t>(strlen(filepath));
-  if (size <= length) return;
-  filepath[length] = delimiter == filepath[length - 1] ? '\0' : delimiter;
+  if (0 == length || size <= length + 1) return;
+  if (delimiter == filepath[length - 1]) return;
+  filepath[length] = delimiter;
+  filepath[length + 1] = '\0';
 }
 
 char *strerror_pl(int32_t saved_errno) {
-- 
2.43.0


From dca35a3f2ae196c83568ae8c57583da91eddbc99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:51 +0000
Subject: [PATCH 62/73] fix: binary_tostring and string_tobinary are each
 other's inverse

---
 framework/core/src/basic/utility.cc | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/framework/core/src/basic/utility.cc b/framework/core/src/basic/utility.cc
index d0d2f4e..fb40345 100644
--- a/framework/core/src/basic/utility.cc
+++ b/framework/core/src/basic/utility.cc
@@ -715,7 +715,7 @@ static char ascii_table[] = {
 
 char value_toascii(char in) {
   char out =
-    0 < in && sizeof(ascii_table) / sizeof(char) >
+    0 <= in && sizeof(ascii_table) / sizeof(char) >
     static_cast< size_t >(in) ? ascii_table[(uint8_t)in] : '?';
   return out;
 }
@@ -802,7 +802,7 @@ bool binary_tostring(const char *in, uint32_t in_length, char *out) {
   for (i = 0; i < in_length; ++i) {
     out[out_index] = value_toascii((static_cast<uint8_t>(in[i] & 0xF0)) >> 4);
     ++out_index;
-    out[out_index] = value_toascii(in[i] & 0xF0);
+    out[out_index] = value_toascii(in[i] & 0x0F);
     ++out_index;
   }
   return true;
@@ -814,12 +814,11 @@ bool string_tobinary(
   if (0 == in_length) return false;
   uint32_t out_index = 0;
   uint32_t i;
-  for (i = 0; i < in_length; ++i) {
+  for (i = 0; i + 1 < in_length; i += 2) {
+    if (out_index >= out_limit) break;
     if ('\0' == in[i] || '\0' == in[i + 1]) break;
     out[out_index] = (ascii_tovalue(in[i]) << 4) + ascii_tovalue(in[i + 1]);
     ++out_index;
-    i += 2;
-    if (out_index > out_limit) break;
   }
   out_length = out_index; //length must be the out_limit
   return true;
-- 
2.43.0


From c52a8f7a5c892053a04b2a091bf0667d8443aa0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:51 +0000
Subject: [PATCH 63/73] fix: a password is encrypted and can be decrypted again

---
 framework/core/src/basic/utility.cc | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/framework/core/src/basic/utility.cc b/framework/core/src/basic/utility.cc
index fb40345..348280f 100644
--- a/framework/core/src/basic/utility.cc
+++ b/framework/core/src/basic/utility.cc
@@ -459,7 +459,8 @@ static bool pg_decrypt_password(char *password, const char *encrypted) {
   if (pk_length < PG_MINPKEYLEN || pk_length > PG_MAXPKEYLEN)
     return false;
   length = pg_char2int(buffer[pk_length + 1]);
-  if (length < 0 || length > PG_MAXPASSWORDLEN)
+  if (length < 0 || length > PG_MAXPASSWORDLEN ||
+      pk_length + 2 + length > PG_RESULTLENSTD)
     return false;
   pg_decrypt(buffer + 1, pk_length, password, buffer + pk_length + 2, length);
 
@@ -525,9 +526,9 @@ static bool pg_encrypt_password(
 
   //recheck password
   if (encryptok) decrypt_ok = pg_decrypt_password(password_check, result);
-  if (!encryptok || !decrypt_ok || stricmp(password_check, password) != 0)
+  if (!encryptok || !decrypt_ok || strcmp(password_check, password) != 0)
     return pg_encrypt_password(result, password, tickcount + 9929, level);
-  return false;
+  return true;
 }
 
 bool encrypt(std::string_view in, std::string &out) {
@@ -535,16 +536,16 @@ bool encrypt(std::string_view in, std::string &out) {
   char temp[PG_RESULTLENSTD + 1]{0};
   int32_t level = 0;
   bool result{false};
-  if (pg_encrypt_password(temp, in.data(), tickcount, level)) {
+  if (pg_encrypt_password(temp, std::string{in}.c_str(), tickcount, level)) {
     result = true;
-    out = result;
+    out = temp;
   }
   return result;
 }
 
 bool decrypt(std::string_view in, std::string &out) {
   char temp[PG_RESULTLENSTD + 1]{0};
-  if (!pg_decrypt_password(temp, in.data())) return false;
+  if (!pg_decrypt_password(temp, std::string{in}.c_str())) return false;
   out = temp;
   return true;
 }
-- 
2.43.0


From ca9bea956c2b43137966f6a142fdd02db60a47e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:51 +0000
Subject: [PATCH 64/73] fix: a number is encrypted into a text of any kind and
 decrypted from no hostile one

---
 framework/core/src/basic/utility.cc | 27 ++++++++++++---------------
 1 file changed, 12 insertions(+), 15 deletions(-)

diff --git a/framework/core/src/basic/utility.cc b/framework/core/src/basic/utility.cc
index 348280f..9d68d60 100644
--- a/framework/core/src/basic/utility.cc
+++ b/framework/core/src/basic/utility.cc
@@ -555,7 +555,7 @@ bool encrypt_number(int32_t number, char _char, std::string &out) {
   auto number_len = number_str.size();
   out = "";
   for (decltype(number_len) i = 0; i < number_len; ++i) {
-    auto n = number / static_cast<int32_t>((pow(10, number_len - i - 1))) % 10;
+    auto n = number / static_cast<int64_t>((pow(10, number_len - i - 1))) % 10;
     char c = (char)n + _char;
     out = out + c;
   }
@@ -564,11 +564,12 @@ bool encrypt_number(int32_t number, char _char, std::string &out) {
 
 bool decrypt_number(std::string_view in, char _char, int32_t &number) {
   auto number_len = in.size();
-  number = 0;
+  int64_t value{0};
   for (decltype(number_len) i = 0; i < number_len; ++i) {
-    number += (in[i] - _char) 
-              * static_cast<int32_t>(pow(10, number_len - i -1));
+    value += (in[i] - _char) 
+             * static_cast<int64_t>(pow(10, number_len - i -1));
   }
+  number = static_cast<int32_t>(value);
   return true;
 }
 
@@ -594,13 +595,7 @@ bool encrypt(std::string_view in, int32_t number, std::string &out) {
   char pos_len_char = first_char + (char)pos_str.size(); 
   out = "";
   out = out + first_char + len_char + pos_len_char + pos_str;
-  if (0 == pos) {
-    out = out + number_str + in.data();
-  } else if (pos == in.size()) {
-    out = out + in.data() + number_str;
-  } else {
-    out = out + in.substr(0, pos).data() + number_str + in.substr(pos).data();
-  }
+  out.append(in.substr(0, pos)).append(number_str).append(in.substr(pos));
   return true;
 }
 
@@ -610,16 +605,18 @@ bool decrypt(std::string_view in, int32_t &number, std::string &out) {
   int32_t length = in[1] - first_char;
   int32_t pos_len = in[2] - first_char;
   int32_t header_size = 3 + pos_len;
+  // The length of a number and its sign.
+  if (length < 0 || length > 11 || pos_len < 0 || pos_len > 9) return false;
   if (in.size() < (size_t)header_size) return false;
   int32_t pos{0};
   auto pos_str = in.substr(3, pos_len);
   decrypt_number(pos_str, first_char, pos);
   size_t rsize = in.size() - header_size;
-  if (rsize < (size_t)(pos + length)) return false;
-  std::string number_str = in.substr(header_size + pos, length).data();
+  if (pos < 0 || rsize < (size_t)pos + length) return false;
+  std::string number_str{in.substr(header_size + pos, length)};
   decrypt_number(number_str, first_char, number);
-  out = std::string{in.substr(header_size, pos).data()} + 
-        in.substr(header_size + pos + length).data();
+  out = std::string{in.substr(header_size, pos)}.append(
+    in.substr(header_size + pos + length));
   return true;
 }
 
-- 
2.43.0


From 155bcd1bf61c1dd375f74a5d8f7278d6c663fc1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:51 +0000
Subject: [PATCH 65/73] fix: makedir's default mode is octal

---
 framework/core/include/plain/basic/utility.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/framework/core/include/plain/basic/utility.h b/framework/core/include/plain/basic/utility.h
index ad64e96..8b482e9 100644
--- a/framework/core/include/plain/basic/utility.h
+++ b/framework/core/include/plain/basic/utility.h
@@ -139,7 +139,7 @@ PLAIN_API void get_module_filename(char *buffer, size_t size);
 
 PLAIN_API void disable_windowclose();
 
-PLAIN_API bool makedir(const char *path, uint16_t mode = 755);
+PLAIN_API bool makedir(const char *path, uint16_t mode = 0755);
 
 PLAIN_API uint32_t get_highsection(uint64_t value);
 
-- 
2.43.0


From 680b62bfa5a89d2b5430f366492af711ffa33d28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:18 +0000
Subject: [PATCH 66/73] fix: makedir does not succeed on a path that is a file

---
 framework/core/src/basic/utility.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/framework/core/src/basic/utility.cc b/framework/core/src/basic/utility.cc
index 9d68d60..998278e 100644
--- a/framework/core/src/basic/utility.cc
+++ b/framework/core/src/basic/utility.cc
@@ -962,7 +962,7 @@ bool makedir(const char *path, uint16_t) {
       _path[i] = '/';
     }
   }
-  return true;
+  return 0 == access(_path, 0);
 }
 
 uint64_t touint64(uint32_t high, uint32_t low) {
-- 
2.43.0


From 3c894ad55e9e30e2eb4ccdeffc80cea0c815e73e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:57 +0000
Subject: [PATCH 67/73] fix: get_module_filename stays inside its buffer

---
 framework/core/src/basic/utility.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/framework/core/src/basic/utility.cc b/framework/core/src/basic/utility.cc
index 998278e..f21de5a 100644
--- a/framework/core/src/basic/utility.cc
+++ b/framework/core/src/basic/utility.cc
@@ -914,9 +914,10 @@ void get_module_filename(char *buffer, size_t size) {
   resultcode = (int32_t)GetModuleFileName(nullptr, buffer, (DWORD)size);
 #endif
 #elif OS_UNIX || OS_MAC
-  resultcode = readlink("/proc/self/exe", buffer, size);
-  Assert(resultcode > 0 && resultcode < static_cast<int32_t>(size));
-  buffer[resultcode] = '\0';
+  if (0 == size) return;
+  resultcode = readlink("/proc/self/exe", buffer, size - 1);
+  Assert(resultcode >= 0);
+  buffer[resultcode < 0 ? 0 : resultcode] = '\0';
 #endif
 }
 
-- 
2.43.0


From 11a810bb0838c80aa8a11533ac6ae014eaa2a277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:58 +0000
Subject: [PATCH 68/73] fix: makedir refuses an empty path and one too long for
 its buffer

---
 framework/core/src/basic/utility.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/framework/core/src/basic/utility.cc b/framework/core/src/basic/utility.cc
index f21de5a..75e162d 100644
--- a/framework/core/src/basic/utility.cc
+++ b/framework/core/src/basic/utility.cc
@@ -940,6 +940,8 @@ bool makedir(const char *path, uint16_t) {
   int32_t i = 0;
   int32_t result = 0;
   int32_t length = static_cast<int32_t>(strlen(path));
+  if (0 == length || length + 2 > static_cast<int32_t>(sizeof(_path)))
+    return false;
   safecopy(_path, path, sizeof(_path));
   path_tounix(_path, static_cast<uint16_t>(length));
   if (_path[length - 1] != '/') {
-- 
2.43.0


From 66080dabe881307d5bb41e0940528ba49ea8743f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:35:26 +0000
Subject: [PATCH 69/73] fix: the background executor follows its own options

It was made with the thread count and waiting time of the cpu thread pool.
---
 framework/core/src/engine/kernel.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/framework/core/src/engine/kernel.cc b/framework/core/src/engine/kernel.cc
index 2c65989..e916489 100644
--- a/framework/core/src/engine/kernel.cc
+++ b/framework/core/src/engine/kernel.cc
@@ -214,8 +214,8 @@ Kernel::Kernel(const engine_option &option) : impl_{std::make_unique<Impl>()} {
   impl_->registered_executors.register_executor(impl_->thread_pool_executor);
 
   impl_->background_executor = std::make_shared<executor::ThreadPool>(
-    "thread background executor", option.max_cpu_threads, 
-    option.max_thread_pool_executor_waiting_time,
+    "thread background executor", option.max_background_threads, 
+    option.max_background_executor_waiting_time,
     option.thread_started_callback,
     option.thread_terminated_callback
   );
-- 
2.43.0


From 5159a94f8ed3554349b9dce1d4ba918723f5c3bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:35:26 +0000
Subject: [PATCH 70/73] fix: a console handler registered again replaces the
 one before

The warning says so, but the new handler was dropped.  The console reads the
handlers and their descriptions under the lock, as they may change meanwhile.
---
 framework/core/src/engine/kernel.cc | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/framework/core/src/engine/kernel.cc b/framework/core/src/engine/kernel.cc
index e916489..4c8c1c2 100644
--- a/framework/core/src/engine/kernel.cc
+++ b/framework/core/src/engine/kernel.cc
@@ -165,6 +165,8 @@ std::string Kernel::Impl::console_cmd_kill(
 
 std::string Kernel::Impl::console_cmd_help(
   const std::vector<std::string> &args) {
+  std::unique_lock<decltype(ENGINE->impl_->mutex)>
+    auto_lock{ENGINE->impl_->mutex};
   std::string r;
   if (args.empty()) {
     for (const auto &it : ENGINE->impl_->console_descs) {
@@ -331,10 +333,16 @@ bool Kernel::enable_console(std::string_view addr) noexcept {
     explode(d, params, " ", true, true);
     if (params.empty()) return true;
     auto cmd = params[0];
-    auto it = ENGINE->impl_->console_handlers.find(cmd);
-    if (it == ENGINE->impl_->console_handlers.end()) return false;
+    console_func handler;
+    {
+      std::unique_lock<decltype(ENGINE->impl_->mutex)>
+        auto_lock{ENGINE->impl_->mutex};
+      auto it = ENGINE->impl_->console_handlers.find(cmd);
+      if (it == ENGINE->impl_->console_handlers.end()) return false;
+      handler = it->second;
+    }
     params.erase(params.begin());
-    auto r = it->second(params);
+    auto r = handler(params);
     if (!r.empty()) {
       auto p = std::make_shared<net::packet::Basic>();
       p->set_writeable(true);
@@ -358,7 +366,7 @@ void Kernel::register_console_handler(
   auto it = impl_->console_handlers.find(cmd.data());
   if (it != impl_->console_handlers.end())
     LOG_WARN << "cmd: " << cmd.data() << " handler will replace";
-  impl_->console_handlers.emplace(cmd, func);
+  impl_->console_handlers.insert_or_assign(std::string(cmd), func);
   if (!desc.empty())
-    impl_->console_descs.emplace(cmd, desc);
+    impl_->console_descs.insert_or_assign(std::string(cmd), std::string(desc));
 }
-- 
2.43.0


From 14124d843387fedd17f1752de6273f929f5ac3dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:35:26 +0000
Subject: [PATCH 71/73] fix: killall spares the console it was given to

Like kill.  It stopped the console from within its own executor, never
answered and left the engine without a console that could be enabled again.
---
 framework/core/src/engine/kernel.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/framework/core/src/engine/kernel.cc b/framework/core/src/engine/kernel.cc
index 4c8c1c2..c3752ce 100644
--- a/framework/core/src/engine/kernel.cc
+++ b/framework/core/src/engine/kernel.cc
@@ -137,6 +137,7 @@ std::string Kernel::Impl::console_cmd_kill(
   if (args.empty()) {
     // killall
     for (auto it : nets) {
+      if (it.first == "console") continue; // console is kernel owner
       auto net = it.second.lock();
       if (net) net->stop();
     }
-- 
2.43.0


From f4f70a75221e10a0a3cb6187bcd6b171195919df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:35:26 +0000
Subject: [PATCH 72/73] fix: the console can be enabled after an attempt that
 failed

The listener that did not start was kept, so every later attempt was refused;
a network that is called console already ended the process.
---
 framework/core/src/engine/kernel.cc | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/framework/core/src/engine/kernel.cc b/framework/core/src/engine/kernel.cc
index c3752ce..fc2d826 100644
--- a/framework/core/src/engine/kernel.cc
+++ b/framework/core/src/engine/kernel.cc
@@ -322,8 +322,16 @@ bool Kernel::enable_console(std::string_view addr) noexcept {
   setting.address = addr;
   setting.name = "console";
   impl_->console_listener = std::make_unique<net::Listener>(setting);
-  if (!impl_->console_listener->start())
+  bool started{false};
+  try {
+    started = impl_->console_listener->start();
+  } catch (const std::exception &e) {
+    LOG_ERROR << "console start failed: " << e.what();
+  }
+  if (!started) {
+    impl_->console_listener.reset();
     return false;
+  }
   LOG_INFO << "console listen on " <<
     impl_->console_listener->address().text();
   
-- 
2.43.0


From 3c0202d75e588628fbde36f02d549b333b951835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:35:26 +0000
Subject: [PATCH 73/73] fix: a network without a name is given one that is free

A network of the user called unknown1 made the start of the first one without
a name fail.
---
 framework/core/src/engine/kernel.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/framework/core/src/engine/kernel.cc b/framework/core/src/engine/kernel.cc
index fc2d826..24b79c3 100644
--- a/framework/core/src/engine/kernel.cc
+++ b/framework/core/src/engine/kernel.cc
@@ -295,7 +295,9 @@ void Kernel::add(std::shared_ptr<net::connection::Manager> net) {
   std::unique_lock<decltype(impl_->mutex)> auto_lock{impl_->mutex};
   auto name = net->setting_.name;
   if (name.empty()) { // Set unnamed
-    name = "unknown" + std::to_string(++impl_->unnamed_net_count);
+    do {
+      name = "unknown" + std::to_string(++impl_->unnamed_net_count);
+    } while (impl_->nets.find(name) != impl_->nets.end());
     net->setting_.name = name;
   }
   auto it = impl_->nets.find(name);
-- 
2.43.0

