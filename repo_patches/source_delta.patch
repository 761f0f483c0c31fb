From 97e2f4ea99f6562d2babb313f2816f3ae255ab04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:51 +0000
Subject: [PATCH 01/90] fix: end an execution when its wall-clock or CPU limit
 fires during an I/O wait or microtask

The watchdog only set a flag and asked V8 to terminate; nothing woke the event
loop future, so a request waiting on a promise that never settles (or whose JS
was terminated inside a microtask) stayed pending forever.
---
 src/execution_context.rs      |  8 +++++++
 src/security/timeout_guard.rs | 43 ++++++++++++++++++++++++++++++-----
 src/worker.rs                 | 10 +++++++-
 src/worker_future.rs          | 10 +++++++-
 4 files changed, 63 insertions(+), 8 deletions(-)

diff --git a/src/execution_context.rs b/src/execution_context.rs
index 0140b38..444b0a9 100644
--- a/src/execution_context.rs
+++ b/src/execution_context.rs
@@ -1022,6 +1022,9 @@ impl ExecutionContext {
                 return Poll::Pending; // Not our turn, will be woken in FIFO order
             }
 
+            // Be woken when the wall-clock timeout fires during an I/O wait
+            wall_guard.register_waker(cx.waker());
+
             // -- Acquire V8 lock (if pooled isolate) --
             // For the LockerManagedIsolate path, we create a Locker + JsLock
             // that will be dropped when this closure returns (including Pending),
@@ -1086,6 +1089,11 @@ impl ExecutionContext {
                 waiter.unlock();
             }
 
+            // 7. Terminated while processing: nothing else would wake us to notice.
+            if self.is_terminated(wall_guard, cpu_guard) {
+                return Poll::Ready(Err("Execution terminated".to_string()));
+            }
+
             Poll::Pending
         })
         .await
diff --git a/src/security/timeout_guard.rs b/src/security/timeout_guard.rs
index 84dc07b..4a3e2af 100644
--- a/src/security/timeout_guard.rs
+++ b/src/security/timeout_guard.rs
@@ -23,9 +23,10 @@
 //! The `IsolateHandle` is thread-safe and can be used from the watchdog thread
 //! to terminate execution in the main thread.
 
-use std::sync::Arc;
 use std::sync::atomic::{AtomicBool, Ordering};
 use std::sync::mpsc;
+use std::sync::{Arc, Mutex};
+use std::task::Waker;
 use std::thread;
 use std::time::Duration;
 
@@ -51,12 +52,18 @@ use std::time::Duration;
 pub struct TimeoutGuard {
     /// Channel to send cancellation signal to watchdog
     cancel_tx: Option<mpsc::Sender<()>>,
-    /// Handle to join the watchdog thread
-    thread_handle: Option<thread::JoinHandle<()>>,
+    /// Watchdog thread to join, and the waker it notifies
+    thread_handle: Option<Watchdog>,
     /// Flag set when timeout is triggered
     triggered: Arc<AtomicBool>,
 }
 
+/// A running watchdog thread and the task waker it notifies on timeout.
+struct Watchdog {
+    join_handle: thread::JoinHandle<()>,
+    waker: Arc<Mutex<Option<Waker>>>,
+}
+
 impl TimeoutGuard {
     /// Create a new timeout guard with the given V8 isolate handle and timeout.
     ///
@@ -83,8 +90,10 @@ impl TimeoutGuard {
 
         let (cancel_tx, cancel_rx) = mpsc::channel::<()>();
         let triggered_clone = triggered.clone();
+        let waker = Arc::new(Mutex::new(None::<Waker>));
+        let waker_clone = Arc::clone(&waker);
 
-        let thread_handle = thread::Builder::new()
+        let join_handle = thread::Builder::new()
             .name("timeout-watchdog".into())
             .spawn(move || {
                 let timeout = Duration::from_millis(timeout_ms);
@@ -103,6 +112,14 @@ impl TimeoutGuard {
                         );
                         triggered_clone.store(true, Ordering::SeqCst);
                         isolate_handle.terminate_execution();
+
+                        // The task may be idle (waiting on I/O): wake it so that it
+                        // observes the timeout instead of sleeping forever.
+                        let waker = waker_clone.lock().unwrap().take();
+
+                        if let Some(waker) = waker {
+                            waker.wake();
+                        }
                     }
                     // Channel disconnected (guard dropped without explicit cancel)
                     Err(mpsc::RecvTimeoutError::Disconnected) => {
@@ -114,7 +131,7 @@ impl TimeoutGuard {
 
         Self {
             cancel_tx: Some(cancel_tx),
-            thread_handle: Some(thread_handle),
+            thread_handle: Some(Watchdog { join_handle, waker }),
             triggered,
         }
     }
@@ -125,6 +142,20 @@ impl TimeoutGuard {
     pub fn was_triggered(&self) -> bool {
         self.triggered.load(Ordering::SeqCst)
     }
+
+    /// Register the waker of the task to wake when the timeout fires.
+    ///
+    /// Call before checking `was_triggered()`: the watchdog sets the flag before
+    /// it takes the waker, so a timeout cannot be missed in between.
+    pub fn register_waker(&self, waker: &Waker) {
+        if let Some(watchdog) = &self.thread_handle {
+            let mut slot = watchdog.waker.lock().unwrap();
+
+            if !slot.as_ref().is_some_and(|w| w.will_wake(waker)) {
+                *slot = Some(waker.clone());
+            }
+        }
+    }
 }
 
 impl Drop for TimeoutGuard {
@@ -138,7 +169,7 @@ impl Drop for TimeoutGuard {
         // Wait for watchdog thread to finish
         if let Some(handle) = self.thread_handle.take() {
             // Join the thread - should complete quickly after cancellation
-            if let Err(e) = handle.join() {
+            if let Err(e) = handle.join_handle.join() {
                 eprintln!(
                     "[openworkers-runtime-v8] Timeout watchdog thread panicked: {:?}",
                     e
diff --git a/src/worker.rs b/src/worker.rs
index 82cef42..78304d7 100644
--- a/src/worker.rs
+++ b/src/worker.rs
@@ -750,6 +750,9 @@ impl Worker {
         let mut pending_callbacks: Vec<CallbackMessage> = Vec::with_capacity(16);
 
         std::future::poll_fn(|cx| {
+            // Be woken when the wall-clock timeout fires during an I/O wait
+            wall_guard.register_waker(cx.waker());
+
             // 1. Check termination (CPU/wall-clock guards)
             if self.is_terminated(wall_guard, cpu_guard) {
                 return Poll::Ready(Err("Execution terminated".to_string()));
@@ -814,7 +817,12 @@ impl Worker {
                 }
             }
 
-            // 6. Not done yet - waker registered via poll_recv
+            // 6. Terminated while processing: nothing else would wake us to notice.
+            if self.is_terminated(wall_guard, cpu_guard) {
+                return Poll::Ready(Err("Execution terminated".to_string()));
+            }
+
+            // 7. Not done yet - waker registered via poll_recv
             Poll::Pending
         })
         .await
diff --git a/src/worker_future.rs b/src/worker_future.rs
index 4c2dbcd..32dba30 100644
--- a/src/worker_future.rs
+++ b/src/worker_future.rs
@@ -61,6 +61,9 @@ impl Future for WorkerFuture<'_> {
 
         let this = self.get_mut();
 
+        // Be woken when the wall-clock timeout fires during an I/O wait
+        this.wall_guard.register_waker(cx.waker());
+
         // 1. Check termination (CPU/wall-clock guards)
         if this.ctx.is_terminated(this.wall_guard, this.cpu_guard) {
             return Poll::Ready(Err("Execution terminated".to_string()));
@@ -91,7 +94,12 @@ impl Future for WorkerFuture<'_> {
             }
         }
 
-        // 6. Not done yet - waker registered via poll_recv
+        // 6. Terminated while processing: nothing else would wake us to notice.
+        if this.ctx.is_terminated(this.wall_guard, this.cpu_guard) {
+            return Poll::Ready(Err("Execution terminated".to_string()));
+        }
+
+        // 7. Not done yet - waker registered via poll_recv
         Poll::Pending
     }
 }
-- 
2.43.0


From 786ea36f2f37e73eabff4320045f038d5d2300c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:49 +0000
Subject: [PATCH 02/90] fix: apply the CPU and wall-clock limits while the
 worker script is evaluated

Top-level code ran without any guard, so 'while (true) {}' at the top level of a
script blocked the host thread forever, in both the Worker and the pooled path.
---
 src/execution_context.rs | 32 ++++++++++++++++++++++++++++++--
 src/worker.rs            | 28 ++++++++++++++++++++++++----
 2 files changed, 54 insertions(+), 6 deletions(-)

diff --git a/src/execution_context.rs b/src/execution_context.rs
index 444b0a9..9d529f3 100644
--- a/src/execution_context.rs
+++ b/src/execution_context.rs
@@ -189,8 +189,36 @@ impl ExecutionContext {
         // Setup environment variables and bindings (placeholder)
         Self::setup_env(isolate, &context, &script.env, &script.bindings)?;
 
-        // Evaluate user script (placeholder)
-        Self::evaluate_script(isolate, &context, &script.code)?;
+        // Evaluate user script under the same limits as exec(): top-level code
+        // must not be able to run forever either.
+        {
+            let isolate_handle = isolate.thread_safe_handle();
+            let wall_guard =
+                TimeoutGuard::new(isolate_handle.clone(), limits.max_wall_clock_time_ms);
+            let cpu_guard = CpuEnforcer::new(isolate_handle, limits.max_cpu_time_ms);
+
+            let result = Self::evaluate_script(isolate, &context, &script.code);
+
+            let cpu_limit_hit = cpu_guard.as_ref().is_some_and(|g| g.was_terminated());
+            let wall_timeout_hit = wall_guard.was_triggered();
+            drop(cpu_guard);
+            drop(wall_guard);
+
+            if cpu_limit_hit || wall_timeout_hit {
+                // The isolate goes back to the pool: clear the termination request
+                isolate.cancel_terminate_execution();
+            }
+
+            if cpu_limit_hit {
+                return Err(TerminationReason::CpuTimeLimit);
+            }
+
+            if wall_timeout_hit {
+                return Err(TerminationReason::WallClockTimeout);
+            }
+
+            result?;
+        }
 
         // Setup ES Modules handler (placeholder)
         Self::setup_es_modules_handler(isolate, &context)?;
diff --git a/src/worker.rs b/src/worker.rs
index 78304d7..2ec78cc 100644
--- a/src/worker.rs
+++ b/src/worker.rs
@@ -553,10 +553,30 @@ impl Worker {
             TerminationReason::InitializationError(format!("Failed to setup env: {}", e))
         })?;
 
-        // Evaluate user script
-        runtime.evaluate(&script.code).map_err(|e| {
-            TerminationReason::Exception(format!("Script evaluation failed: {}", e))
-        })?;
+        // Evaluate user script under the same limits as exec(): top-level code
+        // must not be able to run forever either.
+        {
+            let isolate_handle = runtime.isolate.thread_safe_handle();
+            let wall_guard = TimeoutGuard::new(
+                isolate_handle.clone(),
+                runtime.limits.max_wall_clock_time_ms,
+            );
+            let cpu_guard = CpuEnforcer::new(isolate_handle, runtime.limits.max_cpu_time_ms);
+
+            let result = runtime.evaluate(&script.code);
+
+            if cpu_guard.as_ref().is_some_and(|g| g.was_terminated()) {
+                return Err(TerminationReason::CpuTimeLimit);
+            }
+
+            if wall_guard.was_triggered() {
+                return Err(TerminationReason::WallClockTimeout);
+            }
+
+            result.map_err(|e| {
+                TerminationReason::Exception(format!("Script evaluation failed: {}", e))
+            })?;
+        }
 
         // Setup ES Modules handler if `export default { fetch }` is used
         // This takes priority over addEventListener('fetch', ...)
-- 
2.43.0


From fb39bcf13f8dfba83b6b84e17d2d2a7094a58019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:49 +0000
Subject: [PATCH 03/90] fix: remove SharedArrayBuffer and Atomics in every
 execution mode

Only contexts of the isolate pool dropped them; Worker and
execute_with_isolate left both reachable.
---
 src/runtime/mod.rs | 4 ++++
 src/worker.rs      | 3 +++
 2 files changed, 7 insertions(+)

diff --git a/src/runtime/mod.rs b/src/runtime/mod.rs
index c6c5eb6..2d5e0b8 100644
--- a/src/runtime/mod.rs
+++ b/src/runtime/mod.rs
@@ -323,6 +323,10 @@ impl Runtime {
                     bindings::setup_response(scope);
                 }
 
+                // Security: Remove SharedArrayBuffer and Atomics (Spectre mitigations)
+                // Must be done at context creation, not in snapshot (breaks V8 bootstrapping)
+                bindings::setup_security_restrictions(scope);
+
                 v8::Global::new(scope.as_ref(), context)
             };
 
diff --git a/src/worker.rs b/src/worker.rs
index 2ec78cc..8d4eec3 100644
--- a/src/worker.rs
+++ b/src/worker.rs
@@ -217,6 +217,9 @@ impl WorkerBuilder {
                 bindings::setup_response(scope);
             }
 
+            // Security: Remove SharedArrayBuffer and Atomics (Spectre mitigations)
+            bindings::setup_security_restrictions(scope);
+
             v8::Global::new(scope.as_ref(), context)
         };
 
-- 
2.43.0


From d3bd6ed899a2c9b19446c082c22931908af375eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:33 +0000
Subject: [PATCH 04/90] fix: never reuse callback and stream IDs across
 requests of a reused context

reset() restarted both counters while the event loop (and upstream pumps, stream
readers, response forwarders) of the previous request were still running, so the
late result of a fetch nobody awaited resolved a fetch of the next request, and a
disconnecting client closed the next request's stream.
---
 src/execution_context.rs      | 6 ++++--
 src/runtime/stream_manager.rs | 4 ++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/execution_context.rs b/src/execution_context.rs
index 9d529f3..07d364f 100644
--- a/src/execution_context.rs
+++ b/src/execution_context.rs
@@ -1474,7 +1474,8 @@ impl ExecutionContext {
     ///
     /// Cancels any lingering `terminate_execution` flag before evaluating JS.
     /// Does NOT touch the event loop (it persists across requests).
-    /// Does NOT reset `__nextTimerId` (monotonically increasing to avoid ID collisions).
+    /// Does NOT reset `__nextTimerId`, callback IDs or stream IDs (monotonically
+    /// increasing to avoid ID collisions with work of earlier requests).
     pub fn reset(&mut self) -> Result<(), String> {
         // Acquire lock if pooled isolate (evaluate accesses V8 directly)
         let lmi_ptr = self.lmi_ptr;
@@ -1518,7 +1519,8 @@ impl ExecutionContext {
         self.request.fetch_error_callbacks.borrow_mut().clear();
         self.request.stream_callbacks.borrow_mut().clear();
         self.request.ws_event_callbacks.borrow_mut().clear();
-        *self.request.next_callback_id.borrow_mut() = 1;
+        // next_callback_id is NOT reset: the event loop outlives the request, and the
+        // late result of an earlier operation must never match a new request's callback.
 
         Ok(())
     }
diff --git a/src/runtime/stream_manager.rs b/src/runtime/stream_manager.rs
index b8958ca..8533de1 100644
--- a/src/runtime/stream_manager.rs
+++ b/src/runtime/stream_manager.rs
@@ -174,8 +174,8 @@ impl StreamManager {
         self.senders.lock().unwrap().clear();
         self.receivers.lock().unwrap().clear();
         self.metadata.lock().unwrap().clear();
-        // Reset next_id so stream IDs don't grow unbounded across reuses
-        *self.next_id.lock().unwrap() = 1;
+        // next_id is NOT reset: producers and consumers of an earlier request may still
+        // hold its stream IDs, which must never designate a stream of the next request.
     }
 
     /// Count active streams
-- 
2.43.0


From d16ba1c0efa0ecdcdfc80d6e27be687e5237639d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:55 +0000
Subject: [PATCH 05/90] fix: keep a forwarded response body alive when its
 context is reused

---
 src/runtime/stream_manager.rs | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/src/runtime/stream_manager.rs b/src/runtime/stream_manager.rs
index 8533de1..4269bd5 100644
--- a/src/runtime/stream_manager.rs
+++ b/src/runtime/stream_manager.rs
@@ -1,5 +1,5 @@
 use bytes::Bytes;
-use std::collections::HashMap;
+use std::collections::{HashMap, HashSet};
 use std::sync::{Arc, Mutex};
 use tokio::sync::mpsc;
 
@@ -29,6 +29,8 @@ pub struct StreamManager {
     senders: Arc<Mutex<HashMap<StreamId, mpsc::Sender<StreamChunk>>>>,
     /// Receivers for reading chunks from streams (taken temporarily during reads)
     receivers: Arc<Mutex<HashMap<StreamId, mpsc::Receiver<StreamChunk>>>>,
+    /// Streams whose receiver was handed out with `take_receiver`
+    detached: Arc<Mutex<HashSet<StreamId>>>,
     /// Stream metadata (URL for debugging)
     metadata: Arc<Mutex<HashMap<StreamId, String>>>,
     /// Next stream ID to allocate
@@ -47,6 +49,7 @@ impl StreamManager {
         Self {
             senders: Arc::new(Mutex::new(HashMap::new())),
             receivers: Arc::new(Mutex::new(HashMap::new())),
+            detached: Arc::new(Mutex::new(HashSet::new())),
             metadata: Arc::new(Mutex::new(HashMap::new())),
             next_id: Arc::new(Mutex::new(1)),
             high_water_mark,
@@ -154,13 +157,20 @@ impl StreamManager {
     /// Take the receiver from a stream (for passing to HttpBody::Stream)
     /// The sender remains active for writing chunks
     pub fn take_receiver(&self, stream_id: StreamId) -> Option<mpsc::Receiver<StreamChunk>> {
-        self.receivers.lock().unwrap().remove(&stream_id)
+        let receiver = self.receivers.lock().unwrap().remove(&stream_id);
+
+        if receiver.is_some() {
+            self.detached.lock().unwrap().insert(stream_id);
+        }
+
+        receiver
     }
 
     /// Close and remove a stream
     pub fn close_stream(&self, stream_id: StreamId) {
         self.senders.lock().unwrap().remove(&stream_id);
         self.receivers.lock().unwrap().remove(&stream_id);
+        self.detached.lock().unwrap().remove(&stream_id);
         self.metadata.lock().unwrap().remove(&stream_id);
     }
 
@@ -170,8 +180,17 @@ impl StreamManager {
     }
 
     /// Clear all streams (used for context reuse between requests)
+    ///
+    /// Streams whose receiver was taken and is still alive are kept: a response body
+    /// forwarded from upstream may still be on its way to the previous client.
     pub fn clear(&self) {
-        self.senders.lock().unwrap().clear();
+        let mut detached = self.detached.lock().unwrap();
+        let mut senders = self.senders.lock().unwrap();
+        senders.retain(|id, tx| detached.contains(id) && !tx.is_closed());
+        detached.retain(|id| senders.contains_key(id));
+        drop(senders);
+        drop(detached);
+
         self.receivers.lock().unwrap().clear();
         self.metadata.lock().unwrap().clear();
         // next_id is NOT reset: producers and consumers of an earlier request may still
-- 
2.43.0


From bccfb08dc011f46e4e4d5e7726bf2df23f821d12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:21 +0000
Subject: [PATCH 06/90] fix: no lost wakeups in AsyncWaiter when a release
 races with a waiter or a waiter is polled twice

---
 src/async_waiter.rs | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/async_waiter.rs b/src/async_waiter.rs
index 1ccc28a..b1c5000 100644
--- a/src/async_waiter.rs
+++ b/src/async_waiter.rs
@@ -45,23 +45,34 @@ impl AsyncWaiter {
     /// Uses `compare_exchange` for correctness even though current callers are
     /// single-threaded (all on the same LocalSet).
     pub fn try_lock(&self, cx: &mut Context<'_>) -> bool {
+        // The queue lock makes "locked, so enqueue" atomic with respect to unlock():
+        // otherwise a release in between finds no one to wake and the wakeup is lost.
+        let mut queue = self.queue.lock().unwrap();
+
         if self
             .locked
             .compare_exchange(false, true, Ordering::AcqRel, Ordering::Acquire)
             .is_ok()
         {
+            // Polled more than once while waiting: drop the entries left behind, which
+            // would otherwise consume a wakeup meant for the next waiter.
+            queue.retain(|waker| !waker.will_wake(cx.waker()));
             true
         } else {
-            self.queue.lock().unwrap().push_back(cx.waker().clone());
+            queue.push_back(cx.waker().clone());
             false
         }
     }
 
     /// Release the turn. Wakes the next waiter in FIFO order.
     pub fn unlock(&self) {
-        self.locked.store(false, Ordering::Release);
+        let next = {
+            let mut queue = self.queue.lock().unwrap();
+            self.locked.store(false, Ordering::Release);
+            queue.pop_front()
+        };
 
-        if let Some(waker) = self.queue.lock().unwrap().pop_front() {
+        if let Some(waker) = next {
             waker.wake();
         }
     }
-- 
2.43.0


From f01315285a0151b3793918f5d9b1c48dc72a1f8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:22 +0000
Subject: [PATCH 07/90] fix: a read in progress must not bring a closed stream
 back

---
 src/runtime/stream_manager.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/runtime/stream_manager.rs b/src/runtime/stream_manager.rs
index 4269bd5..75e0a72 100644
--- a/src/runtime/stream_manager.rs
+++ b/src/runtime/stream_manager.rs
@@ -66,9 +66,9 @@ impl StreamManager {
         let id = *next_id;
         *next_id += 1;
 
+        self.metadata.lock().unwrap().insert(id, url);
         self.senders.lock().unwrap().insert(id, tx);
         self.receivers.lock().unwrap().insert(id, rx);
-        self.metadata.lock().unwrap().insert(id, url);
 
         id
     }
@@ -140,7 +140,12 @@ impl StreamManager {
                         // Don't put back - stream is finished
                     }
                     StreamChunk::Data(_) => {
-                        self.receivers.lock().unwrap().insert(stream_id, rx);
+                        let mut receivers = self.receivers.lock().unwrap();
+
+                        // Closed or cleared meanwhile: do not bring the stream back
+                        if self.metadata.lock().unwrap().contains_key(&stream_id) {
+                            receivers.insert(stream_id, rx);
+                        }
                     }
                 }
             }
@@ -168,10 +173,11 @@ impl StreamManager {
 
     /// Close and remove a stream
     pub fn close_stream(&self, stream_id: StreamId) {
+        // Metadata first: read_chunk() puts a receiver back only while it is there
+        self.metadata.lock().unwrap().remove(&stream_id);
         self.senders.lock().unwrap().remove(&stream_id);
         self.receivers.lock().unwrap().remove(&stream_id);
         self.detached.lock().unwrap().remove(&stream_id);
-        self.metadata.lock().unwrap().remove(&stream_id);
     }
 
     /// Get information about a stream (for debugging)
@@ -184,6 +190,8 @@ impl StreamManager {
     /// Streams whose receiver was taken and is still alive are kept: a response body
     /// forwarded from upstream may still be on its way to the previous client.
     pub fn clear(&self) {
+        self.metadata.lock().unwrap().clear();
+
         let mut detached = self.detached.lock().unwrap();
         let mut senders = self.senders.lock().unwrap();
         senders.retain(|id, tx| detached.contains(id) && !tx.is_closed());
@@ -192,7 +200,6 @@ impl StreamManager {
         drop(detached);
 
         self.receivers.lock().unwrap().clear();
-        self.metadata.lock().unwrap().clear();
         // next_id is NOT reset: producers and consumers of an earlier request may still
         // hold its stream IDs, which must never designate a stream of the next request.
     }
-- 
2.43.0


From 6d61b9f33db869dfe3fead6696f485f86e85de92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:46 +0000
Subject: [PATCH 08/90] fix: count deferred destructions under the queue lock
 so that the pending count cannot underflow

---
 src/gc/deferred_destruction.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/gc/deferred_destruction.rs b/src/gc/deferred_destruction.rs
index eb9a4b2..6127756 100644
--- a/src/gc/deferred_destruction.rs
+++ b/src/gc/deferred_destruction.rs
@@ -111,11 +111,16 @@ impl DeferredDestructionQueue {
     /// holding the isolate lock.
     pub fn defer<T: 'static>(&self, handle: v8::Global<T>) {
         let deferred = DeferredHandle::new(handle);
-        self.queue
-            .lock()
-            .expect("deferred destruction queue poisoned")
-            .push_back(deferred);
-        self.pending_count.fetch_add(1, Ordering::Release);
+
+        {
+            // Count under the lock: process_all() subtracts what it takes
+            let mut queue = self
+                .queue
+                .lock()
+                .expect("deferred destruction queue poisoned");
+            queue.push_back(deferred);
+            self.pending_count.fetch_add(1, Ordering::Release);
+        }
 
         tracing::trace!("Deferred V8 handle destruction (pending: {})", self.len());
     }
-- 
2.43.0


From ebbf4b717554d8e255ade6a36b8b40345e18229f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:46 +0000
Subject: [PATCH 09/90] fix: check and reserve ArrayBuffer quota atomically

---
 src/security/array_buffer_allocator.rs | 57 ++++++++++++--------------
 1 file changed, 27 insertions(+), 30 deletions(-)

diff --git a/src/security/array_buffer_allocator.rs b/src/security/array_buffer_allocator.rs
index 9571eac..73bb586 100644
--- a/src/security/array_buffer_allocator.rs
+++ b/src/security/array_buffer_allocator.rs
@@ -76,28 +76,36 @@ impl CustomAllocator {
     }
 }
 
+/// Add n bytes to the running total if that stays within the limit (atomic, thread-safe).
+///
+/// Check and update are one step: a denied request never counts against another one.
+fn reserve(allocator: &CustomAllocator, n: usize) -> bool {
+    let reserved = allocator
+        .count
+        .fetch_update(Ordering::SeqCst, Ordering::SeqCst, |count| {
+            count.checked_add(n).filter(|total| *total <= allocator.max)
+        });
+
+    match reserved {
+        Ok(_) => true,
+        Err(count) => {
+            eprintln!(
+                "[openworkers-runtime-v8] ArrayBuffer allocation denied: {}MB exceeds limit of {}MB",
+                count.saturating_add(n) / 1024 / 1024,
+                allocator.max / 1024 / 1024
+            );
+            // Set flag so the runtime knows why we failed
+            allocator.memory_limit_hit.store(true, Ordering::SeqCst);
+            false
+        }
+    }
+}
+
 /// Called by V8 when JS code does `new ArrayBuffer(n)` or `new Uint8Array(n)`.
 /// Returns a pointer to zeroed memory, or NULL if the limit is exceeded.
 #[allow(clippy::unnecessary_cast)]
 unsafe extern "C" fn allocate(allocator: &CustomAllocator, n: usize) -> *mut c_void {
-    // Optimistically add n bytes to our running total (atomic, thread-safe)
-    allocator.count.fetch_add(n, Ordering::SeqCst);
-
-    // Read the new total to check against the limit
-    let count_loaded = allocator.count.load(Ordering::SeqCst);
-
-    // If we've exceeded the limit, reject the allocation
-    if count_loaded > allocator.max {
-        eprintln!(
-            "[openworkers-runtime-v8] ArrayBuffer allocation denied: {}MB exceeds limit of {}MB",
-            count_loaded / 1024 / 1024,
-            allocator.max / 1024 / 1024
-        );
-        // Set flag so the runtime knows why we failed
-        allocator.memory_limit_hit.store(true, Ordering::SeqCst);
-        // IMPORTANT: rollback the count since we're not actually allocating
-        // Without this, failed allocations would permanently "use up" the quota
-        allocator.count.fetch_sub(n, Ordering::SeqCst);
+    if !reserve(allocator, n) {
         // Return NULL - V8 will throw RangeError: Array buffer allocation failed
         return std::ptr::null::<*mut [u8]>() as *mut c_void;
     }
@@ -115,18 +123,7 @@ unsafe extern "C" fn allocate(allocator: &CustomAllocator, n: usize) -> *mut c_v
 #[allow(clippy::unnecessary_cast)]
 #[allow(clippy::uninit_vec)]
 unsafe extern "C" fn allocate_uninitialized(allocator: &CustomAllocator, n: usize) -> *mut c_void {
-    allocator.count.fetch_add(n, Ordering::SeqCst);
-
-    let count_loaded = allocator.count.load(Ordering::SeqCst);
-
-    if count_loaded > allocator.max {
-        eprintln!(
-            "[openworkers-runtime-v8] ArrayBuffer allocation denied: {}MB exceeds limit of {}MB",
-            count_loaded / 1024 / 1024,
-            allocator.max / 1024 / 1024
-        );
-        allocator.memory_limit_hit.store(true, Ordering::SeqCst);
-        allocator.count.fetch_sub(n, Ordering::SeqCst);
+    if !reserve(allocator, n) {
         return std::ptr::null::<*mut [u8]>() as *mut c_void;
     }
 
-- 
2.43.0


From 772ebe1730e567b4c28fa210624d076980f70f9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:00 +0000
Subject: [PATCH 10/90] fix: report external memory to the isolate a guard
 belongs to, and take back only what was reported

---
 src/gc/external_memory.rs | 45 +++++++++++++++++++++++++--------------
 1 file changed, 29 insertions(+), 16 deletions(-)

diff --git a/src/gc/external_memory.rs b/src/gc/external_memory.rs
index 606a789..ed8f1b6 100644
--- a/src/gc/external_memory.rs
+++ b/src/gc/external_memory.rs
@@ -38,6 +38,8 @@ use super::js_lock::JsLock;
 /// ```
 pub struct ExternalMemoryGuard {
     amount: i64,
+    /// What the isolate was told so far (0 while no isolate is captured)
+    reported: i64,
     /// Per-isolate deferred memory accumulator.
     /// Captured at creation time so deferred drops go to the correct isolate.
     pending_delta: Option<Arc<AtomicI64>>,
@@ -64,6 +66,7 @@ impl ExternalMemoryGuard {
 
         Self {
             amount,
+            reported: if pending_delta.is_some() { amount } else { 0 },
             pending_delta,
         }
     }
@@ -76,6 +79,7 @@ impl ExternalMemoryGuard {
 
         Self {
             amount: 0,
+            reported: 0,
             pending_delta,
         }
     }
@@ -88,17 +92,32 @@ impl ExternalMemoryGuard {
         if delta != 0 {
             self.amount += delta;
 
-            if let Some(lock) = JsLock::try_current() {
-                lock.adjust_external_memory(delta);
+            // Capture the pending delta if we didn't have one yet
+            if self.pending_delta.is_none() {
+                self.pending_delta = JsLock::try_current().map(|lock| lock.pending_delta());
+            }
+
+            self.report(delta);
+        }
+    }
 
-                // Capture the pending delta if we didn't have one yet
-                if self.pending_delta.is_none() {
-                    self.pending_delta = Some(lock.pending_delta());
-                }
-            } else if let Some(ref pending) = self.pending_delta {
+    /// Tell the captured isolate about a change: at once if it is the one locked on
+    /// this thread, else on its next lock. Without captured isolate, nobody is told.
+    fn report(&mut self, delta: i64) {
+        let Some(ref pending) = self.pending_delta else {
+            return;
+        };
+
+        match JsLock::try_current() {
+            Some(lock) if Arc::ptr_eq(&lock.pending_delta(), pending) => {
+                lock.adjust_external_memory(delta);
+            }
+            _ => {
                 pending.fetch_add(delta, Ordering::SeqCst);
             }
         }
+
+        self.reported += delta;
     }
 
     /// Set the tracked amount to a new value.
@@ -116,15 +135,9 @@ impl ExternalMemoryGuard {
 
 impl Drop for ExternalMemoryGuard {
     fn drop(&mut self) {
-        if self.amount != 0 {
-            // Subtract our tracked memory
-            if let Some(lock) = JsLock::try_current() {
-                lock.adjust_external_memory(-self.amount);
-            } else if let Some(ref pending) = self.pending_delta {
-                pending.fetch_add(-self.amount, Ordering::SeqCst);
-            }
-            // else: no lock and no captured isolate — memory tracking lost.
-            // This only happens for guards created without a JsLock (tests).
+        // Subtract what was reported (nothing for a guard that never saw a JsLock)
+        if self.reported != 0 {
+            self.report(-self.reported);
         }
     }
 }
-- 
2.43.0


From 39f4a43607bf7f5b797a3d6dac92e47e1167191b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:16 +0000
Subject: [PATCH 11/90] fix: install the SIGALRM handler before the first CPU
 timer is armed

---
 src/security/cpu_enforcer.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/security/cpu_enforcer.rs b/src/security/cpu_enforcer.rs
index 4eebb9e..e0c928c 100644
--- a/src/security/cpu_enforcer.rs
+++ b/src/security/cpu_enforcer.rs
@@ -202,14 +202,20 @@ mod linux {
         static SIGNAL_THREAD_SPAWNED: Once = Once::new();
 
         SIGNAL_THREAD_SPAWNED.call_once(|| {
+            let (ready_tx, ready_rx) = std::sync::mpsc::channel();
+
             std::thread::Builder::new()
                 .name("cpu-enforcer".into())
-                .spawn(signal_handler_thread)
+                .spawn(move || signal_handler_thread(ready_tx))
                 .expect("Failed to spawn CPU enforcer signal handler thread");
+
+            // No timer may be armed before the handler is in place: the default
+            // action of SIGALRM ends the process.
+            let _ = ready_rx.recv();
         });
     }
 
-    fn signal_handler_thread() {
+    fn signal_handler_thread(ready_tx: std::sync::mpsc::Sender<()>) {
         use futures::StreamExt;
         use signal_hook::consts::signal;
         use signal_hook::iterator::exfiltrator::raw::WithRawSiginfo;
@@ -225,6 +231,7 @@ mod linux {
             // Setup async-signal-safe SIGALRM handler with raw siginfo extraction
             let mut signals = SignalsInfo::with_exfiltrator([signal::SIGALRM], WithRawSiginfo)
                 .expect("Failed to register SIGALRM handler");
+            let _ = ready_tx.send(());
 
             while let Some(siginfo) = signals.next().await {
                 // Extract enforcer_id from signal value (set in timer_create)
-- 
2.43.0


From c586dc14f459377bd7869a380ff457084a13c819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:18 +0000
Subject: [PATCH 12/90] fix: TextEncoder.encode() of undefined is empty,
 encodeInto() writes whole characters and reports what it read

---
 src/runtime/text_encoding.rs | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/src/runtime/text_encoding.rs b/src/runtime/text_encoding.rs
index d278535..b24123f 100644
--- a/src/runtime/text_encoding.rs
+++ b/src/runtime/text_encoding.rs
@@ -9,10 +9,13 @@ fn text_encode(
     args: v8::FunctionCallbackArguments,
     mut rv: v8::ReturnValue,
 ) {
-    let input = if let Some(arg) = args.get(0).to_string(scope) {
+    let input = if args.get(0).is_undefined() {
+        String::new()
+    } else if let Some(arg) = args.get(0).to_string(scope) {
         arg.to_rust_string_lossy(scope)
     } else {
-        String::new()
+        // The conversion threw
+        return;
     };
 
     let bytes = input.as_bytes();
@@ -152,10 +155,21 @@ pub const TEXT_ENCODING_JS: &str = r#"
         }
 
         encodeInto(source, destination) {
-            const encoded = __text_encode(source);
-            const len = Math.min(encoded.length, destination.length);
-            destination.set(encoded.subarray(0, len));
-            return { read: len, written: len };
+            const text = `${source}`;
+            let read = 0;
+            let written = 0;
+
+            // Only whole characters are written; read counts UTF-16 code units
+            for (const char of text) {
+                const code = char.codePointAt(0);
+                const size = code < 0x80 ? 1 : code < 0x800 ? 2 : code < 0x10000 ? 3 : 4;
+                if (written + size > destination.length) break;
+                read += char.length;
+                written += size;
+            }
+
+            destination.set(__text_encode(text.slice(0, read)));
+            return { read, written };
         }
     };
 
-- 
2.43.0


From 04fa07ac7c99dc2dce52d928654818a2b2363fee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:49 +0000
Subject: [PATCH 13/90] fix: TextDecoder removes the byte order mark, and
 reports the name of the encoding instead of the label

---
 src/runtime/text_encoding.rs | 97 +++++++++++++++++++-----------------
 1 file changed, 52 insertions(+), 45 deletions(-)

diff --git a/src/runtime/text_encoding.rs b/src/runtime/text_encoding.rs
index b24123f..dbec71c 100644
--- a/src/runtime/text_encoding.rs
+++ b/src/runtime/text_encoding.rs
@@ -39,6 +39,7 @@ fn text_decode(
     // arg0: Uint8Array or ArrayBuffer
     // arg1: encoding label (string)
     // arg2: fatal (bool) — if true, throw on invalid sequences instead of replacing
+    // arg3: ignoreBOM (bool) — if true, keep a byte order mark instead of removing it
 
     let input = args.get(0);
 
@@ -84,46 +85,58 @@ fn text_decode(
         false
     };
 
-    // Look up encoding
-    let encoding = match encoding_rs::Encoding::for_label(encoding_label.as_bytes()) {
-        Some(enc) => enc,
-        None => {
-            let msg = v8::String::new(
-                scope,
-                &format!(
-                    "TextDecoder: '{}' is not a supported encoding",
-                    encoding_label
-                ),
-            )
-            .unwrap();
-            let exc = v8::Exception::range_error(scope, msg);
-            scope.throw_exception(exc);
-            return;
-        }
-    };
+    let ignore_bom = args.length() > 3 && args.get(3).boolean_value(scope);
 
-    let result = if fatal {
-        // Fatal mode: return error on invalid sequences
-        let (decoded, had_errors) = encoding.decode_without_bom_handling(&bytes);
-
-        if had_errors {
-            let msg = v8::String::new(scope, "TextDecoder: invalid byte sequence").unwrap();
-            let exc = v8::Exception::type_error(scope, msg);
-            scope.throw_exception(exc);
-            return;
-        }
+    let Some(encoding) = find_encoding(scope, &encoding_label) else {
+        return;
+    };
 
-        decoded.into_owned()
+    let (decoded, had_errors) = if ignore_bom {
+        encoding.decode_without_bom_handling(&bytes)
     } else {
-        // Replacement mode: replace invalid sequences with U+FFFD
-        let (decoded, _) = encoding.decode_without_bom_handling(&bytes);
-        decoded.into_owned()
+        encoding.decode_with_bom_removal(&bytes)
     };
 
-    let v8_str = v8::String::new(scope, &result).unwrap();
+    // Fatal mode: throw on invalid sequences (otherwise they became U+FFFD)
+    if fatal && had_errors {
+        let msg = v8::String::new(scope, "TextDecoder: invalid byte sequence").unwrap();
+        let exc = v8::Exception::type_error(scope, msg);
+        scope.throw_exception(exc);
+        return;
+    }
+
+    let v8_str = v8::String::new(scope, &decoded).unwrap();
     rv.set(v8_str.into());
 }
 
+/// Native helper of the TextDecoder constructor: label → name of the encoding
+fn text_encoding_name(
+    scope: &mut v8::PinScope,
+    args: v8::FunctionCallbackArguments,
+    mut rv: v8::ReturnValue,
+) {
+    let label = args.get(0).to_rust_string_lossy(scope);
+
+    if let Some(encoding) = find_encoding(scope, &label) {
+        let name = v8::String::new(scope, &encoding.name().to_lowercase()).unwrap();
+        rv.set(name.into());
+    }
+}
+
+/// Look up the encoding for a label; throws a RangeError if there is none.
+fn find_encoding(scope: &mut v8::PinScope, label: &str) -> Option<&'static encoding_rs::Encoding> {
+    let encoding = encoding_rs::Encoding::for_label_no_replacement(label.as_bytes());
+
+    if encoding.is_none() {
+        let msg = format!("TextDecoder: '{}' is not a supported encoding", label);
+        let msg = v8::String::new(scope, &msg).unwrap();
+        let exc = v8::Exception::range_error(scope, msg);
+        scope.throw_exception(exc);
+    }
+
+    encoding
+}
+
 /// Register native __text_encode and __text_decode functions on globalThis.
 ///
 /// Must be called at runtime (not in snapshot) because native functions
@@ -138,6 +151,10 @@ pub fn setup_text_encoding_natives(scope: &mut v8::PinScope) {
     let decode_fn = v8::Function::new(scope, text_decode).unwrap();
     let key = v8::String::new(scope, "__text_decode").unwrap();
     global.set(scope, key.into(), decode_fn.into());
+
+    let name_fn = v8::Function::new(scope, text_encoding_name).unwrap();
+    let key = v8::String::new(scope, "__text_encoding_name").unwrap();
+    global.set(scope, key.into(), name_fn.into());
 }
 
 /// JS source for TextEncoder/TextDecoder class wrappers.
@@ -179,23 +196,13 @@ pub const TEXT_ENCODING_JS: &str = r#"
         #ignoreBOM;
 
         constructor(label = 'utf-8', options = {}) {
-            this.#encoding = label.toLowerCase().trim();
+            // Throws a RangeError for labels which are not supported
+            this.#encoding = __text_encoding_name(`${label}`);
             this.#fatal = !!options.fatal;
             this.#ignoreBOM = !!options.ignoreBOM;
-
-            // Validate encoding by attempting a decode
-            // encoding_rs will reject invalid labels
-            try {
-                __text_decode(new Uint8Array(0), this.#encoding, this.#fatal);
-            } catch (e) {
-                if (e instanceof RangeError) throw e;
-                throw e;
-            }
         }
 
         get encoding() {
-            // encoding_rs normalizes labels, but we store the canonical name
-            // The spec says to return the lowercase name
             return this.#encoding;
         }
 
@@ -218,7 +225,7 @@ pub const TEXT_ENCODING_JS: &str = r#"
                         ? new Uint8Array(input)
                         : input;
 
-            return __text_decode(bytes, this.#encoding, this.#fatal);
+            return __text_decode(bytes, this.#encoding, this.#fatal, this.#ignoreBOM);
         }
     };
 "#;
-- 
2.43.0


From ac0bba2dc8c00906b698f0d1fb2176d97a208d8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:49 +0000
Subject: [PATCH 14/90] fix: HMAC sign and verify accept HMAC keys only

---
 src/runtime/crypto/hmac.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/runtime/crypto/hmac.rs b/src/runtime/crypto/hmac.rs
index 09aab2b..7e6fa0e 100644
--- a/src/runtime/crypto/hmac.rs
+++ b/src/runtime/crypto/hmac.rs
@@ -199,7 +199,7 @@ pub(super) fn setup_hmac(scope: &mut v8::PinScope, subtle_obj: v8::Local<v8::Obj
                         return;
                     }
 
-                    if (!key.__keyData) {
+                    if (!key.__keyData || key.algorithm.name !== 'HMAC') {
                         reject(new Error('Invalid key'));
                         return;
                     }
@@ -238,7 +238,7 @@ pub(super) fn setup_hmac(scope: &mut v8::PinScope, subtle_obj: v8::Local<v8::Obj
                         return;
                     }
 
-                    if (!key.__keyData) {
+                    if (!key.__keyData || key.algorithm.name !== 'HMAC') {
                         reject(new Error('Invalid key'));
                         return;
                     }
-- 
2.43.0


From d994d883d819a496376f42b420798aa438ab084b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:49 +0000
Subject: [PATCH 15/90] fix: importKey copies the key bytes instead of
 referring to the caller's buffer

---
 src/runtime/crypto/ecdsa.rs  | 4 ++--
 src/runtime/crypto/hmac.rs   | 4 ++--
 src/runtime/crypto/pbkdf2.rs | 4 ++--
 src/runtime/crypto/rsa.rs    | 4 ++--
 4 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/runtime/crypto/ecdsa.rs b/src/runtime/crypto/ecdsa.rs
index b85a682..560d694 100644
--- a/src/runtime/crypto/ecdsa.rs
+++ b/src/runtime/crypto/ecdsa.rs
@@ -247,9 +247,9 @@ pub(super) fn setup_ecdsa(scope: &mut v8::PinScope, subtle_obj: v8::Local<v8::Ob
                     if (algoName === 'ECDSA') {
                         let keyBytes;
                         if (keyData instanceof ArrayBuffer) {
-                            keyBytes = new Uint8Array(keyData);
+                            keyBytes = new Uint8Array(keyData.slice(0));
                         } else if (keyData instanceof Uint8Array) {
-                            keyBytes = keyData;
+                            keyBytes = new Uint8Array(keyData);
                         } else {
                             reject(new Error('Key data must be ArrayBuffer or Uint8Array'));
                             return;
diff --git a/src/runtime/crypto/hmac.rs b/src/runtime/crypto/hmac.rs
index 7e6fa0e..d658b96 100644
--- a/src/runtime/crypto/hmac.rs
+++ b/src/runtime/crypto/hmac.rs
@@ -165,9 +165,9 @@ pub(super) fn setup_hmac(scope: &mut v8::PinScope, subtle_obj: v8::Local<v8::Obj
 
                     let keyBytes;
                     if (keyData instanceof ArrayBuffer) {
-                        keyBytes = new Uint8Array(keyData);
+                        keyBytes = new Uint8Array(keyData.slice(0));
                     } else if (keyData instanceof Uint8Array) {
-                        keyBytes = keyData;
+                        keyBytes = new Uint8Array(keyData);
                     } else {
                         reject(new Error('Key data must be ArrayBuffer or Uint8Array'));
                         return;
diff --git a/src/runtime/crypto/pbkdf2.rs b/src/runtime/crypto/pbkdf2.rs
index 51252c3..63b54ea 100644
--- a/src/runtime/crypto/pbkdf2.rs
+++ b/src/runtime/crypto/pbkdf2.rs
@@ -101,9 +101,9 @@ pub(super) fn setup_pbkdf2(scope: &mut v8::PinScope, subtle_obj: v8::Local<v8::O
 
                         let keyBytes;
                         if (keyData instanceof ArrayBuffer) {
-                            keyBytes = new Uint8Array(keyData);
+                            keyBytes = new Uint8Array(keyData.slice(0));
                         } else if (keyData instanceof Uint8Array) {
-                            keyBytes = keyData;
+                            keyBytes = new Uint8Array(keyData);
                         } else if (typeof keyData === 'string') {
                             keyBytes = new TextEncoder().encode(keyData);
                         } else {
diff --git a/src/runtime/crypto/rsa.rs b/src/runtime/crypto/rsa.rs
index bceb9b2..19a0c6b 100644
--- a/src/runtime/crypto/rsa.rs
+++ b/src/runtime/crypto/rsa.rs
@@ -169,9 +169,9 @@ pub(super) fn setup_rsa(scope: &mut v8::PinScope, subtle_obj: v8::Local<v8::Obje
                     if (algoName === 'RSASSA-PKCS1-v1_5') {
                         let keyBytes;
                         if (keyData instanceof ArrayBuffer) {
-                            keyBytes = new Uint8Array(keyData);
+                            keyBytes = new Uint8Array(keyData.slice(0));
                         } else if (keyData instanceof Uint8Array) {
-                            keyBytes = keyData;
+                            keyBytes = new Uint8Array(keyData);
                         } else {
                             reject(new Error('Key data must be ArrayBuffer or Uint8Array'));
                             return;
-- 
2.43.0


From 4f6e3f099baf5c01a0ec590c96267aa34a6f59a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:49 +0000
Subject: [PATCH 16/90] fix: RSA keys in PKCS#8 and SPKI format can be used

---
 src/runtime/crypto/rsa.rs | 48 ++++++++++++++++++++++++++++++++++++---
 1 file changed, 45 insertions(+), 3 deletions(-)

diff --git a/src/runtime/crypto/rsa.rs b/src/runtime/crypto/rsa.rs
index 19a0c6b..c288e66 100644
--- a/src/runtime/crypto/rsa.rs
+++ b/src/runtime/crypto/rsa.rs
@@ -1,6 +1,43 @@
 use ring::{rand, rsa, signature};
 use v8;
 
+/// The RSAPublicKey (PKCS#1) inside a SubjectPublicKeyInfo with algorithm rsaEncryption.
+fn rsa_public_key_of_spki(der: &[u8]) -> Option<&[u8]> {
+    // AlgorithmIdentifier: SEQUENCE { OID 1.2.840.113549.1.1.1, NULL }
+    const RSA_ENCRYPTION: &[u8] = &[
+        0x30, 0x0d, 0x06, 0x09, 0x2a, 0x86, 0x48, 0x86, 0xf7, 0x0d, 0x01, 0x01, 0x01, 0x05, 0x00,
+    ];
+
+    let (spki, rest) = read_der(der, 0x30)?;
+    let (bits, trailing) = read_der(spki.strip_prefix(RSA_ENCRYPTION)?, 0x03)?;
+
+    if !rest.is_empty() || !trailing.is_empty() {
+        return None;
+    }
+
+    bits.strip_prefix(&[0])
+}
+
+/// Contents of the DER element at the start of `input`, and what follows it.
+fn read_der(input: &[u8], tag: u8) -> Option<(&[u8], &[u8])> {
+    let input = input.strip_prefix(&[tag])?;
+    let (&first, mut input) = input.split_first()?;
+    let mut len = first as usize;
+
+    if first >= 0x80 {
+        let (bytes, rest) = input.split_at_checked(len & 0x7f)?;
+
+        if bytes.len() > 4 {
+            return None;
+        }
+
+        len = bytes.iter().fold(0, |n, b| n << 8 | *b as usize);
+        input = rest;
+    }
+
+    input.split_at_checked(len)
+}
+
 pub(super) fn setup_rsa(scope: &mut v8::PinScope, subtle_obj: v8::Local<v8::Object>) {
     // Native RSA sign: __nativeRsaSign(hashAlgo, privateKeyDer, data) -> ArrayBuffer
     let sign_fn = v8::Function::new(
@@ -52,8 +89,10 @@ pub(super) fn setup_rsa(scope: &mut v8::PinScope, subtle_obj: v8::Local<v8::Obje
                 }
             };
 
-            // Load RSA key pair from DER
-            let key_pair = match rsa::KeyPair::from_der(&private_key_data) {
+            // Load RSA key pair from DER: PKCS#8, or the PKCS#1 key which it wraps
+            let key_pair = match rsa::KeyPair::from_pkcs8(&private_key_data)
+                .or_else(|_| rsa::KeyPair::from_der(&private_key_data))
+            {
                 Ok(kp) => kp,
                 Err(_) => {
                     retval.set(v8::undefined(scope).into());
@@ -142,7 +181,10 @@ pub(super) fn setup_rsa(scope: &mut v8::PinScope, subtle_obj: v8::Local<v8::Obje
                     }
                 };
 
-            let public_key = signature::UnparsedPublicKey::new(algorithm, &public_key_data);
+            let public_key = signature::UnparsedPublicKey::new(
+                algorithm,
+                rsa_public_key_of_spki(&public_key_data).unwrap_or(&public_key_data),
+            );
             let is_valid = public_key.verify(&data, &sig_data).is_ok();
 
             retval.set(v8::Boolean::new(scope, is_valid).into());
-- 
2.43.0


From deb795ca65a4de6e3c417b94a63b2c39c61deacf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:43 +0000
Subject: [PATCH 17/90] fix: getRandomValues fills every integer TypedArray,
 rejects other values, and accepts empty arrays

---
 src/runtime/crypto/random.rs | 44 +++++++++++++++++++++++++-----------
 1 file changed, 31 insertions(+), 13 deletions(-)

diff --git a/src/runtime/crypto/random.rs b/src/runtime/crypto/random.rs
index 882821d..34b79b2 100644
--- a/src/runtime/crypto/random.rs
+++ b/src/runtime/crypto/random.rs
@@ -13,31 +13,49 @@ pub(super) fn setup_get_random_values(scope: &mut v8::PinScope, crypto_obj: v8::
 
             let array = args.get(0);
 
-            if let Ok(uint8_array) = v8::Local::<v8::Uint8Array>::try_from(array) {
-                let len = uint8_array.byte_length();
-                let mut bytes = vec![0u8; len];
+            let is_integer_array =
+                array.is_typed_array() && !array.is_float32_array() && !array.is_float64_array();
 
-                // Fill with random bytes using ring
-                let rng = rand::SystemRandom::new();
+            let view = match v8::Local::<v8::ArrayBufferView>::try_from(array) {
+                Ok(view) if is_integer_array => view,
+                _ => {
+                    let msg = v8::String::new(
+                        scope,
+                        "crypto.getRandomValues: argument must be an integer TypedArray",
+                    )
+                    .unwrap();
+                    let exc = v8::Exception::type_error(scope, msg);
+                    scope.throw_exception(exc);
+                    return;
+                }
+            };
+
+            let len = view.byte_length();
+            let mut bytes = vec![0u8; len];
+
+            // Fill with random bytes using ring
+            let rng = rand::SystemRandom::new();
 
-                if rand::SecureRandom::fill(&rng, &mut bytes).is_ok() {
-                    // Copy back to the typed array
-                    if let Some(buffer) = uint8_array.buffer(scope) {
-                        let backing_store = buffer.get_backing_store();
-                        let offset = uint8_array.byte_offset();
+            if rand::SecureRandom::fill(&rng, &mut bytes).is_ok() {
+                // Copy back to the typed array
+                if let Some(buffer) = view.buffer(scope) {
+                    let backing_store = buffer.get_backing_store();
+                    let offset = view.byte_offset();
 
+                    // No data if the buffer is empty
+                    if let Some(data) = backing_store.data() {
                         unsafe {
                             std::ptr::copy_nonoverlapping(
                                 bytes.as_ptr(),
-                                (backing_store.data().unwrap().as_ptr() as *mut u8).add(offset),
+                                (data.as_ptr() as *mut u8).add(offset),
                                 len,
                             );
                         }
                     }
                 }
-
-                retval.set(array);
             }
+
+            retval.set(array);
         },
     )
     .unwrap();
-- 
2.43.0


From b08a146042251abb344961308d7cd8c8c1a55d5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:28 +0000
Subject: [PATCH 18/90] fix: deriveBits rejects lengths that are no multiple of
 8 and allocates within the memory limit

---
 src/runtime/crypto/pbkdf2.rs | 29 ++++++++++++++++++++---------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/src/runtime/crypto/pbkdf2.rs b/src/runtime/crypto/pbkdf2.rs
index 63b54ea..b08a1a6 100644
--- a/src/runtime/crypto/pbkdf2.rs
+++ b/src/runtime/crypto/pbkdf2.rs
@@ -2,7 +2,7 @@ use ring::pbkdf2;
 use v8;
 
 pub(super) fn setup_pbkdf2(scope: &mut v8::PinScope, subtle_obj: v8::Local<v8::Object>) {
-    // Native PBKDF2: __nativePbkdf2DeriveBits(hashAlgo, password, salt, iterations, lengthBits) -> ArrayBuffer
+    // Native PBKDF2: __nativePbkdf2DeriveBits(hashAlgo, password, salt, iterations, output) -> ArrayBuffer
     let derive_fn = v8::Function::new(
         scope,
         |scope: &mut v8::PinScope,
@@ -48,15 +48,11 @@ pub(super) fn setup_pbkdf2(scope: &mut v8::PinScope, subtle_obj: v8::Local<v8::O
                 return;
             };
 
-            let length_bits = if let Some(n) = args.get(4).number_value(scope) {
-                n as usize
-            } else {
+            let Ok(output) = v8::Local::<v8::Uint8Array>::try_from(args.get(4)) else {
                 retval.set(v8::undefined(scope).into());
                 return;
             };
 
-            let length_bytes = length_bits / 8;
-
             let algorithm = match hash_algo.to_uppercase().as_str() {
                 "SHA-1" => pbkdf2::PBKDF2_HMAC_SHA1,
                 "SHA-256" => pbkdf2::PBKDF2_HMAC_SHA256,
@@ -71,10 +67,17 @@ pub(super) fn setup_pbkdf2(scope: &mut v8::PinScope, subtle_obj: v8::Local<v8::O
             let iterations = std::num::NonZeroU32::new(iterations)
                 .unwrap_or(std::num::NonZeroU32::new(1).unwrap());
 
-            let mut out = vec![0u8; length_bytes];
+            let mut out = vec![0u8; output.byte_length()];
             pbkdf2::derive(algorithm, iterations, &salt, &password, &mut out);
 
-            let array_buffer = crate::v8_helpers::create_array_buffer_from_vec(scope, out);
+            let Some(array_buffer) = output.buffer(scope) else {
+                retval.set(v8::undefined(scope).into());
+                return;
+            };
+
+            for (cell, byte) in array_buffer.get_backing_store().iter().zip(&out) {
+                cell.set(*byte);
+            }
 
             retval.set(array_buffer.into());
         },
@@ -158,12 +161,20 @@ pub(super) fn setup_pbkdf2(scope: &mut v8::PinScope, subtle_obj: v8::Local<v8::O
                         return;
                     }
 
+                    if (!Number.isInteger(length) || length < 0 || length % 8 !== 0) {
+                        reject(new Error('Length must be a multiple of 8'));
+                        return;
+                    }
+
                     const hashName = typeof algorithm.hash === 'string'
                         ? algorithm.hash
                         : algorithm.hash.name;
 
+                    // Throws a RangeError if the memory limit does not allow for it
+                    const output = new Uint8Array(length / 8);
+
                     const result = crypto.subtle.__nativePbkdf2DeriveBits(
-                        hashName, baseKey.__keyData, salt, iterations, length
+                        hashName, baseKey.__keyData, salt, iterations, output
                     );
 
                     if (result) {
-- 
2.43.0


From b1970b56ffe79781af85543c9eb66b027367afee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:28 +0000
Subject: [PATCH 19/90] fix: URLSearchParams keeps '=' in values, decodes '+',
 accepts malformed escapes and sorts by code units

---
 src/runtime/bindings/web_api.rs | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/runtime/bindings/web_api.rs b/src/runtime/bindings/web_api.rs
index e8d5ac2..43f0c64 100644
--- a/src/runtime/bindings/web_api.rs
+++ b/src/runtime/bindings/web_api.rs
@@ -457,11 +457,19 @@ pub fn setup_url_search_params(scope: &mut v8::PinScope) {
                 if (typeof init === 'string') {
                     // Parse query string
                     const str = init.startsWith('?') ? init.slice(1) : init;
-                    if (str) {
-                        for (const pair of str.split('&')) {
-                            const [key, value = ''] = pair.split('=').map(decodeURIComponent);
-                            this._entries.push([key, value]);
-                        }
+                    const decoder = new TextDecoder('utf-8', { ignoreBOM: true });
+                    const decode = (s) => s
+                        .replace(/\+/g, ' ')
+                        .replace(/(?:%[0-9a-f]{2})+/gi, (escapes) => decoder.decode(
+                            Uint8Array.from(escapes.slice(1).split('%'), (hex) => parseInt(hex, 16))
+                        ));
+
+                    for (const pair of str.split('&')) {
+                        if (!pair) continue;
+                        const eq = pair.indexOf('=');
+                        const key = eq === -1 ? pair : pair.slice(0, eq);
+                        const value = eq === -1 ? '' : pair.slice(eq + 1);
+                        this._entries.push([decode(key), decode(value)]);
                     }
                 } else if (init instanceof URLSearchParams) {
                     this._entries = init._entries.map(e => [...e]);
@@ -534,7 +542,7 @@ pub fn setup_url_search_params(scope: &mut v8::PinScope) {
             }
 
             sort() {
-                this._entries.sort((a, b) => a[0].localeCompare(b[0]));
+                this._entries.sort(([a], [b]) => (a < b ? -1 : a > b ? 1 : 0));
                 this._update();
             }
 
-- 
2.43.0


From 0184596497fa99af47415b63e3ed8417813ca664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:28 +0000
Subject: [PATCH 20/90] fix: text() and arrayBuffer() of a Response without
 body are empty instead of a TypeError

---
 src/runtime/bindings/web_api.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/runtime/bindings/web_api.rs b/src/runtime/bindings/web_api.rs
index 43f0c64..71c2b28 100644
--- a/src/runtime/bindings/web_api.rs
+++ b/src/runtime/bindings/web_api.rs
@@ -1139,6 +1139,10 @@ pub fn setup_response(scope: &mut v8::PinScope) {
                 }
                 this.bodyUsed = true;
 
+                if (!this.body) {
+                    return '';
+                }
+
                 const reader = this.body.getReader();
                 const chunks = [];
 
@@ -1170,6 +1174,10 @@ pub fn setup_response(scope: &mut v8::PinScope) {
                 }
                 this.bodyUsed = true;
 
+                if (!this.body) {
+                    return new ArrayBuffer(0);
+                }
+
                 const reader = this.body.getReader();
                 const chunks = [];
 
-- 
2.43.0


From bf966d6bea99443e0a9ee49bf80ef3622f5f673d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:28 +0000
Subject: [PATCH 21/90] fix: structuredClone keeps shared references, DataView
 bounds and __proto__ keys, and refuses functions and symbols

---
 src/runtime/bindings/web_api.rs | 30 ++++++++++++++++++++++++------
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/src/runtime/bindings/web_api.rs b/src/runtime/bindings/web_api.rs
index 71c2b28..ac54132 100644
--- a/src/runtime/bindings/web_api.rs
+++ b/src/runtime/bindings/web_api.rs
@@ -292,6 +292,10 @@ pub fn setup_structured_clone(scope: &mut v8::PinScope) {
             // Use JSON for simple cases, but handle more types
             function clone(obj, seen = new Map()) {
                 // Primitives
+                if (typeof obj === 'function' || typeof obj === 'symbol') {
+                    throw new DOMException('Value could not be cloned', 'DataCloneError');
+                }
+
                 if (obj === null || typeof obj !== 'object') {
                     return obj;
                 }
@@ -303,25 +307,33 @@ pub fn setup_structured_clone(scope: &mut v8::PinScope) {
 
                 // Date
                 if (obj instanceof Date) {
-                    return new Date(obj.getTime());
+                    const copy = new Date(obj.getTime());
+                    seen.set(obj, copy);
+                    return copy;
                 }
 
                 // RegExp
                 if (obj instanceof RegExp) {
-                    return new RegExp(obj.source, obj.flags);
+                    const copy = new RegExp(obj.source, obj.flags);
+                    seen.set(obj, copy);
+                    return copy;
                 }
 
                 // ArrayBuffer
                 if (obj instanceof ArrayBuffer) {
                     const copy = new ArrayBuffer(obj.byteLength);
                     new Uint8Array(copy).set(new Uint8Array(obj));
+                    seen.set(obj, copy);
                     return copy;
                 }
 
-                // TypedArrays
+                // TypedArrays and DataView
                 if (ArrayBuffer.isView(obj)) {
-                    const TypedArrayConstructor = obj.constructor;
-                    return new TypedArrayConstructor(clone(obj.buffer, seen), obj.byteOffset, obj.length);
+                    const ViewConstructor = obj.constructor;
+                    const length = obj instanceof DataView ? obj.byteLength : obj.length;
+                    const copy = new ViewConstructor(clone(obj.buffer, seen), obj.byteOffset, length);
+                    seen.set(obj, copy);
+                    return copy;
                 }
 
                 // Map
@@ -358,7 +370,13 @@ pub fn setup_structured_clone(scope: &mut v8::PinScope) {
                 const copy = {};
                 seen.set(obj, copy);
                 for (const key of Object.keys(obj)) {
-                    copy[key] = clone(obj[key], seen);
+                    // Defined, not assigned: the key may be "__proto__"
+                    Object.defineProperty(copy, key, {
+                        value: clone(obj[key], seen),
+                        writable: true,
+                        enumerable: true,
+                        configurable: true
+                    });
                 }
                 return copy;
             }
-- 
2.43.0


From b241a07cd053087a8f442f0175bee6763fc64fbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:28 +0000
Subject: [PATCH 22/90] fix: a Blob copies its parts and hands out copies

---
 src/runtime/bindings/web_api.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/runtime/bindings/web_api.rs b/src/runtime/bindings/web_api.rs
index ac54132..6bbe9f9 100644
--- a/src/runtime/bindings/web_api.rs
+++ b/src/runtime/bindings/web_api.rs
@@ -58,9 +58,9 @@ pub fn setup_blob(scope: &mut v8::PinScope) {
                     if (part instanceof Blob) {
                         this._parts.push(...part._parts);
                     } else if (part instanceof ArrayBuffer) {
-                        this._parts.push(new Uint8Array(part));
+                        this._parts.push(new Uint8Array(part.slice(0)));
                     } else if (ArrayBuffer.isView(part)) {
-                        this._parts.push(new Uint8Array(part.buffer, part.byteOffset, part.byteLength));
+                        this._parts.push(new Uint8Array(part.buffer, part.byteOffset, part.byteLength).slice());
                     } else {
                         this._parts.push(new TextEncoder().encode(String(part)));
                     }
@@ -78,7 +78,7 @@ pub fn setup_blob(scope: &mut v8::PinScope) {
             }
 
             async arrayBuffer() {
-                return this._getBytes().buffer;
+                return this._getBytes().slice().buffer;
             }
 
             async text() {
@@ -86,7 +86,7 @@ pub fn setup_blob(scope: &mut v8::PinScope) {
             }
 
             stream() {
-                const bytes = this._getBytes();
+                const bytes = this._getBytes().slice();
                 return new ReadableStream({
                     start(controller) {
                         controller.enqueue(bytes);
-- 
2.43.0


From a6e60acb8dc092564b1ed49c96633f2e3228bfde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:28 +0000
Subject: [PATCH 23/90] fix: atob throws for input that is not base64 instead
 of returning garbage

---
 src/runtime/bindings/web_api.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/runtime/bindings/web_api.rs b/src/runtime/bindings/web_api.rs
index 6bbe9f9..bca10c6 100644
--- a/src/runtime/bindings/web_api.rs
+++ b/src/runtime/bindings/web_api.rs
@@ -437,8 +437,13 @@ pub fn setup_base64(scope: &mut v8::PinScope) {
         // atob: base64 → binary string
         // Returns a string where each char is one byte (latin-1), NOT UTF-8.
         globalThis.atob = function(base64) {
-            base64 = base64.replace(/[\s=]/g, '');
+            base64 = String(base64).replace(/[\s=]/g, '');
             const len = base64.length;
+
+            if (len % 4 === 1 || /[^A-Za-z0-9+/_-]/.test(base64)) {
+                throw new DOMException('Invalid character', 'InvalidCharacterError');
+            }
+
             const outLen = (len * 3) >>> 2;
             let result = '';
 
-- 
2.43.0


From 1daad5297647d3e1f0e5b4b473d7dad4ab33f2dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:28 +0000
Subject: [PATCH 24/90] fix: FormData converts values other than blobs to
 strings

---
 src/runtime/bindings/web_api.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/runtime/bindings/web_api.rs b/src/runtime/bindings/web_api.rs
index bca10c6..b1b90b6 100644
--- a/src/runtime/bindings/web_api.rs
+++ b/src/runtime/bindings/web_api.rs
@@ -135,7 +135,7 @@ pub fn setup_form_data(scope: &mut v8::PinScope) {
                 if (value instanceof Blob && filename === undefined && value instanceof File) {
                     filename = value.name;
                 }
-                this._entries.push([String(name), value, filename]);
+                this._entries.push([String(name), value instanceof Blob ? value : String(value), filename]);
             }
 
             delete(name) {
@@ -167,7 +167,7 @@ pub fn setup_form_data(scope: &mut v8::PinScope) {
                 // Remove all existing entries with this name
                 this._entries = this._entries.filter(([k]) => k !== strName);
                 // Add the new entry
-                this._entries.push([strName, value, filename]);
+                this._entries.push([strName, value instanceof Blob ? value : String(value), filename]);
             }
 
             *entries() {
-- 
2.43.0


From a2722ef1092c4a0e33aef35141d8e037b3d5f08d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:28 +0000
Subject: [PATCH 25/90] fix: Request and Response accept every buffer view and
 Blob as body and copy its bytes

---
 src/runtime/bindings/web_api.rs | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/runtime/bindings/web_api.rs b/src/runtime/bindings/web_api.rs
index b1b90b6..962fd22 100644
--- a/src/runtime/bindings/web_api.rs
+++ b/src/runtime/bindings/web_api.rs
@@ -881,8 +881,13 @@ pub fn setup_request(scope: &mut v8::PinScope) {
             _initBody(body) {
                 if (body instanceof ReadableStream) {
                     this.body = body;
-                } else if (body instanceof Uint8Array || body instanceof ArrayBuffer) {
-                    const bytes = body instanceof Uint8Array ? body : new Uint8Array(body);
+                } else if (ArrayBuffer.isView(body) || body instanceof ArrayBuffer || body instanceof Blob) {
+                    // A copy: the caller may change its buffer later
+                    const bytes = body instanceof Blob
+                        ? body._getBytes()
+                        : body instanceof ArrayBuffer
+                            ? new Uint8Array(body.slice(0))
+                            : new Uint8Array(body.buffer, body.byteOffset, body.byteLength).slice();
                     this.body = new ReadableStream({
                         start(controller) {
                             controller.enqueue(bytes);
@@ -1131,8 +1136,13 @@ pub fn setup_response(scope: &mut v8::PinScope) {
                     if (body._nativeStreamId !== undefined) {
                         this._nativeStreamId = body._nativeStreamId;
                     }
-                } else if (body instanceof Uint8Array || body instanceof ArrayBuffer) {
-                    const bytes = body instanceof Uint8Array ? body : new Uint8Array(body);
+                } else if (ArrayBuffer.isView(body) || body instanceof ArrayBuffer || body instanceof Blob) {
+                    // A copy: the caller may change its buffer later
+                    const bytes = body instanceof Blob
+                        ? body._getBytes()
+                        : body instanceof ArrayBuffer
+                            ? new Uint8Array(body.slice(0))
+                            : new Uint8Array(body.buffer, body.byteOffset, body.byteLength).slice();
                     this.body = new ReadableStream({
                         start(controller) {
                             controller.enqueue(bytes);
-- 
2.43.0


From 6b2017b76a9c1600a2cbd83d8e2f70e0820e4f8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:14 +0000
Subject: [PATCH 26/90] fix: reject the promise of an operation whose arguments
 cannot be used, instead of never settling it

---
 src/runtime/bindings/fetch.rs | 68 +++++++++++++++++++++++++++--------
 1 file changed, 53 insertions(+), 15 deletions(-)

diff --git a/src/runtime/bindings/fetch.rs b/src/runtime/bindings/fetch.rs
index 044321a..91daf08 100644
--- a/src/runtime/bindings/fetch.rs
+++ b/src/runtime/bindings/fetch.rs
@@ -1,8 +1,6 @@
 use super::super::{CallbackId, SchedulerMessage};
 use super::state::FetchState;
-use openworkers_core::{
-    DatabaseOp, HttpMethod, HttpRequest, KvOp, RequestBody, SqlParam, StorageOp,
-};
+use openworkers_core::{DatabaseOp, HttpRequest, KvOp, RequestBody, SqlParam, StorageOp};
 use serde::Deserialize;
 use std::cell::RefCell;
 use std::collections::HashMap;
@@ -67,15 +65,19 @@ struct DatabaseParams {
 fn parse_http_request(
     scope: &mut v8::PinScope,
     options: v8::Local<v8::Value>,
-) -> Option<HttpRequest> {
-    let opts: FetchOptions = serde_v8::from_v8_any(scope, options).ok()?;
-    let method = opts.method.parse().unwrap_or(HttpMethod::Get);
+) -> Result<HttpRequest, String> {
+    let opts: FetchOptions = serde_v8::from_v8_any(scope, options)
+        .map_err(|e| format!("Failed to parse request: {}", e))?;
+    let method = opts
+        .method
+        .parse()
+        .map_err(|_| format!("Unsupported method: {}", opts.method))?;
     let body = match opts.body {
         Some(buf) => RequestBody::Bytes(bytes::Bytes::from(buf.to_vec())),
         None => RequestBody::None,
     };
 
-    Some(HttpRequest {
+    Ok(HttpRequest {
         url: opts.url,
         method,
         headers: opts.headers,
@@ -83,6 +85,18 @@ fn parse_http_request(
     })
 }
 
+/// Reject the promise behind an operation which could not be started
+fn call_error(scope: &mut v8::PinScope, error_cb: v8::Local<v8::Value>, msg: &str) {
+    let Ok(error_fn) = v8::Local::<v8::Function>::try_from(error_cb) else {
+        return;
+    };
+
+    let error_msg = v8::String::new(scope, msg).unwrap();
+    let error = v8::Exception::type_error(scope, error_msg);
+    let recv = v8::undefined(scope);
+    error_fn.call(scope, recv.into(), &[error]);
+}
+
 /// Register success callback and return callback ID
 fn register_callback(
     state: &FetchState,
@@ -146,8 +160,12 @@ where
                 return;
             };
 
-            let Some(request) = parse_http_request(scope, args.get(1)) else {
-                return;
+            let request = match parse_http_request(scope, args.get(1)) {
+                Ok(request) => request,
+                Err(msg) => {
+                    call_error(scope, args.get(3), &msg);
+                    return;
+                }
             };
 
             let (success_cb, error_cb) = (args.get(2), args.get(3));
@@ -203,8 +221,12 @@ pub fn setup_fetch(
                 return;
             }
 
-            let Some(request) = parse_http_request(scope, args.get(0)) else {
-                return;
+            let request = match parse_http_request(scope, args.get(0)) {
+                Ok(request) => request,
+                Err(msg) => {
+                    call_error(scope, args.get(2), &msg);
+                    return;
+                }
             };
 
             let resolve_val = args.get(1);
@@ -257,8 +279,16 @@ pub fn setup_fetch(
                 return;
             };
 
-            let Ok(params) = serde_v8::from_v8_any::<StorageParams>(scope, args.get(2)) else {
-                return;
+            let params = match serde_v8::from_v8_any::<StorageParams>(scope, args.get(2)) {
+                Ok(params) => params,
+                Err(e) => {
+                    call_error(
+                        scope,
+                        args.get(4),
+                        &format!("Failed to parse params: {}", e),
+                    );
+                    return;
+                }
             };
 
             let storage_op = match operation.as_str() {
@@ -324,8 +354,16 @@ pub fn setup_fetch(
                 return;
             };
 
-            let Ok(params) = serde_v8::from_v8_any::<KvParams>(scope, args.get(2)) else {
-                return;
+            let params = match serde_v8::from_v8_any::<KvParams>(scope, args.get(2)) {
+                Ok(params) => params,
+                Err(e) => {
+                    call_error(
+                        scope,
+                        args.get(4),
+                        &format!("Failed to parse params: {}", e),
+                    );
+                    return;
+                }
             };
 
             let kv_op = match operation.as_str() {
-- 
2.43.0


From 246b4c4ad882fa40be4e51513738c9462f5cbfef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:14 +0000
Subject: [PATCH 27/90] fix: fetch leaves the caller's headers object alone,
 and accepts header pairs and Blob bodies

---
 src/runtime/bindings/web_api.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/runtime/bindings/web_api.rs b/src/runtime/bindings/web_api.rs
index 962fd22..a529028 100644
--- a/src/runtime/bindings/web_api.rs
+++ b/src/runtime/bindings/web_api.rs
@@ -1515,13 +1515,19 @@ pub fn setup_fetch_helpers(scope: &mut v8::PinScope) {
                 body = options.body !== undefined ? options.body : null;
             }
 
-            // Normalize Headers instance to plain object
-            if (headers instanceof Headers) {
+            // Normalize Headers instance and pairs to plain object, copy plain object
+            if (headers instanceof Headers || Array.isArray(headers)) {
                 const obj = {};
                 for (const [key, value] of headers) {
                     obj[key] = value;
                 }
                 headers = obj;
+            } else {
+                headers = { ...headers };
+            }
+
+            if (body instanceof Blob) {
+                body = body._getBytes();
             }
 
             return { url, method, headers, body };
-- 
2.43.0


From bb67adf7a44abcd67cac9ccacd55a0301efc84cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:47 +0000
Subject: [PATCH 28/90] fix: string and stream bodies of requests to bindings

---
 src/runtime/bindings/web_api.rs | 12 ++++++++++--
 src/worker.rs                   | 30 ++++++++++++++++++------------
 2 files changed, 28 insertions(+), 14 deletions(-)

diff --git a/src/runtime/bindings/web_api.rs b/src/runtime/bindings/web_api.rs
index a529028..6d28d20 100644
--- a/src/runtime/bindings/web_api.rs
+++ b/src/runtime/bindings/web_api.rs
@@ -1447,9 +1447,17 @@ pub fn setup_response(scope: &mut v8::PinScope) {
 /// Returns: { url, method, headers, body }
 pub fn setup_fetch_helpers(scope: &mut v8::PinScope) {
     let code = r#"
-        // Buffer a ReadableStream body to Uint8Array
+        // Buffer a ReadableStream body to Uint8Array, encode a string body
         globalThis.__bufferBody = async function(body) {
-            if (!body || !(body instanceof ReadableStream)) {
+            if (body === null || body === undefined) {
+                return body;
+            }
+
+            if (typeof body !== 'object') {
+                return new TextEncoder().encode(String(body));
+            }
+
+            if (!(body instanceof ReadableStream)) {
                 return body;
             }
 
diff --git a/src/worker.rs b/src/worker.rs
index 8d4eec3..e8d2a35 100644
--- a/src/worker.rs
+++ b/src/worker.rs
@@ -1206,18 +1206,24 @@ pub(crate) fn setup_env(
                         r#"{name}: {{
                             fetch: function(input, options) {{
                                 return new Promise((resolve, reject) => {{
-                                    const {{ url, method, headers, body }} = __normalizeFetchInput(input, options);
-                                    const fetchOptions = {{ url, method, headers, body }};
-                                    __nativeBindingFetch({name}, fetchOptions, (meta) => {{
-                                        const stream = __createNativeStream(meta.streamId);
-                                        const response = new Response(stream, {{
-                                            status: meta.status,
-                                            headers: meta.headers
-                                        }});
-                                        response.ok = meta.status >= 200 && meta.status < 300;
-                                        response.statusText = meta.statusText;
-                                        resolve(response);
-                                    }}, reject);
+                                    const processRequest = async () => {{
+                                        const normalized = __normalizeFetchInput(input, options);
+                                        normalized.body = await __bufferBody(normalized.body);
+                                        return normalized;
+                                    }};
+
+                                    processRequest().then((fetchOptions) => {{
+                                        __nativeBindingFetch({name}, fetchOptions, (meta) => {{
+                                            const stream = __createNativeStream(meta.streamId);
+                                            const response = new Response(stream, {{
+                                                status: meta.status,
+                                                headers: meta.headers
+                                            }});
+                                            response.ok = meta.status >= 200 && meta.status < 300;
+                                            response.statusText = meta.statusText;
+                                            resolve(response);
+                                        }}, reject);
+                                    }}).catch(reject);
                                 }});
                             }}
                         }}"#,
-- 
2.43.0


From a5af695ba0ebad6707e023b4e0f6ab8ce8074570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:05 +0000
Subject: [PATCH 29/90] fix: ReadableStream pulls again for reads that are
 still waiting; cancel settles pending reads and drops queued chunks

---
 src/runtime/streams.rs | 75 +++++++++++++++++++++++++++++++-----------
 1 file changed, 56 insertions(+), 19 deletions(-)

diff --git a/src/runtime/streams.rs b/src/runtime/streams.rs
index a3e69e3..c9a1313 100644
--- a/src/runtime/streams.rs
+++ b/src/runtime/streams.rs
@@ -49,8 +49,14 @@ pub fn setup_readable_stream(scope: &mut v8::PinScope) {
                     this._controller._abortController.abort(reason || 'Stream cancelled');
                 }
 
+                // Nothing that is still queued will be read
+                if (this._controller) {
+                    this._controller._queue = [];
+                }
+
                 // Clear reader
                 if (this._reader) {
+                    this._reader._processQueue();
                     this._reader._closePending();
                     this._reader = null;
                 }
@@ -187,6 +193,8 @@ pub fn setup_readable_stream(scope: &mut v8::PinScope) {
                 this._stream = stream;
                 this._queue = [];
                 this._closeRequested = false;
+                this._pulling = false;
+                this._pullAgain = false;
                 // AbortController for signaling cancellation to user code
                 this._abortController = new AbortController();
             }
@@ -217,6 +225,11 @@ pub fn setup_readable_stream(scope: &mut v8::PinScope) {
 
                 this._queue.push({ type: 'chunk', value: chunk });
                 this._processQueue();
+
+                // Reads which are still waiting need another pull()
+                if (this._stream._reader && this._stream._reader._readRequests.length > 0) {
+                    this._callPull();
+                }
             }
 
             close() {
@@ -257,6 +270,40 @@ pub fn setup_readable_stream(scope: &mut v8::PinScope) {
                 }
             }
 
+            // Call the source's pull(), once at a time
+            _callPull() {
+                const source = this._stream._underlyingSource;
+
+                if (!source || !source.pull || this._closeRequested || this._stream._state !== 'readable') {
+                    return;
+                }
+
+                if (this._pulling) {
+                    this._pullAgain = true;
+                    return;
+                }
+
+                this._pulling = true;
+                let pullPromise;
+
+                try {
+                    pullPromise = Promise.resolve(source.pull(this));
+                } catch (e) {
+                    pullPromise = Promise.reject(e);
+                }
+
+                pullPromise.then(() => {
+                    this._pulling = false;
+
+                    if (this._pullAgain) {
+                        this._pullAgain = false;
+                        this._callPull();
+                    }
+                }, e => {
+                    this.error(e);
+                });
+            }
+
             get desiredSize() {
                 if (this._stream._state === 'errored') {
                     return null;
@@ -287,6 +334,12 @@ pub fn setup_readable_stream(scope: &mut v8::PinScope) {
                     this._closedPromiseResolve = resolve;
                     this._closedPromiseReject = reject;
                 });
+
+                if (stream._state === 'closed') {
+                    this._closePending();
+                } else if (stream._state === 'errored') {
+                    this._errorPending(stream._storedError);
+                }
             }
 
             read() {
@@ -318,27 +371,11 @@ pub fn setup_readable_stream(scope: &mut v8::PinScope) {
                     return Promise.resolve({ done: true, value: undefined });
                 }
 
-                // If underlying source has pull(), call it to get more data
-                const underlyingSource = this._stream._underlyingSource;
-                if (underlyingSource && underlyingSource.pull) {
-                    // Create pending read request first
-                    return new Promise((resolve, reject) => {
-                        this._readRequests.push({ resolve, reject });
-
-                        // Call pull to request more data
-                        // pull() should enqueue data or close/error the stream
-                        const pullPromise = underlyingSource.pull(controller);
-                        if (pullPromise && typeof pullPromise.then === 'function') {
-                            pullPromise.catch(e => {
-                                controller.error(e);
-                            });
-                        }
-                    });
-                }
-
-                // No pull(), create pending read request
+                // Create pending read request, and call pull() (if any) to request more data:
+                // it should enqueue data or close/error the stream
                 return new Promise((resolve, reject) => {
                     this._readRequests.push({ resolve, reject });
+                    controller._callPull();
                 });
             }
 
-- 
2.43.0


From 7844521da8027755de579b6f5c6f681c5212e609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:35 +0000
Subject: [PATCH 30/90] fix: ECDSA refuses hashes other than SHA-256 instead of
 signing with SHA-256

---
 src/runtime/crypto/ecdsa.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/runtime/crypto/ecdsa.rs b/src/runtime/crypto/ecdsa.rs
index 560d694..0cbdd95 100644
--- a/src/runtime/crypto/ecdsa.rs
+++ b/src/runtime/crypto/ecdsa.rs
@@ -189,6 +189,12 @@ pub(super) fn setup_ecdsa(scope: &mut v8::PinScope, subtle_obj: v8::Local<v8::Ob
 
     // JS wrappers for ECDSA - extends the existing functions
     let code = r#"
+        // The hash which a signature is requested with; SHA-256 if none is given
+        const __ecdsaHash = function(algorithm) {
+            const hash = algorithm.hash;
+            return hash ? String(typeof hash === 'string' ? hash : hash.name).toUpperCase() : 'SHA-256';
+        };
+
         // Extend generateKey to support ECDSA
         crypto.subtle.generateKey = function(algorithm, extractable, keyUsages) {
             return new Promise((resolve, reject) => {
@@ -305,6 +311,11 @@ pub(super) fn setup_ecdsa(scope: &mut v8::PinScope, subtle_obj: v8::Local<v8::Ob
                             return;
                         }
 
+                        if (__ecdsaHash(algorithm) !== 'SHA-256') {
+                            reject(new Error('Only SHA-256 is supported for ECDSA'));
+                            return;
+                        }
+
                         let dataBytes;
                         if (data instanceof ArrayBuffer) {
                             dataBytes = new Uint8Array(data);
@@ -348,6 +359,11 @@ pub(super) fn setup_ecdsa(scope: &mut v8::PinScope, subtle_obj: v8::Local<v8::Ob
                             return;
                         }
 
+                        if (__ecdsaHash(algorithm) !== 'SHA-256') {
+                            reject(new Error('Only SHA-256 is supported for ECDSA'));
+                            return;
+                        }
+
                         let dataBytes, sigBytes;
                         if (data instanceof ArrayBuffer) {
                             dataBytes = new Uint8Array(data);
-- 
2.43.0


From 4ae58f641ac9bfbb2a2334a799b483d07d8c7ccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:02 +0000
Subject: [PATCH 31/90] fix: FormData.set keeps the place of the entry, File
 keeps lastModified 0, getSetCookie returns a copy

---
 src/runtime/bindings/web_api.rs | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/runtime/bindings/web_api.rs b/src/runtime/bindings/web_api.rs
index 6d28d20..21f171a 100644
--- a/src/runtime/bindings/web_api.rs
+++ b/src/runtime/bindings/web_api.rs
@@ -114,7 +114,7 @@ pub fn setup_blob(scope: &mut v8::PinScope) {
             constructor(fileBits, fileName, options = {}) {
                 super(fileBits, options);
                 this.name = fileName;
-                this.lastModified = options.lastModified || Date.now();
+                this.lastModified = options.lastModified ?? Date.now();
             }
         };
     "#;
@@ -164,10 +164,17 @@ pub fn setup_form_data(scope: &mut v8::PinScope) {
                 if (value instanceof Blob && filename === undefined && value instanceof File) {
                     filename = value.name;
                 }
-                // Remove all existing entries with this name
-                this._entries = this._entries.filter(([k]) => k !== strName);
-                // Add the new entry
-                this._entries.push([strName, value instanceof Blob ? value : String(value), filename]);
+                const entry = [strName, value instanceof Blob ? value : String(value), filename];
+                const idx = this._entries.findIndex(([k]) => k === strName);
+
+                if (idx === -1) {
+                    this._entries.push(entry);
+                    return;
+                }
+
+                // Replace the first entry with this name, remove the others
+                this._entries[idx] = entry;
+                this._entries = this._entries.filter(([k], i) => i <= idx || k !== strName);
             }
 
             *entries() {
@@ -821,9 +828,9 @@ pub fn setup_headers(scope: &mut v8::PinScope) {
             getSetCookie() {
                 const value = this._map.get('set-cookie');
                 if (!value) return [];
-                // If it's already an array (multiple set-cookie headers), return it
+                // If it's already an array (multiple set-cookie headers), return a copy
                 // Otherwise wrap single value in array
-                return Array.isArray(value) ? value : [value];
+                return Array.isArray(value) ? [...value] : [value];
             }
         };
     "#;
-- 
2.43.0


From 133373fb0451c5643d67ab06a0e9e4064b3e1026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:02 +0000
Subject: [PATCH 32/90] fix: a Response has headers of its own instead of
 sharing the caller's Headers object

---
 src/runtime/bindings/web_api.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/runtime/bindings/web_api.rs b/src/runtime/bindings/web_api.rs
index 21f171a..91589b0 100644
--- a/src/runtime/bindings/web_api.rs
+++ b/src/runtime/bindings/web_api.rs
@@ -1128,11 +1128,8 @@ pub fn setup_response(scope: &mut v8::PinScope) {
                 this.redirected = init.redirected || false;
 
                 // Convert headers to Headers instance
-                if (init.headers instanceof Headers) {
-                    this.headers = init.headers;
-                } else {
-                    this.headers = new Headers(init.headers);
-                }
+                // (a copy: the caller may change its headers later)
+                this.headers = new Headers(init.headers);
 
                 // Support different body types - all wrapped in ReadableStream
                 // _isBuffered marks responses where body data is already fully available
-- 
2.43.0


From 462915dc78081e03eda28d620e9402d0cb86dcca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:36 +0000
Subject: [PATCH 33/90] fix: multipart bodies may contain the boundary inside
 of a line

---
 src/runtime/bindings/web_api.rs | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/runtime/bindings/web_api.rs b/src/runtime/bindings/web_api.rs
index 91589b0..dfad204 100644
--- a/src/runtime/bindings/web_api.rs
+++ b/src/runtime/bindings/web_api.rs
@@ -973,6 +973,8 @@ pub fn setup_request(scope: &mut v8::PinScope) {
                     }
                     const boundary = '--' + (boundaryMatch[1] || boundaryMatch[2]);
                     const boundaryBytes = new TextEncoder().encode(boundary);
+                    // Inside of a body, only a boundary at the start of a line counts
+                    const delimiterBytes = new TextEncoder().encode('\r\n' + boundary);
                     const crlfcrlf = new Uint8Array([13, 10, 13, 10]); // \r\n\r\n
                     const crlf = new Uint8Array([13, 10]); // \r\n
 
@@ -1009,15 +1011,15 @@ pub fn setup_request(scope: &mut v8::PinScope) {
                         const headerText = new TextDecoder().decode(headerBytes);
 
                         // Find next boundary for body end
-                        const nextBoundary = findPattern(data, boundaryBytes, headerEnd + 4);
-                        const bodyEnd = nextBoundary !== -1 ? nextBoundary - 2 : data.length; // -2 for CRLF before boundary
+                        const nextBoundary = findPattern(data, delimiterBytes, headerEnd + 2);
+                        const bodyEnd = nextBoundary !== -1 ? nextBoundary : data.length;
 
                         // Extract body as bytes
                         const bodyBytes = data.slice(headerEnd + 4, bodyEnd);
 
                         const nameMatch = headerText.match(/name="([^"]+)"/);
                         if (!nameMatch) {
-                            pos = nextBoundary;
+                            pos = nextBoundary === -1 ? -1 : nextBoundary + 2;
                             continue;
                         }
 
@@ -1036,7 +1038,7 @@ pub fn setup_request(scope: &mut v8::PinScope) {
                             formData.append(name, value);
                         }
 
-                        pos = nextBoundary;
+                        pos = nextBoundary === -1 ? -1 : nextBoundary + 2;
                     }
                 } else {
                     throw new TypeError('Invalid content-type for formData()');
@@ -1264,6 +1266,8 @@ pub fn setup_response(scope: &mut v8::PinScope) {
 
                     const boundary = '--' + (boundaryMatch[1] || boundaryMatch[2]);
                     const boundaryBytes = new TextEncoder().encode(boundary);
+                    // Inside of a body, only a boundary at the start of a line counts
+                    const delimiterBytes = new TextEncoder().encode('\r\n' + boundary);
                     const crlfcrlf = new Uint8Array([13, 10, 13, 10]); // \r\n\r\n
 
                     const buffer = await this.arrayBuffer();
@@ -1300,8 +1304,8 @@ pub fn setup_response(scope: &mut v8::PinScope) {
                         const headerText = new TextDecoder().decode(headerBytes);
 
                         // Find next boundary for body end
-                        const nextBoundary = findPattern(data, boundaryBytes, headerEnd + 4);
-                        const bodyEnd = nextBoundary !== -1 ? nextBoundary - 2 : data.length; // -2 for CRLF before boundary
+                        const nextBoundary = findPattern(data, delimiterBytes, headerEnd + 2);
+                        const bodyEnd = nextBoundary !== -1 ? nextBoundary : data.length;
 
                         // Extract body as bytes
                         const bodyBytes = data.slice(headerEnd + 4, bodyEnd);
@@ -1309,7 +1313,7 @@ pub fn setup_response(scope: &mut v8::PinScope) {
                         const nameMatch = headerText.match(/name="([^"]+)"/);
 
                         if (!nameMatch) {
-                            pos = nextBoundary;
+                            pos = nextBoundary === -1 ? -1 : nextBoundary + 2;
                             continue;
                         }
 
@@ -1328,7 +1332,7 @@ pub fn setup_response(scope: &mut v8::PinScope) {
                             formData.append(name, value);
                         }
 
-                        pos = nextBoundary;
+                        pos = nextBoundary === -1 ? -1 : nextBoundary + 2;
                     }
                 } else {
                     throw new TypeError('Invalid content-type for formData()');
-- 
2.43.0


From 1574e126b8df4bbb2350cf9ff68e320c01702c34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:01 +0000
Subject: [PATCH 34/90] fix: URLSearchParams accepts lone surrogates

---
 src/runtime/bindings/web_api.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/runtime/bindings/web_api.rs b/src/runtime/bindings/web_api.rs
index dfad204..64f6e0f 100644
--- a/src/runtime/bindings/web_api.rs
+++ b/src/runtime/bindings/web_api.rs
@@ -486,7 +486,7 @@ pub fn setup_url_search_params(scope: &mut v8::PinScope) {
 
                 if (typeof init === 'string') {
                     // Parse query string
-                    const str = init.startsWith('?') ? init.slice(1) : init;
+                    const str = (init.startsWith('?') ? init.slice(1) : init).toWellFormed();
                     const decoder = new TextDecoder('utf-8', { ignoreBOM: true });
                     const decode = (s) => s
                         .replace(/\+/g, ' ')
@@ -505,11 +505,11 @@ pub fn setup_url_search_params(scope: &mut v8::PinScope) {
                     this._entries = init._entries.map(e => [...e]);
                 } else if (Array.isArray(init)) {
                     for (const [key, value] of init) {
-                        this._entries.push([String(key), String(value)]);
+                        this._entries.push([String(key).toWellFormed(), String(value).toWellFormed()]);
                     }
                 } else if (typeof init === 'object') {
                     for (const key of Object.keys(init)) {
-                        this._entries.push([key, String(init[key])]);
+                        this._entries.push([key.toWellFormed(), String(init[key]).toWellFormed()]);
                     }
                 }
             }
@@ -523,7 +523,7 @@ pub fn setup_url_search_params(scope: &mut v8::PinScope) {
             }
 
             append(name, value) {
-                this._entries.push([String(name), String(value)]);
+                this._entries.push([String(name).toWellFormed(), String(value).toWellFormed()]);
                 this._update();
             }
 
@@ -546,8 +546,8 @@ pub fn setup_url_search_params(scope: &mut v8::PinScope) {
             }
 
             set(name, value) {
-                const strName = String(name);
-                const strValue = String(value);
+                const strName = String(name).toWellFormed();
+                const strValue = String(value).toWellFormed();
                 let found = false;
 
                 this._entries = this._entries.filter(([k]) => {
-- 
2.43.0


From 1be7bf74476bed90961043bffeb2bda303b1c565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:20 +0000
Subject: [PATCH 35/90] fix: a ReadableStream waits for an asynchronous start()
 before it pulls; cancel() rejects if the source throws

---
 src/runtime/streams.rs | 37 +++++++++++++++++++++++++++----------
 1 file changed, 27 insertions(+), 10 deletions(-)

diff --git a/src/runtime/streams.rs b/src/runtime/streams.rs
index c9a1313..df32a8c 100644
--- a/src/runtime/streams.rs
+++ b/src/runtime/streams.rs
@@ -18,10 +18,18 @@ pub fn setup_readable_stream(scope: &mut v8::PinScope) {
 
                 // Start the stream
                 if (underlyingSource.start) {
-                    const startPromise = Promise.resolve(underlyingSource.start(controller));
-                    startPromise.catch(e => {
-                        controller.error(e);
-                    });
+                    const startResult = underlyingSource.start(controller);
+
+                    if (startResult && typeof startResult.then === 'function') {
+                        // pull() waits until start() is done
+                        controller._started = false;
+                        startResult.then(() => {
+                            controller._started = true;
+                            controller._pullIfWaiting();
+                        }, e => {
+                            controller.error(e);
+                        });
+                    }
                 }
             }
 
@@ -63,7 +71,11 @@ pub fn setup_readable_stream(scope: &mut v8::PinScope) {
 
                 // Call underlying source cancel
                 if (this._underlyingSource.cancel) {
-                    return Promise.resolve(this._underlyingSource.cancel(reason));
+                    try {
+                        return Promise.resolve(this._underlyingSource.cancel(reason)).then(() => {});
+                    } catch (e) {
+                        return Promise.reject(e);
+                    }
                 }
 
                 return Promise.resolve();
@@ -193,6 +205,7 @@ pub fn setup_readable_stream(scope: &mut v8::PinScope) {
                 this._stream = stream;
                 this._queue = [];
                 this._closeRequested = false;
+                this._started = true;
                 this._pulling = false;
                 this._pullAgain = false;
                 // AbortController for signaling cancellation to user code
@@ -226,10 +239,7 @@ pub fn setup_readable_stream(scope: &mut v8::PinScope) {
                 this._queue.push({ type: 'chunk', value: chunk });
                 this._processQueue();
 
-                // Reads which are still waiting need another pull()
-                if (this._stream._reader && this._stream._reader._readRequests.length > 0) {
-                    this._callPull();
-                }
+                this._pullIfWaiting();
             }
 
             close() {
@@ -270,11 +280,18 @@ pub fn setup_readable_stream(scope: &mut v8::PinScope) {
                 }
             }
 
+            // Reads which are still waiting need another pull()
+            _pullIfWaiting() {
+                if (this._stream._reader && this._stream._reader._readRequests.length > 0) {
+                    this._callPull();
+                }
+            }
+
             // Call the source's pull(), once at a time
             _callPull() {
                 const source = this._stream._underlyingSource;
 
-                if (!source || !source.pull || this._closeRequested || this._stream._state !== 'readable') {
+                if (!source || !source.pull || !this._started || this._closeRequested || this._stream._state !== 'readable') {
                     return;
                 }
 
-- 
2.43.0


From 1d7cffa2b3b4a5be659ad8850c8e25a5e07ac699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:43 +0000
Subject: [PATCH 36/90] fix: an allocation granted after garbage collection did
 not hit the memory limit

---
 src/security/array_buffer_allocator.rs | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/src/security/array_buffer_allocator.rs b/src/security/array_buffer_allocator.rs
index 73bb586..68a5e43 100644
--- a/src/security/array_buffer_allocator.rs
+++ b/src/security/array_buffer_allocator.rs
@@ -40,6 +40,8 @@ pub struct CustomAllocator {
     count: AtomicUsize,
     /// Flag set when memory limit is hit (shared with runtime)
     memory_limit_hit: Arc<AtomicBool>,
+    /// Size of the last request if it is the one which raised the flag, else 0
+    denied: AtomicUsize,
 }
 
 impl CustomAllocator {
@@ -54,6 +56,7 @@ impl CustomAllocator {
             max: max_bytes,
             count: AtomicUsize::new(0),
             memory_limit_hit,
+            denied: AtomicUsize::new(0),
         })
     }
 
@@ -87,7 +90,17 @@ fn reserve(allocator: &CustomAllocator, n: usize) -> bool {
         });
 
     match reserved {
-        Ok(_) => true,
+        Ok(_) => {
+            // V8 collects garbage and asks again when it is denied memory: a request
+            // which then succeeds did not hit the limit.
+            let denied = allocator.denied.swap(0, Ordering::SeqCst);
+
+            if denied != 0 && denied == n {
+                allocator.memory_limit_hit.store(false, Ordering::SeqCst);
+            }
+
+            true
+        }
         Err(count) => {
             eprintln!(
                 "[openworkers-runtime-v8] ArrayBuffer allocation denied: {}MB exceeds limit of {}MB",
@@ -95,7 +108,14 @@ fn reserve(allocator: &CustomAllocator, n: usize) -> bool {
                 allocator.max / 1024 / 1024
             );
             // Set flag so the runtime knows why we failed
-            allocator.memory_limit_hit.store(true, Ordering::SeqCst);
+            let raised = !allocator.memory_limit_hit.swap(true, Ordering::SeqCst);
+
+            if raised {
+                allocator.denied.store(n, Ordering::SeqCst);
+            } else if allocator.denied.load(Ordering::SeqCst) != n {
+                allocator.denied.store(0, Ordering::SeqCst);
+            }
+
             false
         }
     }
-- 
2.43.0


From 5abb18dcf192c6739a833a2357eb1e59a119a3cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:37 +0000
Subject: [PATCH 37/90] fix: running out of heap in a continuation ends the
 execution at once

---
 src/execution_context.rs      | 29 ++++++++++++++++++++++++++++-
 src/locker_managed_isolate.rs |  6 +++++-
 src/runtime/mod.rs            |  5 ++---
 src/security/heap_limit.rs    |  5 +++++
 src/worker.rs                 |  2 ++
 5 files changed, 42 insertions(+), 5 deletions(-)

diff --git a/src/execution_context.rs b/src/execution_context.rs
index 07d364f..2c3b07a 100644
--- a/src/execution_context.rs
+++ b/src/execution_context.rs
@@ -1011,6 +1011,20 @@ impl ExecutionContext {
         }
     }
 
+    /// How many times the isolate's heap ran out so far.
+    ///
+    /// V8 forgets the termination once the stack is unwound: comparing this before and
+    /// after running JS tells whether the heap limit ended it.
+    #[inline]
+    fn heap_limit_hits(&self) -> u32 {
+        if self.lmi_ptr.is_null() {
+            return 0;
+        }
+
+        // SAFETY: lmi_ptr valid for request lifetime (pool-managed)
+        unsafe { (*self.lmi_ptr).heap_limit_hits() }
+    }
+
     /// Run the event loop until a condition is met or timeout/termination occurs.
     ///
     /// This is the core loop for processing async operations (Promises, timers, fetch).
@@ -1059,6 +1073,7 @@ impl ExecutionContext {
             // releasing the V8 mutex for other tasks during I/O waits.
             // SAFETY: lmi_ptr valid for request lifetime (pool-managed)
             let _lock_guard = unsafe { try_lock_v8(lmi_ptr) };
+            let heap_limit_hits = self.heap_limit_hits();
 
             // 1. Check termination (CPU/wall-clock guards)
             if self.is_terminated(wall_guard, cpu_guard) {
@@ -1118,7 +1133,9 @@ impl ExecutionContext {
             }
 
             // 7. Terminated while processing: nothing else would wake us to notice.
-            if self.is_terminated(wall_guard, cpu_guard) {
+            if self.is_terminated(wall_guard, cpu_guard)
+                || self.heap_limit_hits() != heap_limit_hits
+            {
                 return Poll::Ready(Err("Execution terminated".to_string()));
             }
 
@@ -1174,6 +1191,7 @@ impl ExecutionContext {
 
                 // SAFETY: lmi_ptr valid for request lifetime (pool-managed)
                 let _lock = unsafe { try_lock_v8(lmi_ptr) };
+                let heap_limit_hits = self.heap_limit_hits();
 
                 use std::pin::pin;
                 let result = unsafe {
@@ -1197,6 +1215,10 @@ impl ExecutionContext {
                     waiter.unlock();
                 }
 
+                if self.heap_limit_hits() != heap_limit_hits {
+                    return std::task::Poll::Ready(Err("Execution terminated".to_string()));
+                }
+
                 std::task::Poll::Ready(result)
             })
             .await?;
@@ -1291,6 +1313,7 @@ impl ExecutionContext {
 
                 // SAFETY: lmi_ptr valid for request lifetime (pool-managed)
                 let _lock = unsafe { try_lock_v8(lmi_ptr) };
+                let heap_limit_hits = self.heap_limit_hits();
 
                 use std::pin::pin;
                 let result: Result<(), String> = unsafe {
@@ -1376,6 +1399,10 @@ impl ExecutionContext {
                     waiter.unlock();
                 }
 
+                if self.heap_limit_hits() != heap_limit_hits {
+                    return std::task::Poll::Ready(Err("Execution terminated".to_string()));
+                }
+
                 std::task::Poll::Ready(result)
             })
             .await?;
diff --git a/src/locker_managed_isolate.rs b/src/locker_managed_isolate.rs
index f413be5..c42d1db 100644
--- a/src/locker_managed_isolate.rs
+++ b/src/locker_managed_isolate.rs
@@ -40,7 +40,6 @@ pub struct LockerManagedIsolate {
     /// Per-isolate (not global) to prevent cross-isolate contamination.
     pub pending_memory_delta: Arc<AtomicI64>,
     /// Heap limit state - must be kept alive for the isolate's lifetime
-    #[allow(dead_code)]
     _heap_limit_state: Box<HeapLimitState>,
 }
 
@@ -135,6 +134,11 @@ impl LockerManagedIsolate {
         (locker, js)
     }
 
+    /// How many times the heap ran out so far
+    pub fn heap_limit_hits(&self) -> u32 {
+        self._heap_limit_state.hits()
+    }
+
     /// Check if memory limit was hit
     pub fn memory_limit_hit(&self) -> bool {
         self.memory_limit_hit
diff --git a/src/runtime/mod.rs b/src/runtime/mod.rs
index 2d5e0b8..f5a1eef 100644
--- a/src/runtime/mod.rs
+++ b/src/runtime/mod.rs
@@ -154,8 +154,7 @@ pub struct Runtime {
     pub(crate) callback_notify: Arc<Notify>,
     /// Heap limit state - must be kept alive for the isolate's lifetime
     /// Dropped after isolate, so the callback pointer remains valid
-    #[allow(dead_code)]
-    _heap_limit_state: Box<HeapLimitState>,
+    pub(crate) heap_limit_state: Box<HeapLimitState>,
 }
 
 impl Runtime {
@@ -349,7 +348,7 @@ impl Runtime {
             memory_limit_hit,
             limits,
             callback_notify: callback_notify.clone(),
-            _heap_limit_state: heap_limit_state,
+            heap_limit_state,
         };
 
         (runtime, scheduler_rx, callback_tx, callback_notify)
diff --git a/src/security/heap_limit.rs b/src/security/heap_limit.rs
index acaad8c..675cd4a 100644
--- a/src/security/heap_limit.rs
+++ b/src/security/heap_limit.rs
@@ -54,6 +54,11 @@ impl HeapLimitState {
             max_heap_bytes,
         }
     }
+
+    /// How many times the heap ran out so far (each ended the execution in progress).
+    pub fn hits(&self) -> u32 {
+        self.invocation_count.load(Ordering::SeqCst)
+    }
 }
 
 /// Headroom given to V8 after calling `terminate_execution()`.
diff --git a/src/worker.rs b/src/worker.rs
index e8d2a35..6aca68a 100644
--- a/src/worker.rs
+++ b/src/worker.rs
@@ -739,9 +739,11 @@ impl Worker {
     /// - V8 isolate is terminating (e.g., from terminate_execution())
     /// - Wall-clock timeout was triggered
     /// - CPU time limit was exceeded (Linux only)
+    /// - The heap ran out (V8 forgets that termination once the stack is unwound)
     #[inline]
     fn is_terminated(&self, wall_guard: &TimeoutGuard, cpu_guard: &Option<CpuEnforcer>) -> bool {
         self.runtime.isolate.is_execution_terminating()
+            || self.runtime.heap_limit_state.hits() != 0
             || wall_guard.was_triggered()
             || cpu_guard
                 .as_ref()
-- 
2.43.0


From 3df74b0745ed529148f8ae76565924bc514b2a15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:28 +0000
Subject: [PATCH 38/90] fix: a CPU limit reached by several threads at once was
 not enforced for all of them

---
 src/security/cpu_enforcer.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/security/cpu_enforcer.rs b/src/security/cpu_enforcer.rs
index e0c928c..2c31cf7 100644
--- a/src/security/cpu_enforcer.rs
+++ b/src/security/cpu_enforcer.rs
@@ -42,6 +42,12 @@ mod linux {
     use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
     use std::sync::{Arc, Mutex, Once};
 
+    /// How often an expired timer fires again (CPU time).
+    ///
+    /// Signals of the same number do not queue up: when several timers expire at the
+    /// same moment some of them get lost, so the timer repeats until the guard is dropped.
+    const REFIRE_INTERVAL_NS: i64 = 10_000_000;
+
     /// CPU time enforcer using POSIX timers.
     pub struct CpuEnforcer {
         timer_id: libc::timer_t,
@@ -96,6 +102,7 @@ mod linux {
             let mut timer_spec: libc::itimerspec = unsafe { std::mem::zeroed() };
             timer_spec.it_value.tv_sec = timeout_secs as i64;
             timer_spec.it_value.tv_nsec = timeout_nsecs as i64;
+            timer_spec.it_interval.tv_nsec = REFIRE_INTERVAL_NS;
 
             let ret =
                 unsafe { libc::timer_settime(timer_id, 0, &timer_spec, std::ptr::null_mut()) };
@@ -137,7 +144,7 @@ mod linux {
             let mut timer_spec: libc::itimerspec = unsafe { std::mem::zeroed() };
             timer_spec.it_value.tv_sec = timeout_secs as i64;
             timer_spec.it_value.tv_nsec = timeout_nsecs as i64;
-            // it_interval stays 0 = one-shot timer
+            timer_spec.it_interval.tv_nsec = REFIRE_INTERVAL_NS;
 
             let ret =
                 unsafe { libc::timer_settime(self.timer_id, 0, &timer_spec, std::ptr::null_mut()) };
-- 
2.43.0


From ad5bda408387225a816aacb327e1bebfa1a1825c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:58 +0000
Subject: [PATCH 39/90] fix: the configured heap limit was overridden by a
 process-wide 512 MB flag

---
 src/platform.rs | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/platform.rs b/src/platform.rs
index 01e0c9b..3db08d9 100644
--- a/src/platform.rs
+++ b/src/platform.rs
@@ -30,10 +30,6 @@ pub fn get_platform() -> &'static v8::SharedRef<v8::Platform> {
         #[cfg(target_os = "macos")]
         v8::V8::set_flags_from_string("--single-threaded-gc");
 
-        // Increase old space size to give ICU more room for caching
-        // DateTimeFormat pattern generators use significant memory
-        v8::V8::set_flags_from_string("--max-old-space-size=512");
-
         let platform = v8::new_default_platform(0, false).make_shared();
         v8::V8::initialize_platform(platform.clone());
         v8::V8::initialize();
-- 
2.43.0


From d701c1b4260edd5e548dc546c43f8e1b22265ac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:07 +0000
Subject: [PATCH 40/90] fix: every heap exhaustion raised the heap limit of a
 pooled isolate for good

---
 src/locker_managed_isolate.rs |  1 +
 src/security/heap_limit.rs    | 25 +++++++++++++++++++++++--
 2 files changed, 24 insertions(+), 2 deletions(-)

diff --git a/src/locker_managed_isolate.rs b/src/locker_managed_isolate.rs
index c42d1db..f62321f 100644
--- a/src/locker_managed_isolate.rs
+++ b/src/locker_managed_isolate.rs
@@ -129,6 +129,7 @@ impl LockerManagedIsolate {
     /// Both are dropped together when the caller's scope ends.
     pub fn lock(&mut self) -> (v8::Locker<'_>, crate::gc::JsLock) {
         let mut locker = v8::Locker::new(&mut self.isolate);
+        self._heap_limit_state.restore_limit(&mut locker);
         self.deferred_destruction_queue.process_all();
         let js = crate::gc::JsLock::new(&mut locker, &self.pending_memory_delta);
         (locker, js)
diff --git a/src/security/heap_limit.rs b/src/security/heap_limit.rs
index 675cd4a..584a888 100644
--- a/src/security/heap_limit.rs
+++ b/src/security/heap_limit.rs
@@ -21,7 +21,7 @@
 
 use std::ffi::{c_char, c_void};
 use std::sync::Arc;
-use std::sync::atomic::{AtomicBool, AtomicU32, Ordering};
+use std::sync::atomic::{AtomicBool, AtomicU32, AtomicUsize, Ordering};
 
 use v8::IsolateHandle;
 
@@ -38,6 +38,8 @@ pub struct HeapLimitState {
     pub invocation_count: AtomicU32,
     /// Maximum heap size in bytes (absolute limit)
     pub max_heap_bytes: usize,
+    /// V8's own limit before the callback raised it (0: not raised)
+    raised_from: AtomicUsize,
 }
 
 impl HeapLimitState {
@@ -52,6 +54,23 @@ impl HeapLimitState {
             memory_limit_hit,
             invocation_count: AtomicU32::new(0),
             max_heap_bytes,
+            raised_from: AtomicUsize::new(0),
+        }
+    }
+
+    /// Take back the headroom the callback granted, so that the limit stays the
+    /// configured one however often it is hit. The isolate must be locked.
+    pub fn restore_limit(&self, isolate: &mut v8::Isolate) {
+        let limit = self.raised_from.swap(0, Ordering::SeqCst);
+
+        if limit != 0 {
+            // V8 does not lower the limit below what is in use, garbage included
+            isolate.low_memory_notification();
+            isolate.remove_near_heap_limit_callback(near_heap_limit_callback, limit);
+            isolate.add_near_heap_limit_callback(
+                near_heap_limit_callback,
+                self as *const HeapLimitState as *mut c_void,
+            );
         }
     }
 
@@ -83,7 +102,7 @@ const TERMINATION_HEADROOM: usize = 2 * 1024 * 1024; // 2 MB
 pub unsafe extern "C" fn near_heap_limit_callback(
     data: *mut c_void,
     current_heap_limit: usize,
-    _initial_heap_limit: usize,
+    initial_heap_limit: usize,
 ) -> usize {
     // SAFETY: data is a valid pointer to HeapLimitState, passed from install_heap_limit_callback
     let state = unsafe { &*(data as *const HeapLimitState) };
@@ -97,6 +116,8 @@ pub unsafe extern "C" fn near_heap_limit_callback(
         state.max_heap_bytes / (1024 * 1024)
     );
 
+    state.raised_from.store(initial_heap_limit, Ordering::SeqCst);
+
     // Set the memory limit flag so the runner knows why execution stopped
     state.memory_limit_hit.store(true, Ordering::SeqCst);
 
-- 
2.43.0


From bfbe14a7065afa576119eeedc842eff111c3f336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:50 +0000
Subject: [PATCH 41/90] fix: a single large allocation over the heap limit
 crashed the process

---
 src/security/heap_limit.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/security/heap_limit.rs b/src/security/heap_limit.rs
index 584a888..20c10d1 100644
--- a/src/security/heap_limit.rs
+++ b/src/security/heap_limit.rs
@@ -7,8 +7,8 @@
 //! ## How it works
 //!
 //! When V8's heap approaches the configured limit, it calls our callback.
-//! The callback calls `terminate_execution()` and returns a slightly increased
-//! limit (+2 MB headroom). The headroom is critical: V8 only checks the
+//! The callback calls `terminate_execution()` and returns an increased
+//! limit (headroom). The headroom is critical: V8 only checks the
 //! termination flag when returning to JS execution, not during GC. Without it,
 //! V8 sees "no room given" and calls `FatalProcessOutOfMemory` (process crash).
 //!
@@ -85,9 +85,14 @@ impl HeapLimitState {
 /// V8 only checks the termination flag when returning to JS execution.
 /// If we return the same `current_heap_limit`, V8 considers the allocation
 /// failed and goes straight to `FatalProcessOutOfMemory` (process crash).
-/// By returning a slightly higher limit, V8 can complete the pending
-/// allocation, return to JS, and see the termination flag.
-const TERMINATION_HEADROOM: usize = 2 * 1024 * 1024; // 2 MB
+/// By returning a higher limit, V8 can complete the pending allocation,
+/// return to JS, and see the termination flag.
+///
+/// The pending allocation can be a single large one (the table of a growing
+/// `Map`, the elements of an array, a flattened string), so the headroom has
+/// to hold the largest object V8 creates (1 GB). It is a limit, not a
+/// reservation, and taken back by [`HeapLimitState::restore_limit`].
+const TERMINATION_HEADROOM: usize = (1024 + 64) * 1024 * 1024;
 
 /// Near-heap-limit callback for V8.
 ///
-- 
2.43.0


From 33fc4fd503bdedae4cea90df59192cf8fb22e823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:49 +0000
Subject: [PATCH 42/90] fix: the end of a response stream was lost when it met
 a full buffer

---
 src/runtime/bindings/streams.rs | 16 ++++++++++++----
 src/worker.rs                   |  6 +++++-
 2 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/src/runtime/bindings/streams.rs b/src/runtime/bindings/streams.rs
index 9281eb8..a356e68 100644
--- a/src/runtime/bindings/streams.rs
+++ b/src/runtime/bindings/streams.rs
@@ -134,13 +134,21 @@ fn response_stream_write(
         .is_ok()
 }
 
-/// End a response stream
+/// End a response stream - returns false if the buffer is full (the end must be
+/// written again later, or the client would wait for it forever)
 #[glue_v8::method(state = Rc<ResponseStreamState>)]
-fn response_stream_end(scope: &mut v8::PinScope, state: &Rc<ResponseStreamState>, stream_id: u64) {
+fn response_stream_end(
+    scope: &mut v8::PinScope,
+    state: &Rc<ResponseStreamState>,
+    stream_id: u64,
+) -> bool {
     let _ = scope;
-    let _ = state
+
+    state
         .manager
-        .try_write_chunk(stream_id, stream_manager::StreamChunk::Done);
+        .try_write_chunk(stream_id, stream_manager::StreamChunk::Done)
+        .is_ok()
+        || !state.manager.has_sender(stream_id)
 }
 
 /// Check if a response stream is closed
diff --git a/src/worker.rs b/src/worker.rs
index 6aca68a..c2bd478 100644
--- a/src/worker.rs
+++ b/src/worker.rs
@@ -1472,7 +1472,11 @@ pub(crate) fn setup_event_listener(
                         }
                     }
 
-                    __responseStreamEnd(streamId);
+                    // Buffer full: wait and retry, as for chunks
+                    while (!__responseStreamEnd(streamId)) {
+                        await new Promise(resolve => setTimeout(resolve, 1));
+                    }
+
                     // Decrement counter when stream is fully consumed
                     globalThis.__activeResponseStreams--;
                 }
-- 
2.43.0


From acd4299fb30d16a9cef342e72352e1740accd343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:05 +0000
Subject: [PATCH 43/90] fix: a response stream that fails ends with an error
 for the client, not as if it were complete

---
 src/runtime/bindings/streams.rs | 13 ++++++++++---
 src/worker.rs                   | 12 ++++++++++--
 2 files changed, 20 insertions(+), 5 deletions(-)

diff --git a/src/runtime/bindings/streams.rs b/src/runtime/bindings/streams.rs
index a356e68..6e0e221 100644
--- a/src/runtime/bindings/streams.rs
+++ b/src/runtime/bindings/streams.rs
@@ -134,19 +134,26 @@ fn response_stream_write(
         .is_ok()
 }
 
-/// End a response stream - returns false if the buffer is full (the end must be
-/// written again later, or the client would wait for it forever)
+/// End a response stream, with an error message if it failed - returns false if the
+/// buffer is full (the end must be written again later, or the client would wait for
+/// it forever)
 #[glue_v8::method(state = Rc<ResponseStreamState>)]
 fn response_stream_end(
     scope: &mut v8::PinScope,
     state: &Rc<ResponseStreamState>,
     stream_id: u64,
+    error: Option<String>,
 ) -> bool {
     let _ = scope;
 
+    let end = match error {
+        Some(message) => stream_manager::StreamChunk::Error(message),
+        None => stream_manager::StreamChunk::Done,
+    };
+
     state
         .manager
-        .try_write_chunk(stream_id, stream_manager::StreamChunk::Done)
+        .try_write_chunk(stream_id, end)
         .is_ok()
         || !state.manager.has_sender(stream_id)
 }
diff --git a/src/worker.rs b/src/worker.rs
index c2bd478..fe24479 100644
--- a/src/worker.rs
+++ b/src/worker.rs
@@ -1432,6 +1432,7 @@ pub(crate) fn setup_event_listener(
             (async () => {
                 let reader = null;
                 let cancelled = false;
+                let failure;
 
                 try {
                     reader = response.body.getReader();
@@ -1461,7 +1462,14 @@ pub(crate) fn setup_event_listener(
                         }
                     }
                 } catch (error) {
-                    console.error('[streamResponseBody] Error:', error);
+                    failure = 'Response stream failed';
+
+                    try {
+                        failure = String(error);
+                        console.error('[streamResponseBody] Error:', error);
+                    } catch (e) {
+                        // An error which cannot be converted to a string
+                    }
                 } finally {
                     // Cancel the reader to trigger the source's cancel() callback
                     if (reader && cancelled) {
@@ -1473,7 +1481,7 @@ pub(crate) fn setup_event_listener(
                     }
 
                     // Buffer full: wait and retry, as for chunks
-                    while (!__responseStreamEnd(streamId)) {
+                    while (!__responseStreamEnd(streamId, failure)) {
                         await new Promise(resolve => setTimeout(resolve, 1));
                     }
 
-- 
2.43.0


From 23120985c0702cb751364577c97d7c80fa4b5089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:12 +0000
Subject: [PATCH 44/90] fix: ArrayBuffer and number chunks of a response stream
 were dropped silently

---
 src/worker.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/worker.rs b/src/worker.rs
index fe24479..f46a664 100644
--- a/src/worker.rs
+++ b/src/worker.rs
@@ -1424,6 +1424,10 @@ pub(crate) fn setup_event_listener(
                     return new Uint8Array(value.buffer, value.byteOffset, value.byteLength);
                 }
 
+                if (value instanceof ArrayBuffer) {
+                    return new Uint8Array(value);
+                }
+
                 // Fallback: convert to string then encode
                 return encoder.encode(String(value));
             }
@@ -1442,9 +1446,11 @@ pub(crate) fn setup_event_listener(
 
                         if (done) break;
 
-                        if (value && value.length > 0) {
-                            const chunk = toUint8Array(value);
+                        if (value === undefined || value === null) continue;
+
+                        const chunk = toUint8Array(value);
 
+                        if (chunk.length > 0) {
                             // Try to write, with backpressure handling
                             while (!__responseStreamWrite(streamId, chunk)) {
                                 // Check if stream was closed (client disconnected)
-- 
2.43.0


From fe1535295f691576d5078663409966e761fe77c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:30 +0000
Subject: [PATCH 45/90] fix: the response stream of an execution that ended
 early stayed open for ever

---
 src/execution_context.rs        | 13 +++++++--
 src/execution_helpers.rs        |  4 +++
 src/runtime/bindings/streams.rs |  2 +-
 src/runtime/stream_manager.rs   | 50 +++++++++++++++++++++++++++++++++
 src/worker.rs                   | 13 +++++++--
 5 files changed, 77 insertions(+), 5 deletions(-)

diff --git a/src/execution_context.rs b/src/execution_context.rs
index 2c3b07a..4d98d43 100644
--- a/src/execution_context.rs
+++ b/src/execution_context.rs
@@ -884,6 +884,9 @@ impl ExecutionContext {
         // 2. CPU time limit (Linux only) - prevents CPU-bound infinite loops
         let cpu_guard = CpuEnforcer::new(isolate_handle, self.limits.max_cpu_time_ms);
 
+        let mut abort_streams =
+            stream_manager::AbortResponseStreams::new(self.request.stream_manager.clone());
+
         // Execute the task
         let result = match task {
             Event::Fetch(ref mut init) => {
@@ -908,14 +911,20 @@ impl ExecutionContext {
         };
 
         // Determine termination reason by checking guards (in priority order)
-        self.check_termination_reason(
+        let result = self.check_termination_reason(
             result,
             cpu_guard
                 .as_ref()
                 .map(|g| g.was_terminated())
                 .unwrap_or(false),
             wall_guard.was_triggered(),
-        )
+        );
+
+        if result.is_ok() {
+            abort_streams.disarm();
+        }
+
+        result
         // Guards are dropped here, cancelling any pending watchdogs
     }
 
diff --git a/src/execution_helpers.rs b/src/execution_helpers.rs
index 5f522b7..f621e90 100644
--- a/src/execution_helpers.rs
+++ b/src/execution_helpers.rs
@@ -440,6 +440,10 @@ pub fn read_response_object(
                                     break;
                                 }
                                 None => {
+                                    // Closed without an end: the body is incomplete
+                                    let _ = tx
+                                        .send(Err("Response stream ended early".to_string()))
+                                        .await;
                                     break;
                                 }
                             }
diff --git a/src/runtime/bindings/streams.rs b/src/runtime/bindings/streams.rs
index 6e0e221..a714764 100644
--- a/src/runtime/bindings/streams.rs
+++ b/src/runtime/bindings/streams.rs
@@ -109,7 +109,7 @@ pub fn setup_stream_ops(
 #[glue_v8::method(state = Rc<ResponseStreamState>)]
 fn response_stream_create(scope: &mut v8::PinScope, state: &Rc<ResponseStreamState>) -> u64 {
     let _ = scope;
-    state.manager.create_stream("response".to_string())
+    state.manager.create_response_stream()
 }
 
 /// Write to a response stream - returns true if written, false if full/error
diff --git a/src/runtime/stream_manager.rs b/src/runtime/stream_manager.rs
index 75e0a72..87e5632 100644
--- a/src/runtime/stream_manager.rs
+++ b/src/runtime/stream_manager.rs
@@ -9,6 +9,9 @@ pub type StreamId = u64;
 /// This provides backpressure when the consumer is slow
 pub const DEFAULT_HIGH_WATER_MARK: usize = 16;
 
+/// What `get_stream_info` says for response bodies produced by JavaScript
+const RESPONSE_STREAM: &str = "response";
+
 /// A chunk of data from a stream
 #[derive(Debug, Clone)]
 pub enum StreamChunk {
@@ -180,6 +183,28 @@ impl StreamManager {
         self.detached.lock().unwrap().remove(&stream_id);
     }
 
+    /// Create a stream for a response body which JavaScript produces
+    pub fn create_response_stream(&self) -> StreamId {
+        self.create_stream(RESPONSE_STREAM.to_string())
+    }
+
+    /// Close the response streams JavaScript has not finished, because it will not run
+    /// any more. Their readers get what was written so far, then an error.
+    pub fn abort_response_streams(&self) {
+        let ids: Vec<StreamId> = self
+            .metadata
+            .lock()
+            .unwrap()
+            .iter()
+            .filter(|(_, url)| *url == RESPONSE_STREAM)
+            .map(|(id, _)| *id)
+            .collect();
+
+        for id in ids {
+            self.close_stream(id);
+        }
+    }
+
     /// Get information about a stream (for debugging)
     pub fn get_stream_info(&self, stream_id: StreamId) -> Option<String> {
         self.metadata.lock().unwrap().get(&stream_id).cloned()
@@ -260,6 +285,31 @@ impl StreamManager {
     }
 }
 
+/// Calls `abort_response_streams` when dropped, unless the execution finished.
+///
+/// Covers every way in which an execution can end early: an error, a limit, or the
+/// caller dropping the future.
+pub struct AbortResponseStreams(Option<Arc<StreamManager>>);
+
+impl AbortResponseStreams {
+    pub fn new(manager: Arc<StreamManager>) -> Self {
+        Self(Some(manager))
+    }
+
+    /// The execution finished
+    pub fn disarm(&mut self) {
+        self.0 = None;
+    }
+}
+
+impl Drop for AbortResponseStreams {
+    fn drop(&mut self) {
+        if let Some(manager) = self.0.take() {
+            manager.abort_response_streams();
+        }
+    }
+}
+
 impl Default for StreamManager {
     fn default() -> Self {
         Self::new()
diff --git a/src/worker.rs b/src/worker.rs
index f46a664..262b7e0 100644
--- a/src/worker.rs
+++ b/src/worker.rs
@@ -4,6 +4,7 @@ use crate::execution_helpers::{
     AbortConfig, EventLoopExit, check_exit_condition, get_completion_state, get_response_stream_id,
     read_response_object, signal_client_disconnect, trigger_fetch_handler,
 };
+use crate::runtime::stream_manager::AbortResponseStreams;
 use crate::runtime::{Runtime, run_event_loop};
 use crate::security::{CpuEnforcer, TimeoutGuard};
 use openworkers_core::{
@@ -654,6 +655,8 @@ impl Worker {
         // 2. CPU time limit (Linux only) - prevents CPU-bound infinite loops
         let cpu_guard = CpuEnforcer::new(isolate_handle, limits.max_cpu_time_ms);
 
+        let mut abort_streams = AbortResponseStreams::new(self.runtime.stream_manager.clone());
+
         // Execute the task
         let result = match task {
             Event::Fetch(ref mut init) => {
@@ -678,14 +681,20 @@ impl Worker {
         };
 
         // Determine termination reason by checking guards (in priority order)
-        self.check_termination_reason(
+        let result = self.check_termination_reason(
             result,
             cpu_guard
                 .as_ref()
                 .map(|g| g.was_terminated())
                 .unwrap_or(false),
             wall_guard.was_triggered(),
-        )
+        );
+
+        if result.is_ok() {
+            abort_streams.disarm();
+        }
+
+        result
         // Guards are dropped here, cancelling any pending watchdogs
     }
 
-- 
2.43.0


From c8f3d36da66a42d5643668746b224943bda12e78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:20 +0000
Subject: [PATCH 46/90] fix: a forwarded response body was cut off, as if
 complete, when its context went away

---
 src/runtime/scheduler.rs      | 35 ++++++++++++++++++++++++-----------
 src/runtime/stream_manager.rs |  9 +++++++++
 2 files changed, 33 insertions(+), 11 deletions(-)

diff --git a/src/runtime/scheduler.rs b/src/runtime/scheduler.rs
index b682cbe..ada64d8 100644
--- a/src/runtime/scheduler.rs
+++ b/src/runtime/scheduler.rs
@@ -456,23 +456,22 @@ pub async fn run_event_loop(
 }
 
 /// Spawn a task that reads chunks from a response body stream and writes them
-/// to the stream manager. Cancelled when the request's CancellationToken fires.
+/// to the stream manager. Cancelled when the request's CancellationToken fires, unless
+/// a response forwards the stream: then it goes on until the client is gone.
 fn spawn_stream_reader(
     mut rx: mpsc::Receiver<Result<bytes::Bytes, String>>,
     stream_id: stream_manager::StreamId,
     manager: Arc<StreamManager>,
     cancel: CancellationToken,
 ) {
-    tokio::spawn(async move {
-        loop {
-            let chunk = tokio::select! {
-                biased;
-                _ = cancel.cancelled() => break,
-                r = rx.recv() => r,
-            };
+    let pump_manager = manager.clone();
+
+    let pump = async move {
+        let manager = pump_manager;
 
+        while let Some(chunk) = rx.recv().await {
             match chunk {
-                Some(Ok(bytes)) => {
+                Ok(bytes) => {
                     if manager
                         .write_chunk(stream_id, stream_manager::StreamChunk::Data(bytes))
                         .await
@@ -481,19 +480,33 @@ fn spawn_stream_reader(
                         break;
                     }
                 }
-                Some(Err(e)) => {
+                Err(e) => {
                     let _ = manager
                         .write_chunk(stream_id, stream_manager::StreamChunk::Error(e))
                         .await;
                     return;
                 }
-                None => break,
             }
         }
 
         let _ = manager
             .write_chunk(stream_id, stream_manager::StreamChunk::Done)
             .await;
+    };
+
+    tokio::spawn(async move {
+        let abandoned = async {
+            cancel.cancelled().await;
+
+            if let Some(client) = manager.forwarding_sender(stream_id) {
+                client.closed().await;
+            }
+        };
+
+        tokio::select! {
+            _ = pump => {}
+            _ = abandoned => manager.close_stream(stream_id),
+        }
     });
 }
 
diff --git a/src/runtime/stream_manager.rs b/src/runtime/stream_manager.rs
index 87e5632..40ee1d6 100644
--- a/src/runtime/stream_manager.rs
+++ b/src/runtime/stream_manager.rs
@@ -239,6 +239,15 @@ impl StreamManager {
         self.senders.lock().unwrap().contains_key(&stream_id)
     }
 
+    /// The sender of a stream whose receiver was handed out with `take_receiver`
+    pub fn forwarding_sender(&self, stream_id: StreamId) -> Option<mpsc::Sender<StreamChunk>> {
+        if !self.detached.lock().unwrap().contains(&stream_id) {
+            return None;
+        }
+
+        self.senders.lock().unwrap().get(&stream_id).cloned()
+    }
+
     /// Create a stream and spawn a pump task to forward data from a receiver.
     /// Returns the stream ID that can be passed to JavaScript.
     ///
-- 
2.43.0


From a1c8c5bac35f080f3c438a25b55bf8373f167834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:33 +0000
Subject: [PATCH 47/90] fix: a body nobody reads any more was never released

---
 src/request_context.rs | 8 ++++++++
 src/worker.rs          | 8 ++++++++
 2 files changed, 16 insertions(+)

diff --git a/src/request_context.rs b/src/request_context.rs
index c32e598..d0181a2 100644
--- a/src/request_context.rs
+++ b/src/request_context.rs
@@ -105,3 +105,11 @@ impl RequestContext {
         }
     }
 }
+
+impl Drop for RequestContext {
+    fn drop(&mut self) {
+        // A task still writing a body nobody will read would wait (and keep the stream
+        // manager alive) for ever. Bodies being forwarded to a client are kept.
+        self.stream_manager.clear();
+    }
+}
diff --git a/src/worker.rs b/src/worker.rs
index 262b7e0..74a7464 100644
--- a/src/worker.rs
+++ b/src/worker.rs
@@ -31,6 +31,14 @@ pub struct Worker {
     _cancel_guard: DropGuard,
 }
 
+impl Drop for Worker {
+    fn drop(&mut self) {
+        // A task still writing a body nobody will read would wait (and keep the stream
+        // manager alive) for ever. Bodies being forwarded to a client are kept.
+        self.runtime.stream_manager.clear();
+    }
+}
+
 /// Builder for creating Workers with flexible configuration.
 ///
 /// Supports two modes:
-- 
2.43.0


From d3162bd4efbdbe44c05cf1ea7bc610c090978b9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:50 +0000
Subject: [PATCH 48/90] fix: running out of memory while the script is
 evaluated was reported as an exception

---
 src/execution_context.rs | 8 +++++++-
 src/worker.rs            | 4 ++++
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/execution_context.rs b/src/execution_context.rs
index 4d98d43..f91328f 100644
--- a/src/execution_context.rs
+++ b/src/execution_context.rs
@@ -204,7 +204,9 @@ impl ExecutionContext {
             drop(cpu_guard);
             drop(wall_guard);
 
-            if cpu_limit_hit || wall_timeout_hit {
+            let memory_limit_hit = result.is_err() && memory_limit_hit.load(Ordering::SeqCst);
+
+            if cpu_limit_hit || wall_timeout_hit || memory_limit_hit {
                 // The isolate goes back to the pool: clear the termination request
                 isolate.cancel_terminate_execution();
             }
@@ -217,6 +219,10 @@ impl ExecutionContext {
                 return Err(TerminationReason::WallClockTimeout);
             }
 
+            if memory_limit_hit {
+                return Err(TerminationReason::MemoryLimit);
+            }
+
             result?;
         }
 
diff --git a/src/worker.rs b/src/worker.rs
index 74a7464..43f7a60 100644
--- a/src/worker.rs
+++ b/src/worker.rs
@@ -585,6 +585,10 @@ impl Worker {
                 return Err(TerminationReason::WallClockTimeout);
             }
 
+            if result.is_err() && runtime.memory_limit_hit.load(Ordering::SeqCst) {
+                return Err(TerminationReason::MemoryLimit);
+            }
+
             result.map_err(|e| {
                 TerminationReason::Exception(format!("Script evaluation failed: {}", e))
             })?;
-- 
2.43.0


From 3696114a4cd0586b5cb7babae9605c395e1e1757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:56 +0000
Subject: [PATCH 49/90] fix: TextEncoder.encode produced buffers outside of the
 memory limit

---
 src/runtime/text_encoding.rs | 31 ++++++++++++++++++++++---------
 1 file changed, 22 insertions(+), 9 deletions(-)

diff --git a/src/runtime/text_encoding.rs b/src/runtime/text_encoding.rs
index dbec71c..68b8062 100644
--- a/src/runtime/text_encoding.rs
+++ b/src/runtime/text_encoding.rs
@@ -1,6 +1,6 @@
 use v8;
 
-/// Native TextEncoder.encode: string → Uint8Array (UTF-8)
+/// Native TextEncoder.encode: string → its UTF-8 length, or written into a given Uint8Array
 ///
 /// V8's `to_rust_string_lossy` replaces lone surrogates with U+FFFD,
 /// giving us valid UTF-8 by default. No manual surrogate handling needed.
@@ -18,13 +18,23 @@ fn text_encode(
         return;
     };
 
-    let bytes = input.as_bytes();
-    let len = bytes.len();
-    let backing_store = v8::ArrayBuffer::new_backing_store_from_vec(bytes.to_vec());
-    let buffer = v8::ArrayBuffer::with_backing_store(scope, &backing_store.into());
-    let array = v8::Uint8Array::new(scope, buffer, 0, len).unwrap();
+    // The script's buffer, so that it counts towards the memory limit: without one, the size
+    let Ok(target) = v8::Local::<v8::Uint8Array>::try_from(args.get(1)) else {
+        rv.set(v8::Number::new(scope, input.len() as f64).into());
+        return;
+    };
 
-    rv.set(array.into());
+    let Some(buffer) = target.buffer(scope) else {
+        return;
+    };
+
+    let store = buffer.get_backing_store();
+    let start = target.byte_offset();
+    let end = start + target.byte_length();
+
+    for (cell, byte) in store[start..end].iter().zip(input.as_bytes()) {
+        cell.set(*byte);
+    }
 }
 
 /// Native TextDecoder.decode: (Uint8Array, encoding) → string
@@ -168,7 +178,10 @@ pub const TEXT_ENCODING_JS: &str = r#"
         }
 
         encode(input) {
-            return __text_encode(input);
+            const text = input === undefined ? '' : `${input}`;
+            const bytes = new Uint8Array(__text_encode(text));
+            __text_encode(text, bytes);
+            return bytes;
         }
 
         encodeInto(source, destination) {
@@ -185,7 +198,7 @@ pub const TEXT_ENCODING_JS: &str = r#"
                 written += size;
             }
 
-            destination.set(__text_encode(text.slice(0, read)));
+            __text_encode(text.slice(0, read), destination);
             return { read, written };
         }
     };
-- 
2.43.0


From a49e6e26369ac1c53e163c45dd6f34bf46bebeda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:05 +0000
Subject: [PATCH 50/90] fix: a pooled execution whose future is dropped leaked
 its slot and dropped V8 handles unlocked

---
 src/pool.rs | 78 ++++++++++++++++++++++++++++++++++++++++-------------
 1 file changed, 60 insertions(+), 18 deletions(-)

diff --git a/src/pool.rs b/src/pool.rs
index 10ce28c..b8bad0a 100644
--- a/src/pool.rs
+++ b/src/pool.rs
@@ -522,8 +522,9 @@ fn acquire_from_local_pool(owner_id: &str) -> Option<(Arc<TaggedIsolate>, bool)>
 fn release_to_local_pool(isolate: &TaggedIsolate) {
     isolate.release();
 
-    // Reclaim any overcommitted isolates that are now free
-    LOCAL_POOL.with(|pool_cell| {
+    // Reclaim any overcommitted isolates that are now free (nothing to do while the
+    // thread is ending)
+    let _ = LOCAL_POOL.try_with(|pool_cell| {
         let mut pool_opt = pool_cell.borrow_mut();
 
         if let Some(pool) = pool_opt.as_mut() {
@@ -586,6 +587,47 @@ fn drop_under_lock<T>(value: T, lmi_ptr: *mut LockerManagedIsolate) {
     }
 }
 
+/// Gives the acquired slot back when the execution is over, in whatever way it ends
+/// (also when its future is dropped halfway).
+struct SlotGuard(Arc<TaggedIsolate>);
+
+impl Drop for SlotGuard {
+    fn drop(&mut self) {
+        release_to_local_pool(&self.0);
+    }
+}
+
+/// Owns a value holding V8 handles; drops it under the isolate's lock.
+struct LockedDrop<T> {
+    value: Option<T>,
+    lmi_ptr: *mut LockerManagedIsolate,
+}
+
+impl<T> LockedDrop<T> {
+    fn new(value: T, lmi_ptr: *mut LockerManagedIsolate) -> Self {
+        Self {
+            value: Some(value),
+            lmi_ptr,
+        }
+    }
+
+    fn get_mut(&mut self) -> &mut T {
+        self.value.as_mut().expect("value is present until drop")
+    }
+
+    fn into_inner(mut self) -> T {
+        self.value.take().expect("value is present until drop")
+    }
+}
+
+impl<T> Drop for LockedDrop<T> {
+    fn drop(&mut self) {
+        if let Some(value) = self.value.take() {
+            drop_under_lock(value, self.lmi_ptr);
+        }
+    }
+}
+
 /// Execute a worker script using the isolate pool.
 ///
 /// This uses thread-local storage for zero-contention access to isolates.
@@ -627,6 +669,8 @@ pub async fn execute_pinned(req: PinnedExecuteRequest) -> Result<(), Termination
         CACHE_MISSES.fetch_add(1, Ordering::Relaxed);
     }
 
+    let _slot = SlotGuard(Arc::clone(&isolate_arc));
+
     // Get raw pointer to isolate via UnsafeCell (no Mutex aliasing).
     // SAFETY: Concurrency state prevents eviction. Arc keeps memory alive.
     // Single-thread access via LocalSet.
@@ -705,7 +749,7 @@ pub async fn execute_pinned(req: PinnedExecuteRequest) -> Result<(), Termination
         );
 
         // Reconstruct EC from cached parts
-        let mut ec = ExecutionContext::from_cached(
+        let ec = ExecutionContext::from_cached(
             cached_isolate_ptr,
             lmi_ptr,
             platform,
@@ -714,15 +758,16 @@ pub async fn execute_pinned(req: PinnedExecuteRequest) -> Result<(), Termination
             request,
             async_waiter.clone(),
         );
+        let mut ec = LockedDrop::new(ec, lmi_ptr);
 
         if let Some(callback) = on_warm_hit {
             callback(&cached_ops);
         }
 
         // reset() acquires its own V8 lock internally
-        match ec.reset() {
+        match ec.get_mut().reset() {
             Ok(()) => {
-                let result = ec.exec(task).await;
+                let result = ec.get_mut().exec(task).await;
 
                 let save_to_cache = if result.is_err() {
                     tracing::debug!(
@@ -731,7 +776,7 @@ pub async fn execute_pinned(req: PinnedExecuteRequest) -> Result<(), Termination
                         result.as_ref().err(),
                     );
                     false
-                } else if let Err(reason) = ec.drain_waituntil().await {
+                } else if let Err(reason) = ec.get_mut().drain_waituntil().await {
                     tracing::debug!(
                         "context DISCARDED: worker={}, reason=drain_waituntil: {:?}",
                         &worker_id[..8.min(worker_id.len())],
@@ -758,7 +803,7 @@ pub async fn execute_pinned(req: PinnedExecuteRequest) -> Result<(), Termination
                         None
                     };
 
-                    let (request, isolate_ptr) = ec.into_parts();
+                    let (request, isolate_ptr) = ec.into_inner().into_parts();
                     inner.cached_contexts.push(CachedContext {
                         request,
                         isolate_ptr,
@@ -775,10 +820,9 @@ pub async fn execute_pinned(req: PinnedExecuteRequest) -> Result<(), Termination
                         drop_under_lock(evicted, lmi_ptr);
                     }
                 } else {
-                    drop_under_lock(ec, lmi_ptr);
+                    drop(ec);
                 }
 
-                release_to_local_pool(&isolate_arc);
                 return result;
             }
             Err(e) => {
@@ -787,7 +831,7 @@ pub async fn execute_pinned(req: PinnedExecuteRequest) -> Result<(), Termination
                     &worker_id[..8.min(worker_id.len())],
                     e,
                 );
-                drop_under_lock(ec, lmi_ptr);
+                drop(ec);
                 // Fall through to cold path
             }
         }
@@ -821,12 +865,13 @@ pub async fn execute_pinned(req: PinnedExecuteRequest) -> Result<(), Termination
     let (result, new_cached_context) = match ctx_result {
         Ok(mut ctx) => {
             ctx.async_waiter = async_waiter;
-            let result = ctx.exec(task).await;
+            let mut ctx = LockedDrop::new(ctx, lmi_ptr);
+            let result = ctx.get_mut().exec(task).await;
 
             if result.is_ok() {
-                match ctx.drain_waituntil().await {
+                match ctx.get_mut().drain_waituntil().await {
                     Ok(()) => {
-                        let (request, isolate_ptr) = ctx.into_parts();
+                        let (request, isolate_ptr) = ctx.into_inner().into_parts();
                         (
                             result,
                             Some(CachedContext {
@@ -847,7 +892,7 @@ pub async fn execute_pinned(req: PinnedExecuteRequest) -> Result<(), Termination
                             &worker_id[..8.min(worker_id.len())],
                             reason,
                         );
-                        drop_under_lock(ctx, lmi_ptr);
+                        drop(ctx);
                         (Ok(()), None)
                     }
                 }
@@ -857,7 +902,7 @@ pub async fn execute_pinned(req: PinnedExecuteRequest) -> Result<(), Termination
                     &worker_id[..8.min(worker_id.len())],
                     result.as_ref().err(),
                 );
-                drop_under_lock(ctx, lmi_ptr);
+                drop(ctx);
                 (result, None)
             }
         }
@@ -889,9 +934,6 @@ pub async fn execute_pinned(req: PinnedExecuteRequest) -> Result<(), Termination
         }
     }
 
-    // Release the isolate back to the pool
-    release_to_local_pool(&isolate_arc);
-
     result
 }
 
-- 
2.43.0


From 6ed81f255edf811958f09d06441878ff9e383765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:05 +0000
Subject: [PATCH 51/90] fix: logging a pooled execution panicked for worker ids
 with multi-byte characters

---
 src/pool.rs | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/src/pool.rs b/src/pool.rs
index b8bad0a..655881b 100644
--- a/src/pool.rs
+++ b/src/pool.rs
@@ -568,6 +568,17 @@ pub fn get_local_pool_stats() -> Option<LocalPoolStats> {
 // Execution API
 // ============================================================================
 
+/// The first 8 bytes of an id (fewer when that would split a character), for logging.
+fn short_id(id: &str) -> &str {
+    let mut end = 8.min(id.len());
+
+    while !id.is_char_boundary(end) {
+        end -= 1;
+    }
+
+    &id[..end]
+}
+
 /// Drop a value under V8 Locker.
 ///
 /// V8 Global handles must be destroyed while the Locker is held.
@@ -743,7 +754,7 @@ pub async fn execute_pinned(req: PinnedExecuteRequest) -> Result<(), Termination
 
         tracing::debug!(
             "context WARM: worker={}, version={}, reuse_count={}",
-            &worker_id[..8.min(worker_id.len())],
+            short_id(&worker_id),
             version,
             reuse_cnt,
         );
@@ -772,14 +783,14 @@ pub async fn execute_pinned(req: PinnedExecuteRequest) -> Result<(), Termination
                 let save_to_cache = if result.is_err() {
                     tracing::debug!(
                         "context DISCARDED: worker={}, reason={:?}",
-                        &worker_id[..8.min(worker_id.len())],
+                        short_id(&worker_id),
                         result.as_ref().err(),
                     );
                     false
                 } else if let Err(reason) = ec.get_mut().drain_waituntil().await {
                     tracing::debug!(
                         "context DISCARDED: worker={}, reason=drain_waituntil: {:?}",
-                        &worker_id[..8.min(worker_id.len())],
+                        short_id(&worker_id),
                         reason,
                     );
                     false
@@ -828,7 +839,7 @@ pub async fn execute_pinned(req: PinnedExecuteRequest) -> Result<(), Termination
             Err(e) => {
                 tracing::debug!(
                     "context DISCARDED: worker={}, reason=reset_failed: {}",
-                    &worker_id[..8.min(worker_id.len())],
+                    short_id(&worker_id),
                     e,
                 );
                 drop(ec);
@@ -840,7 +851,7 @@ pub async fn execute_pinned(req: PinnedExecuteRequest) -> Result<(), Termination
     // ── Cold path ──────────────────────────────────────────────────────
     tracing::debug!(
         "context COLD: worker={}, creating new context",
-        &worker_id[..8.min(worker_id.len())],
+        short_id(&worker_id),
     );
 
     // Acquire Locker to enter the unentered isolate, create context
@@ -889,7 +900,7 @@ pub async fn execute_pinned(req: PinnedExecuteRequest) -> Result<(), Termination
                     Err(reason) => {
                         tracing::debug!(
                             "context NOT CACHED: worker={}, reason=drain_waituntil: {:?}",
-                            &worker_id[..8.min(worker_id.len())],
+                            short_id(&worker_id),
                             reason,
                         );
                         drop(ctx);
@@ -899,7 +910,7 @@ pub async fn execute_pinned(req: PinnedExecuteRequest) -> Result<(), Termination
             } else {
                 tracing::debug!(
                     "context NOT CACHED: worker={}, reason={:?}",
-                    &worker_id[..8.min(worker_id.len())],
+                    short_id(&worker_id),
                     result.as_ref().err(),
                 );
                 drop(ctx);
-- 
2.43.0


From 3f351bd17b457f664774545adb73dd035a79e418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:52 +0000
Subject: [PATCH 52/90] fix: a cancelled execution left the others sharing its
 isolate waiting for ever

---
 src/async_waiter.rs      | 75 +++++++++++++++++++++++++++++++++++++++-
 src/execution_context.rs | 64 ++++++++++------------------------
 2 files changed, 93 insertions(+), 46 deletions(-)

diff --git a/src/async_waiter.rs b/src/async_waiter.rs
index b1c5000..43a639a 100644
--- a/src/async_waiter.rs
+++ b/src/async_waiter.rs
@@ -9,8 +9,8 @@
 //! `tokio::task::LocalSet` thread, so the mutex never contends.
 
 use std::collections::VecDeque;
-use std::sync::Mutex;
 use std::sync::atomic::{AtomicBool, Ordering};
+use std::sync::{Arc, Mutex};
 use std::task::{Context, Waker};
 
 /// Fair FIFO queue for serializing V8 Locker access across concurrent requests.
@@ -77,6 +77,26 @@ impl AsyncWaiter {
         }
     }
 
+    /// Leave the queue without having had a turn. If the turn was already announced to
+    /// this waiter, the announcement is passed on to the next one.
+    pub fn leave(&self, waker: &Waker) {
+        let next = {
+            let mut queue = self.queue.lock().unwrap();
+            let waiting = queue.len();
+            queue.retain(|queued| !queued.will_wake(waker));
+
+            if queue.len() == waiting && !self.locked.load(Ordering::Acquire) {
+                queue.pop_front()
+            } else {
+                None
+            }
+        };
+
+        if let Some(waker) = next {
+            waker.wake();
+        }
+    }
+
     /// Returns true if no request currently holds the lock.
     pub fn is_free(&self) -> bool {
         !self.locked.load(Ordering::Acquire)
@@ -88,6 +108,59 @@ impl AsyncWaiter {
     }
 }
 
+/// One request's place in the queue: gives up its turn or its place when dropped, so that
+/// an execution that is cancelled (or panics) never leaves the others waiting.
+/// Without a waiter (no multiplexing) it is always its turn.
+pub struct Turn {
+    waiter: Option<Arc<AsyncWaiter>>,
+    waiting: Option<Waker>,
+    holding: bool,
+}
+
+impl Turn {
+    pub fn new(waiter: Option<Arc<AsyncWaiter>>) -> Self {
+        Self {
+            waiter,
+            waiting: None,
+            holding: false,
+        }
+    }
+
+    /// See [`AsyncWaiter::try_lock`].
+    pub fn try_lock(&mut self, cx: &mut Context<'_>) -> bool {
+        let Some(waiter) = &self.waiter else {
+            return true;
+        };
+
+        self.holding = waiter.try_lock(cx);
+        self.waiting = (!self.holding).then(|| cx.waker().clone());
+        self.holding
+    }
+
+    /// See [`AsyncWaiter::unlock`].
+    pub fn unlock(&mut self) {
+        self.holding = false;
+
+        if let Some(waiter) = &self.waiter {
+            waiter.unlock();
+        }
+    }
+}
+
+impl Drop for Turn {
+    fn drop(&mut self) {
+        let Some(waiter) = &self.waiter else {
+            return;
+        };
+
+        if self.holding {
+            waiter.unlock();
+        } else if let Some(waker) = &self.waiting {
+            waiter.leave(waker);
+        }
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
diff --git a/src/execution_context.rs b/src/execution_context.rs
index f91328f..b37ea49 100644
--- a/src/execution_context.rs
+++ b/src/execution_context.rs
@@ -16,7 +16,7 @@ use tokio_util::sync::CancellationToken;
 use v8;
 
 use crate::LockerManagedIsolate;
-use crate::async_waiter::AsyncWaiter;
+use crate::async_waiter::{AsyncWaiter, Turn};
 use crate::execution_helpers::{
     AbortConfig, EventLoopExit, check_exit_condition, get_completion_state, get_response_stream_id,
     read_response_object, signal_client_disconnect, trigger_fetch_handler,
@@ -1067,15 +1067,13 @@ impl ExecutionContext {
         let mut abort_signaled_at: Option<tokio::time::Instant> = None;
         let mut pending_callbacks: Vec<crate::runtime::CallbackMessage> = Vec::with_capacity(16);
         let lmi_ptr = self.lmi_ptr; // Copy raw pointer (no persistent borrow on self)
-        let async_waiter = self.async_waiter.clone(); // Clone Rc (cheap) to avoid borrow on self
+        let mut turn = Turn::new(self.async_waiter.clone()); // Clone Arc (cheap) to avoid borrow on self
 
         std::future::poll_fn(|cx| {
             // -- Fair queue gate (if multiplexing enabled) --
             // When multiple requests share an isolate, only one can hold the
             // V8 Locker at a time. Others wait in FIFO order.
-            if let Some(ref waiter) = async_waiter
-                && !waiter.try_lock(cx)
-            {
+            if !turn.try_lock(cx) {
                 return Poll::Pending; // Not our turn, will be woken in FIFO order
             }
 
@@ -1092,9 +1090,7 @@ impl ExecutionContext {
 
             // 1. Check termination (CPU/wall-clock guards)
             if self.is_terminated(wall_guard, cpu_guard) {
-                if let Some(ref waiter) = async_waiter {
-                    waiter.unlock();
-                }
+                turn.unlock();
 
                 return Poll::Ready(Err("Execution terminated".to_string()));
             }
@@ -1109,9 +1105,7 @@ impl ExecutionContext {
                 let count = match drain_and_process(cx, self, &mut pending_callbacks) {
                     Ok(c) => c,
                     Err(e) => {
-                        if let Some(ref waiter) = async_waiter {
-                            waiter.unlock();
-                        }
+                        turn.unlock();
 
                         return Poll::Ready(Err(e));
                     }
@@ -1125,9 +1119,7 @@ impl ExecutionContext {
                 );
 
                 if should_exit {
-                    if let Some(ref waiter) = async_waiter {
-                        waiter.unlock();
-                    }
+                    turn.unlock();
 
                     return Poll::Ready(Ok(()));
                 }
@@ -1143,9 +1135,7 @@ impl ExecutionContext {
 
             // 6. Not done yet — release fair queue and V8 lock.
             //    V8 mutex released, other requests can run on this isolate.
-            if let Some(ref waiter) = async_waiter {
-                waiter.unlock();
-            }
+            turn.unlock();
 
             // 7. Terminated while processing: nothing else would wake us to notice.
             if self.is_terminated(wall_guard, cpu_guard)
@@ -1195,12 +1185,10 @@ impl ExecutionContext {
         // -- Phase 1: Trigger fetch handler (fair queue + lock) --
         {
             let lmi_ptr = self.lmi_ptr;
-            let async_waiter = self.async_waiter.clone();
+            let mut turn = Turn::new(self.async_waiter.clone());
 
             std::future::poll_fn(|cx| {
-                if let Some(ref waiter) = async_waiter
-                    && !waiter.try_lock(cx)
-                {
+                if !turn.try_lock(cx) {
                     return std::task::Poll::Pending;
                 }
 
@@ -1226,9 +1214,7 @@ impl ExecutionContext {
                     )
                 };
 
-                if let Some(ref waiter) = async_waiter {
-                    waiter.unlock();
-                }
+                turn.unlock();
 
                 if self.heap_limit_hits() != heap_limit_hits {
                     return std::task::Poll::Ready(Err("Execution terminated".to_string()));
@@ -1246,12 +1232,10 @@ impl ExecutionContext {
         // -- Phase 3: Read response (fair queue + lock) --
         let (status, response) = {
             let lmi_ptr = self.lmi_ptr;
-            let async_waiter = self.async_waiter.clone();
+            let mut turn = Turn::new(self.async_waiter.clone());
 
             std::future::poll_fn(|cx| {
-                if let Some(ref waiter) = async_waiter
-                    && !waiter.try_lock(cx)
-                {
+                if !turn.try_lock(cx) {
                     return std::task::Poll::Pending;
                 }
 
@@ -1273,9 +1257,7 @@ impl ExecutionContext {
                     )
                 };
 
-                if let Some(ref waiter) = async_waiter {
-                    waiter.unlock();
-                }
+                turn.unlock();
 
                 std::task::Poll::Ready(result)
             })
@@ -1317,12 +1299,10 @@ impl ExecutionContext {
         // -- Phase 1: Trigger task handler (fair queue + lock) --
         {
             let lmi_ptr = self.lmi_ptr;
-            let async_waiter = self.async_waiter.clone();
+            let mut turn = Turn::new(self.async_waiter.clone());
 
             std::future::poll_fn(|cx| {
-                if let Some(ref waiter) = async_waiter
-                    && !waiter.try_lock(cx)
-                {
+                if !turn.try_lock(cx) {
                     return std::task::Poll::Pending;
                 }
 
@@ -1410,9 +1390,7 @@ impl ExecutionContext {
                     }
                 };
 
-                if let Some(ref waiter) = async_waiter {
-                    waiter.unlock();
-                }
+                turn.unlock();
 
                 if self.heap_limit_hits() != heap_limit_hits {
                     return std::task::Poll::Ready(Err("Execution terminated".to_string()));
@@ -1430,12 +1408,10 @@ impl ExecutionContext {
         // -- Phase 3: Read task result (fair queue + lock) --
         let task_result = {
             let lmi_ptr = self.lmi_ptr;
-            let async_waiter = self.async_waiter.clone();
+            let mut turn = Turn::new(self.async_waiter.clone());
 
             std::future::poll_fn(|cx| {
-                if let Some(ref waiter) = async_waiter
-                    && !waiter.try_lock(cx)
-                {
+                if !turn.try_lock(cx) {
                     return std::task::Poll::Pending;
                 }
 
@@ -1496,9 +1472,7 @@ impl ExecutionContext {
                     }
                 };
 
-                if let Some(ref waiter) = async_waiter {
-                    waiter.unlock();
-                }
+                turn.unlock();
 
                 std::task::Poll::Ready(result)
             })
-- 
2.43.0


From bc08819a50eb0726709b5d07a937afbdd227f4c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:20 +0000
Subject: [PATCH 53/90] fix: timers of a finished request went on ticking in
 its kept context

---
 src/execution_context.rs | 6 ++++++
 src/runtime/scheduler.rs | 7 +++++++
 2 files changed, 13 insertions(+)

diff --git a/src/execution_context.rs b/src/execution_context.rs
index b37ea49..9cad03b 100644
--- a/src/execution_context.rs
+++ b/src/execution_context.rs
@@ -315,6 +315,12 @@ impl ExecutionContext {
     /// without aborting the event loop. The remaining EC fields (raw pointers,
     /// static refs, Arcs) are dropped normally.
     pub(crate) fn into_parts(self) -> (RequestContext, *mut v8::OwnedIsolate) {
+        // The event loop outlives the request, its timers must not.
+        let _ = self
+            .request
+            .scheduler_tx
+            .send(crate::runtime::SchedulerMessage::ClearAllTimers);
+
         (self.request, self.isolate)
     }
 
diff --git a/src/runtime/scheduler.rs b/src/runtime/scheduler.rs
index ada64d8..789ccb6 100644
--- a/src/runtime/scheduler.rs
+++ b/src/runtime/scheduler.rs
@@ -55,6 +55,8 @@ pub enum SchedulerMessage {
     ScheduleTimeout(CallbackId, u64),
     ScheduleInterval(CallbackId, u64),
     ClearTimer(CallbackId),
+    /// The request is over: none of its timers may go on ticking
+    ClearAllTimers,
     FetchStreaming(CallbackId, HttpRequest),
     BindingFetch(CallbackId, String, HttpRequest),
     BindingStorage(CallbackId, String, StorageOp),
@@ -167,6 +169,11 @@ pub async fn run_event_loop(
                         cancelled.insert(id);
                     }
 
+                    SchedulerMessage::ClearAllTimers => {
+                        timers.clear();
+                        cancelled.clear();
+                    }
+
                     SchedulerMessage::FetchStreaming(promise_id, request) => {
                         let callback_tx = callback_tx.clone();
                         let manager = stream_manager.clone();
-- 
2.43.0


From cfdc83d408217f2183952002147b2bb658ec1633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:42 +0000
Subject: [PATCH 54/90] fix: a limit of 0 cached contexts still kept one

---
 src/pool.rs | 48 ++++++++++++++++++++----------------------------
 1 file changed, 20 insertions(+), 28 deletions(-)

diff --git a/src/pool.rs b/src/pool.rs
index 655881b..8ed3a64 100644
--- a/src/pool.rs
+++ b/src/pool.rs
@@ -193,6 +193,24 @@ struct TaggedIsolateInner {
     total_requests: u64,
 }
 
+impl TaggedIsolateInner {
+    /// Keep a context for reuse. Returns the least recently used one if that makes too many.
+    fn cache_context(&mut self, context: CachedContext) -> Option<CachedContext> {
+        self.cached_contexts.push(context);
+
+        if self.cached_contexts.len() <= self.max_cached {
+            return None;
+        }
+
+        self.cached_contexts
+            .iter()
+            .enumerate()
+            .min_by_key(|(_, c)| c.last_used)
+            .map(|(i, _)| i)
+            .map(|idx| self.cached_contexts.swap_remove(idx))
+    }
+}
+
 /// A tagged isolate with owner tracking and concurrency control.
 ///
 /// Each isolate is tagged with an owner_id. Concurrency is managed by
@@ -801,21 +819,8 @@ pub async fn execute_pinned(req: PinnedExecuteRequest) -> Result<(), Termination
                 if save_to_cache {
                     let mut inner = isolate_arc.inner.lock().await;
 
-                    let evicted = if inner.cached_contexts.len() >= inner.max_cached {
-                        // LRU eviction: replace least recently used context
-                        inner
-                            .cached_contexts
-                            .iter()
-                            .enumerate()
-                            .min_by_key(|(_, c)| c.last_used)
-                            .map(|(i, _)| i)
-                            .map(|idx| inner.cached_contexts.swap_remove(idx))
-                    } else {
-                        None
-                    };
-
                     let (request, isolate_ptr) = ec.into_inner().into_parts();
-                    inner.cached_contexts.push(CachedContext {
+                    let evicted = inner.cache_context(CachedContext {
                         request,
                         isolate_ptr,
                         worker_id: cached_wid,
@@ -924,20 +929,7 @@ pub async fn execute_pinned(req: PinnedExecuteRequest) -> Result<(), Termination
     if let Some(cached) = new_cached_context {
         let mut inner = isolate_arc.inner.lock().await;
 
-        let evicted = if inner.cached_contexts.len() >= inner.max_cached {
-            // LRU eviction: replace least recently used context
-            inner
-                .cached_contexts
-                .iter()
-                .enumerate()
-                .min_by_key(|(_, c)| c.last_used)
-                .map(|(i, _)| i)
-                .map(|idx| inner.cached_contexts.swap_remove(idx))
-        } else {
-            None
-        };
-
-        inner.cached_contexts.push(cached);
+        let evicted = inner.cache_context(cached);
         drop(inner);
 
         if let Some(evicted) = evicted {
-- 
2.43.0


From bb08461279f2cafbe07031f2615d8db1b67d3dba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:53 +0000
Subject: [PATCH 55/90] fix: one rejected waitUntil promise abandoned the
 others

---
 src/worker.rs | 39 +++++++++++++++++++++------------------
 1 file changed, 21 insertions(+), 18 deletions(-)

diff --git a/src/worker.rs b/src/worker.rs
index 43f7a60..f021e39 100644
--- a/src/worker.rs
+++ b/src/worker.rs
@@ -1520,6 +1520,21 @@ pub(crate) fn setup_event_listener(
             return response;
         }
 
+        // Wait for everything passed to waitUntil (also while waiting): one failure must
+        // not abandon the others
+        globalThis.__waitUntilAll = async function(promises) {
+            let failed = null;
+
+            while (promises.length > 0) {
+                const settled = await Promise.allSettled(promises.splice(0));
+                failed = failed || settled.find(result => result.status === 'rejected');
+            }
+
+            if (failed) {
+                throw failed.reason;
+            }
+        };
+
         globalThis.addEventListener = function(type, handler) {
             if (type === 'fetch') {
                 globalThis.__fetchHandler = handler;
@@ -1597,9 +1612,7 @@ pub(crate) fn setup_event_listener(
                             }
 
                             // Then wait for all waitUntil promises to complete
-                            if (waitUntilPromises.length > 0) {
-                                await Promise.all(waitUntilPromises);
-                            }
+                            await __waitUntilAll(waitUntilPromises);
                         } catch (error) {
                             console.error('[addEventListener] Error in fetch handler:', error);
                             // Only set a 500 response if no response was already produced.
@@ -1625,9 +1638,7 @@ pub(crate) fn setup_event_listener(
                         await handler(event);
 
                         // Wait for all waitUntil promises to complete
-                        if (waitUntilPromises.length > 0) {
-                            await Promise.all(waitUntilPromises);
-                        }
+                        await __waitUntilAll(waitUntilPromises);
                     } finally {
                         globalThis.__requestComplete = true;
                     }
@@ -1673,9 +1684,7 @@ pub(crate) fn setup_event_listener(
                         }
 
                         // Wait for all waitUntil promises to complete
-                        if (waitUntilPromises.length > 0) {
-                            await Promise.all(waitUntilPromises);
-                        }
+                        await __waitUntilAll(waitUntilPromises);
                     } catch (error) {
                         console.error('[task] Handler error:', error);
                         globalThis.__taskResult = {
@@ -1732,9 +1741,7 @@ pub(crate) fn setup_es_modules_handler(
                         globalThis.__lastResponse = processed;
 
                         // Wait for all waitUntil promises to complete (after response is set)
-                        if (waitUntilPromises.length > 0) {
-                            await Promise.all(waitUntilPromises);
-                        }
+                        await __waitUntilAll(waitUntilPromises);
                     } catch (error) {
                         console.error('[ES Modules] Error in fetch handler:', error);
                         if (!globalThis.__lastResponse) {
@@ -1777,9 +1784,7 @@ pub(crate) fn setup_es_modules_handler(
                     await moduleScheduled(event, globalThis.env, ctx);
 
                     // Wait for all waitUntil promises to complete
-                    if (waitUntilPromises.length > 0) {
-                        await Promise.all(waitUntilPromises);
-                    }
+                    await __waitUntilAll(waitUntilPromises);
                 } finally {
                     globalThis.__requestComplete = true;
                 }
@@ -1839,9 +1844,7 @@ pub(crate) fn setup_es_modules_handler(
                     }
 
                     // Wait for all waitUntil promises
-                    if (waitUntilPromises.length > 0) {
-                        await Promise.all(waitUntilPromises);
-                    }
+                    await __waitUntilAll(waitUntilPromises);
                 } catch (e) {
                     globalThis.__taskResult = {
                         success: false,
-- 
2.43.0


From d2a5b796e1e5b65cd9b6bf1f6a83837c34bbf9a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:10 +0000
Subject: [PATCH 56/90] fix: a handler that throws null or an unprintable value
 left the client without an answer

---
 src/worker.rs | 40 +++++++++++++++++++++++++++++-----------
 1 file changed, 29 insertions(+), 11 deletions(-)

diff --git a/src/worker.rs b/src/worker.rs
index f021e39..56fa179 100644
--- a/src/worker.rs
+++ b/src/worker.rs
@@ -1535,6 +1535,24 @@ pub(crate) fn setup_event_listener(
             }
         };
 
+        // The text of whatever was thrown: nothing at all, or something whose conversion
+        // throws in turn, must not keep the failure from being reported
+        globalThis.__errorText = function(error) {
+            try {
+                return String((error && error.message) || error);
+            } catch (e) {
+                return 'unknown error';
+            }
+        };
+
+        globalThis.__logError = function(prefix, error) {
+            try {
+                console.error(prefix, error);
+            } catch (e) {
+                // An error which cannot be printed
+            }
+        };
+
         globalThis.addEventListener = function(type, handler) {
             if (type === 'fetch') {
                 globalThis.__fetchHandler = handler;
@@ -1557,9 +1575,9 @@ pub(crate) fn setup_event_listener(
                                         globalThis.__lastResponse = response;
                                     })
                                     .catch(error => {
-                                        console.error('[respondWith] Promise rejected:', error);
+                                        __logError('[respondWith] Promise rejected:', error);
                                         globalThis.__lastResponse = new Response(
-                                            'Promise rejected: ' + (error.message || error),
+                                            'Promise rejected: ' + __errorText(error),
                                             { status: 500 }
                                         );
                                     });
@@ -1598,9 +1616,9 @@ pub(crate) fn setup_event_listener(
                                         }
                                     })
                                     .catch(error => {
-                                        console.error('[addEventListener] Handler promise rejected:', error);
+                                        __logError('[addEventListener] Handler promise rejected:', error);
                                         globalThis.__lastResponse = new Response(
-                                            'Handler promise rejected: ' + (error.message || error),
+                                            'Handler promise rejected: ' + __errorText(error),
                                             { status: 500 }
                                         );
                                     });
@@ -1614,11 +1632,11 @@ pub(crate) fn setup_event_listener(
                             // Then wait for all waitUntil promises to complete
                             await __waitUntilAll(waitUntilPromises);
                         } catch (error) {
-                            console.error('[addEventListener] Error in fetch handler:', error);
+                            __logError('[addEventListener] Error in fetch handler:', error);
                             // Only set a 500 response if no response was already produced.
                             // A rejected waitUntil promise must NOT overwrite a valid response.
                             if (!globalThis.__lastResponse) {
-                                globalThis.__lastResponse = new Response('Handler exception: ' + (error.message || error), { status: 500 });
+                                globalThis.__lastResponse = new Response('Handler exception: ' + __errorText(error), { status: 500 });
                             }
                         } finally {
                             globalThis.__requestComplete = true;
@@ -1686,10 +1704,10 @@ pub(crate) fn setup_event_listener(
                         // Wait for all waitUntil promises to complete
                         await __waitUntilAll(waitUntilPromises);
                     } catch (error) {
-                        console.error('[task] Handler error:', error);
+                        __logError('[task] Handler error:', error);
                         globalThis.__taskResult = {
                             success: false,
-                            error: error.message || String(error)
+                            error: __errorText(error)
                         };
                     } finally {
                         globalThis.__requestComplete = true;
@@ -1743,10 +1761,10 @@ pub(crate) fn setup_es_modules_handler(
                         // Wait for all waitUntil promises to complete (after response is set)
                         await __waitUntilAll(waitUntilPromises);
                     } catch (error) {
-                        console.error('[ES Modules] Error in fetch handler:', error);
+                        __logError('[ES Modules] Error in fetch handler:', error);
                         if (!globalThis.__lastResponse) {
                             globalThis.__lastResponse = new Response(
-                                'Handler exception: ' + (error.message || error),
+                                'Handler exception: ' + __errorText(error),
                                 { status: 500 }
                             );
                         }
@@ -1848,7 +1866,7 @@ pub(crate) fn setup_es_modules_handler(
                 } catch (e) {
                     globalThis.__taskResult = {
                         success: false,
-                        error: e.message || String(e)
+                        error: __errorText(e)
                     };
                 } finally {
                     globalThis.__requestComplete = true;
-- 
2.43.0


From 14aa697599afd5f6f2eb492958c6853b5462db36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:35 +0000
Subject: [PATCH 57/90] fix: a failing scheduled handler was reported as
 success, a missing one waited for ever

---
 src/worker.rs | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/worker.rs b/src/worker.rs
index 56fa179..6f2531d 100644
--- a/src/worker.rs
+++ b/src/worker.rs
@@ -1657,6 +1657,9 @@ pub(crate) fn setup_event_listener(
 
                         // Wait for all waitUntil promises to complete
                         await __waitUntilAll(waitUntilPromises);
+                    } catch (error) {
+                        __logError('[scheduled] Handler error:', error);
+                        globalThis.__taskResult = { success: false, error: __errorText(error) };
                     } finally {
                         globalThis.__requestComplete = true;
                     }
@@ -1803,16 +1806,20 @@ pub(crate) fn setup_es_modules_handler(
 
                     // Wait for all waitUntil promises to complete
                     await __waitUntilAll(waitUntilPromises);
+                } catch (error) {
+                    __logError('[ES Modules] Error in scheduled handler:', error);
+                    globalThis.__taskResult = { success: false, error: __errorText(error) };
                 } finally {
                     globalThis.__requestComplete = true;
                 }
             };
         }
 
-        // If export default exists but no scheduled, and no addEventListener handler, create a handler that throws
+        // If export default exists but no scheduled, and no addEventListener handler, create a handler that fails
         if (typeof globalThis.default === 'object' && globalThis.default !== null && typeof globalThis.default.scheduled !== 'function' && typeof globalThis.__scheduledHandler !== 'function') {
             globalThis.__scheduledHandler = async function(event) {
-                throw new Error('Worker does not implement scheduled handler');
+                globalThis.__taskResult = { success: false, error: 'Worker does not implement scheduled handler' };
+                globalThis.__requestComplete = true;
             };
         }
 
@@ -1882,6 +1889,14 @@ pub(crate) fn setup_es_modules_handler(
             }
         }
 
+        // No handler at all for task and scheduled events: fail instead of waiting for ever
+        if (typeof globalThis.__taskHandler !== 'function' && typeof globalThis.__scheduledHandler !== 'function') {
+            globalThis.__scheduledHandler = async function(event) {
+                globalThis.__taskResult = { success: false, error: 'Worker does not implement task handler' };
+                globalThis.__requestComplete = true;
+            };
+        }
+
         // Final fallback: if __triggerFetch is still not defined (no addEventListener, no valid export default),
         // create a 501 handler. This handles cases like:
         // - globalThis.default = null
-- 
2.43.0


From 822b04244e63edc68e503ee7234ab0319413781c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:17 +0000
Subject: [PATCH 58/90] fix: a client disconnect went unnoticed until something
 else woke the event loop

---
 src/execution_context.rs      | 32 ++++++++++++++--------------
 src/execution_helpers.rs      | 39 +++++++++++++++++++++++++++++++++++
 src/runtime/stream_manager.rs | 15 ++++++++++++++
 src/worker.rs                 | 24 +++++++++++++--------
 src/worker_future.rs          | 21 ++++++++++++++-----
 5 files changed, 102 insertions(+), 29 deletions(-)

diff --git a/src/execution_context.rs b/src/execution_context.rs
index 9cad03b..57a861b 100644
--- a/src/execution_context.rs
+++ b/src/execution_context.rs
@@ -18,8 +18,8 @@ use v8;
 use crate::LockerManagedIsolate;
 use crate::async_waiter::{AsyncWaiter, Turn};
 use crate::execution_helpers::{
-    AbortConfig, EventLoopExit, check_exit_condition, get_completion_state, get_response_stream_id,
-    read_response_object, signal_client_disconnect, trigger_fetch_handler,
+    AbortConfig, ClientAbort, EventLoopExit, check_exit_condition, get_completion_state,
+    get_response_stream_id, read_response_object, signal_client_disconnect, trigger_fetch_handler,
 };
 use crate::request_context::RequestContext;
 use crate::runtime::stream_manager;
@@ -835,7 +835,7 @@ impl ExecutionContext {
         &mut self,
         exit_condition: EventLoopExit,
         abort_config: &Option<AbortConfig>,
-        abort_signaled_at: &mut Option<tokio::time::Instant>,
+        client_abort: &mut ClientAbort,
     ) -> bool {
         use std::pin::pin;
 
@@ -856,19 +856,16 @@ impl ExecutionContext {
 
                 // Detect client disconnect and signal abort to JS
                 if active_streams > 0
-                    && abort_signaled_at.is_none()
+                    && client_abort.signaled_at.is_none()
                     && let Some(stream_id) = get_response_stream_id(scope, global)
                     && !self.request.stream_manager.has_sender(stream_id)
                 {
-                    *abort_signaled_at = Some(tokio::time::Instant::now());
+                    client_abort.signal(config);
                     signal_client_disconnect(scope);
                 }
 
                 // Check grace period
-                let grace_exceeded = abort_signaled_at
-                    .as_ref()
-                    .map(|t| t.elapsed() > config.grace_period)
-                    .unwrap_or(false);
+                let grace_exceeded = client_abort.grace_exceeded(config);
 
                 // Exit if base condition met, OR if request complete and grace exceeded
                 base_exit || (request_complete && grace_exceeded)
@@ -1070,7 +1067,7 @@ impl ExecutionContext {
         use crate::event_loop::drain_and_process;
         use std::task::Poll;
 
-        let mut abort_signaled_at: Option<tokio::time::Instant> = None;
+        let mut client_abort = ClientAbort::default();
         let mut pending_callbacks: Vec<crate::runtime::CallbackMessage> = Vec::with_capacity(16);
         let lmi_ptr = self.lmi_ptr; // Copy raw pointer (no persistent borrow on self)
         let mut turn = Turn::new(self.async_waiter.clone()); // Clone Arc (cheap) to avoid borrow on self
@@ -1086,6 +1083,11 @@ impl ExecutionContext {
             // Be woken when the wall-clock timeout fires during an I/O wait
             wall_guard.register_waker(cx.waker());
 
+            // Likewise when the client disconnects
+            if abort_config.is_some() {
+                self.request.stream_manager.register_close_waker(cx.waker());
+            }
+
             // -- Acquire V8 lock (if pooled isolate) --
             // For the LockerManagedIsolate path, we create a Locker + JsLock
             // that will be dropped when this closure returns (including Pending),
@@ -1118,11 +1120,8 @@ impl ExecutionContext {
                 };
 
                 // Check exit condition after each round
-                let should_exit = self.check_exit_with_abort(
-                    exit_condition,
-                    &abort_config,
-                    &mut abort_signaled_at,
-                );
+                let should_exit =
+                    self.check_exit_with_abort(exit_condition, &abort_config, &mut client_abort);
 
                 if should_exit {
                     turn.unlock();
@@ -1150,6 +1149,9 @@ impl ExecutionContext {
                 return Poll::Ready(Err("Execution terminated".to_string()));
             }
 
+            // 8. Be woken at the end of the grace period, if it has begun
+            client_abort.poll_grace_timer(cx);
+
             Poll::Pending
         })
         .await
diff --git a/src/execution_helpers.rs b/src/execution_helpers.rs
index f621e90..42d4752 100644
--- a/src/execution_helpers.rs
+++ b/src/execution_helpers.rs
@@ -6,7 +6,10 @@
 use crate::runtime::stream_manager::{StreamChunk, StreamManager};
 use openworkers_core::{HttpResponse, RequestBody, ResponseBody};
 use std::collections::HashMap;
+use std::future::Future;
+use std::pin::Pin;
 use std::sync::Arc;
+use std::task::Context;
 use v8;
 
 /// Condition to check for exiting the event loop
@@ -48,6 +51,42 @@ impl Default for AbortConfig {
     }
 }
 
+/// The state of a client disconnect while `await_event_loop` waits.
+#[derive(Default)]
+pub struct ClientAbort {
+    /// When the disconnect was signaled to JS
+    pub signaled_at: Option<tokio::time::Instant>,
+    /// Wakes the event loop at the end of the grace period
+    grace_timer: Option<Pin<Box<tokio::time::Sleep>>>,
+}
+
+impl ClientAbort {
+    /// Record that the disconnect was signaled to JS
+    pub fn signal(&mut self, config: &AbortConfig) {
+        self.signaled_at = Some(tokio::time::Instant::now());
+        // sleep() rounds to milliseconds: be sure to wake up after the period
+        let period = config.grace_period + tokio::time::Duration::from_millis(1);
+        self.grace_timer = Some(Box::pin(tokio::time::sleep(period)));
+    }
+
+    /// Check if JS had its grace period
+    pub fn grace_exceeded(&self, config: &AbortConfig) -> bool {
+        self.signaled_at
+            .map(|t| t.elapsed() > config.grace_period)
+            .unwrap_or(false)
+    }
+
+    /// Be woken at the end of the grace period (call before returning Pending)
+    pub fn poll_grace_timer(&mut self, cx: &mut Context<'_>) {
+        if let Some(timer) = &mut self.grace_timer
+            && timer.as_mut().poll(cx).is_ready()
+        {
+            self.grace_timer = None;
+            cx.waker().wake_by_ref();
+        }
+    }
+}
+
 /// Check if the specified exit condition is met (free function to avoid borrow conflicts)
 pub fn check_exit_condition(
     scope: &mut v8::ContextScope<v8::HandleScope>,
diff --git a/src/runtime/stream_manager.rs b/src/runtime/stream_manager.rs
index 40ee1d6..e2393e7 100644
--- a/src/runtime/stream_manager.rs
+++ b/src/runtime/stream_manager.rs
@@ -1,6 +1,7 @@
 use bytes::Bytes;
 use std::collections::{HashMap, HashSet};
 use std::sync::{Arc, Mutex};
+use std::task::Waker;
 use tokio::sync::mpsc;
 
 pub type StreamId = u64;
@@ -38,6 +39,8 @@ pub struct StreamManager {
     metadata: Arc<Mutex<HashMap<StreamId, String>>>,
     /// Next stream ID to allocate
     next_id: Arc<Mutex<StreamId>>,
+    /// Woken when a stream is closed
+    close_waker: Arc<Mutex<Option<Waker>>>,
     /// High water mark for new streams
     high_water_mark: usize,
 }
@@ -55,6 +58,7 @@ impl StreamManager {
             detached: Arc::new(Mutex::new(HashSet::new())),
             metadata: Arc::new(Mutex::new(HashMap::new())),
             next_id: Arc::new(Mutex::new(1)),
+            close_waker: Arc::new(Mutex::new(None)),
             high_water_mark,
         }
     }
@@ -181,6 +185,17 @@ impl StreamManager {
         self.senders.lock().unwrap().remove(&stream_id);
         self.receivers.lock().unwrap().remove(&stream_id);
         self.detached.lock().unwrap().remove(&stream_id);
+
+        let waker = self.close_waker.lock().unwrap().take();
+
+        if let Some(waker) = waker {
+            waker.wake();
+        }
+    }
+
+    /// Have `waker` woken when a stream is closed, e.g. because the client disconnected
+    pub fn register_close_waker(&self, waker: &Waker) {
+        *self.close_waker.lock().unwrap() = Some(waker.clone());
     }
 
     /// Create a stream for a response body which JavaScript produces
diff --git a/src/worker.rs b/src/worker.rs
index 6f2531d..3639871 100644
--- a/src/worker.rs
+++ b/src/worker.rs
@@ -1,8 +1,8 @@
 //! Per-request isolate execution. Creates a new V8 isolate for each request.
 
 use crate::execution_helpers::{
-    AbortConfig, EventLoopExit, check_exit_condition, get_completion_state, get_response_stream_id,
-    read_response_object, signal_client_disconnect, trigger_fetch_handler,
+    AbortConfig, ClientAbort, EventLoopExit, check_exit_condition, get_completion_state,
+    get_response_stream_id, read_response_object, signal_client_disconnect, trigger_fetch_handler,
 };
 use crate::runtime::stream_manager::AbortResponseStreams;
 use crate::runtime::{Runtime, run_event_loop};
@@ -792,13 +792,18 @@ impl Worker {
         use crate::runtime::CallbackMessage;
         use std::task::Poll;
 
-        let mut abort_signaled_at: Option<tokio::time::Instant> = None;
+        let mut client_abort = ClientAbort::default();
         let mut pending_callbacks: Vec<CallbackMessage> = Vec::with_capacity(16);
 
         std::future::poll_fn(|cx| {
             // Be woken when the wall-clock timeout fires during an I/O wait
             wall_guard.register_waker(cx.waker());
 
+            // Likewise when the client disconnects
+            if abort_config.is_some() {
+                self.runtime.stream_manager.register_close_waker(cx.waker());
+            }
+
             // 1. Check termination (CPU/wall-clock guards)
             if self.is_terminated(wall_guard, cpu_guard) {
                 return Poll::Ready(Err("Execution terminated".to_string()));
@@ -834,18 +839,16 @@ impl Worker {
 
                         // Detect client disconnect and signal abort to JS
                         if active_streams > 0
-                            && abort_signaled_at.is_none()
+                            && client_abort.signaled_at.is_none()
                             && let Some(stream_id) = get_response_stream_id(scope, global)
                             && !self.runtime.stream_manager.has_sender(stream_id)
                         {
-                            abort_signaled_at = Some(tokio::time::Instant::now());
+                            client_abort.signal(config);
                             signal_client_disconnect(scope);
                         }
 
                         // Check grace period
-                        let grace_exceeded = abort_signaled_at
-                            .map(|t| t.elapsed() > config.grace_period)
-                            .unwrap_or(false);
+                        let grace_exceeded = client_abort.grace_exceeded(config);
 
                         // Exit if base condition met, OR if request complete and grace exceeded
                         base_exit || (request_complete && grace_exceeded)
@@ -868,7 +871,10 @@ impl Worker {
                 return Poll::Ready(Err("Execution terminated".to_string()));
             }
 
-            // 7. Not done yet - waker registered via poll_recv
+            // 7. Be woken at the end of the grace period, if it has begun
+            client_abort.poll_grace_timer(cx);
+
+            // 8. Not done yet - waker registered via poll_recv
             Poll::Pending
         })
         .await
diff --git a/src/worker_future.rs b/src/worker_future.rs
index 32dba30..05ce385 100644
--- a/src/worker_future.rs
+++ b/src/worker_future.rs
@@ -5,7 +5,7 @@ use std::pin::Pin;
 use std::task::{Context, Poll};
 
 use crate::execution_context::ExecutionContext;
-use crate::execution_helpers::{AbortConfig, EventLoopExit};
+use crate::execution_helpers::{AbortConfig, ClientAbort, EventLoopExit};
 use crate::runtime::CallbackMessage;
 use crate::security::{CpuEnforcer, TimeoutGuard};
 
@@ -20,7 +20,7 @@ pub struct WorkerFuture<'a> {
     exit_condition: EventLoopExit,
     abort_config: Option<AbortConfig>,
     /// Timestamp when abort was signaled (for grace period)
-    abort_signaled_at: Option<tokio::time::Instant>,
+    client_abort: ClientAbort,
     /// Buffer for callbacks to process in batch
     pending_callbacks: Vec<CallbackMessage>,
 }
@@ -47,7 +47,7 @@ impl<'a> WorkerFuture<'a> {
             cpu_guard,
             exit_condition,
             abort_config,
-            abort_signaled_at: None,
+            client_abort: ClientAbort::default(),
             pending_callbacks: Vec::with_capacity(16),
         }
     }
@@ -64,6 +64,14 @@ impl Future for WorkerFuture<'_> {
         // Be woken when the wall-clock timeout fires during an I/O wait
         this.wall_guard.register_waker(cx.waker());
 
+        // Likewise when the client disconnects
+        if this.abort_config.is_some() {
+            this.ctx
+                .request
+                .stream_manager
+                .register_close_waker(cx.waker());
+        }
+
         // 1. Check termination (CPU/wall-clock guards)
         if this.ctx.is_terminated(this.wall_guard, this.cpu_guard) {
             return Poll::Ready(Err("Execution terminated".to_string()));
@@ -82,7 +90,7 @@ impl Future for WorkerFuture<'_> {
             let should_exit = this.ctx.check_exit_with_abort(
                 this.exit_condition,
                 &this.abort_config,
-                &mut this.abort_signaled_at,
+                &mut this.client_abort,
             );
 
             if should_exit {
@@ -99,7 +107,10 @@ impl Future for WorkerFuture<'_> {
             return Poll::Ready(Err("Execution terminated".to_string()));
         }
 
-        // 7. Not done yet - waker registered via poll_recv
+        // 7. Be woken at the end of the grace period, if it has begun
+        this.client_abort.poll_grace_timer(cx);
+
+        // 8. Not done yet - waker registered via poll_recv
         Poll::Pending
     }
 }
-- 
2.43.0


From 14241402c5df9c415eeffdd107bf8c59098fc775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:53 +0000
Subject: [PATCH 59/90] fix: a client gone during its response kept the pooled
 context busy until the time limit

---
 src/execution_context.rs | 35 +++++++++++++++++++++++++++++++++--
 1 file changed, 33 insertions(+), 2 deletions(-)

diff --git a/src/execution_context.rs b/src/execution_context.rs
index 57a861b..554d1eb 100644
--- a/src/execution_context.rs
+++ b/src/execution_context.rs
@@ -941,7 +941,7 @@ impl ExecutionContext {
     ///
     /// After exec() returns with `StreamsComplete`, the HTTP response is sent
     /// and all response streams are closed, but waitUntil promises may still
-    /// be pending. This method pumps V8 microtasks until `FullyComplete`.
+    /// be pending. This method pumps V8 microtasks until `HandlerComplete`.
     ///
     /// Creates its own security guards so background work cannot run forever.
     /// Returns Ok if all background work completed, or an error if it timed out.
@@ -953,10 +953,23 @@ impl ExecutionContext {
             TimeoutGuard::new(isolate_handle.clone(), self.limits.max_wall_clock_time_ms);
         let cpu_guard = CpuEnforcer::new(isolate_handle, self.limits.max_cpu_time_ms);
 
+        // Not FullyComplete: a response stream left over when the client disconnected may
+        // never end
         let result = self
-            .await_event_loop(&wall_guard, &cpu_guard, EventLoopExit::FullyComplete, None)
+            .await_event_loop(
+                &wall_guard,
+                &cpu_guard,
+                EventLoopExit::HandlerComplete,
+                None,
+            )
             .await;
 
+        // Such a stream would go on in the next request of this context: do not reuse it
+        let result = match result {
+            Ok(()) if self.has_active_streams() => Err("Response stream still active".to_string()),
+            other => other,
+        };
+
         self.check_termination_reason(
             result.map(|_| HttpResponse {
                 status: 200,
@@ -971,6 +984,24 @@ impl ExecutionContext {
         )
     }
 
+    /// Check if JS still has response streams to finish
+    fn has_active_streams(&mut self) -> bool {
+        use std::pin::pin;
+
+        // SAFETY: lmi_ptr valid for request lifetime (pool-managed)
+        unsafe {
+            let _lock = try_lock_v8(self.lmi_ptr);
+            let isolate = &mut *self.isolate;
+            let scope = pin!(v8::HandleScope::new(isolate));
+            let mut scope = scope.init();
+            let context = v8::Local::new(&scope, &self.request.context);
+            let scope = &mut v8::ContextScope::new(&mut scope, context);
+            let global = context.global(scope);
+
+            get_completion_state(scope, global).1 != 0
+        }
+    }
+
     /// Check termination reason based on execution result and guard states
     fn check_termination_reason(
         &self,
-- 
2.43.0


From 445231764c7ad53857e6719a51487dc3f40a33d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:24 +0000
Subject: [PATCH 60/90] fix: the body of a buffered response was lost once it
 had been cloned

---
 src/runtime/bindings/web_api.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/runtime/bindings/web_api.rs b/src/runtime/bindings/web_api.rs
index 64f6e0f..588056b 100644
--- a/src/runtime/bindings/web_api.rs
+++ b/src/runtime/bindings/web_api.rs
@@ -1386,6 +1386,8 @@ pub fn setup_response(scope: &mut v8::PinScope) {
                 if (this.body) {
                     const [stream1, stream2] = this.body.tee();
                     this.body = stream1;
+                    // The data is in the original stream now
+                    this._isBuffered = false;
                     clonedBody = stream2;
                 }
 
-- 
2.43.0


From a4e01c92f2e16428670ed833d43146fc006beaf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:26 +0000
Subject: [PATCH 61/90] fix: upstream bodies of a finished request stayed open
 in its kept context

---
 src/execution_context.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/execution_context.rs b/src/execution_context.rs
index 554d1eb..5274f55 100644
--- a/src/execution_context.rs
+++ b/src/execution_context.rs
@@ -321,6 +321,9 @@ impl ExecutionContext {
             .scheduler_tx
             .send(crate::runtime::SchedulerMessage::ClearAllTimers);
 
+        // Nor may bodies which nobody will read stay open at their upstream.
+        self.request.stream_manager.clear();
+
         (self.request, self.isolate)
     }
 
-- 
2.43.0


From e2c552c5f8379204f4453bc7c33d865a29eb342b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:52 +0000
Subject: [PATCH 62/90] fix: stop taking a request body once nobody reads it

A handler that cancelled the upload, or answered without reading it, kept the
pump waiting for the client's next chunk: a client that stalled was held for
as long as it wished, together with the stream manager.
---
 src/runtime/stream_manager.rs | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/src/runtime/stream_manager.rs b/src/runtime/stream_manager.rs
index e2393e7..c351da2 100644
--- a/src/runtime/stream_manager.rs
+++ b/src/runtime/stream_manager.rs
@@ -2,7 +2,7 @@ use bytes::Bytes;
 use std::collections::{HashMap, HashSet};
 use std::sync::{Arc, Mutex};
 use std::task::Waker;
-use tokio::sync::mpsc;
+use tokio::sync::{mpsc, oneshot};
 
 pub type StreamId = u64;
 
@@ -35,6 +35,8 @@ pub struct StreamManager {
     receivers: Arc<Mutex<HashMap<StreamId, mpsc::Receiver<StreamChunk>>>>,
     /// Streams whose receiver was handed out with `take_receiver`
     detached: Arc<Mutex<HashSet<StreamId>>>,
+    /// One entry per request body being pumped: dropping it stops the pump
+    pumps: Arc<Mutex<HashMap<StreamId, oneshot::Sender<()>>>>,
     /// Stream metadata (URL for debugging)
     metadata: Arc<Mutex<HashMap<StreamId, String>>>,
     /// Next stream ID to allocate
@@ -56,6 +58,7 @@ impl StreamManager {
             senders: Arc::new(Mutex::new(HashMap::new())),
             receivers: Arc::new(Mutex::new(HashMap::new())),
             detached: Arc::new(Mutex::new(HashSet::new())),
+            pumps: Arc::new(Mutex::new(HashMap::new())),
             metadata: Arc::new(Mutex::new(HashMap::new())),
             next_id: Arc::new(Mutex::new(1)),
             close_waker: Arc::new(Mutex::new(None)),
@@ -185,6 +188,7 @@ impl StreamManager {
         self.senders.lock().unwrap().remove(&stream_id);
         self.receivers.lock().unwrap().remove(&stream_id);
         self.detached.lock().unwrap().remove(&stream_id);
+        self.pumps.lock().unwrap().remove(&stream_id);
 
         let waker = self.close_waker.lock().unwrap().take();
 
@@ -236,6 +240,10 @@ impl StreamManager {
         let mut senders = self.senders.lock().unwrap();
         senders.retain(|id, tx| detached.contains(id) && !tx.is_closed());
         detached.retain(|id| senders.contains_key(id));
+        self.pumps
+            .lock()
+            .unwrap()
+            .retain(|id, _| senders.contains_key(id));
         drop(senders);
         drop(detached);
 
@@ -273,9 +281,12 @@ impl StreamManager {
         rx: tokio::sync::mpsc::Receiver<Result<bytes::Bytes, String>>,
     ) -> StreamId {
         let stream_id = self.create_stream("request_body".to_string());
+        let (open, closed) = oneshot::channel();
+        self.pumps.lock().unwrap().insert(stream_id, open);
+
         let stream_manager = self.clone();
 
-        tokio::spawn(async move {
+        let pump = async move {
             let mut rx = rx;
 
             while let Some(result) = rx.recv().await {
@@ -303,6 +314,15 @@ impl StreamManager {
             let _ = stream_manager
                 .write_chunk(stream_id, StreamChunk::Done)
                 .await;
+        };
+
+        tokio::spawn(async move {
+            tokio::select! {
+                _ = pump => {}
+                // Closed by the consumer, or by the end of the request: stop taking the
+                // body, even if the client sends nothing that would tell
+                _ = closed => {}
+            }
         });
 
         stream_id
-- 
2.43.0


From 02e745f08ec31a47ae2dec47cae3ca250b16e851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:06 +0000
Subject: [PATCH 63/90] fix: carry request headers of any name and form

A client's header named __proto__ never reached the handler, and fetch() lost one
of that name, kept only the last of several pairs with one name, and dropped values
that are not strings.
---
 src/execution_helpers.rs        | 10 ++++++----
 src/runtime/bindings/web_api.rs | 13 +++----------
 2 files changed, 9 insertions(+), 14 deletions(-)

diff --git a/src/execution_helpers.rs b/src/execution_helpers.rs
index 42d4752..752b263 100644
--- a/src/execution_helpers.rs
+++ b/src/execution_helpers.rs
@@ -322,17 +322,19 @@ pub fn trigger_fetch_handler(
         let method_val = v8::String::new(scope, method).unwrap();
         init_obj.set(scope, method_key.into(), method_val.into());
 
-        // Create headers object for init
-        let headers_obj = v8::Object::new(scope);
+        // Headers for init, as pairs: any name is possible, "__proto__" included
+        let mut header_pairs: Vec<v8::Local<v8::Value>> = Vec::with_capacity(headers.len());
 
         for (key, value) in headers {
             let k = v8::String::new(scope, key).unwrap();
             let v = v8::String::new(scope, value).unwrap();
-            headers_obj.set(scope, k.into(), v.into());
+            let pair = v8::Array::new_with_elements(scope, &[k.into(), v.into()]);
+            header_pairs.push(pair.into());
         }
 
+        let headers_list = v8::Array::new_with_elements(scope, &header_pairs);
         let headers_key = v8::String::new(scope, "headers").unwrap();
-        init_obj.set(scope, headers_key.into(), headers_obj.into());
+        init_obj.set(scope, headers_key.into(), headers_list.into());
 
         // Add body - either as stream ID or buffered Uint8Array
         if let Some(stream_id) = body_stream_id {
diff --git a/src/runtime/bindings/web_api.rs b/src/runtime/bindings/web_api.rs
index 588056b..dc68741 100644
--- a/src/runtime/bindings/web_api.rs
+++ b/src/runtime/bindings/web_api.rs
@@ -1533,16 +1533,9 @@ pub fn setup_fetch_helpers(scope: &mut v8::PinScope) {
                 body = options.body !== undefined ? options.body : null;
             }
 
-            // Normalize Headers instance and pairs to plain object, copy plain object
-            if (headers instanceof Headers || Array.isArray(headers)) {
-                const obj = {};
-                for (const [key, value] of headers) {
-                    obj[key] = value;
-                }
-                headers = obj;
-            } else {
-                headers = { ...headers };
-            }
+            // Normalize to a plain object: names which are given several times are combined,
+            // values are strings
+            headers = Object.fromEntries(new Headers(headers));
 
             if (body instanceof Blob) {
                 body = body._getBytes();
-- 
2.43.0


From ae271866e90e5fe6b484402ff13e95455f34f628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:17 +0000
Subject: [PATCH 64/90] fix: escape field and file names of multipart bodies

A quote or a line break in a FormData name or file name ended the header it stood
in, so that the receiver saw other fields than the ones appended.
---
 src/runtime/bindings/fetch.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/runtime/bindings/fetch.rs b/src/runtime/bindings/fetch.rs
index 91daf08..7deccb2 100644
--- a/src/runtime/bindings/fetch.rs
+++ b/src/runtime/bindings/fetch.rs
@@ -528,12 +528,15 @@ pub fn setup_fetch(
             const CRLF = '\r\n';
             const parts = [];
 
+            // As the multipart/form-data encoding prescribes for names and file names
+            const quote = (text) => '"' + String(text).replace(/\n/g, '%0A').replace(/\r/g, '%0D').replace(/"/g, '%22') + '"';
+
             for (const [name, value, filename] of formData._entries) {
                 let part = '--' + boundary + CRLF;
 
                 if (value instanceof Blob) {
                     const fname = filename || (value.name ? value.name : 'blob');
-                    part += 'Content-Disposition: form-data; name="' + name + '"; filename="' + fname + '"' + CRLF;
+                    part += 'Content-Disposition: form-data; name=' + quote(name) + '; filename=' + quote(fname) + CRLF;
                     part += 'Content-Type: ' + (value.type || 'application/octet-stream') + CRLF + CRLF;
 
                     const headerBytes = new TextEncoder().encode(part);
@@ -544,7 +547,7 @@ pub fn setup_fetch(
                     parts.push(blobBytes);
                     parts.push(crlfBytes);
                 } else {
-                    part += 'Content-Disposition: form-data; name="' + name + '"' + CRLF + CRLF;
+                    part += 'Content-Disposition: form-data; name=' + quote(name) + CRLF + CRLF;
                     part += String(value) + CRLF;
                     parts.push(new TextEncoder().encode(part));
                 }
-- 
2.43.0


From 9061dab7f85d50dff1d2ad21937c2a4edd521e4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:25 +0000
Subject: [PATCH 65/90] fix: refuse unusable binding arguments instead of
 ending the process

serde_v8 panics on symbols and on accessors or conversions which throw, recurses without
end on cycles, and a panic in a native callback aborts: any script could end the process,
e.g. with env.KV.put('k', Symbol()) or a value that contains itself.
---
 src/runtime/bindings/fetch.rs     | 93 +++++++++++++++++++++++--------
 src/runtime/bindings/websocket.rs |  4 +-
 2 files changed, 72 insertions(+), 25 deletions(-)

diff --git a/src/runtime/bindings/fetch.rs b/src/runtime/bindings/fetch.rs
index 7deccb2..d620ce1 100644
--- a/src/runtime/bindings/fetch.rs
+++ b/src/runtime/bindings/fetch.rs
@@ -4,6 +4,7 @@ use openworkers_core::{DatabaseOp, HttpRequest, KvOp, RequestBody, SqlParam, Sto
 use serde::Deserialize;
 use std::cell::RefCell;
 use std::collections::HashMap;
+use std::panic::{AssertUnwindSafe, catch_unwind};
 use std::rc::Rc;
 use tokio::sync::mpsc;
 use v8;
@@ -42,8 +43,6 @@ struct StorageParams {
 struct KvParams {
     #[serde(default)]
     key: String,
-    #[serde(default)]
-    value: Option<serde_json::Value>,
     #[serde(default, rename = "expiresIn")]
     expires_in: Option<u64>,
     #[serde(default)]
@@ -57,8 +56,49 @@ struct KvParams {
 struct DatabaseParams {
     #[serde(default)]
     sql: String,
-    #[serde(default)]
-    params: Vec<SqlParam>,
+}
+
+/// Deserialize a value which the script gave.
+///
+/// serde_v8 panics on accessors that throw and on symbols, and a panic in a native callback
+/// ends the process: such values are refused like any other unusable one.
+pub(super) fn from_js<T: serde::de::DeserializeOwned>(
+    scope: &mut v8::PinScope,
+    value: v8::Local<v8::Value>,
+) -> Result<T, String> {
+    let scope = std::pin::pin!(v8::TryCatch::new(scope));
+    let mut scope = scope.init();
+
+    catch_unwind(AssertUnwindSafe(|| {
+        serde_v8::from_v8_any(&mut scope, value)
+    }))
+    .map_err(|_| "unsupported value".to_string())?
+    .map_err(|e| e.to_string())
+}
+
+/// Read a property of any shape as JSON. Cycles, accessors that throw and nesting without
+/// end are refused by V8's serializer, where a recursive conversion would end the process.
+fn json_property<T: serde::de::DeserializeOwned + Default>(
+    scope: &mut v8::PinScope,
+    object: v8::Local<v8::Value>,
+    name: &str,
+) -> Result<T, String> {
+    let scope = std::pin::pin!(v8::TryCatch::new(scope));
+    let scope = scope.init();
+
+    let key = v8::String::new(&scope, name).unwrap();
+    let value = object
+        .to_object(&scope)
+        .and_then(|object| object.get(&scope, key.into()))
+        .ok_or("unreadable value")?;
+
+    if value.is_undefined() {
+        return Ok(T::default());
+    }
+
+    let json = v8::json::stringify(&scope, value).ok_or("value is not serializable as JSON")?;
+
+    serde_json::from_str(&json.to_rust_string_lossy(&scope)).map_err(|e| e.to_string())
 }
 
 /// Parse JS options object into HttpRequest using serde_v8
@@ -66,8 +106,8 @@ fn parse_http_request(
     scope: &mut v8::PinScope,
     options: v8::Local<v8::Value>,
 ) -> Result<HttpRequest, String> {
-    let opts: FetchOptions = serde_v8::from_v8_any(scope, options)
-        .map_err(|e| format!("Failed to parse request: {}", e))?;
+    let opts: FetchOptions =
+        from_js(scope, options).map_err(|e| format!("Failed to parse request: {}", e))?;
     let method = opts
         .method
         .parse()
@@ -156,7 +196,7 @@ where
                 return;
             }
 
-            let Ok(binding_name) = serde_v8::from_v8_any::<String>(scope, args.get(0)) else {
+            let Ok(binding_name) = from_js::<String>(scope, args.get(0)) else {
                 return;
             };
 
@@ -271,15 +311,15 @@ pub fn setup_fetch(
                 return;
             }
 
-            let Ok(binding_name) = serde_v8::from_v8_any::<String>(scope, args.get(0)) else {
+            let Ok(binding_name) = from_js::<String>(scope, args.get(0)) else {
                 return;
             };
 
-            let Ok(operation) = serde_v8::from_v8_any::<String>(scope, args.get(1)) else {
+            let Ok(operation) = from_js::<String>(scope, args.get(1)) else {
                 return;
             };
 
-            let params = match serde_v8::from_v8_any::<StorageParams>(scope, args.get(2)) {
+            let params = match from_js::<StorageParams>(scope, args.get(2)) {
                 Ok(params) => params,
                 Err(e) => {
                     call_error(
@@ -346,16 +386,21 @@ pub fn setup_fetch(
                 return;
             }
 
-            let Ok(binding_name) = serde_v8::from_v8_any::<String>(scope, args.get(0)) else {
+            let Ok(binding_name) = from_js::<String>(scope, args.get(0)) else {
                 return;
             };
 
-            let Ok(operation) = serde_v8::from_v8_any::<String>(scope, args.get(1)) else {
+            let Ok(operation) = from_js::<String>(scope, args.get(1)) else {
                 return;
             };
 
-            let params = match serde_v8::from_v8_any::<KvParams>(scope, args.get(2)) {
-                Ok(params) => params,
+            let parsed = from_js::<KvParams>(scope, args.get(2)).and_then(|params| {
+                let value = json_property(scope, args.get(2), "value")?;
+                Ok((params, value))
+            });
+
+            let (params, value) = match parsed {
+                Ok(parsed) => parsed,
                 Err(e) => {
                     call_error(
                         scope,
@@ -370,7 +415,7 @@ pub fn setup_fetch(
                 "get" => KvOp::Get { key: params.key },
                 "put" => KvOp::Put {
                     key: params.key,
-                    value: params.value.unwrap_or(serde_json::Value::Null),
+                    value,
                     expires_in: params.expires_in,
                 },
                 "delete" => KvOp::Delete { key: params.key },
@@ -445,7 +490,7 @@ pub fn setup_fetch(
 
             let error_fn: v8::Local<v8::Function> = error_cb.try_into().unwrap();
 
-            let binding_name = match serde_v8::from_v8_any::<String>(scope, args.get(0)) {
+            let binding_name = match from_js::<String>(scope, args.get(0)) {
                 Ok(name) => name,
                 Err(e) => {
                     let msg = format!("Failed to parse binding_name: {}", e);
@@ -455,7 +500,7 @@ pub fn setup_fetch(
                 }
             };
 
-            let operation = match serde_v8::from_v8_any::<String>(scope, args.get(1)) {
+            let operation = match from_js::<String>(scope, args.get(1)) {
                 Ok(op) => op,
                 Err(e) => {
                     let msg = format!("Failed to parse operation: {}", e);
@@ -465,8 +510,13 @@ pub fn setup_fetch(
                 }
             };
 
-            let params = match serde_v8::from_v8_any::<DatabaseParams>(scope, args.get(2)) {
-                Ok(p) => p,
+            let parsed = from_js::<DatabaseParams>(scope, args.get(2)).and_then(|query| {
+                let params: Vec<SqlParam> = json_property(scope, args.get(2), "params")?;
+                Ok((query.sql, params))
+            });
+
+            let (sql, params) = match parsed {
+                Ok(parsed) => parsed,
                 Err(e) => {
                     let msg = format!("Failed to parse params: {}", e);
                     tracing::warn!("[v8-db] {}", msg);
@@ -476,10 +526,7 @@ pub fn setup_fetch(
             };
 
             let database_op = match operation.as_str() {
-                "query" => DatabaseOp::Query {
-                    sql: params.sql,
-                    params: params.params,
-                },
+                "query" => DatabaseOp::Query { sql, params },
                 _ => {
                     let msg = format!("Unknown database operation: {}", operation);
                     tracing::warn!("[v8-db] {}", msg);
diff --git a/src/runtime/bindings/websocket.rs b/src/runtime/bindings/websocket.rs
index 2607464..c0e5fab 100644
--- a/src/runtime/bindings/websocket.rs
+++ b/src/runtime/bindings/websocket.rs
@@ -17,6 +17,7 @@ use std::rc::Rc;
 use v8;
 
 use super::super::scheduler::SchedulerMessage;
+use super::fetch::from_js;
 
 /// Register all WebSocket native functions and the JS WebSocket class.
 pub fn setup_websocket(
@@ -45,8 +46,7 @@ pub fn setup_websocket(
 
             // Parse headers object
             let headers = if args.get(1).is_object() {
-                serde_v8::from_v8_any::<HashMap<String, String>>(scope, args.get(1))
-                    .unwrap_or_default()
+                from_js::<HashMap<String, String>>(scope, args.get(1)).unwrap_or_default()
             } else {
                 HashMap::new()
             };
-- 
2.43.0


From 7acfc7d0ccff3b95b170299ca21932714d3e3f59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:24 +0000
Subject: [PATCH 66/90] fix: run timers in the order in which they fall due

---
 src/runtime/scheduler.rs | 149 ++++++++++++++++++++++++---------------
 1 file changed, 92 insertions(+), 57 deletions(-)

diff --git a/src/runtime/scheduler.rs b/src/runtime/scheduler.rs
index 789ccb6..a2e2a6a 100644
--- a/src/runtime/scheduler.rs
+++ b/src/runtime/scheduler.rs
@@ -1,19 +1,16 @@
 //! Scheduler and event loop for async operations (timers, fetch, bindings).
 //!
-//! Uses FuturesUnordered for timers instead of spawning individual tasks,
-//! similar to Deno's approach.
+//! Keeps all timers in one queue instead of spawning individual tasks.
 //!
 //! All spawned I/O tasks observe a CancellationToken so they are cleaned up
 //! when the request ends (timeout, response sent, or context dropped).
 
-use std::collections::{HashMap, HashSet};
-use std::pin::Pin;
+use std::collections::{BTreeMap, HashMap};
 use std::sync::Arc;
 use std::time::Duration;
 
-use futures::stream::{FuturesUnordered, StreamExt};
 use tokio::sync::{Notify, mpsc};
-use tokio::time::Sleep;
+use tokio::time::Instant;
 use tokio_util::sync::CancellationToken;
 
 use super::stream_manager::{self, StreamManager};
@@ -86,44 +83,88 @@ pub enum CallbackMessage {
     WebSocketEvent(WebSocketId, WebSocketIncoming),
 }
 
-/// Timer entry for FuturesUnordered
+/// Pending timers, in the order in which they fall due (those due at the same time: in the
+/// order in which they were set).
+#[derive(Default)]
+struct Timers {
+    queue: BTreeMap<(Instant, u64), CallbackId>,
+    by_id: HashMap<CallbackId, Timer>,
+    next_seq: u64,
+}
+
 struct Timer {
-    id: CallbackId,
-    is_interval: bool,
-    interval_ms: u64,
-    sleep: Pin<Box<Sleep>>,
+    key: (Instant, u64),
+    /// For intervals: the time between two runs.
+    interval: Option<Duration>,
 }
 
-impl std::future::Future for Timer {
-    type Output = TimerResult;
-
-    fn poll(
-        mut self: Pin<&mut Self>,
-        cx: &mut std::task::Context<'_>,
-    ) -> std::task::Poll<Self::Output> {
-        match self.sleep.as_mut().poll(cx) {
-            std::task::Poll::Ready(()) => std::task::Poll::Ready(TimerResult {
-                id: self.id,
-                is_interval: self.is_interval,
-                interval_ms: self.interval_ms,
-            }),
-            std::task::Poll::Pending => std::task::Poll::Pending,
+impl Timers {
+    fn schedule(&mut self, id: CallbackId, delay: Duration, interval: Option<Duration>) {
+        self.cancel(id);
+
+        let now = Instant::now();
+        // As good as never, when there is no such point in time
+        let deadline = now
+            .checked_add(delay)
+            .unwrap_or(now + Duration::from_secs(86400 * 365 * 30));
+        let key = (deadline, self.next_seq);
+
+        self.next_seq += 1;
+        self.queue.insert(key, id);
+        self.by_id.insert(id, Timer { key, interval });
+    }
+
+    fn cancel(&mut self, id: CallbackId) {
+        if let Some(timer) = self.by_id.remove(&id) {
+            self.queue.remove(&timer.key);
         }
     }
-}
 
-struct TimerResult {
-    id: CallbackId,
-    is_interval: bool,
-    interval_ms: u64,
+    fn clear(&mut self) {
+        self.queue.clear();
+        self.by_id.clear();
+    }
+
+    fn is_empty(&self) -> bool {
+        self.queue.is_empty()
+    }
+
+    /// When the next timer falls due.
+    fn next_deadline(&self) -> Option<Instant> {
+        self.queue.first_key_value().map(|(key, _)| key.0)
+    }
+
+    /// Take the timers which are due, and schedule the next run of the intervals among them.
+    fn take_due(&mut self) -> Vec<(CallbackId, bool)> {
+        let now = Instant::now();
+        let mut due = Vec::new();
+
+        while let Some(entry) = self.queue.first_entry() {
+            if entry.key().0 > now {
+                break;
+            }
+
+            let id = entry.remove();
+            let interval = self.by_id.remove(&id).and_then(|timer| timer.interval);
+            due.push((id, interval));
+        }
+
+        for (id, interval) in &due {
+            if let Some(interval) = interval {
+                self.schedule(*id, *interval, Some(*interval));
+            }
+        }
+
+        due.into_iter()
+            .map(|(id, interval)| (id, interval.is_some()))
+            .collect()
+    }
 }
 
-fn create_timer(id: CallbackId, delay_ms: u64, is_interval: bool) -> Timer {
-    Timer {
-        id,
-        is_interval,
-        interval_ms: delay_ms,
-        sleep: Box::pin(tokio::time::sleep(Duration::from_millis(delay_ms))),
+async fn wait_until(deadline: Option<Instant>) {
+    match deadline {
+        Some(deadline) => tokio::time::sleep_until(deadline).await,
+        None => std::future::pending().await,
     }
 }
 
@@ -137,8 +178,7 @@ pub async fn run_event_loop(
 ) {
     let callback_tx = CallbackSender::new(callback_tx, callback_notify);
 
-    let mut timers: FuturesUnordered<Timer> = FuturesUnordered::new();
-    let mut cancelled: HashSet<CallbackId> = HashSet::new();
+    let mut timers = Timers::default();
     let mut shutdown = false;
 
     // WebSocket state: each WS gets a command channel, the spawned task owns the receiver
@@ -147,6 +187,8 @@ pub async fn run_event_loop(
         HashMap::new();
 
     loop {
+        let next_deadline = timers.next_deadline();
+
         tokio::select! {
             biased;
 
@@ -156,22 +198,21 @@ pub async fn run_event_loop(
 
                 match msg {
                     SchedulerMessage::ScheduleTimeout(id, delay_ms) => {
-                        cancelled.remove(&id);
-                        timers.push(create_timer(id, delay_ms, false));
+                        timers.schedule(id, Duration::from_millis(delay_ms), None);
                     }
 
                     SchedulerMessage::ScheduleInterval(id, interval_ms) => {
-                        cancelled.remove(&id);
-                        timers.push(create_timer(id, interval_ms, true));
+                        // An interval of 0 would be due again at once, for ever
+                        let interval = Duration::from_millis(interval_ms.max(1));
+                        timers.schedule(id, interval, Some(interval));
                     }
 
                     SchedulerMessage::ClearTimer(id) => {
-                        cancelled.insert(id);
+                        timers.cancel(id);
                     }
 
                     SchedulerMessage::ClearAllTimers => {
                         timers.clear();
-                        cancelled.clear();
                     }
 
                     SchedulerMessage::FetchStreaming(promise_id, request) => {
@@ -438,19 +479,13 @@ pub async fn run_event_loop(
             }
 
             // Handle timer completions
-            Some(result) = timers.next() => {
-                if cancelled.remove(&result.id) {
-                    // Timer was cancelled, don't fire callback
-                    continue;
-                }
-
-                if result.is_interval {
-                    // Send interval callback and reschedule
-                    let _ = callback_tx.send(CallbackMessage::ExecuteInterval(result.id));
-                    timers.push(create_timer(result.id, result.interval_ms, true));
-                } else {
-                    // Send timeout callback (one-shot)
-                    let _ = callback_tx.send(CallbackMessage::ExecuteTimeout(result.id));
+            _ = wait_until(next_deadline) => {
+                for (id, is_interval) in timers.take_due() {
+                    let _ = callback_tx.send(if is_interval {
+                        CallbackMessage::ExecuteInterval(id)
+                    } else {
+                        CallbackMessage::ExecuteTimeout(id)
+                    });
                 }
             }
         }
-- 
2.43.0


From fbe0b5bf2cdd4f07ed343e2493c07ee7aec2bd97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:51 +0000
Subject: [PATCH 67/90] fix: finish waitUntil work of handlers that fail

---
 src/worker.rs | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/src/worker.rs b/src/worker.rs
index 3639871..8bffe89 100644
--- a/src/worker.rs
+++ b/src/worker.rs
@@ -1541,6 +1541,15 @@ pub(crate) fn setup_event_listener(
             }
         };
 
+        // A handler that failed has failed already: what it left to waitUntil is still finished
+        globalThis.__waitUntilRest = async function(promises) {
+            try {
+                await __waitUntilAll(promises);
+            } catch (error) {
+                __logError('[waitUntil] Promise rejected:', error);
+            }
+        };
+
         // The text of whatever was thrown: nothing at all, or something whose conversion
         // throws in turn, must not keep the failure from being reported
         globalThis.__errorText = function(error) {
@@ -1644,6 +1653,8 @@ pub(crate) fn setup_event_listener(
                             if (!globalThis.__lastResponse) {
                                 globalThis.__lastResponse = new Response('Handler exception: ' + __errorText(error), { status: 500 });
                             }
+
+                            await __waitUntilRest(waitUntilPromises);
                         } finally {
                             globalThis.__requestComplete = true;
                         }
@@ -1666,6 +1677,8 @@ pub(crate) fn setup_event_listener(
                     } catch (error) {
                         __logError('[scheduled] Handler error:', error);
                         globalThis.__taskResult = { success: false, error: __errorText(error) };
+
+                        await __waitUntilRest(waitUntilPromises);
                     } finally {
                         globalThis.__requestComplete = true;
                     }
@@ -1718,6 +1731,8 @@ pub(crate) fn setup_event_listener(
                             success: false,
                             error: __errorText(error)
                         };
+
+                        await __waitUntilRest(waitUntilPromises);
                     } finally {
                         globalThis.__requestComplete = true;
                     }
@@ -1777,6 +1792,8 @@ pub(crate) fn setup_es_modules_handler(
                                 { status: 500 }
                             );
                         }
+
+                        await __waitUntilRest(waitUntilPromises);
                     } finally {
                         globalThis.__requestComplete = true;
                     }
@@ -1815,6 +1832,8 @@ pub(crate) fn setup_es_modules_handler(
                 } catch (error) {
                     __logError('[ES Modules] Error in scheduled handler:', error);
                     globalThis.__taskResult = { success: false, error: __errorText(error) };
+
+                    await __waitUntilRest(waitUntilPromises);
                 } finally {
                     globalThis.__requestComplete = true;
                 }
@@ -1881,6 +1900,8 @@ pub(crate) fn setup_es_modules_handler(
                         success: false,
                         error: __errorText(e)
                     };
+
+                    await __waitUntilRest(waitUntilPromises);
                 } finally {
                     globalThis.__requestComplete = true;
                 }
-- 
2.43.0


From 396bd4856df3a8328e3549e5a5352fb6da6441f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:58 +0000
Subject: [PATCH 68/90] fix: give workers environment variables of any name

---
 src/worker.rs | 39 +++++++++++++++++++--------------------
 1 file changed, 19 insertions(+), 20 deletions(-)

diff --git a/src/worker.rs b/src/worker.rs
index 8bffe89..6c4b6bf 100644
--- a/src/worker.rs
+++ b/src/worker.rs
@@ -1216,14 +1216,18 @@ pub(crate) fn setup_env(
     env: &Option<std::collections::HashMap<String, String>>,
     bindings: &[openworkers_core::BindingInfo],
 ) -> Result<(), String> {
-    // Build JSON string for env vars
-    let env_json = env
-        .as_ref()
-        .map(|m| serde_json::to_string(m).unwrap_or_else(|_| "{}".to_string()))
-        .unwrap_or_else(|| "{}".to_string());
+    // Build the definitions of env vars. All names are computed ones: `__proto__` is a name
+    // like any other.
+    let env_defs = env.iter().flatten().map(|(name, value)| {
+        format!(
+            "[{}]: {}",
+            serde_json::Value::from(name.as_str()),
+            serde_json::Value::from(value.as_str())
+        )
+    });
 
     // Build binding object definitions
-    let binding_defs: Vec<String> = bindings
+    let binding_defs = bindings
         .iter()
         .map(|b| {
             let name = serde_json::to_string(&b.name).unwrap_or_else(|_| "\"\"".to_string());
@@ -1232,7 +1236,7 @@ pub(crate) fn setup_env(
                     // Assets binding has fetch() only
                     // Supports Request, URL, and string inputs (like standard fetch)
                     format!(
-                        r#"{name}: {{
+                        r#"[{name}]: {{
                             fetch: function(input, options) {{
                                 return new Promise((resolve, reject) => {{
                                     const processRequest = async () => {{
@@ -1261,7 +1265,7 @@ pub(crate) fn setup_env(
                 openworkers_core::BindingType::Storage => {
                     // Storage binding has get/put/head/list/delete/fetch
                     format!(
-                        r#"{name}: {{
+                        r#"[{name}]: {{
                             get: (key) => __bindingCall(__nativeBindingStorage, {name}, 'get', {{ key }})
                                 .then(r => r.body ? new TextDecoder().decode(r.body) : null),
                             put: (key, value) => {{
@@ -1291,7 +1295,7 @@ pub(crate) fn setup_env(
                     // KV binding has get/put/delete/list
                     // Use IIFE to capture binding name as a string constant
                     format!(
-                        r#"{name}: (function() {{
+                        r#"[{name}]: (function() {{
                             const __n = {name};
                             return {{
                                 get: (key) => __bindingCall(__nativeBindingKv, __n, 'get', {{ key }}).then(r => r.value),
@@ -1315,7 +1319,7 @@ pub(crate) fn setup_env(
                     // Database binding has query method
                     // Use IIFE to capture binding name as a string constant
                     format!(
-                        r#"{name}: (function() {{
+                        r#"[{name}]: (function() {{
                             const __n = {name};
                             return {{
                                 query: (sql, params) => __bindingCall(__nativeBindingDatabase, __n, 'query', {{ sql, params: params || [] }}).then(r => r.rows)
@@ -1327,7 +1331,7 @@ pub(crate) fn setup_env(
                     // Worker binding has fetch method for worker-to-worker calls
                     // Supports Request, URL, and string inputs (like standard fetch)
                     format!(
-                        r#"{name}: {{
+                        r#"[{name}]: {{
                             fetch: function(input, options) {{
                                 return new Promise((resolve, reject) => {{
                                     const processRequest = async () => {{
@@ -1355,24 +1359,19 @@ pub(crate) fn setup_env(
                     )
                 }
             }
-        })
-        .collect();
+        });
 
-    let bindings_json = if binding_defs.is_empty() {
-        String::new()
-    } else {
-        format!(", {{{}}}", binding_defs.join(","))
-    };
+    let definitions: Vec<String> = env_defs.chain(binding_defs).collect();
 
     // Set globalThis.env as read-only with both env vars and bindings
     let code = format!(
         r#"Object.defineProperty(globalThis, 'env', {{
-            value: Object.freeze(Object.assign({}{})),
+            value: Object.freeze({{{}}}),
             writable: false,
             enumerable: true,
             configurable: false
         }});"#,
-        env_json, bindings_json
+        definitions.join(",")
     );
 
     evaluate_in_context(isolate, context, &code)
-- 
2.43.0


From 6c96acbc9c94ca53f98089f02619ebb20f7ee77b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:02 +0000
Subject: [PATCH 69/90] fix: print values which cannot be converted to text

---
 src/runtime/bindings/console.rs | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/src/runtime/bindings/console.rs b/src/runtime/bindings/console.rs
index 5ce6798..1eb66f5 100644
--- a/src/runtime/bindings/console.rs
+++ b/src/runtime/bindings/console.rs
@@ -56,20 +56,33 @@ pub fn setup_console(scope: &mut v8::PinScope, log_callback: LogCallback) {
     exec_js!(
         scope,
         r#"
+        // Printing must not fail, whatever is printed
         function __formatArg(a) {
-            if (a instanceof Error) {
-                return a.stack || (a.name + ': ' + a.message);
+            try {
+                if (a instanceof Error) {
+                    return String(a.stack || (a.name + ': ' + a.message));
+                }
+            } catch (e) {
+                return '[unprintable]';
             }
 
             if (typeof a === 'object' && a !== null) {
                 try {
-                    return JSON.stringify(a);
+                    const text = JSON.stringify(a);
+
+                    if (text !== undefined) {
+                        return text;
+                    }
                 } catch (e) {
-                    return String(a);
+                    // Not representable as JSON
                 }
             }
 
-            return String(a);
+            try {
+                return String(a);
+            } catch (e) {
+                return '[unprintable]';
+            }
         }
 
         globalThis.console = {
-- 
2.43.0


From 9f96774e94fba31ad6e62c73e2f3941b411a10c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:15 +0000
Subject: [PATCH 70/90] fix: apply limits to accessors which native functions
 call

A termination that arrives while serde_v8 or the JSON serializer runs an accessor of the
script was caught together with its exception: the script which called the binding went on,
for ever if it liked.
---
 src/runtime/bindings/fetch.rs | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/src/runtime/bindings/fetch.rs b/src/runtime/bindings/fetch.rs
index d620ce1..a6695d0 100644
--- a/src/runtime/bindings/fetch.rs
+++ b/src/runtime/bindings/fetch.rs
@@ -69,11 +69,18 @@ pub(super) fn from_js<T: serde::de::DeserializeOwned>(
     let scope = std::pin::pin!(v8::TryCatch::new(scope));
     let mut scope = scope.init();
 
-    catch_unwind(AssertUnwindSafe(|| {
+    let result = catch_unwind(AssertUnwindSafe(|| {
         serde_v8::from_v8_any(&mut scope, value)
-    }))
-    .map_err(|_| "unsupported value".to_string())?
-    .map_err(|e| e.to_string())
+    }));
+
+    // Caught with the exception: without asking for it again the calling script would go on
+    if scope.has_terminated() {
+        scope.terminate_execution();
+    }
+
+    result
+        .map_err(|_| "unsupported value".to_string())?
+        .map_err(|e| e.to_string())
 }
 
 /// Read a property of any shape as JSON. Cycles, accessors that throw and nesting without
@@ -89,14 +96,19 @@ fn json_property<T: serde::de::DeserializeOwned + Default>(
     let key = v8::String::new(&scope, name).unwrap();
     let value = object
         .to_object(&scope)
-        .and_then(|object| object.get(&scope, key.into()))
-        .ok_or("unreadable value")?;
+        .and_then(|object| object.get(&scope, key.into()));
 
-    if value.is_undefined() {
+    if value.is_some_and(|value| value.is_undefined()) {
         return Ok(T::default());
     }
 
-    let json = v8::json::stringify(&scope, value).ok_or("value is not serializable as JSON")?;
+    let json = value.and_then(|value| v8::json::stringify(&scope, value));
+
+    if scope.has_terminated() {
+        scope.terminate_execution();
+    }
+
+    let json = json.ok_or("value is not serializable as JSON")?;
 
     serde_json::from_str(&json.to_rust_string_lossy(&scope)).map_err(|e| e.to_string())
 }
-- 
2.43.0


From 546a017c9454918f4940dace36e4a507345e556b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:52 +0000
Subject: [PATCH 71/90] fix: keep terminating an execution which is over its
 limit

V8 forgets a termination once the stack is unwound: the microtasks and callbacks
left to run went on without any limit.
---
 src/event_loop.rs             | 13 ++++++++-
 src/execution_context.rs      |  5 +++-
 src/security/cpu_enforcer.rs  | 35 ++++++++++++------------
 src/security/timeout_guard.rs | 25 ++++++++++++++++-
 src/worker.rs                 | 51 ++++++++++++++++++++---------------
 src/worker_future.rs          |  6 ++++-
 6 files changed, 92 insertions(+), 43 deletions(-)

diff --git a/src/event_loop.rs b/src/event_loop.rs
index 991ccfa..3c5a6f3 100644
--- a/src/event_loop.rs
+++ b/src/event_loop.rs
@@ -42,14 +42,17 @@ pub trait EventLoopRuntime {
 /// * `cx` - The async task context (provides waker)
 /// * `runtime` - The runtime implementing EventLoopRuntime
 /// * `pending_callbacks` - Buffer for batching callbacks (reused across polls)
+/// * `is_terminated` - Whether the execution was terminated: V8 forgets a termination once
+///   the stack is unwound, so nothing more may be run
 ///
 /// # Returns
 /// * `Ok(count)` - Number of callbacks processed, continue event loop
-/// * `Err(msg)` - Channel closed, event loop should exit
+/// * `Err(msg)` - Channel closed or execution terminated, event loop should exit
 pub fn drain_and_process<R: EventLoopRuntime>(
     cx: &mut Context<'_>,
     runtime: &mut R,
     pending_callbacks: &mut Vec<CallbackMessage>,
+    is_terminated: impl Fn(&R) -> bool,
 ) -> Result<usize, String> {
     // 1. Poll callback channel - TRUE ASYNC with waker
     //    This drains all available messages without blocking
@@ -69,9 +72,17 @@ pub fn drain_and_process<R: EventLoopRuntime>(
     let count = pending_callbacks.len();
 
     for msg in pending_callbacks.drain(..) {
+        if is_terminated(runtime) {
+            break;
+        }
+
         runtime.process_callback(msg);
     }
 
+    if is_terminated(runtime) {
+        return Err("Execution terminated".to_string());
+    }
+
     // 3. V8 platform messages + microtask checkpoint
     runtime.pump_and_checkpoint();
 
diff --git a/src/execution_context.rs b/src/execution_context.rs
index 5274f55..2c47d79 100644
--- a/src/execution_context.rs
+++ b/src/execution_context.rs
@@ -1144,7 +1144,10 @@ impl ExecutionContext {
             const MAX_COALESCE_ROUNDS: usize = 4;
 
             for round in 0..MAX_COALESCE_ROUNDS {
-                let count = match drain_and_process(cx, self, &mut pending_callbacks) {
+                let count = match drain_and_process(cx, self, &mut pending_callbacks, |ctx| {
+                    ctx.is_terminated(wall_guard, cpu_guard)
+                        || ctx.heap_limit_hits() != heap_limit_hits
+                }) {
                     Ok(c) => c,
                     Err(e) => {
                         turn.unlock();
diff --git a/src/security/cpu_enforcer.rs b/src/security/cpu_enforcer.rs
index 2c31cf7..6c79aee 100644
--- a/src/security/cpu_enforcer.rs
+++ b/src/security/cpu_enforcer.rs
@@ -42,16 +42,19 @@ mod linux {
     use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
     use std::sync::{Arc, Mutex, Once};
 
-    /// How often an expired timer fires again (CPU time).
+    /// How often an expired timer fires again (CPU time), to terminate execution again.
     ///
     /// Signals of the same number do not queue up: when several timers expire at the
     /// same moment some of them get lost, so the timer repeats until the guard is dropped.
+    /// V8 forgets a termination as soon as the stack is unwound, and goes on with the
+    /// microtasks: they must not run without a limit.
     const REFIRE_INTERVAL_NS: i64 = 10_000_000;
 
     /// CPU time enforcer using POSIX timers.
     pub struct CpuEnforcer {
         timer_id: libc::timer_t,
         enforcer_id: usize,
+        isolate_handle: v8::IsolateHandle,
         terminated: Arc<AtomicBool>,
     }
 
@@ -93,7 +96,7 @@ mod linux {
             let terminated = Arc::new(AtomicBool::new(false));
 
             // Register in global registry
-            register_enforcer(enforcer_id, isolate_handle, terminated.clone());
+            register_enforcer(enforcer_id, isolate_handle.clone(), terminated.clone());
 
             // Arm the timer
             let timeout_secs = timeout_ms / 1000;
@@ -120,6 +123,7 @@ mod linux {
             Some(Self {
                 timer_id,
                 enforcer_id,
+                isolate_handle,
                 terminated,
             })
         }
@@ -161,6 +165,11 @@ mod linux {
         fn drop(&mut self) {
             unsafe { libc::timer_delete(self.timer_id) };
             unregister_enforcer(self.enforcer_id);
+
+            // The execution is over: what runs next on the isolate is not concerned
+            if self.was_terminated() {
+                self.isolate_handle.cancel_terminate_execution();
+            }
         }
     }
 
@@ -170,15 +179,6 @@ mod linux {
         terminated: Arc<AtomicBool>,
     }
 
-    impl Clone for EnforcerData {
-        fn clone(&self) -> Self {
-            Self {
-                isolate_handle: self.isolate_handle.clone(),
-                terminated: self.terminated.clone(),
-            }
-        }
-    }
-
     static ENFORCER_REGISTRY: std::sync::LazyLock<Mutex<HashMap<usize, EnforcerData>>> =
         std::sync::LazyLock::new(|| {
             spawn_signal_handler_thread();
@@ -244,20 +244,19 @@ mod linux {
                 // Extract enforcer_id from signal value (set in timer_create)
                 let enforcer_id = unsafe { siginfo.si_value().sival_ptr as usize };
 
-                // Lookup ONLY this specific enforcer in registry
-                let data = {
-                    let map = ENFORCER_REGISTRY.lock().unwrap();
-                    map.get(&enforcer_id).cloned()
-                };
+                // Lookup ONLY this specific enforcer in registry, which stays locked:
+                // nothing is terminated once the enforcer was dropped
+                let map = ENFORCER_REGISTRY.lock().unwrap();
 
-                if let Some(enforcer_data) = data {
+                if let Some(enforcer_data) = map.get(&enforcer_id) {
                     if !enforcer_data.terminated.swap(true, Ordering::SeqCst) {
                         eprintln!(
                             "[openworkers-runtime-v8] CPU time limit exceeded for enforcer #{}, terminating isolate",
                             enforcer_id
                         );
-                        enforcer_data.isolate_handle.terminate_execution();
                     }
+
+                    enforcer_data.isolate_handle.terminate_execution();
                 } else {
                     // Timer fired but enforcer was already dropped (normal race condition)
                     eprintln!(
diff --git a/src/security/timeout_guard.rs b/src/security/timeout_guard.rs
index 4a3e2af..67a3a16 100644
--- a/src/security/timeout_guard.rs
+++ b/src/security/timeout_guard.rs
@@ -30,6 +30,12 @@ use std::task::Waker;
 use std::thread;
 use std::time::Duration;
 
+/// How often execution is terminated again once the timeout has expired.
+///
+/// V8 forgets a termination as soon as the stack is unwound, and goes on with the
+/// microtasks: they must not run without a limit.
+const REPEAT_INTERVAL: Duration = Duration::from_millis(10);
+
 /// RAII guard that spawns a watchdog thread to terminate V8 execution on timeout.
 ///
 /// The watchdog thread monitors execution time and calls `isolate.terminate_execution()`
@@ -61,6 +67,7 @@ pub struct TimeoutGuard {
 /// A running watchdog thread and the task waker it notifies on timeout.
 struct Watchdog {
     join_handle: thread::JoinHandle<()>,
+    isolate_handle: v8::IsolateHandle,
     waker: Arc<Mutex<Option<Waker>>>,
 }
 
@@ -92,6 +99,7 @@ impl TimeoutGuard {
         let triggered_clone = triggered.clone();
         let waker = Arc::new(Mutex::new(None::<Waker>));
         let waker_clone = Arc::clone(&waker);
+        let isolate_handle_clone = isolate_handle.clone();
 
         let join_handle = thread::Builder::new()
             .name("timeout-watchdog".into())
@@ -120,6 +128,12 @@ impl TimeoutGuard {
                         if let Some(waker) = waker {
                             waker.wake();
                         }
+
+                        while let Err(mpsc::RecvTimeoutError::Timeout) =
+                            cancel_rx.recv_timeout(REPEAT_INTERVAL)
+                        {
+                            isolate_handle.terminate_execution();
+                        }
                     }
                     // Channel disconnected (guard dropped without explicit cancel)
                     Err(mpsc::RecvTimeoutError::Disconnected) => {
@@ -131,7 +145,11 @@ impl TimeoutGuard {
 
         Self {
             cancel_tx: Some(cancel_tx),
-            thread_handle: Some(Watchdog { join_handle, waker }),
+            thread_handle: Some(Watchdog {
+                join_handle,
+                isolate_handle: isolate_handle_clone,
+                waker,
+            }),
             triggered,
         }
     }
@@ -175,6 +193,11 @@ impl Drop for TimeoutGuard {
                     e
                 );
             }
+
+            // The execution is over: what runs next on the isolate is not concerned
+            if self.was_triggered() {
+                handle.isolate_handle.cancel_terminate_execution();
+            }
         }
     }
 }
diff --git a/src/worker.rs b/src/worker.rs
index 6c4b6bf..cccf40d 100644
--- a/src/worker.rs
+++ b/src/worker.rs
@@ -472,6 +472,28 @@ impl Default for WorkerBuilder {
     }
 }
 
+/// Check if execution should be terminated.
+///
+/// Returns true if any termination condition is met:
+/// - V8 isolate is terminating (e.g., from terminate_execution())
+/// - Wall-clock timeout was triggered
+/// - CPU time limit was exceeded (Linux only)
+/// - The heap ran out (V8 forgets that termination once the stack is unwound)
+#[inline]
+fn is_terminated(
+    runtime: &Runtime,
+    wall_guard: &TimeoutGuard,
+    cpu_guard: &Option<CpuEnforcer>,
+) -> bool {
+    runtime.isolate.is_execution_terminating()
+        || runtime.heap_limit_state.hits() != 0
+        || wall_guard.was_triggered()
+        || cpu_guard
+            .as_ref()
+            .map(|g| g.was_terminated())
+            .unwrap_or(false)
+}
+
 impl Worker {
     /// Create a new WorkerBuilder for flexible Worker construction
     pub fn builder() -> WorkerBuilder {
@@ -754,24 +776,6 @@ impl Worker {
         }
     }
 
-    /// Check if execution should be terminated.
-    ///
-    /// Returns true if any termination condition is met:
-    /// - V8 isolate is terminating (e.g., from terminate_execution())
-    /// - Wall-clock timeout was triggered
-    /// - CPU time limit was exceeded (Linux only)
-    /// - The heap ran out (V8 forgets that termination once the stack is unwound)
-    #[inline]
-    fn is_terminated(&self, wall_guard: &TimeoutGuard, cpu_guard: &Option<CpuEnforcer>) -> bool {
-        self.runtime.isolate.is_execution_terminating()
-            || self.runtime.heap_limit_state.hits() != 0
-            || wall_guard.was_triggered()
-            || cpu_guard
-                .as_ref()
-                .map(|g| g.was_terminated())
-                .unwrap_or(false)
-    }
-
     /// Run the event loop until a condition is met or timeout/termination occurs.
     ///
     /// This is the core loop for processing async operations (Promises, timers, fetch).
@@ -805,7 +809,7 @@ impl Worker {
             }
 
             // 1. Check termination (CPU/wall-clock guards)
-            if self.is_terminated(wall_guard, cpu_guard) {
+            if is_terminated(&self.runtime, wall_guard, cpu_guard) {
                 return Poll::Ready(Err("Execution terminated".to_string()));
             }
 
@@ -814,7 +818,12 @@ impl Worker {
             const MAX_COALESCE_ROUNDS: usize = 4;
 
             for round in 0..MAX_COALESCE_ROUNDS {
-                let count = match drain_and_process(cx, &mut self.runtime, &mut pending_callbacks) {
+                let count = match drain_and_process(
+                    cx,
+                    &mut self.runtime,
+                    &mut pending_callbacks,
+                    |runtime| is_terminated(runtime, wall_guard, cpu_guard),
+                ) {
                     Ok(c) => c,
                     Err(e) => return Poll::Ready(Err(e)),
                 };
@@ -867,7 +876,7 @@ impl Worker {
             }
 
             // 6. Terminated while processing: nothing else would wake us to notice.
-            if self.is_terminated(wall_guard, cpu_guard) {
+            if is_terminated(&self.runtime, wall_guard, cpu_guard) {
                 return Poll::Ready(Err("Execution terminated".to_string()));
             }
 
diff --git a/src/worker_future.rs b/src/worker_future.rs
index 05ce385..cc834a6 100644
--- a/src/worker_future.rs
+++ b/src/worker_future.rs
@@ -82,7 +82,11 @@ impl Future for WorkerFuture<'_> {
         const MAX_COALESCE_ROUNDS: usize = 4;
 
         for round in 0..MAX_COALESCE_ROUNDS {
-            let count = match drain_and_process(cx, this.ctx, &mut this.pending_callbacks) {
+            let (wall_guard, cpu_guard) = (this.wall_guard, this.cpu_guard);
+
+            let count = match drain_and_process(cx, this.ctx, &mut this.pending_callbacks, |ctx| {
+                ctx.is_terminated(wall_guard, cpu_guard)
+            }) {
                 Ok(c) => c,
                 Err(e) => return Poll::Ready(Err(e)),
             };
-- 
2.43.0


From d97ff4edf28131b72087b2953bb739f28e9475e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:57 +0000
Subject: [PATCH 72/90] fix: apply an execution's limits to its own turns on a
 shared isolate

With multiplexing, the wall-clock or CPU limit of one execution terminated
whichever execution was running at that moment.
---
 src/execution_context.rs      | 64 ++++++++++++++++++++++++++++++++---
 src/security/cpu_enforcer.rs  | 35 ++++++++++++++++++-
 src/security/timeout_guard.rs | 36 ++++++++++++++++++--
 3 files changed, 127 insertions(+), 8 deletions(-)

diff --git a/src/execution_context.rs b/src/execution_context.rs
index 2c47d79..a6ff98c 100644
--- a/src/execution_context.rs
+++ b/src/execution_context.rs
@@ -1104,7 +1104,8 @@ impl ExecutionContext {
         let mut client_abort = ClientAbort::default();
         let mut pending_callbacks: Vec<crate::runtime::CallbackMessage> = Vec::with_capacity(16);
         let lmi_ptr = self.lmi_ptr; // Copy raw pointer (no persistent borrow on self)
-        let mut turn = Turn::new(self.async_waiter.clone()); // Clone Arc (cheap) to avoid borrow on self
+        // Clone Arc (cheap) to avoid borrow on self
+        let mut turn = LimitedTurn::new(self.async_waiter.clone(), wall_guard, cpu_guard);
 
         std::future::poll_fn(|cx| {
             // -- Fair queue gate (if multiplexing enabled) --
@@ -1230,7 +1231,7 @@ impl ExecutionContext {
         // -- Phase 1: Trigger fetch handler (fair queue + lock) --
         {
             let lmi_ptr = self.lmi_ptr;
-            let mut turn = Turn::new(self.async_waiter.clone());
+            let mut turn = LimitedTurn::new(self.async_waiter.clone(), wall_guard, cpu_guard);
 
             std::future::poll_fn(|cx| {
                 if !turn.try_lock(cx) {
@@ -1277,7 +1278,7 @@ impl ExecutionContext {
         // -- Phase 3: Read response (fair queue + lock) --
         let (status, response) = {
             let lmi_ptr = self.lmi_ptr;
-            let mut turn = Turn::new(self.async_waiter.clone());
+            let mut turn = LimitedTurn::new(self.async_waiter.clone(), wall_guard, cpu_guard);
 
             std::future::poll_fn(|cx| {
                 if !turn.try_lock(cx) {
@@ -1344,7 +1345,7 @@ impl ExecutionContext {
         // -- Phase 1: Trigger task handler (fair queue + lock) --
         {
             let lmi_ptr = self.lmi_ptr;
-            let mut turn = Turn::new(self.async_waiter.clone());
+            let mut turn = LimitedTurn::new(self.async_waiter.clone(), wall_guard, cpu_guard);
 
             std::future::poll_fn(|cx| {
                 if !turn.try_lock(cx) {
@@ -1453,7 +1454,7 @@ impl ExecutionContext {
         // -- Phase 3: Read task result (fair queue + lock) --
         let task_result = {
             let lmi_ptr = self.lmi_ptr;
-            let mut turn = Turn::new(self.async_waiter.clone());
+            let mut turn = LimitedTurn::new(self.async_waiter.clone(), wall_guard, cpu_guard);
 
             std::future::poll_fn(|cx| {
                 if !turn.try_lock(cx) {
@@ -1595,6 +1596,59 @@ impl ExecutionContext {
     }
 }
 
+/// An execution's [`Turn`] on an isolate it shares with others: its limits terminate what
+/// runs on the isolate during its own turns only.
+struct LimitedTurn<'a> {
+    turn: Turn,
+    guards: Option<(&'a TimeoutGuard, &'a Option<CpuEnforcer>)>,
+}
+
+impl<'a> LimitedTurn<'a> {
+    fn new(
+        waiter: Option<Arc<AsyncWaiter>>,
+        wall_guard: &'a TimeoutGuard,
+        cpu_guard: &'a Option<CpuEnforcer>,
+    ) -> Self {
+        let guards = waiter.is_some().then_some((wall_guard, cpu_guard));
+        let limited = Self {
+            turn: Turn::new(waiter),
+            guards,
+        };
+
+        limited.pause();
+        limited
+    }
+
+    fn try_lock(&mut self, cx: &mut std::task::Context<'_>) -> bool {
+        let locked = self.turn.try_lock(cx);
+
+        if let (true, Some((wall_guard, cpu_guard))) = (locked, self.guards) {
+            wall_guard.resume();
+
+            if let Some(cpu_guard) = cpu_guard {
+                cpu_guard.resume();
+            }
+        }
+
+        locked
+    }
+
+    fn unlock(&mut self) {
+        self.pause();
+        self.turn.unlock();
+    }
+
+    fn pause(&self) {
+        if let Some((wall_guard, cpu_guard)) = self.guards {
+            wall_guard.pause();
+
+            if let Some(cpu_guard) = cpu_guard {
+                cpu_guard.pause();
+            }
+        }
+    }
+}
+
 impl crate::event_loop::EventLoopRuntime for ExecutionContext {
     fn callback_rx_mut(
         &mut self,
diff --git a/src/security/cpu_enforcer.rs b/src/security/cpu_enforcer.rs
index 6c79aee..3ad108a 100644
--- a/src/security/cpu_enforcer.rs
+++ b/src/security/cpu_enforcer.rs
@@ -133,6 +133,28 @@ mod linux {
             self.terminated.load(Ordering::SeqCst)
         }
 
+        /// The execution leaves the isolate to others: the limit must not terminate them.
+        pub fn pause(&self) {
+            self.set_running(false);
+
+            if self.was_terminated() {
+                self.isolate_handle.cancel_terminate_execution();
+            }
+        }
+
+        /// The execution runs on the isolate again (see [`pause`](Self::pause)).
+        pub fn resume(&self) {
+            self.set_running(true);
+        }
+
+        fn set_running(&self, running: bool) {
+            let mut map = ENFORCER_REGISTRY.lock().unwrap();
+
+            if let Some(data) = map.get_mut(&self.enforcer_id) {
+                data.running = running;
+            }
+        }
+
         /// Reset the timer for a new request (useful for worker pooling).
         ///
         /// This rearms the CPU timer with the given timeout, allowing the same
@@ -177,6 +199,8 @@ mod linux {
     struct EnforcerData {
         isolate_handle: v8::IsolateHandle,
         terminated: Arc<AtomicBool>,
+        /// Whether the execution is running on the isolate, which others may share
+        running: bool,
     }
 
     static ENFORCER_REGISTRY: std::sync::LazyLock<Mutex<HashMap<usize, EnforcerData>>> =
@@ -196,6 +220,7 @@ mod linux {
             EnforcerData {
                 isolate_handle,
                 terminated,
+                running: true,
             },
         );
     }
@@ -256,7 +281,9 @@ mod linux {
                         );
                     }
 
-                    enforcer_data.isolate_handle.terminate_execution();
+                    if enforcer_data.running {
+                        enforcer_data.isolate_handle.terminate_execution();
+                    }
                 } else {
                     // Timer fired but enforcer was already dropped (normal race condition)
                     eprintln!(
@@ -295,6 +322,12 @@ impl CpuEnforcer {
         false
     }
 
+    /// No-op on non-Linux platforms.
+    pub fn pause(&self) {}
+
+    /// No-op on non-Linux platforms.
+    pub fn resume(&self) {}
+
     /// No-op on non-Linux platforms.
     pub fn reset(&self, _timeout_ms: u64) -> Result<(), std::io::Error> {
         Ok(())
diff --git a/src/security/timeout_guard.rs b/src/security/timeout_guard.rs
index 67a3a16..b2b7cf7 100644
--- a/src/security/timeout_guard.rs
+++ b/src/security/timeout_guard.rs
@@ -68,6 +68,8 @@ pub struct TimeoutGuard {
 struct Watchdog {
     join_handle: thread::JoinHandle<()>,
     isolate_handle: v8::IsolateHandle,
+    /// Whether the execution is running on the isolate, which others may share
+    running: Arc<Mutex<bool>>,
     waker: Arc<Mutex<Option<Waker>>>,
 }
 
@@ -100,6 +102,16 @@ impl TimeoutGuard {
         let waker = Arc::new(Mutex::new(None::<Waker>));
         let waker_clone = Arc::clone(&waker);
         let isolate_handle_clone = isolate_handle.clone();
+        let running = Arc::new(Mutex::new(true));
+        let running_clone = Arc::clone(&running);
+
+        let terminate = move || {
+            let running = running_clone.lock().unwrap();
+
+            if *running {
+                isolate_handle.terminate_execution();
+            }
+        };
 
         let join_handle = thread::Builder::new()
             .name("timeout-watchdog".into())
@@ -119,7 +131,7 @@ impl TimeoutGuard {
                             timeout_ms
                         );
                         triggered_clone.store(true, Ordering::SeqCst);
-                        isolate_handle.terminate_execution();
+                        terminate();
 
                         // The task may be idle (waiting on I/O): wake it so that it
                         // observes the timeout instead of sleeping forever.
@@ -132,7 +144,7 @@ impl TimeoutGuard {
                         while let Err(mpsc::RecvTimeoutError::Timeout) =
                             cancel_rx.recv_timeout(REPEAT_INTERVAL)
                         {
-                            isolate_handle.terminate_execution();
+                            terminate();
                         }
                     }
                     // Channel disconnected (guard dropped without explicit cancel)
@@ -148,6 +160,7 @@ impl TimeoutGuard {
             thread_handle: Some(Watchdog {
                 join_handle,
                 isolate_handle: isolate_handle_clone,
+                running,
                 waker,
             }),
             triggered,
@@ -161,6 +174,25 @@ impl TimeoutGuard {
         self.triggered.load(Ordering::SeqCst)
     }
 
+    /// The execution leaves the isolate to others: a timeout must not terminate them.
+    pub fn pause(&self) {
+        if let Some(watchdog) = &self.thread_handle {
+            let mut running = watchdog.running.lock().unwrap();
+            *running = false;
+
+            if self.was_triggered() {
+                watchdog.isolate_handle.cancel_terminate_execution();
+            }
+        }
+    }
+
+    /// The execution runs on the isolate again (see [`pause`](Self::pause)).
+    pub fn resume(&self) {
+        if let Some(watchdog) = &self.thread_handle {
+            *watchdog.running.lock().unwrap() = true;
+        }
+    }
+
     /// Register the waker of the task to wake when the timeout fires.
     ///
     /// Call before checking `was_triggered()`: the watchdog sets the flag before
-- 
2.43.0


From 4f705d27669e482b5d2d3af81fd615251f57f4da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:13 +0000
Subject: [PATCH 73/90] fix: end the response streams a script left open when
 it claims they are done

---
 src/execution_context.rs      | 12 +++---------
 src/runtime/stream_manager.rs | 19 ++++++-------------
 src/worker.rs                 | 12 +++---------
 3 files changed, 12 insertions(+), 31 deletions(-)

diff --git a/src/execution_context.rs b/src/execution_context.rs
index a6ff98c..5aed1fe 100644
--- a/src/execution_context.rs
+++ b/src/execution_context.rs
@@ -896,7 +896,7 @@ impl ExecutionContext {
         // 2. CPU time limit (Linux only) - prevents CPU-bound infinite loops
         let cpu_guard = CpuEnforcer::new(isolate_handle, self.limits.max_cpu_time_ms);
 
-        let mut abort_streams =
+        let _abort_streams =
             stream_manager::AbortResponseStreams::new(self.request.stream_manager.clone());
 
         // Execute the task
@@ -923,20 +923,14 @@ impl ExecutionContext {
         };
 
         // Determine termination reason by checking guards (in priority order)
-        let result = self.check_termination_reason(
+        self.check_termination_reason(
             result,
             cpu_guard
                 .as_ref()
                 .map(|g| g.was_terminated())
                 .unwrap_or(false),
             wall_guard.was_triggered(),
-        );
-
-        if result.is_ok() {
-            abort_streams.disarm();
-        }
-
-        result
+        )
         // Guards are dropped here, cancelling any pending watchdogs
     }
 
diff --git a/src/runtime/stream_manager.rs b/src/runtime/stream_manager.rs
index c351da2..bcfbfbd 100644
--- a/src/runtime/stream_manager.rs
+++ b/src/runtime/stream_manager.rs
@@ -329,28 +329,21 @@ impl StreamManager {
     }
 }
 
-/// Calls `abort_response_streams` when dropped, unless the execution finished.
+/// Calls `abort_response_streams` when dropped, at the end of an execution.
 ///
-/// Covers every way in which an execution can end early: an error, a limit, or the
-/// caller dropping the future.
-pub struct AbortResponseStreams(Option<Arc<StreamManager>>);
+/// Covers every way in which an execution can end: an error, a limit, the caller dropping
+/// the future, or a script which claims that its streams are finished.
+pub struct AbortResponseStreams(Arc<StreamManager>);
 
 impl AbortResponseStreams {
     pub fn new(manager: Arc<StreamManager>) -> Self {
-        Self(Some(manager))
-    }
-
-    /// The execution finished
-    pub fn disarm(&mut self) {
-        self.0 = None;
+        Self(manager)
     }
 }
 
 impl Drop for AbortResponseStreams {
     fn drop(&mut self) {
-        if let Some(manager) = self.0.take() {
-            manager.abort_response_streams();
-        }
+        self.0.abort_response_streams();
     }
 }
 
diff --git a/src/worker.rs b/src/worker.rs
index cccf40d..31326f7 100644
--- a/src/worker.rs
+++ b/src/worker.rs
@@ -689,7 +689,7 @@ impl Worker {
         // 2. CPU time limit (Linux only) - prevents CPU-bound infinite loops
         let cpu_guard = CpuEnforcer::new(isolate_handle, limits.max_cpu_time_ms);
 
-        let mut abort_streams = AbortResponseStreams::new(self.runtime.stream_manager.clone());
+        let _abort_streams = AbortResponseStreams::new(self.runtime.stream_manager.clone());
 
         // Execute the task
         let result = match task {
@@ -715,20 +715,14 @@ impl Worker {
         };
 
         // Determine termination reason by checking guards (in priority order)
-        let result = self.check_termination_reason(
+        self.check_termination_reason(
             result,
             cpu_guard
                 .as_ref()
                 .map(|g| g.was_terminated())
                 .unwrap_or(false),
             wall_guard.was_triggered(),
-        );
-
-        if result.is_ok() {
-            abort_streams.disarm();
-        }
-
-        result
+        )
         // Guards are dropped here, cancelling any pending watchdogs
     }
 
-- 
2.43.0


From df3a90e7984a84aeab5f2defa480233aef42e9ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:43 +0000
Subject: [PATCH 74/90] fix: tell scripts that their WebSockets were closed

---
 src/runtime/bindings/websocket.rs |  2 +-
 src/runtime/scheduler.rs          | 36 +++++++++++++++++++------------
 2 files changed, 23 insertions(+), 15 deletions(-)

diff --git a/src/runtime/bindings/websocket.rs b/src/runtime/bindings/websocket.rs
index c0e5fab..8d256b1 100644
--- a/src/runtime/bindings/websocket.rs
+++ b/src/runtime/bindings/websocket.rs
@@ -303,7 +303,7 @@ pub fn setup_websocket(
                         self._dispatch('message', { type: 'message', data: arg1 });
                     } else if (eventType === 'close') {
                         self.readyState = WS_CLOSED;
-                        self._dispatch('close', { type: 'close', code: arg1, reason: arg2, wasClean: true });
+                        self._dispatch('close', { type: 'close', code: arg1, reason: arg2, wasClean: arg1 !== 1006 });
                     } else if (eventType === 'error') {
                         self._dispatch('error', { type: 'error', message: arg1 });
                     }
diff --git a/src/runtime/scheduler.rs b/src/runtime/scheduler.rs
index a2e2a6a..925d93f 100644
--- a/src/runtime/scheduler.rs
+++ b/src/runtime/scheduler.rs
@@ -417,6 +417,7 @@ pub async fn run_event_loop(
                         // Create command channel BEFORE spawning so we can store the
                         // sender synchronously in the event loop's state.
                         let (cmd_tx, cmd_rx) = mpsc::unbounded_channel();
+                        ws_commands.retain(|_, tx| !tx.is_closed());
                         ws_commands.insert(ws_id, cmd_tx);
 
                         let callback_tx = callback_tx.clone();
@@ -444,7 +445,7 @@ pub async fn run_event_loop(
                     }
 
                     SchedulerMessage::WebSocketClose(ws_id, code, reason) => {
-                        if let Some(tx) = ws_commands.remove(&ws_id) {
+                        if let Some(tx) = ws_commands.get(&ws_id) {
                             let _ = tx.send(WebSocketCommand::Close(code, reason));
                         }
                     }
@@ -640,7 +641,7 @@ enum WebSocketCommand {
 /// 1. Connects via OperationsHandler
 /// 2. Waits for Accept before pumping incoming messages
 /// 3. Forwards Send/Close commands to the WS
-/// 4. Delivers incoming messages as CallbackMessages
+/// 4. Delivers incoming messages as CallbackMessages, the last one being the close
 #[allow(clippy::too_many_arguments)]
 async fn run_websocket(
     ws_id: WebSocketId,
@@ -680,6 +681,7 @@ async fn run_websocket(
     let send_tx = conn.send_tx;
     let mut recv_rx = conn.recv_rx;
     let mut accepted = false;
+    let mut closing = false;
 
     // Phase 2: Command loop — handle sends, receives, and accept
     loop {
@@ -695,27 +697,33 @@ async fn run_websocket(
                     WebSocketCommand::Accept => {
                         accepted = true;
                     }
+                    // Nothing follows a close
+                    WebSocketCommand::Send(_) | WebSocketCommand::Close(..) if closing => {}
                     WebSocketCommand::Send(msg) => {
                         let _ = send_tx.send(msg);
                     }
                     WebSocketCommand::Close(code, reason) => {
                         let _ = send_tx.send(WebSocketOutgoing::Close { code, reason });
-                        break;
+                        closing = true;
                     }
                 }
             }
 
-            msg = recv_rx.recv(), if accepted => {
-                match msg {
-                    Some(incoming) => {
-                        let _ = callback_tx.send(
-                            CallbackMessage::WebSocketEvent(ws_id, incoming),
-                        );
-                    }
-                    None => {
-                        // Runner dropped the sender — connection is done
-                        break;
-                    }
+            msg = recv_rx.recv(), if accepted || closing => {
+                // Runner dropped the sender — connection is done
+                let incoming = msg.unwrap_or_else(|| WebSocketIncoming::Closed {
+                    code: 1006,
+                    reason: String::new(),
+                });
+                let closed = matches!(incoming, WebSocketIncoming::Closed { .. });
+
+                // A socket being closed has no use for anything but the end
+                if closed || !closing {
+                    let _ = callback_tx.send(CallbackMessage::WebSocketEvent(ws_id, incoming));
+                }
+
+                if closed {
+                    break;
                 }
             }
         }
-- 
2.43.0


From 9ee63022e1a2804fb56c2cc8086c15da0c99ae16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:43 +0000
Subject: [PATCH 75/90] fix: send no empty message, nor an invalid code, for
 unusable WebSocket arguments

---
 src/runtime/bindings/websocket.rs | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/runtime/bindings/websocket.rs b/src/runtime/bindings/websocket.rs
index 8d256b1..82c2f59 100644
--- a/src/runtime/bindings/websocket.rs
+++ b/src/runtime/bindings/websocket.rs
@@ -159,12 +159,11 @@ pub fn setup_websocket(
                 view.copy_contents(&mut buf);
                 WebSocketOutgoing::Binary(buf)
             } else {
-                // Fallback: convert to string
-                let s = data
-                    .to_string(scope)
-                    .map(|s| s.to_rust_string_lossy(scope))
-                    .unwrap_or_default();
-                WebSocketOutgoing::Text(s)
+                // Fallback: convert to string (nothing is sent if that throws)
+                let Some(s) = data.to_string(scope) else {
+                    return;
+                };
+                WebSocketOutgoing::Text(s.to_rust_string_lossy(scope))
             };
 
             let _ = state
@@ -325,7 +324,7 @@ pub fn setup_websocket(
             }
 
             close(code, reason) {
-                if (code !== undefined && code !== 1000 && (code < 3000 || code > 4999)) {
+                if (code !== undefined && code !== 1000 && !(code >= 3000 && code <= 4999)) {
                     throw WebSocket.__err('InvalidAccessError', "Failed to execute 'close' on 'WebSocket': The code must be 1000 or in the range 3000-4999.");
                 }
                 if (reason !== undefined && new TextEncoder().encode(String(reason)).length > 123) {
-- 
2.43.0


From 901746a92c679d1bd7f41c6248c3ef59278ab7a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:01 +0000
Subject: [PATCH 76/90] fix: close the WebSockets which a finished request left
 open

---
 src/execution_context.rs | 4 ++--
 src/runtime/scheduler.rs | 7 ++++---
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/execution_context.rs b/src/execution_context.rs
index 5aed1fe..e5c8fc0 100644
--- a/src/execution_context.rs
+++ b/src/execution_context.rs
@@ -315,11 +315,11 @@ impl ExecutionContext {
     /// without aborting the event loop. The remaining EC fields (raw pointers,
     /// static refs, Arcs) are dropped normally.
     pub(crate) fn into_parts(self) -> (RequestContext, *mut v8::OwnedIsolate) {
-        // The event loop outlives the request, its timers must not.
+        // The event loop outlives the request, its timers and WebSockets must not.
         let _ = self
             .request
             .scheduler_tx
-            .send(crate::runtime::SchedulerMessage::ClearAllTimers);
+            .send(crate::runtime::SchedulerMessage::EndRequest);
 
         // Nor may bodies which nobody will read stay open at their upstream.
         self.request.stream_manager.clear();
diff --git a/src/runtime/scheduler.rs b/src/runtime/scheduler.rs
index 925d93f..cc76f8a 100644
--- a/src/runtime/scheduler.rs
+++ b/src/runtime/scheduler.rs
@@ -52,8 +52,8 @@ pub enum SchedulerMessage {
     ScheduleTimeout(CallbackId, u64),
     ScheduleInterval(CallbackId, u64),
     ClearTimer(CallbackId),
-    /// The request is over: none of its timers may go on ticking
-    ClearAllTimers,
+    /// The request is over: none of its timers may go on ticking, no WebSocket stays open
+    EndRequest,
     FetchStreaming(CallbackId, HttpRequest),
     BindingFetch(CallbackId, String, HttpRequest),
     BindingStorage(CallbackId, String, StorageOp),
@@ -211,8 +211,9 @@ pub async fn run_event_loop(
                         timers.cancel(id);
                     }
 
-                    SchedulerMessage::ClearAllTimers => {
+                    SchedulerMessage::EndRequest => {
                         timers.clear();
+                        ws_commands.clear();
                     }
 
                     SchedulerMessage::FetchStreaming(promise_id, request) => {
-- 
2.43.0


From ecb21634f85ddafc3b4e96f2c1ab82f5d407350b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:38 +0000
Subject: [PATCH 77/90] fix: dispatch no WebSocket messages after close()

---
 src/runtime/bindings/websocket.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/runtime/bindings/websocket.rs b/src/runtime/bindings/websocket.rs
index 82c2f59..b316101 100644
--- a/src/runtime/bindings/websocket.rs
+++ b/src/runtime/bindings/websocket.rs
@@ -299,6 +299,8 @@ pub fn setup_websocket(
 
                 __nativeWebSocketAccept(this._wsId, function(eventType, arg1, arg2) {
                     if (eventType === 'message') {
+                        // What was on its way when close() was called is discarded
+                        if (self.readyState !== WS_OPEN) return;
                         self._dispatch('message', { type: 'message', data: arg1 });
                     } else if (eventType === 'close') {
                         self.readyState = WS_CLOSED;
-- 
2.43.0


From e464aa7627910824d4f5fc07c73fa9e29f6153f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:34 +0000
Subject: [PATCH 78/90] fix: let scripts declare and replace WebSocket like
 other globals

---
 src/runtime/bindings/websocket.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/runtime/bindings/websocket.rs b/src/runtime/bindings/websocket.rs
index b316101..3ce9d9c 100644
--- a/src/runtime/bindings/websocket.rs
+++ b/src/runtime/bindings/websocket.rs
@@ -202,7 +202,9 @@ pub fn setup_websocket(
     register_fn!(scope, "__nativeWebSocketClose", close_fn);
 
     // JavaScript WebSocket class + fetch integration
+    // (in a function, or scripts could neither declare these names nor replace the global)
     let code = r#"
+        (function() {
         const WS_CONNECTING = 0, WS_OPEN = 1, WS_CLOSING = 2, WS_CLOSED = 3;
 
         // WHATWG-style WebSocket. `new WebSocket(url)` connects and auto-starts
@@ -380,6 +382,7 @@ pub fn setup_websocket(
         WebSocket.prototype.CLOSED = WS_CLOSED;
 
         globalThis.WebSocket = WebSocket;
+        })();
     "#;
 
     exec_js!(scope, code);
-- 
2.43.0


From f211f3cc765cab4a7765a6c0eec7b6f92588861c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:51 +0000
Subject: [PATCH 79/90] fix: abort() keeps reasons like null, 0 or ''

---
 src/runtime/bindings/web_api.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/runtime/bindings/web_api.rs b/src/runtime/bindings/web_api.rs
index dc68741..c88d8d0 100644
--- a/src/runtime/bindings/web_api.rs
+++ b/src/runtime/bindings/web_api.rs
@@ -251,7 +251,7 @@ pub fn setup_abort_controller(scope: &mut v8::PinScope) {
 
             static abort(reason) {
                 const signal = new AbortSignal();
-                signal._abort(reason || new DOMException('Aborted', 'AbortError'));
+                signal._abort(reason === undefined ? new DOMException('Aborted', 'AbortError') : reason);
                 return signal;
             }
 
@@ -270,7 +270,7 @@ pub fn setup_abort_controller(scope: &mut v8::PinScope) {
             }
 
             abort(reason) {
-                this.signal._abort(reason || new DOMException('Aborted', 'AbortError'));
+                this.signal._abort(reason === undefined ? new DOMException('Aborted', 'AbortError') : reason);
             }
         };
 
-- 
2.43.0


From 2c8001b80bc01e5a5b4e09065c76a14b2860912e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:03 +0000
Subject: [PATCH 80/90] fix: abort listeners run once each, not once removed,
 and with the signal as this

---
 src/runtime/bindings/web_api.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/runtime/bindings/web_api.rs b/src/runtime/bindings/web_api.rs
index c88d8d0..3ea44e0 100644
--- a/src/runtime/bindings/web_api.rs
+++ b/src/runtime/bindings/web_api.rs
@@ -222,7 +222,7 @@ pub fn setup_abort_controller(scope: &mut v8::PinScope) {
             }
 
             addEventListener(type, listener) {
-                if (type === 'abort') {
+                if (type === 'abort' && !this._listeners.includes(listener)) {
                     this._listeners.push(listener);
                 }
             }
@@ -244,8 +244,10 @@ pub fn setup_abort_controller(scope: &mut v8::PinScope) {
                 this.aborted = true;
                 this.reason = reason;
                 const event = { type: 'abort', target: this };
-                for (const listener of this._listeners) {
-                    try { listener(event); } catch (e) { console.error(e); }
+                // (a copy: listeners may add and remove listeners)
+                for (const listener of [...this._listeners]) {
+                    if (!this._listeners.includes(listener)) continue;
+                    try { listener.call(this, event); } catch (e) { console.error(e); }
                 }
             }
 
-- 
2.43.0


From 693ca06e6e02790cf8efb7841c4934f7b73e17d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:04 +0000
Subject: [PATCH 81/90] fix: release the body of storage.fetch when the request
 is over

---
 src/runtime/callback_handlers.rs | 30 ++----------------------------
 1 file changed, 2 insertions(+), 28 deletions(-)

diff --git a/src/runtime/callback_handlers.rs b/src/runtime/callback_handlers.rs
index 15008c3..f04497c 100644
--- a/src/runtime/callback_handlers.rs
+++ b/src/runtime/callback_handlers.rs
@@ -215,34 +215,8 @@ pub fn populate_storage_result(
 
                 openworkers_core::ResponseBody::Stream(rx) => {
                     // Create a native stream and pump chunks into it
-                    let stream_id = stream_manager.create_stream("storage_fetch".to_string());
-                    let manager = stream_manager.clone();
-
-                    tokio::spawn(async move {
-                        use super::stream_manager::StreamChunk;
-                        let mut rx = rx;
-
-                        while let Some(result) = rx.recv().await {
-                            match result {
-                                Ok(bytes) => {
-                                    if manager
-                                        .write_chunk(stream_id, StreamChunk::Data(bytes))
-                                        .await
-                                        .is_err()
-                                    {
-                                        break;
-                                    }
-                                }
-                                Err(e) => {
-                                    let _ =
-                                        manager.write_chunk(stream_id, StreamChunk::Error(e)).await;
-                                    return;
-                                }
-                            }
-                        }
-
-                        let _ = manager.write_chunk(stream_id, StreamChunk::Done).await;
-                    });
+                    // (until the script closes it, or the request is over)
+                    let stream_id = stream_manager.pump_request_body(rx);
 
                     let stream_id_key = v8::String::new(scope, "streamId").unwrap();
                     result_obj.set(
-- 
2.43.0


From 565f12758c596f413e4b199909d8fce3e9ac0a80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:20 +0000
Subject: [PATCH 82/90] fix: read empty and encoded names in multipart bodies

formData() dropped a field with an empty name, turned a file with an empty
file name (a file input left empty) into text, left %22, %0D and %0A as they
were, and took a name from any part header that holds name="...".
---
 src/runtime/bindings/web_api.rs | 36 ++++++++++++++++++++-------------
 1 file changed, 22 insertions(+), 14 deletions(-)

diff --git a/src/runtime/bindings/web_api.rs b/src/runtime/bindings/web_api.rs
index 3ea44e0..1b2f57a 100644
--- a/src/runtime/bindings/web_api.rs
+++ b/src/runtime/bindings/web_api.rs
@@ -1019,18 +1019,22 @@ pub fn setup_request(scope: &mut v8::PinScope) {
                         // Extract body as bytes
                         const bodyBytes = data.slice(headerEnd + 4, bodyEnd);
 
-                        const nameMatch = headerText.match(/name="([^"]+)"/);
-                        if (!nameMatch) {
+                        // Name and file name: both may be empty, and these characters come encoded
+                        const disposition = headerText.match(/^Content-Disposition:([^\r\n]*)/im);
+                        const params = new Map();
+                        for (const [, key, value] of (disposition ? disposition[1] : '').matchAll(/;\s*([^=;\s]+)="([^"]*)"/g)) {
+                            params.set(key.toLowerCase(), value.replace(/%0A/gi, '\n').replace(/%0D/gi, '\r').replace(/%22/g, '"'));
+                        }
+                        if (!params.has('name')) {
                             pos = nextBoundary === -1 ? -1 : nextBoundary + 2;
                             continue;
                         }
 
-                        const name = nameMatch[1];
-                        const filenameMatch = headerText.match(/filename="([^"]+)"/);
+                        const name = params.get('name');
 
-                        if (filenameMatch) {
-                            const filename = filenameMatch[1];
-                            const contentTypeMatch = headerText.match(/Content-Type:\s*([^\r\n]+)/i);
+                        if (params.has('filename')) {
+                            const filename = params.get('filename');
+                            const contentTypeMatch = headerText.match(/^Content-Type:\s*([^\r\n]+)/im);
                             const fileType = contentTypeMatch ? contentTypeMatch[1].trim() : 'application/octet-stream';
                             const file = new File([bodyBytes], filename, { type: fileType });
                             formData.append(name, file, filename);
@@ -1312,19 +1316,23 @@ pub fn setup_response(scope: &mut v8::PinScope) {
                         // Extract body as bytes
                         const bodyBytes = data.slice(headerEnd + 4, bodyEnd);
 
-                        const nameMatch = headerText.match(/name="([^"]+)"/);
+                        // Name and file name: both may be empty, and these characters come encoded
+                        const disposition = headerText.match(/^Content-Disposition:([^\r\n]*)/im);
+                        const params = new Map();
+                        for (const [, key, value] of (disposition ? disposition[1] : '').matchAll(/;\s*([^=;\s]+)="([^"]*)"/g)) {
+                            params.set(key.toLowerCase(), value.replace(/%0A/gi, '\n').replace(/%0D/gi, '\r').replace(/%22/g, '"'));
+                        }
 
-                        if (!nameMatch) {
+                        if (!params.has('name')) {
                             pos = nextBoundary === -1 ? -1 : nextBoundary + 2;
                             continue;
                         }
 
-                        const name = nameMatch[1];
-                        const filenameMatch = headerText.match(/filename="([^"]+)"/);
+                        const name = params.get('name');
 
-                        if (filenameMatch) {
-                            const filename = filenameMatch[1];
-                            const contentTypeMatch = headerText.match(/Content-Type:\s*([^\r\n]+)/i);
+                        if (params.has('filename')) {
+                            const filename = params.get('filename');
+                            const contentTypeMatch = headerText.match(/^Content-Type:\s*([^\r\n]+)/im);
                             const fileType = contentTypeMatch ? contentTypeMatch[1].trim() : 'application/octet-stream';
                             const file = new File([bodyBytes], filename, { type: fileType });
                             formData.append(name, file, filename);
-- 
2.43.0


From a871bf3ca40f061903befa154692f376f06dab38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:20 +0000
Subject: [PATCH 83/90] fix: send a file with an empty name under that name

fetch() named such a file of a form 'blob'.
---
 src/runtime/bindings/fetch.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/runtime/bindings/fetch.rs b/src/runtime/bindings/fetch.rs
index a6695d0..010cfe9 100644
--- a/src/runtime/bindings/fetch.rs
+++ b/src/runtime/bindings/fetch.rs
@@ -594,7 +594,7 @@ pub fn setup_fetch(
                 let part = '--' + boundary + CRLF;
 
                 if (value instanceof Blob) {
-                    const fname = filename || (value.name ? value.name : 'blob');
+                    const fname = filename ?? value.name ?? 'blob';
                     part += 'Content-Disposition: form-data; name=' + quote(name) + '; filename=' + quote(fname) + CRLF;
                     part += 'Content-Type: ' + (value.type || 'application/octet-stream') + CRLF + CRLF;
 
-- 
2.43.0


From 4d5bc6892f6638f07aab9c4727278bb5fbba1c3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:10 +0000
Subject: [PATCH 84/90] fix: Response.error() has status 0, not 200

---
 src/runtime/bindings/web_api.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/runtime/bindings/web_api.rs b/src/runtime/bindings/web_api.rs
index 1b2f57a..1e37c4d 100644
--- a/src/runtime/bindings/web_api.rs
+++ b/src/runtime/bindings/web_api.rs
@@ -1124,7 +1124,7 @@ pub fn setup_response(scope: &mut v8::PinScope) {
         globalThis.Response = class Response {
             constructor(body, init) {
                 init = init || {};
-                this.status = init.status || 200;
+                this.status = init.status ?? 200;
                 this.statusText = init.statusText || '';
                 this.ok = this.status >= 200 && this.status < 300;
                 this.bodyUsed = false;
-- 
2.43.0


From eb879c76140cca6bd26827fa1f5cc4c933152db0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:10 +0000
Subject: [PATCH 85/90] fix: keep a URL's credentials when its searchParams
 change

---
 src/runtime/bindings/web_api.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/runtime/bindings/web_api.rs b/src/runtime/bindings/web_api.rs
index 1e37c4d..e389afb 100644
--- a/src/runtime/bindings/web_api.rs
+++ b/src/runtime/bindings/web_api.rs
@@ -520,7 +520,9 @@ pub fn setup_url_search_params(scope: &mut v8::PinScope) {
                 if (this._url) {
                     const qs = this.toString();
                     this._url.search = qs ? '?' + qs : '';
-                    this._url.href = this._url.origin + this._url.pathname + this._url.search + this._url.hash;
+                    // Everything up to the path stays as it is, credentials included
+                    const prefix = this._url.origin && this._url.href.match(/^[^:]+:\/\/[^\/?#]*/);
+                    this._url.href = (prefix ? prefix[0] : this._url.origin) + this._url.pathname + this._url.search + this._url.hash;
                 }
             }
 
-- 
2.43.0


From a2a899b6d74dfc037f8d16200bcb52099f10896b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:14 +0000
Subject: [PATCH 86/90] fix: split URLs with an IPv6 host

---
 src/runtime/bindings/web_api.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/runtime/bindings/web_api.rs b/src/runtime/bindings/web_api.rs
index e389afb..a5366af 100644
--- a/src/runtime/bindings/web_api.rs
+++ b/src/runtime/bindings/web_api.rs
@@ -652,7 +652,7 @@ pub fn setup_url(scope: &mut v8::PinScope) {
                 this.href = url;
 
                 // scheme://[userinfo@]host[:port][/path][?query][#hash]
-                const match = url.match(/^([a-z][a-z0-9+\-.]*):\/\/(?:([^@\/\?#]*)@)?([^:\/?#]*)(?::(\d+))?(\/[^\?#]*)?(\?[^#]*)?(#.*)?$/i);
+                const match = url.match(/^([a-z][a-z0-9+\-.]*):\/\/(?:([^@\/\?#]*)@)?(\[[^\]]*\]|[^:\/?#]*)(?::(\d+))?(\/[^\?#]*)?(\?[^#]*)?(#.*)?$/i);
 
                 if (match) {
                     this.protocol = match[1] + ':';
-- 
2.43.0


From c6db9c0a4cc4a2c24c2dff3d42aee27f5dae9b61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:14 +0000
Subject: [PATCH 87/90] fix: resolve relative URLs against the path of their
 base

---
 src/runtime/bindings/web_api.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/runtime/bindings/web_api.rs b/src/runtime/bindings/web_api.rs
index a5366af..2914ad7 100644
--- a/src/runtime/bindings/web_api.rs
+++ b/src/runtime/bindings/web_api.rs
@@ -632,9 +632,18 @@ pub fn setup_url(scope: &mut v8::PinScope) {
 
                 if (base) {
                     // Handle relative URLs
-                    const baseUrl = typeof base === 'string' ? base : base.href;
-
-                    if (url.startsWith('/')) {
+                    const fullBase = typeof base === 'string' ? base : base.href;
+                    const baseUrl = fullBase.replace(/[?#].*$/s, '');
+
+                    if (url.startsWith('//')) {
+                        // Only the scheme comes from base
+                        const match = baseUrl.match(/^[a-z][a-z0-9+\-.]*:(?=\/\/)/i);
+                        url = match ? match[0] + url : url;
+                    } else if (url === '' || url.startsWith('#')) {
+                        url = fullBase.replace(/#.*$/s, '') + url;
+                    } else if (url.startsWith('?')) {
+                        url = baseUrl + url;
+                    } else if (url.startsWith('/')) {
                         // Absolute path - use origin from base
                         const match = baseUrl.match(/^([a-z][a-z0-9+\-.]*:\/\/[^\/]+)/i);
                         url = match ? match[1] + url : url;
-- 
2.43.0


From 578cc3301eac4880f4be97512457dd8e0293f4d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:20:53 +0000
Subject: [PATCH 88/90] fix: entries of URLSearchParams given out are copies

---
 src/runtime/bindings/web_api.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/runtime/bindings/web_api.rs b/src/runtime/bindings/web_api.rs
index 2914ad7..2fa4016 100644
--- a/src/runtime/bindings/web_api.rs
+++ b/src/runtime/bindings/web_api.rs
@@ -587,7 +587,7 @@ pub fn setup_url_search_params(scope: &mut v8::PinScope) {
             }
 
             *entries() {
-                yield* this._entries;
+                for (const [k, v] of this._entries) yield [k, v];
             }
 
             *keys() {
-- 
2.43.0


From 51d8adaa0dfa397edc5cb5e82e7c95650b2c3f32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:21:28 +0000
Subject: [PATCH 89/90] fix: convert the names given to URLSearchParams like
 those it holds

---
 src/runtime/bindings/web_api.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/runtime/bindings/web_api.rs b/src/runtime/bindings/web_api.rs
index 2fa4016..81e2c44 100644
--- a/src/runtime/bindings/web_api.rs
+++ b/src/runtime/bindings/web_api.rs
@@ -532,21 +532,25 @@ pub fn setup_url_search_params(scope: &mut v8::PinScope) {
             }
 
             delete(name) {
-                this._entries = this._entries.filter(([k]) => k !== name);
+                const strName = String(name).toWellFormed();
+                this._entries = this._entries.filter(([k]) => k !== strName);
                 this._update();
             }
 
             get(name) {
-                const entry = this._entries.find(([k]) => k === name);
+                const strName = String(name).toWellFormed();
+                const entry = this._entries.find(([k]) => k === strName);
                 return entry ? entry[1] : null;
             }
 
             getAll(name) {
-                return this._entries.filter(([k]) => k === name).map(([, v]) => v);
+                const strName = String(name).toWellFormed();
+                return this._entries.filter(([k]) => k === strName).map(([, v]) => v);
             }
 
             has(name) {
-                return this._entries.some(([k]) => k === name);
+                const strName = String(name).toWellFormed();
+                return this._entries.some(([k]) => k === strName);
             }
 
             set(name, value) {
-- 
2.43.0


From 2102bda9d732bc17f2cd51abe510399c3c00182e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:13 +0000
Subject: [PATCH 90/90] fix: tell an upstream at once that its body was
 cancelled

---
 src/runtime/scheduler.rs      |  3 +++
 src/runtime/stream_manager.rs | 11 +++++++++--
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/runtime/scheduler.rs b/src/runtime/scheduler.rs
index cc76f8a..2435780 100644
--- a/src/runtime/scheduler.rs
+++ b/src/runtime/scheduler.rs
@@ -508,6 +508,7 @@ fn spawn_stream_reader(
     manager: Arc<StreamManager>,
     cancel: CancellationToken,
 ) {
+    let closed = manager.register_pump(stream_id);
     let pump_manager = manager.clone();
 
     let pump = async move {
@@ -550,6 +551,8 @@ fn spawn_stream_reader(
         tokio::select! {
             _ = pump => {}
             _ = abandoned => manager.close_stream(stream_id),
+            // The script cancelled the body
+            _ = closed => {}
         }
     });
 }
diff --git a/src/runtime/stream_manager.rs b/src/runtime/stream_manager.rs
index bcfbfbd..6a4c7bf 100644
--- a/src/runtime/stream_manager.rs
+++ b/src/runtime/stream_manager.rs
@@ -271,6 +271,14 @@ impl StreamManager {
         self.senders.lock().unwrap().get(&stream_id).cloned()
     }
 
+    /// Register the task which fills a stream. The receiver resolves (with an error) when
+    /// the stream is closed, so that the task need not wait for its next chunk to notice.
+    pub fn register_pump(&self, stream_id: StreamId) -> oneshot::Receiver<()> {
+        let (open, closed) = oneshot::channel();
+        self.pumps.lock().unwrap().insert(stream_id, open);
+        closed
+    }
+
     /// Create a stream and spawn a pump task to forward data from a receiver.
     /// Returns the stream ID that can be passed to JavaScript.
     ///
@@ -281,8 +289,7 @@ impl StreamManager {
         rx: tokio::sync::mpsc::Receiver<Result<bytes::Bytes, String>>,
     ) -> StreamId {
         let stream_id = self.create_stream("request_body".to_string());
-        let (open, closed) = oneshot::channel();
-        self.pumps.lock().unwrap().insert(stream_id, open);
+        let closed = self.register_pump(stream_id);
 
         let stream_manager = self.clone();
 
-- 
2.43.0

