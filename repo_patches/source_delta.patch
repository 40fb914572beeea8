From 71b438f891c691b7f32cec933924fbd470047fa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:27:28 +0000
Subject: [PATCH 01/13] fix: f_fold hangs when the input is fully combined
 before its size is known

The result processor only recognises the final result once the size of the
input is known. If every result arrives earlier, the final one is queued for
further combination that never comes. Look for it once the size is known.
---
 .../src/directive/indexed_stream/foldable.rs       | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/paladin-core/src/directive/indexed_stream/foldable.rs b/paladin-core/src/directive/indexed_stream/foldable.rs
index ddb5a63..cc3c8b1 100644
--- a/paladin-core/src/directive/indexed_stream/foldable.rs
+++ b/paladin-core/src/directive/indexed_stream/foldable.rs
@@ -222,8 +222,18 @@ impl<'a, A: Send + Sync + 'a, B: Send + 'a> Foldable<'a, B> for IndexedStream<'a
                                 .await
                                 .expect("Expected dispatcher to have a single element at index 0")
                                 .output),
-                            // Otherwise, we wait for the result stream to complete.
-                            _ => futures::future::pending().await,
+                            // The input may have been completely combined before its size was
+                            // known, in which case the result processor has queued the final
+                            // result. Otherwise, we wait for the result stream to complete.
+                            _ => {
+                                if let Some(result) = dispatcher.dequeue(&0).await {
+                                    if result.is_final(size) {
+                                        return Ok(result.output);
+                                    }
+                                    dispatcher.queue(result).await;
+                                }
+                                futures::future::pending().await
+                            }
                         }
                     }
                 }
-- 
2.43.0


From 1f48746bd5df61a7d3a280a32c57f3f82660e885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:27:41 +0000
Subject: [PATCH 02/13] Hooks for the proof harnesses (cfg(verif))

---
 paladin-core/src/channel/mod.rs | 15 ++++++++
 paladin-core/src/runtime/mod.rs | 62 +++++++++++++++++++++++++++++++++
 2 files changed, 77 insertions(+)

diff --git a/paladin-core/src/channel/mod.rs b/paladin-core/src/channel/mod.rs
index ab503d4..b1f0e9c 100644
--- a/paladin-core/src/channel/mod.rs
+++ b/paladin-core/src/channel/mod.rs
@@ -132,3 +132,18 @@ impl<C: Channel, Pipe> PinnedDrop for LeaseGuard<C, Pipe> {
 
 pub mod coordinated_channel;
 pub mod queue;
+
+/// Access to private items for the proof harnesses.
+#[cfg(verif)]
+#[allow(unexpected_cfgs)]
+pub mod verif {
+    use super::*;
+
+    /// A guard that holds no lease.
+    pub fn unleased<C: Channel, Pipe>(pipe: Pipe) -> LeaseGuard<C, Pipe> {
+        LeaseGuard {
+            pipe,
+            channel: None,
+        }
+    }
+}
diff --git a/paladin-core/src/runtime/mod.rs b/paladin-core/src/runtime/mod.rs
index cdd8f6c..6e2b199 100644
--- a/paladin-core/src/runtime/mod.rs
+++ b/paladin-core/src/runtime/mod.rs
@@ -322,6 +322,10 @@ impl Runtime {
     >(
         &self,
     ) -> Result<CoordinatedTaskChannel<'a, Op, Metadata>> {
+        #[cfg(verif)]
+        if let Some(contract) = verif::lease_contract() {
+            return contract;
+        }
         // Issue a new channel and return its identifier paired with a stream of
         // results.
         let (task_sender, (result_channel_identifier, result_channel)) = try_join!(
@@ -813,3 +817,61 @@ impl WorkerRuntime {
 }
 
 mod dynamic_channel;
+
+/// Access to private items for the proof harnesses.
+#[cfg(verif)]
+#[allow(unexpected_cfgs)]
+pub mod verif {
+    pub use super::dynamic_channel::{DynamicChannel, DynamicChannelFactory};
+    use super::*;
+
+    pub type TaskChannel<'a, Op, Metadata> = super::CoordinatedTaskChannel<'a, Op, Metadata>;
+
+    /// Proofs of the callers of [`Runtime::lease_coordinated_task_channel`]
+    /// stub this by that function's contract. `None`: run its body.
+    #[inline(never)]
+    pub fn lease_contract<'a, Op: Operation + 'a, Metadata: Serializable + 'a>(
+    ) -> Option<Result<TaskChannel<'a, Op, Metadata>>> {
+        None
+    }
+
+    impl Runtime {
+        /// A runtime without emulated workers.
+        pub fn verif_new(
+            channel_factory: DynamicChannelFactory,
+            task_channel: DynamicChannel,
+            serializer: Serializer,
+        ) -> Self {
+            Self {
+                channel_factory,
+                task_channel,
+                serializer,
+                worker_emulator: None,
+                _marker: Marker,
+            }
+        }
+    }
+
+    impl WorkerRuntime {
+        pub fn verif_new(
+            channel_factory: DynamicChannelFactory,
+            task_channel: DynamicChannel,
+        ) -> Self {
+            Self {
+                channel_factory,
+                task_channel,
+                _marker: Marker,
+            }
+        }
+    }
+
+    impl<E> ExecutionErr<E> {
+        pub fn verif_new(routing_key: String, err: E, strategy: FatalStrategy) -> Self {
+            Self {
+                routing_key,
+                err,
+                strategy,
+            }
+        }
+    }
+}
-- 
2.43.0


From 10680091ad5b5f3c578c31e02f3c53dbdfe3d901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:31:04 +0000
Subject: [PATCH 03/13] fix: CoordinatedStream ends early when items are sent
 and the sender is closed during a poll

---
 .../src/channel/coordinated_channel/coordinated_stream.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/paladin-core/src/channel/coordinated_channel/coordinated_stream.rs b/paladin-core/src/channel/coordinated_channel/coordinated_stream.rs
index d45ec4f..5ec1906 100644
--- a/paladin-core/src/channel/coordinated_channel/coordinated_stream.rs
+++ b/paladin-core/src/channel/coordinated_channel/coordinated_stream.rs
@@ -136,8 +136,12 @@ impl<S: Stream> Stream for CoordinatedStream<S> {
                 // If the inner stream is pending, check that the channel is closed and there
                 // are no pending sends. If so, return `None` to signal that the
                 // stream has terminated.
-                let num_pending_sends = this.state.num_pending_sends.load(Ordering::SeqCst);
-                if this.state.closed.load(Ordering::SeqCst) && num_pending_sends == 0 {
+                //
+                // `closed` must be read first: sends that precede the close are then
+                // guaranteed to be included in the count.
+                if this.state.closed.load(Ordering::SeqCst)
+                    && this.state.num_pending_sends.load(Ordering::SeqCst) == 0
+                {
                     return Poll::Ready(None);
                 }
 
-- 
2.43.0


From b494369fc72dcccd1265b89e39d29719f58e64f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:31:04 +0000
Subject: [PATCH 04/13] fix: closing a CoordinatedPublisher does not wake the
 waiting receiver

---
 .../src/channel/coordinated_channel/coordinated_stream.rs   | 4 ++++
 paladin-core/src/channel/coordinated_channel/mod.rs         | 6 +++++-
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/paladin-core/src/channel/coordinated_channel/coordinated_stream.rs b/paladin-core/src/channel/coordinated_channel/coordinated_stream.rs
index 5ec1906..6621197 100644
--- a/paladin-core/src/channel/coordinated_channel/coordinated_stream.rs
+++ b/paladin-core/src/channel/coordinated_channel/coordinated_stream.rs
@@ -137,6 +137,10 @@ impl<S: Stream> Stream for CoordinatedStream<S> {
                 // are no pending sends. If so, return `None` to signal that the
                 // stream has terminated.
                 //
+                // The waker must be registered before reading the state, such that a
+                // subsequent close is not missed.
+                this.state.receiver.register(cx.waker());
+
                 // `closed` must be read first: sends that precede the close are then
                 // guaranteed to be included in the count.
                 if this.state.closed.load(Ordering::SeqCst)
diff --git a/paladin-core/src/channel/coordinated_channel/mod.rs b/paladin-core/src/channel/coordinated_channel/mod.rs
index f88e6ca..da8d5a3 100644
--- a/paladin-core/src/channel/coordinated_channel/mod.rs
+++ b/paladin-core/src/channel/coordinated_channel/mod.rs
@@ -17,7 +17,7 @@ use std::sync::{
     Arc,
 };
 
-use futures::Stream;
+use futures::{task::AtomicWaker, Stream};
 
 use self::{coordinated_publisher::CoordinatedPublisher, coordinated_stream::CoordinatedStream};
 use crate::queue::Publisher;
@@ -32,6 +32,8 @@ pub struct ChannelState {
     closed: AtomicBool,
     /// The number of pending sends.
     num_pending_sends: AtomicUsize,
+    /// The task waiting on the receiving end of the channel.
+    receiver: AtomicWaker,
 }
 
 impl ChannelState {
@@ -47,6 +49,8 @@ impl ChannelState {
         }
 
         self.closed.store(true, Ordering::SeqCst);
+        // The receiver may be waiting for the channel to close.
+        self.receiver.wake();
     }
 }
 
-- 
2.43.0


From 43342cb15435fb2f733e63635a6eacaafa14dd95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:31:04 +0000
Subject: [PATCH 05/13] fix: a failed publish leaves CoordinatedStream waiting
 forever

---
 .../channel/coordinated_channel/coordinated_publisher.rs | 9 +++++----
 paladin-core/src/channel/coordinated_channel/mod.rs      | 7 +++++++
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/paladin-core/src/channel/coordinated_channel/coordinated_publisher.rs b/paladin-core/src/channel/coordinated_channel/coordinated_publisher.rs
index d28535f..aed1151 100644
--- a/paladin-core/src/channel/coordinated_channel/coordinated_publisher.rs
+++ b/paladin-core/src/channel/coordinated_channel/coordinated_publisher.rs
@@ -60,10 +60,11 @@ where
 
         self.state.num_pending_sends.fetch_add(1, Ordering::SeqCst);
 
-        self.inner
-            .publish(payload)
-            .await
-            .map_err(CoordinatedPublisherError::Inner)?;
+        if let Err(err) = self.inner.publish(payload).await {
+            // Nothing was sent, so there is nothing for the receiver to wait for.
+            self.state.cancel_send();
+            return Err(CoordinatedPublisherError::Inner(err).into());
+        }
 
         Ok(())
     }
diff --git a/paladin-core/src/channel/coordinated_channel/mod.rs b/paladin-core/src/channel/coordinated_channel/mod.rs
index da8d5a3..ef975c2 100644
--- a/paladin-core/src/channel/coordinated_channel/mod.rs
+++ b/paladin-core/src/channel/coordinated_channel/mod.rs
@@ -52,6 +52,13 @@ impl ChannelState {
         // The receiver may be waiting for the channel to close.
         self.receiver.wake();
     }
+
+    /// Discount a send that failed.
+    fn cancel_send(&self) {
+        if self.num_pending_sends.fetch_sub(1, Ordering::SeqCst) == 1 {
+            self.receiver.wake();
+        }
+    }
 }
 
 /// State coordination between two distinct channel pipes (a
-- 
2.43.0


From 3c91e2ae2e19804218374f18153928ee59de16c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:31:43 +0000
Subject: [PATCH 06/13] fix: worker drops the remaining tasks of a job after an
 ignored error

---
 paladin-core/src/runtime/mod.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/paladin-core/src/runtime/mod.rs b/paladin-core/src/runtime/mod.rs
index 6e2b199..c991887 100644
--- a/paladin-core/src/runtime/mod.rs
+++ b/paladin-core/src/runtime/mod.rs
@@ -786,13 +786,17 @@ impl WorkerRuntime {
                         }
                         Err(err) => {
                             error!(routing_key = %routing_key, "execution error: {err:?}");
-                            mark_terminated(&terminated_jobs, routing_key.clone());
+                            let strategy = err.fatal_strategy();
+                            // An ignored error does not affect the remainder of the job.
+                            if let FatalStrategy::Terminate = strategy {
+                                mark_terminated(&terminated_jobs, routing_key.clone());
+                            }
 
                             try_join!(
                                 acker.nack(),
                                 self.dispatch_fatal(ExecutionErr {
                                     routing_key,
-                                    strategy: err.fatal_strategy(),
+                                    strategy,
                                     err,
                                 })
                             )?;
-- 
2.43.0


From bf056b501df127d857a4f8276ea1c0ebf0d583ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:31:43 +0000
Subject: [PATCH 07/13] fix: AMQPConsumer stalls after a message that cannot be
 received or decoded

---
 paladin-core/src/queue/amqp.rs | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/paladin-core/src/queue/amqp.rs b/paladin-core/src/queue/amqp.rs
index df16277..23cab47 100644
--- a/paladin-core/src/queue/amqp.rs
+++ b/paladin-core/src/queue/amqp.rs
@@ -513,25 +513,25 @@ impl<PayloadTarget: Serializable> Stream for AMQPConsumer<PayloadTarget> {
     type Item = (PayloadTarget, AMQPAcker);
 
     fn poll_next(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Self::Item>> {
-        let this = self.project();
-        match this.inner.poll_next(cx) {
-            Poll::Ready(Some(Ok(delivery))) => {
-                let payload = this.serializer.from_bytes(&delivery.data);
-                match payload {
-                    Ok(payload) => Poll::Ready(Some((payload, AMQPAcker { delivery }))),
-                    Err(err) => {
-                        error!("Error deserializing message, error: {err}");
-                        Poll::Pending
+        let mut this = self.project();
+        loop {
+            match this.inner.as_mut().poll_next(cx) {
+                Poll::Ready(Some(Ok(delivery))) => {
+                    let payload = this.serializer.from_bytes(&delivery.data);
+                    match payload {
+                        Ok(payload) => return Poll::Ready(Some((payload, AMQPAcker { delivery }))),
+                        // Move on to the next message. The inner consumer only wakes us once it
+                        // has been polled to `Pending`.
+                        Err(err) => error!("Error deserializing message, error: {err}"),
                     }
                 }
+                Poll::Ready(Some(Err(err))) => {
+                    let err = anyhow::Error::from(err);
+                    error!("Error receiving message, error: {err}",);
+                }
+                Poll::Ready(None) => return Poll::Ready(None),
+                Poll::Pending => return Poll::Pending,
             }
-            Poll::Ready(Some(Err(err))) => {
-                let err = anyhow::Error::from(err);
-                error!("Error receiving message, error: {err}",);
-                Poll::Pending
-            }
-            Poll::Ready(None) => Poll::Ready(None),
-            Poll::Pending => Poll::Pending,
         }
     }
 }
-- 
2.43.0


From 7ea2c519127d8a6edd111b4fbee679d6291bfe46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:35:36 +0000
Subject: [PATCH 08/13] Hooks for the proof harnesses: state of a coordinated
 channel (cfg(verif))

---
 .../src/channel/coordinated_channel/mod.rs    | 28 +++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/paladin-core/src/channel/coordinated_channel/mod.rs b/paladin-core/src/channel/coordinated_channel/mod.rs
index ef975c2..569ac17 100644
--- a/paladin-core/src/channel/coordinated_channel/mod.rs
+++ b/paladin-core/src/channel/coordinated_channel/mod.rs
@@ -83,3 +83,31 @@ pub fn coordinated_channel<A, B, Sender: Publisher<A>, Receiver: Stream<Item = B
 
     (sender, receiver)
 }
+
+/// Access to the shared state for the proof harnesses.
+#[cfg(verif)]
+#[allow(unexpected_cfgs)]
+impl ChannelState {
+    pub fn verif_new(closed: bool, num_pending_sends: usize) -> Self {
+        Self {
+            closed: AtomicBool::new(closed),
+            num_pending_sends: AtomicUsize::new(num_pending_sends),
+            ..Default::default()
+        }
+    }
+
+    pub fn verif_closed(&self) -> bool {
+        unsafe { *self.closed.as_ptr() }
+    }
+
+    pub fn verif_num_pending_sends(&self) -> usize {
+        unsafe { *self.num_pending_sends.as_ptr() }
+    }
+
+    pub fn verif_set(&self, closed: bool, num_pending_sends: usize) {
+        unsafe {
+            *self.closed.as_ptr() = closed;
+            *self.num_pending_sends.as_ptr() = num_pending_sends;
+        }
+    }
+}
-- 
2.43.0


From 38f6b8b8176e3cafa002e98776b02b4680e7ad74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:21 +0000
Subject: [PATCH 09/13] fix: a task executes the operation at its ID's link
 position, not the one with its ID

The linker does not preserve declaration order across codegen units, so with
operations in different modules tasks could execute a different operation.
---
 paladin-core/src/lib.rs          | 19 ++++++++++++-------
 paladin-core/src/task/mod.rs     | 13 +++++++++++--
 paladin-opkind-derive/src/lib.rs | 12 ++++++++++++
 3 files changed, 35 insertions(+), 9 deletions(-)

diff --git a/paladin-core/src/lib.rs b/paladin-core/src/lib.rs
index 449e4c6..d9cfcfb 100644
--- a/paladin-core/src/lib.rs
+++ b/paladin-core/src/lib.rs
@@ -236,13 +236,18 @@ pub mod __private {
     #[doc(hidden)]
     pub use tracing;
 
+    // The ID of every operation and the function that executes it. The linker
+    // determines the order of the entries.
     #[doc(hidden)]
     #[linkme::distributed_slice]
-    pub static OPERATIONS: [fn(
-        crate::task::AnyTask,
-        abort: crate::AbortSignal,
-    ) -> futures::future::BoxFuture<
-        'static,
-        crate::operation::Result<crate::task::AnyTaskOutput>,
-    >];
+    pub static OPERATIONS: [(
+        u8,
+        fn(
+            crate::task::AnyTask,
+            abort: crate::AbortSignal,
+        ) -> futures::future::BoxFuture<
+            'static,
+            crate::operation::Result<crate::task::AnyTaskOutput>,
+        >,
+    )];
 }
diff --git a/paladin-core/src/task/mod.rs b/paladin-core/src/task/mod.rs
index 780f81d..392a56a 100644
--- a/paladin-core/src/task/mod.rs
+++ b/paladin-core/src/task/mod.rs
@@ -12,7 +12,7 @@ use serde::{Deserialize, Serialize};
 
 use crate::{
     __private::OPERATIONS,
-    operation::Operation,
+    operation::{FatalError, FatalStrategy, Operation},
     serializer::{Serializable, Serializer},
     AbortSignal,
 };
@@ -166,6 +166,15 @@ impl AnyTask {
         self,
         abort: AbortSignal,
     ) -> crate::operation::Result<AnyTaskOutput> {
-        OPERATIONS[self.operation_id as usize](self, abort).await
+        let (_, execute) = OPERATIONS
+            .iter()
+            .find(|(id, _)| *id == self.operation_id)
+            .ok_or_else(|| {
+                FatalError::from_str(
+                    &format!("unknown operation ID {}", self.operation_id),
+                    FatalStrategy::Terminate,
+                )
+            })?;
+        execute(self, abort).await
     }
 }
diff --git a/paladin-opkind-derive/src/lib.rs b/paladin-opkind-derive/src/lib.rs
index d0de2ca..747f91f 100644
--- a/paladin-opkind-derive/src/lib.rs
+++ b/paladin-opkind-derive/src/lib.rs
@@ -101,6 +101,7 @@ pub fn operation_derive(input: TokenStream) -> TokenStream {
     let (impl_generics, ty_generics, where_clause) = generics.split_for_impl();
     let operation_id = OPERATION_ID_COUNTER.fetch_add(1, Ordering::SeqCst);
     let function_name = Ident::new(&format!("__execute_{}", operation_id), name.span());
+    let entry_name = Ident::new(&format!("__OPERATION_{}", operation_id), name.span());
 
     let expanded = quote! {
         impl #impl_generics #paladin_path::operation::RemoteExecute for #name #ty_generics #where_clause {
@@ -109,6 +110,17 @@ pub fn operation_derive(input: TokenStream) -> TokenStream {
 
         #[#paladin_path::__private::linkme::distributed_slice(#paladin_path::__private::OPERATIONS)]
         #linkme_path_override
+        static #entry_name: (
+            u8,
+            fn(
+                #paladin_path::task::AnyTask,
+                #paladin_path::AbortSignal,
+            ) -> #paladin_path::__private::futures::future::BoxFuture<
+                'static,
+                #paladin_path::operation::Result<#paladin_path::task::AnyTaskOutput>
+            >,
+        ) = (#operation_id, #function_name);
+
         fn #function_name(task: #paladin_path::task::AnyTask, abort: #paladin_path::AbortSignal,) -> #paladin_path::__private::futures::future::BoxFuture<
             'static,
             #paladin_path::operation::Result<#paladin_path::task::AnyTaskOutput>
-- 
2.43.0


From 862799e77a545a931eb000530bf5877987754626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:20 +0000
Subject: [PATCH 10/13] fix: the last acknowledgement wakes a stale task if the
 receiver has moved

---
 .../src/channel/coordinated_channel/coordinated_stream.rs       | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/paladin-core/src/channel/coordinated_channel/coordinated_stream.rs b/paladin-core/src/channel/coordinated_channel/coordinated_stream.rs
index 6621197..17b12b2 100644
--- a/paladin-core/src/channel/coordinated_channel/coordinated_stream.rs
+++ b/paladin-core/src/channel/coordinated_channel/coordinated_stream.rs
@@ -95,6 +95,8 @@ impl CoordinatedAcker {
 
         if self.state.num_pending_sends.fetch_sub(1, Ordering::SeqCst) == 1 {
             self.waker.wake_by_ref();
+            // Another task may have polled the receiver since the item was yielded.
+            self.state.receiver.wake();
         }
     }
 
-- 
2.43.0


From b5ab89e5e67d207c6a1e9e8e9428cae4f9e31af9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:53 +0000
Subject: [PATCH 11/13] fix: an undecodable message no longer blocks an AMQP
 consumer

It was neither acknowledged nor rejected. Once the prefetch count (1 by
default) was exhausted by such messages, the broker delivered nothing more.
---
 paladin-core/src/queue/amqp.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/paladin-core/src/queue/amqp.rs b/paladin-core/src/queue/amqp.rs
index 23cab47..0dbd637 100644
--- a/paladin-core/src/queue/amqp.rs
+++ b/paladin-core/src/queue/amqp.rs
@@ -522,7 +522,16 @@ impl<PayloadTarget: Serializable> Stream for AMQPConsumer<PayloadTarget> {
                         Ok(payload) => return Poll::Ready(Some((payload, AMQPAcker { delivery }))),
                         // Move on to the next message. The inner consumer only wakes us once it
                         // has been polled to `Pending`.
-                        Err(err) => error!("Error deserializing message, error: {err}"),
+                        Err(err) => {
+                            error!("Error deserializing message, error: {err}");
+                            // Reject the message. Otherwise it remains unacknowledged, and once as
+                            // many as the prefetch count allows do, nothing more is delivered.
+                            tokio::spawn(async move {
+                                if let Err(err) = delivery.nack(Default::default()).await {
+                                    error!("Error rejecting message, error: {err}");
+                                }
+                            });
+                        }
                     }
                 }
                 Poll::Ready(Some(Err(err))) => {
-- 
2.43.0


From 13d4f76d23122232d0da751f52406ea921dd1966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:53 +0000
Subject: [PATCH 12/13] Hooks for the proof harnesses: AMQP queue handle and
 consumer (cfg(verif))

---
 paladin-core/src/queue/amqp.rs | 33 +++++++++++++++++++++++++++++++++
 1 file changed, 33 insertions(+)

diff --git a/paladin-core/src/queue/amqp.rs b/paladin-core/src/queue/amqp.rs
index 0dbd637..e467abe 100644
--- a/paladin-core/src/queue/amqp.rs
+++ b/paladin-core/src/queue/amqp.rs
@@ -561,3 +561,36 @@ impl Acker for AMQPAcker {
         Ok(self.delivery.nack(Default::default()).await?)
     }
 }
+
+/// Access to private items for the proof harnesses.
+#[cfg(verif)]
+#[allow(unexpected_cfgs)]
+mod verif {
+    use super::*;
+
+    impl AMQPQueueHandle {
+        pub fn verif_new(
+            channel: lapin::Channel,
+            name: String,
+            serializer: Serializer,
+            options: QueueOptions,
+        ) -> Self {
+            Self {
+                channel,
+                name,
+                serializer,
+                options,
+            }
+        }
+    }
+
+    impl<PayloadTarget> AMQPConsumer<PayloadTarget> {
+        pub fn verif_new(inner: lapin::Consumer, serializer: Serializer) -> Self {
+            Self {
+                inner,
+                serializer,
+                _phantom: std::marker::PhantomData,
+            }
+        }
+    }
+}
-- 
2.43.0


From ed6e07c90a9096faed05cc58011aa37a5bd7c54a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:02 +0000
Subject: [PATCH 13/13] Hooks for the proof harnesses: contracts of a runtime's
 channels (cfg(verif))

---
 paladin-core/src/channel/queue.rs           |  8 ++++++++
 paladin-core/src/runtime/dynamic_channel.rs | 19 +++++++++++++++++++
 paladin-core/src/runtime/mod.rs             | 21 +++++++++++++++++++++
 3 files changed, 48 insertions(+)

diff --git a/paladin-core/src/channel/queue.rs b/paladin-core/src/channel/queue.rs
index 6afdf1a..60dc3e8 100644
--- a/paladin-core/src/channel/queue.rs
+++ b/paladin-core/src/channel/queue.rs
@@ -219,3 +219,11 @@ where
         ))
     }
 }
+
+#[cfg(verif)]
+#[allow(unexpected_cfgs)]
+impl<Conn> QueueChannel<Conn> {
+    pub fn verif_channel(&self) -> (&str, ChannelType) {
+        (&self.identifier, self.channel_type)
+    }
+}
diff --git a/paladin-core/src/runtime/dynamic_channel.rs b/paladin-core/src/runtime/dynamic_channel.rs
index ad649ff..7679f42 100644
--- a/paladin-core/src/runtime/dynamic_channel.rs
+++ b/paladin-core/src/runtime/dynamic_channel.rs
@@ -52,6 +52,10 @@ impl Channel for DynamicChannel {
     }
 
     async fn sender<'a, T: Serializable + 'a>(&self) -> Result<Self::Sender<'a, T>> {
+        #[cfg(verif)]
+        if super::verif::channel_contracts() {
+            return super::verif::sender_contract(self);
+        }
         match self {
             Self::Amqp(channel) => Ok(Box::new(channel.sender().await?)),
             Self::InMemory(channel) => Ok(Box::new(channel.sender().await?)),
@@ -59,6 +63,10 @@ impl Channel for DynamicChannel {
     }
 
     async fn receiver<'a, T: Serializable + 'a>(&self) -> Result<Self::Receiver<'a, T>> {
+        #[cfg(verif)]
+        if super::verif::channel_contracts() {
+            return super::verif::receiver_contract(self);
+        }
         match self {
             Self::Amqp(channel) => {
                 Ok(Box::new(channel.receiver().await?.map(
@@ -144,3 +152,14 @@ impl DynamicChannelFactory {
         }
     }
 }
+
+#[cfg(verif)]
+#[allow(unexpected_cfgs)]
+impl DynamicChannel {
+    pub fn verif_channel(&self) -> (&str, ChannelType) {
+        match self {
+            Self::Amqp(channel) => channel.verif_channel(),
+            Self::InMemory(channel) => channel.verif_channel(),
+        }
+    }
+}
diff --git a/paladin-core/src/runtime/mod.rs b/paladin-core/src/runtime/mod.rs
index c991887..cd74233 100644
--- a/paladin-core/src/runtime/mod.rs
+++ b/paladin-core/src/runtime/mod.rs
@@ -839,6 +839,27 @@ pub mod verif {
         None
     }
 
+    /// Whether a proof harness replaces the senders and receivers of channels by
+    /// the two contracts below.
+    #[inline(never)]
+    pub fn channel_contracts() -> bool {
+        false
+    }
+
+    #[inline(never)]
+    pub fn sender_contract<'a, T: Serializable + 'a>(
+        _channel: &DynamicChannel,
+    ) -> Result<Sender<'a, T>> {
+        unreachable!()
+    }
+
+    #[inline(never)]
+    pub fn receiver_contract<'a, T: Serializable + 'a>(
+        _channel: &DynamicChannel,
+    ) -> Result<Receiver<'a, T>> {
+        unreachable!()
+    }
+
     impl Runtime {
         /// A runtime without emulated workers.
         pub fn verif_new(
-- 
2.43.0

