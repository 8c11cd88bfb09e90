From 1e67eea12f3a23cb91068e25f99003d16eb81671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:41 +0000
Subject: [PATCH 01/10] verif hook: cfg(dam_sim)/cfg(dam_sim_dram) seams for
 the deterministic simulator (off by default)

---
 src/lib.rs            |  7 +++++++
 src/templates/dram.rs | 45 +++++++++++++++++++++++++++++++++++++++++++
 2 files changed, 52 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 83a5051..93153f4 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1,10 +1,17 @@
 #![warn(missing_docs)]
+#![allow(unexpected_cfgs)] // cfg(dam_sim): see below
 // #![cfg_attr(docsrs, cfg(feature = "doc_cfg"))]
 
 //! The Dataflow Abstract Machine is a simulation framework designed for simulating dataflow-like systems.
 //! In particular, DAM optimizes for complex nodes connected by statically known channels.
 //! For more details, see (paper not yet published).
 
+// Deterministic simulation: with `--cfg dam_sim`, threads, locks, atomics, clocks and thread-locals come from
+// a facade whose scheduler is seeded. Without it, this crate is built against the standard library as ever.
+#[cfg(dam_sim)]
+#[macro_use]
+extern crate dam_sim_std as std;
+
 pub mod channel;
 pub mod context;
 mod datastructures;
diff --git a/src/templates/dram.rs b/src/templates/dram.rs
index 8cc57b4..e527a7d 100644
--- a/src/templates/dram.rs
+++ b/src/templates/dram.rs
@@ -289,6 +289,51 @@ impl<IType: IndexLike, T: DAMType, AT: DAMType> Context for DRAM<IType, T, AT> {
     }
 }
 
+/// Constructors for the simulation harness, which lives outside of this crate.
+#[cfg(dam_sim_dram)]
+#[doc(hidden)]
+pub mod sim_hooks {
+    use super::*;
+
+    #[allow(missing_docs)]
+    pub fn config(requests: usize, bandwidth: usize, latency: u64, capacity: usize) -> DRAMConfig {
+        DRAMConfig {
+            num_simultaneous_requests: requests,
+            bandwidth_in_bits: bandwidth,
+            latency: Time::new(latency),
+            capacity,
+        }
+    }
+
+    #[allow(missing_docs)]
+    pub fn read_bundle<IT: Clone, DT: Clone>(
+        addr: Receiver<IT>,
+        req_size: Receiver<IT>,
+        data: Sender<DT>,
+    ) -> DRAMReadBundle<IT, DT> {
+        DRAMReadBundle {
+            addr,
+            req_size,
+            data,
+        }
+    }
+
+    #[allow(missing_docs)]
+    pub fn write_bundle<IT: DAMType, DT: DAMType, AT: Clone>(
+        addr: Receiver<IT>,
+        request_size: Receiver<IT>,
+        data: Receiver<DT>,
+        ack: Sender<AT>,
+    ) -> DRAMWriteBundle<IT, DT, AT> {
+        DRAMWriteBundle {
+            addr,
+            request_size,
+            data,
+            ack,
+        }
+    }
+}
+
 #[cfg(test)]
 pub mod tests {
 
-- 
2.43.0


From 40296bb5474995b7b852f4b04cc8539e127856be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:33 +0000
Subject: [PATCH 02/10] fix: acyclic bounded sender consumes a response without
 releasing the slot

wait_until_available() took a response off the channel without lowering the
send/receive delta. A caller which waits explicitly before enqueueing (such as
BroadcastContext) then had enqueue() wait for a second response for the same
slot, losing one slot of capacity per wait and eventually deadlocking.
---
 src/channel/sender/bounded.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/channel/sender/bounded.rs b/src/channel/sender/bounded.rs
index fb39409..10aecc2 100644
--- a/src/channel/sender/bounded.rs
+++ b/src/channel/sender/bounded.rs
@@ -35,6 +35,8 @@ impl<T> BoundedProvider for BoundedAcyclicSender<T> {
         match self.bound.resp.recv() {
             Ok(time) => {
                 manager.advance(time);
+                // The slot has been given back, so a later call mustn't wait for it again.
+                self.bound.send_receive_delta -= 1;
                 Ok(())
             }
             Err(_) => Err(EnqueueError::Closed),
-- 
2.43.0


From b4b484b16d28b33fdaf9de0091c89d495c419dfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:33 +0000
Subject: [PATCH 03/10] fix: acyclic peek_next returns a previously peeked
 element without advancing

When peek() had already fetched the head, peek_next() returned an element from
the receiver's future while leaving the clock untouched, unlike every other
flavor and unlike the same call without the preceding peek().
---
 src/channel/receiver/acyclic.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/channel/receiver/acyclic.rs b/src/channel/receiver/acyclic.rs
index 577e4cd..0e94bc5 100644
--- a/src/channel/receiver/acyclic.rs
+++ b/src/channel/receiver/acyclic.rs
@@ -10,7 +10,11 @@ pub(super) trait AcyclicReceiver<T: Clone>: ReceiverCommon<T> {
         match &self.data().head {
             Some(PeekResult::Closed) => return Err(DequeueError::Closed),
             None | Some(PeekResult::Nothing(_)) => {}
-            Some(PeekResult::Something(data)) => return Ok(data.clone()),
+            Some(PeekResult::Something(data)) => {
+                let data = data.clone();
+                manager.advance(data.time);
+                return Ok(data);
+            }
         }
 
         self.data().head = match self.data().underlying.recv() {
-- 
2.43.0


From 29159994bd61a7cea446be06cb7e5381eb284f47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:33 +0000
Subject: [PATCH 04/10] fix: EventAll reports Ready while one of its members
 isn't

Taking the maximum of [Ready(10), Nothing(3)] yields Ready(10), although the
second member may only become ready at any time after 3, or never. The same
shortcut in the DRAM bundles and in the PMU's writer let them consume a
request (and stamp it) depending on how far the producing thread happened to
have come.
---
 src/channel/utils.rs  | 14 ++++++++++++--
 src/templates/dram.rs | 12 +++++-------
 src/templates/pmu.rs  |  7 ++++---
 3 files changed, 21 insertions(+), 12 deletions(-)

diff --git a/src/channel/utils.rs b/src/channel/utils.rs
index 53fb445..d0c8cc5 100644
--- a/src/channel/utils.rs
+++ b/src/channel/utils.rs
@@ -72,8 +72,18 @@ where
     T: Peekable,
 {
     fn next_event(self) -> EventTime {
-        let events = self.under.map(|thing| thing.next_event());
-        events.max().unwrap_or(EventTime::Closed)
+        // The latest event decides, but only counts as ready if every other event is.
+        let mut latest = None;
+        let mut all_ready = true;
+        for event in self.under.map(|thing| thing.next_event()) {
+            all_ready &= matches!(event, EventTime::Ready(_));
+            latest = latest.max(Some(event));
+        }
+        match latest {
+            None => EventTime::Closed,
+            Some(EventTime::Ready(time)) if !all_ready => EventTime::Nothing(time - 1),
+            Some(event) => event,
+        }
     }
 }
 
diff --git a/src/templates/dram.rs b/src/templates/dram.rs
index e527a7d..4b97318 100644
--- a/src/templates/dram.rs
+++ b/src/templates/dram.rs
@@ -3,7 +3,7 @@ use std::collections::VecDeque;
 
 use crate::{
     channel::{
-        utils::{EventTime, Peekable},
+        utils::{EventCollection, EventTime, Peekable},
         ChannelElement, Receiver, Sender,
     },
     context::Context,
@@ -34,9 +34,8 @@ pub struct DRAMReadBundle<IT: Clone, DT: Clone> {
 impl<IT: DAMType, DT: Clone> Peekable for &DRAMReadBundle<IT, DT> {
     fn next_event(self) -> crate::channel::utils::EventTime {
         [self.addr.next_event(), self.req_size.next_event()]
-            .into_iter()
-            .max()
-            .unwrap()
+            .all_events()
+            .next_event()
     }
 }
 
@@ -55,9 +54,8 @@ impl<IT: DAMType, DT: DAMType, AT: Clone> Peekable for &DRAMWriteBundle<IT, DT,
             self.data.next_event(),
             self.request_size.next_event(),
         ]
-        .into_iter()
-        .max()
-        .unwrap()
+        .all_events()
+        .next_event()
     }
 }
 
diff --git a/src/templates/pmu.rs b/src/templates/pmu.rs
index c7776c1..53c8367 100644
--- a/src/templates/pmu.rs
+++ b/src/templates/pmu.rs
@@ -2,14 +2,13 @@
 //! Unlike the original PMU, this does not support processing within the pipeline, and so all values must be pre-computed before being sent here.
 
 use std::{
-    cmp::max,
     collections::{HashMap, HashSet},
     sync::Arc,
 };
 
 use crate::{
     channel::{
-        utils::{EventTime, Peekable},
+        utils::{EventCollection, EventTime, Peekable},
         ChannelID,
     },
     context::{self, Context, ContextSummary, ExplicitConnections, ProxyContext},
@@ -282,7 +281,9 @@ impl<T: DAMType, IT: IndexLike, AT: DAMType> Context for WritePipeline<T, IT, AT
                 .writers
                 .iter_mut()
                 .map(|writer: &mut PMUWriteBundle<T, IT, AT>| {
-                    max(writer.addr.next_event(), writer.data.next_event())
+                    [writer.addr.next_event(), writer.data.next_event()]
+                        .all_events()
+                        .next_event()
                 })
                 .collect();
             let next_event = next_events
-- 
2.43.0


From 3cbbd39236fdbcdb2279524245ba183818c01064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:33 +0000
Subject: [PATCH 05/10] fix: Datastore::read returns the latest write when all
 writes are in the future

A read from before the first write of an address fell into the same arm as a
read from after the last one, and returned a value of the future.
---
 src/templates/datastore.rs | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/templates/datastore.rs b/src/templates/datastore.rs
index 3c221e7..14ac6f5 100644
--- a/src/templates/datastore.rs
+++ b/src/templates/datastore.rs
@@ -75,19 +75,19 @@ impl<T: DAMType> Datastore<T> {
         let reader = history.read().unwrap();
         // next_pos holds the location of the first element after the read time.
         let next_pos = reader.iter().position(|elem| elem.time > time);
-        match next_pos {
-            Some(0) | None => match reader.last() {
-                None => {
-                    if self.behavior.use_default_value {
-                        T::default()
-                    } else {
-                        panic!("Attempting to read a value before anything was written!")
-                    }
+        let visible = match next_pos {
+            Some(x) => x.checked_sub(1).and_then(|prev| reader.get(prev)),
+            None => reader.last(),
+        };
+        match visible {
+            None => {
+                if self.behavior.use_default_value {
+                    T::default()
+                } else {
+                    panic!("Attempting to read a value before anything was written!")
                 }
-                Some(last_val) => last_val.data.clone(),
-            },
-
-            Some(x) => reader.get(x - 1).unwrap().data.clone(),
+            }
+            Some(value) => value.data.clone(),
         }
     }
 }
-- 
2.43.0


From 7f4d4dc68e14356262b288d59ba28bd98a7ceb2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:33 +0000
Subject: [PATCH 06/10] fix: TraceContext panics on an element with timestamp 0

---
 src/utility_contexts/trace_context.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/utility_contexts/trace_context.rs b/src/utility_contexts/trace_context.rs
index 318a30e..2a11daa 100644
--- a/src/utility_contexts/trace_context.rs
+++ b/src/utility_contexts/trace_context.rs
@@ -27,7 +27,10 @@ where
     fn run_falliable(&mut self) -> anyhow::Result<()> {
         if let Some(func) = self.iterator.take() {
             for (data, time) in (func)() {
-                self.time.advance(time.into() - 1);
+                let time: Time = time.into();
+                if time > Time::new(0) {
+                    self.time.advance(time - 1);
+                }
                 self.output
                     .enqueue(&self.time, ChannelElement::new(self.time.tick() + 1, data))?;
                 // Don't need an incr_cycles in case the generator wants to emit multiple values on the same cycle.
-- 
2.43.0


From 9504069faef92b4aa3c4931dbd81f5c906006034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:47 +0000
Subject: [PATCH 07/10] fix: PMU reports only its last bundle's edges to flavor
 inference

Each bundle's insert() replaced the previous bundle's connections, the
connections between bundles served by the same pipeline were missing, and so
was the readers' dependence on the writer. Inference then took channels on a
cycle for acyclic ones and the program deadlocked.
---
 src/templates/pmu.rs | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/src/templates/pmu.rs b/src/templates/pmu.rs
index 53c8367..c7a68c2 100644
--- a/src/templates/pmu.rs
+++ b/src/templates/pmu.rs
@@ -76,15 +76,25 @@ impl<T: DAMType, IT: IndexLike, AT: DAMType> Context for PMU<T, IT, AT> {
     fn edge_connections(&self) -> Option<ExplicitConnections> {
         let mut result =
             HashMap::<Identifier, Vec<(HashSet<ChannelID>, HashSet<ChannelID>)>>::new();
-        for bundle in &self.reader.readers {
-            let srcs = [bundle.addr.id()];
-            let dsts = [bundle.resp.id()];
-            result.insert(self.reader.id(), vec![(srcs.into(), dsts.into())]);
+        let writers = &self.writer.writers;
+        let write_srcs: HashSet<_> = writers
+            .iter()
+            .flat_map(|bundle| [bundle.addr.id(), bundle.data.id()])
+            .collect();
+        if !writers.is_empty() {
+            let dsts = writers.iter().map(|bundle| bundle.ack.id()).collect();
+            result.insert(self.writer.id(), vec![(write_srcs.clone(), dsts)]);
         }
-        for bundle in &self.writer.writers {
-            let srcs = [bundle.addr.id(), bundle.data.id()];
-            let dsts = [bundle.ack.id()];
-            result.insert(self.writer.id(), vec![(srcs.into(), dsts.into())]);
+
+        // Readers wait for the writer to catch up, so they depend on its inputs as well.
+        let readers = &self.reader.readers;
+        if !readers.is_empty() {
+            let srcs = readers.iter().map(|bundle| bundle.addr.id());
+            let dsts = readers.iter().map(|bundle| bundle.resp.id()).collect();
+            result.insert(
+                self.reader.id(),
+                vec![(srcs.chain(write_srcs).collect(), dsts)],
+            );
         }
         Some(result)
     }
-- 
2.43.0


From d50813b633ea47758f5fb9ab50199109e606efe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:47 +0000
Subject: [PATCH 08/10] fix: PMU read races with a write in the same cycle

The reader only waited for the writer to reach the cycle of the read, so
whether it saw a write of that very cycle depended on thread scheduling. Wait
until the writer is past it: such a write is always visible.
---
 src/templates/pmu.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/templates/pmu.rs b/src/templates/pmu.rs
index c7a68c2..3064def 100644
--- a/src/templates/pmu.rs
+++ b/src/templates/pmu.rs
@@ -211,7 +211,7 @@ where
         self.writer_view
             .as_ref()
             .unwrap()
-            .wait_until(self.time.tick())
+            .wait_until(self.time.tick() + 1)
     }
 }
 
-- 
2.43.0


From ccfc432bda2e3a17d7b325fef4f85cc8b39ffe5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:20 +0000
Subject: [PATCH 09/10] fix: a panic in a PMU pipeline hangs the rest of the
 program

The pipelines released their channels and clock only when they succeeded. When
one panicked, or its thread could not be spawned, the contexts waiting for it
(including its sibling) and thereby the whole run never finished.
---
 src/templates/pmu.rs | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/src/templates/pmu.rs b/src/templates/pmu.rs
index 3064def..80aec7d 100644
--- a/src/templates/pmu.rs
+++ b/src/templates/pmu.rs
@@ -31,6 +31,15 @@ pub struct PMU<T: DAMType, IT: IndexLike, AT: DAMType> {
     identifier: Identifier,
 }
 
+/// Releases a pipeline's channels and clock in any case, also if it panics or can't be started at all.
+struct CleanupGuard<'a, C: Context>(&'a mut ProxyContext<C>);
+
+impl<C: Context> Drop for CleanupGuard<'_, C> {
+    fn drop(&mut self) {
+        self.0.cleanup();
+    }
+}
+
 impl<T: DAMType, IT: IndexLike, AT: DAMType> Context for PMU<T, IT, AT> {
     fn init(&mut self) {
         self.reader.init();
@@ -40,23 +49,25 @@ impl<T: DAMType, IT: IndexLike, AT: DAMType> Context for PMU<T, IT, AT> {
     fn run(&mut self) {
         let read_log = copy_log();
         let write_log = copy_log();
+        let reader = CleanupGuard(&mut self.reader);
+        let writer = CleanupGuard(&mut self.writer);
         crate::shim::scope(|s| {
-            crate::shim::spawn!(s, || {
+            crate::shim::spawn!(s, move || {
+                let mut reader = reader;
                 if let Some(mut logger) = read_log {
-                    logger.id = self.reader.id();
+                    logger.id = reader.0.id();
                     initialize_log(logger);
                 }
-                self.reader.run();
-                self.reader.cleanup();
+                reader.0.run();
             })
             .unwrap();
-            crate::shim::spawn!(s, || {
+            crate::shim::spawn!(s, move || {
+                let mut writer = writer;
                 if let Some(mut logger) = write_log {
-                    logger.id = self.writer.id();
+                    logger.id = writer.0.id();
                     initialize_log(logger);
                 }
-                self.writer.run();
-                self.writer.cleanup();
+                writer.0.run();
             })
             .unwrap();
         });
-- 
2.43.0


From 189c69cf9ac0ef2d940be60afd0829921739aa84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:28:54 +0000
Subject: [PATCH 10/10] fix: a receiver that has finished closes a full channel
 for its sender

wait_until_available in a cyclic channel went on to check back at the end of
time when the receiver's context had finished while its end of the channel
was still around: the sender's clock became infinite, and it spun until the
receiver was dropped.
---
 src/channel/sender/bounded.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/channel/sender/bounded.rs b/src/channel/sender/bounded.rs
index 10aecc2..389a854 100644
--- a/src/channel/sender/bounded.rs
+++ b/src/channel/sender/bounded.rs
@@ -141,9 +141,12 @@ impl<T> BoundedProvider for BoundedCyclicSender<T> {
             // Forces the resp channel to synchronize w.r.t. the signal.
 
             if !self.update_srd() {
-                self.next_available = Some(SendOptions::CheckBackAt(
-                    new_time + self.data.spec.response_latency,
-                ));
+                self.next_available = Some(if new_time.is_infinite() {
+                    // The receiver has finished, even if its end of the channel is still around.
+                    SendOptions::Never
+                } else {
+                    SendOptions::CheckBackAt(new_time + self.data.spec.response_latency)
+                });
             }
         }
     }
-- 
2.43.0

