From 0bf0d72769f9985b790d65413c3703d36882110f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:10 +0000
Subject: [PATCH 01/28] fix: keep chunk_size and trace carrier when a
 submission completes or fails

---
 opsqueue/src/common/submission.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/opsqueue/src/common/submission.rs b/opsqueue/src/common/submission.rs
index c36efe0..a87b7eb 100644
--- a/opsqueue/src/common/submission.rs
+++ b/opsqueue/src/common/submission.rs
@@ -943,8 +943,8 @@ pub mod db {
     SAVEPOINT complete_submission_raw;
 
     INSERT INTO submissions_completed
-    (id, chunks_total, prefix, metadata, completed_at)
-    SELECT id, chunks_total, prefix, metadata, julianday($1) FROM submissions WHERE id = $2;
+    (id, chunks_total, prefix, metadata, completed_at, otel_trace_carrier, chunk_size)
+    SELECT id, chunks_total, prefix, metadata, julianday($1), otel_trace_carrier, chunk_size FROM submissions WHERE id = $2;
 
     DELETE FROM submissions WHERE id = $3 RETURNING *;
 
@@ -979,8 +979,8 @@ pub mod db {
         query!(
             "
     INSERT INTO submissions_failed
-    (id, chunks_total, chunks_done, prefix, metadata, failed_at, failed_chunk_id)
-    SELECT id, chunks_total, chunks_done, prefix, metadata, julianday($1), $2 FROM submissions WHERE id = $3;
+    (id, chunks_total, chunks_done, prefix, metadata, failed_at, failed_chunk_id, otel_trace_carrier, chunk_size)
+    SELECT id, chunks_total, chunks_done, prefix, metadata, julianday($1), $2, otel_trace_carrier, chunk_size FROM submissions WHERE id = $3;
 
     DELETE FROM submissions WHERE id = $4 RETURNING *;
     ",
-- 
2.43.0


From 60fd21042307a8bf04ccb09764e27510839e2a89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:10 +0000
Subject: [PATCH 02/28] fix: find cancelled submissions when looking up a
 submission by prefix

---
 opsqueue/src/common/submission.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/opsqueue/src/common/submission.rs b/opsqueue/src/common/submission.rs
index a87b7eb..f0ea664 100644
--- a/opsqueue/src/common/submission.rs
+++ b/opsqueue/src/common/submission.rs
@@ -583,6 +583,8 @@ pub mod db {
             SELECT id AS "id: SubmissionId" FROM submissions_completed WHERE prefix = $1
             UNION ALL
             SELECT id AS "id: SubmissionId" FROM submissions_failed WHERE prefix = $1
+            UNION ALL
+            SELECT id AS "id: SubmissionId" FROM submissions_cancelled WHERE prefix = $1
             "#,
             prefix
         )
-- 
2.43.0


From 145369d7ce81854d876e9f24a76e6a3bc00fc968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:26 +0000
Subject: [PATCH 03/28] fix: report a chunk completion that was rolled back as
 an error

---
 opsqueue/src/common/chunk.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/opsqueue/src/common/chunk.rs b/opsqueue/src/common/chunk.rs
index 6a25619..48290dd 100644
--- a/opsqueue/src/common/chunk.rs
+++ b/opsqueue/src/common/chunk.rs
@@ -314,8 +314,8 @@ pub mod db {
         output_content: Option<Vec<u8>>,
         mut conn: impl WriterConnection,
     ) -> Result<(), E<DatabaseError, E<SubmissionNotFound, ChunkNotFound>>> {
-        let _chunk_size: Result<ChunkSize, E<DatabaseError, E<SubmissionNotFound, ChunkNotFound>>> =
-            conn.transaction(move |mut tx| {
+        let res: Result<ChunkSize, E<DatabaseError, E<SubmissionNotFound, ChunkNotFound>>> = conn
+            .transaction(move |mut tx| {
                 Box::pin(async move {
                     let completed_work =
                         complete_chunk_raw(chunk_id, output_content, &mut tx).await?;
@@ -332,6 +332,7 @@ pub mod db {
                 })
             })
             .await;
+        res?;
 
         counter!(crate::prometheus::CHUNKS_COMPLETED_COUNTER).increment(1);
         Ok(())
-- 
2.43.0


From 6fc6f5c1bbe4a2b0f66fe71a304500ac270ab0e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:50 +0000
Subject: [PATCH 04/28] fix: insert and complete an empty submission in one
 transaction

---
 opsqueue/src/common/submission.rs | 50 ++++++++++++++++++-------------
 1 file changed, 29 insertions(+), 21 deletions(-)

diff --git a/opsqueue/src/common/submission.rs b/opsqueue/src/common/submission.rs
index f0ea664..6ddf985 100644
--- a/opsqueue/src/common/submission.rs
+++ b/opsqueue/src/common/submission.rs
@@ -471,28 +471,36 @@ pub mod db {
                 Chunk::new(submission_id, chunk_index.try_into().unwrap(), uri)
             })
             .collect();
-        insert_submission(submission, iter, &mut conn).await?;
-        // Empty submissions get special handling: we mark them as completed right away.
-        // See https://github.com/channable/opsqueue/issues/86 for rationale.
-        if len == 0 {
-            match maybe_complete_submission(submission_id, conn).await {
-                // Forward our database errors to the caller.
-                Err(E::L(e)) => return Err(e),
-                // If the submission ID can't be found, that's too bad, but it's not our problem anymore i guess.
-                Err(E::R(_)) => {
-                    tracing::warn!(%submission_id, "Presumed zero-length submission not found");
-                }
-                // If everything went OK, this *could* still indicate a bug in producer code, so let's just log it.
-                // Our future selves might thank us.
-                Ok(true) => {
-                    tracing::debug!(%submission_id, "Zero-length submission marked as completed");
-                }
-                // This should never happen. If it does, better log it.
-                Ok(false) => {
-                    tracing::warn!(%submission_id, "Zero-length submission wasn't zero-length?!");
+        // Insertion and the immediate completion of empty submissions have to happen atomically:
+        // nothing would ever complete an empty submission if we crashed in between the two.
+        conn.transaction(move |mut tx| {
+            Box::pin(async move {
+                insert_submission(submission, iter, &mut tx).await?;
+                // Empty submissions get special handling: we mark them as completed right away.
+                // See https://github.com/channable/opsqueue/issues/86 for rationale.
+                if len == 0 {
+                    match maybe_complete_submission(submission_id, &mut tx).await {
+                        // Forward our database errors to the caller.
+                        Err(E::L(e)) => return Err(e),
+                        // If the submission ID can't be found, that's too bad, but it's not our problem anymore i guess.
+                        Err(E::R(_)) => {
+                            tracing::warn!(%submission_id, "Presumed zero-length submission not found");
+                        }
+                        // If everything went OK, this *could* still indicate a bug in producer code, so let's just log it.
+                        // Our future selves might thank us.
+                        Ok(true) => {
+                            tracing::debug!(%submission_id, "Zero-length submission marked as completed");
+                        }
+                        // This should never happen. If it does, better log it.
+                        Ok(false) => {
+                            tracing::warn!(%submission_id, "Zero-length submission wasn't zero-length?!");
+                        }
+                    }
                 }
-            }
-        }
+                Ok(())
+            })
+        })
+        .await?;
         Ok(submission_id)
     }
 
-- 
2.43.0


From 18bf51aa0de151d2431bee67ad3eb4f2a4e3d9ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:54 +0000
Subject: [PATCH 05/28] fix: skip a chunk whose submission ended while it was
 being reserved

Reserving panicked (and so dropped the consumer's connection, and left the
chunk reserved) when a submission was cancelled, failed or completed between
reading one of its chunks and looking up the submission.
---
 opsqueue/src/consumer/dispatcher/mod.rs | 33 +++++++++++++++----------
 1 file changed, 20 insertions(+), 13 deletions(-)

diff --git a/opsqueue/src/consumer/dispatcher/mod.rs b/opsqueue/src/consumer/dispatcher/mod.rs
index ce3e9a2..cec873a 100644
--- a/opsqueue/src/consumer/dispatcher/mod.rs
+++ b/opsqueue/src/consumer/dispatcher/mod.rs
@@ -4,6 +4,7 @@ pub mod reserver;
 use crate::{
     common::{
         chunk::{Chunk, ChunkId, ChunkIndex},
+        errors::{DatabaseError, E, SubmissionNotFound},
         submission::{Submission, SubmissionId},
     },
     db::{Connection, Pool, ReaderPool, magic::Bool},
@@ -227,7 +228,7 @@ impl Dispatcher {
             .try_filter_map(|chunk| {
                 futures::future::ready(Ok(self.reserve_chunk(chunk, stale_chunks_notifier)))
             })
-            .and_then(|chunk| self.join_chunk_with_submission_info(chunk, pool))
+            .try_filter_map(|chunk| self.join_chunk_with_submission_info(chunk, pool))
             .take(limit)
             .try_collect()
             .await
@@ -303,24 +304,30 @@ impl Dispatcher {
             .map(|_| chunk)
     }
 
+    /// Returns `None` (and gives up the reservation) if the submission is no longer in progress:
+    /// it might have ended, e.g. by being cancelled, since the chunk was read.
     async fn join_chunk_with_submission_info(
         &self,
         chunk: Chunk,
         pool: &Pool<impl Bool>,
-    ) -> Result<(Chunk, Submission), sqlx::Error> {
+    ) -> Result<Option<(Chunk, Submission)>, sqlx::Error> {
+        let chunk_id = ChunkId::from((chunk.submission_id, chunk.chunk_index));
         let mut conn = pool.acquire().await?;
         let submission =
-            crate::common::submission::db::get_submission(chunk.submission_id, &mut conn)
-                .await
-                .expect("get_submission while reserving failed");
-        let metadata = crate::common::submission::db::get_submission_strategic_metadata(
-            chunk.submission_id,
-            &mut conn,
-        )
-        .await
-        .expect("get_submission_strategic_metadata while reserving failed");
-        self.insert_metadata(&metadata);
-        Ok((chunk, submission))
+            crate::common::submission::db::get_submission(chunk.submission_id, &mut conn).await;
+        match submission {
+            Ok(submission) => {
+                self.insert_metadata(&submission.strategic_metadata);
+                Ok(Some((chunk, submission)))
+            }
+            Err(err) => {
+                self.reserver.finish_reservation_sync(&chunk_id);
+                match err {
+                    E::L(DatabaseError(err)) => Err(err),
+                    E::R(SubmissionNotFound(_)) => Ok(None),
+                }
+            }
+        }
     }
 
     pub fn finish_reservations_sync<'a>(&self, reservations: impl Iterator<Item = &'a ChunkId>) {
-- 
2.43.0


From 82253da4c862da655ea7508a8a0b4496fbc7624d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:31:24 +0000
Subject: [PATCH 06/28] fix: wake up waiting consumers when a chunk is
 released, and never miss a wake-up

A consumer waiting for work was only woken by new submissions, and not if the
submission was inserted between looking for work and starting to wait. Chunks
that were retried, expired, or returned by a disconnecting consumer stayed
unclaimed until the next submission.
---
 opsqueue/src/consumer/dispatcher/reserver.rs | 24 ++++++++++++++++----
 opsqueue/src/consumer/server/conn.rs         | 12 +++++++---
 opsqueue/src/consumer/server/state.rs        |  7 ++++++
 3 files changed, 35 insertions(+), 8 deletions(-)

diff --git a/opsqueue/src/consumer/dispatcher/reserver.rs b/opsqueue/src/consumer/dispatcher/reserver.rs
index 91b93e6..359df9c 100644
--- a/opsqueue/src/consumer/dispatcher/reserver.rs
+++ b/opsqueue/src/consumer/dispatcher/reserver.rs
@@ -8,7 +8,7 @@ use std::{
 use axum_prometheus::metrics::{counter, gauge};
 use moka::{notification::RemovalCause, sync::Cache};
 use rustc_hash::FxBuildHasher;
-use tokio::sync::Mutex;
+use tokio::sync::{Mutex, Notify};
 use tokio::sync::mpsc::UnboundedSender;
 use tokio_util::sync::CancellationToken;
 use tokio_util::time::DelayQueue;
@@ -17,6 +17,8 @@ use tokio_util::time::DelayQueue;
 pub struct Reserver<K, V> {
     reservations: Cache<K, (V, UnboundedSender<V>, Instant), FxBuildHasher>,
     pending_removals: Arc<Mutex<DelayQueue<K>>>,
+    // Notified whenever a key becomes available for reservation again
+    released: Arc<Notify>,
 }
 
 impl<K, V> core::fmt::Debug for Reserver<K, V>
@@ -39,14 +41,17 @@ where
 {
     #[must_use]
     pub fn new(reservation_expiration: Duration) -> Self {
+        let released = Arc::new(Notify::new());
+        let notify_expired = released.clone();
         let reservations = Cache::builder()
             .time_to_live(reservation_expiration)
-            .eviction_listener(|_key, val: (V, UnboundedSender<V>, _), cause| {
+            .eviction_listener(move |_key, val: (V, UnboundedSender<V>, _), cause| {
                 if cause == RemovalCause::Expired {
                     // Only error case is if receiver is no longer listening
                     // In that case, nobody cares about the value being evicted anymore.
                     // So `let _ =` is correct here.
                     let _ = val.1.send(val.0);
+                    notify_expired.notify_waiters();
                 }
             })
             // We're not worried about HashDoS as the consumers are trusted code,
@@ -56,9 +61,17 @@ where
         Reserver {
             reservations,
             pending_removals,
+            released,
         }
     }
 
+    /// Notified (using `notify_waiters`) whenever a reservation is given up while its key
+    /// might still have to be reserved by someone else.
+    #[must_use]
+    pub fn released(&self) -> &Arc<Notify> {
+        &self.released
+    }
+
     /// Attempts to reserve a particular key-val.
     ///
     /// Returns `None` if someone else currently is already reserving `key`.
@@ -113,6 +126,7 @@ where
                     Some(reserved_at)
                 } else {
                     self.reservations.remove(key);
+                    self.released.notify_waiters();
                     Some(reserved_at)
                 }
             }
@@ -122,9 +136,9 @@ where
     /// Sync version of `.finish_reservation`; does not support delayed removal.
     /// Intended to be called from within a `Drop` implementation.
     pub fn finish_reservation_sync(&self, key: &K) -> Option<Instant> {
-        self.reservations
-            .remove(key)
-            .map(|(_val, _sender, reserved_at)| reserved_at)
+        let removed = self.reservations.remove(key);
+        self.released.notify_waiters();
+        removed.map(|(_val, _sender, reserved_at)| reserved_at)
     }
 
     /// Run this every so often to make sure outdated entries are cleaned up
diff --git a/opsqueue/src/consumer/server/conn.rs b/opsqueue/src/consumer/server/conn.rs
index 8b9cecd..c2ca3e3 100644
--- a/opsqueue/src/consumer/server/conn.rs
+++ b/opsqueue/src/consumer/server/conn.rs
@@ -211,6 +211,10 @@ impl ConsumerConn {
         use SyncServerToClientResponse::ChunksReserved;
         let maybe_response = match msg.contents {
             WantToReserveChunks { max, strategy } => {
+                // Start listening for new work _before_ looking for work,
+                // so we cannot miss any that appears right after looking.
+                let inserted = self.notify_on_insert.clone().notified_owned();
+                let released = self.consumer_state.notify_on_release().notified_owned();
                 let chunks_or_err = self
                     .consumer_state
                     .fetch_and_reserve_chunks(strategy.clone(), max, &self.tx)
@@ -228,15 +232,17 @@ impl ConsumerConn {
                     }
                     Ok(vals) if !vals.is_empty() => Some(ChunksReserved(Ok(vals))),
                     Ok(_) => {
-                        // No work to do right now. Retry when new work is inserted.
+                        // No work to do right now. Retry when new work is inserted or released.
                         tracing::debug!(
                             "No work to do for {} / {max} / {strategy:?}, retrying later",
                             msg.nonce
                         );
-                        let notifier = self.notify_on_insert.clone();
                         let tx2 = self.tx2.clone();
                         tokio::spawn(async move {
-                            notifier.notified().await;
+                            select! {
+                                () = inserted => {},
+                                () = released => {},
+                            }
                             let _ = tx2.send(RetryReservation {
                                 nonce: msg.nonce,
                                 max,
diff --git a/opsqueue/src/consumer/server/state.rs b/opsqueue/src/consumer/server/state.rs
index 4288a1d..44e642c 100644
--- a/opsqueue/src/consumer/server/state.rs
+++ b/opsqueue/src/consumer/server/state.rs
@@ -4,6 +4,7 @@ use std::sync::Mutex;
 
 use axum_prometheus::metrics::histogram;
 use opentelemetry::trace::TraceContextExt;
+use tokio::sync::Notify;
 use tracing_opentelemetry::OpenTelemetrySpanExt;
 
 use crate::common::chunk;
@@ -46,6 +47,12 @@ impl ConsumerState {
         }
     }
 
+    /// Notified whenever a chunk reserved by any consumer becomes available again
+    #[must_use]
+    pub fn notify_on_release(&self) -> Arc<Notify> {
+        self.server_state.dispatcher.reserver().released().clone()
+    }
+
     #[tracing::instrument(skip(self, stale_chunks_notifier))]
     #[allow(clippy::type_complexity)]
     /// Fetch and reserve chunks for this connection state.
-- 
2.43.0


From 2b5be6444b780f70aa1cf13a00e922808b337887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:30 +0000
Subject: [PATCH 07/28] fix: release only a consumer's own reservations, and
 count their metadata exactly once

A consumer that reported on a chunk after its reservation had expired also
released the reservation of the consumer that was working on the chunk by
then, so that the chunk was handed out a third time. And when reservations
ended because they expired or because the consumer disconnected, their
metadata stayed counted as being in flight.
---
 opsqueue/src/consumer/dispatcher/mod.rs      | 39 +++++++++--
 opsqueue/src/consumer/dispatcher/reserver.rs | 56 ++++++++++++++-
 opsqueue/src/consumer/server/conn.rs         |  7 +-
 opsqueue/src/consumer/server/mod.rs          | 45 +++++-------
 opsqueue/src/consumer/server/state.rs        | 72 +++++++++++++++-----
 5 files changed, 164 insertions(+), 55 deletions(-)

diff --git a/opsqueue/src/consumer/dispatcher/mod.rs b/opsqueue/src/consumer/dispatcher/mod.rs
index cec873a..1d79da8 100644
--- a/opsqueue/src/consumer/dispatcher/mod.rs
+++ b/opsqueue/src/consumer/dispatcher/mod.rs
@@ -171,6 +171,15 @@ pub struct Dispatcher {
     metastate: Arc<MetaState>,
 }
 
+/// What a consumer has to give up when it is done with a chunk
+#[derive(Debug, Clone)]
+pub struct Reservation {
+    /// Identifies the consumer: the channel on which it is told about expired reservations
+    pub owner: UnboundedSender<ChunkId>,
+    /// The metadata that was counted as being in flight when reserving the chunk
+    pub metadata: StrategicMetadataMap,
+}
+
 impl Dispatcher {
     #[must_use]
     pub fn new(reservation_expiration: Duration) -> Self {
@@ -330,10 +339,32 @@ impl Dispatcher {
         }
     }
 
-    pub fn finish_reservations_sync<'a>(&self, reservations: impl Iterator<Item = &'a ChunkId>) {
-        for reservation in reservations {
-            let _ = self.reserver.finish_reservation_sync(reservation);
-        }
+    /// Give up a consumer's own reservation.
+    ///
+    /// The chunk itself stays reserved if it is now reserved by another consumer,
+    /// because this reservation expired in the meantime.
+    pub async fn release(
+        &self,
+        id: ChunkId,
+        reservation: &Reservation,
+        delayed: bool,
+    ) -> Option<Instant> {
+        self.remove_metadata(&reservation.metadata);
+        self.reserver
+            .finish_own_reservation(&id, &reservation.owner, delayed)
+            .await
+    }
+
+    /// Stop counting the metadata of a reservation that expired.
+    pub fn release_metadata(&self, reservation: &Reservation) {
+        self.remove_metadata(&reservation.metadata);
+    }
+
+    /// Sync version of `.release`; does not support delayed removal.
+    pub fn release_sync(&self, id: ChunkId, reservation: &Reservation) -> Option<Instant> {
+        self.remove_metadata(&reservation.metadata);
+        self.reserver
+            .finish_own_reservation_sync(&id, &reservation.owner)
     }
 
     pub async fn finish_reservation(
diff --git a/opsqueue/src/consumer/dispatcher/reserver.rs b/opsqueue/src/consumer/dispatcher/reserver.rs
index 359df9c..62bcce9 100644
--- a/opsqueue/src/consumer/dispatcher/reserver.rs
+++ b/opsqueue/src/consumer/dispatcher/reserver.rs
@@ -6,10 +6,14 @@ use std::{
 };
 
 use axum_prometheus::metrics::{counter, gauge};
-use moka::{notification::RemovalCause, sync::Cache};
+use moka::{
+    notification::RemovalCause,
+    ops::compute::{CompResult, Op},
+    sync::Cache,
+};
 use rustc_hash::FxBuildHasher;
-use tokio::sync::{Mutex, Notify};
 use tokio::sync::mpsc::UnboundedSender;
+use tokio::sync::{Mutex, Notify};
 use tokio_util::sync::CancellationToken;
 use tokio_util::time::DelayQueue;
 
@@ -101,6 +105,13 @@ where
         self.reservations.contains_key(key)
     }
 
+    /// Returns whether a key currently has an active reservation on behalf of `owner`.
+    pub fn is_reserved_by(&self, key: &K, owner: &UnboundedSender<V>) -> bool {
+        self.reservations
+            .get(key)
+            .is_some_and(|(_val, sender, _reserved_at)| sender.same_channel(owner))
+    }
+
     /// Removes a particular key-val from the reserver.
     /// Afterwards, it is possible to reserve it again.
     ///
@@ -133,8 +144,47 @@ where
         }
     }
 
-    /// Sync version of `.finish_reservation`; does not support delayed removal.
+    /// Like `.finish_reservation`, but only if `key` is (still) reserved on behalf of `owner`,
+    /// and not by someone else after the reservation of `owner` expired.
+    pub async fn finish_own_reservation(
+        &self,
+        key: &K,
+        owner: &UnboundedSender<V>,
+        delayed: bool,
+    ) -> Option<Instant> {
+        if !delayed {
+            self.finish_own_reservation_sync(key, owner)
+        } else if self.is_reserved_by(key, owner) {
+            self.finish_reservation(key, delayed).await
+        } else {
+            None
+        }
+    }
+
+    /// Sync version of `.finish_own_reservation`; does not support delayed removal.
     /// Intended to be called from within a `Drop` implementation.
+    pub fn finish_own_reservation_sync(
+        &self,
+        key: &K,
+        owner: &UnboundedSender<V>,
+    ) -> Option<Instant> {
+        let result = self
+            .reservations
+            .entry(*key)
+            .and_compute_with(|entry| match entry {
+                Some(entry) if entry.value().1.same_channel(owner) => Op::Remove,
+                _ => Op::Nop,
+            });
+        match result {
+            CompResult::Removed(entry) => {
+                self.released.notify_waiters();
+                Some(entry.into_value().2)
+            }
+            _ => None,
+        }
+    }
+
+    /// Sync version of `.finish_reservation`; does not support delayed removal.
     pub fn finish_reservation_sync(&self, key: &K) -> Option<Instant> {
         let removed = self.reservations.remove(key);
         self.released.notify_waiters();
diff --git a/opsqueue/src/consumer/server/conn.rs b/opsqueue/src/consumer/server/conn.rs
index c2ca3e3..64eb48c 100644
--- a/opsqueue/src/consumer/server/conn.rs
+++ b/opsqueue/src/consumer/server/conn.rs
@@ -51,7 +51,6 @@ pub struct ConsumerConn {
     heartbeats_missed: usize,
     max_missable_heartbeats: usize,
     // Channel with which the rest of the server can send messages to this particular client
-    tx: UnboundedSender<ChunkId>,
     rx: UnboundedReceiver<ChunkId>,
 
     tx2: UnboundedSender<RetryReservation>,
@@ -65,7 +64,7 @@ impl ConsumerConn {
         let heartbeats_missed = 0;
         let (tx, rx) = tokio::sync::mpsc::unbounded_channel();
         let (tx2, rx2) = tokio::sync::mpsc::unbounded_channel();
-        let consumer_state = ConsumerState::new(server_state);
+        let consumer_state = ConsumerState::new(server_state, tx);
         let cancellation_token = server_state.cancellation_token.clone();
         let notify_on_insert = server_state.notify_on_insert.clone();
 
@@ -87,7 +86,6 @@ impl ConsumerConn {
             heartbeat_interval,
             heartbeats_missed,
             max_missable_heartbeats: server_state.config.max_missable_heartbeats,
-            tx,
             rx,
             tx2,
             rx2,
@@ -132,6 +130,7 @@ impl ConsumerConn {
                 // When a message from elsewhere in the app is received, pass it forward
                 // (Currently there is only one kind of these, namely a chunk reservation having expired)
                 Some(chunk_id) = self.rx.recv() => {
+                    self.consumer_state.reservation_expired(chunk_id);
                     let msg = ServerToClientMessage::Async(AsyncServerToClientMessage::ChunkReservationExpired(chunk_id));
                     self.ws_stream.send(msg.into()).await?;
                 },
@@ -217,7 +216,7 @@ impl ConsumerConn {
                 let released = self.consumer_state.notify_on_release().notified_owned();
                 let chunks_or_err = self
                     .consumer_state
-                    .fetch_and_reserve_chunks(strategy.clone(), max, &self.tx)
+                    .fetch_and_reserve_chunks(strategy.clone(), max)
                     .await;
                 match chunks_or_err {
                     Err(e) => {
diff --git a/opsqueue/src/consumer/server/mod.rs b/opsqueue/src/consumer/server/mod.rs
index 5cd9a22..e63aebc 100644
--- a/opsqueue/src/consumer/server/mod.rs
+++ b/opsqueue/src/consumer/server/mod.rs
@@ -1,9 +1,5 @@
 use crate::tracing::{anyhow_as_dyn_error, as_dyn_error};
-use std::{
-    collections::HashSet,
-    sync::{Arc, Mutex},
-    time::Duration,
-};
+use std::{sync::Arc, time::Duration};
 
 use axum::{
     Router,
@@ -20,7 +16,7 @@ use crate::{
     db::{self, DBPools},
 };
 
-use super::dispatcher::Dispatcher;
+use super::dispatcher::{Dispatcher, Reservation};
 
 pub mod conn;
 pub mod state;
@@ -145,12 +141,14 @@ pub enum CompleterMessage {
     Complete {
         id: ChunkId,
         output_content: crate::common::chunk::Content,
-        reservations: Arc<Mutex<HashSet<ChunkId>>>,
+        /// Only present if the consumer (still) has a reservation for this chunk
+        reservation: Option<Reservation>,
     },
     Fail {
         id: ChunkId,
         failure: String,
-        reservations: Arc<Mutex<HashSet<ChunkId>>>,
+        /// Only present if the consumer (still) has a reservation for this chunk
+        reservation: Option<Reservation>,
     },
 }
 
@@ -160,7 +158,7 @@ impl std::fmt::Debug for CompleterMessage {
             Self::Complete {
                 id,
                 output_content,
-                reservations: _,
+                reservation: _,
             } => f
                 .debug_struct("Complete")
                 .field("id", id)
@@ -169,7 +167,7 @@ impl std::fmt::Debug for CompleterMessage {
             Self::Fail {
                 id,
                 failure,
-                reservations: _,
+                reservation: _,
             } => f
                 .debug_struct("Fail")
                 .field("id", id)
@@ -233,7 +231,7 @@ impl Completer {
                 CompleterMessage::Complete {
                     id,
                     output_content,
-                    reservations,
+                    reservation,
                 } => {
                     // Even in the unlikely event that the DB write fails,
                     // we still want to unreserve the chunk
@@ -241,11 +239,9 @@ impl Completer {
                         crate::common::chunk::db::complete_chunk(id, output_content, &mut conn)
                             .await;
 
-                    reservations.lock().expect("No poison").remove(&id);
-                    if let Some(started_at) = self
-                        .dispatcher
-                        .finish_reservation(&mut conn, id, true)
-                        .await
+                    if let Some(reservation) = reservation
+                        && let Some(started_at) =
+                            self.dispatcher.release(id, &reservation, true).await
                     {
                         histogram!(crate::prometheus::CHUNKS_DURATION_COMPLETED_HISTOGRAM)
                             .record(started_at.elapsed());
@@ -265,7 +261,7 @@ impl Completer {
                 CompleterMessage::Fail {
                     id,
                     failure,
-                    reservations,
+                    reservation,
                 } => {
                     // Even in the unlikely event that the DB write fails,
                     // we still want to unreserve the chunk
@@ -276,16 +272,11 @@ impl Completer {
                         self.max_chunk_retries,
                     )
                     .await;
-                    reservations.lock().expect("No poison").remove(&id);
-                    let maybe_started_at = self
-                        .dispatcher
-                        .finish_reservation(
-                            &mut conn,
-                            id,
-                            *failed_permanently.as_ref().unwrap_or(&false),
-                        )
-                        .await;
-                    if let Some(started_at) = maybe_started_at {
+                    let delayed = *failed_permanently.as_ref().unwrap_or(&false);
+                    if let Some(reservation) = reservation
+                        && let Some(started_at) =
+                            self.dispatcher.release(id, &reservation, delayed).await
+                    {
                         histogram!(crate::prometheus::CHUNKS_DURATION_FAILED_HISTOGRAM)
                             .record(started_at.elapsed());
                     }
diff --git a/opsqueue/src/consumer/server/state.rs b/opsqueue/src/consumer/server/state.rs
index 44e642c..c76c6a0 100644
--- a/opsqueue/src/consumer/server/state.rs
+++ b/opsqueue/src/consumer/server/state.rs
@@ -1,10 +1,11 @@
-use std::collections::HashSet;
+use std::collections::HashMap;
 use std::sync::Arc;
 use std::sync::Mutex;
 
 use axum_prometheus::metrics::histogram;
 use opentelemetry::trace::TraceContextExt;
 use tokio::sync::Notify;
+use tokio::sync::mpsc::UnboundedSender;
 use tracing_opentelemetry::OpenTelemetrySpanExt;
 
 use crate::common::chunk;
@@ -13,6 +14,7 @@ use crate::common::{
     chunk::{Chunk, ChunkId},
     submission::Submission,
 };
+use crate::consumer::dispatcher::Reservation;
 use crate::consumer::strategy;
 
 use super::CompleterMessage;
@@ -23,7 +25,9 @@ use crate::common::errors::{E, IncorrectUsage, LimitIsZero};
 pub struct ConsumerState {
     server_state: Arc<ServerState>,
     // The following are the consumer-specific chunks that are currently reserved.
-    reservations: Arc<Mutex<HashSet<ChunkId>>>,
+    reservations: Arc<Mutex<HashMap<ChunkId, Reservation>>>,
+    // Channel on which this consumer is told about its expired reservations
+    stale_chunks_notifier: UnboundedSender<ChunkId>,
 }
 
 impl Drop for ConsumerState {
@@ -32,18 +36,22 @@ impl Drop for ConsumerState {
 
         // We're not tracking chunk durations that are unreserved during consumer shutdown,
         // as those will be by definition unfinished
-        self.server_state
-            .dispatcher
-            .finish_reservations_sync(reservations.iter());
+        for (id, reservation) in reservations.iter() {
+            let _ = self.server_state.dispatcher.release_sync(*id, reservation);
+        }
     }
 }
 
 impl ConsumerState {
     #[must_use]
-    pub fn new(server_state: &Arc<ServerState>) -> Self {
+    pub fn new(
+        server_state: &Arc<ServerState>,
+        stale_chunks_notifier: UnboundedSender<ChunkId>,
+    ) -> Self {
         Self {
-            reservations: Arc::new(Mutex::new(HashSet::new())),
+            reservations: Arc::new(Mutex::new(HashMap::new())),
             server_state: server_state.clone(),
+            stale_chunks_notifier,
         }
     }
 
@@ -53,7 +61,7 @@ impl ConsumerState {
         self.server_state.dispatcher.reserver().released().clone()
     }
 
-    #[tracing::instrument(skip(self, stale_chunks_notifier))]
+    #[tracing::instrument(skip(self))]
     #[allow(clippy::type_complexity)]
     /// Fetch and reserve chunks for this connection state.
     ///
@@ -68,7 +76,6 @@ impl ConsumerState {
         &mut self,
         strategy: strategy::Strategy,
         limit: usize,
-        stale_chunks_notifier: &tokio::sync::mpsc::UnboundedSender<ChunkId>,
     ) -> Result<Vec<(Chunk, Submission)>, E<DatabaseError, IncorrectUsage<LimitIsZero>>> {
         let start = tokio::time::Instant::now();
         if limit == 0 {
@@ -82,15 +89,27 @@ impl ConsumerState {
                 self.server_state.pool.reader_pool(),
                 strategy.clone(),
                 limit,
-                stale_chunks_notifier,
+                &self.stale_chunks_notifier,
             )
             .await?;
 
-        self.reservations.lock().expect("No poison").extend(
-            new_reservations.iter().map(|(chunk, _submission)| {
-                ChunkId::from((chunk.submission_id, chunk.chunk_index))
-            }),
-        );
+        for (chunk, submission) in &new_reservations {
+            let id = ChunkId::from((chunk.submission_id, chunk.chunk_index));
+            let reservation = Reservation {
+                owner: self.stale_chunks_notifier.clone(),
+                metadata: submission.strategic_metadata.clone(),
+            };
+            let earlier = self
+                .reservations
+                .lock()
+                .expect("No poison")
+                .insert(id, reservation);
+            if let Some(earlier) = earlier {
+                // Our earlier reservation of this chunk has expired,
+                // but we have not handled the message about that yet.
+                self.server_state.dispatcher.release_metadata(&earlier);
+            }
+        }
 
         // Link the consumer's trace with the submission's existing trace context
         let reservation_span = tracing::info_span!("fetch_and_reserve_chunks-reserved");
@@ -121,6 +140,7 @@ impl ConsumerState {
 
     #[tracing::instrument(skip(self, output_content))]
     pub async fn complete_chunk(&mut self, id: ChunkId, output_content: chunk::Content) {
+        let reservation = self.take_reservation(id);
         // Only possible error indicates sender is closed, which means we're shutting down
         let _ = self
             .server_state
@@ -128,20 +148,38 @@ impl ConsumerState {
             .send(CompleterMessage::Complete {
                 id,
                 output_content,
-                reservations: self.reservations.clone(),
+                reservation,
             })
             .await;
     }
 
     pub async fn fail_chunk(&mut self, id: ChunkId, failure: String) {
+        let reservation = self.take_reservation(id);
         let _ = self
             .server_state
             .completer_tx
             .send(CompleterMessage::Fail {
                 id,
                 failure,
-                reservations: self.reservations.clone(),
+                reservation,
             })
             .await;
     }
+
+    fn take_reservation(&self, id: ChunkId) -> Option<Reservation> {
+        self.reservations.lock().expect("No poison").remove(&id)
+    }
+
+    /// To be called when this consumer is told that its reservation of a chunk expired.
+    pub fn reservation_expired(&mut self, id: ChunkId) {
+        let dispatcher = &self.server_state.dispatcher;
+        // We might have reserved the same chunk again since
+        if !dispatcher
+            .reserver()
+            .is_reserved_by(&id, &self.stale_chunks_notifier)
+            && let Some(reservation) = self.take_reservation(id)
+        {
+            dispatcher.release_metadata(&reservation);
+        }
+    }
 }
-- 
2.43.0


From c3403b243311e7f267cdbe38fff6240a895b3c1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:49 +0000
Subject: [PATCH 08/28] fix: tell waiting consumers about a submission even if
 its producer disconnects

The handler of an insert is dropped when the producer disconnects. If that
happened after the submission was committed (but, for example, before the
WAL checkpoint was done), no waiting consumer was woken up for it.
---
 opsqueue/src/producer/server.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/opsqueue/src/producer/server.rs b/opsqueue/src/producer/server.rs
index 74b8707..658aefc 100644
--- a/opsqueue/src/producer/server.rs
+++ b/opsqueue/src/producer/server.rs
@@ -12,6 +12,7 @@ use axum::response::{IntoResponse, Response};
 use axum::routing::{get, post};
 use axum::{Json, Router};
 use tokio::sync::Notify;
+use tracing::Instrument;
 
 use super::common::{ChunkContents, InsertSubmission};
 
@@ -184,6 +185,16 @@ async fn lookup_submission_ids_by_strategic_metadata(
 async fn insert_submission(
     State(state): State<ServerState>,
     Json(request): Json<InsertSubmission>,
+) -> Result<Json<SubmissionId>, ServerError> {
+    // This happens in a separate task, because our own future is dropped
+    // as soon as the producer disconnects. Without it, we might insert the submission
+    // without ever telling the waiting consumers about it.
+    tokio::spawn(insert_and_notify(state, request).in_current_span()).await?
+}
+
+async fn insert_and_notify(
+    state: ServerState,
+    request: InsertSubmission,
 ) -> Result<Json<SubmissionId>, ServerError> {
     let mut conn = state.pool.writer_conn().await?;
     let (prefix, chunk_contents) = match request.chunk_contents {
-- 
2.43.0


From 16bdafbd945f672a8efcea3647fe3d7f66e309ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:51:19 +0000
Subject: [PATCH 09/28] fix: hand out a chunk as it is when it is reserved

The rows of a chunk and its retry count were read before the chunk was
reserved. If it was failed (and thereby released) in between, it was handed
out with an outdated retry count.
---
 opsqueue/src/consumer/dispatcher/mod.rs | 39 +++++++++++++++++--------
 1 file changed, 27 insertions(+), 12 deletions(-)

diff --git a/opsqueue/src/consumer/dispatcher/mod.rs b/opsqueue/src/consumer/dispatcher/mod.rs
index 1d79da8..c000099 100644
--- a/opsqueue/src/consumer/dispatcher/mod.rs
+++ b/opsqueue/src/consumer/dispatcher/mod.rs
@@ -313,32 +313,47 @@ impl Dispatcher {
             .map(|_| chunk)
     }
 
-    /// Returns `None` (and gives up the reservation) if the submission is no longer in progress:
-    /// it might have ended, e.g. by being cancelled, since the chunk was read.
+    /// Returns `None` (and gives up the reservation) if the chunk is no longer to be done:
+    /// its submission might have ended, e.g. by being cancelled, since the chunk was read.
     async fn join_chunk_with_submission_info(
         &self,
         chunk: Chunk,
         pool: &Pool<impl Bool>,
     ) -> Result<Option<(Chunk, Submission)>, sqlx::Error> {
         let chunk_id = ChunkId::from((chunk.submission_id, chunk.chunk_index));
-        let mut conn = pool.acquire().await?;
-        let submission =
-            crate::common::submission::db::get_submission(chunk.submission_id, &mut conn).await;
-        match submission {
-            Ok(submission) => {
+        match Self::read_reserved_chunk(chunk_id, pool).await {
+            Ok(Some((chunk, submission))) => {
                 self.insert_metadata(&submission.strategic_metadata);
                 Ok(Some((chunk, submission)))
             }
-            Err(err) => {
+            not_available => {
                 self.reserver.finish_reservation_sync(&chunk_id);
-                match err {
-                    E::L(DatabaseError(err)) => Err(err),
-                    E::R(SubmissionNotFound(_)) => Ok(None),
-                }
+                not_available
             }
         }
     }
 
+    /// What was read before the chunk was reserved might be outdated (for example,
+    /// it might have been retried since), so we read it again now that it is ours.
+    async fn read_reserved_chunk(
+        chunk_id: ChunkId,
+        pool: &Pool<impl Bool>,
+    ) -> Result<Option<(Chunk, Submission)>, sqlx::Error> {
+        let mut conn = pool.acquire().await?;
+        let chunk = match crate::common::chunk::db::get_chunk(chunk_id, &mut conn).await {
+            Ok(chunk) => chunk,
+            Err(sqlx::Error::RowNotFound) => return Ok(None),
+            Err(err) => return Err(err),
+        };
+        let submission =
+            crate::common::submission::db::get_submission(chunk.submission_id, &mut conn).await;
+        match submission {
+            Ok(submission) => Ok(Some((chunk, submission))),
+            Err(E::L(DatabaseError(err))) => Err(err),
+            Err(E::R(SubmissionNotFound(_))) => Ok(None),
+        }
+    }
+
     /// Give up a consumer's own reservation.
     ///
     /// The chunk itself stays reserved if it is now reserved by another consumer,
-- 
2.43.0


From 52645e3cf66fca0689c62c682d0b27224b50aa6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:24:59 +0000
Subject: [PATCH 10/28] fix: reserve chunks using a single database connection,
 and give them back on errors

Reserving chunks held on to one reader connection while waiting for a second one
from the same pool. As soon as as many consumers as there are connections did so
at the same time (or immediately, for a pool of size one) they all waited for each
other until a timeout. The chunks that had been reserved by then
stayed reserved, and counted as in flight, without anybody working on them.
---
 opsqueue/src/consumer/dispatcher/mod.rs | 84 +++++++++++++++++++++----
 1 file changed, 72 insertions(+), 12 deletions(-)

diff --git a/opsqueue/src/consumer/dispatcher/mod.rs b/opsqueue/src/consumer/dispatcher/mod.rs
index c000099..b7747ea 100644
--- a/opsqueue/src/consumer/dispatcher/mod.rs
+++ b/opsqueue/src/consumer/dispatcher/mod.rs
@@ -7,7 +7,7 @@ use crate::{
         errors::{DatabaseError, E, SubmissionNotFound},
         submission::{Submission, SubmissionId},
     },
-    db::{Connection, Pool, ReaderPool, magic::Bool},
+    db::{Connection, ReaderPool},
 };
 use futures::stream::{StreamExt as _, TryStreamExt as _};
 use libsqlite3_sys as ffi;
@@ -228,19 +228,75 @@ impl Dispatcher {
     ) -> Result<Vec<(Chunk, Submission)>, sqlx::Error> {
         let mut conn = pool.reader_conn().await?;
         self.register_lookups(conn.get_inner()).await?;
+        let mut chunks = Vec::new();
+        while chunks.len() < limit {
+            let wanted = limit - chunks.len();
+            let found = self
+                .fetch_and_reserve_next_chunks(
+                    &mut conn,
+                    &strategy,
+                    wanted,
+                    stale_chunks_notifier,
+                    &mut chunks,
+                )
+                .await;
+            match found {
+                Ok(found) if found < wanted => break,
+                // Might not be enough, if some of these are no longer to be done
+                Ok(_) => {}
+                Err(err) => {
+                    // Nobody is going to work on these
+                    for (chunk, submission) in chunks {
+                        self.remove_metadata(&submission.strategic_metadata);
+                        self.unreserve_chunk(&chunk);
+                    }
+                    return Err(err);
+                }
+            }
+        }
+        Ok(chunks)
+    }
+
+    /// Returns how many chunks were reserved, including those that turn out not to be to be done.
+    ///
+    /// Looks for all chunks to reserve before reading any of them. By not doing both at the
+    /// same time we need only a single connection: if we would wait for a second one
+    /// while holding on to the first, consumers could end up waiting for each other.
+    async fn fetch_and_reserve_next_chunks(
+        &self,
+        mut conn: impl Connection,
+        strategy: &strategy::Strategy,
+        limit: usize,
+        stale_chunks_notifier: &UnboundedSender<ChunkId>,
+        chunks: &mut Vec<(Chunk, Submission)>,
+    ) -> Result<usize, sqlx::Error> {
+        let mut reserved = Vec::new();
         let mut query_builder = QueryBuilder::new("");
-        let stream = strategy
+        let mut result = strategy
             .build_query(&mut query_builder)
             .build_query_as()
-            .fetch(conn.get_inner());
-        stream
+            .fetch(conn.get_inner())
             .try_filter_map(|chunk| {
                 futures::future::ready(Ok(self.reserve_chunk(chunk, stale_chunks_notifier)))
             })
-            .try_filter_map(|chunk| self.join_chunk_with_submission_info(chunk, pool))
             .take(limit)
-            .try_collect()
-            .await
+            .try_for_each(|chunk| {
+                reserved.push(chunk);
+                futures::future::ready(Ok(()))
+            })
+            .await;
+        let found = reserved.len();
+        for chunk in reserved {
+            if result.is_ok() {
+                result = self
+                    .join_chunk_with_submission_info(chunk, &mut conn)
+                    .await
+                    .map(|joined| chunks.extend(joined));
+            } else {
+                self.unreserve_chunk(&chunk);
+            }
+        }
+        result.map(|()| found)
     }
 
     async fn register_lookups(&self, conn: &mut sqlx::SqliteConnection) -> Result<(), sqlx::Error> {
@@ -313,21 +369,26 @@ impl Dispatcher {
             .map(|_| chunk)
     }
 
+    fn unreserve_chunk(&self, chunk: &Chunk) {
+        let chunk_id = ChunkId::from((chunk.submission_id, chunk.chunk_index));
+        self.reserver.finish_reservation_sync(&chunk_id);
+    }
+
     /// Returns `None` (and gives up the reservation) if the chunk is no longer to be done:
     /// its submission might have ended, e.g. by being cancelled, since the chunk was read.
     async fn join_chunk_with_submission_info(
         &self,
         chunk: Chunk,
-        pool: &Pool<impl Bool>,
+        conn: impl Connection,
     ) -> Result<Option<(Chunk, Submission)>, sqlx::Error> {
         let chunk_id = ChunkId::from((chunk.submission_id, chunk.chunk_index));
-        match Self::read_reserved_chunk(chunk_id, pool).await {
+        match Self::read_reserved_chunk(chunk_id, conn).await {
             Ok(Some((chunk, submission))) => {
                 self.insert_metadata(&submission.strategic_metadata);
                 Ok(Some((chunk, submission)))
             }
             not_available => {
-                self.reserver.finish_reservation_sync(&chunk_id);
+                self.unreserve_chunk(&chunk);
                 not_available
             }
         }
@@ -337,9 +398,8 @@ impl Dispatcher {
     /// it might have been retried since), so we read it again now that it is ours.
     async fn read_reserved_chunk(
         chunk_id: ChunkId,
-        pool: &Pool<impl Bool>,
+        mut conn: impl Connection,
     ) -> Result<Option<(Chunk, Submission)>, sqlx::Error> {
-        let mut conn = pool.acquire().await?;
         let chunk = match crate::common::chunk::db::get_chunk(chunk_id, &mut conn).await {
             Ok(chunk) => chunk,
             Err(sqlx::Error::RowNotFound) => return Ok(None),
-- 
2.43.0


From b1971c0a1f2b525559b07a342dcdcca7a408902f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:36:34 +0000
Subject: [PATCH 11/28] fix: keep the producer's trace context at every log
 level

The span that carries the context of a request's headers had level DEBUG, so
with the default log filter (INFO) it did not exist and each submission was
stored with an unrelated trace context.
---
 opsqueue/src/server.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opsqueue/src/server.rs b/opsqueue/src/server.rs
index 5f9ec42..d1b2935 100644
--- a/opsqueue/src/server.rs
+++ b/opsqueue/src/server.rs
@@ -123,7 +123,7 @@ pub fn build_router(
     let tracing_middleware = tower_http::trace::TraceLayer::new_for_http()
         .make_span_with(|request: &http::Request<_>| {
             use tracing_opentelemetry::OpenTelemetrySpanExt;
-            let span = tracing::debug_span!("request",
+            let span = tracing::error_span!("request",
                         method = %request.method(),
                         uri = %request.uri(),
                         version = ?request.version(),
-- 
2.43.0


From bb324f5d7e6843397f0bd9b7d36d2c7f2eba61b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:37:55 +0000
Subject: [PATCH 12/28] fix: refuse a submission with an impossible number of
 chunks

Instead of aborting the whole server when the memory for it cannot be allocated.
---
 opsqueue/src/producer/server.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/opsqueue/src/producer/server.rs b/opsqueue/src/producer/server.rs
index 658aefc..e30d649 100644
--- a/opsqueue/src/producer/server.rs
+++ b/opsqueue/src/producer/server.rs
@@ -200,8 +200,12 @@ async fn insert_and_notify(
     let (prefix, chunk_contents) = match request.chunk_contents {
         ChunkContents::Direct { contents } => (None, contents),
         ChunkContents::SeeObjectStorage { prefix, count } => {
-            let count = u64::from(count);
-            (Some(prefix), (0..count).map(|_index| None).collect())
+            let count = usize::try_from(u64::from(count))?;
+            // A nonsensical count should be an error, rather than abort the whole server
+            let mut contents = Vec::new();
+            contents.try_reserve_exact(count)?;
+            contents.resize(count, None);
+            (Some(prefix), contents)
         }
     };
     let submission_id = submission::db::insert_submission_from_chunks(
-- 
2.43.0


From 8680b6aa95b0e0a840e64baa86e94c048406d3fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:45:49 +0000
Subject: [PATCH 13/28] fix: encode the prefix when looking up a submission by
 prefix

Prefixes with characters such as '/', '?', '#' or '%' were looked up as something else.
---
 opsqueue/src/producer/client.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/opsqueue/src/producer/client.rs b/opsqueue/src/producer/client.rs
index 4f1dc92..c7a3860 100644
--- a/opsqueue/src/producer/client.rs
+++ b/opsqueue/src/producer/client.rs
@@ -248,6 +248,11 @@ impl Client {
         &self,
         prefix: &str,
     ) -> Result<Option<SubmissionId>, InternalProducerClientError> {
+        // A prefix can contain any character, also those with a special meaning in URLs
+        let prefix = url::form_urlencoded::byte_serialize(prefix.as_bytes())
+            .collect::<String>()
+            .replace('+', "%20");
+        let prefix = &prefix;
         (|| async {
             let base_url = &self.base_url;
             let resp = self
-- 
2.43.0


From 7b434d69914bf6673bb3be7bcde5b169d2893354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:32 +0000
Subject: [PATCH 14/28] fix: consumer client keeps one working connection for
 concurrent callers

Concurrent first calls each opened a connection of their own; all but the last
one were closed as soon as their call returned, which made the server give the
chunks that call had just reserved to somebody else. Likewise, a late failure of
a request on an old connection threw away the new connection, and a call that
ran at that moment panicked.
---
 opsqueue/src/consumer/client.rs | 81 ++++++++++++++-------------------
 1 file changed, 34 insertions(+), 47 deletions(-)

diff --git a/opsqueue/src/consumer/client.rs b/opsqueue/src/consumer/client.rs
index 94abc81..d5138f4 100644
--- a/opsqueue/src/consumer/client.rs
+++ b/opsqueue/src/consumer/client.rs
@@ -51,13 +51,13 @@ type WebsocketTcpStream = WebSocketStream<MaybeTlsStream<TcpStream>>;
 /// - Is reset on low-level failures
 /// - And therefore, that it is resilient to temporary network failures
 #[derive(Debug)]
-pub struct OuterClient(ArcSwapOption<Client>, Box<str>);
+pub struct OuterClient(ArcSwapOption<Client>, Box<str>, Mutex<()>);
 
 impl OuterClient {
     /// Construct a lazy, reconnecting consumer client.
     #[must_use]
     pub fn new(url: &str) -> Self {
-        Self(None.into(), url.into())
+        Self(None.into(), url.into(), Mutex::new(()))
     }
 
     pub fn address(&self) -> &str {
@@ -66,10 +66,6 @@ impl OuterClient {
 
     /// Reserve up to `max` chunks from the server.
     ///
-    /// # Panics
-    ///
-    /// Panics if internal lazy initialization invariants are violated.
-    ///
     /// # Errors
     ///
     /// Returns an error if input usage is invalid, or if websocket/serialization
@@ -80,26 +76,16 @@ impl OuterClient {
         strategy: Strategy,
     ) -> Result<Vec<(Chunk, Submission)>, E<InternalConsumerClientError, IncorrectUsage<LimitIsZero>>>
     {
-        self.ensure_initialized().await;
-        let res = self
-            .0
-            .load()
-            .as_ref()
-            .expect("Should always be initialized after `.ensure_initialized()")
-            .reserve_chunks(max, strategy)
-            .await;
+        let client = self.ensure_initialized().await;
+        let res = client.reserve_chunks(max, strategy).await;
         if res.is_err() {
-            self.0.store(None);
+            self.reset(&client);
         }
         res
     }
 
     /// Mark a chunk as completed.
     ///
-    /// # Panics
-    ///
-    /// Panics if internal lazy initialization invariants are violated.
-    ///
     /// # Errors
     ///
     /// Returns an error if websocket communication with the server fails.
@@ -108,26 +94,16 @@ impl OuterClient {
         id: ChunkId,
         output_content: chunk::Content,
     ) -> Result<(), InternalConsumerClientError> {
-        self.ensure_initialized().await;
-        let res = self
-            .0
-            .load()
-            .as_ref()
-            .expect("Should always be initialized after `.ensure_initialized()")
-            .complete_chunk(id, output_content)
-            .await;
+        let client = self.ensure_initialized().await;
+        let res = client.complete_chunk(id, output_content).await;
         if res.is_err() {
-            self.0.store(None);
+            self.reset(&client);
         }
         res
     }
 
     /// Mark a chunk as failed.
     ///
-    /// # Panics
-    ///
-    /// Panics if internal lazy initialization invariants are violated.
-    ///
     /// # Errors
     ///
     /// Returns an error if websocket communication with the server fails.
@@ -136,25 +112,37 @@ impl OuterClient {
         id: ChunkId,
         failure: String,
     ) -> Result<(), InternalConsumerClientError> {
-        self.ensure_initialized().await;
-        let res = self
-            .0
-            .load()
-            .as_ref()
-            .expect("Should always be initialized after `.ensure_initialized()")
-            .fail_chunk(id, failure)
-            .await;
+        let client = self.ensure_initialized().await;
+        let res = client.fail_chunk(id, failure).await;
         if res.is_err() {
-            self.0.store(None);
+            self.reset(&client);
         }
         res
     }
 
-    async fn ensure_initialized(&self) {
-        if !self.is_healthy() {
-            let client = self.initialize().await;
-            self.0.store(Some(Arc::new(client)));
+    async fn ensure_initialized(&self) -> Arc<Client> {
+        if let Some(client) = self.healthy_client() {
+            return client;
         }
+        // Concurrent callers have to end up sharing a single connection: replacing a working one
+        // would cost its users the chunks they have reserved over it.
+        let _guard = self.2.lock().await;
+        if let Some(client) = self.healthy_client() {
+            return client;
+        }
+        let client = Arc::new(self.initialize().await);
+        self.0.store(Some(client.clone()));
+        client
+    }
+
+    fn healthy_client(&self) -> Option<Arc<Client>> {
+        self.0.load_full().filter(|client| client.is_healthy())
+    }
+
+    /// Ensures that the next call makes a new connection,
+    /// unless `client` has already been replaced by a newer one.
+    fn reset(&self, client: &Arc<Client>) {
+        self.0.compare_and_swap(client, None);
     }
 
     async fn initialize(&self) -> Client {
@@ -175,8 +163,7 @@ impl OuterClient {
     ///
     /// This function can be used to propagate healthiness info to a consumer service.
     pub fn is_healthy(&self) -> bool {
-        let inner = self.0.load();
-        inner.as_ref().is_some_and(|c| c.is_healthy())
+        self.healthy_client().is_some()
     }
 }
 
-- 
2.43.0


From b1253012e193c5a43c6127f82fb1c72ebf3ff647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:52:50 +0000
Subject: [PATCH 15/28] fix: consumer client fails pending requests however its
 connection ends

When the background task ended because a message could not be decoded, pending
requests were never woken up; when the server stopped reading, reports in the
middle of being sent kept the background task from ever giving the connection
up, and hung themselves. After any other loss the client still called itself
healthy. Now the end of the background task, for whatever reason, is what makes
the client unhealthy and its pending requests fail.
---
 opsqueue/src/consumer/client.rs | 56 ++++++++++++++++++++++++---------
 1 file changed, 41 insertions(+), 15 deletions(-)

diff --git a/opsqueue/src/consumer/client.rs b/opsqueue/src/consumer/client.rs
index d5138f4..9e88410 100644
--- a/opsqueue/src/consumer/client.rs
+++ b/opsqueue/src/consumer/client.rs
@@ -4,7 +4,7 @@ use std::{
     str::FromStr,
     sync::{
         Arc,
-        atomic::{AtomicBool, AtomicUsize, Ordering},
+        atomic::{AtomicUsize, Ordering},
     },
     time::Duration,
 };
@@ -236,7 +236,8 @@ impl InFlightRequests {
 pub struct Client {
     in_flight_requests: InFlightRequests,
     ws_sink: Arc<Mutex<SplitSink<WebsocketTcpStream, Message>>>,
-    healthy: Arc<AtomicBool>,
+    /// Cancelled when the connection is lost (or no longer wanted).
+    connection_lost: CancellationToken,
     _bg_handle: DropGuard,
 }
 
@@ -287,10 +288,8 @@ impl Client {
             );
         }
 
-        let healthy = Arc::new(AtomicBool::new(true));
         tokio::spawn(Self::background_task(
             cancellation_token.clone(),
-            healthy.clone(),
             in_flight_requests.clone(),
             ws_stream,
             ws_sink.clone(),
@@ -299,8 +298,8 @@ impl Client {
 
         let me = Self {
             in_flight_requests,
+            connection_lost: cancellation_token.clone(),
             _bg_handle: cancellation_token.drop_guard(),
-            healthy,
             ws_sink,
         };
         Ok(me)
@@ -308,17 +307,19 @@ impl Client {
 
     #[must_use]
     pub fn is_healthy(&self) -> bool {
-        self.healthy.load(std::sync::atomic::Ordering::Relaxed)
+        !self.connection_lost.is_cancelled()
     }
 
     async fn background_task(
         cancellation_token: CancellationToken,
-        healthy: Arc<AtomicBool>,
         in_flight_requests: InFlightRequests,
         mut ws_stream: impl Stream<Item = tungstenite::Result<tungstenite::Message>> + Unpin,
         ws_sink: Arc<Mutex<SplitSink<WebsocketTcpStream, Message>>>,
         config: ConsumerConfig,
     ) {
+        // However this task ends, nobody will receive replies anymore afterwards:
+        // the client is unhealthy from then on, and requests that are still pending fail.
+        let _connection_lost = cancellation_token.clone().drop_guard();
         let mut heartbeat_interval = tokio::time::interval(config.heartbeat_interval);
         let mut heartbeats_missed = 0;
         loop {
@@ -328,10 +329,12 @@ impl Client {
                 _ = heartbeat_interval.tick() => {
                     if heartbeats_missed > config.max_missable_heartbeats {
                         tracing::warn!("We missed too many heartbeats! Closing connection and marking client as unhealthy.");
-                        // Mark ourselves as unhealthy:
-                        healthy.store(false, std::sync::atomic::Ordering::Relaxed);
+                        // Mark ourselves as unhealthy (and interrupt anyone still busy sending):
+                        cancellation_token.cancel();
                         // For good measure, let's close the WebSocket connection early:
-                        let _ = ws_sink.lock().await.close().await;
+                        let _ = tokio::time::timeout(config.heartbeat_interval, async {
+                            ws_sink.lock().await.close().await
+                        }).await;
                         // And now exit the background task, which means all remaining in-flight requests immediately fail as well
                         break
                     }
@@ -376,6 +379,7 @@ impl Client {
                                                     let Err(internal_error): Result<_, InternalConsumerClientError> = Self::async_request(
                                                         &in_flight_requests,
                                                         &ws_sink,
+                                                        &cancellation_token,
                                                         ClientToServerMessage::FailChunk {
                                                             id: chunk_id,
                                                             failure: "Requester disappeared".into(),
@@ -403,6 +407,7 @@ impl Client {
                                                 let Err(internal_error): Result<_, InternalConsumerClientError> = Self::async_request(
                                                     &in_flight_requests,
                                                     &ws_sink,
+                                                    &cancellation_token,
                                                     ClientToServerMessage::FailChunk {
                                                         id: chunk_id,
                                                         failure: "Reservation expired".into(),
@@ -434,14 +439,18 @@ impl Client {
             nonce,
             contents: request,
         };
-        let () = self.ws_sink.lock().await.send(envelope.into()).await?;
-        let resp = oneshot_receiver.await?;
-        Ok(resp)
+        Self::unless_lost(&self.connection_lost, async {
+            let () = self.ws_sink.lock().await.send(envelope.into()).await?;
+            let resp = oneshot_receiver.await?;
+            Ok(resp)
+        })
+        .await
     }
 
     async fn async_request(
         in_flight_requests: &InFlightRequests,
         ws_sink: &Mutex<SplitSink<WebsocketTcpStream, Message>>,
+        connection_lost: &CancellationToken,
         request: ClientToServerMessage,
     ) -> Result<(), InternalConsumerClientError> {
         let nonce = in_flight_requests.next_nonce();
@@ -449,8 +458,23 @@ impl Client {
             nonce,
             contents: request,
         };
-        let () = ws_sink.lock().await.send(envelope.into()).await?;
-        Ok(())
+        Self::unless_lost(connection_lost, async {
+            let () = ws_sink.lock().await.send(envelope.into()).await?;
+            Ok(())
+        })
+        .await
+    }
+
+    /// Runs a request, but gives up on it when the connection is lost in the meantime.
+    async fn unless_lost<T>(
+        connection_lost: &CancellationToken,
+        request: impl Future<Output = Result<T, InternalConsumerClientError>>,
+    ) -> Result<T, InternalConsumerClientError> {
+        select! {
+            biased;
+            res = request => res,
+            () = connection_lost.cancelled() => Err(tungstenite::Error::ConnectionClosed.into()),
+        }
     }
 
     /// Request chunks to reserve.
@@ -485,6 +509,7 @@ impl Client {
         Self::async_request(
             &self.in_flight_requests,
             &self.ws_sink,
+            &self.connection_lost,
             ClientToServerMessage::CompleteChunk { id, output_content },
         )
         .await
@@ -503,6 +528,7 @@ impl Client {
         Self::async_request(
             &self.in_flight_requests,
             &self.ws_sink,
+            &self.connection_lost,
             ClientToServerMessage::FailChunk { id, failure },
         )
         .await
-- 
2.43.0


From 12895080c5c794ec104bf57bdbbd953f210ba319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:58:47 +0000
Subject: [PATCH 16/28] fix: consumer client gives back chunks whose requester
 left before looking at the reply

A reservation that had been handed to its requester, who was cancelled before it
was polled again, was lost: nobody worked on the chunks, and nobody else could
until the reservation expired. Chunks are now given back by a task of their own,
so that a server that does not read cannot keep the background task from
noticing.
---
 opsqueue/src/consumer/client.rs | 115 +++++++++++++++++++++++---------
 1 file changed, 82 insertions(+), 33 deletions(-)

diff --git a/opsqueue/src/consumer/client.rs b/opsqueue/src/consumer/client.rs
index 9e88410..455c109 100644
--- a/opsqueue/src/consumer/client.rs
+++ b/opsqueue/src/consumer/client.rs
@@ -15,7 +15,7 @@ use http::Uri;
 use tokio::{net::TcpStream, sync::oneshot::error::RecvError};
 use tokio::{
     select,
-    sync::{Mutex, oneshot},
+    sync::{Mutex, mpsc, oneshot},
     task::yield_now,
 };
 use tokio_tungstenite::{
@@ -232,9 +232,45 @@ impl InFlightRequests {
     }
 }
 
+/// Chunks that were reserved for us, but that nobody here is going to work on (and why).
+/// They are returned to the server so that they can be re-reserved by other consumers.
+#[derive(Debug, Clone)]
+struct UnusedChunks(mpsc::UnboundedSender<(ChunkId, &'static str)>);
+
+impl UnusedChunks {
+    fn give_back(&self, response: SyncServerToClientResponse) {
+        let SyncServerToClientResponse::ChunksReserved(Ok(chunks)) = response else {
+            return;
+        };
+        for (chunk, _submission) in chunks {
+            let chunk_id = ChunkId::from((chunk.submission_id, chunk.chunk_index));
+            // Only fails when the connection is gone, and the reservation with it.
+            let _ = self.0.send((chunk_id, "Requester disappeared"));
+        }
+    }
+}
+
+/// The reply to a synchronous request.
+/// When the requester disappears after the reply arrived but before looking at it,
+/// the reserved chunks are given back.
+struct PendingReply<'a> {
+    receiver: oneshot::Receiver<SyncServerToClientResponse>,
+    unused_chunks: &'a UnusedChunks,
+}
+
+impl Drop for PendingReply<'_> {
+    fn drop(&mut self) {
+        self.receiver.close();
+        if let Ok(response) = self.receiver.try_recv() {
+            self.unused_chunks.give_back(response);
+        }
+    }
+}
+
 #[derive(Debug)]
 pub struct Client {
     in_flight_requests: InFlightRequests,
+    unused_chunks: UnusedChunks,
     ws_sink: Arc<Mutex<SplitSink<WebsocketTcpStream, Message>>>,
     /// Cancelled when the connection is lost (or no longer wanted).
     connection_lost: CancellationToken,
@@ -288,9 +324,18 @@ impl Client {
             );
         }
 
+        let (unused_chunks_sender, unused_chunks_receiver) = mpsc::unbounded_channel();
+        let unused_chunks = UnusedChunks(unused_chunks_sender);
+        tokio::spawn(Self::give_back_task(
+            cancellation_token.clone(),
+            in_flight_requests.clone(),
+            ws_sink.clone(),
+            unused_chunks_receiver,
+        ));
         tokio::spawn(Self::background_task(
             cancellation_token.clone(),
             in_flight_requests.clone(),
+            unused_chunks.clone(),
             ws_stream,
             ws_sink.clone(),
             config,
@@ -298,6 +343,7 @@ impl Client {
 
         let me = Self {
             in_flight_requests,
+            unused_chunks,
             connection_lost: cancellation_token.clone(),
             _bg_handle: cancellation_token.drop_guard(),
             ws_sink,
@@ -313,6 +359,7 @@ impl Client {
     async fn background_task(
         cancellation_token: CancellationToken,
         in_flight_requests: InFlightRequests,
+        unused_chunks: UnusedChunks,
         mut ws_stream: impl Stream<Item = tungstenite::Result<tungstenite::Message>> + Unpin,
         ws_sink: Arc<Mutex<SplitSink<WebsocketTcpStream, Message>>>,
         config: ConsumerConfig,
@@ -368,27 +415,7 @@ impl Client {
                                     ServerToClientMessage::Sync(envelope) => {
                                         let Err(contents) = in_flight_requests.send(envelope).await else { continue; };
                                         tracing::warn!("Failed to send envelope to in-flight requests");
-                                        match contents {
-                                            SyncServerToClientResponse::ChunksReserved(reservation) => {
-                                                let Ok(chunks) = reservation else { continue; };
-                                                for chunk in &chunks {
-                                                    let chunk_id = ChunkId::from((chunk.0.submission_id, chunk.0.chunk_index));
-                                                    // Send message to the server to indicate that we are no longer
-                                                    // reserving this chunk, so that it can be re-reserved by other
-                                                    // consumers.
-                                                    let Err(internal_error): Result<_, InternalConsumerClientError> = Self::async_request(
-                                                        &in_flight_requests,
-                                                        &ws_sink,
-                                                        &cancellation_token,
-                                                        ClientToServerMessage::FailChunk {
-                                                            id: chunk_id,
-                                                            failure: "Requester disappeared".into(),
-                                                        },
-                                                    ).await else { continue; };
-                                                    tracing::error!(error = as_dyn_error(&internal_error), chunk_id = ?chunk_id, "Failed to return unhandled reservation to server");
-                                                }
-                                            },
-                                        }
+                                        unused_chunks.give_back(contents);
                                     },
                                     ServerToClientMessage::Async(msg) => {
                                         match msg {
@@ -404,16 +431,7 @@ impl Client {
                                                 // change allows that chunk to succeed and not be spuriously retried.
                                                 // Connection ordering guarantees the round-trip of the reservation
                                                 // expiry will come after the success.
-                                                let Err(internal_error): Result<_, InternalConsumerClientError> = Self::async_request(
-                                                    &in_flight_requests,
-                                                    &ws_sink,
-                                                    &cancellation_token,
-                                                    ClientToServerMessage::FailChunk {
-                                                        id: chunk_id,
-                                                        failure: "Reservation expired".into(),
-                                                    },
-                                                ).await else { continue; };
-                                                tracing::error!(error = as_dyn_error(&internal_error), chunk_id = ?chunk_id, "Failed to return expired reservation to server");
+                                                let _ = unused_chunks.0.send((chunk_id, "Reservation expired"));
                                             },
                                         }
                                     }
@@ -430,18 +448,49 @@ impl Client {
         in_flight_requests.clear().await;
     }
 
+    /// Tells the server which of the chunks it gave to us are not going to be worked on.
+    ///
+    /// This is a task of its own because the background task has to keep an eye on the connection,
+    /// also while sending a message takes long.
+    async fn give_back_task(
+        cancellation_token: CancellationToken,
+        in_flight_requests: InFlightRequests,
+        ws_sink: Arc<Mutex<SplitSink<WebsocketTcpStream, Message>>>,
+        mut unused_chunks: mpsc::UnboundedReceiver<(ChunkId, &'static str)>,
+    ) {
+        while let Some((id, failure)) = select! {
+            () = cancellation_token.cancelled() => None,
+            unused_chunk = unused_chunks.recv() => unused_chunk,
+        } {
+            let request = ClientToServerMessage::FailChunk {
+                id,
+                failure: failure.into(),
+            };
+            if let Err(internal_error) =
+                Self::async_request(&in_flight_requests, &ws_sink, &cancellation_token, request)
+                    .await
+            {
+                tracing::error!(error = as_dyn_error(&internal_error), chunk_id = ?id, "Failed to return unused reservation to server");
+            }
+        }
+    }
+
     async fn sync_request(
         &self,
         request: ClientToServerMessage,
     ) -> Result<SyncServerToClientResponse, InternalConsumerClientError> {
         let (nonce, oneshot_receiver) = self.in_flight_requests.next_nonce_with_oneshot().await;
+        let mut reply = PendingReply {
+            receiver: oneshot_receiver,
+            unused_chunks: &self.unused_chunks,
+        };
         let envelope = Envelope {
             nonce,
             contents: request,
         };
         Self::unless_lost(&self.connection_lost, async {
             let () = self.ws_sink.lock().await.send(envelope.into()).await?;
-            let resp = oneshot_receiver.await?;
+            let resp = (&mut reply.receiver).await?;
             Ok(resp)
         })
         .await
-- 
2.43.0


From c174ac7a939d3269795a29a14eb46204707aeb7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:06 +0000
Subject: [PATCH 17/28] fix: consumer client does not wait forever for a server
 to introduce itself

A server (or a proxy in front of it) that accepts a connection and then falls
silent made every later call of the client hang, even when a working server
was long back.
---
 opsqueue/src/consumer/client.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/opsqueue/src/consumer/client.rs b/opsqueue/src/consumer/client.rs
index 455c109..91b194c 100644
--- a/opsqueue/src/consumer/client.rs
+++ b/opsqueue/src/consumer/client.rs
@@ -147,7 +147,7 @@ impl OuterClient {
 
     async fn initialize(&self) -> Client {
         tracing::info!("Initializing (or re-initializing) consumer client connection...");
-        (|| Client::new(&self.1))
+        (|| async { tokio::time::timeout(CONNECT_TIMEOUT, Client::new(&self.1)).await? })
             .retry(retry_policy())
             .notify(|err, duration| {
                 tracing::debug!(
@@ -167,6 +167,10 @@ impl OuterClient {
     }
 }
 
+/// How long a server may take to accept a connection and to introduce itself,
+/// before we give up on this attempt and try again.
+const CONNECT_TIMEOUT: Duration = Duration::from_secs(10);
+
 // TODO: Set max retries to `None`;
 // will require either writing our own Backoff (iterator)
 // or extending the backon crate.
-- 
2.43.0


From e2eb7d80d871d578d08744c06bb7fe7b6de1067c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:14 +0000
Subject: [PATCH 18/28] fix: run_each_* raise the fatal exception that ended
 them instead of returning it as a value

---
 libs/opsqueue_python/src/consumer.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/libs/opsqueue_python/src/consumer.rs b/libs/opsqueue_python/src/consumer.rs
index 182533f..c3cbb93 100644
--- a/libs/opsqueue_python/src/consumer.rs
+++ b/libs/opsqueue_python/src/consumer.rs
@@ -165,13 +165,20 @@ impl ConsumerClient {
         })
     }
 
+    /// Reserve chunks and run `fun` on them, forever.
+    ///
+    /// # Errors
+    ///
+    /// Only returns (with that exception) if `fun` is not callable,
+    /// or when a fatal Python exception like `KeyboardInterrupt` occurs.
     #[allow(clippy::type_complexity)]
     #[pyo3(signature = (strategy, fun))]
     pub fn run_per_chunk(
         &self,
         strategy: &Strategy,
         fun: &Bound<'_, PyAny>,
-    ) -> CError<
+    ) -> CPyResult<
+        (),
         E![
             FatalPythonException,
             ChunkStorageError,
@@ -181,10 +188,9 @@ impl ConsumerClient {
         ],
     > {
         if !fun.is_callable() {
-            return pyo3::exceptions::PyTypeError::new_err(
+            Err(pyo3::exceptions::PyTypeError::new_err(
                 "Expected `fun` parameter to be __call__-able",
-            )
-            .into();
+            ))?;
         }
         // NOTE: We take care here to unlock the GIL for most of the loop,
         // and only re-lock it for the duration of each call to `fun`.
@@ -206,7 +212,7 @@ impl ConsumerClient {
                             error = as_dyn_error(&e),
                             "Opsqueue consumer closing because of exception"
                         );
-                        return CError(L(e));
+                        return Err(CError(L(e)));
                     }
                     Err(CError(R(err))) => {
                         tracing::warn!(
-- 
2.43.0


From 0ad6069015bc460a7612aabedf59ceb3b413ce1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:14 +0000
Subject: [PATCH 19/28] fix: reserve_chunks can be called without a strategy

---
 libs/opsqueue_python/python/opsqueue/consumer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/opsqueue_python/python/opsqueue/consumer.py b/libs/opsqueue_python/python/opsqueue/consumer.py
index a1311d5..6023f2f 100644
--- a/libs/opsqueue_python/python/opsqueue/consumer.py
+++ b/libs/opsqueue_python/python/opsqueue/consumer.py
@@ -122,7 +122,7 @@ class ConsumerClient:
         self.inner.run_per_chunk(strategy, chunk_callback)
 
     def reserve_chunks(
-        self, max: int = 1, strategy: Strategy = Strategy.Newest
+        self, max: int = 1, strategy: Strategy = Strategy.Newest()
     ) -> list[Chunk]:
         """
         Low-level function to manually reserve one or more chunks for processing.
-- 
2.43.0


From 5b45bc24e3b32eb54b7064ebb0a88c61d03bd38e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:45 +0000
Subject: [PATCH 20/28] fix: waiting for a cancelled or unknown submission
 raises instead of waiting forever

---
 .../python/opsqueue/exceptions.py             | 23 +++++++++++++++
 .../python/opsqueue/producer.py               | 17 +++++++++--
 libs/opsqueue_python/src/errors.rs            | 12 ++++++++
 libs/opsqueue_python/src/producer.rs          | 28 ++++++++++++-------
 4 files changed, 68 insertions(+), 12 deletions(-)

diff --git a/libs/opsqueue_python/python/opsqueue/exceptions.py b/libs/opsqueue_python/python/opsqueue/exceptions.py
index c946f33..f0c1a24 100644
--- a/libs/opsqueue_python/python/opsqueue/exceptions.py
+++ b/libs/opsqueue_python/python/opsqueue/exceptions.py
@@ -39,6 +39,29 @@ class SubmissionFailedError(Exception):
         return str(self)
 
 
+class SubmissionCancelledError(Exception):
+    """
+    Raised when the results of a submission are requested
+    but the submission was cancelled,
+    and therefore it can never be 'completed' anymore.
+    """
+
+    __slots__ = ["submission"]
+
+    def __init__(
+        self,
+        submission: opsqueue_internal.SubmissionCancelled,
+    ):
+        super().__init__()
+        self.submission = submission
+
+    def __str__(self) -> str:
+        return f"Submission {self.submission.id} was cancelled"
+
+    def __repr__(self) -> str:
+        return str(self)
+
+
 class SubmissionNotCancellableError(Exception):
     """Raised when a submission could not be cancelled due to already being
     completed, failed or cancelled.
diff --git a/libs/opsqueue_python/python/opsqueue/producer.py b/libs/opsqueue_python/python/opsqueue/producer.py
index 82a877e..314ccbb 100644
--- a/libs/opsqueue_python/python/opsqueue/producer.py
+++ b/libs/opsqueue_python/python/opsqueue/producer.py
@@ -15,6 +15,7 @@ from opsqueue.common import (
 from . import opsqueue_internal
 from . import tracing
 from opsqueue.exceptions import (
+    SubmissionCancelledError,
     SubmissionFailedError,
     SubmissionNotCancellableError,
     SubmissionNotFoundError,
@@ -34,6 +35,7 @@ __all__ = [
     "SubmissionId",
     "SubmissionStatus",
     "SubmissionCompleted",
+    "SubmissionCancelledError",
     "SubmissionFailedError",
     "SubmissionFailed",
     "SubmissionNotCancellable",
@@ -179,6 +181,8 @@ class ProducerClient:
         - `InternalProducerClientError` if there is a low-level internal error.
         - `SubmissionFailedError` if the submission failed permanently
           (after retrying a consumer kept failing on one of the chunks)
+        - `SubmissionCancelledError` if the submission was cancelled
+        - `SubmissionNotFoundError` if the submission does not exist
         """
         return _unchunk_iterator(
             self.blocking_stream_completed_submission_chunks(submission_id),
@@ -196,7 +200,10 @@ class ProducerClient:
         looks up each of the chunk-results one by one from the object storage.
 
         Raises:
-        - `SubmissionNotCompletedYet` if the submission you want to stream is not in the completed state.
+        - `SubmissionNotCompletedYet` if the submission you want to stream is still in progress.
+        - `SubmissionFailedError` if the submission failed permanently
+        - `SubmissionCancelledError` if the submission was cancelled
+        - `SubmissionNotFoundError` if the submission does not exist
         - `InternalProducerClientError` if there is a low-level internal error.
         """
         return _unchunk_iterator(
@@ -222,6 +229,7 @@ class ProducerClient:
         - `InternalProducerClientError` if there is a low-level internal error.
         - `SubmissionFailedError` if the submission failed permanently
           (after retrying a consumer kept failing on one of the chunks)
+        - `SubmissionCancelledError` if the submission was cancelled
         """
         submission_id = self.insert_submission_chunks(
             chunk_contents,
@@ -288,6 +296,8 @@ class ProducerClient:
         - `InternalProducerClientError` if there is a low-level internal error.
         - `SubmissionFailedError` if the submission failed permanently
           (after retrying a consumer kept failing on one of the chunks)
+        - `SubmissionCancelledError` if the submission was cancelled
+        - `SubmissionNotFoundError` if the submission does not exist
         """
         return self.inner.blocking_stream_completed_submission_chunks(submission_id)  # type: ignore[no-any-return]
 
@@ -308,7 +318,10 @@ class ProducerClient:
         looks up the chunk-results one by one from the object storage.
 
         Raises:
-        - `SubmissionNotCompletedYet` if the submission you want to stream is not in the completed state.
+        - `SubmissionNotCompletedYet` if the submission you want to stream is still in progress.
+        - `SubmissionFailedError` if the submission failed permanently
+        - `SubmissionCancelledError` if the submission was cancelled
+        - `SubmissionNotFoundError` if the submission does not exist
         - `InternalProducerClientError` if there is a low-level internal error.
         """
         return self.inner.try_stream_completed_submission_chunks(submission_id)  # type: ignore[no-any-return]
diff --git a/libs/opsqueue_python/src/errors.rs b/libs/opsqueue_python/src/errors.rs
index 45f0f7d..29c95fb 100644
--- a/libs/opsqueue_python/src/errors.rs
+++ b/libs/opsqueue_python/src/errors.rs
@@ -15,6 +15,7 @@ use crate::common::{ChunkIndex, SubmissionId};
 
 // Expected errors:
 import_exception!(opsqueue.exceptions, SubmissionFailedError);
+import_exception!(opsqueue.exceptions, SubmissionCancelledError);
 
 // Incorrect usage errors:
 import_exception!(opsqueue.exceptions, IncorrectUsageError);
@@ -166,6 +167,17 @@ impl From<CError<SubmissionFailed>> for PyErr {
     }
 }
 
+pub struct SubmissionCancelled(pub crate::common::SubmissionCancelled);
+
+impl From<CError<SubmissionCancelled>> for PyErr {
+    fn from(value: CError<SubmissionCancelled>) -> Self {
+        SubmissionCancelledError::new_err(value.0.0)
+    }
+}
+
+/// The reasons why a submission will never be completed.
+pub type SubmissionNeverCompletes = E<SubmissionFailed, E<SubmissionCancelled, SubmissionNotFound>>;
+
 impl From<CError<crate::producer::SubmissionNotCompletedYetError>> for PyErr {
     fn from(value: CError<crate::producer::SubmissionNotCompletedYetError>) -> Self {
         let submission_id = value.0.0;
diff --git a/libs/opsqueue_python/src/producer.rs b/libs/opsqueue_python/src/producer.rs
index 3b917ad..fd90e23 100644
--- a/libs/opsqueue_python/src/producer.rs
+++ b/libs/opsqueue_python/src/producer.rs
@@ -350,7 +350,7 @@ impl ProducerClient {
     ///
     /// # Errors
     ///
-    /// Returns an error if the submission is incomplete/failed or if the request fails.
+    /// Returns an error if the submission is incomplete/failed/cancelled/unknown or if the request fails.
     #[allow(clippy::result_large_err, clippy::type_complexity)]
     #[pyo3(signature = (id))]
     pub fn try_stream_completed_submission_chunks(
@@ -362,7 +362,7 @@ impl ProducerClient {
         E![
             FatalPythonException,
             SubmissionNotCompletedYetError,
-            errors::SubmissionFailed,
+            errors::SubmissionNeverCompletes,
             InternalProducerClientError,
         ],
     > {
@@ -399,7 +399,7 @@ impl ProducerClient {
         PyChunksIter,
         E![
             FatalPythonException,
-            errors::SubmissionFailed,
+            errors::SubmissionNeverCompletes,
             ChunksStorageError,
             InternalProducerClientError,
         ],
@@ -440,7 +440,8 @@ impl ProducerClient {
     ///
     /// # Errors
     ///
-    /// Returns an error if polling or output streaming fails.
+    /// Returns an error if the submission fails, is cancelled or does not exist,
+    /// or if polling or output streaming fails.
     #[allow(clippy::result_large_err, clippy::type_complexity)]
     #[pyo3(signature = (submission_id))]
     pub fn blocking_stream_completed_submission_chunks(
@@ -451,7 +452,7 @@ impl ProducerClient {
         PyChunksIter,
         E![
             FatalPythonException,
-            errors::SubmissionFailed,
+            errors::SubmissionNeverCompletes,
             InternalProducerClientError
         ],
     > {
@@ -514,7 +515,7 @@ impl ProducerClient {
         PyChunksIter,
         E![
             FatalPythonException,
-            errors::SubmissionFailed,
+            errors::SubmissionNeverCompletes,
             InternalProducerClientError
         ],
     > {
@@ -544,7 +545,10 @@ impl ProducerClient {
         id: SubmissionId,
     ) -> CPyResult<
         Option<PyChunksIter>,
-        E![crate::errors::SubmissionFailed, InternalProducerClientError],
+        E![
+            errors::SubmissionNeverCompletes,
+            InternalProducerClientError
+        ],
     > {
         match self.client.get_submission(id.into()).await.map_err(R)? {
             Some(submission::SubmissionStatus::Completed(submission)) => {
@@ -561,12 +565,16 @@ impl ProducerClient {
             Some(submission::SubmissionStatus::Failed(submission, chunk)) => {
                 let chunk_failed = crate::common::ChunkFailed::from_internal(chunk, &submission);
                 let submission_failed = submission.into();
-                Err(CError(L(crate::errors::SubmissionFailed(
+                Err(CError(L(L(errors::SubmissionFailed(
                     submission_failed,
                     chunk_failed,
-                ))))
+                )))))
             }
-            _ => Ok(None),
+            Some(submission::SubmissionStatus::Cancelled(submission)) => Err(CError(L(R(L(
+                errors::SubmissionCancelled(submission.into()),
+            ))))),
+            Some(submission::SubmissionStatus::InProgress(_)) => Ok(None),
+            None => Err(CError(L(R(R(SubmissionNotFound(id.into())))))),
         }
     }
 }
-- 
2.43.0


From bd441b470a22fc2e73eae103d90af36973c1d5b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:04 +0000
Subject: [PATCH 21/28] fix: the number of skipped chunks in the metrics counts
 every chunk once

---
 opsqueue/src/common/chunk.rs | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/opsqueue/src/common/chunk.rs b/opsqueue/src/common/chunk.rs
index 48290dd..aad0079 100644
--- a/opsqueue/src/common/chunk.rs
+++ b/opsqueue/src/common/chunk.rs
@@ -608,23 +608,32 @@ pub mod db {
     ) -> sqlx::Result<()> {
         let now = chrono::prelude::Utc::now();
 
-        let query_res = sqlx::query!("
-    SAVEPOINT skip_remaining_chunks;
+        sqlx::query!("SAVEPOINT skip_remaining_chunks;")
+            .execute(conn.get_inner())
+            .await?;
 
+        // Run by itself, as `rows_affected` covers all statements of a query
+        let skipped = sqlx::query!("
     INSERT INTO chunks_failed
     (submission_id, chunk_index, input_content, failure, skipped, failed_at)
     SELECT submission_id, chunk_index, input_content, '', 1, julianday($1) FROM chunks WHERE chunks.submission_id = $2;
+    ",
+    now,
+    submission_id,
+    ).execute(conn.get_inner()).await?.rows_affected();
 
-    DELETE FROM chunks WHERE chunks.submission_id = $3;
+        sqlx::query!(
+            "
+    DELETE FROM chunks WHERE chunks.submission_id = $1;
 
     RELEASE SAVEPOINT skip_remaining_chunks;
     ",
-    now,
-    submission_id,
-    submission_id,
-    ).execute(conn.get_inner()).await?;
+            submission_id,
+        )
+        .execute(conn.get_inner())
+        .await?;
 
-        counter!(crate::prometheus::CHUNKS_SKIPPED_COUNTER).increment(query_res.rows_affected());
+        counter!(crate::prometheus::CHUNKS_SKIPPED_COUNTER).increment(skipped);
         Ok(())
     }
 
-- 
2.43.0


From 1dffc6811f24e47bfa3770c79268330d5539ce49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:25:07 +0000
Subject: [PATCH 22/28] fix: dropping a Python client does not wait for its
 runtime, possibly on that runtime's own thread

Dropping a client waits for its blocking tasks while holding the GIL that those
tasks need, or waits on such a task for itself: the whole process hangs.
---
 libs/opsqueue_python/src/common.rs   | 29 ++++++++++++++++++++++++++--
 libs/opsqueue_python/src/consumer.rs |  4 ++--
 libs/opsqueue_python/src/producer.rs | 10 ++++++----
 3 files changed, 35 insertions(+), 8 deletions(-)

diff --git a/libs/opsqueue_python/src/common.rs b/libs/opsqueue_python/src/common.rs
index 0402c85..28e2351 100644
--- a/libs/opsqueue_python/src/common.rs
+++ b/libs/opsqueue_python/src/common.rs
@@ -617,13 +617,38 @@ async fn check_signals_in_background() -> FatalPythonException {
 ///
 /// Panics if creating the Tokio runtime fails.
 #[must_use]
-pub(crate) fn start_runtime() -> Arc<tokio::runtime::Runtime> {
+pub(crate) fn start_runtime() -> Arc<ClientRuntime> {
     let runtime = tokio::runtime::Builder::new_multi_thread()
         .worker_threads(1)
         .enable_all()
         .build()
         .expect("Failed to create Tokio runtime in opsqueue client");
-    Arc::new(runtime)
+    Arc::new(ClientRuntime(Some(runtime)))
+}
+
+/// The Tokio runtime of a client, which shuts down without waiting for what still runs on it.
+///
+/// A plain Tokio runtime waits for its blocking threads when it is dropped.
+/// Python drops a client whenever its last reference disappears:
+/// always while holding the GIL (which those threads might be waiting for),
+/// and possibly on one of those threads itself. Waiting then never ends.
+#[derive(Debug)]
+pub(crate) struct ClientRuntime(Option<tokio::runtime::Runtime>);
+
+impl std::ops::Deref for ClientRuntime {
+    type Target = tokio::runtime::Runtime;
+
+    fn deref(&self) -> &Self::Target {
+        self.0.as_ref().expect("Only `None` during `drop`")
+    }
+}
+
+impl Drop for ClientRuntime {
+    fn drop(&mut self) {
+        if let Some(runtime) = self.0.take() {
+            runtime.shutdown_background();
+        }
+    }
 }
 
 /// Formats a Python exception
diff --git a/libs/opsqueue_python/src/consumer.rs b/libs/opsqueue_python/src/consumer.rs
index c3cbb93..d891f69 100644
--- a/libs/opsqueue_python/src/consumer.rs
+++ b/libs/opsqueue_python/src/consumer.rs
@@ -27,7 +27,7 @@ use opsqueue::consumer::strategy;
 
 use crate::errors::{CError, CPyResult};
 use crate::{
-    common::{run_unless_interrupted, start_runtime},
+    common::{ClientRuntime, run_unless_interrupted, start_runtime},
     errors::FatalPythonException,
 };
 
@@ -40,7 +40,7 @@ create_exception!(opsqueue_internal, ConsumerClientError, PyException);
 pub struct ConsumerClient {
     client: ActualConsumerClient,
     object_store_client: ObjectStoreClient,
-    runtime: Arc<tokio::runtime::Runtime>,
+    runtime: Arc<ClientRuntime>,
 }
 
 #[pymethods]
diff --git a/libs/opsqueue_python/src/producer.rs b/libs/opsqueue_python/src/producer.rs
index fd90e23..25784ba 100644
--- a/libs/opsqueue_python/src/producer.rs
+++ b/libs/opsqueue_python/src/producer.rs
@@ -22,7 +22,9 @@ use ux::u63;
 
 use crate::{
     async_util,
-    common::{SubmissionId, SubmissionStatus, run_unless_interrupted, start_runtime},
+    common::{
+        ClientRuntime, SubmissionId, SubmissionStatus, run_unless_interrupted, start_runtime,
+    },
     errors::{self, CError, CPyResult, FatalPythonException},
 };
 
@@ -36,7 +38,7 @@ const SUBMISSION_POLLING_INTERVAL: Duration = Duration::from_secs(5);
 pub struct ProducerClient {
     client: ActualClient,
     object_store_client: opsqueue::object_store::ObjectStoreClient,
-    runtime: Arc<tokio::runtime::Runtime>,
+    runtime: Arc<ClientRuntime>,
 }
 
 #[pymethods]
@@ -584,7 +586,7 @@ pub type ChunksStream = BoxStream<'static, CPyResult<Vec<u8>, ChunkRetrievalErro
 #[pyclass(module = "opsqueue")]
 pub struct PyChunksIter {
     stream: Arc<tokio::sync::Mutex<ChunksStream>>,
-    runtime: Arc<tokio::runtime::Runtime>,
+    runtime: Arc<ClientRuntime>,
 }
 
 impl PyChunksIter {
@@ -632,7 +634,7 @@ impl PyChunksIter {
 #[pyclass(module = "opsqueue")]
 pub struct PyChunksAsyncIter {
     stream: Arc<tokio::sync::Mutex<ChunksStream>>,
-    runtime: Arc<tokio::runtime::Runtime>,
+    runtime: Arc<ClientRuntime>,
 }
 
 impl From<PyChunksIter> for PyChunksAsyncIter {
-- 
2.43.0


From a054acb0efc00d707be7c19f98cd8ec30e70520e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:18 +0000
Subject: [PATCH 23/28] fix: the health check needs the write lock, so that a
 database that cannot be written is noticed

---
 opsqueue/src/db/mod.rs | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/opsqueue/src/db/mod.rs b/opsqueue/src/db/mod.rs
index 4514b80..974d4e2 100644
--- a/opsqueue/src/db/mod.rs
+++ b/opsqueue/src/db/mod.rs
@@ -206,16 +206,18 @@ impl DBPools {
     /// the DB for a (too) long time.
     pub async fn check_health(&self) -> bool {
         match self.writer_conn().await {
-            Ok(mut conn) => conn
-                .transaction(|mut tx| {
-                    Box::pin(async move {
-                        let _count =
-                            crate::common::submission::db::count_submissions(&mut tx).await?;
-                        Ok::<_, anyhow::Error>(())
-                    })
-                })
-                .await
-                .is_ok(),
+            Ok(mut conn) => async {
+                // A plain `BEGIN` takes the write lock only once something is written.
+                let mut tx = conn.get_inner().begin_with("BEGIN IMMEDIATE").await?;
+                let _count = crate::common::submission::db::count_submissions(
+                    Conn::<True>::from_tx(&mut tx),
+                )
+                .await?;
+                tx.commit().await?;
+                Ok::<_, anyhow::Error>(())
+            }
+            .await
+            .is_ok(),
             Err(err) => {
                 tracing::error!(
                     error = as_dyn_error(&err),
-- 
2.43.0


From a28b93d19c5cb482d645cdf53ac556ecfd11eedd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:10 +0000
Subject: [PATCH 24/28] fix: a chunk whose outcome could not be recorded is
 offered again at once, also to waiting consumers

---
 opsqueue/src/consumer/server/mod.rs | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/opsqueue/src/consumer/server/mod.rs b/opsqueue/src/consumer/server/mod.rs
index e63aebc..11bb9a7 100644
--- a/opsqueue/src/consumer/server/mod.rs
+++ b/opsqueue/src/consumer/server/mod.rs
@@ -225,7 +225,22 @@ impl Completer {
         let start = tokio::time::Instant::now();
 
         let res: anyhow::Result<()> = async move {
-            let mut conn = self.pool.writer_conn().await?;
+            let mut conn = match self.pool.writer_conn().await {
+                Ok(conn) => conn,
+                Err(err) => {
+                    // As below: if nothing can be written, the chunk is unreserved nevertheless
+                    let (CompleterMessage::Complete {
+                        id, reservation, ..
+                    }
+                    | CompleterMessage::Fail {
+                        id, reservation, ..
+                    }) = msg;
+                    if let Some(reservation) = reservation {
+                        let _ = self.dispatcher.release(id, &reservation, false).await;
+                    }
+                    return Err(err.into());
+                }
+            };
 
             match msg {
                 CompleterMessage::Complete {
@@ -239,9 +254,10 @@ impl Completer {
                         crate::common::chunk::db::complete_chunk(id, output_content, &mut conn)
                             .await;
 
+                    let delayed = db_res.is_ok();
                     if let Some(reservation) = reservation
                         && let Some(started_at) =
-                            self.dispatcher.release(id, &reservation, true).await
+                            self.dispatcher.release(id, &reservation, delayed).await
                     {
                         histogram!(crate::prometheus::CHUNKS_DURATION_COMPLETED_HISTOGRAM)
                             .record(started_at.elapsed());
-- 
2.43.0


From 0448d86178418971ddd3d6324fcb9c410a27d987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:50 +0000
Subject: [PATCH 25/28] fix: chunks and results larger than 16 MiB get through
 the consumer's connection

---
 opsqueue/src/consumer/client.rs     | 9 +++++++--
 opsqueue/src/consumer/server/mod.rs | 3 +++
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/opsqueue/src/consumer/client.rs b/opsqueue/src/consumer/client.rs
index 91b194c..8125e5a 100644
--- a/opsqueue/src/consumer/client.rs
+++ b/opsqueue/src/consumer/client.rs
@@ -20,7 +20,7 @@ use tokio::{
 };
 use tokio_tungstenite::{
     MaybeTlsStream, WebSocketStream,
-    tungstenite::{self, Message},
+    tungstenite::{self, Message, protocol::WebSocketConfig},
 };
 use tokio_util::sync::{CancellationToken, DropGuard};
 // use tokio_websockets::{MaybeTlsStream, Message, WebSocketStream};
@@ -301,7 +301,12 @@ impl Client {
         let in_flight_requests =
             InFlightRequests(Arc::new((AtomicUsize::new(0), Mutex::new(HashMap::new()))));
 
-        let (websocket_conn, _resp) = tokio_tungstenite::connect_async(endpoint_uri).await?;
+        // How large a reply is depends on the sizes of the chunks that are waiting at the server.
+        let config = WebSocketConfig::default()
+            .max_message_size(None)
+            .max_frame_size(None);
+        let (websocket_conn, _resp) =
+            tokio_tungstenite::connect_async_with_config(endpoint_uri, Some(config), false).await?;
         let (ws_sink, mut ws_stream) = websocket_conn.split();
         let ws_sink = Arc::new(Mutex::new(ws_sink));
         let cancellation_token = CancellationToken::new();
diff --git a/opsqueue/src/consumer/server/mod.rs b/opsqueue/src/consumer/server/mod.rs
index 11bb9a7..d79d0fb 100644
--- a/opsqueue/src/consumer/server/mod.rs
+++ b/opsqueue/src/consumer/server/mod.rs
@@ -113,6 +113,9 @@ async fn ws_accept_handler(
     ws: WebSocketUpgrade,
     State(state): State<Arc<ServerState>>,
 ) -> axum::response::Response {
+    // Consumers do not split messages into several frames,
+    // so a frame may be as large as a message (of which the default maximum is 64 MiB).
+    let ws = ws.max_frame_size(64 << 20);
     ws.on_upgrade(|ws_stream| async move {
         gauge!(crate::prometheus::CONSUMERS_CONNECTED_GAUGE).increment(1);
 
-- 
2.43.0


From d9f97d08e7049721cfc510672ed275186cd4ffca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:12 +0000
Subject: [PATCH 26/28] fix: submissions that could not be inserted are not
 counted as inserted

---
 opsqueue/src/common/submission.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/opsqueue/src/common/submission.rs b/opsqueue/src/common/submission.rs
index 6ddf985..6914cc6 100644
--- a/opsqueue/src/common/submission.rs
+++ b/opsqueue/src/common/submission.rs
@@ -425,8 +425,10 @@ pub mod db {
             })
             .await;
 
-        counter!(crate::prometheus::SUBMISSIONS_TOTAL_COUNTER).increment(1);
-        counter!(crate::prometheus::CHUNKS_TOTAL_COUNTER).increment(chunks_total);
+        if res.is_ok() {
+            counter!(crate::prometheus::SUBMISSIONS_TOTAL_COUNTER).increment(1);
+            counter!(crate::prometheus::CHUNKS_TOTAL_COUNTER).increment(chunks_total);
+        }
         res
     }
 
-- 
2.43.0


From 02759e54607c382ccc66153b933005c1de04650f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:12 +0000
Subject: [PATCH 27/28] fix: strategic metadata keys with a NUL character are
 reported in full

---
 opsqueue/src/common/submission.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/opsqueue/src/common/submission.rs b/opsqueue/src/common/submission.rs
index 6914cc6..da49653 100644
--- a/opsqueue/src/common/submission.rs
+++ b/opsqueue/src/common/submission.rs
@@ -516,6 +516,8 @@ pub mod db {
         id: SubmissionId,
         mut conn: impl Connection,
     ) -> Result<Submission, E<DatabaseError, SubmissionNotFound>> {
+        // NOTE: Not `json_group_object(key, value)`, here and below:
+        // that cuts off a key which contains a NUL character.
         let submission_row = query!(
             r#"
             SELECT id AS "id: SubmissionId"
@@ -524,7 +526,7 @@ pub mod db {
             , chunks_done AS "chunks_done: ChunkCount"
             , chunk_size AS "chunk_size!: ChunkSize"
             , metadata
-            , ( SELECT json_group_object(metadata_key, metadata_value)
+            , ( SELECT '{' || COALESCE(group_concat(json_quote(metadata_key) || ':' || metadata_value), '') || '}'
                 FROM submissions_metadata
                 WHERE submission_id = submissions.id
               ) AS "strategic_metadata!: sqlx::types::Json<StrategicMetadataMap>"
@@ -685,7 +687,7 @@ pub mod db {
             , chunks_done AS "chunks_done: ChunkCount"
             , chunk_size AS "chunk_size!: ChunkSize"
             , metadata
-            , ( SELECT json_group_object(metadata_key, metadata_value)
+            , ( SELECT '{' || COALESCE(group_concat(json_quote(metadata_key) || ':' || metadata_value), '') || '}'
                 FROM submissions_metadata
                 WHERE submission_id = submissions.id
               ) AS "strategic_metadata!: sqlx::types::Json<StrategicMetadataMap>"
@@ -718,7 +720,7 @@ pub mod db {
             , chunks_total AS "chunks_total: ChunkCount"
             , chunk_size AS "chunk_size!: ChunkSize"
             , metadata
-            , ( SELECT json_group_object(metadata_key, metadata_value)
+            , ( SELECT '{' || COALESCE(group_concat(json_quote(metadata_key) || ':' || metadata_value), '') || '}'
                 FROM submissions_metadata
                 WHERE submission_id = submissions_completed.id
               ) AS "strategic_metadata!: sqlx::types::Json<StrategicMetadataMap>"
@@ -753,7 +755,7 @@ pub mod db {
             , chunks_done AS "chunks_done: ChunkCount"
             , chunk_size AS "chunk_size!: ChunkSize"
             , metadata
-            , ( SELECT json_group_object(metadata_key, metadata_value)
+            , ( SELECT '{' || COALESCE(group_concat(json_quote(metadata_key) || ':' || metadata_value), '') || '}'
                 FROM submissions_metadata
                 WHERE submission_id = submissions_failed.id
               ) AS "strategic_metadata!: sqlx::types::Json<StrategicMetadataMap>"
@@ -795,7 +797,7 @@ pub mod db {
             , chunks_total AS "chunks_total: ChunkCount"
             , chunks_done AS "chunks_done: ChunkCount"
             , metadata
-            , ( SELECT json_group_object(metadata_key, metadata_value)
+            , ( SELECT '{' || COALESCE(group_concat(json_quote(metadata_key) || ':' || metadata_value), '') || '}'
                 FROM submissions_metadata
                 WHERE submission_id = submissions_cancelled.id
               ) AS "strategic_metadata!: sqlx::types::Json<StrategicMetadataMap>"
-- 
2.43.0


From e5c0736cef3944f92ba24fa9c3973919073d4266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:12 +0000
Subject: [PATCH 28/28] fix: strategic metadata keys with a NUL character are
 balanced by their own counts

---
 opsqueue/src/consumer/dispatcher/mod.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/opsqueue/src/consumer/dispatcher/mod.rs b/opsqueue/src/consumer/dispatcher/mod.rs
index b7747ea..ca8faaa 100644
--- a/opsqueue/src/consumer/dispatcher/mod.rs
+++ b/opsqueue/src/consumer/dispatcher/mod.rs
@@ -14,7 +14,7 @@ use libsqlite3_sys as ffi;
 use metastate::MetaState;
 use reserver::Reserver;
 use sqlx::QueryBuilder;
-use std::ffi::{CStr, CString};
+use std::ffi::CString;
 use std::time::{Duration, Instant};
 use tokio::sync::mpsc::UnboundedSender;
 use tokio_util::sync::CancellationToken;
@@ -121,7 +121,15 @@ unsafe extern "C" fn sqlite_metadata_counts_lookup(
         unsafe { ffi::sqlite3_result_null(context) };
         return;
     }
-    let Ok(metadata_key) = unsafe { CStr::from_ptr(metadata_key_ptr.cast()) }.to_str() else {
+    // Not NUL-terminated: a key may itself contain NUL.
+    let metadata_key_len = unsafe { ffi::sqlite3_value_bytes(*args.add(0)) };
+    let metadata_key_bytes = unsafe {
+        std::slice::from_raw_parts(
+            metadata_key_ptr,
+            usize::try_from(metadata_key_len).unwrap_or_default(),
+        )
+    };
+    let Ok(metadata_key) = std::str::from_utf8(metadata_key_bytes) else {
         tracing::error!("opsqueue_metadata_counts got non-utf8 metadata_key");
         unsafe { ffi::sqlite3_result_null(context) };
         return;
-- 
2.43.0

