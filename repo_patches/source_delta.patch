From df6c9b14cc198e7ce960395a1f68c0f8f284cac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:39 +0000
Subject: [PATCH 1/6] Add verification hook: harness module included under
 cfg(openraft_verif)

---
 openraft/src/lib.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/openraft/src/lib.rs b/openraft/src/lib.rs
index b1d01a3..f0ce295 100644
--- a/openraft/src/lib.rs
+++ b/openraft/src/lib.rs
@@ -166,3 +166,11 @@ impl<T> AppData for T where T: OptionalSend + OptionalSync + 'static + OptionalS
 pub trait AppDataResponse: OptionalSend + OptionalSync + 'static + OptionalSerde {}
 
 impl<T> AppDataResponse for T where T: OptionalSend + OptionalSync + 'static + OptionalSerde {}
+
+/// Verification harnesses, compiled only with `--cfg openraft_verif`; the file is named by the
+/// environment variable `OPENRAFT_VERIF_HARNESS` at build time.
+#[cfg(openraft_verif)]
+#[allow(missing_docs, dead_code, unused)]
+pub mod verif {
+    include!(env!("OPENRAFT_VERIF_HARNESS"));
+}
-- 
2.43.0


From 426a1f8b205bca6760f7a4ae8362207a255725cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:33 +0000
Subject: [PATCH 2/6] fix: keep values above the granted in order in
 VecProgress

Updating a value that already is greater than the granted one did not move
it up, so that a later update counted nodes with smaller values as having
reached a greater one: a value could be granted, and a log committed, that
no quorum has reached.
---
 openraft/src/progress/mod.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/openraft/src/progress/mod.rs b/openraft/src/progress/mod.rs
index db1e19b..e1b7f9b 100644
--- a/openraft/src/progress/mod.rs
+++ b/openraft/src/progress/mod.rs
@@ -356,9 +356,16 @@ where
 
         // Sort and find the greatest value granted by a quorum set.
 
-        if prev_le_granted && new_gt_granted {
+        if new_gt_granted {
+            // Values greater than the granted must always be kept in order,
+            // even if it already was greater than the granted.
             let new_index = self.move_up(index);
 
+            if !prev_le_granted {
+                // It has already been counted, a quorum can not be constituted by this update.
+                return Ok(&self.granted);
+            }
+
             // From high to low, find the max value that has constituted a quorum.
             for i in new_index..self.voter_count {
                 let prog = self.vector[i].1.borrow();
-- 
2.43.0


From 8e673a16f48b2e5feb987bf569863f3afdf4c04a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:57 +0000
Subject: [PATCH 3/6] fix: drop a local membership that an installed snapshot
 supersedes

Installing a snapshot beyond the last local log left an uncommitted local membership effective when
its log index is greater than that of the snapshot's membership, although the snapshot replaces the
log the membership came from.
---
 openraft/src/engine/handler/following_handler/mod.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/openraft/src/engine/handler/following_handler/mod.rs b/openraft/src/engine/handler/following_handler/mod.rs
index 995f800..dc2a9bf 100644
--- a/openraft/src/engine/handler/following_handler/mod.rs
+++ b/openraft/src/engine/handler/following_handler/mod.rs
@@ -312,6 +312,14 @@ where C: RaftTypeConfig
             }
         }
 
+        // Up to the snapshot's last log, the membership in the snapshot is the one that counts:
+        // revert a local one in these logs, as the leader may not have it.
+        let membership_state = &mut self.state.membership_state;
+        if membership_state.effective().log_id().index() <= Some(snap_last_log_id.index) {
+            let since = membership_state.committed().log_id().next_index();
+            membership_state.truncate(since);
+        }
+
         let io_id = IOId::new_log_io(self.leader_vote, Some(snap_last_log_id));
         self.state.accept_io(io_id);
         self.state.committed = Some(snap_last_log_id);
-- 
2.43.0


From a02788ba568d0824a8aed495596a05fe7c617556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:12 +0000
Subject: [PATCH 4/6] fix: calculate the log to purge when purge_batch_size is
 0

With `purge_batch_size` being 0 and no log to purge, `calc_purge_upto()`
underflows if no log is out of `max_in_snapshot_log_to_keep`.
---
 openraft/src/engine/handler/log_handler/mod.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/openraft/src/engine/handler/log_handler/mod.rs b/openraft/src/engine/handler/log_handler/mod.rs
index 7b36aa2..1f82e94 100644
--- a/openraft/src/engine/handler/log_handler/mod.rs
+++ b/openraft/src/engine/handler/log_handler/mod.rs
@@ -88,6 +88,9 @@ where C: RaftTypeConfig
             purge_end
         );
 
+        // There must be at least one log to purge.
+        let batch_size = std::cmp::max(batch_size, 1);
+
         if st.last_purged_log_id().next_index() + batch_size > purge_end {
             tracing::debug!(
                 snapshot_last_log_id = debug(self.state.snapshot_meta.last_log_id),
-- 
2.43.0


From 28b8f58f60287b77e44387fba77a9da0ec2c9848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:12 +0000
Subject: [PATCH 5/6] fix: do not move purge_upto backwards when a snapshot is
 built

On a leader, a purge triggered by the user may be postponed because a
replication task is using the logs. A policy based purge scheduled in the
meantime may be for a smaller log id.
---
 openraft/src/engine/handler/log_handler/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/openraft/src/engine/handler/log_handler/mod.rs b/openraft/src/engine/handler/log_handler/mod.rs
index 1f82e94..3598095 100644
--- a/openraft/src/engine/handler/log_handler/mod.rs
+++ b/openraft/src/engine/handler/log_handler/mod.rs
@@ -55,7 +55,10 @@ where C: RaftTypeConfig
     #[tracing::instrument(level = "debug", skip_all)]
     pub(crate) fn schedule_policy_based_purge(&mut self) {
         if let Some(purge_upto) = self.calc_purge_upto() {
-            self.update_purge_upto(purge_upto);
+            // A greater one may have been scheduled by the user, and postponed.
+            if self.state.purge_upto() < Some(&purge_upto) {
+                self.update_purge_upto(purge_upto);
+            }
         }
     }
 
-- 
2.43.0


From d84cf19b673cb9c34f32ffc9384dd481bf27600a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:12 +0000
Subject: [PATCH 6/6] fix: a leader stops leading when it elects again

`Raft::trigger().elect()` on a leader saved a greater vote but kept the
Leader instance, which went on proposing logs with the former vote, and
then collide with the blank log of the newly established leader.
---
 openraft/src/engine/engine_impl.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/openraft/src/engine/engine_impl.rs b/openraft/src/engine/engine_impl.rs
index 7bfab27..a4bf46e 100644
--- a/openraft/src/engine/engine_impl.rs
+++ b/openraft/src/engine/engine_impl.rs
@@ -212,6 +212,9 @@ where C: RaftTypeConfig
         let new_term = self.state.vote.leader_id().term + 1;
         let new_vote = Vote::new(new_term, self.config.id);
 
+        // A leader, if it is, must not propose with its former vote anymore.
+        self.leader = None;
+
         let candidate = self.new_candidate(new_vote);
 
         tracing::info!("{}, new candidate: {}", func_name!(), candidate);
-- 
2.43.0

