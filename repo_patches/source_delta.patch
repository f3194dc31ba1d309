From df942b7e4e62715deaf24e5e918b5b2304f05633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:55 +0000
Subject: [PATCH 1/6] fix: reject multiproof positions that overflow 64-bit
 gindices

The gindex of a leaf below depth 63 wrapped around in release builds, so a
proof that verifies against the root could report a deep leaf at the position
of an unrelated, shallower node.
---
 ssz-multiproofs/src/multiproof.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ssz-multiproofs/src/multiproof.rs b/ssz-multiproofs/src/multiproof.rs
index c4dbac6..e8e93c1 100644
--- a/ssz-multiproofs/src/multiproof.rs
+++ b/ssz-multiproofs/src/multiproof.rs
@@ -163,7 +163,11 @@ impl Iterator for GIndexIterator<'_> {
             self.descriptor_index += 1;
             if !bit {
                 self.stack.push(self.current_gindex);
-                self.current_gindex *= 2;
+                // a wrapped gindex would alias the position of an unrelated, shallower node
+                self.current_gindex = self
+                    .current_gindex
+                    .checked_mul(2)
+                    .expect("multiproof is too deep for 64-bit gindices");
             } else {
                 let result = self.current_gindex;
                 self.current_gindex = self.stack.pop()? * 2 + 1;
-- 
2.43.0


From 12834ff770308c105e67bccec339f048a0ff37d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:40 +0000
Subject: [PATCH 2/6] fix: recover the link that finalizes the genesis
 checkpoint

In the all-zero state the justified checkpoint is already the finalized one, so
the consecutive link from it leaves the finalized checkpoint unchanged and
transition_link rejected the result of a valid state_transition.
---
 core/src/consensus_state.rs | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/core/src/consensus_state.rs b/core/src/consensus_state.rs
index 057eb41..a1ec213 100644
--- a/core/src/consensus_state.rs
+++ b/core/src/consensus_state.rs
@@ -157,16 +157,17 @@ impl ConsensusState {
         let target = other.current_justified_checkpoint;
 
         // Case 1: Finality was advanced
+        // 1-finality: the new finalized must be our previous `current_justified_checkpoint`. In the
+        // genesis state this checkpoint is already the finalized one, so it may be unchanged.
+        if other.finalized_checkpoint == self.current_justified_checkpoint
+            && target.epoch() - other.finalized_checkpoint.epoch() == 1
+        {
+            return Ok(Some(Link {
+                source: other.finalized_checkpoint,
+                target,
+            }));
+        }
         if self.finalized_checkpoint != other.finalized_checkpoint {
-            // 1-finality: the new finalized must be our previous `current_justified_checkpoint`
-            if other.finalized_checkpoint == self.current_justified_checkpoint
-                && target.epoch() - other.finalized_checkpoint.epoch() == 1
-            {
-                return Ok(Some(Link {
-                    source: other.finalized_checkpoint,
-                    target,
-                }));
-            }
             // A jump of 2 epochs would imply 2-finality, which is unsupported.
             if target.epoch() - other.finalized_checkpoint.epoch() == 2 {
                 return Err(ConsensusError::TwoFinality);
-- 
2.43.0


From 4017419f724f95597d7c1cdbfc7c76df7629bf14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:47 +0000
Subject: [PATCH 3/6] fix: report an invalid ABI-encoded consensus state as an
 error

Decoding went through the asserting constructor and panicked before the
intended InvalidState error could be returned.
---
 core/src/abi.rs             |  6 ++----
 core/src/consensus_state.rs | 14 ++++++++++++++
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/core/src/abi.rs b/core/src/abi.rs
index 2c86824..4aed8f0 100644
--- a/core/src/abi.rs
+++ b/core/src/abi.rs
@@ -14,7 +14,7 @@
 
 use alloy_sol_types::SolValue;
 
-use crate::{ConsensusError, ConsensusState, ensure};
+use crate::{ConsensusError, ConsensusState};
 
 // Defines the Solidity struct layouts for public types
 alloy_sol_types::sol! {
@@ -68,9 +68,7 @@ impl TryFrom<State> for crate::ConsensusState {
     type Error = ConsensusError;
 
     fn try_from(state: State) -> Result<Self, Self::Error> {
-        let state = ConsensusState::new(state.current_justified.into(), state.finalized.into());
-        ensure!(state.is_valid(), ConsensusError::InvalidState);
-        Ok(state)
+        ConsensusState::try_new(state.current_justified.into(), state.finalized.into())
     }
 }
 
diff --git a/core/src/consensus_state.rs b/core/src/consensus_state.rs
index a1ec213..fd5a5c7 100644
--- a/core/src/consensus_state.rs
+++ b/core/src/consensus_state.rs
@@ -64,6 +64,20 @@ impl ConsensusState {
         state
     }
 
+    /// Constructs a new `ConsensusState`, rejecting checkpoints that form an invalid state.
+    #[inline]
+    pub fn try_new(
+        current_justified_checkpoint: Checkpoint,
+        finalized_checkpoint: Checkpoint,
+    ) -> Result<Self, ConsensusError> {
+        let state = Self {
+            current_justified_checkpoint,
+            finalized_checkpoint,
+        };
+        ensure!(state.is_valid(), ConsensusError::InvalidState);
+        Ok(state)
+    }
+
     /// Returns the finalized checkpoint of the consensus state.
     #[inline]
     pub fn finalized_checkpoint(&self) -> Checkpoint {
-- 
2.43.0


From d9ad558e75999f927031e996d74025e646ce3fb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:47 +0000
Subject: [PATCH 4/6] fix: validate the exits of a state patch at epoch 0

The predecessor of patch epoch 0 saturated to epoch 0, so its exits were
compared with themselves and skipped all plausibility checks.
---
 core/src/input_reader/guest_input_reader.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/core/src/input_reader/guest_input_reader.rs b/core/src/input_reader/guest_input_reader.rs
index c018b3b..dac62a5 100644
--- a/core/src/input_reader/guest_input_reader.rs
+++ b/core/src/input_reader/guest_input_reader.rs
@@ -285,9 +285,11 @@ impl<E: EthSpec> GuestInput<'_, E> {
                 let validator = validators
                     .get(idx)
                     .expect("patched exit_epoch for missing validator");
-                let &prev_exit_epoch = self
-                    .patches
-                    .get(&(patch_epoch - 1))
+                // epoch 0 has no predecessor (epoch subtraction saturates)
+                let &prev_exit_epoch = patch_epoch
+                    .as_u64()
+                    .checked_sub(1)
+                    .and_then(|prev_epoch| self.patches.get(&Epoch::new(prev_epoch)))
                     .and_then(|p| p.validator_exits.get(idx))
                     .unwrap_or(&validator.exit_epoch);
 
-- 
2.43.0


From 33fc944d3d9806ff34be0f73811ac414b171a62b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:58 +0000
Subject: [PATCH 5/6] fix: validate the exits of all state patches together

Exits were only compared with the patch of the directly preceding epoch, so
a gap between two patches let an exit epoch change or count twice, and a
later patch could not contain an exit earlier than those of the patches
before, although exits and consolidations have separate queues.
---
 core/src/input_reader/guest_input_reader.rs | 58 ++++++++++-----------
 1 file changed, 27 insertions(+), 31 deletions(-)

diff --git a/core/src/input_reader/guest_input_reader.rs b/core/src/input_reader/guest_input_reader.rs
index dac62a5..7d2c6ae 100644
--- a/core/src/input_reader/guest_input_reader.rs
+++ b/core/src/input_reader/guest_input_reader.rs
@@ -261,7 +261,8 @@ impl<E: EthSpec> GuestInput<'_, E> {
             spec.compute_activation_exit_epoch(trusted_checkpoint.epoch())?,
         );
 
-        // validate the state patched
+        // the exits of all state patches
+        let mut exits = BTreeMap::new();
         for (&patch_epoch, patch) in &self.patches {
             debug!("Validating state patch: {}", patch_epoch);
 
@@ -269,29 +270,11 @@ impl<E: EthSpec> GuestInput<'_, E> {
             // Therefore, no new epochs from earlier times must be patched.
             assert!(patch_epoch >= trusted_checkpoint.epoch());
 
-            // even at the earliest_exit_epoch additional exits can happen
-            // we could subtract state.exit_balance_to_consume and
-            // state.consolidation_balance_to_consume to make this more exact
-            let mut exit_balance_to_consume = churn;
-
-            // validate the patched exit epochs, this needs to be sorted by epoch
-            for (idx, &exit_epoch) in patch
-                .validator_exits
-                .iter()
-                .sorted_unstable_by_key(|v| v.1.as_u64())
-            {
-                trace!("Validator {idx} exiting at: {exit_epoch}");
-
+            for (&idx, &exit_epoch) in &patch.validator_exits {
                 let validator = validators
-                    .get(idx)
+                    .get(&idx)
                     .expect("patched exit_epoch for missing validator");
-                // epoch 0 has no predecessor (epoch subtraction saturates)
-                let &prev_exit_epoch = patch_epoch
-                    .as_u64()
-                    .checked_sub(1)
-                    .and_then(|prev_epoch| self.patches.get(&Epoch::new(prev_epoch)))
-                    .and_then(|p| p.validator_exits.get(idx))
-                    .unwrap_or(&validator.exit_epoch);
+                let &prev_exit_epoch = exits.get(&idx).unwrap_or(&validator.exit_epoch);
 
                 // ignore not changing patches
                 if prev_exit_epoch == exit_epoch {
@@ -300,18 +283,31 @@ impl<E: EthSpec> GuestInput<'_, E> {
 
                 // exit_epoch must only change once
                 assert_eq!(prev_exit_epoch, spec.far_future_epoch);
-
-                // exit epoch must be in the future
-                assert!(exit_epoch >= earliest_exit_epoch);
-                exit_balance_to_consume += (exit_epoch - earliest_exit_epoch).as_u64() * churn;
-                earliest_exit_epoch = exit_epoch;
-
-                // churn limit must be respected
-                assert!(exit_balance_to_consume >= validator.effective_balance);
-                exit_balance_to_consume -= validator.effective_balance;
+                exits.insert(idx, exit_epoch);
             }
         }
 
+        // even at the earliest_exit_epoch additional exits can happen
+        // we could subtract state.exit_balance_to_consume and
+        // state.consolidation_balance_to_consume to make this more exact
+        let mut exit_balance_to_consume = churn;
+
+        // Validate the patched exit epochs, this needs to be sorted by epoch. A later patch can
+        // contain earlier exits, since exits and consolidations have separate queues.
+        for (idx, &exit_epoch) in exits.iter().sorted_unstable_by_key(|v| v.1.as_u64()) {
+            trace!("Validator {idx} exiting at: {exit_epoch}");
+
+            // exit epoch must be in the future
+            assert!(exit_epoch >= earliest_exit_epoch);
+            exit_balance_to_consume += (exit_epoch - earliest_exit_epoch).as_u64() * churn;
+            earliest_exit_epoch = exit_epoch;
+
+            // churn limit must be respected
+            let effective_balance = validators[idx].effective_balance;
+            assert!(exit_balance_to_consume >= effective_balance);
+            exit_balance_to_consume -= effective_balance;
+        }
+
         Ok(())
     }
 }
-- 
2.43.0


From c067e2f2255b3ea48f4dc06d163c1f23fe32dc79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:31 +0000
Subject: [PATCH 6/6] fix: collect attestations included until the end of the
 epoch after their target

---
 host/src/input_reader/host_input_reader.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/host/src/input_reader/host_input_reader.rs b/host/src/input_reader/host_input_reader.rs
index 059bcde..f0e0fb0 100644
--- a/host/src/input_reader/host_input_reader.rs
+++ b/host/src/input_reader/host_input_reader.rs
@@ -299,8 +299,8 @@ async fn collect_attestations_for_links<E: EthSpec, CR: ChainReader>(
     // The attestation must be no newer than MIN_ATTESTATION_INCLUSION_DELAY slots.
     // It is safe to ignore this and assume MIN_ATTESTATION_INCLUSION_DELAY = 0
     let start_slot = min_epoch * E::slots_per_epoch();
-    // The attestation must be no older than SLOTS_PER_EPOCH slots.
-    let end_slot = (max_epoch + 1) * E::slots_per_epoch();
+    // The attestation can be included until the end of the epoch after its target (EIP-7045).
+    let end_slot = (max_epoch + 1).end_slot(E::slots_per_epoch());
 
     // 1. Fetch all blocks concurrently
     let block_futs =
-- 
2.43.0

