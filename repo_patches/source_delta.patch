From 8bb5b7a6b99fc81b75c6bdd19691368da4328131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:46 +0000
Subject: [PATCH 01/36] fix: slot stream repeats a slot or ends when its timer
 fires before the slot starts

---
 ethereum-consensus/src/clock.rs | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/ethereum-consensus/src/clock.rs b/ethereum-consensus/src/clock.rs
index 0f0ebb7..6a85a7e 100644
--- a/ethereum-consensus/src/clock.rs
+++ b/ethereum-consensus/src/clock.rs
@@ -235,6 +235,7 @@ pub struct SlotStream<T: TimeProvider + Send + Sync> {
     delay: Pin<Box<Sleep>>,
     clock: Clock<T>,
     first_slot: Option<Slot>,
+    last_slot: Option<Slot>,
 }
 
 #[cfg(feature = "async")]
@@ -242,7 +243,7 @@ impl<T: TimeProvider + Send + Sync> Clock<T> {
     pub fn into_stream(self) -> SlotStream<T> {
         let delay = Box::pin(sleep(self.duration_until_next_slot()));
         let current_slot = self.current_slot();
-        SlotStream { delay, clock: self, first_slot: current_slot }
+        SlotStream { delay, clock: self, first_slot: current_slot, last_slot: None }
     }
 }
 
@@ -253,14 +254,23 @@ impl<T: TimeProvider + Send + Sync> Stream for SlotStream<T> {
     fn poll_next(mut self: Pin<&mut Self>, cx: &mut task::Context<'_>) -> Poll<Option<Self::Item>> {
         let current_slot = self.first_slot.take();
         if let Some(slot) = current_slot {
+            self.last_slot = current_slot;
             Poll::Ready(Some(slot))
         } else {
-            match Pin::new(&mut self.delay).poll(cx) {
-                Poll::Ready(_) => {
-                    self.delay = Box::pin(sleep(self.clock.duration_until_next_slot()));
-                    Poll::Ready(self.clock.current_slot())
+            loop {
+                match Pin::new(&mut self.delay).poll(cx) {
+                    Poll::Ready(_) => {
+                        self.delay = Box::pin(sleep(self.clock.duration_until_next_slot()));
+                        let current_slot = self.clock.current_slot();
+                        // NOTE: the timer can fire before the clock has reached the next slot,
+                        // in this case wait again rather than repeat a slot or end the stream
+                        if current_slot > self.last_slot {
+                            self.last_slot = current_slot;
+                            return Poll::Ready(current_slot)
+                        }
+                    }
+                    Poll::Pending => return Poll::Pending,
                 }
-                Poll::Pending => Poll::Pending,
             }
         }
     }
-- 
2.43.0


From f6e1e2464755a4bcef4caec40d14fda60dd06f26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:00 +0000
Subject: [PATCH 02/36] fix: light client updates encode signature_slot as a
 quoted integer

---
 ethereum-consensus/src/altair/light_client.rs  | 3 +++
 ethereum-consensus/src/capella/light_client.rs | 3 +++
 ethereum-consensus/src/deneb/light_client.rs   | 3 +++
 3 files changed, 9 insertions(+)

diff --git a/ethereum-consensus/src/altair/light_client.rs b/ethereum-consensus/src/altair/light_client.rs
index 628e6b7..bdf5cb3 100644
--- a/ethereum-consensus/src/altair/light_client.rs
+++ b/ethereum-consensus/src/altair/light_client.rs
@@ -36,6 +36,7 @@ pub struct LightClientUpdate<const SYNC_COMMITTEE_SIZE: usize> {
     pub finalized_header: LightClientHeader,
     pub finality_branch: Vector<Bytes32, FINALIZED_ROOT_INDEX_FLOOR_LOG_2>,
     pub sync_aggregate: SyncAggregate<SYNC_COMMITTEE_SIZE>,
+    #[serde(with = "crate::serde::as_str")]
     pub signature_slot: Slot,
 }
 
@@ -45,6 +46,7 @@ pub struct LightClientFinalityUpdate<const SYNC_COMMITTEE_SIZE: usize> {
     pub finalized_header: LightClientHeader,
     pub finality_branch: Vector<Bytes32, FINALIZED_ROOT_INDEX_FLOOR_LOG_2>,
     pub sync_aggregate: SyncAggregate<SYNC_COMMITTEE_SIZE>,
+    #[serde(with = "crate::serde::as_str")]
     pub signature_slot: Slot,
 }
 
@@ -52,5 +54,6 @@ pub struct LightClientFinalityUpdate<const SYNC_COMMITTEE_SIZE: usize> {
 pub struct LightClientOptimisticUpdate<const SYNC_COMMITTEE_SIZE: usize> {
     pub attested_header: LightClientHeader,
     pub sync_aggregate: SyncAggregate<SYNC_COMMITTEE_SIZE>,
+    #[serde(with = "crate::serde::as_str")]
     pub signature_slot: Slot,
 }
diff --git a/ethereum-consensus/src/capella/light_client.rs b/ethereum-consensus/src/capella/light_client.rs
index 5596c7d..78fabc2 100644
--- a/ethereum-consensus/src/capella/light_client.rs
+++ b/ethereum-consensus/src/capella/light_client.rs
@@ -43,6 +43,7 @@ pub struct LightClientUpdate<
     pub finalized_header: LightClientHeader<BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES>,
     pub finality_branch: Vector<Bytes32, FINALIZED_ROOT_INDEX_FLOOR_LOG_2>,
     pub sync_aggregate: SyncAggregate<SYNC_COMMITTEE_SIZE>,
+    #[serde(with = "crate::serde::as_str")]
     pub signature_slot: Slot,
 }
 
@@ -56,6 +57,7 @@ pub struct LightClientFinalityUpdate<
     pub finalized_header: LightClientHeader<BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES>,
     pub finality_branch: Vector<Bytes32, FINALIZED_ROOT_INDEX_FLOOR_LOG_2>,
     pub sync_aggregate: SyncAggregate<SYNC_COMMITTEE_SIZE>,
+    #[serde(with = "crate::serde::as_str")]
     pub signature_slot: Slot,
 }
 
@@ -67,5 +69,6 @@ pub struct LightClientOptimisticUpdate<
 > {
     pub attested_header: LightClientHeader<BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES>,
     pub sync_aggregate: SyncAggregate<SYNC_COMMITTEE_SIZE>,
+    #[serde(with = "crate::serde::as_str")]
     pub signature_slot: Slot,
 }
diff --git a/ethereum-consensus/src/deneb/light_client.rs b/ethereum-consensus/src/deneb/light_client.rs
index b189a46..b598f85 100644
--- a/ethereum-consensus/src/deneb/light_client.rs
+++ b/ethereum-consensus/src/deneb/light_client.rs
@@ -41,6 +41,7 @@ pub struct LightClientUpdate<
     pub finalized_header: LightClientHeader<BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES>,
     pub finality_branch: Vector<Bytes32, FINALIZED_ROOT_INDEX_FLOOR_LOG_2>,
     pub sync_aggregate: SyncAggregate<SYNC_COMMITTEE_SIZE>,
+    #[serde(with = "crate::serde::as_str")]
     pub signature_slot: Slot,
 }
 
@@ -54,6 +55,7 @@ pub struct LightClientFinalityUpdate<
     pub finalized_header: LightClientHeader<BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES>,
     pub finality_branch: Vector<Bytes32, FINALIZED_ROOT_INDEX_FLOOR_LOG_2>,
     pub sync_aggregate: SyncAggregate<SYNC_COMMITTEE_SIZE>,
+    #[serde(with = "crate::serde::as_str")]
     pub signature_slot: Slot,
 }
 
@@ -65,5 +67,6 @@ pub struct LightClientOptimisticUpdate<
 > {
     pub attested_header: LightClientHeader<BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES>,
     pub sync_aggregate: SyncAggregate<SYNC_COMMITTEE_SIZE>,
+    #[serde(with = "crate::serde::as_str")]
     pub signature_slot: Slot,
 }
-- 
2.43.0


From f4119c9193ce68760014fb1a55b6a84e6b058d44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:00 +0000
Subject: [PATCH 03/36] fix: sequences of quoted integers decode from readers,
 trees and escaped text

---
 ethereum-consensus/src/serde.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ethereum-consensus/src/serde.rs b/ethereum-consensus/src/serde.rs
index 26f5e46..b15f45d 100644
--- a/ethereum-consensus/src/serde.rs
+++ b/ethereum-consensus/src/serde.rs
@@ -127,8 +127,8 @@ pub mod seq_of_str {
         {
             let mut coll = Vec::with_capacity(access.size_hint().unwrap_or(0));
 
-            while let Some(elem) = access.next_element()? {
-                let recovered_elem = T::from_str(elem).map_err(|_| {
+            while let Some(elem) = access.next_element::<String>()? {
+                let recovered_elem = T::from_str(&elem).map_err(|_| {
                     Error::custom("failure to parse element of sequence from string")
                 })?;
                 coll.push(recovered_elem);
-- 
2.43.0


From ec8946895560fc082128cafa4dd6a8255a24d676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:52 +0000
Subject: [PATCH 04/36] fix: type generation stops on an unreadable source
 instead of dropping its variant

---
 spec-gen/src/type_generator.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/spec-gen/src/type_generator.rs b/spec-gen/src/type_generator.rs
index ef1d41d..904cd99 100644
--- a/spec-gen/src/type_generator.rs
+++ b/spec-gen/src/type_generator.rs
@@ -3,7 +3,7 @@ use crate::{
     visitors::{as_syn_ident, generics_to_arguments, ToGenericsVisitor, TypeNameVisitor},
 };
 use convert_case::{Case, Casing};
-use std::{collections::HashSet, fs};
+use std::{collections::HashSet, fs, io::ErrorKind};
 use syn::{
     parse_quote, token::Mut, visit::Visit, AngleBracketedGenericArguments, Arm, Expr, GenericParam,
     Generics, Ident, ImplItemMethod, Item, ItemStruct,
@@ -255,7 +255,9 @@ fn load_type_defns(target_type: &Type, forks: &[Fork]) -> Vec<TypeDefn> {
         let source_path = format!("{SOURCE_ROOT}/{fork_name}/{type_module}.rs");
         let module_source = match fs::read_to_string(&source_path) {
             Ok(src) => src,
-            Err(_) => continue,
+            // a fork without this module does not define the type
+            Err(err) if err.kind() == ErrorKind::NotFound => continue,
+            Err(err) => panic!("could not read {source_path}: {err}"),
         };
         let file = syn::parse_file(&module_source).unwrap();
         for item in file.items {
-- 
2.43.0


From 4b0e2a5b02a6d7b070981a723c9935f43f680831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:45 +0000
Subject: [PATCH 05/36] fix: a constant redefined by a later fork replaces the
 earlier one in the generated spec

---
 spec-gen/src/generator.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/spec-gen/src/generator.rs b/spec-gen/src/generator.rs
index f31fe4e..ffca20d 100644
--- a/spec-gen/src/generator.rs
+++ b/spec-gen/src/generator.rs
@@ -625,6 +625,7 @@ fn parse_fork_diff_with_symbol_index(fork: &Fork) -> (ForkDiff, HashMap<String,
                 Item::Const(item) => {
                     let item = Constant::new(item, *fork);
                     if item.is_pub() {
+                        index.insert(item.item.ident.to_string(), module_name.to_string());
                         module.constants.push(item);
                     }
                 }
-- 
2.43.0


From b6be74ac9d50aeddea20e1a21658845c0e3082c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:54 +0000
Subject: [PATCH 06/36] fix: voluntary exits count a validator's time active
 from its activation

The specification requires current_epoch >= activation_epoch + SHARD_COMMITTEE_PERIOD;
counting from the eligibility epoch let validators leave that waited in the activation queue.
---
 ethereum-consensus/src/altair/spec/mod.rs          | 3 +--
 ethereum-consensus/src/bellatrix/spec/mod.rs       | 3 +--
 ethereum-consensus/src/capella/spec/mod.rs         | 3 +--
 ethereum-consensus/src/deneb/block_processing.rs   | 3 +--
 ethereum-consensus/src/electra/block_processing.rs | 3 +--
 ethereum-consensus/src/phase0/block_processing.rs  | 3 +--
 6 files changed, 6 insertions(+), 12 deletions(-)

diff --git a/ethereum-consensus/src/altair/spec/mod.rs b/ethereum-consensus/src/altair/spec/mod.rs
index 5715b45..71929c5 100644
--- a/ethereum-consensus/src/altair/spec/mod.rs
+++ b/ethereum-consensus/src/altair/spec/mod.rs
@@ -331,8 +331,7 @@ pub fn process_voluntary_exit<
             InvalidVoluntaryExit::EarlyExit { current_epoch, exit_epoch: voluntary_exit.epoch },
         )));
     }
-    let minimum_time_active =
-        validator.activation_eligibility_epoch + context.shard_committee_period;
+    let minimum_time_active = validator.activation_epoch + context.shard_committee_period;
     if current_epoch < minimum_time_active {
         return Err(invalid_operation_error(InvalidOperation::VoluntaryExit(
             InvalidVoluntaryExit::ValidatorIsNotActiveForLongEnough {
diff --git a/ethereum-consensus/src/bellatrix/spec/mod.rs b/ethereum-consensus/src/bellatrix/spec/mod.rs
index d37399c..d672309 100644
--- a/ethereum-consensus/src/bellatrix/spec/mod.rs
+++ b/ethereum-consensus/src/bellatrix/spec/mod.rs
@@ -598,8 +598,7 @@ pub fn process_voluntary_exit<
             InvalidVoluntaryExit::EarlyExit { current_epoch, exit_epoch: voluntary_exit.epoch },
         )));
     }
-    let minimum_time_active =
-        validator.activation_eligibility_epoch + context.shard_committee_period;
+    let minimum_time_active = validator.activation_epoch + context.shard_committee_period;
     if current_epoch < minimum_time_active {
         return Err(invalid_operation_error(InvalidOperation::VoluntaryExit(
             InvalidVoluntaryExit::ValidatorIsNotActiveForLongEnough {
diff --git a/ethereum-consensus/src/capella/spec/mod.rs b/ethereum-consensus/src/capella/spec/mod.rs
index 286de1a..8d22818 100644
--- a/ethereum-consensus/src/capella/spec/mod.rs
+++ b/ethereum-consensus/src/capella/spec/mod.rs
@@ -605,8 +605,7 @@ pub fn process_voluntary_exit<
             InvalidVoluntaryExit::EarlyExit { current_epoch, exit_epoch: voluntary_exit.epoch },
         )));
     }
-    let minimum_time_active =
-        validator.activation_eligibility_epoch + context.shard_committee_period;
+    let minimum_time_active = validator.activation_epoch + context.shard_committee_period;
     if current_epoch < minimum_time_active {
         return Err(invalid_operation_error(InvalidOperation::VoluntaryExit(
             InvalidVoluntaryExit::ValidatorIsNotActiveForLongEnough {
diff --git a/ethereum-consensus/src/deneb/block_processing.rs b/ethereum-consensus/src/deneb/block_processing.rs
index 2e57c71..3afdb73 100644
--- a/ethereum-consensus/src/deneb/block_processing.rs
+++ b/ethereum-consensus/src/deneb/block_processing.rs
@@ -320,8 +320,7 @@ pub fn process_voluntary_exit<
             InvalidVoluntaryExit::EarlyExit { current_epoch, exit_epoch: voluntary_exit.epoch },
         )))
     }
-    let minimum_time_active =
-        validator.activation_eligibility_epoch + context.shard_committee_period;
+    let minimum_time_active = validator.activation_epoch + context.shard_committee_period;
     if current_epoch < minimum_time_active {
         return Err(invalid_operation_error(InvalidOperation::VoluntaryExit(
             InvalidVoluntaryExit::ValidatorIsNotActiveForLongEnough {
diff --git a/ethereum-consensus/src/electra/block_processing.rs b/ethereum-consensus/src/electra/block_processing.rs
index 302b6eb..8210b9b 100644
--- a/ethereum-consensus/src/electra/block_processing.rs
+++ b/ethereum-consensus/src/electra/block_processing.rs
@@ -819,8 +819,7 @@ pub fn process_voluntary_exit<
         )));
     }
 
-    let minimum_time_active =
-        validator.activation_eligibility_epoch + context.shard_committee_period;
+    let minimum_time_active = validator.activation_epoch + context.shard_committee_period;
     if current_epoch < minimum_time_active {
         return Err(invalid_operation_error(InvalidOperation::VoluntaryExit(
             InvalidVoluntaryExit::ValidatorIsNotActiveForLongEnough {
diff --git a/ethereum-consensus/src/phase0/block_processing.rs b/ethereum-consensus/src/phase0/block_processing.rs
index 3570de0..cc0c4a2 100644
--- a/ethereum-consensus/src/phase0/block_processing.rs
+++ b/ethereum-consensus/src/phase0/block_processing.rs
@@ -497,8 +497,7 @@ pub fn process_voluntary_exit<
         )))
     }
 
-    let minimum_time_active =
-        validator.activation_eligibility_epoch + context.shard_committee_period;
+    let minimum_time_active = validator.activation_epoch + context.shard_committee_period;
     if current_epoch < minimum_time_active {
         return Err(invalid_operation_error(InvalidOperation::VoluntaryExit(
             InvalidVoluntaryExit::ValidatorIsNotActiveForLongEnough {
-- 
2.43.0


From 94294570ed08474832b3fbaf6cf02052c214174b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:07 +0000
Subject: [PATCH 07/36] fix: the proposer gets its share of a whistleblower
 reward

PROPOSER_WEIGHT / WEIGHT_DENOMINATOR is zero in integers, so from altair on the whole reward
went to the whistleblower; multiply before dividing, as the specification does.
---
 ethereum-consensus/src/altair/helpers.rs    | 3 +--
 ethereum-consensus/src/bellatrix/helpers.rs | 3 +--
 ethereum-consensus/src/capella/spec/mod.rs  | 3 +--
 ethereum-consensus/src/deneb/spec/mod.rs    | 3 +--
 ethereum-consensus/src/electra/helpers.rs   | 3 +--
 5 files changed, 5 insertions(+), 10 deletions(-)

diff --git a/ethereum-consensus/src/altair/helpers.rs b/ethereum-consensus/src/altair/helpers.rs
index 9c7f9b4..69338b8 100644
--- a/ethereum-consensus/src/altair/helpers.rs
+++ b/ethereum-consensus/src/altair/helpers.rs
@@ -403,8 +403,7 @@ pub fn slash_validator<
 
     let whistleblower_reward =
         state.validators[slashed_index].effective_balance / context.whistleblower_reward_quotient;
-    let proposer_reward_scaling_factor = PROPOSER_WEIGHT / WEIGHT_DENOMINATOR;
-    let proposer_reward = whistleblower_reward * proposer_reward_scaling_factor;
+    let proposer_reward = whistleblower_reward * PROPOSER_WEIGHT / WEIGHT_DENOMINATOR;
     increase_balance(state, proposer_index, proposer_reward);
     increase_balance(state, whistleblower_index, whistleblower_reward - proposer_reward);
     Ok(())
diff --git a/ethereum-consensus/src/bellatrix/helpers.rs b/ethereum-consensus/src/bellatrix/helpers.rs
index dcf7e47..3de78f8 100644
--- a/ethereum-consensus/src/bellatrix/helpers.rs
+++ b/ethereum-consensus/src/bellatrix/helpers.rs
@@ -105,8 +105,7 @@ pub fn slash_validator<
     let whistleblower_index = whistleblower_index.unwrap_or(proposer_index);
     let whistleblower_reward =
         state.validators[slashed_index].effective_balance / context.whistleblower_reward_quotient;
-    let proposer_reward_scaling_factor = PROPOSER_WEIGHT / WEIGHT_DENOMINATOR;
-    let proposer_reward = whistleblower_reward * proposer_reward_scaling_factor;
+    let proposer_reward = whistleblower_reward * PROPOSER_WEIGHT / WEIGHT_DENOMINATOR;
     increase_balance(state, proposer_index, proposer_reward);
     increase_balance(state, whistleblower_index, whistleblower_reward - proposer_reward);
     Ok(())
diff --git a/ethereum-consensus/src/capella/spec/mod.rs b/ethereum-consensus/src/capella/spec/mod.rs
index 8d22818..8832fdd 100644
--- a/ethereum-consensus/src/capella/spec/mod.rs
+++ b/ethereum-consensus/src/capella/spec/mod.rs
@@ -1687,8 +1687,7 @@ pub fn slash_validator<
     let whistleblower_index = whistleblower_index.unwrap_or(proposer_index);
     let whistleblower_reward =
         state.validators[slashed_index].effective_balance / context.whistleblower_reward_quotient;
-    let proposer_reward_scaling_factor = PROPOSER_WEIGHT / WEIGHT_DENOMINATOR;
-    let proposer_reward = whistleblower_reward * proposer_reward_scaling_factor;
+    let proposer_reward = whistleblower_reward * PROPOSER_WEIGHT / WEIGHT_DENOMINATOR;
     increase_balance(state, proposer_index, proposer_reward);
     increase_balance(state, whistleblower_index, whistleblower_reward - proposer_reward);
     Ok(())
diff --git a/ethereum-consensus/src/deneb/spec/mod.rs b/ethereum-consensus/src/deneb/spec/mod.rs
index df6fa7c..a7fb08a 100644
--- a/ethereum-consensus/src/deneb/spec/mod.rs
+++ b/ethereum-consensus/src/deneb/spec/mod.rs
@@ -1796,8 +1796,7 @@ pub fn slash_validator<
     let whistleblower_index = whistleblower_index.unwrap_or(proposer_index);
     let whistleblower_reward =
         state.validators[slashed_index].effective_balance / context.whistleblower_reward_quotient;
-    let proposer_reward_scaling_factor = PROPOSER_WEIGHT / WEIGHT_DENOMINATOR;
-    let proposer_reward = whistleblower_reward * proposer_reward_scaling_factor;
+    let proposer_reward = whistleblower_reward * PROPOSER_WEIGHT / WEIGHT_DENOMINATOR;
     increase_balance(state, proposer_index, proposer_reward);
     increase_balance(state, whistleblower_index, whistleblower_reward - proposer_reward);
     Ok(())
diff --git a/ethereum-consensus/src/electra/helpers.rs b/ethereum-consensus/src/electra/helpers.rs
index 2495cdb..8ad7dba 100644
--- a/ethereum-consensus/src/electra/helpers.rs
+++ b/ethereum-consensus/src/electra/helpers.rs
@@ -701,8 +701,7 @@ pub fn slash_validator<
     let whistleblower_index = whistleblower_index.unwrap_or(proposer_index);
     let whistleblower_reward = state.validators[slashed_index].effective_balance /
         context.whistleblower_reward_quotient_electra;
-    let proposer_reward_scaling_factor = PROPOSER_WEIGHT / WEIGHT_DENOMINATOR;
-    let proposer_reward = whistleblower_reward * proposer_reward_scaling_factor;
+    let proposer_reward = whistleblower_reward * PROPOSER_WEIGHT / WEIGHT_DENOMINATOR;
     increase_balance(state, proposer_index, proposer_reward);
     increase_balance(state, whistleblower_index, whistleblower_reward - proposer_reward);
     Ok(())
-- 
2.43.0


From 34185298dd2ffe50d1d31a99977907ecbfa77b2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:07 +0000
Subject: [PATCH 08/36] fix: asking the genesis state for a block root returns
 an error

The lower bound reported in the error was computed as slot - 1, which underflows at slot 0.
---
 ethereum-consensus/src/altair/spec/mod.rs    | 2 +-
 ethereum-consensus/src/bellatrix/spec/mod.rs | 2 +-
 ethereum-consensus/src/capella/spec/mod.rs   | 2 +-
 ethereum-consensus/src/deneb/spec/mod.rs     | 2 +-
 ethereum-consensus/src/electra/spec/mod.rs   | 2 +-
 ethereum-consensus/src/phase0/helpers.rs     | 2 +-
 6 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/ethereum-consensus/src/altair/spec/mod.rs b/ethereum-consensus/src/altair/spec/mod.rs
index 71929c5..199e3f6 100644
--- a/ethereum-consensus/src/altair/spec/mod.rs
+++ b/ethereum-consensus/src/altair/spec/mod.rs
@@ -1348,7 +1348,7 @@ pub fn get_block_root_at_slot<
     if slot >= state.slot || state.slot > (slot + SLOTS_PER_HISTORICAL_ROOT as Slot) {
         return Err(Error::SlotOutOfRange {
             requested: slot,
-            lower_bound: state.slot - 1,
+            lower_bound: state.slot.saturating_sub(1),
             upper_bound: state.slot + SLOTS_PER_HISTORICAL_ROOT as Slot,
         });
     }
diff --git a/ethereum-consensus/src/bellatrix/spec/mod.rs b/ethereum-consensus/src/bellatrix/spec/mod.rs
index d672309..6e27b8d 100644
--- a/ethereum-consensus/src/bellatrix/spec/mod.rs
+++ b/ethereum-consensus/src/bellatrix/spec/mod.rs
@@ -2284,7 +2284,7 @@ pub fn get_block_root_at_slot<
     if slot >= state.slot || state.slot > (slot + SLOTS_PER_HISTORICAL_ROOT as Slot) {
         return Err(Error::SlotOutOfRange {
             requested: slot,
-            lower_bound: state.slot - 1,
+            lower_bound: state.slot.saturating_sub(1),
             upper_bound: state.slot + SLOTS_PER_HISTORICAL_ROOT as Slot,
         });
     }
diff --git a/ethereum-consensus/src/capella/spec/mod.rs b/ethereum-consensus/src/capella/spec/mod.rs
index 8832fdd..2a899e5 100644
--- a/ethereum-consensus/src/capella/spec/mod.rs
+++ b/ethereum-consensus/src/capella/spec/mod.rs
@@ -2551,7 +2551,7 @@ pub fn get_block_root_at_slot<
     if slot >= state.slot || state.slot > (slot + SLOTS_PER_HISTORICAL_ROOT as Slot) {
         return Err(Error::SlotOutOfRange {
             requested: slot,
-            lower_bound: state.slot - 1,
+            lower_bound: state.slot.saturating_sub(1),
             upper_bound: state.slot + SLOTS_PER_HISTORICAL_ROOT as Slot,
         });
     }
diff --git a/ethereum-consensus/src/deneb/spec/mod.rs b/ethereum-consensus/src/deneb/spec/mod.rs
index a7fb08a..e7eb2ac 100644
--- a/ethereum-consensus/src/deneb/spec/mod.rs
+++ b/ethereum-consensus/src/deneb/spec/mod.rs
@@ -2607,7 +2607,7 @@ pub fn get_block_root_at_slot<
     if slot >= state.slot || state.slot > (slot + SLOTS_PER_HISTORICAL_ROOT as Slot) {
         return Err(Error::SlotOutOfRange {
             requested: slot,
-            lower_bound: state.slot - 1,
+            lower_bound: state.slot.saturating_sub(1),
             upper_bound: state.slot + SLOTS_PER_HISTORICAL_ROOT as Slot,
         });
     }
diff --git a/ethereum-consensus/src/electra/spec/mod.rs b/ethereum-consensus/src/electra/spec/mod.rs
index bee747c..f3fe050 100644
--- a/ethereum-consensus/src/electra/spec/mod.rs
+++ b/ethereum-consensus/src/electra/spec/mod.rs
@@ -2713,7 +2713,7 @@ pub fn get_block_root_at_slot<
     if slot >= state.slot || state.slot > (slot + SLOTS_PER_HISTORICAL_ROOT as Slot) {
         return Err(Error::SlotOutOfRange {
             requested: slot,
-            lower_bound: state.slot - 1,
+            lower_bound: state.slot.saturating_sub(1),
             upper_bound: state.slot + SLOTS_PER_HISTORICAL_ROOT as Slot,
         });
     }
diff --git a/ethereum-consensus/src/phase0/helpers.rs b/ethereum-consensus/src/phase0/helpers.rs
index d1de4c6..c7b6ea0 100644
--- a/ethereum-consensus/src/phase0/helpers.rs
+++ b/ethereum-consensus/src/phase0/helpers.rs
@@ -610,7 +610,7 @@ pub fn get_block_root_at_slot<
     if slot >= state.slot || state.slot > (slot + SLOTS_PER_HISTORICAL_ROOT as Slot) {
         return Err(Error::SlotOutOfRange {
             requested: slot,
-            lower_bound: state.slot - 1,
+            lower_bound: state.slot.saturating_sub(1),
             upper_bound: state.slot + SLOTS_PER_HISTORICAL_ROOT as Slot,
         })
     }
-- 
2.43.0


From ff075a4a16219ec86abb752c08b9996ce877e12c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:59 +0000
Subject: [PATCH 09/36] fix: the executor crosses several forks scheduled at
 one epoch

After the first upgrade the state already sits at the slot of the next fork, and advancing
it to that slot failed with TransitionToPreviousSlot, so no block of the new fork was accepted.
The same held for a state already advanced to the fork's slot.
---
 .../src/state_transition/executor.rs          | 80 ++++++++++++++-----
 1 file changed, 60 insertions(+), 20 deletions(-)

diff --git a/ethereum-consensus/src/state_transition/executor.rs b/ethereum-consensus/src/state_transition/executor.rs
index d23c385..62ee791 100644
--- a/ethereum-consensus/src/state_transition/executor.rs
+++ b/ethereum-consensus/src/state_transition/executor.rs
@@ -210,7 +210,9 @@ impl<
         match &mut self.state {
             BeaconState::Phase0(state) => {
                 let fork_slot = self.context.altair_fork_epoch * self.context.slots_per_epoch;
-                phase0::process_slots(state, fork_slot, &self.context)?;
+                if state.slot != fork_slot {
+                    phase0::process_slots(state, fork_slot, &self.context)?;
+                }
                 let mut state = altair::upgrade_to_altair(state, &self.context)?;
                 if signed_block.message.slot == state.slot {
                     altair::state_transition_block_in_slot(
@@ -255,11 +257,15 @@ impl<
         match &mut self.state {
             BeaconState::Phase0(state) => {
                 let fork_slot = self.context.altair_fork_epoch * self.context.slots_per_epoch;
-                phase0::process_slots(state, fork_slot, &self.context)?;
+                if state.slot != fork_slot {
+                    phase0::process_slots(state, fork_slot, &self.context)?;
+                }
                 let mut state = altair::upgrade_to_altair(state, &self.context)?;
 
                 let fork_slot = self.context.bellatrix_fork_epoch * self.context.slots_per_epoch;
-                altair::process_slots(&mut state, fork_slot, &self.context)?;
+                if state.slot != fork_slot {
+                    altair::process_slots(&mut state, fork_slot, &self.context)?;
+                }
                 let mut state = bellatrix::upgrade_to_bellatrix(&state, &self.context);
                 if signed_block.message.slot == state.slot {
                     bellatrix::state_transition_block_in_slot(
@@ -281,7 +287,9 @@ impl<
             }
             BeaconState::Altair(state) => {
                 let fork_slot = self.context.bellatrix_fork_epoch * self.context.slots_per_epoch;
-                altair::process_slots(state, fork_slot, &self.context)?;
+                if state.slot != fork_slot {
+                    altair::process_slots(state, fork_slot, &self.context)?;
+                }
                 let mut state = bellatrix::upgrade_to_bellatrix(state, &self.context);
                 if signed_block.message.slot == state.slot {
                     bellatrix::state_transition_block_in_slot(
@@ -333,15 +341,21 @@ impl<
         match &mut self.state {
             BeaconState::Phase0(state) => {
                 let fork_slot = self.context.altair_fork_epoch * self.context.slots_per_epoch;
-                phase0::process_slots(state, fork_slot, &self.context)?;
+                if state.slot != fork_slot {
+                    phase0::process_slots(state, fork_slot, &self.context)?;
+                }
                 let mut state = altair::upgrade_to_altair(state, &self.context)?;
 
                 let fork_slot = self.context.bellatrix_fork_epoch * self.context.slots_per_epoch;
-                altair::process_slots(&mut state, fork_slot, &self.context)?;
+                if state.slot != fork_slot {
+                    altair::process_slots(&mut state, fork_slot, &self.context)?;
+                }
                 let mut state = bellatrix::upgrade_to_bellatrix(&state, &self.context);
 
                 let fork_slot = self.context.capella_fork_epoch * self.context.slots_per_epoch;
-                bellatrix::process_slots(&mut state, fork_slot, &self.context)?;
+                if state.slot != fork_slot {
+                    bellatrix::process_slots(&mut state, fork_slot, &self.context)?;
+                }
                 let mut state = capella::upgrade_to_capella(&state, &self.context);
 
                 if signed_block.message.slot == state.slot {
@@ -359,11 +373,15 @@ impl<
             }
             BeaconState::Altair(state) => {
                 let fork_slot = self.context.bellatrix_fork_epoch * self.context.slots_per_epoch;
-                altair::process_slots(state, fork_slot, &self.context)?;
+                if state.slot != fork_slot {
+                    altair::process_slots(state, fork_slot, &self.context)?;
+                }
                 let mut state = bellatrix::upgrade_to_bellatrix(state, &self.context);
 
                 let fork_slot = self.context.capella_fork_epoch * self.context.slots_per_epoch;
-                bellatrix::process_slots(&mut state, fork_slot, &self.context)?;
+                if state.slot != fork_slot {
+                    bellatrix::process_slots(&mut state, fork_slot, &self.context)?;
+                }
                 let mut state = capella::upgrade_to_capella(&state, &self.context);
 
                 if signed_block.message.slot == state.slot {
@@ -381,7 +399,9 @@ impl<
             }
             BeaconState::Bellatrix(state) => {
                 let fork_slot = self.context.capella_fork_epoch * self.context.slots_per_epoch;
-                bellatrix::process_slots(state, fork_slot, &self.context)?;
+                if state.slot != fork_slot {
+                    bellatrix::process_slots(state, fork_slot, &self.context)?;
+                }
                 let mut state = capella::upgrade_to_capella(state, &self.context);
 
                 if signed_block.message.slot == state.slot {
@@ -430,19 +450,27 @@ impl<
         match &mut self.state {
             BeaconState::Phase0(state) => {
                 let fork_slot = self.context.altair_fork_epoch * self.context.slots_per_epoch;
-                phase0::process_slots(state, fork_slot, &self.context)?;
+                if state.slot != fork_slot {
+                    phase0::process_slots(state, fork_slot, &self.context)?;
+                }
                 let mut state = altair::upgrade_to_altair(state, &self.context)?;
 
                 let fork_slot = self.context.bellatrix_fork_epoch * self.context.slots_per_epoch;
-                altair::process_slots(&mut state, fork_slot, &self.context)?;
+                if state.slot != fork_slot {
+                    altair::process_slots(&mut state, fork_slot, &self.context)?;
+                }
                 let mut state = bellatrix::upgrade_to_bellatrix(&state, &self.context);
 
                 let fork_slot = self.context.capella_fork_epoch * self.context.slots_per_epoch;
-                bellatrix::process_slots(&mut state, fork_slot, &self.context)?;
+                if state.slot != fork_slot {
+                    bellatrix::process_slots(&mut state, fork_slot, &self.context)?;
+                }
                 let mut state = capella::upgrade_to_capella(&state, &self.context);
 
                 let fork_slot = self.context.deneb_fork_epoch * self.context.slots_per_epoch;
-                capella::process_slots(&mut state, fork_slot, &self.context)?;
+                if state.slot != fork_slot {
+                    capella::process_slots(&mut state, fork_slot, &self.context)?;
+                }
                 let mut state = deneb::upgrade_to_deneb(&state, &self.context);
 
                 if signed_block.message.slot == state.slot {
@@ -460,15 +488,21 @@ impl<
             }
             BeaconState::Altair(state) => {
                 let fork_slot = self.context.bellatrix_fork_epoch * self.context.slots_per_epoch;
-                altair::process_slots(state, fork_slot, &self.context)?;
+                if state.slot != fork_slot {
+                    altair::process_slots(state, fork_slot, &self.context)?;
+                }
                 let mut state = bellatrix::upgrade_to_bellatrix(state, &self.context);
 
                 let fork_slot = self.context.capella_fork_epoch * self.context.slots_per_epoch;
-                bellatrix::process_slots(&mut state, fork_slot, &self.context)?;
+                if state.slot != fork_slot {
+                    bellatrix::process_slots(&mut state, fork_slot, &self.context)?;
+                }
                 let mut state = capella::upgrade_to_capella(&state, &self.context);
 
                 let fork_slot = self.context.deneb_fork_epoch * self.context.slots_per_epoch;
-                capella::process_slots(&mut state, fork_slot, &self.context)?;
+                if state.slot != fork_slot {
+                    capella::process_slots(&mut state, fork_slot, &self.context)?;
+                }
                 let mut state = deneb::upgrade_to_deneb(&state, &self.context);
 
                 if signed_block.message.slot == state.slot {
@@ -486,11 +520,15 @@ impl<
             }
             BeaconState::Bellatrix(state) => {
                 let fork_slot = self.context.capella_fork_epoch * self.context.slots_per_epoch;
-                bellatrix::process_slots(state, fork_slot, &self.context)?;
+                if state.slot != fork_slot {
+                    bellatrix::process_slots(state, fork_slot, &self.context)?;
+                }
                 let mut state = capella::upgrade_to_capella(state, &self.context);
 
                 let fork_slot = self.context.deneb_fork_epoch * self.context.slots_per_epoch;
-                capella::process_slots(&mut state, fork_slot, &self.context)?;
+                if state.slot != fork_slot {
+                    capella::process_slots(&mut state, fork_slot, &self.context)?;
+                }
                 let mut state = deneb::upgrade_to_deneb(&state, &self.context);
 
                 if signed_block.message.slot == state.slot {
@@ -508,7 +546,9 @@ impl<
             }
             BeaconState::Capella(state) => {
                 let fork_slot = self.context.deneb_fork_epoch * self.context.slots_per_epoch;
-                capella::process_slots(state, fork_slot, &self.context)?;
+                if state.slot != fork_slot {
+                    capella::process_slots(state, fork_slot, &self.context)?;
+                }
                 let mut state = deneb::upgrade_to_deneb(state, &self.context);
 
                 if signed_block.message.slot == state.slot {
-- 
2.43.0


From bc6f2bbaf0b847f6896911fb92cf9aee81cadb72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:15 +0000
Subject: [PATCH 10/36] fix: the executor refuses a block from before its fork

A block of a fork that is not scheduled made the executor compute an overflowing fork slot (a panic,
or in release an endless walk to the far future), and one of a scheduled fork but with an earlier slot
first processed all slots up to the fork.
---
 .../src/state_transition/executor.rs          | 133 +++++++++++++++---
 1 file changed, 113 insertions(+), 20 deletions(-)

diff --git a/ethereum-consensus/src/state_transition/executor.rs b/ethereum-consensus/src/state_transition/executor.rs
index 62ee791..b24b7be 100644
--- a/ethereum-consensus/src/state_transition/executor.rs
+++ b/ethereum-consensus/src/state_transition/executor.rs
@@ -1,10 +1,23 @@
 use crate::{
     altair, bellatrix, capella, deneb, phase0,
+    primitives::{Epoch, Slot},
     state_transition::{Context, Result, Validation},
     types::{BeaconState, SignedBeaconBlock},
     Error, Fork,
 };
 
+/// Returns the first slot of the fork scheduled at `fork_epoch` if a block at `block_slot` can belong
+/// to it.
+fn get_fork_slot(fork_epoch: Epoch, block_slot: Slot, context: &Context) -> Result<Slot> {
+    match fork_epoch.checked_mul(context.slots_per_epoch) {
+        Some(fork_slot) if fork_slot <= block_slot => Ok(fork_slot),
+        fork_slot => Err(Error::TransitionToPreviousSlot {
+            requested: block_slot,
+            current: fork_slot.unwrap_or(Slot::MAX),
+        }),
+    }
+}
+
 pub struct Executor<
     const SLOTS_PER_HISTORICAL_ROOT: usize,
     const HISTORICAL_ROOTS_LIMIT: usize,
@@ -209,7 +222,11 @@ impl<
     ) -> Result<()> {
         match &mut self.state {
             BeaconState::Phase0(state) => {
-                let fork_slot = self.context.altair_fork_epoch * self.context.slots_per_epoch;
+                let fork_slot = get_fork_slot(
+                    self.context.altair_fork_epoch,
+                    signed_block.message.slot,
+                    &self.context,
+                )?;
                 if state.slot != fork_slot {
                     phase0::process_slots(state, fork_slot, &self.context)?;
                 }
@@ -256,13 +273,21 @@ impl<
     ) -> Result<()> {
         match &mut self.state {
             BeaconState::Phase0(state) => {
-                let fork_slot = self.context.altair_fork_epoch * self.context.slots_per_epoch;
+                let fork_slot = get_fork_slot(
+                    self.context.altair_fork_epoch,
+                    signed_block.message.slot,
+                    &self.context,
+                )?;
                 if state.slot != fork_slot {
                     phase0::process_slots(state, fork_slot, &self.context)?;
                 }
                 let mut state = altair::upgrade_to_altair(state, &self.context)?;
 
-                let fork_slot = self.context.bellatrix_fork_epoch * self.context.slots_per_epoch;
+                let fork_slot = get_fork_slot(
+                    self.context.bellatrix_fork_epoch,
+                    signed_block.message.slot,
+                    &self.context,
+                )?;
                 if state.slot != fork_slot {
                     altair::process_slots(&mut state, fork_slot, &self.context)?;
                 }
@@ -286,7 +311,11 @@ impl<
                 Ok(())
             }
             BeaconState::Altair(state) => {
-                let fork_slot = self.context.bellatrix_fork_epoch * self.context.slots_per_epoch;
+                let fork_slot = get_fork_slot(
+                    self.context.bellatrix_fork_epoch,
+                    signed_block.message.slot,
+                    &self.context,
+                )?;
                 if state.slot != fork_slot {
                     altair::process_slots(state, fork_slot, &self.context)?;
                 }
@@ -340,19 +369,31 @@ impl<
     ) -> Result<()> {
         match &mut self.state {
             BeaconState::Phase0(state) => {
-                let fork_slot = self.context.altair_fork_epoch * self.context.slots_per_epoch;
+                let fork_slot = get_fork_slot(
+                    self.context.altair_fork_epoch,
+                    signed_block.message.slot,
+                    &self.context,
+                )?;
                 if state.slot != fork_slot {
                     phase0::process_slots(state, fork_slot, &self.context)?;
                 }
                 let mut state = altair::upgrade_to_altair(state, &self.context)?;
 
-                let fork_slot = self.context.bellatrix_fork_epoch * self.context.slots_per_epoch;
+                let fork_slot = get_fork_slot(
+                    self.context.bellatrix_fork_epoch,
+                    signed_block.message.slot,
+                    &self.context,
+                )?;
                 if state.slot != fork_slot {
                     altair::process_slots(&mut state, fork_slot, &self.context)?;
                 }
                 let mut state = bellatrix::upgrade_to_bellatrix(&state, &self.context);
 
-                let fork_slot = self.context.capella_fork_epoch * self.context.slots_per_epoch;
+                let fork_slot = get_fork_slot(
+                    self.context.capella_fork_epoch,
+                    signed_block.message.slot,
+                    &self.context,
+                )?;
                 if state.slot != fork_slot {
                     bellatrix::process_slots(&mut state, fork_slot, &self.context)?;
                 }
@@ -372,13 +413,21 @@ impl<
                 Ok(())
             }
             BeaconState::Altair(state) => {
-                let fork_slot = self.context.bellatrix_fork_epoch * self.context.slots_per_epoch;
+                let fork_slot = get_fork_slot(
+                    self.context.bellatrix_fork_epoch,
+                    signed_block.message.slot,
+                    &self.context,
+                )?;
                 if state.slot != fork_slot {
                     altair::process_slots(state, fork_slot, &self.context)?;
                 }
                 let mut state = bellatrix::upgrade_to_bellatrix(state, &self.context);
 
-                let fork_slot = self.context.capella_fork_epoch * self.context.slots_per_epoch;
+                let fork_slot = get_fork_slot(
+                    self.context.capella_fork_epoch,
+                    signed_block.message.slot,
+                    &self.context,
+                )?;
                 if state.slot != fork_slot {
                     bellatrix::process_slots(&mut state, fork_slot, &self.context)?;
                 }
@@ -398,7 +447,11 @@ impl<
                 Ok(())
             }
             BeaconState::Bellatrix(state) => {
-                let fork_slot = self.context.capella_fork_epoch * self.context.slots_per_epoch;
+                let fork_slot = get_fork_slot(
+                    self.context.capella_fork_epoch,
+                    signed_block.message.slot,
+                    &self.context,
+                )?;
                 if state.slot != fork_slot {
                     bellatrix::process_slots(state, fork_slot, &self.context)?;
                 }
@@ -449,25 +502,41 @@ impl<
     ) -> Result<()> {
         match &mut self.state {
             BeaconState::Phase0(state) => {
-                let fork_slot = self.context.altair_fork_epoch * self.context.slots_per_epoch;
+                let fork_slot = get_fork_slot(
+                    self.context.altair_fork_epoch,
+                    signed_block.message.slot,
+                    &self.context,
+                )?;
                 if state.slot != fork_slot {
                     phase0::process_slots(state, fork_slot, &self.context)?;
                 }
                 let mut state = altair::upgrade_to_altair(state, &self.context)?;
 
-                let fork_slot = self.context.bellatrix_fork_epoch * self.context.slots_per_epoch;
+                let fork_slot = get_fork_slot(
+                    self.context.bellatrix_fork_epoch,
+                    signed_block.message.slot,
+                    &self.context,
+                )?;
                 if state.slot != fork_slot {
                     altair::process_slots(&mut state, fork_slot, &self.context)?;
                 }
                 let mut state = bellatrix::upgrade_to_bellatrix(&state, &self.context);
 
-                let fork_slot = self.context.capella_fork_epoch * self.context.slots_per_epoch;
+                let fork_slot = get_fork_slot(
+                    self.context.capella_fork_epoch,
+                    signed_block.message.slot,
+                    &self.context,
+                )?;
                 if state.slot != fork_slot {
                     bellatrix::process_slots(&mut state, fork_slot, &self.context)?;
                 }
                 let mut state = capella::upgrade_to_capella(&state, &self.context);
 
-                let fork_slot = self.context.deneb_fork_epoch * self.context.slots_per_epoch;
+                let fork_slot = get_fork_slot(
+                    self.context.deneb_fork_epoch,
+                    signed_block.message.slot,
+                    &self.context,
+                )?;
                 if state.slot != fork_slot {
                     capella::process_slots(&mut state, fork_slot, &self.context)?;
                 }
@@ -487,19 +556,31 @@ impl<
                 Ok(())
             }
             BeaconState::Altair(state) => {
-                let fork_slot = self.context.bellatrix_fork_epoch * self.context.slots_per_epoch;
+                let fork_slot = get_fork_slot(
+                    self.context.bellatrix_fork_epoch,
+                    signed_block.message.slot,
+                    &self.context,
+                )?;
                 if state.slot != fork_slot {
                     altair::process_slots(state, fork_slot, &self.context)?;
                 }
                 let mut state = bellatrix::upgrade_to_bellatrix(state, &self.context);
 
-                let fork_slot = self.context.capella_fork_epoch * self.context.slots_per_epoch;
+                let fork_slot = get_fork_slot(
+                    self.context.capella_fork_epoch,
+                    signed_block.message.slot,
+                    &self.context,
+                )?;
                 if state.slot != fork_slot {
                     bellatrix::process_slots(&mut state, fork_slot, &self.context)?;
                 }
                 let mut state = capella::upgrade_to_capella(&state, &self.context);
 
-                let fork_slot = self.context.deneb_fork_epoch * self.context.slots_per_epoch;
+                let fork_slot = get_fork_slot(
+                    self.context.deneb_fork_epoch,
+                    signed_block.message.slot,
+                    &self.context,
+                )?;
                 if state.slot != fork_slot {
                     capella::process_slots(&mut state, fork_slot, &self.context)?;
                 }
@@ -519,13 +600,21 @@ impl<
                 Ok(())
             }
             BeaconState::Bellatrix(state) => {
-                let fork_slot = self.context.capella_fork_epoch * self.context.slots_per_epoch;
+                let fork_slot = get_fork_slot(
+                    self.context.capella_fork_epoch,
+                    signed_block.message.slot,
+                    &self.context,
+                )?;
                 if state.slot != fork_slot {
                     bellatrix::process_slots(state, fork_slot, &self.context)?;
                 }
                 let mut state = capella::upgrade_to_capella(state, &self.context);
 
-                let fork_slot = self.context.deneb_fork_epoch * self.context.slots_per_epoch;
+                let fork_slot = get_fork_slot(
+                    self.context.deneb_fork_epoch,
+                    signed_block.message.slot,
+                    &self.context,
+                )?;
                 if state.slot != fork_slot {
                     capella::process_slots(&mut state, fork_slot, &self.context)?;
                 }
@@ -545,7 +634,11 @@ impl<
                 Ok(())
             }
             BeaconState::Capella(state) => {
-                let fork_slot = self.context.deneb_fork_epoch * self.context.slots_per_epoch;
+                let fork_slot = get_fork_slot(
+                    self.context.deneb_fork_epoch,
+                    signed_block.message.slot,
+                    &self.context,
+                )?;
                 if state.slot != fork_slot {
                     capella::process_slots(state, fork_slot, &self.context)?;
                 }
-- 
2.43.0


From a446ddca72662b1f3ab989712a37c12b75d12b44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:05 +0000
Subject: [PATCH 11/36] fix: the executor refuses blocks of a fork that is over

A block of the previous fork at or after the slot of the next fork was applied under the old rules,
leaving the node on a chain nobody else follows.
---
 .../src/state_transition/executor.rs          | 51 ++++++++++++++++++-
 1 file changed, 49 insertions(+), 2 deletions(-)

diff --git a/ethereum-consensus/src/state_transition/executor.rs b/ethereum-consensus/src/state_transition/executor.rs
index b24b7be..213e4e1 100644
--- a/ethereum-consensus/src/state_transition/executor.rs
+++ b/ethereum-consensus/src/state_transition/executor.rs
@@ -6,8 +6,8 @@ use crate::{
     Error, Fork,
 };
 
-/// Returns the first slot of the fork scheduled at `fork_epoch` if a block at `block_slot` can belong
-/// to it.
+/// Returns the first slot of the fork scheduled at `fork_epoch` if a block at `block_slot` can
+/// belong to it.
 fn get_fork_slot(fork_epoch: Epoch, block_slot: Slot, context: &Context) -> Result<Slot> {
     match fork_epoch.checked_mul(context.slots_per_epoch) {
         Some(fork_slot) if fork_slot <= block_slot => Ok(fork_slot),
@@ -18,6 +18,23 @@ fn get_fork_slot(fork_epoch: Epoch, block_slot: Slot, context: &Context) -> Resu
     }
 }
 
+/// Returns an error if a block of `fork` at `block_slot` belongs to the fork that replaces it at
+/// `next_fork_epoch`, or to a later one.
+fn check_fork(
+    fork: Fork,
+    next_fork_epoch: Epoch,
+    block_slot: Slot,
+    context: &Context,
+) -> Result<()> {
+    if block_slot / context.slots_per_epoch >= next_fork_epoch {
+        return Err(Error::InvalidForkTransition {
+            source_fork: context.fork_for(block_slot),
+            destination_fork: fork,
+        })
+    }
+    Ok(())
+}
+
 pub struct Executor<
     const SLOTS_PER_HISTORICAL_ROOT: usize,
     const HISTORICAL_ROOTS_LIMIT: usize,
@@ -196,6 +213,12 @@ impl<
         >,
         validation: Validation,
     ) -> Result<()> {
+        check_fork(
+            Fork::Phase0,
+            self.context.altair_fork_epoch,
+            signed_block.message.slot,
+            &self.context,
+        )?;
         match &mut self.state {
             BeaconState::Phase0(state) => {
                 phase0::state_transition(state, signed_block, validation, &self.context)
@@ -220,6 +243,12 @@ impl<
         >,
         validation: Validation,
     ) -> Result<()> {
+        check_fork(
+            Fork::Altair,
+            self.context.bellatrix_fork_epoch,
+            signed_block.message.slot,
+            &self.context,
+        )?;
         match &mut self.state {
             BeaconState::Phase0(state) => {
                 let fork_slot = get_fork_slot(
@@ -271,6 +300,12 @@ impl<
         >,
         validation: Validation,
     ) -> Result<()> {
+        check_fork(
+            Fork::Bellatrix,
+            self.context.capella_fork_epoch,
+            signed_block.message.slot,
+            &self.context,
+        )?;
         match &mut self.state {
             BeaconState::Phase0(state) => {
                 let fork_slot = get_fork_slot(
@@ -367,6 +402,12 @@ impl<
         >,
         validation: Validation,
     ) -> Result<()> {
+        check_fork(
+            Fork::Capella,
+            self.context.deneb_fork_epoch,
+            signed_block.message.slot,
+            &self.context,
+        )?;
         match &mut self.state {
             BeaconState::Phase0(state) => {
                 let fork_slot = get_fork_slot(
@@ -500,6 +541,12 @@ impl<
         >,
         validation: Validation,
     ) -> Result<()> {
+        check_fork(
+            Fork::Deneb,
+            self.context.electra_fork_epoch,
+            signed_block.message.slot,
+            &self.context,
+        )?;
         match &mut self.state {
             BeaconState::Phase0(state) => {
                 let fork_slot = get_fork_slot(
-- 
2.43.0


From e11fae7eb6e59f320aba2c224032b1843829f52a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:42 +0000
Subject: [PATCH 12/36] fix: Electra attestations place each committee after
 the ones before it

The bits of a later committee start after all bits of the earlier ones, not
one bit after the start of the previous committee.
---
 ethereum-consensus/src/electra/helpers.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ethereum-consensus/src/electra/helpers.rs b/ethereum-consensus/src/electra/helpers.rs
index 8ad7dba..0574a5f 100644
--- a/ethereum-consensus/src/electra/helpers.rs
+++ b/ethereum-consensus/src/electra/helpers.rs
@@ -299,13 +299,15 @@ pub fn get_attesting_indices<
 
     let mut indices = HashSet::with_capacity(MAX_VALIDATORS_PER_SLOT);
 
-    for (committee_offset, index) in committee_indices.into_iter().enumerate() {
+    let mut committee_offset = 0;
+    for index in committee_indices {
         let committee = get_beacon_committee(state, attestation.data.slot, index, context)?;
         for (i, validator_index) in committee.iter().enumerate() {
             if attestation.aggregation_bits[committee_offset + i] {
                 indices.insert(*validator_index);
             }
         }
+        committee_offset += committee.len();
     }
 
     Ok(indices)
-- 
2.43.0


From d5492e7b54835cedcd3c5eb6197c3812fe6f1045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:42 +0000
Subject: [PATCH 13/36] fix: Electra partial withdrawals name their own
 validator

---
 ethereum-consensus/src/electra/block_processing.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ethereum-consensus/src/electra/block_processing.rs b/ethereum-consensus/src/electra/block_processing.rs
index 8210b9b..948f4c7 100644
--- a/ethereum-consensus/src/electra/block_processing.rs
+++ b/ethereum-consensus/src/electra/block_processing.rs
@@ -79,7 +79,7 @@ pub fn get_expected_withdrawals<
         let balance = state.balances[withdrawal.index];
 
         let has_sufficient_effective_balance =
-            validator.effective_balance > context.min_activation_balance;
+            validator.effective_balance >= context.min_activation_balance;
         let has_excess_balance = balance > context.min_activation_balance;
         if validator.exit_epoch == FAR_FUTURE_EPOCH &&
             has_sufficient_effective_balance &&
@@ -91,7 +91,7 @@ pub fn get_expected_withdrawals<
             withdrawal_address.copy_from_slice(&validator.withdrawal_credentials[12..]);
             let withdrawal = Withdrawal {
                 index: withdrawal_index,
-                validator_index,
+                validator_index: withdrawal.index,
                 address: withdrawal_address,
                 amount: withdrawable_balance,
             };
-- 
2.43.0


From d12cd9400417079bd97ac0984ae9c280714be757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:42 +0000
Subject: [PATCH 14/36] fix: Electra withdrawal sweep resumes after the last
 validator swept

---
 ethereum-consensus/src/electra/block_processing.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ethereum-consensus/src/electra/block_processing.rs b/ethereum-consensus/src/electra/block_processing.rs
index 948f4c7..3520f93 100644
--- a/ethereum-consensus/src/electra/block_processing.rs
+++ b/ethereum-consensus/src/electra/block_processing.rs
@@ -206,8 +206,9 @@ pub fn process_withdrawals<
     }
 
     if expected_withdrawals.len() == context.max_withdrawals_per_payload {
-        let next_validator_index =
-            expected_withdrawals.last().map(|latest| (latest.index + 1) % state.validators.len());
+        let next_validator_index = expected_withdrawals
+            .last()
+            .map(|latest| (latest.validator_index + 1) % state.validators.len());
         state.next_withdrawal_validator_index =
             next_validator_index.unwrap_or(state.next_withdrawal_validator_index);
     } else {
-- 
2.43.0


From 399abfcd7fe8c3d3ac92e48e7640b797098d8ce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:42 +0000
Subject: [PATCH 15/36] fix: Electra blocks carry exactly the deposits that are
 due

---
 ethereum-consensus/src/electra/block_processing.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ethereum-consensus/src/electra/block_processing.rs b/ethereum-consensus/src/electra/block_processing.rs
index 3520f93..aa1d767 100644
--- a/ethereum-consensus/src/electra/block_processing.rs
+++ b/ethereum-consensus/src/electra/block_processing.rs
@@ -449,11 +449,11 @@ pub fn process_operations<
             return Err(invalid_operation_error(InvalidOperation::Deposit(
                 InvalidDeposit::IncorrectCount { expected, count: body.deposits.len() },
             )));
-        } else if !body.deposits.is_empty() {
-            return Err(invalid_operation_error(InvalidOperation::Deposit(
-                InvalidDeposit::IncorrectCount { expected: 0, count: body.deposits.len() },
-            )));
         }
+    } else if !body.deposits.is_empty() {
+        return Err(invalid_operation_error(InvalidOperation::Deposit(
+            InvalidDeposit::IncorrectCount { expected: 0, count: body.deposits.len() },
+        )));
     }
 
     body.proposer_slashings
-- 
2.43.0


From e96f19ffef438e32fd514b9f899e7c32b540d3e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:08 +0000
Subject: [PATCH 16/36] fix: an Electra deposit with an invalid signature does
 not invalidate its block

The signature only decides whether a new validator is added and whether a
top-up may switch the validator to compounding credentials.
---
 .../src/electra/block_processing.rs           | 28 +++++++++++--------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/ethereum-consensus/src/electra/block_processing.rs b/ethereum-consensus/src/electra/block_processing.rs
index aa1d767..3bbc01c 100644
--- a/ethereum-consensus/src/electra/block_processing.rs
+++ b/ethereum-consensus/src/electra/block_processing.rs
@@ -658,30 +658,34 @@ pub fn apply_deposit<
     if let Some((index, validator)) = validator {
         state.pending_balance_deposits.push(PendingBalanceDeposit { index, amount });
 
-        is_valid_deposit_signature(
-            public_key,
-            withdrawal_credentials.clone(),
-            amount,
-            signature,
-            context,
-        )?;
-
-        // NOTE: if we did not return from signature check, then we know the signature is valid
         if is_compounding_withdrawal_credential(withdrawal_credentials) &&
-            has_eth1_withdrawal_credential(validator)
+            has_eth1_withdrawal_credential(validator) &&
+            is_valid_deposit_signature(
+                public_key,
+                withdrawal_credentials.clone(),
+                amount,
+                signature,
+                context,
+            )
+            .is_ok()
         {
             switch_to_compounding_validator(state, index, context)?;
         }
         return Ok(());
     }
 
-    is_valid_deposit_signature(
+    if is_valid_deposit_signature(
         public_key,
         withdrawal_credentials.clone(),
         amount,
         signature,
         context,
-    )?;
+    )
+    .is_err()
+    {
+        // NOTE: explicitly return with no error and also no further mutations to `state`
+        return Ok(());
+    }
     add_validator_to_registry(state, public_key.clone(), withdrawal_credentials.clone(), amount);
     Ok(())
 }
-- 
2.43.0


From e700bc925c6a4ffbf690a57c8c47da4c8963a443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:08 +0000
Subject: [PATCH 17/36] fix: a consolidated validator is withdrawable a delay
 after its new exit epoch

---
 ethereum-consensus/src/electra/block_processing.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/ethereum-consensus/src/electra/block_processing.rs b/ethereum-consensus/src/electra/block_processing.rs
index 3bbc01c..15feb21 100644
--- a/ethereum-consensus/src/electra/block_processing.rs
+++ b/ethereum-consensus/src/electra/block_processing.rs
@@ -1139,14 +1139,14 @@ pub fn process_consolidation<
     let public_keys = [&source_validator.public_key, &target_validator.public_key];
     fast_aggregate_verify(&public_keys[..], &signing_root[..], &signed_consolidation.signature)?;
 
-    state.validators[consolidation.source_index].exit_epoch =
-        compute_consolidation_epoch_and_update_churn(
-            state,
-            source_validator.effective_balance,
-            context,
-        )?;
+    let exit_epoch = compute_consolidation_epoch_and_update_churn(
+        state,
+        source_validator.effective_balance,
+        context,
+    )?;
+    state.validators[consolidation.source_index].exit_epoch = exit_epoch;
     state.validators[consolidation.source_index].withdrawable_epoch =
-        source_validator.exit_epoch + context.min_validator_withdrawability_delay;
+        exit_epoch + context.min_validator_withdrawability_delay;
     state.pending_consolidations.push(PendingConsolidation {
         source_index: consolidation.source_index,
         target_index: consolidation.target_index,
-- 
2.43.0


From 35a8895a002b3fcdef17e83b6c8d619a940e1c8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:08 +0000
Subject: [PATCH 18/36] fix: consolidations queue by the consolidation churn
 limit

---
 ethereum-consensus/src/electra/helpers.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ethereum-consensus/src/electra/helpers.rs b/ethereum-consensus/src/electra/helpers.rs
index 0574a5f..456a9d5 100644
--- a/ethereum-consensus/src/electra/helpers.rs
+++ b/ethereum-consensus/src/electra/helpers.rs
@@ -628,7 +628,7 @@ pub fn compute_consolidation_epoch_and_update_churn<
     let activation_exit_epoch = compute_activation_exit_epoch(current_epoch, context);
     let mut earliest_consolidation_epoch =
         state.earliest_consolidation_epoch.max(activation_exit_epoch);
-    let per_epoch_churn = get_activation_exit_churn_limit(state, context)?;
+    let per_epoch_churn = get_consolidation_churn_limit(state, context)?;
     let mut consolidation_balance_to_consume =
         if state.earliest_consolidation_epoch < earliest_consolidation_epoch {
             per_epoch_churn
-- 
2.43.0


From c7163551e976e934a920460657216b80f19cd171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:12 +0000
Subject: [PATCH 19/36] fix: Electra genesis leaves the deposit receipt start
 index unset

---
 ethereum-consensus/src/electra/genesis.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/ethereum-consensus/src/electra/genesis.rs b/ethereum-consensus/src/electra/genesis.rs
index 4a07578..18d2938 100644
--- a/ethereum-consensus/src/electra/genesis.rs
+++ b/ethereum-consensus/src/electra/genesis.rs
@@ -1,8 +1,8 @@
 use crate::{
     electra::{
-        get_next_sync_committee, increase_balance, process_deposit, BeaconBlockBody,
-        BeaconBlockHeader, BeaconState, Deposit, DepositData, Eth1Data, ExecutionPayloadHeader,
-        Fork, DEPOSIT_DATA_LIST_BOUND,
+        constants::UNSET_DEPOSIT_RECEIPTS_START_INDEX, get_next_sync_committee, increase_balance,
+        process_deposit, BeaconBlockBody, BeaconBlockHeader, BeaconState, Deposit, DepositData,
+        Eth1Data, ExecutionPayloadHeader, Fork, DEPOSIT_DATA_LIST_BOUND,
     },
     primitives::{Gwei, Hash32, GENESIS_EPOCH},
     ssz::prelude::*,
@@ -108,6 +108,7 @@ pub fn initialize_beacon_state_from_eth1<
         latest_block_header,
         randao_mixes,
         latest_execution_payload_header: execution_payload_header,
+        deposit_receipts_start_index: UNSET_DEPOSIT_RECEIPTS_START_INDEX,
         ..Default::default()
     };
 
-- 
2.43.0


From 2648df6a877a2ca3ae237f16d0975c331e31f2ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:28 +0000
Subject: [PATCH 20/36] fix: sync committee of an empty active set is an error,
 not a division by zero

---
 ethereum-consensus/src/altair/helpers.rs     | 3 +++
 ethereum-consensus/src/bellatrix/spec/mod.rs | 3 +++
 ethereum-consensus/src/capella/spec/mod.rs   | 3 +++
 ethereum-consensus/src/deneb/spec/mod.rs     | 3 +++
 ethereum-consensus/src/electra/spec/mod.rs   | 3 +++
 5 files changed, 15 insertions(+)

diff --git a/ethereum-consensus/src/altair/helpers.rs b/ethereum-consensus/src/altair/helpers.rs
index 69338b8..721c206 100644
--- a/ethereum-consensus/src/altair/helpers.rs
+++ b/ethereum-consensus/src/altair/helpers.rs
@@ -62,6 +62,9 @@ pub fn get_next_sync_committee_indices<
     let max_random_byte = u8::MAX as u64;
     let active_validator_indices = get_active_validator_indices(state, epoch);
     let active_validator_count = active_validator_indices.len();
+    if active_validator_count == 0 {
+        return Err(Error::CollectionCannotBeEmpty)
+    }
     let seed = get_seed(state, epoch, DomainType::SyncCommittee, context);
     let mut i: usize = 0;
     let mut sync_committee_indices = vec![];
diff --git a/ethereum-consensus/src/bellatrix/spec/mod.rs b/ethereum-consensus/src/bellatrix/spec/mod.rs
index 6e27b8d..9163628 100644
--- a/ethereum-consensus/src/bellatrix/spec/mod.rs
+++ b/ethereum-consensus/src/bellatrix/spec/mod.rs
@@ -1623,6 +1623,9 @@ pub fn get_next_sync_committee_indices<
     let max_random_byte = u8::MAX as u64;
     let active_validator_indices = get_active_validator_indices(state, epoch);
     let active_validator_count = active_validator_indices.len();
+    if active_validator_count == 0 {
+        return Err(Error::CollectionCannotBeEmpty);
+    }
     let seed = get_seed(state, epoch, DomainType::SyncCommittee, context);
     let mut i: usize = 0;
     let mut sync_committee_indices = vec![];
diff --git a/ethereum-consensus/src/capella/spec/mod.rs b/ethereum-consensus/src/capella/spec/mod.rs
index 2a899e5..8dba74a 100644
--- a/ethereum-consensus/src/capella/spec/mod.rs
+++ b/ethereum-consensus/src/capella/spec/mod.rs
@@ -1886,6 +1886,9 @@ pub fn get_next_sync_committee_indices<
     let max_random_byte = u8::MAX as u64;
     let active_validator_indices = get_active_validator_indices(state, epoch);
     let active_validator_count = active_validator_indices.len();
+    if active_validator_count == 0 {
+        return Err(Error::CollectionCannotBeEmpty);
+    }
     let seed = get_seed(state, epoch, DomainType::SyncCommittee, context);
     let mut i: usize = 0;
     let mut sync_committee_indices = vec![];
diff --git a/ethereum-consensus/src/deneb/spec/mod.rs b/ethereum-consensus/src/deneb/spec/mod.rs
index e7eb2ac..f49132c 100644
--- a/ethereum-consensus/src/deneb/spec/mod.rs
+++ b/ethereum-consensus/src/deneb/spec/mod.rs
@@ -1999,6 +1999,9 @@ pub fn get_next_sync_committee_indices<
     let max_random_byte = u8::MAX as u64;
     let active_validator_indices = get_active_validator_indices(state, epoch);
     let active_validator_count = active_validator_indices.len();
+    if active_validator_count == 0 {
+        return Err(Error::CollectionCannotBeEmpty);
+    }
     let seed = get_seed(state, epoch, DomainType::SyncCommittee, context);
     let mut i: usize = 0;
     let mut sync_committee_indices = vec![];
diff --git a/ethereum-consensus/src/electra/spec/mod.rs b/ethereum-consensus/src/electra/spec/mod.rs
index f3fe050..90dd0c3 100644
--- a/ethereum-consensus/src/electra/spec/mod.rs
+++ b/ethereum-consensus/src/electra/spec/mod.rs
@@ -2011,6 +2011,9 @@ pub fn get_next_sync_committee_indices<
     let max_random_byte = u8::MAX as u64;
     let active_validator_indices = get_active_validator_indices(state, epoch);
     let active_validator_count = active_validator_indices.len();
+    if active_validator_count == 0 {
+        return Err(Error::CollectionCannotBeEmpty);
+    }
     let seed = get_seed(state, epoch, DomainType::SyncCommittee, context);
     let mut i: usize = 0;
     let mut sync_committee_indices = vec![];
-- 
2.43.0


From 3c6caa26cc259e890fb220d123565aea89d110ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:38 +0000
Subject: [PATCH 21/36] fix: keystores count AES-CTR blocks in 128 bits, as
 EIP-2335's aes-128-ctr does

---
 ethereum-consensus/src/bin/ec/validator/keystores.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ethereum-consensus/src/bin/ec/validator/keystores.rs b/ethereum-consensus/src/bin/ec/validator/keystores.rs
index 20a7f95..20b9f9b 100644
--- a/ethereum-consensus/src/bin/ec/validator/keystores.rs
+++ b/ethereum-consensus/src/bin/ec/validator/keystores.rs
@@ -45,7 +45,7 @@ const KDF_FN: &str = "scrypt";
 const SCRYPT_DKLEN: usize = 32;
 
 const CIPHER_FN: &str = "aes-128-ctr";
-type CtrCipher = ctr::Ctr64BE<aes::Aes128>;
+type CtrCipher = ctr::Ctr128BE<aes::Aes128>;
 const AES_SIZE: usize = 16;
 
 const CHECKSUM_FN: &str = "sha256";
-- 
2.43.0


From f36023a1cafd2bdfa9e373f16f43839a68f3f076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:38 +0000
Subject: [PATCH 22/36] fix: a read error while encoding blobs is reported, not
 a panic

---
 ethereum-consensus/src/bin/ec/blobs/encode.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ethereum-consensus/src/bin/ec/blobs/encode.rs b/ethereum-consensus/src/bin/ec/blobs/encode.rs
index b56ca21..4003eac 100644
--- a/ethereum-consensus/src/bin/ec/blobs/encode.rs
+++ b/ethereum-consensus/src/bin/ec/blobs/encode.rs
@@ -62,7 +62,7 @@ pub fn pack_into_blobs(buffer: &[u8]) -> Result<Vec<Blob>, Error> {
 // Data is tightly packed into field elements.
 pub fn from_reader(mut reader: impl Read, framing: Framing) -> Result<Vec<Blob>, Error> {
     let mut buffer = Vec::with_capacity(BYTES_PER_BLOB * MAX_BLOBS_PER_BLOCK);
-    reader.read_to_end(&mut buffer).expect("can read data");
+    reader.read_to_end(&mut buffer)?;
     let prepared_buffer = match framing {
         Framing::Raw => buffer,
         Framing::Sized => {
-- 
2.43.0


From d8b65951e2415292bd2e9d77c7f4a8c1fb0277cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:09 +0000
Subject: [PATCH 23/36] fix: a framed size that exceeds the payload is refused,
 not a panic

---
 ethereum-consensus/src/bin/ec/blobs/framing.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ethereum-consensus/src/bin/ec/blobs/framing.rs b/ethereum-consensus/src/bin/ec/blobs/framing.rs
index a5813ad..d45717b 100644
--- a/ethereum-consensus/src/bin/ec/blobs/framing.rs
+++ b/ethereum-consensus/src/bin/ec/blobs/framing.rs
@@ -37,7 +37,7 @@ pub fn payload_from_sized(stream: &[u8]) -> Result<&[u8], Error> {
         return Err(Error::UnsupportedSizedFramingVersion)
     }
     let size = u32::from_be_bytes(header[1..5].try_into().expect("correct size bytes")) as usize;
-    if size >= stream.len() {
+    if size > payload.len() {
         return Err(Error::InvalidPayloadSize)
     }
 
-- 
2.43.0


From c6443942dde4e3b1099d9b584afcb5bb036b964d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:31 +0000
Subject: [PATCH 24/36] fix: failing to print blobs is reported, not a panic

---
 ethereum-consensus/src/bin/ec/blobs/command.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ethereum-consensus/src/bin/ec/blobs/command.rs b/ethereum-consensus/src/bin/ec/blobs/command.rs
index ade711e..9e355b4 100644
--- a/ethereum-consensus/src/bin/ec/blobs/command.rs
+++ b/ethereum-consensus/src/bin/ec/blobs/command.rs
@@ -1,6 +1,6 @@
 use crate::blobs::{bundler, decode, encode, framing::Mode as Framing};
 use clap::{Args, Subcommand, ValueEnum};
-use std::io;
+use std::io::{self, Write};
 
 #[derive(Debug, Subcommand)]
 enum Commands {
@@ -45,7 +45,7 @@ impl Command {
                 let stdin = io::stdin().lock();
                 let blobs = encode::from_reader(stdin, framing.into())?;
                 let result = serde_json::to_string_pretty(&blobs)?;
-                println!("{}", result);
+                writeln!(io::stdout(), "{}", result)?;
                 Ok(())
             }
             Commands::Decode { framing } => {
@@ -58,7 +58,7 @@ impl Command {
                 let stdin = io::stdin().lock();
                 let blobs_bundle = bundler::from_reader(stdin)?;
                 let result = serde_json::to_string_pretty(&blobs_bundle)?;
-                println!("{}", result);
+                writeln!(io::stdout(), "{}", result)?;
                 Ok(())
             }
         }
-- 
2.43.0


From 0d930d427d6c7f33738f4afddc91bbf2f92f1b4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:55 +0000
Subject: [PATCH 25/36] fix: the last partial field element is not dropped when
 it starts a new blob

---
 ethereum-consensus/src/bin/ec/blobs/encode.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ethereum-consensus/src/bin/ec/blobs/encode.rs b/ethereum-consensus/src/bin/ec/blobs/encode.rs
index 4003eac..de3e615 100644
--- a/ethereum-consensus/src/bin/ec/blobs/encode.rs
+++ b/ethereum-consensus/src/bin/ec/blobs/encode.rs
@@ -47,6 +47,11 @@ pub fn pack_into_blobs(buffer: &[u8]) -> Result<Vec<Blob>, Error> {
 
     let remainder = chunks.remainder();
     if !remainder.is_empty() {
+        if blob_buffer.len() == BYTES_PER_BLOB {
+            let blob = Blob::try_from(blob_buffer.as_ref()).expect("is the right size");
+            blobs.push(blob);
+            blob_buffer.clear();
+        }
         let mut field_element = field_element_from_bits(remainder)?;
         blob_buffer.append(&mut field_element);
     }
-- 
2.43.0


From 01b7f32bdac9ee9346ea2ca3f48d493cc5fe338e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:21 +0000
Subject: [PATCH 26/36] fix: decoding blobs reports success only once its
 output is flushed

---
 ethereum-consensus/src/bin/ec/blobs/decode.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ethereum-consensus/src/bin/ec/blobs/decode.rs b/ethereum-consensus/src/bin/ec/blobs/decode.rs
index 1514808..508098d 100644
--- a/ethereum-consensus/src/bin/ec/blobs/decode.rs
+++ b/ethereum-consensus/src/bin/ec/blobs/decode.rs
@@ -45,5 +45,6 @@ pub fn to_writer_from_json(
         Framing::Sized => payload_from_sized(&result)?,
     };
     writer.write_all(result)?;
+    writer.flush()?;
     Ok(())
 }
-- 
2.43.0


From bae5defd2bc37959c78e1674bfb00f96f170dd2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:44 +0000
Subject: [PATCH 27/36] fix: asking for blob sidecars by index sends the
 indices as one query value

---
 beacon-api-client/src/api_client.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beacon-api-client/src/api_client.rs b/beacon-api-client/src/api_client.rs
index c0ed9d5..8c56f0b 100644
--- a/beacon-api-client/src/api_client.rs
+++ b/beacon-api-client/src/api_client.rs
@@ -401,7 +401,7 @@ impl<C: ClientTypes> Client<C> {
         let target = self.endpoint.join(&path)?;
         let mut request = self.http.get(target);
         if !indices.is_empty() {
-            request = request.query(&[("indices", indices)]);
+            request = request.query(&[("indices", indices.iter().join(","))]);
         }
         let response = request.send().await?;
         let result: ApiResult<Value<_>> = response.json().await?;
-- 
2.43.0


From 114eec29d179c315952c4aa21ee733bde89a96d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:44 +0000
Subject: [PATCH 28/36] fix: validator indices asked for in a liveness request
 are sent as strings

---
 beacon-api-client/src/api_client.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/beacon-api-client/src/api_client.rs b/beacon-api-client/src/api_client.rs
index 8c56f0b..a8235b8 100644
--- a/beacon-api-client/src/api_client.rs
+++ b/beacon-api-client/src/api_client.rs
@@ -866,8 +866,9 @@ impl<C: ClientTypes> Client<C> {
         epoch: Epoch,
         indices: &[ValidatorIndex],
     ) -> Result<Vec<ValidatorLiveness>, Error> {
-        let response =
-            self.http_post(&format!("eth/v1/validator/liveness/{epoch}"), indices).await?;
+        let endpoint = format!("eth/v1/validator/liveness/{epoch}");
+        let indices = indices.iter().map(|index| index.to_string()).collect::<Vec<_>>();
+        let response = self.http_post(&endpoint, &indices).await?;
         let result: ApiResult<Value<_>> = response.json().await?;
         match result {
             ApiResult::Ok(result) => Ok(result.data),
-- 
2.43.0


From dfc34572af6bcf5c53ba139da5969339dac481d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:44 +0000
Subject: [PATCH 29/36] fix: event and peer requests keep the path of the
 endpoint

---
 beacon-api-client/src/api_client.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/beacon-api-client/src/api_client.rs b/beacon-api-client/src/api_client.rs
index a8235b8..31da3d3 100644
--- a/beacon-api-client/src/api_client.rs
+++ b/beacon-api-client/src/api_client.rs
@@ -609,7 +609,7 @@ impl<C: ClientTypes> Client<C> {
     /* events namespace */
     pub async fn get_events<T: Topic>(&self) -> Result<EventStream<T::Data>, Error> {
         let name = T::NAME;
-        let path = format!("/eth/v1/events?topics={name}");
+        let path = format!("eth/v1/events?topics={name}");
         let target = self.endpoint.join(&path)?.to_string();
 
         let client = EventClient::default();
@@ -646,7 +646,7 @@ impl<C: ClientTypes> Client<C> {
 
     pub async fn get_peer(&self, peer_id: PeerId) -> Result<PeerDescription, Error> {
         let result: Value<PeerDescription> =
-            self.get(&format!("/eth/v1/node/peers/{peer_id}")).await?;
+            self.get(&format!("eth/v1/node/peers/{peer_id}")).await?;
         Ok(result.data)
     }
 
-- 
2.43.0


From 668f4f8cd9078deaa05c00f009dbeb214cee2f15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:44 +0000
Subject: [PATCH 30/36] fix: queries for block headers read the list of headers
 a node answers with

---
 beacon-api-client/src/api_client.rs | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/beacon-api-client/src/api_client.rs b/beacon-api-client/src/api_client.rs
index 31da3d3..6236da1 100644
--- a/beacon-api-client/src/api_client.rs
+++ b/beacon-api-client/src/api_client.rs
@@ -55,6 +55,16 @@ async fn api_error_or_value<T: serde::de::DeserializeOwned>(
     }
 }
 
+// The node answers a query for headers with every header that matches;
+// prefer the one in the canonical chain.
+fn select_header(mut headers: Vec<BeaconHeaderSummary>) -> Result<BeaconHeaderSummary, Error> {
+    if headers.is_empty() {
+        return Err(Error::MissingExpectedData("no matching header in response".to_string()));
+    }
+    let index = headers.iter().position(|header| header.canonical).unwrap_or(0);
+    Ok(headers.swap_remove(index))
+}
+
 pub trait ClientTypes: Clone {
     type SignedContributionAndProof: serde::Serialize;
     type SyncCommitteeContribution: serde::Serialize + serde::de::DeserializeOwned;
@@ -277,8 +287,8 @@ impl<C: ClientTypes> Client<C> {
     }
 
     pub async fn get_beacon_header_at_head(&self) -> Result<BeaconHeaderSummary, Error> {
-        let result: Value<BeaconHeaderSummary> = self.get("eth/v1/beacon/headers").await?;
-        Ok(result.data)
+        let result: Value<Vec<BeaconHeaderSummary>> = self.get("eth/v1/beacon/headers").await?;
+        select_header(result.data)
     }
 
     pub async fn get_beacon_header_for_slot(
@@ -289,9 +299,9 @@ impl<C: ClientTypes> Client<C> {
         let mut request = self.http.get(target);
         request = request.query(&[("slot", slot)]);
         let response = request.send().await?;
-        let result: ApiResult<Value<BeaconHeaderSummary>> = response.json().await?;
+        let result: ApiResult<Value<Vec<BeaconHeaderSummary>>> = response.json().await?;
         match result {
-            ApiResult::Ok(result) => Ok(result.data),
+            ApiResult::Ok(result) => select_header(result.data),
             ApiResult::Err(err) => Err(err.into()),
         }
     }
@@ -304,9 +314,9 @@ impl<C: ClientTypes> Client<C> {
         let mut request = self.http.get(target);
         request = request.query(&[("parent_root", format!("{parent_root:?}"))]);
         let response = request.send().await?;
-        let result: ApiResult<Value<BeaconHeaderSummary>> = response.json().await?;
+        let result: ApiResult<Value<Vec<BeaconHeaderSummary>>> = response.json().await?;
         match result {
-            ApiResult::Ok(result) => Ok(result.data),
+            ApiResult::Ok(result) => select_header(result.data),
             ApiResult::Err(err) => Err(err.into()),
         }
     }
-- 
2.43.0


From 2e12c95804ebce1ef1833d5cbd75c0b342ef7a40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:44 +0000
Subject: [PATCH 31/36] fix: read the randao mix from the object a node answers
 with

---
 beacon-api-client/src/api_client.rs | 10 +++++-----
 beacon-api-client/src/types.rs      |  9 +++++++--
 2 files changed, 12 insertions(+), 7 deletions(-)

diff --git a/beacon-api-client/src/api_client.rs b/beacon-api-client/src/api_client.rs
index 6236da1..670fb80 100644
--- a/beacon-api-client/src/api_client.rs
+++ b/beacon-api-client/src/api_client.rs
@@ -5,9 +5,9 @@ use crate::{
         CommitteeFilter, CommitteeSummary, ConnectionOrientation, CoordinateWithMetadata,
         DepositContract, DepositSnapshot, FinalityCheckpoints, GenesisDetails, HealthStatus,
         NetworkIdentity, PeerDescription, PeerState, PeerSummary, ProposerDuty, PublicKeyOrIndex,
-        RootData, StateId, SubmitSignedBeaconBlock, SyncCommitteeDescriptor, SyncCommitteeDuty,
-        SyncCommitteeSummary, SyncStatus, Topic, ValidatorLiveness, ValidatorStatus,
-        ValidatorSummary, Value, VersionData, VersionedValue,
+        RandaoData, RootData, StateId, SubmitSignedBeaconBlock, SyncCommitteeDescriptor,
+        SyncCommitteeDuty, SyncCommitteeSummary, SyncStatus, Topic, ValidatorLiveness,
+        ValidatorStatus, ValidatorSummary, Value, VersionData, VersionedValue,
     },
     ApiError, Error,
 };
@@ -279,9 +279,9 @@ impl<C: ClientTypes> Client<C> {
         }
         let response = request.send().await?;
 
-        let result: ApiResult<Value<Bytes32>> = response.json().await?;
+        let result: ApiResult<Value<RandaoData>> = response.json().await?;
         match result {
-            ApiResult::Ok(result) => Ok(result.data),
+            ApiResult::Ok(result) => Ok(result.data.randao),
             ApiResult::Err(err) => Err(err.into()),
         }
     }
diff --git a/beacon-api-client/src/types.rs b/beacon-api-client/src/types.rs
index ee59120..9366989 100644
--- a/beacon-api-client/src/types.rs
+++ b/beacon-api-client/src/types.rs
@@ -6,8 +6,8 @@ use ethereum_consensus::{
     networking::{Enr, Multiaddr, PeerId},
     phase0::{Checkpoint, SignedBeaconBlockHeader, Validator},
     primitives::{
-        BlsPublicKey, ChainId, CommitteeIndex, Coordinate, Epoch, ExecutionAddress, Gwei, Hash32,
-        Root, Slot, ValidatorIndex, Version,
+        BlsPublicKey, Bytes32, ChainId, CommitteeIndex, Coordinate, Epoch, ExecutionAddress, Gwei,
+        Hash32, Root, Slot, ValidatorIndex, Version,
     },
     serde::try_bytes_from_hex_str,
     Fork,
@@ -110,6 +110,11 @@ pub struct RootData {
     pub root: Root,
 }
 
+#[derive(Serialize, Deserialize)]
+pub struct RandaoData {
+    pub randao: Bytes32,
+}
+
 #[derive(Serialize, Deserialize, Clone, Debug)]
 pub enum BlockId {
     Head,
-- 
2.43.0


From 278be6bee94b5ac00fdbd84b7cbca13c92eb081e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:44 +0000
Subject: [PATCH 32/36] fix: light client updates are answered as a list of
 versioned values

---
 beacon-api-client/src/api_client.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/beacon-api-client/src/api_client.rs b/beacon-api-client/src/api_client.rs
index 670fb80..8d02816 100644
--- a/beacon-api-client/src/api_client.rs
+++ b/beacon-api-client/src/api_client.rs
@@ -454,9 +454,10 @@ impl<C: ClientTypes> Client<C> {
         request = request.query(&[("start_period", start), ("count", count)]);
 
         let response = request.send().await?;
-        let result: ApiResult<Value<_>> = response.json().await?;
+        // NOTE: this response is a list of versioned values, without an enclosing `data` field
+        let result: ApiResult<Vec<VersionedValue<_>>> = response.json().await?;
         match result {
-            ApiResult::Ok(result) => Ok(result.data),
+            ApiResult::Ok(result) => Ok(result.into_iter().map(|update| update.data).collect()),
             ApiResult::Err(err) => Err(err.into()),
         }
     }
-- 
2.43.0


From f3a026881eea896f4d1c15db01b4f9b37ada68f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:44 +0000
Subject: [PATCH 33/36] fix: an answer with an error status is never taken for
 a success

---
 beacon-api-client/src/api_client.rs | 142 +++++++++-------------------
 1 file changed, 44 insertions(+), 98 deletions(-)

diff --git a/beacon-api-client/src/api_client.rs b/beacon-api-client/src/api_client.rs
index 8d02816..db5d594 100644
--- a/beacon-api-client/src/api_client.rs
+++ b/beacon-api-client/src/api_client.rs
@@ -40,13 +40,16 @@ pub async fn api_error_or_ok(response: reqwest::Response) -> Result<(), Error> {
     }
 }
 
-async fn api_error_or_value<T: serde::de::DeserializeOwned>(
+async fn api_error_or_value<T: serde::Serialize + serde::de::DeserializeOwned>(
     response: reqwest::Response,
 ) -> Result<T, Error> {
     match response.status() {
         reqwest::StatusCode::OK | reqwest::StatusCode::ACCEPTED => {
-            let value = response.json().await?;
-            Ok(value)
+            let result: ApiResult<T> = response.json().await?;
+            match result {
+                ApiResult::Ok(value) => Ok(value),
+                ApiResult::Err(err) => Err(err.into()),
+            }
         }
         _ => {
             let api_err = response.json::<ApiError>().await?;
@@ -105,11 +108,8 @@ impl<C: ClientTypes> Client<C> {
         &self,
         path: &str,
     ) -> Result<T, Error> {
-        let result: ApiResult<T> = self.http_get(path).await?.json().await?;
-        match result {
-            ApiResult::Ok(result) => Ok(result),
-            ApiResult::Err(err) => Err(err.into()),
-        }
+        let response = self.http_get(path).await?;
+        api_error_or_value(response).await
     }
 
     pub async fn http_get(&self, path: &str) -> Result<reqwest::Response, Error> {
@@ -183,11 +183,8 @@ impl<C: ClientTypes> Client<C> {
         }
         let response = request.send().await?;
 
-        let result: ApiResult<Value<Vec<ValidatorSummary>>> = response.json().await?;
-        match result {
-            ApiResult::Ok(result) => Ok(result.data),
-            ApiResult::Err(err) => Err(err.into()),
-        }
+        let result: Value<Vec<ValidatorSummary>> = api_error_or_value(response).await?;
+        Ok(result.data)
     }
 
     pub async fn get_validator(
@@ -215,11 +212,8 @@ impl<C: ClientTypes> Client<C> {
         }
         let response = request.send().await?;
 
-        let result: ApiResult<Value<Vec<BalanceSummary>>> = response.json().await?;
-        match result {
-            ApiResult::Ok(result) => Ok(result.data),
-            ApiResult::Err(err) => Err(err.into()),
-        }
+        let result: Value<Vec<BalanceSummary>> = api_error_or_value(response).await?;
+        Ok(result.data)
     }
 
     pub async fn get_all_committees(&self, id: StateId) -> Result<Vec<CommitteeSummary>, Error> {
@@ -244,11 +238,8 @@ impl<C: ClientTypes> Client<C> {
             request = request.query(&[("slot", slot)]);
         }
         let response = request.send().await?;
-        let result: ApiResult<Value<Vec<CommitteeSummary>>> = response.json().await?;
-        match result {
-            ApiResult::Ok(result) => Ok(result.data),
-            ApiResult::Err(err) => Err(err.into()),
-        }
+        let result: Value<Vec<CommitteeSummary>> = api_error_or_value(response).await?;
+        Ok(result.data)
     }
 
     pub async fn get_sync_committees(
@@ -263,11 +254,8 @@ impl<C: ClientTypes> Client<C> {
             request = request.query(&[("epoch", epoch)]);
         }
         let response = request.send().await?;
-        let result: ApiResult<Value<SyncCommitteeSummary>> = response.json().await?;
-        match result {
-            ApiResult::Ok(result) => Ok(result.data),
-            ApiResult::Err(err) => Err(err.into()),
-        }
+        let result: Value<SyncCommitteeSummary> = api_error_or_value(response).await?;
+        Ok(result.data)
     }
 
     pub async fn get_randao(&self, id: StateId, epoch: Option<Epoch>) -> Result<Bytes32, Error> {
@@ -279,11 +267,8 @@ impl<C: ClientTypes> Client<C> {
         }
         let response = request.send().await?;
 
-        let result: ApiResult<Value<RandaoData>> = response.json().await?;
-        match result {
-            ApiResult::Ok(result) => Ok(result.data.randao),
-            ApiResult::Err(err) => Err(err.into()),
-        }
+        let result: Value<RandaoData> = api_error_or_value(response).await?;
+        Ok(result.data.randao)
     }
 
     pub async fn get_beacon_header_at_head(&self) -> Result<BeaconHeaderSummary, Error> {
@@ -299,11 +284,8 @@ impl<C: ClientTypes> Client<C> {
         let mut request = self.http.get(target);
         request = request.query(&[("slot", slot)]);
         let response = request.send().await?;
-        let result: ApiResult<Value<Vec<BeaconHeaderSummary>>> = response.json().await?;
-        match result {
-            ApiResult::Ok(result) => select_header(result.data),
-            ApiResult::Err(err) => Err(err.into()),
-        }
+        let result: Value<Vec<BeaconHeaderSummary>> = api_error_or_value(response).await?;
+        select_header(result.data)
     }
 
     pub async fn get_beacon_header_for_parent_root(
@@ -314,11 +296,8 @@ impl<C: ClientTypes> Client<C> {
         let mut request = self.http.get(target);
         request = request.query(&[("parent_root", format!("{parent_root:?}"))]);
         let response = request.send().await?;
-        let result: ApiResult<Value<Vec<BeaconHeaderSummary>>> = response.json().await?;
-        match result {
-            ApiResult::Ok(result) => select_header(result.data),
-            ApiResult::Err(err) => Err(err.into()),
-        }
+        let result: Value<Vec<BeaconHeaderSummary>> = api_error_or_value(response).await?;
+        select_header(result.data)
     }
 
     pub async fn get_beacon_header(&self, id: BlockId) -> Result<BeaconHeaderSummary, Error> {
@@ -414,11 +393,8 @@ impl<C: ClientTypes> Client<C> {
             request = request.query(&[("indices", indices.iter().join(","))]);
         }
         let response = request.send().await?;
-        let result: ApiResult<Value<_>> = response.json().await?;
-        match result {
-            ApiResult::Ok(result) => Ok(result.data),
-            ApiResult::Err(err) => Err(err.into()),
-        }
+        let result: Value<_> = api_error_or_value(response).await?;
+        Ok(result.data)
     }
 
     pub async fn get_deposit_snapshot(&self) -> Result<DepositSnapshot, Error> {
@@ -455,11 +431,8 @@ impl<C: ClientTypes> Client<C> {
 
         let response = request.send().await?;
         // NOTE: this response is a list of versioned values, without an enclosing `data` field
-        let result: ApiResult<Vec<VersionedValue<_>>> = response.json().await?;
-        match result {
-            ApiResult::Ok(result) => Ok(result.into_iter().map(|update| update.data).collect()),
-            ApiResult::Err(err) => Err(err.into()),
-        }
+        let result: Vec<VersionedValue<_>> = api_error_or_value(response).await?;
+        Ok(result.into_iter().map(|update| update.data).collect())
     }
 
     pub async fn get_light_client_finality_update(
@@ -491,11 +464,8 @@ impl<C: ClientTypes> Client<C> {
             request = request.query(&[("committee_index", committee_index)]);
         }
         let response = request.send().await?;
-        let result: ApiResult<Value<Vec<C::Attestation>>> = response.json().await?;
-        match result {
-            ApiResult::Ok(result) => Ok(result.data),
-            ApiResult::Err(err) => Err(err.into()),
-        }
+        let result: Value<Vec<C::Attestation>> = api_error_or_value(response).await?;
+        Ok(result.data)
     }
 
     pub async fn post_attestations(&self, attestations: &[C::Attestation]) -> Result<(), Error> {
@@ -579,11 +549,8 @@ impl<C: ClientTypes> Client<C> {
         }
 
         let response = request.send().await?;
-        let result: ApiResult<Value<_>> = response.json().await?;
-        match result {
-            ApiResult::Ok(result) => Ok(result.data),
-            ApiResult::Err(err) => Err(err.into()),
-        }
+        let result: Value<_> = api_error_or_value(response).await?;
+        Ok(result.data)
     }
 
     /* config namespace */
@@ -648,11 +615,8 @@ impl<C: ClientTypes> Client<C> {
             request = request.query(&[("direction", connection_orientations.iter().join(","))]);
         }
         let response = request.send().await?;
-        let result: ApiResult<Value<Vec<PeerDescription>>> = response.json().await?;
-        match result {
-            ApiResult::Ok(result) => Ok(result.data),
-            ApiResult::Err(err) => Err(err.into()),
-        }
+        let result: Value<Vec<PeerDescription>> = api_error_or_value(response).await?;
+        Ok(result.data)
     }
 
     pub async fn get_peer(&self, peer_id: PeerId) -> Result<PeerDescription, Error> {
@@ -748,11 +712,8 @@ impl<C: ClientTypes> Client<C> {
             request = request.query(&[("graffiti", format!("{graffiti:?}"))]);
         }
         let response = request.send().await?;
-        let result: ApiResult<VersionedValue<C::BeaconBlock>> = response.json().await?;
-        match result {
-            ApiResult::Ok(result) => Ok(result.data),
-            ApiResult::Err(err) => Err(err.into()),
-        }
+        let result: VersionedValue<C::BeaconBlock> = api_error_or_value(response).await?;
+        Ok(result.data)
     }
 
     pub async fn get_blinded_block_proposal(
@@ -769,11 +730,8 @@ impl<C: ClientTypes> Client<C> {
             request = request.query(&[("graffiti", format!("{graffiti:?}"))]);
         }
         let response = request.send().await?;
-        let result: ApiResult<VersionedValue<C::BlindedBeaconBlock>> = response.json().await?;
-        match result {
-            ApiResult::Ok(result) => Ok(result.data),
-            ApiResult::Err(err) => Err(err.into()),
-        }
+        let result: VersionedValue<C::BlindedBeaconBlock> = api_error_or_value(response).await?;
+        Ok(result.data)
     }
 
     pub async fn get_attestation_data(
@@ -786,11 +744,8 @@ impl<C: ClientTypes> Client<C> {
         request = request.query(&[("slot", slot)]);
         request = request.query(&[("committee_index", committee_index)]);
         let response = request.send().await?;
-        let result: ApiResult<Value<AttestationData>> = response.json().await?;
-        match result {
-            ApiResult::Ok(result) => Ok(result.data),
-            ApiResult::Err(err) => Err(err.into()),
-        }
+        let result: Value<AttestationData> = api_error_or_value(response).await?;
+        Ok(result.data)
     }
 
     pub async fn get_attestation_aggregate(
@@ -803,11 +758,8 @@ impl<C: ClientTypes> Client<C> {
         request = request.query(&[("attestation_data_root", format!("{attestation_data_root:?}"))]);
         request = request.query(&[("slot", slot)]);
         let response = request.send().await?;
-        let result: ApiResult<Value<C::Attestation>> = response.json().await?;
-        match result {
-            ApiResult::Ok(result) => Ok(result.data),
-            ApiResult::Err(err) => Err(err.into()),
-        }
+        let result: Value<C::Attestation> = api_error_or_value(response).await?;
+        Ok(result.data)
     }
 
     pub async fn post_aggregates_with_proofs(
@@ -843,11 +795,8 @@ impl<C: ClientTypes> Client<C> {
         request = request.query(&[("subcommittee_index", subcommittee_index)]);
         request = request.query(&[("beacon_block_root", format!("{beacon_block_root:?}"))]);
         let response = request.send().await?;
-        let result: ApiResult<Value<C::SyncCommitteeContribution>> = response.json().await?;
-        match result {
-            ApiResult::Ok(result) => Ok(result.data),
-            ApiResult::Err(err) => Err(err.into()),
-        }
+        let result: Value<C::SyncCommitteeContribution> = api_error_or_value(response).await?;
+        Ok(result.data)
     }
 
     pub async fn post_sync_committee_contributions_with_proofs(
@@ -880,10 +829,7 @@ impl<C: ClientTypes> Client<C> {
         let endpoint = format!("eth/v1/validator/liveness/{epoch}");
         let indices = indices.iter().map(|index| index.to_string()).collect::<Vec<_>>();
         let response = self.http_post(&endpoint, &indices).await?;
-        let result: ApiResult<Value<_>> = response.json().await?;
-        match result {
-            ApiResult::Ok(result) => Ok(result.data),
-            ApiResult::Err(err) => Err(err.into()),
-        }
+        let result: Value<_> = api_error_or_value(response).await?;
+        Ok(result.data)
     }
 }
-- 
2.43.0


From 341320af7f0f3d60a7d2e7fe3c9c50b4414ea11f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:42 +0000
Subject: [PATCH 34/36] Leave the generated modules as generated: the repairs
 stay in the sources they are generated from

---
 ethereum-consensus/src/altair/spec/mod.rs    |  5 +++--
 ethereum-consensus/src/bellatrix/spec/mod.rs |  8 +++-----
 ethereum-consensus/src/capella/spec/mod.rs   | 11 +++++------
 ethereum-consensus/src/deneb/spec/mod.rs     |  8 +++-----
 ethereum-consensus/src/electra/spec/mod.rs   |  5 +----
 5 files changed, 15 insertions(+), 22 deletions(-)

diff --git a/ethereum-consensus/src/altair/spec/mod.rs b/ethereum-consensus/src/altair/spec/mod.rs
index 199e3f6..5715b45 100644
--- a/ethereum-consensus/src/altair/spec/mod.rs
+++ b/ethereum-consensus/src/altair/spec/mod.rs
@@ -331,7 +331,8 @@ pub fn process_voluntary_exit<
             InvalidVoluntaryExit::EarlyExit { current_epoch, exit_epoch: voluntary_exit.epoch },
         )));
     }
-    let minimum_time_active = validator.activation_epoch + context.shard_committee_period;
+    let minimum_time_active =
+        validator.activation_eligibility_epoch + context.shard_committee_period;
     if current_epoch < minimum_time_active {
         return Err(invalid_operation_error(InvalidOperation::VoluntaryExit(
             InvalidVoluntaryExit::ValidatorIsNotActiveForLongEnough {
@@ -1348,7 +1349,7 @@ pub fn get_block_root_at_slot<
     if slot >= state.slot || state.slot > (slot + SLOTS_PER_HISTORICAL_ROOT as Slot) {
         return Err(Error::SlotOutOfRange {
             requested: slot,
-            lower_bound: state.slot.saturating_sub(1),
+            lower_bound: state.slot - 1,
             upper_bound: state.slot + SLOTS_PER_HISTORICAL_ROOT as Slot,
         });
     }
diff --git a/ethereum-consensus/src/bellatrix/spec/mod.rs b/ethereum-consensus/src/bellatrix/spec/mod.rs
index 9163628..d37399c 100644
--- a/ethereum-consensus/src/bellatrix/spec/mod.rs
+++ b/ethereum-consensus/src/bellatrix/spec/mod.rs
@@ -598,7 +598,8 @@ pub fn process_voluntary_exit<
             InvalidVoluntaryExit::EarlyExit { current_epoch, exit_epoch: voluntary_exit.epoch },
         )));
     }
-    let minimum_time_active = validator.activation_epoch + context.shard_committee_period;
+    let minimum_time_active =
+        validator.activation_eligibility_epoch + context.shard_committee_period;
     if current_epoch < minimum_time_active {
         return Err(invalid_operation_error(InvalidOperation::VoluntaryExit(
             InvalidVoluntaryExit::ValidatorIsNotActiveForLongEnough {
@@ -1623,9 +1624,6 @@ pub fn get_next_sync_committee_indices<
     let max_random_byte = u8::MAX as u64;
     let active_validator_indices = get_active_validator_indices(state, epoch);
     let active_validator_count = active_validator_indices.len();
-    if active_validator_count == 0 {
-        return Err(Error::CollectionCannotBeEmpty);
-    }
     let seed = get_seed(state, epoch, DomainType::SyncCommittee, context);
     let mut i: usize = 0;
     let mut sync_committee_indices = vec![];
@@ -2287,7 +2285,7 @@ pub fn get_block_root_at_slot<
     if slot >= state.slot || state.slot > (slot + SLOTS_PER_HISTORICAL_ROOT as Slot) {
         return Err(Error::SlotOutOfRange {
             requested: slot,
-            lower_bound: state.slot.saturating_sub(1),
+            lower_bound: state.slot - 1,
             upper_bound: state.slot + SLOTS_PER_HISTORICAL_ROOT as Slot,
         });
     }
diff --git a/ethereum-consensus/src/capella/spec/mod.rs b/ethereum-consensus/src/capella/spec/mod.rs
index 8dba74a..286de1a 100644
--- a/ethereum-consensus/src/capella/spec/mod.rs
+++ b/ethereum-consensus/src/capella/spec/mod.rs
@@ -605,7 +605,8 @@ pub fn process_voluntary_exit<
             InvalidVoluntaryExit::EarlyExit { current_epoch, exit_epoch: voluntary_exit.epoch },
         )));
     }
-    let minimum_time_active = validator.activation_epoch + context.shard_committee_period;
+    let minimum_time_active =
+        validator.activation_eligibility_epoch + context.shard_committee_period;
     if current_epoch < minimum_time_active {
         return Err(invalid_operation_error(InvalidOperation::VoluntaryExit(
             InvalidVoluntaryExit::ValidatorIsNotActiveForLongEnough {
@@ -1687,7 +1688,8 @@ pub fn slash_validator<
     let whistleblower_index = whistleblower_index.unwrap_or(proposer_index);
     let whistleblower_reward =
         state.validators[slashed_index].effective_balance / context.whistleblower_reward_quotient;
-    let proposer_reward = whistleblower_reward * PROPOSER_WEIGHT / WEIGHT_DENOMINATOR;
+    let proposer_reward_scaling_factor = PROPOSER_WEIGHT / WEIGHT_DENOMINATOR;
+    let proposer_reward = whistleblower_reward * proposer_reward_scaling_factor;
     increase_balance(state, proposer_index, proposer_reward);
     increase_balance(state, whistleblower_index, whistleblower_reward - proposer_reward);
     Ok(())
@@ -1886,9 +1888,6 @@ pub fn get_next_sync_committee_indices<
     let max_random_byte = u8::MAX as u64;
     let active_validator_indices = get_active_validator_indices(state, epoch);
     let active_validator_count = active_validator_indices.len();
-    if active_validator_count == 0 {
-        return Err(Error::CollectionCannotBeEmpty);
-    }
     let seed = get_seed(state, epoch, DomainType::SyncCommittee, context);
     let mut i: usize = 0;
     let mut sync_committee_indices = vec![];
@@ -2554,7 +2553,7 @@ pub fn get_block_root_at_slot<
     if slot >= state.slot || state.slot > (slot + SLOTS_PER_HISTORICAL_ROOT as Slot) {
         return Err(Error::SlotOutOfRange {
             requested: slot,
-            lower_bound: state.slot.saturating_sub(1),
+            lower_bound: state.slot - 1,
             upper_bound: state.slot + SLOTS_PER_HISTORICAL_ROOT as Slot,
         });
     }
diff --git a/ethereum-consensus/src/deneb/spec/mod.rs b/ethereum-consensus/src/deneb/spec/mod.rs
index f49132c..df6fa7c 100644
--- a/ethereum-consensus/src/deneb/spec/mod.rs
+++ b/ethereum-consensus/src/deneb/spec/mod.rs
@@ -1796,7 +1796,8 @@ pub fn slash_validator<
     let whistleblower_index = whistleblower_index.unwrap_or(proposer_index);
     let whistleblower_reward =
         state.validators[slashed_index].effective_balance / context.whistleblower_reward_quotient;
-    let proposer_reward = whistleblower_reward * PROPOSER_WEIGHT / WEIGHT_DENOMINATOR;
+    let proposer_reward_scaling_factor = PROPOSER_WEIGHT / WEIGHT_DENOMINATOR;
+    let proposer_reward = whistleblower_reward * proposer_reward_scaling_factor;
     increase_balance(state, proposer_index, proposer_reward);
     increase_balance(state, whistleblower_index, whistleblower_reward - proposer_reward);
     Ok(())
@@ -1999,9 +2000,6 @@ pub fn get_next_sync_committee_indices<
     let max_random_byte = u8::MAX as u64;
     let active_validator_indices = get_active_validator_indices(state, epoch);
     let active_validator_count = active_validator_indices.len();
-    if active_validator_count == 0 {
-        return Err(Error::CollectionCannotBeEmpty);
-    }
     let seed = get_seed(state, epoch, DomainType::SyncCommittee, context);
     let mut i: usize = 0;
     let mut sync_committee_indices = vec![];
@@ -2610,7 +2608,7 @@ pub fn get_block_root_at_slot<
     if slot >= state.slot || state.slot > (slot + SLOTS_PER_HISTORICAL_ROOT as Slot) {
         return Err(Error::SlotOutOfRange {
             requested: slot,
-            lower_bound: state.slot.saturating_sub(1),
+            lower_bound: state.slot - 1,
             upper_bound: state.slot + SLOTS_PER_HISTORICAL_ROOT as Slot,
         });
     }
diff --git a/ethereum-consensus/src/electra/spec/mod.rs b/ethereum-consensus/src/electra/spec/mod.rs
index 90dd0c3..bee747c 100644
--- a/ethereum-consensus/src/electra/spec/mod.rs
+++ b/ethereum-consensus/src/electra/spec/mod.rs
@@ -2011,9 +2011,6 @@ pub fn get_next_sync_committee_indices<
     let max_random_byte = u8::MAX as u64;
     let active_validator_indices = get_active_validator_indices(state, epoch);
     let active_validator_count = active_validator_indices.len();
-    if active_validator_count == 0 {
-        return Err(Error::CollectionCannotBeEmpty);
-    }
     let seed = get_seed(state, epoch, DomainType::SyncCommittee, context);
     let mut i: usize = 0;
     let mut sync_committee_indices = vec![];
@@ -2716,7 +2713,7 @@ pub fn get_block_root_at_slot<
     if slot >= state.slot || state.slot > (slot + SLOTS_PER_HISTORICAL_ROOT as Slot) {
         return Err(Error::SlotOutOfRange {
             requested: slot,
-            lower_bound: state.slot.saturating_sub(1),
+            lower_bound: state.slot - 1,
             upper_bound: state.slot + SLOTS_PER_HISTORICAL_ROOT as Slot,
         });
     }
-- 
2.43.0


From 102299fd2a2d33b57de561e4d326eac9c6726dbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:05 +0000
Subject: [PATCH 35/36] fix: a custom network is found again by the name it was
 written as

---
 ethereum-consensus/src/networks.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ethereum-consensus/src/networks.rs b/ethereum-consensus/src/networks.rs
index 73e0fe9..1830bdd 100644
--- a/ethereum-consensus/src/networks.rs
+++ b/ethereum-consensus/src/networks.rs
@@ -34,7 +34,11 @@ impl std::fmt::Display for Network {
 
 impl From<Network> for String {
     fn from(value: Network) -> Self {
-        format!("{value}")
+        match value {
+            // the name from which the network is found again, not how it is displayed
+            Network::Custom(config_dir) => config_dir,
+            network => network.to_string(),
+        }
     }
 }
 
-- 
2.43.0


From 89198a6fb276732603f5ff80d567387487a33e3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:08 +0000
Subject: [PATCH 36/36] fix: import a function an earlier fork adapted from
 that fork's generated module

Such a function exists only in the generated module; its defining module there has no such item.
---
 spec-gen/src/generator.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/spec-gen/src/generator.rs b/spec-gen/src/generator.rs
index ffca20d..32bd7f8 100644
--- a/spec-gen/src/generator.rs
+++ b/spec-gen/src/generator.rs
@@ -241,13 +241,15 @@ struct Fn {
     item: syn::ItemFn,
     fork: Fork,
     can_import: bool,
+    // an earlier fork had to edit this function, so it lives in the generated module of that fork
+    is_generated: bool,
 }
 
 impl Fn {
     fn new(value: syn::ItemFn, fork: Fork) -> Self {
         let sig = &value.sig;
         let name = &sig.ident;
-        Self { name: name.to_string(), item: value, fork, can_import: true }
+        Self { name: name.to_string(), item: value, fork, can_import: true, is_generated: false }
     }
 
     fn is_pub(&self) -> bool {
@@ -496,6 +498,7 @@ impl Spec {
 
                 f.item = fragment;
                 f.can_import = false;
+                f.is_generated = true;
 
                 module.fns.push(f);
                 index.insert(fn_name, module_name.to_string());
@@ -581,6 +584,11 @@ impl Spec {
             let item: Item = if f.can_import {
                 let ident = &f.item.sig.ident;
                 let fork_name = as_syn_ident(f.fork.name());
+                let module_name = if f.is_generated {
+                    as_syn_ident("spec".to_string())
+                } else {
+                    module_name
+                };
                 parse_quote! {
                     pub use crate::#fork_name::#module_name::#ident;
                 }
-- 
2.43.0

