From cf4c2ca21a8eb364b33a7ba3555563fc427c8b53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:35 +0000
Subject: [PATCH 01/33] fix: program queries without data filters no longer
 return closed accounts

The branch without filters did not check the lamports, so closed accounts were
returned by get_program_accounts and written into snapshots.
---
 account_storage/src/inmemory_account_store.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/account_storage/src/inmemory_account_store.rs b/account_storage/src/inmemory_account_store.rs
index 04b7f74..8c82287 100644
--- a/account_storage/src/inmemory_account_store.rs
+++ b/account_storage/src/inmemory_account_store.rs
@@ -191,8 +191,10 @@ impl InmemoryAccountStore {
             None => {
                 let account_data = lk_on_account.get_account_data(commitment);
                 if let Some(account_data) = account_data {
-                    // recheck owner
-                    if program_pubkey == account_data.account.owner {
+                    // recheck owner, deleted accounts are not returned
+                    if account_data.account.lamports > 0
+                        && program_pubkey == account_data.account.owner
+                    {
                         return_vec.push(account_data);
                     }
                 }
-- 
2.43.0


From d0f5f84a3067205edb52db5354b37d88f0e6cc53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:40 +0000
Subject: [PATCH 02/33] fix: compare slot and write version when accounts are
 promoted or read at processed

promote_slot_commitment compared only slots, so the last write of a slot was not
promoted when an earlier write of the same slot was already confirmed or finalized,
and a processed read returned an older late update instead of the newer confirmed one.
---
 .../src/account_data_by_commitment.rs         | 59 ++++++++++---------
 1 file changed, 31 insertions(+), 28 deletions(-)

diff --git a/account_storage/src/account_data_by_commitment.rs b/account_storage/src/account_data_by_commitment.rs
index 5d88493..d8b9051 100644
--- a/account_storage/src/account_data_by_commitment.rs
+++ b/account_storage/src/account_data_by_commitment.rs
@@ -38,32 +38,41 @@ impl AccountDataByCommitment {
         }
     }
 
-    pub fn get_account_data(&self, commitment: Commitment) -> Option<AccountData> {
+    fn is_newer(data: &AccountData, other: &AccountData) -> bool {
+        (data.updated_slot, data.write_version) > (other.updated_slot, other.write_version)
+    }
+
+    fn get_account_data_ref(&self, commitment: Commitment) -> Option<&AccountData> {
         match commitment {
-            Commitment::Processed => self
-                .processed_accounts
-                .last_key_value()
-                .map(|(_, v)| v.clone())
-                .or(self.confirmed_account.clone()),
-            Commitment::Confirmed => self.confirmed_account.clone(),
-            Commitment::Finalized => self.finalized_account.clone(),
+            // an update can be delivered late, the last processed state is then older than the confirmed one
+            Commitment::Processed => {
+                let processed_account = self.processed_accounts.last_key_value().map(|(_, v)| v);
+                match (
+                    processed_account,
+                    self.get_account_data_ref(Commitment::Confirmed),
+                ) {
+                    (Some(processed), Some(confirmed)) if Self::is_newer(confirmed, processed) => {
+                        Some(confirmed)
+                    }
+                    (None, confirmed) => confirmed,
+                    (processed, _) => processed,
+                }
+            }
+            Commitment::Confirmed => self.confirmed_account.as_ref(),
+            Commitment::Finalized => self.finalized_account.as_ref(),
         }
     }
 
+    pub fn get_account_data(&self, commitment: Commitment) -> Option<AccountData> {
+        self.get_account_data_ref(commitment).cloned()
+    }
+
     pub fn get_account_data_filtered(
         &self,
         commitment: Commitment,
         filters: &Vec<AccountFilterType>,
     ) -> Option<AccountData> {
-        let account_data = match commitment {
-            Commitment::Processed => self
-                .processed_accounts
-                .last_key_value()
-                .map(|(_, v)| v)
-                .or(self.confirmed_account.as_ref()),
-            Commitment::Confirmed => self.confirmed_account.as_ref(),
-            Commitment::Finalized => self.finalized_account.as_ref(),
-        };
+        let account_data = self.get_account_data_ref(commitment);
 
         let account_data = account_data?;
 
@@ -129,18 +138,12 @@ impl AccountDataByCommitment {
         let update_confirmed = self
             .confirmed_account
             .as_ref()
-            .map(|x| {
-                x.updated_slot < data.updated_slot
-                    || (x.updated_slot == data.updated_slot && x.write_version < data.write_version)
-            })
+            .map(|x| Self::is_newer(&data, x))
             .unwrap_or(true);
         let update_finalized = self
             .finalized_account
             .as_ref()
-            .map(|x| {
-                x.updated_slot < data.updated_slot
-                    || (x.updated_slot == data.updated_slot && x.write_version < data.write_version)
-            })
+            .map(|x| Self::is_newer(&data, x))
             .unwrap_or(true);
 
         let mut updated = false;
@@ -199,7 +202,7 @@ impl AccountDataByCommitment {
                 }
                 Commitment::Confirmed => match self.confirmed_account.take() {
                     Some(prev_account_data) => {
-                        if prev_account_data.updated_slot < account_data.updated_slot {
+                        if Self::is_newer(account_data, &prev_account_data) {
                             self.confirmed_account = Some(account_data.clone());
                             Some((account_data.clone(), Some(prev_account_data)))
                         } else {
@@ -216,7 +219,7 @@ impl AccountDataByCommitment {
                     // update confirmed if needed
                     match &self.confirmed_account {
                         Some(confirmed_account) => {
-                            if confirmed_account.updated_slot < account_data.updated_slot {
+                            if Self::is_newer(account_data, confirmed_account) {
                                 self.confirmed_account = Some(account_data.clone());
                             }
                         }
@@ -227,7 +230,7 @@ impl AccountDataByCommitment {
 
                     let result = match self.finalized_account.take() {
                         Some(prev_account_data) => {
-                            if prev_account_data.updated_slot < account_data.updated_slot {
+                            if Self::is_newer(account_data, &prev_account_data) {
                                 self.finalized_account = Some(account_data.clone());
                                 Some((account_data.clone(), Some(prev_account_data)))
                             } else {
-- 
2.43.0


From 98ee1842f76cd905e48b46074261deba3fe06752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:47 +0000
Subject: [PATCH 03/33] fix: slots never lose a commitment and promotions reach
 all known ancestors

process_slot_data overwrote the commitment of a slot with a lower one, stopped at the
notified slot when it was already known at the commitment even if its parent was new,
did not walk the ancestors of a slot first seen as confirmed or finalized and gave an
unknown ancestor the parent of the notified slot. Account updates with an explicit
commitment created the slot with that commitment, so that it was not promoted later,
and were themselves lowered to the commitment of the slot.
---
 account_storage/src/inmemory_account_store.rs | 100 ++++++++----------
 1 file changed, 44 insertions(+), 56 deletions(-)

diff --git a/account_storage/src/inmemory_account_store.rs b/account_storage/src/inmemory_account_store.rs
index 8c82287..2c17261 100644
--- a/account_storage/src/inmemory_account_store.rs
+++ b/account_storage/src/inmemory_account_store.rs
@@ -35,6 +35,17 @@ struct SlotStatus {
     pub parent: Option<Slot>,
 }
 
+impl SlotStatus {
+    // commitment of the slot is only changed by slot notifications
+    fn new() -> Self {
+        Self {
+            commitment: Commitment::Processed,
+            accounts_updated: BTreeSet::new(),
+            parent: None,
+        }
+    }
+}
+
 type AccountIndex = usize;
 pub struct InmemoryAccountStore {
     pubkey_to_account_index: Arc<DashMap<Pubkey, AccountIndex>>,
@@ -114,25 +125,12 @@ impl InmemoryAccountStore {
         commitment: Commitment,
     ) -> Commitment {
         let mut lk = self.slots_status.lock().unwrap();
-        let slot_status = match lk.get_mut(&slot) {
-            Some(x) => x,
-            None => {
-                lk.insert(
-                    slot,
-                    SlotStatus {
-                        commitment,
-                        accounts_updated: BTreeSet::new(),
-                        parent: None,
-                    },
-                );
-                lk.get_mut(&slot).unwrap()
-            }
-        };
+        let slot_status = lk.entry(slot).or_insert_with(SlotStatus::new);
         match commitment {
             Commitment::Processed | Commitment::Confirmed => {
                 // insert account into slot status
                 slot_status.accounts_updated.insert(account_index);
-                slot_status.commitment
+                slot_status.commitment.max(commitment)
             }
             Commitment::Finalized => commitment,
         }
@@ -356,36 +354,9 @@ impl AccountStorageInterface for InmemoryAccountStore {
             let mut writable_accounts: HashMap<AccountIndex, Slot> = HashMap::new();
             while let Some((slot, parent)) = current_slot {
                 current_slot = None;
-                match lk.get_mut(&slot) {
-                    Some(status) => {
-                        if status.commitment == commitment {
-                            // slot already processed for the commitment
-                            break;
-                        }
-                        status.commitment = commitment;
-                        if parent.is_some() {
-                            status.parent = parent;
-                        }
-                        for account in &status.accounts_updated {
-                            match writable_accounts.entry(*account) {
-                                std::collections::hash_map::Entry::Occupied(_) => {
-                                    // do nothing account has already been updated by higher slot
-                                }
-                                std::collections::hash_map::Entry::Vacant(vac) => {
-                                    vac.insert(slot);
-                                }
-                            }
-                        }
-                        if commitment == Commitment::Confirmed
-                            || commitment == Commitment::Finalized
-                        {
-                            if let Some(parent_slot) = status.parent {
-                                // update commitment for parent slots
-                                current_slot = Some((parent_slot, None));
-                            }
-                        }
-                    }
-                    None => {
+                let status = match lk.entry(slot) {
+                    std::collections::btree_map::Entry::Occupied(occ) => occ.into_mut(),
+                    std::collections::btree_map::Entry::Vacant(vac) => {
                         if commitment == Commitment::Confirmed {
                             log::debug!(
                                 "slot status not found for {} and commitment {}, confirmed lagging",
@@ -395,18 +366,35 @@ impl AccountStorageInterface for InmemoryAccountStore {
                         } else if commitment == Commitment::Finalized {
                             log::debug!("slot status not found for {} for commitment finalized, could be normal if the entry is already removed or during startup", slot,);
                         }
-                        if commitment == Commitment::Confirmed
-                            || commitment == Commitment::Processed
-                        {
-                            // add status for processed slot
-                            let status = SlotStatus {
-                                commitment,
-                                accounts_updated: BTreeSet::new(),
-                                parent: Some(slot_info.parent),
-                            };
-                            lk.insert(slot, status);
+                        vac.insert(SlotStatus::new())
+                    }
+                };
+                let parent_learned = parent.is_some() && status.parent != parent;
+                if parent_learned {
+                    status.parent = parent;
+                }
+                let newly_reached = status.commitment < commitment;
+                if newly_reached {
+                    status.commitment = commitment;
+                    for account in &status.accounts_updated {
+                        match writable_accounts.entry(*account) {
+                            std::collections::hash_map::Entry::Occupied(_) => {
+                                // do nothing account has already been updated by higher slot
+                            }
+                            std::collections::hash_map::Entry::Vacant(vac) => {
+                                vac.insert(slot);
+                            }
+                        }
+                    }
+                }
+                // ancestors of a slot already processed for the commitment have been updated,
+                // unless its parent was not known then
+                if commitment != Commitment::Processed && (newly_reached || parent_learned) {
+                    if let Some(parent_slot) = status.parent {
+                        // update commitment for parent slots
+                        if parent_slot < slot {
+                            current_slot = Some((parent_slot, None));
                         }
-                        break;
                     }
                 }
             }
-- 
2.43.0


From 0146e815618bf5b8adc1c0919adde12ed81bb455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:27 +0000
Subject: [PATCH 04/33] fix: updates take the commitment their slot has
 reached, also for new accounts

The commitment of the slot was looked up before the account was locked, so an update
racing with the notification of its slot could miss the promotion, and it was never
looked up for accounts seen for the first time.
---
 account_storage/src/inmemory_account_store.rs | 33 +++++--------------
 1 file changed, 9 insertions(+), 24 deletions(-)

diff --git a/account_storage/src/inmemory_account_store.rs b/account_storage/src/inmemory_account_store.rs
index 2c17261..787db57 100644
--- a/account_storage/src/inmemory_account_store.rs
+++ b/account_storage/src/inmemory_account_store.rs
@@ -118,6 +118,8 @@ impl InmemoryAccountStore {
     }
 
     // commitment for which status was updated
+    // should be called while the account (or the store for a new account) is locked for writing, so that either
+    // process_slot_data promotes the update or the update takes the commitment already reached by the slot
     fn add_account_index_to_slot_status(
         &self,
         slot: Slot,
@@ -136,25 +138,6 @@ impl InmemoryAccountStore {
         }
     }
 
-    fn maybe_update_slot_status(
-        &self,
-        account_data: &AccountData,
-        commitment: Commitment,
-    ) -> Commitment {
-        let account_index = match self
-            .pubkey_to_account_index
-            .get(&account_data.pubkey)
-            .map(|x| *x)
-        {
-            Some(x) => x,
-            None => {
-                return commitment;
-            }
-        };
-        let slot = account_data.updated_slot;
-        self.add_account_index_to_slot_status(slot, account_index, commitment)
-    }
-
     pub fn satisfies_filters(&self, account: &AccountData) -> bool {
         self.filtered_accounts.satisfies(account)
     }
@@ -214,14 +197,14 @@ impl AccountStorageInterface for InmemoryAccountStore {
         }
         let updated_slot = account_data.updated_slot;
 
-        // check if the blockhash and slot is already confirmed
-        let commitment = self.maybe_update_slot_status(&account_data, commitment);
-
         let updated = match self.pubkey_to_account_index.entry(account_data.pubkey) {
             dashmap::mapref::entry::Entry::Occupied(occ) => {
                 let index = *occ.get();
                 let read_lk = self.accounts_store.read().unwrap();
                 let mut acc_by_commitment = read_lk[index].write().unwrap();
+                // check if the blockhash and slot is already confirmed
+                let commitment =
+                    self.add_account_index_to_slot_status(updated_slot, index, commitment);
                 let prev_account = acc_by_commitment.get_account_data(commitment);
                 // if account has been updated
                 if acc_by_commitment.update(account_data.clone(), commitment) {
@@ -245,14 +228,16 @@ impl AccountStorageInterface for InmemoryAccountStore {
                 if self.satisfies_filters(&account_data) {
                     ACCOUNT_STORED_IN_MEMORY.inc();
                     let mut lk = self.accounts_store.write().unwrap();
+                    let index = lk.len();
+                    // check if the blockhash and slot is already confirmed
+                    let commitment =
+                        self.add_account_index_to_slot_status(updated_slot, index, commitment);
                     lk.push(RwLock::new(AccountDataByCommitment::new(
                         account_data.clone(),
                         commitment,
                     )));
-                    let index = lk.len() - 1;
                     drop(lk);
                     self.add_account_owner(index, account_data.account.owner);
-                    self.add_account_index_to_slot_status(updated_slot, index, commitment);
                     vac.insert(index);
                     true
                 } else {
-- 
2.43.0


From 53d8ebdf19ed777676755fc26a105d8f248090b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:07 +0000
Subject: [PATCH 05/33] fix: final closures and owner changes keep newer states
 and the owner index is exact

A closure or a move out of the filters that became final deleted newer unfinalized
states of the account, it was ignored when there was no earlier finalized state or
the owner did not change, and the owner index lost an account which moved away and
came back, or whose new owner was learned from a promotion.
---
 .../src/account_data_by_commitment.rs         |  35 +++++-
 account_storage/src/inmemory_account_store.rs | 104 ++++++++----------
 2 files changed, 81 insertions(+), 58 deletions(-)

diff --git a/account_storage/src/account_data_by_commitment.rs b/account_storage/src/account_data_by_commitment.rs
index d8b9051..31619ce 100644
--- a/account_storage/src/account_data_by_commitment.rs
+++ b/account_storage/src/account_data_by_commitment.rs
@@ -1,11 +1,14 @@
-use std::{collections::BTreeMap, sync::Arc};
+use std::{
+    collections::{BTreeMap, BTreeSet},
+    sync::Arc,
+};
 
 use lite_account_manager_common::{
     account_data::{self, Account, AccountData},
     account_filter::AccountFilterType,
     commitment::Commitment,
 };
-use solana_sdk::clock::Slot;
+use solana_sdk::{clock::Slot, pubkey::Pubkey};
 
 #[derive(Default)]
 pub struct AccountDataByCommitment {
@@ -63,6 +66,34 @@ impl AccountDataByCommitment {
         }
     }
 
+    // slot and write version of the finalized state
+    pub fn finalized_version(&self) -> Option<(Slot, u64)> {
+        self.finalized_account
+            .as_ref()
+            .map(|x| (x.updated_slot, x.write_version))
+    }
+
+    // states newer than the finalized one
+    pub fn pending_accounts(&self) -> impl Iterator<Item = &AccountData> {
+        self.processed_accounts
+            .values()
+            .chain(self.confirmed_account.as_ref())
+            .filter(|x| match &self.finalized_account {
+                Some(finalized_account) => Self::is_newer(x, finalized_account),
+                None => true,
+            })
+    }
+
+    // owners of all the states
+    pub fn owners(&self) -> BTreeSet<Pubkey> {
+        self.processed_accounts
+            .values()
+            .chain(self.confirmed_account.as_ref())
+            .chain(self.finalized_account.as_ref())
+            .map(|x| x.account.owner)
+            .collect()
+    }
+
     pub fn get_account_data(&self, commitment: Commitment) -> Option<AccountData> {
         self.get_account_data_ref(commitment).cloned()
     }
diff --git a/account_storage/src/inmemory_account_store.rs b/account_storage/src/inmemory_account_store.rs
index 787db57..52dffaf 100644
--- a/account_storage/src/inmemory_account_store.rs
+++ b/account_storage/src/inmemory_account_store.rs
@@ -79,42 +79,46 @@ impl InmemoryAccountStore {
         }
     }
 
+    fn remove_account_owner(&self, account_index: AccountIndex, owner: Pubkey) {
+        match self.accounts_by_owner.entry(owner) {
+            dashmap::mapref::entry::Entry::Occupied(mut occ) => {
+                occ.get_mut().write().unwrap().remove(&account_index);
+            }
+            dashmap::mapref::entry::Entry::Vacant(_) => {
+                // do nothing
+            }
+        }
+    }
+
     // here if the commitment is processed and the account has changed owner from A->B we keep the key for both A and B
-    // then we remove the key from A for finalized commitment
-    // returns true if entry needs to be deleted
-    fn update_owner_delete_if_necessary(
+    // the key is removed from A when no state of the account owned by A is left
+    fn update_owners(
         &self,
-        prev_account_data: &AccountData,
-        new_account_data: &AccountData,
+        previous_owners: &BTreeSet<Pubkey>,
+        account: &AccountDataByCommitment,
         account_index: AccountIndex,
-        commitment: Commitment,
-    ) -> bool {
-        assert_eq!(prev_account_data.pubkey, new_account_data.pubkey);
-        if prev_account_data.account.owner != new_account_data.account.owner {
-            if commitment == Commitment::Finalized {
-                match self
-                    .accounts_by_owner
-                    .entry(prev_account_data.account.owner)
-                {
-                    dashmap::mapref::entry::Entry::Occupied(mut occ) => {
-                        occ.get_mut().write().unwrap().remove(&account_index);
-                    }
-                    dashmap::mapref::entry::Entry::Vacant(_) => {
-                        // do nothing
-                    }
-                }
+    ) {
+        let owners = account.owners();
+        for owner in owners.difference(previous_owners) {
+            self.add_account_owner(account_index, *owner);
+        }
+        for owner in previous_owners.difference(&owners) {
+            self.remove_account_owner(account_index, *owner);
+        }
+    }
 
-                // account is deleted or if new does not satisfies the filter criterias
-                if Self::is_deleted(new_account_data) || !self.satisfies_filters(new_account_data) {
-                    return true;
-                }
-            }
-            if !Self::is_deleted(new_account_data) && self.satisfies_filters(new_account_data) {
-                // update owner if account was not deleted but owner was change and the filter criterias are satisfied
-                self.add_account_owner(account_index, new_account_data.account.owner);
+    // account is to be deleted if its finalized state is deleted or does not satisfy the filter criterias
+    // and there is no newer state which is alive and satisfies them
+    fn needs_deletion(&self, account: &AccountDataByCommitment) -> bool {
+        let is_relevant = |account_data: &AccountData| {
+            !Self::is_deleted(account_data) && self.satisfies_filters(account_data)
+        };
+        match &account.finalized_account {
+            Some(finalized_account) => {
+                !is_relevant(finalized_account) && !account.pending_accounts().any(is_relevant)
             }
+            None => false,
         }
-        false
     }
 
     // commitment for which status was updated
@@ -205,20 +209,17 @@ impl AccountStorageInterface for InmemoryAccountStore {
                 // check if the blockhash and slot is already confirmed
                 let commitment =
                     self.add_account_index_to_slot_status(updated_slot, index, commitment);
-                let prev_account = acc_by_commitment.get_account_data(commitment);
+                let previous_owners = acc_by_commitment.owners();
+                let previous_finalized = acc_by_commitment.finalized_version();
                 // if account has been updated
                 if acc_by_commitment.update(account_data.clone(), commitment) {
-                    if let Some(prev_account) = prev_account {
-                        if self.update_owner_delete_if_necessary(
-                            &prev_account,
-                            &account_data,
-                            index,
-                            commitment,
-                        ) {
-                            acc_by_commitment.delete();
-                            occ.remove_entry();
-                        }
+                    if acc_by_commitment.finalized_version() != previous_finalized
+                        && self.needs_deletion(&acc_by_commitment)
+                    {
+                        acc_by_commitment.delete();
+                        occ.remove_entry();
                     }
+                    self.update_owners(&previous_owners, &acc_by_commitment, index);
                     true
                 } else {
                     false
@@ -404,24 +405,15 @@ impl AccountStorageInterface for InmemoryAccountStore {
         let lk = self.accounts_store.read().unwrap();
         for (writable_account_index, update_slot) in writable_accounts {
             let mut writable_lk = lk[writable_account_index].write().unwrap();
-            if let Some((account_data, prev_account_data)) =
+            let previous_owners = writable_lk.owners();
+            if let Some((account_data, _)) =
                 writable_lk.promote_slot_commitment(update_slot, commitment)
             {
-                if let Some(prev_account_data) = prev_account_data {
-                    // check if owner has changed
-                    if (prev_account_data.account.owner != account_data.account.owner
-                        || account_data.account.lamports == 0)
-                        && self.update_owner_delete_if_necessary(
-                            &prev_account_data,
-                            &account_data,
-                            writable_account_index,
-                            commitment,
-                        )
-                    {
-                        self.pubkey_to_account_index.remove(&account_data.pubkey);
-                        writable_lk.delete();
-                    }
+                if commitment == Commitment::Finalized && self.needs_deletion(&writable_lk) {
+                    self.pubkey_to_account_index.remove(&account_data.pubkey);
+                    writable_lk.delete();
                 }
+                self.update_owners(&previous_owners, &writable_lk, writable_account_index);
                 // account has been confirmed first time
                 updated_accounts.push(account_data);
             }
-- 
2.43.0


From cc83798e32230cf25c8886bf4cd58e3a1d3a095d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:49 +0000
Subject: [PATCH 06/33] fix: deadlock between account updates and finalized
 slot notifications

update_account locks the pubkey index before the account, process_slot_data removed
closed accounts from the pubkey index while it had the account locked.
---
 .../src/account_data_by_commitment.rs         |  7 ++++++
 account_storage/src/inmemory_account_store.rs | 22 +++++++++++++++++--
 2 files changed, 27 insertions(+), 2 deletions(-)

diff --git a/account_storage/src/account_data_by_commitment.rs b/account_storage/src/account_data_by_commitment.rs
index 31619ce..bb0a0eb 100644
--- a/account_storage/src/account_data_by_commitment.rs
+++ b/account_storage/src/account_data_by_commitment.rs
@@ -309,6 +309,13 @@ impl AccountDataByCommitment {
         }
     }
 
+    // has no state left, i.e account has been deleted
+    pub fn is_empty(&self) -> bool {
+        self.processed_accounts.is_empty()
+            && self.confirmed_account.is_none()
+            && self.finalized_account.is_none()
+    }
+
     pub fn delete(&mut self) {
         self.processed_accounts.clear();
         self.confirmed_account = None;
diff --git a/account_storage/src/inmemory_account_store.rs b/account_storage/src/inmemory_account_store.rs
index 52dffaf..20ba29a 100644
--- a/account_storage/src/inmemory_account_store.rs
+++ b/account_storage/src/inmemory_account_store.rs
@@ -206,6 +206,11 @@ impl AccountStorageInterface for InmemoryAccountStore {
                 let index = *occ.get();
                 let read_lk = self.accounts_store.read().unwrap();
                 let mut acc_by_commitment = read_lk[index].write().unwrap();
+                // account deleted by process_slot_data, is handled like a new account
+                let is_reused = acc_by_commitment.is_empty();
+                if is_reused && !self.satisfies_filters(&account_data) {
+                    return false;
+                }
                 // check if the blockhash and slot is already confirmed
                 let commitment =
                     self.add_account_index_to_slot_status(updated_slot, index, commitment);
@@ -213,7 +218,8 @@ impl AccountStorageInterface for InmemoryAccountStore {
                 let previous_finalized = acc_by_commitment.finalized_version();
                 // if account has been updated
                 if acc_by_commitment.update(account_data.clone(), commitment) {
-                    if acc_by_commitment.finalized_version() != previous_finalized
+                    if !is_reused
+                        && acc_by_commitment.finalized_version() != previous_finalized
                         && self.needs_deletion(&acc_by_commitment)
                     {
                         acc_by_commitment.delete();
@@ -401,6 +407,7 @@ impl AccountStorageInterface for InmemoryAccountStore {
         };
 
         let mut updated_accounts = vec![];
+        let mut deleted_accounts = vec![];
 
         let lk = self.accounts_store.read().unwrap();
         for (writable_account_index, update_slot) in writable_accounts {
@@ -410,14 +417,25 @@ impl AccountStorageInterface for InmemoryAccountStore {
                 writable_lk.promote_slot_commitment(update_slot, commitment)
             {
                 if commitment == Commitment::Finalized && self.needs_deletion(&writable_lk) {
-                    self.pubkey_to_account_index.remove(&account_data.pubkey);
                     writable_lk.delete();
+                    deleted_accounts.push(account_data.pubkey);
                 }
                 self.update_owners(&previous_owners, &writable_lk, writable_account_index);
                 // account has been confirmed first time
                 updated_accounts.push(account_data);
             }
         }
+        drop(lk);
+
+        // update_account locks the index before the account, so remove them without holding any account
+        for pubkey in deleted_accounts {
+            self.pubkey_to_account_index.remove_if(&pubkey, |_, index| {
+                self.accounts_store.read().unwrap()[*index]
+                    .read()
+                    .unwrap()
+                    .is_empty()
+            });
+        }
         updated_accounts
     }
 
-- 
2.43.0


From 16e92e88434b1b9468b2f271e23e5882e3bc2d0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:53 +0000
Subject: [PATCH 07/33] fix: states of abandoned forks are removed when a rival
 slot is finalized

A processed state of a slot which is not an ancestor of the finalized slot was served
at processed commitment until the account was written again.
---
 .../src/account_data_by_commitment.rs         | 23 ++++++++++
 account_storage/src/inmemory_account_store.rs | 45 +++++++++++++++----
 2 files changed, 59 insertions(+), 9 deletions(-)

diff --git a/account_storage/src/account_data_by_commitment.rs b/account_storage/src/account_data_by_commitment.rs
index bb0a0eb..803d910 100644
--- a/account_storage/src/account_data_by_commitment.rs
+++ b/account_storage/src/account_data_by_commitment.rs
@@ -309,6 +309,29 @@ impl AccountDataByCommitment {
         }
     }
 
+    // removes unconfirmed states of the slots, returns pubkey of the account if there was any
+    pub fn remove_unconfirmed(&mut self, slots: &[Slot]) -> Option<Pubkey> {
+        let mut pubkey = None;
+        for slot in slots {
+            let Some(account_data) = self.processed_accounts.remove(slot) else {
+                continue;
+            };
+            let confirmed_account = [&self.confirmed_account, &self.finalized_account]
+                .into_iter()
+                .flatten()
+                .find(|x| x.updated_slot == *slot)
+                .cloned();
+            let confirmed_write = confirmed_account.as_ref().map(|x| x.write_version);
+            if confirmed_write != Some(account_data.write_version) {
+                pubkey = Some(account_data.pubkey);
+            }
+            if let Some(confirmed_account) = confirmed_account {
+                self.processed_accounts.insert(*slot, confirmed_account);
+            }
+        }
+        pubkey
+    }
+
     // has no state left, i.e account has been deleted
     pub fn is_empty(&self) -> bool {
         self.processed_accounts.is_empty()
diff --git a/account_storage/src/inmemory_account_store.rs b/account_storage/src/inmemory_account_store.rs
index 20ba29a..4d73d3e 100644
--- a/account_storage/src/inmemory_account_store.rs
+++ b/account_storage/src/inmemory_account_store.rs
@@ -343,7 +343,10 @@ impl AccountStorageInterface for InmemoryAccountStore {
         let writable_accounts = {
             let mut lk = self.slots_status.lock().unwrap();
             let mut current_slot = Some((slot, Some(slot_info.parent)));
-            let mut writable_accounts: HashMap<AccountIndex, Slot> = HashMap::new();
+            // for each account slot of the update to be promoted and slots of the updates to be removed
+            let mut writable_accounts: HashMap<AccountIndex, (Option<Slot>, Vec<Slot>)> =
+                HashMap::new();
+            let mut first_known_slot = slot;
             while let Some((slot, parent)) = current_slot {
                 current_slot = None;
                 let status = match lk.entry(slot) {
@@ -365,6 +368,10 @@ impl AccountStorageInterface for InmemoryAccountStore {
                 if parent_learned {
                     status.parent = parent;
                 }
+                if let Some(parent_slot) = status.parent {
+                    first_known_slot = first_known_slot.min(parent_slot);
+                }
+                first_known_slot = first_known_slot.min(slot);
                 let newly_reached = status.commitment < commitment;
                 if newly_reached {
                     status.commitment = commitment;
@@ -374,7 +381,7 @@ impl AccountStorageInterface for InmemoryAccountStore {
                                 // do nothing account has already been updated by higher slot
                             }
                             std::collections::hash_map::Entry::Vacant(vac) => {
-                                vac.insert(slot);
+                                vac.insert((Some(slot), vec![]));
                             }
                         }
                     }
@@ -394,9 +401,21 @@ impl AccountStorageInterface for InmemoryAccountStore {
             // remove old slot status if finalized
             if commitment == Commitment::Finalized {
                 while let Some(entry) = lk.first_entry() {
-                    if *entry.key() < slot {
-                        log::debug!("removing slot {}", entry.key());
-                        entry.remove();
+                    let old_slot = *entry.key();
+                    if old_slot < slot {
+                        log::debug!("removing slot {}", old_slot);
+                        let status = entry.remove();
+                        // slot was not reached from the finalized slot, so it is on an abandoned fork
+                        if status.commitment == Commitment::Processed && old_slot > first_known_slot
+                        {
+                            for account in status.accounts_updated {
+                                writable_accounts
+                                    .entry(account)
+                                    .or_default()
+                                    .1
+                                    .push(old_slot);
+                            }
+                        }
                     } else {
                         break;
                     }
@@ -410,17 +429,25 @@ impl AccountStorageInterface for InmemoryAccountStore {
         let mut deleted_accounts = vec![];
 
         let lk = self.accounts_store.read().unwrap();
-        for (writable_account_index, update_slot) in writable_accounts {
+        for (writable_account_index, (update_slot, abandoned_slots)) in writable_accounts {
             let mut writable_lk = lk[writable_account_index].write().unwrap();
             let previous_owners = writable_lk.owners();
-            if let Some((account_data, _)) =
+            // remove the states of abandoned forks
+            let abandoned = writable_lk.remove_unconfirmed(&abandoned_slots);
+            let promoted = update_slot.and_then(|update_slot| {
                 writable_lk.promote_slot_commitment(update_slot, commitment)
-            {
+            });
+            let pubkey = promoted.as_ref().map(|(x, _)| x.pubkey).or(abandoned);
+            if let Some(pubkey) = pubkey {
                 if commitment == Commitment::Finalized && self.needs_deletion(&writable_lk) {
                     writable_lk.delete();
-                    deleted_accounts.push(account_data.pubkey);
+                }
+                if writable_lk.is_empty() {
+                    deleted_accounts.push(pubkey);
                 }
                 self.update_owners(&previous_owners, &writable_lk, writable_account_index);
+            }
+            if let Some((account_data, _)) = promoted {
                 // account has been confirmed first time
                 updated_accounts.push(account_data);
             }
-- 
2.43.0


From 67ba2994286cf4bf22dd0a7b6f37776654ef6c2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:56 +0000
Subject: [PATCH 08/33] fix: refuse snapshots with account data that cannot be
 decompressed

Such accounts were loaded and every later read of their data panicked.
---
 account_storage/src/inmemory_account_store.rs |  3 ++
 common/src/account_data.rs                    | 34 ++++++++++++-------
 2 files changed, 24 insertions(+), 13 deletions(-)

diff --git a/account_storage/src/inmemory_account_store.rs b/account_storage/src/inmemory_account_store.rs
index 4d73d3e..0362269 100644
--- a/account_storage/src/inmemory_account_store.rs
+++ b/account_storage/src/inmemory_account_store.rs
@@ -478,6 +478,9 @@ impl AccountStorageInterface for InmemoryAccountStore {
     ) -> Result<(), AccountLoadingError> {
         let accounts = bincode::deserialize::<Vec<AccountData>>(&snapshot)
             .map_err(|_| AccountLoadingError::DeserializationIssues)?;
+        if accounts.iter().any(|x| x.account.data.try_data().is_err()) {
+            return Err(AccountLoadingError::DeserializationIssues);
+        }
         for account_data in accounts {
             self.initilize_or_update_account(account_data);
         }
diff --git a/common/src/account_data.rs b/common/src/account_data.rs
index 86f48dd..ca2b2ae 100644
--- a/common/src/account_data.rs
+++ b/common/src/account_data.rs
@@ -62,21 +62,29 @@ impl Data {
     }
 
     pub fn data(&self) -> Vec<u8> {
-        match self {
+        match self.try_data() {
+            Ok(res) => res,
+            Err(e) => {
+                log::error!("error {e:?} decompressing data of size {}", self.len());
+                panic!()
+            }
+        }
+    }
+
+    /// data of the account or an error if it cannot be decompressed, i.e. if it comes from a damaged snapshot
+    pub fn try_data(&self) -> std::io::Result<Vec<u8>> {
+        let data = match self {
             Data::Uncompressed(d) => d.clone(),
-            Data::Lz4 { binary, len } => match lz4::block::decompress(binary, None) {
-                Ok(res) => res,
-                Err(e) => {
-                    log::error!(
-                        "error {e:?} decompressing data of size {}, data_size_set: {}",
-                        binary.len(),
-                        len
-                    );
-                    panic!()
-                }
-            },
-            Data::Zstd { binary, .. } => zstd::bulk::decompress(binary, MAX_ACCOUNT_SIZE).unwrap(),
+            Data::Lz4 { binary, .. } => lz4::block::decompress(binary, None)?,
+            Data::Zstd { binary, .. } => zstd::bulk::decompress(binary, MAX_ACCOUNT_SIZE)?,
+        };
+        if data.len() != self.len() {
+            return Err(std::io::Error::new(
+                std::io::ErrorKind::InvalidData,
+                "unexpected length of decompressed data",
+            ));
         }
+        Ok(data)
     }
 }
 
-- 
2.43.0


From c3a09d29e4c6c97f9e0ccce3e8c4f8d547a5499b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:21 +0000
Subject: [PATCH 09/33] fix: new accounts are listed under their owner before a
 notification can promote them

---
 account_storage/src/inmemory_account_store.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/account_storage/src/inmemory_account_store.rs b/account_storage/src/inmemory_account_store.rs
index 0362269..ceb1e12 100644
--- a/account_storage/src/inmemory_account_store.rs
+++ b/account_storage/src/inmemory_account_store.rs
@@ -243,8 +243,9 @@ impl AccountStorageInterface for InmemoryAccountStore {
                         account_data.clone(),
                         commitment,
                     )));
-                    drop(lk);
+                    // queries should find the account as soon as a slot notification can promote it
                     self.add_account_owner(index, account_data.account.owner);
+                    drop(lk);
                     vac.insert(index);
                     true
                 } else {
-- 
2.43.0


From 4e13200a26421dd8d3a16f0193efe7aa76661340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:59 +0000
Subject: [PATCH 10/33] fix: accounts that return while their deletion is in
 progress get a new record

---
 account_storage/src/inmemory_account_store.rs | 52 +++++++++++--------
 1 file changed, 31 insertions(+), 21 deletions(-)

diff --git a/account_storage/src/inmemory_account_store.rs b/account_storage/src/inmemory_account_store.rs
index ceb1e12..dfc1da5 100644
--- a/account_storage/src/inmemory_account_store.rs
+++ b/account_storage/src/inmemory_account_store.rs
@@ -142,6 +142,24 @@ impl InmemoryAccountStore {
         }
     }
 
+    // should be called while the pubkey is locked in pubkey_to_account_index
+    fn add_new_account(&self, account_data: AccountData, commitment: Commitment) -> AccountIndex {
+        ACCOUNT_STORED_IN_MEMORY.inc();
+        let mut lk = self.accounts_store.write().unwrap();
+        let index = lk.len();
+        // check if the blockhash and slot is already confirmed
+        let commitment =
+            self.add_account_index_to_slot_status(account_data.updated_slot, index, commitment);
+        let owner = account_data.account.owner;
+        lk.push(RwLock::new(AccountDataByCommitment::new(
+            account_data,
+            commitment,
+        )));
+        // queries should find the account as soon as a slot notification can promote it
+        self.add_account_owner(index, owner);
+        index
+    }
+
     pub fn satisfies_filters(&self, account: &AccountData) -> bool {
         self.filtered_accounts.satisfies(account)
     }
@@ -202,14 +220,20 @@ impl AccountStorageInterface for InmemoryAccountStore {
         let updated_slot = account_data.updated_slot;
 
         let updated = match self.pubkey_to_account_index.entry(account_data.pubkey) {
-            dashmap::mapref::entry::Entry::Occupied(occ) => {
+            dashmap::mapref::entry::Entry::Occupied(mut occ) => {
                 let index = *occ.get();
                 let read_lk = self.accounts_store.read().unwrap();
                 let mut acc_by_commitment = read_lk[index].write().unwrap();
-                // account deleted by process_slot_data, is handled like a new account
-                let is_reused = acc_by_commitment.is_empty();
-                if is_reused && !self.satisfies_filters(&account_data) {
-                    return false;
+                if acc_by_commitment.is_empty() {
+                    // account deleted by process_slot_data, is handled like a new account
+                    drop(acc_by_commitment);
+                    drop(read_lk);
+                    return if self.satisfies_filters(&account_data) {
+                        occ.insert(self.add_new_account(account_data, commitment));
+                        true
+                    } else {
+                        false
+                    };
                 }
                 // check if the blockhash and slot is already confirmed
                 let commitment =
@@ -218,8 +242,7 @@ impl AccountStorageInterface for InmemoryAccountStore {
                 let previous_finalized = acc_by_commitment.finalized_version();
                 // if account has been updated
                 if acc_by_commitment.update(account_data.clone(), commitment) {
-                    if !is_reused
-                        && acc_by_commitment.finalized_version() != previous_finalized
+                    if acc_by_commitment.finalized_version() != previous_finalized
                         && self.needs_deletion(&acc_by_commitment)
                     {
                         acc_by_commitment.delete();
@@ -233,20 +256,7 @@ impl AccountStorageInterface for InmemoryAccountStore {
             }
             dashmap::mapref::entry::Entry::Vacant(vac) => {
                 if self.satisfies_filters(&account_data) {
-                    ACCOUNT_STORED_IN_MEMORY.inc();
-                    let mut lk = self.accounts_store.write().unwrap();
-                    let index = lk.len();
-                    // check if the blockhash and slot is already confirmed
-                    let commitment =
-                        self.add_account_index_to_slot_status(updated_slot, index, commitment);
-                    lk.push(RwLock::new(AccountDataByCommitment::new(
-                        account_data.clone(),
-                        commitment,
-                    )));
-                    // queries should find the account as soon as a slot notification can promote it
-                    self.add_account_owner(index, account_data.account.owner);
-                    drop(lk);
-                    vac.insert(index);
+                    vac.insert(self.add_new_account(account_data, commitment));
                     true
                 } else {
                     false
-- 
2.43.0


From 57e0e32c45d06d1d8e510635b59c0a907e65e8f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:53 +0000
Subject: [PATCH 11/33] fix: token accounts sharing a partial pubkey no longer
 affect each other

---
 .../src/inmemory_token_account_storage.rs     | 43 ++++++++++---------
 1 file changed, 22 insertions(+), 21 deletions(-)

diff --git a/token_account_storage/src/inmemory_token_account_storage.rs b/token_account_storage/src/inmemory_token_account_storage.rs
index 16924b0..9ddb0b3 100644
--- a/token_account_storage/src/inmemory_token_account_storage.rs
+++ b/token_account_storage/src/inmemory_token_account_storage.rs
@@ -39,26 +39,21 @@ impl TokenAccountStorageInterface for InmemoryTokenAccountStorage {
         match self.pubkey_to_index.entry(pubkey.into()) {
             dashmap::mapref::entry::Entry::Occupied(occ) => {
                 let value = occ.get();
-                if value.len() > 1 {
-                    let lk = self.token_accounts.read().unwrap();
-                    for index in value {
-                        if TokenAccount::get_pubkey_from_binary(lk.get(*index as usize).unwrap())
+                // several pubkeys can share the same partial pubkey
+                let lk = self.token_accounts.read().unwrap();
+                value
+                    .iter()
+                    .find(|index| {
+                        TokenAccount::get_pubkey_from_binary(lk.get(**index as usize).unwrap())
                             == *pubkey
-                        {
-                            return Some(*index);
-                        }
-                    }
-                    None
-                } else {
-                    Some(value[0])
-                }
+                    })
+                    .copied()
             }
             dashmap::mapref::entry::Entry::Vacant(_) => None,
         }
     }
 
     fn save_or_update(&self, token_account: TokenAccount) -> (TokenAccountIndex, bool) {
-        println!("Saving or updating token account: {:?}", token_account);
         match self.pubkey_to_index.entry(token_account.pubkey.into()) {
             dashmap::mapref::entry::Entry::Occupied(mut occ) => {
                 // already present
@@ -127,8 +122,9 @@ impl TokenAccountStorageInterface for InmemoryTokenAccountStorage {
     }
 
     fn delete(&self, pubkey: &Pubkey) {
-        let acc_to_remove = self.pubkey_to_index.remove(&pubkey.into());
-        if let Some((_, indexes)) = acc_to_remove {
+        if let dashmap::mapref::entry::Entry::Occupied(mut occ) =
+            self.pubkey_to_index.entry(pubkey.into())
+        {
             let mut write_lk = self.token_accounts.write().unwrap();
             let deleted_account = TokenAccount {
                 program: Program::TokenProgram,
@@ -144,12 +140,17 @@ impl TokenAccountStorageInterface for InmemoryTokenAccountStorage {
                 additional_data: None,
             }
             .to_bytes();
-            for index in indexes {
-                let binary = write_lk.get_mut(index as usize).unwrap();
-                if TokenAccount::get_pubkey_from_binary(binary) == *pubkey {
-                    TOKEN_ACCOUNT_DELETED_IN_MEMORY.inc();
-                    *binary = deleted_account;
-                    return;
+            // other accounts can share the same partial pubkey
+            let position = occ.get().iter().position(|index| {
+                let binary = write_lk.get(*index as usize).unwrap();
+                TokenAccount::get_pubkey_from_binary(binary) == *pubkey
+            });
+            if let Some(position) = position {
+                let index = occ.get_mut().remove(position);
+                *write_lk.get_mut(index as usize).unwrap() = deleted_account;
+                TOKEN_ACCOUNT_DELETED_IN_MEMORY.inc();
+                if occ.get().is_empty() {
+                    occ.remove();
                 }
             }
         }
-- 
2.43.0


From 564079fe724d87514269846c70f2bcf4fb84778f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:33 +0000
Subject: [PATCH 12/33] fix: Token-2022 accounts and mints with extensions are
 parsed

---
 token_account_storage/src/token_program_utils.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/token_account_storage/src/token_program_utils.rs b/token_account_storage/src/token_program_utils.rs
index f69370f..f975b77 100644
--- a/token_account_storage/src/token_program_utils.rs
+++ b/token_account_storage/src/token_program_utils.rs
@@ -95,7 +95,7 @@ pub fn get_token_program_account_type(
             0 => {
                 //mint
                 let mint = spl_token_2022::state::Mint::unpack_unchecked(
-                    &account_data.account.data.data(),
+                    &data[..spl_token_2022::state::Mint::LEN],
                 )?;
                 Ok(TokenProgramAccountType::Mint(MintAccount {
                     program: crate::account_types::Program::Token2022Program,
@@ -111,7 +111,7 @@ pub fn get_token_program_account_type(
             }
             1 => {
                 let token_account = spl_token_2022::state::Account::unpack_unchecked(
-                    &account_data.account.data.data(),
+                    &data[..spl_token_2022::state::Account::LEN],
                 )?;
                 let mint_index = get_or_create_mint_index(
                     token_account.mint,
-- 
2.43.0


From 4ab128b2b157f2097c6a7552d48e1b7762679a5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:49 +0000
Subject: [PATCH 13/33] fix: token accounts whose mint is unknown or closed are
 stored and read without panics

---
 .../src/inmemory_token_storage.rs             | 81 ++++++++++++-------
 .../src/token_program_utils.rs                | 25 ++++--
 2 files changed, 67 insertions(+), 39 deletions(-)

diff --git a/token_account_storage/src/inmemory_token_storage.rs b/token_account_storage/src/inmemory_token_storage.rs
index 7db27a7..394e26b 100644
--- a/token_account_storage/src/inmemory_token_storage.rs
+++ b/token_account_storage/src/inmemory_token_storage.rs
@@ -24,7 +24,7 @@ use crate::{
     account_types::{MintAccount, MintIndex, MultiSig, Program, TokenAccount, TokenAccountIndex},
     token_account_storage_interface::TokenAccountStorageInterface,
     token_program_utils::{
-        get_spl_token_owner_mint_filter, get_token_program_account_type,
+        get_or_create_mint_index, get_spl_token_owner_mint_filter, get_token_program_account_type,
         token_account_to_solana_account, token_mint_to_solana_account,
         token_multisig_to_solana_account, token_program_account_to_solana_account,
         TokenProgramAccountType,
@@ -150,7 +150,7 @@ impl ProcessedAccountStore {
     pub fn get_processed_for_slot(
         &self,
         slot_info: SlotInfo,
-        mints_by_index: &Arc<DashMap<MintIndex, MintAccount>>,
+        mint_pubkey_by_index: &Arc<DashMap<MintIndex, Pubkey>>,
     ) -> Vec<AccountData> {
         let lk = self.processed_slot_accounts.read().unwrap();
         match lk.get(&slot_info.slot) {
@@ -162,7 +162,7 @@ impl ProcessedAccountStore {
                         &account.processed_account,
                         slot_info.slot,
                         account.write_version,
-                        mints_by_index,
+                        mint_pubkey_by_index,
                     )
                 })
                 .collect(),
@@ -303,6 +303,8 @@ impl ProcessedAccountStore {
 pub struct TokenProgramAccountsStorage {
     mints_by_index: Arc<DashMap<MintIndex, MintAccount>>,
     mints_index_by_pubkey: Arc<DashMap<Pubkey, MintIndex>>,
+    // mints are known by their index even if the mint account itself is not loaded or is deleted
+    mint_pubkey_by_index: Arc<DashMap<MintIndex, Pubkey>>,
     multisigs: Arc<DashMap<Pubkey, MultiSig>>,
     accounts_index_by_mint: Arc<DashMap<MintIndex, VecDeque<TokenAccountIndex>>>,
     account_by_owner_pubkey: Arc<DashMap<InmemoryPubkey, Vec<TokenAccountIndex>>>,
@@ -319,6 +321,7 @@ impl TokenProgramAccountsStorage {
         Self {
             mints_by_index: Arc::new(DashMap::new()),
             mints_index_by_pubkey: Arc::new(DashMap::new()),
+            mint_pubkey_by_index: Arc::new(DashMap::new()),
             accounts_index_by_mint: Arc::new(DashMap::new()),
             multisigs: Arc::new(DashMap::new()),
             account_by_owner_pubkey: Arc::new(DashMap::new()),
@@ -367,29 +370,24 @@ impl TokenProgramAccountsStorage {
                 }
             }
             TokenProgramAccountType::Mint(mint_data) => {
-                match self.mints_index_by_pubkey.entry(mint_data.pubkey) {
-                    dashmap::mapref::entry::Entry::Occupied(occ) => {
-                        self.mints_by_index.insert(*occ.get(), mint_data);
-                    }
-                    dashmap::mapref::entry::Entry::Vacant(v) => {
-                        TOKEN_MINTS_IN_MEMORY.inc();
-                        let index = self
-                            .mint_counter
-                            .fetch_add(1, std::sync::atomic::Ordering::Relaxed);
-                        self.mints_by_index.insert(index, mint_data);
-                        v.insert(index);
-                    }
+                let index = get_or_create_mint_index(
+                    mint_data.pubkey,
+                    &self.mints_index_by_pubkey,
+                    &self.mint_pubkey_by_index,
+                    &self.mint_counter,
+                );
+                if self.mints_by_index.insert(index, mint_data).is_none() {
+                    TOKEN_MINTS_IN_MEMORY.inc();
                 }
             }
             TokenProgramAccountType::MultiSig(multisig_data, pubkey) => {
                 self.multisigs.insert(pubkey, multisig_data);
             }
             TokenProgramAccountType::Deleted(account_pk) => {
-                if let Some((_, index)) = self.mints_index_by_pubkey.remove(&account_pk) {
+                // token accounts of a deleted mint still refer to its index
+                if self.remove_mint(&account_pk) {
                     TOKEN_MINTS_IN_MEMORY.dec();
-                    self.mints_by_index.remove(&index);
-                    self.accounts_index_by_mint.remove(&index);
-                } else if self.mints_index_by_pubkey.remove(&account_pk).is_some() {
+                } else if self.multisigs.remove(&account_pk).is_some() {
                     // do nothing multisig account is removed
                 } else {
                     self.token_accounts_storage.delete(&account_pk);
@@ -399,9 +397,22 @@ impl TokenProgramAccountsStorage {
         true
     }
 
+    fn get_mint(&self, account_pk: &Pubkey) -> Option<MintAccount> {
+        let mint_index = *self.mints_index_by_pubkey.get(account_pk)?;
+        self.mints_by_index
+            .get(&mint_index)
+            .map(|mint| mint.value().clone())
+    }
+
+    fn remove_mint(&self, account_pk: &Pubkey) -> bool {
+        match self.mints_index_by_pubkey.get(account_pk) {
+            Some(mint_index) => self.mints_by_index.remove(mint_index.value()).is_some(),
+            None => false,
+        }
+    }
+
     pub fn is_token_program_account(&self, account_data: &AccountData) -> bool {
-        self.mints_index_by_pubkey
-            .contains_key(&account_data.pubkey)
+        self.get_mint(&account_data.pubkey).is_some()
             || self.multisigs.contains_key(&account_data.pubkey)
             || account_data.account.owner == spl_token::id()
             || account_data.account.owner == spl_token_2022::id()
@@ -421,8 +432,7 @@ impl TokenProgramAccountsStorage {
             ));
         }
 
-        if let Some(mint_index) = self.mints_index_by_pubkey.get(&account_pk) {
-            let mint_data = self.mints_by_index.get(&mint_index).unwrap();
+        if let Some(mint_data) = self.get_mint(&account_pk) {
             return Some(token_mint_to_solana_account(
                 &mint_data,
                 self.finalized_slot.load(Ordering::Relaxed),
@@ -438,7 +448,7 @@ impl TokenProgramAccountsStorage {
                 &token_account,
                 self.finalized_slot.load(Ordering::Relaxed),
                 0,
-                &self.mints_by_index,
+                &self.mint_pubkey_by_index,
             );
         }
         None
@@ -465,7 +475,14 @@ impl TokenProgramAccountsStorage {
                     dashmap::mapref::entry::Entry::Vacant(_) => None,
                 };
 
-                let mint = mint.map(|pk| *self.mints_index_by_pubkey.get(&pk).unwrap().value());
+                let mint = match mint {
+                    Some(pk) => match self.mints_index_by_pubkey.get(&pk) {
+                        Some(mint_index) => Some(*mint_index.value()),
+                        // no token account has this mint
+                        None => return Ok(vec![]),
+                    },
+                    None => None,
+                };
 
                 match indexes {
                     Some(indexes) => {
@@ -486,7 +503,7 @@ impl TokenProgramAccountsStorage {
                                     token_account,
                                     finalized_slot,
                                     0,
-                                    &self.mints_by_index,
+                                    &self.mint_pubkey_by_index,
                                 )
                             })
                             .collect_vec();
@@ -513,7 +530,7 @@ impl TokenProgramAccountsStorage {
                                         token_account,
                                         finalized_slot,
                                         0,
-                                        &self.mints_by_index,
+                                        &self.mint_pubkey_by_index,
                                     )
                                 })
                                 .collect_vec();
@@ -568,6 +585,7 @@ impl AccountStorageInterface for TokenProgramAccountsStorage {
         let token_program_account = match get_token_program_account_type(
             &account_data,
             &self.mints_index_by_pubkey,
+            &self.mint_pubkey_by_index,
             &self.mint_counter,
         ) {
             Ok(res) => res,
@@ -598,6 +616,7 @@ impl AccountStorageInterface for TokenProgramAccountsStorage {
         let token_program_account = match get_token_program_account_type(
             &account_data,
             &self.mints_index_by_pubkey,
+            &self.mint_pubkey_by_index,
             &self.mint_counter,
         ) {
             Ok(res) => res,
@@ -635,7 +654,7 @@ impl AccountStorageInterface for TokenProgramAccountsStorage {
                         &processed_account.processed_account,
                         *slot,
                         0,
-                        &self.mints_by_index,
+                        &self.mint_pubkey_by_index,
                     )),
                     None => Ok(self.get_account_finalized(account_pk)),
                 }
@@ -670,7 +689,7 @@ impl AccountStorageInterface for TokenProgramAccountsStorage {
                         &processed_account.processed_account,
                         *slot,
                         processed_account.write_version,
-                        &self.mints_by_index,
+                        &self.mint_pubkey_by_index,
                     );
                     match updated_account {
                         Some(updated_account) => {
@@ -706,7 +725,7 @@ impl AccountStorageInterface for TokenProgramAccountsStorage {
                     self.processed_storage.update_slot_info(slot_info);
                 }
                 self.processed_storage
-                    .get_processed_for_slot(slot_info, &self.mints_by_index)
+                    .get_processed_for_slot(slot_info, &self.mint_pubkey_by_index)
             }
             Commitment::Finalized => {
                 log::debug!("finalize slot data  : {slot_info:?}");
@@ -725,7 +744,7 @@ impl AccountStorageInterface for TokenProgramAccountsStorage {
                             &acc.processed_account,
                             *slot,
                             acc.write_version,
-                            &self.mints_by_index,
+                            &self.mint_pubkey_by_index,
                         )
                     })
                     .collect_vec();
diff --git a/token_account_storage/src/token_program_utils.rs b/token_account_storage/src/token_program_utils.rs
index f975b77..3dff4cc 100644
--- a/token_account_storage/src/token_program_utils.rs
+++ b/token_account_storage/src/token_program_utils.rs
@@ -40,12 +40,14 @@ impl TokenProgramAccountType {
 pub fn get_or_create_mint_index(
     mint: Pubkey,
     mint_index_by_pubkey: &Arc<DashMap<Pubkey, MintIndex>>,
+    mint_pubkey_by_index: &Arc<DashMap<MintIndex, Pubkey>>,
     mint_index_count: &Arc<AtomicU32>,
 ) -> MintIndex {
     match mint_index_by_pubkey.entry(mint) {
         dashmap::mapref::entry::Entry::Occupied(occ) => *occ.get(),
         dashmap::mapref::entry::Entry::Vacant(vac) => {
             let index = mint_index_count.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
+            mint_pubkey_by_index.insert(index, mint);
             vac.insert(index);
             index
         }
@@ -55,6 +57,7 @@ pub fn get_or_create_mint_index(
 pub fn get_token_program_account_type(
     account_data: &AccountData,
     mint_index_by_pubkey: &Arc<DashMap<Pubkey, MintIndex>>,
+    mint_pubkey_by_index: &Arc<DashMap<MintIndex, Pubkey>>,
     mint_index_count: &Arc<AtomicU32>,
 ) -> anyhow::Result<TokenProgramAccountType> {
     if account_data.account.lamports == 0
@@ -116,6 +119,7 @@ pub fn get_token_program_account_type(
                 let mint_index = get_or_create_mint_index(
                     token_account.mint,
                     mint_index_by_pubkey,
+                    mint_pubkey_by_index,
                     mint_index_count,
                 );
                 Ok(TokenProgramAccountType::TokenAccount(TokenAccount {
@@ -191,6 +195,7 @@ pub fn get_token_program_account_type(
             let mint_index = get_or_create_mint_index(
                 token_account.mint,
                 mint_index_by_pubkey,
+                mint_pubkey_by_index,
                 mint_index_count,
             );
             Ok(TokenProgramAccountType::TokenAccount(TokenAccount {
@@ -248,17 +253,18 @@ pub fn token_account_to_solana_account(
     token_account: &TokenAccount,
     updated_slot: u64,
     write_version: u64,
-    mints_by_index: &Arc<DashMap<MintIndex, MintAccount>>,
+    mint_pubkey_by_index: &Arc<DashMap<MintIndex, Pubkey>>,
 ) -> Option<AccountData> {
     if token_account.is_deleted {
         return None;
     }
     let (delegate, delegated_amount) = token_account.delegate.unwrap_or_default();
-    let mint = mints_by_index.get(&token_account.mint).unwrap();
+    // the data of the mint account itself may be unknown or deleted
+    let mint = *mint_pubkey_by_index.get(&token_account.mint)?;
     let data = match token_account.program {
         Program::TokenProgram => {
             let t_acc = spl_token::state::Account {
-                mint: mint.pubkey,
+                mint,
                 owner: token_account.owner,
                 amount: token_account.amount,
                 delegate: if token_account.delegate.is_some() {
@@ -285,7 +291,7 @@ pub fn token_account_to_solana_account(
         }
         Program::Token2022Program => {
             let t_acc = spl_token_2022::state::Account {
-                mint: mint.pubkey,
+                mint,
                 owner: token_account.owner,
                 amount: token_account.amount,
                 delegate: if token_account.delegate.is_some() {
@@ -454,12 +460,15 @@ pub fn token_program_account_to_solana_account(
     token_program_account: &TokenProgramAccountType,
     updated_slot: u64,
     write_version: u64,
-    mints_by_index: &Arc<DashMap<MintIndex, MintAccount>>,
+    mint_pubkey_by_index: &Arc<DashMap<MintIndex, Pubkey>>,
 ) -> Option<AccountData> {
     match token_program_account {
-        TokenProgramAccountType::TokenAccount(tok_acc) => {
-            token_account_to_solana_account(tok_acc, updated_slot, write_version, mints_by_index)
-        }
+        TokenProgramAccountType::TokenAccount(tok_acc) => token_account_to_solana_account(
+            tok_acc,
+            updated_slot,
+            write_version,
+            mint_pubkey_by_index,
+        ),
         TokenProgramAccountType::Mint(mint_account) => Some(token_mint_to_solana_account(
             mint_account,
             updated_slot,
-- 
2.43.0


From 29daad42239ffafcfef38cd7170e2a8bec6c1c10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:20 +0000
Subject: [PATCH 14/33] fix: token slots keep their links, settled slots stay
 settled and finalizing is atomic

---
 .../src/inmemory_token_storage.rs             | 272 ++++++++----------
 1 file changed, 124 insertions(+), 148 deletions(-)

diff --git a/token_account_storage/src/inmemory_token_storage.rs b/token_account_storage/src/inmemory_token_storage.rs
index 394e26b..e65308a 100644
--- a/token_account_storage/src/inmemory_token_storage.rs
+++ b/token_account_storage/src/inmemory_token_storage.rs
@@ -52,98 +52,83 @@ struct ProcessedAccountBySlot {
     pub slot_parent: Option<u64>,
 }
 
-#[derive(Default, Clone)]
+#[derive(Default)]
 struct ProcessedAccountStore {
-    processed_slot_accounts: Arc<RwLock<BTreeMap<u64, ProcessedAccountBySlot>>>,
+    processed_slot_accounts: BTreeMap<u64, ProcessedAccountBySlot>,
+    finalized_slot: Slot,
 }
 
 impl ProcessedAccountStore {
+    fn get_or_create_slot(&mut self, slot: Slot) -> &mut ProcessedAccountBySlot {
+        self.processed_slot_accounts
+            .entry(slot)
+            .or_insert_with(|| ProcessedAccountBySlot {
+                processed_accounts: HashMap::new(),
+                slot_parent: None,
+            })
+    }
+
     pub fn insert_account(
-        &self,
+        &mut self,
         account_pk: Pubkey,
         processed_account: TokenProgramAccountType,
         write_version: u64,
         slot: Slot,
     ) -> bool {
-        let mut lk = self.processed_slot_accounts.write().unwrap();
-        match lk.get_mut(&slot) {
-            Some(processed_account_by_slot) => {
-                match processed_account_by_slot
-                    .processed_accounts
-                    .get_mut(&account_pk)
-                {
-                    Some(acc) => {
-                        if acc.write_version < write_version {
-                            log::debug!(
-                                "updating an existing account {account_pk:?} from {} to {}",
-                                acc.write_version,
-                                write_version
-                            );
-                            acc.write_version = write_version;
-                            acc.processed_account = processed_account;
-                            true
-                        } else {
-                            false
-                        }
-                    }
-                    None => {
-                        log::debug!("Adding a new account {account_pk:?} to slot {slot}");
-                        TOKEN_PROGRAM_TOTAL_PROCESSED_ACCOUNTS.inc();
-                        processed_account_by_slot.processed_accounts.insert(
-                            account_pk,
-                            ProcessedAccount {
-                                processed_account,
-                                write_version,
-                            },
-                        );
-                        true
-                    }
+        if slot <= self.finalized_slot {
+            // the slot is already finalized or abandoned
+            log::debug!("ignoring late update of account {account_pk:?} for slot {slot}");
+            return false;
+        }
+        match self
+            .get_or_create_slot(slot)
+            .processed_accounts
+            .entry(account_pk)
+        {
+            std::collections::hash_map::Entry::Occupied(mut occ) => {
+                let acc = occ.get_mut();
+                if acc.write_version < write_version {
+                    log::debug!(
+                        "updating an existing account {account_pk:?} from {} to {}",
+                        acc.write_version,
+                        write_version
+                    );
+                    acc.write_version = write_version;
+                    acc.processed_account = processed_account;
+                    true
+                } else {
+                    false
                 }
             }
-            None => {
-                log::debug!("Adding a new slot {slot} with new account {account_pk:?}");
+            std::collections::hash_map::Entry::Vacant(vac) => {
+                log::debug!("Adding a new account {account_pk:?} to slot {slot}");
                 TOKEN_PROGRAM_TOTAL_PROCESSED_ACCOUNTS.inc();
-                let mut processed_accounts = HashMap::new();
-                processed_accounts.insert(
-                    account_pk,
-                    ProcessedAccount {
-                        processed_account,
-                        write_version,
-                    },
-                );
-                lk.insert(
-                    slot,
-                    ProcessedAccountBySlot {
-                        processed_accounts,
-                        slot_parent: None,
-                    },
-                );
+                vac.insert(ProcessedAccount {
+                    processed_account,
+                    write_version,
+                });
                 true
             }
         }
     }
 
-    pub fn update_slot_info(&self, slot_info: SlotInfo) {
+    pub fn contains_account(&self, account_pk: &Pubkey) -> bool {
+        self.processed_slot_accounts
+            .values()
+            .any(|slot| slot.processed_accounts.contains_key(account_pk))
+    }
+
+    // slots that are finalized or older than a finalized slot are already settled
+    pub fn update_slot_info(&mut self, slot_info: SlotInfo) {
         log::debug!(
             "update slot info slot : {}, parent: {}, root: {}",
             slot_info.slot,
             slot_info.parent,
             slot_info.root
         );
-        let mut lk = self.processed_slot_accounts.write().unwrap();
-        match lk.get_mut(&slot_info.slot) {
-            Some(processed_account_by_slot) => {
-                processed_account_by_slot.slot_parent = Some(slot_info.parent);
-            }
-            None => {
-                lk.insert(
-                    slot_info.slot,
-                    ProcessedAccountBySlot {
-                        processed_accounts: HashMap::new(),
-                        slot_parent: None,
-                    },
-                );
-            }
+        // a parent is always older than its child
+        if slot_info.slot > self.finalized_slot && slot_info.parent < slot_info.slot {
+            self.get_or_create_slot(slot_info.slot).slot_parent = Some(slot_info.parent);
         }
     }
 
@@ -152,8 +137,7 @@ impl ProcessedAccountStore {
         slot_info: SlotInfo,
         mint_pubkey_by_index: &Arc<DashMap<MintIndex, Pubkey>>,
     ) -> Vec<AccountData> {
-        let lk = self.processed_slot_accounts.read().unwrap();
-        match lk.get(&slot_info.slot) {
+        match self.processed_slot_accounts.get(&slot_info.slot) {
             Some(acc) => acc
                 .processed_accounts
                 .iter()
@@ -168,71 +152,56 @@ impl ProcessedAccountStore {
                 .collect(),
             None => {
                 log::error!("confirmed slot not found in cache : {}", slot_info.slot);
-                drop(lk);
-                self.update_slot_info(slot_info);
                 vec![]
             }
         }
     }
 
     // returns list of accounts that are finalized
-    pub fn finalize(&self, slot: u64) -> Vec<(ProcessedAccount, u64)> {
+    pub fn finalize(&mut self, slot: u64) -> Vec<(ProcessedAccount, u64)> {
         log::debug!("finalizing slot : {slot}");
+        self.finalized_slot = slot;
         let mut map_of_accounts: HashMap<Pubkey, (ProcessedAccount, u64)> = HashMap::new();
-        let mut lk = self.processed_slot_accounts.write().unwrap();
         let mut process_slot = Some(slot);
         while let Some(current_slot) = process_slot {
-            match lk.entry(current_slot) {
-                std::collections::btree_map::Entry::Occupied(mut occ) => {
-                    let value = occ.get_mut();
-                    for (pk, acc) in value.processed_accounts.drain() {
+            match self.processed_slot_accounts.remove(&current_slot) {
+                Some(value) => {
+                    for (pk, acc) in value.processed_accounts {
                         TOKEN_PROGRAM_TOTAL_PROCESSED_ACCOUNTS.dec();
                         // as we are going from most recent slot to least recent slot
                         // if the key already exists then we do not insert in the map
-                        match map_of_accounts.entry(pk) {
-                            std::collections::hash_map::Entry::Vacant(vac) => {
-                                vac.insert((acc, current_slot));
-                            }
-                            std::collections::hash_map::Entry::Occupied(_) => {
-                                // already present
-                                continue;
-                            }
-                        }
+                        map_of_accounts.entry(pk).or_insert((acc, current_slot));
                     }
                     process_slot = value.slot_parent;
-                    occ.remove();
                 }
-                std::collections::btree_map::Entry::Vacant(_) => {
+                None => {
                     break;
                 }
             }
         }
 
         // remove processed nodes less than finalized slot
-        while let Some(first_entry) = lk.first_entry() {
+        while let Some(first_entry) = self.processed_slot_accounts.first_entry() {
             if *first_entry.key() <= slot {
-                first_entry.remove();
+                let abandoned = first_entry.remove();
+                TOKEN_PROGRAM_TOTAL_PROCESSED_ACCOUNTS
+                    .sub(abandoned.processed_accounts.len() as i64);
             } else {
                 break;
             }
         }
-        let mut return_vec = Vec::with_capacity(map_of_accounts.len());
-        for (_, acc) in map_of_accounts.drain() {
-            return_vec.push(acc);
-        }
-        return_vec
+        map_of_accounts.into_values().collect_vec()
     }
 
-    pub fn get_confirmed_accounts(
+    fn get_confirmed_accounts(
         &self,
-        account_pks: Vec<Pubkey>,
+        account_pks: &[Pubkey],
         return_list: &mut [Option<(ProcessedAccount, u64)>],
         confirmed_slot: Slot,
     ) {
         let mut process_slot = Some(confirmed_slot);
-        let lk = self.processed_slot_accounts.read().unwrap();
         while let Some(current_slot) = process_slot {
-            match lk.get(&current_slot) {
+            match self.processed_slot_accounts.get(&current_slot) {
                 Some(processed_accounts) => {
                     for (index, account_pk) in account_pks.iter().enumerate() {
                         if return_list.get(index).unwrap().is_some() {
@@ -257,16 +226,15 @@ impl ProcessedAccountStore {
 
     pub fn get_accounts(
         &self,
-        account_pks: Vec<Pubkey>,
+        account_pks: &[Pubkey],
         commitment: Commitment,
         confirmed_slot: Slot,
     ) -> Vec<Option<(ProcessedAccount, u64)>> {
         let mut return_list = vec![None; account_pks.len()];
         match commitment {
             Commitment::Processed => {
-                let lk = self.processed_slot_accounts.read().unwrap();
                 // iterate backwards on all the processed slots until we reach confirmed slot
-                for (slot, processed_account_slots) in lk.iter().rev() {
+                for (slot, processed_account_slots) in self.processed_slot_accounts.iter().rev() {
                     log::debug!("getting processed account at slot : {}", slot);
                     if *slot > confirmed_slot {
                         for (index, account_pk) in account_pks.iter().enumerate() {
@@ -285,7 +253,6 @@ impl ProcessedAccountStore {
                             break;
                         }
                     } else {
-                        drop(lk);
                         self.get_confirmed_accounts(account_pks, &mut return_list, confirmed_slot);
                         return return_list;
                     }
@@ -309,7 +276,9 @@ pub struct TokenProgramAccountsStorage {
     accounts_index_by_mint: Arc<DashMap<MintIndex, VecDeque<TokenAccountIndex>>>,
     account_by_owner_pubkey: Arc<DashMap<InmemoryPubkey, Vec<TokenAccountIndex>>>,
     token_accounts_storage: Arc<dyn TokenAccountStorageInterface>,
-    processed_storage: ProcessedAccountStore,
+    // taken by everything that changes the accounts, so that an account that is being finalized
+    // is at any time either processed or finalized
+    processed_storage: Arc<RwLock<ProcessedAccountStore>>,
     confirmed_slot: Arc<AtomicU64>,
     finalized_slot: Arc<AtomicU64>,
     mint_counter: Arc<AtomicU32>,
@@ -326,7 +295,7 @@ impl TokenProgramAccountsStorage {
             multisigs: Arc::new(DashMap::new()),
             account_by_owner_pubkey: Arc::new(DashMap::new()),
             token_accounts_storage,
-            processed_storage: ProcessedAccountStore::default(),
+            processed_storage: Arc::new(RwLock::new(ProcessedAccountStore::default())),
             confirmed_slot: Arc::new(AtomicU64::new(0)),
             finalized_slot: Arc::new(AtomicU64::new(0)),
             mint_counter: Arc::new(AtomicU32::new(0)),
@@ -573,10 +542,6 @@ struct TokenProgramSnapshot {
 
 impl AccountStorageInterface for TokenProgramAccountsStorage {
     fn update_account(&self, account_data: AccountData, commitment: Commitment) -> bool {
-        if !self.is_token_program_account(&account_data) {
-            return false;
-        }
-
         log::debug!(
             "update account : {} for commitment : {}",
             account_data.pubkey.to_string(),
@@ -594,8 +559,14 @@ impl AccountStorageInterface for TokenProgramAccountsStorage {
                 return false;
             }
         };
+        let mut processed_storage = self.processed_storage.write().unwrap();
+        if !self.is_token_program_account(&account_data)
+            && !processed_storage.contains_account(&account_data.pubkey)
+        {
+            return false;
+        }
         if commitment == Commitment::Processed || commitment == Commitment::Confirmed {
-            self.processed_storage.insert_account(
+            processed_storage.insert_account(
                 account_data.pubkey,
                 token_program_account,
                 account_data.write_version,
@@ -607,10 +578,6 @@ impl AccountStorageInterface for TokenProgramAccountsStorage {
     }
 
     fn initilize_or_update_account(&self, account_data: AccountData) {
-        if !self.is_token_program_account(&account_data) {
-            return;
-        }
-
         log::debug!("initializing account : {}", account_data.pubkey.to_string());
         // add account for finalized commitment
         let token_program_account = match get_token_program_account_type(
@@ -629,6 +596,10 @@ impl AccountStorageInterface for TokenProgramAccountsStorage {
                 return;
             }
         };
+        let _processed_storage = self.processed_storage.write().unwrap();
+        if !self.is_token_program_account(&account_data) {
+            return;
+        }
         self.add_account_finalized(token_program_account);
     }
 
@@ -640,10 +611,10 @@ impl AccountStorageInterface for TokenProgramAccountsStorage {
         log::debug!("get account : {}", account_pk.to_string());
         match commitment {
             Commitment::Confirmed | Commitment::Processed => {
-                match self
-                    .processed_storage
+                let processed_storage = self.processed_storage.read().unwrap();
+                match processed_storage
                     .get_accounts(
-                        vec![account_pk],
+                        &[account_pk],
                         commitment,
                         self.confirmed_slot.load(Ordering::Relaxed),
                     )
@@ -653,7 +624,7 @@ impl AccountStorageInterface for TokenProgramAccountsStorage {
                     Some((processed_account, slot)) => Ok(token_program_account_to_solana_account(
                         &processed_account.processed_account,
                         *slot,
-                        0,
+                        processed_account.write_version,
                         &self.mint_pubkey_by_index,
                     )),
                     None => Ok(self.get_account_finalized(account_pk)),
@@ -672,16 +643,18 @@ impl AccountStorageInterface for TokenProgramAccountsStorage {
         if program_pubkey != spl_token::id() && program_pubkey != spl_token_2022::id() {
             return Err(AccountLoadingError::WrongIndex);
         }
+        // accounts are not finalized as long as they are being read at the other commitments
+        let processed_storage =
+            (commitment != Commitment::Finalized).then(|| self.processed_storage.read().unwrap());
         // get all accounts for finalized commitment and update them if necessary
         let mut account_data =
             self.get_program_accounts_finalized(program_pubkey, account_filters)?;
-        let confirmed_slot = self.confirmed_slot.load(Ordering::Relaxed);
-        if commitment == Commitment::Processed || commitment == Commitment::Confirmed {
+        if let Some(processed_storage) = processed_storage {
+            let confirmed_slot = self.confirmed_slot.load(Ordering::Relaxed);
             // get list of all pks to search
             let pks = account_data.iter().map(|x| x.pubkey).collect_vec();
             let processed_accounts =
-                self.processed_storage
-                    .get_accounts(pks, commitment, confirmed_slot);
+                processed_storage.get_accounts(&pks, commitment, confirmed_slot);
             let mut to_remove = vec![];
             for (index, processed_account) in processed_accounts.iter().enumerate() {
                 if let Some((processed_account, slot)) = processed_account {
@@ -715,41 +688,44 @@ impl AccountStorageInterface for TokenProgramAccountsStorage {
         match commitment {
             Commitment::Processed => {
                 log::debug!("process slot data  : {slot_info:?}");
-                self.processed_storage.update_slot_info(slot_info);
+                self.processed_storage
+                    .write()
+                    .unwrap()
+                    .update_slot_info(slot_info);
                 vec![]
             }
             Commitment::Confirmed => {
                 log::debug!("confirm slot data  : {slot_info:?}");
-                if self.confirmed_slot.load(Ordering::Relaxed) < slot_info.slot {
-                    self.confirmed_slot.store(slot_info.slot, Ordering::Relaxed);
-                    self.processed_storage.update_slot_info(slot_info);
-                }
-                self.processed_storage
-                    .get_processed_for_slot(slot_info, &self.mint_pubkey_by_index)
+                let mut processed_storage = self.processed_storage.write().unwrap();
+                processed_storage.update_slot_info(slot_info);
+                self.confirmed_slot
+                    .fetch_max(slot_info.slot, Ordering::Relaxed);
+                processed_storage.get_processed_for_slot(slot_info, &self.mint_pubkey_by_index)
             }
             Commitment::Finalized => {
                 log::debug!("finalize slot data  : {slot_info:?}");
-                if self.finalized_slot.load(Ordering::Relaxed) < slot_info.slot {
-                    self.processed_storage.update_slot_info(slot_info);
-                    self.finalized_slot.store(slot_info.slot, Ordering::Relaxed);
+                let mut processed_storage = self.processed_storage.write().unwrap();
+                if slot_info.slot <= self.finalized_slot.load(Ordering::Relaxed) {
+                    // already finalized
+                    return vec![];
                 }
+                processed_storage.update_slot_info(slot_info);
+                self.finalized_slot.store(slot_info.slot, Ordering::Relaxed);
 
                 // move data from processed storage to main storage
-                let finalized_accounts = self.processed_storage.finalize(slot_info.slot);
-
-                let accounts_notifications = finalized_accounts
-                    .iter()
-                    .filter_map(|(acc, slot)| {
-                        token_program_account_to_solana_account(
-                            &acc.processed_account,
-                            *slot,
-                            acc.write_version,
-                            &self.mint_pubkey_by_index,
-                        )
-                    })
-                    .collect_vec();
-                for (finalized_account, _) in finalized_accounts {
-                    self.add_account_finalized(finalized_account.processed_account);
+                let finalized_accounts = processed_storage.finalize(slot_info.slot);
+
+                let mut accounts_notifications = Vec::with_capacity(finalized_accounts.len());
+                for (acc, slot) in finalized_accounts {
+                    let account = token_program_account_to_solana_account(
+                        &acc.processed_account,
+                        slot,
+                        acc.write_version,
+                        &self.mint_pubkey_by_index,
+                    );
+                    if self.add_account_finalized(acc.processed_account) {
+                        accounts_notifications.extend(account);
+                    }
                 }
                 accounts_notifications
             }
-- 
2.43.0


From 6110578ebf1b30720dd66d54dfd1832d5c5c0e42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:14 +0000
Subject: [PATCH 15/33] fix: finalized token accounts never go back to an older
 state and leave their old kind, owner and mint

---
 .../src/inmemory_token_storage.rs             | 203 +++++++++++++-----
 1 file changed, 148 insertions(+), 55 deletions(-)

diff --git a/token_account_storage/src/inmemory_token_storage.rs b/token_account_storage/src/inmemory_token_storage.rs
index e65308a..94a0d7c 100644
--- a/token_account_storage/src/inmemory_token_storage.rs
+++ b/token_account_storage/src/inmemory_token_storage.rs
@@ -118,6 +118,23 @@ impl ProcessedAccountStore {
             .any(|slot| slot.processed_accounts.contains_key(account_pk))
     }
 
+    // removes the states of an account up to a version, returns true if there were some
+    pub fn remove_account_until(&mut self, account_pk: &Pubkey, version: (Slot, u64)) -> bool {
+        let mut removed = false;
+        for (slot, accounts) in self.processed_slot_accounts.range_mut(..=version.0) {
+            if let std::collections::hash_map::Entry::Occupied(occ) =
+                accounts.processed_accounts.entry(*account_pk)
+            {
+                if (*slot, occ.get().write_version) <= version {
+                    occ.remove();
+                    TOKEN_PROGRAM_TOTAL_PROCESSED_ACCOUNTS.dec();
+                    removed = true;
+                }
+            }
+        }
+        removed
+    }
+
     // slots that are finalized or older than a finalized slot are already settled
     pub fn update_slot_info(&mut self, slot_info: SlotInfo) {
         log::debug!(
@@ -276,6 +293,8 @@ pub struct TokenProgramAccountsStorage {
     accounts_index_by_mint: Arc<DashMap<MintIndex, VecDeque<TokenAccountIndex>>>,
     account_by_owner_pubkey: Arc<DashMap<InmemoryPubkey, Vec<TokenAccountIndex>>>,
     token_accounts_storage: Arc<dyn TokenAccountStorageInterface>,
+    // slot and write version of all the finalized accounts
+    finalized_versions: Arc<DashMap<Pubkey, (Slot, u64)>>,
     // taken by everything that changes the accounts, so that an account that is being finalized
     // is at any time either processed or finalized
     processed_storage: Arc<RwLock<ProcessedAccountStore>>,
@@ -295,6 +314,7 @@ impl TokenProgramAccountsStorage {
             multisigs: Arc::new(DashMap::new()),
             account_by_owner_pubkey: Arc::new(DashMap::new()),
             token_accounts_storage,
+            finalized_versions: Arc::new(DashMap::new()),
             processed_storage: Arc::new(RwLock::new(ProcessedAccountStore::default())),
             confirmed_slot: Arc::new(AtomicU64::new(0)),
             finalized_slot: Arc::new(AtomicU64::new(0)),
@@ -302,40 +322,91 @@ impl TokenProgramAccountsStorage {
         }
     }
 
-    // treat account for finalized commitment
-    pub fn add_account_finalized(&self, account: TokenProgramAccountType) -> bool {
+    // treat account for finalized commitment, returns false if the known state is not older
+    // the lock of the processed storage should be held
+    pub fn add_account_finalized(
+        &self,
+        account: TokenProgramAccountType,
+        slot: Slot,
+        write_version: u64,
+    ) -> bool {
+        let account_pk = account.pubkey();
+        let deleted = matches!(account, TokenProgramAccountType::Deleted(_));
+        // the entry is locked until the account is completely updated
+        match self.finalized_versions.entry(account_pk) {
+            dashmap::mapref::entry::Entry::Occupied(mut occ) => {
+                if *occ.get() >= (slot, write_version) {
+                    return false;
+                }
+                self.set_account_finalized(account);
+                if deleted {
+                    occ.remove();
+                } else {
+                    occ.insert((slot, write_version));
+                }
+                true
+            }
+            dashmap::mapref::entry::Entry::Vacant(vac) => {
+                if deleted {
+                    return false;
+                }
+                let _entry = vac.insert((slot, write_version));
+                self.set_account_finalized(account);
+                true
+            }
+        }
+    }
+
+    // a finalized deletion also ends the older processed states of the account
+    fn add_or_delete_account_finalized(
+        &self,
+        processed_storage: &mut ProcessedAccountStore,
+        account: TokenProgramAccountType,
+        slot: Slot,
+        write_version: u64,
+    ) -> bool {
+        let pending_removed = match &account {
+            TokenProgramAccountType::Deleted(account_pk) => {
+                processed_storage.remove_account_until(account_pk, (slot, write_version))
+            }
+            _ => false,
+        };
+        self.add_account_finalized(account, slot, write_version) || pending_removed
+    }
+
+    fn set_account_finalized(&self, account: TokenProgramAccountType) {
+        // the account could have been of another kind before
+        let account_pk = account.pubkey();
+        if !matches!(account, TokenProgramAccountType::Mint(_)) && self.remove_mint(&account_pk) {
+            TOKEN_MINTS_IN_MEMORY.dec();
+        }
+        if !matches!(account, TokenProgramAccountType::MultiSig(_, _)) {
+            self.multisigs.remove(&account_pk);
+        }
+        if !matches!(account, TokenProgramAccountType::TokenAccount(_)) {
+            self.token_accounts_storage.delete(&account_pk);
+        }
+
         match account {
             TokenProgramAccountType::TokenAccount(token_account) => {
-                let token_account_owner = token_account.owner;
+                let owner = token_account.owner;
                 let mint_index = token_account.mint;
-                let (token_index, is_added) =
-                    self.token_accounts_storage.save_or_update(token_account);
-                if is_added {
-                    // add account to the indexes
+                let previous = self.token_accounts_storage.get_by_pubkey(&account_pk);
+                let (token_index, _) = self.token_accounts_storage.save_or_update(token_account);
+                // queries ignore the accounts that have left an owner or mint
+                if previous.as_ref().map(|previous| previous.mint) != Some(mint_index) {
                     // add account index in accounts_index_by_mint map
-                    match self.accounts_index_by_mint.entry(mint_index) {
-                        dashmap::mapref::entry::Entry::Occupied(mut occ) => {
-                            occ.get_mut().push_back(token_index);
-                        }
-                        dashmap::mapref::entry::Entry::Vacant(v) => {
-                            let mut q = VecDeque::new();
-                            q.push_back(token_index);
-                            v.insert(q);
-                        }
-                    }
-
+                    self.accounts_index_by_mint
+                        .entry(mint_index)
+                        .or_default()
+                        .push_back(token_index);
+                }
+                if previous.map(|previous| previous.owner) != Some(owner) {
                     // add account index in account_by_owner_pubkey map
-                    match self
-                        .account_by_owner_pubkey
-                        .entry(token_account_owner.into())
-                    {
-                        dashmap::mapref::entry::Entry::Occupied(mut occ) => {
-                            occ.get_mut().push(token_index);
-                        }
-                        dashmap::mapref::entry::Entry::Vacant(v) => {
-                            v.insert(vec![token_index]);
-                        }
-                    }
+                    self.account_by_owner_pubkey
+                        .entry(owner.into())
+                        .or_default()
+                        .push(token_index);
                 }
             }
             TokenProgramAccountType::Mint(mint_data) => {
@@ -352,18 +423,22 @@ impl TokenProgramAccountsStorage {
             TokenProgramAccountType::MultiSig(multisig_data, pubkey) => {
                 self.multisigs.insert(pubkey, multisig_data);
             }
-            TokenProgramAccountType::Deleted(account_pk) => {
-                // token accounts of a deleted mint still refer to its index
-                if self.remove_mint(&account_pk) {
-                    TOKEN_MINTS_IN_MEMORY.dec();
-                } else if self.multisigs.remove(&account_pk).is_some() {
-                    // do nothing multisig account is removed
-                } else {
-                    self.token_accounts_storage.delete(&account_pk);
-                }
+            TokenProgramAccountType::Deleted(_) => {
+                // already removed
             }
         }
-        true
+    }
+
+    fn is_newer_than_finalized(
+        &self,
+        account_pk: &Pubkey,
+        processed_account: &ProcessedAccount,
+        slot: Slot,
+    ) -> bool {
+        match self.finalized_versions.get(account_pk) {
+            Some(version) => (slot, processed_account.write_version) > *version,
+            None => true,
+        }
     }
 
     fn get_mint(&self, account_pk: &Pubkey) -> Option<MintAccount> {
@@ -392,6 +467,8 @@ impl TokenProgramAccountsStorage {
     }
 
     pub fn get_account_finalized(&self, account_pk: Pubkey) -> Option<AccountData> {
+        // the account is not changed as long as its version is locked
+        let _version = self.finalized_versions.get(&account_pk)?;
         if let Some(multisig) = self.multisigs.get(&account_pk) {
             return Some(token_multisig_to_solana_account(
                 &multisig,
@@ -494,6 +571,7 @@ impl TokenProgramAccountsStorage {
                                 .token_accounts_storage
                                 .get_by_index(indexes)?
                                 .iter()
+                                .filter(|acc| acc.mint == *mint_index.value())
                                 .filter_map(|token_account| {
                                     token_account_to_solana_account(
                                         token_account,
@@ -573,7 +651,12 @@ impl AccountStorageInterface for TokenProgramAccountsStorage {
                 account_data.updated_slot,
             )
         } else {
-            self.add_account_finalized(token_program_account)
+            self.add_or_delete_account_finalized(
+                &mut processed_storage,
+                token_program_account,
+                account_data.updated_slot,
+                account_data.write_version,
+            )
         }
     }
 
@@ -596,11 +679,18 @@ impl AccountStorageInterface for TokenProgramAccountsStorage {
                 return;
             }
         };
-        let _processed_storage = self.processed_storage.write().unwrap();
-        if !self.is_token_program_account(&account_data) {
+        let mut processed_storage = self.processed_storage.write().unwrap();
+        if !self.is_token_program_account(&account_data)
+            && !processed_storage.contains_account(&account_data.pubkey)
+        {
             return;
         }
-        self.add_account_finalized(token_program_account);
+        self.add_or_delete_account_finalized(
+            &mut processed_storage,
+            token_program_account,
+            account_data.updated_slot,
+            account_data.write_version,
+        );
     }
 
     fn get_account(
@@ -612,22 +702,25 @@ impl AccountStorageInterface for TokenProgramAccountsStorage {
         match commitment {
             Commitment::Confirmed | Commitment::Processed => {
                 let processed_storage = self.processed_storage.read().unwrap();
-                match processed_storage
+                let processed_account = processed_storage
                     .get_accounts(
                         &[account_pk],
                         commitment,
                         self.confirmed_slot.load(Ordering::Relaxed),
                     )
-                    .first()
-                    .unwrap()
-                {
-                    Some((processed_account, slot)) => Ok(token_program_account_to_solana_account(
-                        &processed_account.processed_account,
-                        *slot,
-                        processed_account.write_version,
-                        &self.mint_pubkey_by_index,
-                    )),
-                    None => Ok(self.get_account_finalized(account_pk)),
+                    .remove(0);
+                match processed_account {
+                    Some((processed_account, slot))
+                        if self.is_newer_than_finalized(&account_pk, &processed_account, slot) =>
+                    {
+                        Ok(token_program_account_to_solana_account(
+                            &processed_account.processed_account,
+                            slot,
+                            processed_account.write_version,
+                            &self.mint_pubkey_by_index,
+                        ))
+                    }
+                    _ => Ok(self.get_account_finalized(account_pk)),
                 }
             }
             Commitment::Finalized => Ok(self.get_account_finalized(account_pk)),
@@ -723,7 +816,7 @@ impl AccountStorageInterface for TokenProgramAccountsStorage {
                         acc.write_version,
                         &self.mint_pubkey_by_index,
                     );
-                    if self.add_account_finalized(acc.processed_account) {
+                    if self.add_account_finalized(acc.processed_account, slot, acc.write_version) {
                         accounts_notifications.extend(account);
                     }
                 }
-- 
2.43.0


From 0baf95a0735951489674cd3fd4d28d8d2de08b4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:03 +0000
Subject: [PATCH 16/33] fix: token queries cover accounts that match only since
 recently and apply every filter

---
 .../src/inmemory_token_storage.rs             | 107 +++++++++++++-----
 1 file changed, 78 insertions(+), 29 deletions(-)

diff --git a/token_account_storage/src/inmemory_token_storage.rs b/token_account_storage/src/inmemory_token_storage.rs
index 94a0d7c..6745893 100644
--- a/token_account_storage/src/inmemory_token_storage.rs
+++ b/token_account_storage/src/inmemory_token_storage.rs
@@ -210,6 +210,34 @@ impl ProcessedAccountStore {
         map_of_accounts.into_values().collect_vec()
     }
 
+    // accounts which have any processed state that matches the query
+    pub fn get_matching_pubkeys(
+        &self,
+        program_pubkey: &Pubkey,
+        account_filters: &[AccountFilterType],
+        mint_pubkey_by_index: &Arc<DashMap<MintIndex, Pubkey>>,
+    ) -> HashSet<Pubkey> {
+        let (owner, mint) = get_spl_token_owner_mint_filter(program_pubkey, account_filters);
+        let mint_query = owner.is_none() && mint.is_none();
+        self.processed_slot_accounts
+            .values()
+            .flat_map(|slot| slot.processed_accounts.iter())
+            .filter(|(_, account)| match &account.processed_account {
+                TokenProgramAccountType::TokenAccount(token_account) => {
+                    owner.map_or(true, |owner| token_account.owner == owner)
+                        && mint.map_or(!mint_query, |mint| {
+                            mint_pubkey_by_index
+                                .get(&token_account.mint)
+                                .is_some_and(|pubkey| *pubkey.value() == mint)
+                        })
+                }
+                TokenProgramAccountType::Mint(_) => mint_query,
+                _ => false,
+            })
+            .map(|(pubkey, _)| *pubkey)
+            .collect()
+    }
+
     fn get_confirmed_accounts(
         &self,
         account_pks: &[Pubkey],
@@ -508,6 +536,8 @@ impl TokenProgramAccountsStorage {
         let finalized_slot = self.finalized_slot.load(Ordering::Relaxed);
 
         if let Some(account_filters) = account_filters {
+            let matches_query =
+                |account: &AccountData| matches_query(account, &program_pubkey, &account_filters);
             let (owner, mint) = get_spl_token_owner_mint_filter(&program_pubkey, &account_filters);
             if let Some(owner) = owner {
                 let indexes = match self.account_by_owner_pubkey.entry(owner.into()) {
@@ -552,6 +582,7 @@ impl TokenProgramAccountsStorage {
                                     &self.mint_pubkey_by_index,
                                 )
                             })
+                            .filter(matches_query)
                             .collect_vec();
                         Ok(token_accounts)
                     }
@@ -580,6 +611,7 @@ impl TokenProgramAccountsStorage {
                                         &self.mint_pubkey_by_index,
                                     )
                                 })
+                                .filter(matches_query)
                                 .collect_vec();
                             Ok(token_accounts)
                         }
@@ -595,11 +627,7 @@ impl TokenProgramAccountsStorage {
                     .map(|mint_account| {
                         token_mint_to_solana_account(mint_account.value(), finalized_slot, 0)
                     })
-                    .filter(|account| {
-                        account_filters
-                            .iter()
-                            .all(|filter| filter.allows(&account.account.data.data()))
-                    })
+                    .filter(matches_query)
                     .collect_vec();
                 Ok(mints)
             } else {
@@ -611,6 +639,17 @@ impl TokenProgramAccountsStorage {
     }
 }
 
+fn matches_query(
+    account: &AccountData,
+    program_pubkey: &Pubkey,
+    account_filters: &[AccountFilterType],
+) -> bool {
+    account.account.owner == *program_pubkey && {
+        let data = account.account.data.data();
+        account_filters.iter().all(|filter| filter.allows(&data))
+    }
+}
+
 #[derive(Serialize, Deserialize)]
 struct TokenProgramSnapshot {
     pub mints: Vec<(MintIndex, MintAccount)>,
@@ -741,38 +780,48 @@ impl AccountStorageInterface for TokenProgramAccountsStorage {
             (commitment != Commitment::Finalized).then(|| self.processed_storage.read().unwrap());
         // get all accounts for finalized commitment and update them if necessary
         let mut account_data =
-            self.get_program_accounts_finalized(program_pubkey, account_filters)?;
+            self.get_program_accounts_finalized(program_pubkey, account_filters.clone())?;
         if let Some(processed_storage) = processed_storage {
+            let account_filters = account_filters.unwrap_or_default();
             let confirmed_slot = self.confirmed_slot.load(Ordering::Relaxed);
-            // get list of all pks to search
-            let pks = account_data.iter().map(|x| x.pubkey).collect_vec();
+            // get list of all pks to search, the accounts can match the query only since recently
+            let mut pks = account_data
+                .iter()
+                .map(|x| x.pubkey)
+                .collect::<HashSet<_>>();
+            pks.extend(processed_storage.get_matching_pubkeys(
+                &program_pubkey,
+                &account_filters,
+                &self.mint_pubkey_by_index,
+            ));
+            let pks = pks.into_iter().collect_vec();
             let processed_accounts =
                 processed_storage.get_accounts(&pks, commitment, confirmed_slot);
-            let mut to_remove = vec![];
-            for (index, processed_account) in processed_accounts.iter().enumerate() {
+
+            // replace the accounts which have a newer processed or confirmed state
+            let mut updated_accounts = HashMap::new();
+            for (account_pk, processed_account) in pks.iter().zip(processed_accounts) {
                 if let Some((processed_account, slot)) = processed_account {
-                    let updated_account = token_program_account_to_solana_account(
-                        &processed_account.processed_account,
-                        *slot,
-                        processed_account.write_version,
-                        &self.mint_pubkey_by_index,
-                    );
-                    match updated_account {
-                        Some(updated_account) => {
-                            // update with processed or confirmed account state
-                            *account_data.get_mut(index).unwrap() = updated_account;
-                        }
-                        None => {
-                            // account must have been deleted
-                            to_remove.push(index);
-                        }
+                    if self.is_newer_than_finalized(account_pk, &processed_account, slot) {
+                        updated_accounts.insert(
+                            *account_pk,
+                            token_program_account_to_solana_account(
+                                &processed_account.processed_account,
+                                slot,
+                                processed_account.write_version,
+                                &self.mint_pubkey_by_index,
+                            ),
+                        );
                     }
                 }
             }
-
-            for index in to_remove.iter().rev() {
-                account_data.remove(*index);
-            }
+            account_data.retain(|account| !updated_accounts.contains_key(&account.pubkey));
+            account_data.extend(
+                updated_accounts
+                    .into_values()
+                    .flatten()
+                    .filter(|account| matches_query(account, &program_pubkey, &account_filters)),
+            );
         }
         Ok(account_data)
     }
-- 
2.43.0


From e29a12d36e9d8b795be0ba3f8f11da6ed89d0560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:34 +0000
Subject: [PATCH 17/33] fix: token snapshots can be loaded again, keep versions
 and mints and are checked

---
 token_account_storage/src/account_types.rs    |  43 +++--
 .../src/inmemory_token_storage.rs             | 171 ++++++++++++------
 2 files changed, 139 insertions(+), 75 deletions(-)

diff --git a/token_account_storage/src/account_types.rs b/token_account_storage/src/account_types.rs
index 78a556b..7c88345 100644
--- a/token_account_storage/src/account_types.rs
+++ b/token_account_storage/src/account_types.rs
@@ -177,8 +177,22 @@ impl TokenAccount {
     }
 
     pub fn from_bytes(v: &[u8]) -> TokenAccount {
-        let header: [u8; 78] = v[0..78].try_into().unwrap();
-        let mut others = &v[78..];
+        Self::try_from_bytes(v).expect("a serialized token account")
+    }
+
+    // returns none if the bytes are not a serialized token account
+    pub fn try_from_bytes(v: &[u8]) -> Option<TokenAccount> {
+        fn take<'a>(bytes: &mut &'a [u8], size: usize) -> Option<&'a [u8]> {
+            if bytes.len() < size {
+                return None;
+            }
+            let (taken, others) = bytes.split_at(size);
+            *bytes = others;
+            Some(taken)
+        }
+
+        let mut others = v;
+        let header: [u8; 78] = take(&mut others, 78)?.try_into().ok()?;
         let (bit_flags, is_deleted, pubkey, owner, mint_index, amount) =
             arrayref::array_refs![&header, 1, 1, 32, 32, 4, 8];
         let bit_flags = bit_flags[0];
@@ -191,7 +205,7 @@ impl TokenAccount {
             INITIALIZED_STATE_BITS => TokenProgramAccountState::Initialized,
             FROZEN_STATE_BITS => TokenProgramAccountState::Frozen,
             UNITITIALIZED_STATE_BITS => TokenProgramAccountState::Uninitialized,
-            _ => unreachable!(),
+            _ => return None,
         };
         let has_delegate = (bit_flags >> 4) & 0x1 == 0x1;
         let has_native = (bit_flags >> 5) & 0x1 == 0x1;
@@ -199,8 +213,7 @@ impl TokenAccount {
         let has_additional_data = (bit_flags >> 7) & 0x1 == 0x1;
 
         let delegate = if has_delegate {
-            let delegate_bytes: &[u8; 32 + 8] = others[..32 + 8].try_into().unwrap();
-            others = &others[32 + 8..];
+            let delegate_bytes = take(&mut others, 32 + 8)?;
             let delegate_pk = Pubkey::new_from_array(*arrayref::array_ref![delegate_bytes, 0, 32]);
             let amount = u64::from_le_bytes(*arrayref::array_ref![delegate_bytes, 32, 8]);
             Some((delegate_pk, amount))
@@ -209,34 +222,32 @@ impl TokenAccount {
         };
 
         let is_native = if has_native {
-            let native_bytes = *arrayref::array_ref![others, 0, 8];
-            others = &others[8..];
-            Some(u64::from_le_bytes(native_bytes))
+            Some(u64::from_le_bytes(take(&mut others, 8)?.try_into().ok()?))
         } else {
             None
         };
 
         let close_authority = if has_close_authority {
-            let native_bytes = *arrayref::array_ref![others, 0, 32];
-            others = &others[32..];
-            Some(Pubkey::new_from_array(native_bytes))
+            Some(Pubkey::new_from_array(
+                take(&mut others, 32)?.try_into().ok()?,
+            ))
         } else {
             None
         };
 
         let additional_data = if has_additional_data {
-            let native_bytes = *arrayref::array_ref![others, 0, 4];
-            Some(others[4..4 + u32::from_le_bytes(native_bytes) as usize].to_vec())
+            let size = u32::from_le_bytes(take(&mut others, 4)?.try_into().ok()?);
+            Some(take(&mut others, size as usize)?.to_vec())
         } else {
             None
         };
 
-        TokenAccount {
+        Some(TokenAccount {
             program,
             is_deleted: match is_deleted[0] {
                 0 => false,
                 1 => true,
-                _ => unreachable!(),
+                _ => return None,
             },
             pubkey: Pubkey::new_from_array(*pubkey),
             owner: Pubkey::new_from_array(*owner),
@@ -247,7 +258,7 @@ impl TokenAccount {
             is_native,
             close_authority,
             additional_data,
-        }
+        })
     }
 
     pub fn get_pubkey_from_binary(binary: &[u8]) -> Pubkey {
diff --git a/token_account_storage/src/inmemory_token_storage.rs b/token_account_storage/src/inmemory_token_storage.rs
index 6745893..51774b3 100644
--- a/token_account_storage/src/inmemory_token_storage.rs
+++ b/token_account_storage/src/inmemory_token_storage.rs
@@ -19,6 +19,7 @@ use lite_account_manager_common::{
 use prometheus::{opts, register_int_gauge, IntGauge};
 use serde::{Deserialize, Serialize};
 use solana_sdk::{clock::Slot, pubkey::Pubkey};
+use spl_token::instruction::MAX_SIGNERS;
 
 use crate::{
     account_types::{MintAccount, MintIndex, MultiSig, Program, TokenAccount, TokenAccountIndex},
@@ -41,6 +42,9 @@ lazy_static::lazy_static! {
 
 const PARTIAL_PUBKEY_SIZE: usize = 4;
 type InmemoryPubkey = PartialPubkey<PARTIAL_PUBKEY_SIZE>;
+// slot and write version of an account
+type Version = (Slot, u64);
+
 #[derive(Clone)]
 struct ProcessedAccount {
     pub processed_account: TokenProgramAccountType,
@@ -119,7 +123,7 @@ impl ProcessedAccountStore {
     }
 
     // removes the states of an account up to a version, returns true if there were some
-    pub fn remove_account_until(&mut self, account_pk: &Pubkey, version: (Slot, u64)) -> bool {
+    pub fn remove_account_until(&mut self, account_pk: &Pubkey, version: Version) -> bool {
         let mut removed = false;
         for (slot, accounts) in self.processed_slot_accounts.range_mut(..=version.0) {
             if let std::collections::hash_map::Entry::Occupied(occ) =
@@ -322,7 +326,7 @@ pub struct TokenProgramAccountsStorage {
     account_by_owner_pubkey: Arc<DashMap<InmemoryPubkey, Vec<TokenAccountIndex>>>,
     token_accounts_storage: Arc<dyn TokenAccountStorageInterface>,
     // slot and write version of all the finalized accounts
-    finalized_versions: Arc<DashMap<Pubkey, (Slot, u64)>>,
+    finalized_versions: Arc<DashMap<Pubkey, Version>>,
     // taken by everything that changes the accounts, so that an account that is being finalized
     // is at any time either processed or finalized
     processed_storage: Arc<RwLock<ProcessedAccountStore>>,
@@ -652,9 +656,11 @@ fn matches_query(
 
 #[derive(Serialize, Deserialize)]
 struct TokenProgramSnapshot {
-    pub mints: Vec<(MintIndex, MintAccount)>,
-    pub multisigs: Vec<MultiSig>,
-    pub token_accounts: Vec<Vec<u8>>,
+    // all the mints used by the token accounts, a mint account itself may not be known
+    pub mint_pubkeys: Vec<(MintIndex, Pubkey)>,
+    pub mints: Vec<(MintAccount, Version)>,
+    pub multisigs: Vec<(MultiSig, Version)>,
+    pub token_accounts: Vec<(Vec<u8>, Version)>,
 }
 
 impl AccountStorageInterface for TokenProgramAccountsStorage {
@@ -883,22 +889,64 @@ impl AccountStorageInterface for TokenProgramAccountsStorage {
             return Err(AccountLoadingError::WrongIndex);
         };
 
+        // nothing changes while the accounts are collected
+        let processed_storage = self.processed_storage.read().unwrap();
+        let version = |pubkey: &Pubkey| {
+            self.finalized_versions
+                .get(pubkey)
+                .map(|version| *version.value())
+                .unwrap_or_default()
+        };
         let mints = self
             .mints_by_index
             .iter()
-            .filter_map(|mint_data| {
-                if mint_data.program == program {
-                    Some((*mint_data.key(), mint_data.clone()))
-                } else {
-                    None
-                }
+            .filter(|mint| mint.program == program)
+            .map(|mint| mint.value().clone())
+            .collect_vec();
+        let mints = mints
+            .into_iter()
+            .map(|mint| {
+                let version = version(&mint.pubkey);
+                (mint, version)
             })
             .collect_vec();
+        let multisigs = self
+            .multisigs
+            .iter()
+            .filter(|multisig| multisig.program == program)
+            .map(|multisig| multisig.value().clone())
+            .collect_vec();
+        let multisigs = multisigs
+            .into_iter()
+            .map(|multisig| {
+                let version = version(&multisig.pubkey);
+                (multisig, version)
+            })
+            .collect_vec();
+        let token_accounts = self
+            .token_accounts_storage
+            .create_snapshot(program)?
+            .into_iter()
+            .map(|binary| {
+                let version = version(&TokenAccount::get_pubkey_from_binary(&binary));
+                (binary, version)
+            })
+            .collect_vec();
+        drop(processed_storage);
 
-        let multisigs = self.multisigs.iter().map(|ite| ite.clone()).collect_vec();
-        let token_accounts = self.token_accounts_storage.create_snapshot(program)?;
+        let mint_pubkeys = token_accounts
+            .iter()
+            .map(|(binary, _)| TokenAccount::get_mint_index_from_binary(binary))
+            .unique()
+            .filter_map(|index| {
+                self.mint_pubkey_by_index
+                    .get(&index)
+                    .map(|pubkey| (index, *pubkey.value()))
+            })
+            .collect_vec();
 
         let snapshot = TokenProgramSnapshot {
+            mint_pubkeys,
             mints,
             multisigs,
             token_accounts,
@@ -908,74 +956,79 @@ impl AccountStorageInterface for TokenProgramAccountsStorage {
         lz4::block::compress(
             &binary,
             Some(lz4::block::CompressionMode::HIGHCOMPRESSION(8)),
-            false,
+            true,
         )
         .map_err(|_| AccountLoadingError::CompressionIssues)
     }
 
     fn load_from_snapshot(
         &self,
-        _program_id: Pubkey,
+        program_id: Pubkey,
         snapshot: Vec<u8>,
     ) -> Result<(), AccountLoadingError> {
+        let program = if program_id == spl_token::id() {
+            Program::TokenProgram
+        } else if program_id == spl_token_2022::id() {
+            Program::Token2022Program
+        } else {
+            return Err(AccountLoadingError::WrongIndex);
+        };
         let decompress = lz4::block::decompress(&snapshot, None)
             .map_err(|_| AccountLoadingError::CompressionIssues)?;
         drop(snapshot);
         let snapshot = bincode::deserialize::<TokenProgramSnapshot>(&decompress)
             .map_err(|_| AccountLoadingError::DeserializationIssues)?;
+        drop(decompress);
         let TokenProgramSnapshot {
+            mint_pubkeys,
             mints,
             multisigs,
             token_accounts,
         } = snapshot;
 
-        for multisig in multisigs {
-            self.multisigs.insert(multisig.pubkey, multisig);
+        // check everything before changing anything
+        let mint_pubkeys = mint_pubkeys.into_iter().collect::<HashMap<_, _>>();
+        let token_accounts = token_accounts
+            .into_iter()
+            .map(|(binary, version)| Some((TokenAccount::try_from_bytes(&binary)?, version)))
+            .collect::<Option<Vec<_>>>()
+            .ok_or(AccountLoadingError::DeserializationIssues)?;
+        let is_valid = mints.iter().all(|(mint, _)| mint.program == program)
+            && multisigs.iter().all(|(multisig, _)| {
+                multisig.program == program && multisig.signers.len() <= MAX_SIGNERS
+            })
+            && token_accounts.iter().all(|(token_account, _)| {
+                token_account.program == program
+                    && !token_account.is_deleted
+                    && mint_pubkeys.contains_key(&token_account.mint)
+            });
+        if !is_valid {
+            return Err(AccountLoadingError::DeserializationIssues);
         }
 
-        let mut mint_mapping = HashMap::<MintIndex, MintIndex>::new();
-        // remap all the mints
-        for (index, mint_account) in mints {
-            match self.mints_index_by_pubkey.get_mut(&mint_account.pubkey) {
-                Some(value) => {
-                    mint_mapping.insert(index, *value);
-                    self.mints_by_index.insert(index, mint_account);
-                }
-                None => {
-                    let mint_index = self.mint_counter.fetch_add(1, Ordering::Relaxed);
-                    mint_mapping.insert(index, mint_index);
-                    self.mints_by_index.insert(mint_index, mint_account);
-                }
-            }
+        let add_account = |account: TokenProgramAccountType, (slot, write_version): Version| {
+            let _processed_storage = self.processed_storage.write().unwrap();
+            self.add_account_finalized(account, slot, write_version);
+        };
+        for (mint, version) in mints {
+            add_account(TokenProgramAccountType::Mint(mint), version);
         }
-
-        for token_account_bytes in token_accounts {
-            // use the new mint index
-            let mut token_account = TokenAccount::from_bytes(&token_account_bytes);
-            let new_mint_index = *mint_mapping.get(&token_account.mint).unwrap();
-            token_account.mint = new_mint_index;
-            let owner = token_account.owner;
-            let (index, is_added) = self.token_accounts_storage.save_or_update(token_account);
-            if is_added {
-                match self.account_by_owner_pubkey.get_mut(&owner.into()) {
-                    Some(mut accs) => accs.push(index),
-                    None => {
-                        self.account_by_owner_pubkey
-                            .insert(owner.into(), vec![index]);
-                    }
-                }
-
-                match self.accounts_index_by_mint.get_mut(&new_mint_index) {
-                    Some(mut accs) => {
-                        accs.push_back(index);
-                    }
-                    None => {
-                        let mut q = VecDeque::new();
-                        q.push_back(index);
-                        self.accounts_index_by_mint.insert(new_mint_index, q);
-                    }
-                }
-            }
+        for (multisig, version) in multisigs {
+            let pubkey = multisig.pubkey;
+            add_account(TokenProgramAccountType::MultiSig(multisig, pubkey), version);
+        }
+        for (mut token_account, version) in token_accounts {
+            // use the mint index of this store
+            token_account.mint = get_or_create_mint_index(
+                mint_pubkeys[&token_account.mint],
+                &self.mints_index_by_pubkey,
+                &self.mint_pubkey_by_index,
+                &self.mint_counter,
+            );
+            add_account(
+                TokenProgramAccountType::TokenAccount(token_account),
+                version,
+            );
         }
 
         Ok(())
-- 
2.43.0


From 72bc592802a903665c49277236ea0249a7897ab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:12 +0000
Subject: [PATCH 18/33] fix: queries of finalized token accounts do not see
 half of an update

---
 token_account_storage/src/inmemory_token_storage.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/token_account_storage/src/inmemory_token_storage.rs b/token_account_storage/src/inmemory_token_storage.rs
index 51774b3..09067e6 100644
--- a/token_account_storage/src/inmemory_token_storage.rs
+++ b/token_account_storage/src/inmemory_token_storage.rs
@@ -781,13 +781,12 @@ impl AccountStorageInterface for TokenProgramAccountsStorage {
         if program_pubkey != spl_token::id() && program_pubkey != spl_token_2022::id() {
             return Err(AccountLoadingError::WrongIndex);
         }
-        // accounts are not finalized as long as they are being read at the other commitments
-        let processed_storage =
-            (commitment != Commitment::Finalized).then(|| self.processed_storage.read().unwrap());
+        // accounts do not change while they are being collected
+        let processed_storage = self.processed_storage.read().unwrap();
         // get all accounts for finalized commitment and update them if necessary
         let mut account_data =
             self.get_program_accounts_finalized(program_pubkey, account_filters.clone())?;
-        if let Some(processed_storage) = processed_storage {
+        if commitment != Commitment::Finalized {
             let account_filters = account_filters.unwrap_or_default();
             let confirmed_slot = self.confirmed_slot.load(Ordering::Relaxed);
             // get list of all pks to search, the accounts can match the query only since recently
-- 
2.43.0


From 6ae39419ff77ce330cac56fef019ee1364f6d130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:25 +0000
Subject: [PATCH 19/33] fix: signers of multisigs stay in place when one of
 them is the system program

---
 .../src/token_program_utils.rs                | 24 +++++++++----------
 1 file changed, 11 insertions(+), 13 deletions(-)

diff --git a/token_account_storage/src/token_program_utils.rs b/token_account_storage/src/token_program_utils.rs
index 3dff4cc..995fc85 100644
--- a/token_account_storage/src/token_program_utils.rs
+++ b/token_account_storage/src/token_program_utils.rs
@@ -5,7 +5,6 @@ use crate::account_types::{
 };
 use anyhow::bail;
 use dashmap::DashMap;
-use itertools::Itertools;
 use lite_account_manager_common::{
     account_data::{Account, AccountData},
     account_filter::{AccountFilterType, MemcmpFilter, MemcmpFilterData},
@@ -54,6 +53,15 @@ pub fn get_or_create_mint_index(
     }
 }
 
+// signers of a multisig without the unused ones at the end, signers can have the default pubkey (system program)
+fn get_signers(signers: &[Pubkey]) -> Vec<Pubkey> {
+    let used = signers
+        .iter()
+        .rposition(|x| *x != Pubkey::default())
+        .map_or(0, |index| index + 1);
+    signers[..used].to_vec()
+}
+
 pub fn get_token_program_account_type(
     account_data: &AccountData,
     mint_index_by_pubkey: &Arc<DashMap<Pubkey, MintIndex>>,
@@ -161,12 +169,7 @@ pub fn get_token_program_account_type(
                         is_initialized: multi_sig.is_initialized,
                         m: multi_sig.m,
                         n: multi_sig.n,
-                        signers: multi_sig
-                            .signers
-                            .iter()
-                            .filter(|x| **x != Pubkey::default())
-                            .copied()
-                            .collect_vec(),
+                        signers: get_signers(&multi_sig.signers),
                     },
                     account_data.pubkey,
                 ))
@@ -234,12 +237,7 @@ pub fn get_token_program_account_type(
                     is_initialized: multi_sig.is_initialized,
                     m: multi_sig.m,
                     n: multi_sig.n,
-                    signers: multi_sig
-                        .signers
-                        .iter()
-                        .filter(|x| **x != Pubkey::default())
-                        .copied()
-                        .collect_vec(),
+                    signers: get_signers(&multi_sig.signers),
                 },
                 account_data.pubkey,
             ))
-- 
2.43.0


From e24f1732e728c0414343cd9a040b37a976559e3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:41 +0000
Subject: [PATCH 20/33] fix: queries are covered by filters in any encoding and
 order

---
 common/src/simple_filter_store.rs | 71 +++++++++++++++----------------
 1 file changed, 34 insertions(+), 37 deletions(-)

diff --git a/common/src/simple_filter_store.rs b/common/src/simple_filter_store.rs
index 5f4a7b3..3bdf082 100644
--- a/common/src/simple_filter_store.rs
+++ b/common/src/simple_filter_store.rs
@@ -1,6 +1,8 @@
 use crate::{
     account_data::AccountData,
-    account_filter::{AccountFilter, AccountFilterType, AccountFilters, MemcmpFilter},
+    account_filter::{
+        AccountFilter, AccountFilterType, AccountFilters, MemcmpFilter, MemcmpFilterData,
+    },
 };
 use solana_sdk::pubkey::Pubkey;
 use std::collections::{BTreeSet, HashMap, HashSet};
@@ -30,6 +32,25 @@ impl SimpleFilterStore {
         }
     }
 
+    // always save and compare filters in bytes
+    fn normalize_filters(filters: &[AccountFilterType]) -> BTreeSet<AccountFilterType> {
+        filters
+            .iter()
+            .map(|x| match &x {
+                AccountFilterType::Datasize(_) => x.clone(),
+                AccountFilterType::Memcmp(memcmp) => match memcmp.data {
+                    MemcmpFilterData::Bytes(_) => x.clone(),
+                    MemcmpFilterData::Base58(_) | MemcmpFilterData::Base64(_) => {
+                        AccountFilterType::Memcmp(MemcmpFilter {
+                            offset: memcmp.offset,
+                            data: MemcmpFilterData::Bytes(memcmp.bytes()),
+                        })
+                    }
+                },
+            })
+            .collect()
+    }
+
     pub fn add_account_filter(&mut self, account_filter: &AccountFilter) {
         for account in &account_filter.accounts {
             self.accounts.insert(*account);
@@ -44,7 +65,7 @@ impl SimpleFilterStore {
                         }
                         ProgramIdFilters::ByFilterType(current_filters) => {
                             if let Some(new_filters) = &account_filter.filters {
-                                current_filters.push(new_filters.iter().cloned().collect());
+                                current_filters.push(Self::normalize_filters(new_filters));
                             } else {
                                 // the new filters will subscribe to all the filters
                                 *program_filters = ProgramIdFilters::AllowAll;
@@ -55,28 +76,14 @@ impl SimpleFilterStore {
                 None => {
                     self.program_id_filters.insert(
                         *program_id,
-                        account_filter
-                            .filters
-                            .clone()
-                            .map_or(ProgramIdFilters::AllowAll, |filters| {
-                                // always save filters in bytes
-                                let filters = filters.iter().map(|x| match &x {
-                                    AccountFilterType::Datasize(_) => x.clone(),
-                                    AccountFilterType::Memcmp(memcmp) => {
-                                        match memcmp.data {
-                                            crate::account_filter::MemcmpFilterData::Bytes(_) => x.clone(),
-                                            crate::account_filter::MemcmpFilterData::Base58(_) |
-                                            crate::account_filter::MemcmpFilterData::Base64(_) => {
-                                                AccountFilterType::Memcmp(MemcmpFilter {
-                                                    offset: memcmp.offset,
-                                                    data: crate::account_filter::MemcmpFilterData::Bytes(memcmp.bytes())
-                                                })
-                                            },
-                                        }
-                                    },
-                                }).collect();
-                                ProgramIdFilters::ByFilterType(vec![filters])
-                            }),
+                        account_filter.filters.as_ref().map_or(
+                            ProgramIdFilters::AllowAll,
+                            |filters| {
+                                ProgramIdFilters::ByFilterType(vec![Self::normalize_filters(
+                                    filters,
+                                )])
+                            },
+                        ),
                     );
                 }
             }
@@ -100,20 +107,10 @@ impl SimpleFilterStore {
                         ProgramIdFilters::AllowAll => true,
                         ProgramIdFilters::ByFilterType(filter_list) => {
                             if let Some(filter_to_match) = &account_filter.filters {
-                                // matches sorted filter list
-                                let filter_to_match: BTreeSet<AccountFilterType> =
-                                    filter_to_match.iter().cloned().collect();
+                                // each filter narrows the query, so it is covered if it contains all the stored filters
+                                let filter_to_match = Self::normalize_filters(filter_to_match);
                                 filter_list.iter().any(|stored_filters| {
-                                    if filter_to_match.len() >= stored_filters.len() {
-                                        let subset = filter_to_match
-                                            .iter()
-                                            .take(stored_filters.len())
-                                            .cloned()
-                                            .collect::<BTreeSet<_>>();
-                                        subset == *stored_filters
-                                    } else {
-                                        false
-                                    }
+                                    stored_filters.is_subset(&filter_to_match)
                                 })
                             } else {
                                 false
-- 
2.43.0


From 675687ddeac593072d8b5440cf5a84263fa140e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:40 +0000
Subject: [PATCH 21/33] fix: accounts on demand are registered when loaded,
 loaded once and failures and timeouts are reported

---
 accounts_on_demand/src/accounts_on_demand.rs | 266 ++++++++++++-------
 common/src/mutable_filter_store.rs           |  31 +++
 2 files changed, 203 insertions(+), 94 deletions(-)

diff --git a/accounts_on_demand/src/accounts_on_demand.rs b/accounts_on_demand/src/accounts_on_demand.rs
index e288591..eb9c0f2 100644
--- a/accounts_on_demand/src/accounts_on_demand.rs
+++ b/accounts_on_demand/src/accounts_on_demand.rs
@@ -6,15 +6,16 @@ use lite_account_manager_common::{
     accounts_source_interface::AccountsSourceInterface,
     commitment::Commitment,
     mutable_filter_store::MutableFilterStore,
+    simple_filter_store::SimpleFilterStore,
     slot_info::SlotInfo,
 };
 use prometheus::{opts, register_int_gauge, IntGauge};
 use solana_sdk::pubkey::Pubkey;
 use std::sync::Condvar;
 use std::{
-    collections::{BTreeMap, HashMap, HashSet},
+    collections::{HashMap, HashSet},
     sync::{Arc, Mutex},
-    time::Duration,
+    time::{Duration, Instant},
 };
 
 lazy_static::lazy_static! {
@@ -25,14 +26,52 @@ lazy_static::lazy_static! {
         register_int_gauge!(opts!("lite_account_manager_number_of_program_filters_on_demand", "Number of program filters on demand")).unwrap();
 }
 
-type GpaAccountKey = (Pubkey, Vec<AccountFilterType>);
+// maximum time to wait for accounts which are being loaded for another request
+const LOADING_TIMEOUT: Duration = Duration::from_secs(10);
+
+type LoadingResult = Result<(), AccountLoadingError>;
+
+#[derive(Default)]
+struct Loading {
+    // none until loading is finished
+    result: Mutex<Option<LoadingResult>>,
+    finished: Condvar,
+}
+
+impl Loading {
+    fn finish(&self, result: LoadingResult) {
+        *self.result.lock().unwrap() = Some(result);
+        self.finished.notify_all();
+    }
+
+    fn wait_until(&self, deadline: Instant) -> LoadingResult {
+        let timeout = deadline.saturating_duration_since(Instant::now());
+        let (result, _) = self
+            .finished
+            .wait_timeout_while(self.result.lock().unwrap(), timeout, |x| x.is_none())
+            .unwrap();
+        result.unwrap_or(Err(AccountLoadingError::OperationTimeOut))
+    }
+}
+
+// finishes loading when dropped, even if the accounts source panics
+struct LoadingGuard<F: FnMut(LoadingResult)> {
+    result: LoadingResult,
+    finish: F,
+}
+
+impl<F: FnMut(LoadingResult)> Drop for LoadingGuard<F> {
+    fn drop(&mut self) {
+        (self.finish)(self.result);
+    }
+}
 
 pub struct AccountsOnDemand {
     accounts_source: Arc<dyn AccountsSourceInterface>,
     mutable_filters: Arc<MutableFilterStore>,
     accounts_storage: Arc<dyn AccountStorageInterface>,
-    accounts_in_loading: Arc<Mutex<HashMap<Pubkey, Arc<Condvar>>>>,
-    gpa_in_loading: Arc<Mutex<BTreeMap<GpaAccountKey, Arc<Condvar>>>>,
+    accounts_in_loading: Arc<Mutex<HashMap<Pubkey, Arc<Loading>>>>,
+    gpa_in_loading: Arc<Mutex<Vec<(AccountFilter, Arc<Loading>)>>>,
 }
 
 impl AccountsOnDemand {
@@ -46,9 +85,34 @@ impl AccountsOnDemand {
             mutable_filters,
             accounts_storage: accounts_storage.clone(),
             accounts_in_loading: Arc::new(Mutex::new(HashMap::new())),
-            gpa_in_loading: Arc::new(Mutex::new(BTreeMap::new())),
+            gpa_in_loading: Arc::new(Mutex::new(vec![])),
         }
     }
+
+    // accounts of the filter should have been registered as loading by the caller
+    // finish is called after the filter is either loaded or removed
+    fn load_accounts(
+        &self,
+        account_filter: AccountFilter,
+        subscribe: impl FnOnce() -> Result<(), AccountLoadingError>,
+        finish: impl Fn(LoadingResult),
+    ) -> LoadingResult {
+        let mut guard = LoadingGuard {
+            result: Err(AccountLoadingError::ErrorCreatingSnapshot),
+            finish: |result: LoadingResult| {
+                self.mutable_filters
+                    .finish_loading(&account_filter, result.is_ok());
+                finish(result);
+            },
+        };
+        guard.result = subscribe().and_then(|_| {
+            // save snapshot
+            self.accounts_source
+                .save_snapshot(self.accounts_storage.clone(), vec![account_filter.clone()])
+                .map_err(|_| AccountLoadingError::ErrorCreatingSnapshot)
+        });
+        guard.result
+    }
 }
 
 impl AccountStorageInterface for AccountsOnDemand {
@@ -67,58 +131,67 @@ impl AccountStorageInterface for AccountsOnDemand {
         account_pk: Pubkey,
         commitment: Commitment,
     ) -> Result<Option<AccountData>, AccountLoadingError> {
-        match self.accounts_storage.get_account(account_pk, commitment)? {
-            Some(account_data) => Ok(Some(account_data)),
-            None => {
-                // account does not exist in account store
-                // first check if we have already subscribed to the required account
-                // This is to avoid resetting geyser subscription because of accounts that do not exists.
-                let mut lk = self.accounts_in_loading.lock().unwrap();
-                match lk.get(&account_pk).cloned() {
-                    Some(loading_account) => {
-                        match loading_account.wait_timeout(lk, Duration::from_secs(10)) {
-                            Ok(_) => self.accounts_storage.get_account(account_pk, commitment),
-                            Err(_timeout) => Err(AccountLoadingError::OperationTimeOut),
+        let deadline = Instant::now() + LOADING_TIMEOUT;
+        loop {
+            if let Some(account_data) = self.accounts_storage.get_account(account_pk, commitment)? {
+                return Ok(Some(account_data));
+            }
+            // account does not exist in account store
+            // first check if we have already subscribed to the required account
+            // This is to avoid resetting geyser subscription because of accounts that do not exists.
+            let mut lk = self.accounts_in_loading.lock().unwrap();
+            match lk.get(&account_pk).cloned() {
+                Some(loading_account) => {
+                    drop(lk);
+                    match loading_account.wait_until(deadline) {
+                        Ok(_) => return self.accounts_storage.get_account(account_pk, commitment),
+                        Err(AccountLoadingError::OperationTimeOut) => {
+                            return Err(AccountLoadingError::OperationTimeOut)
                         }
+                        // try to load it again
+                        Err(_) => continue,
+                    }
+                }
+                None => {
+                    // account is not loading
+                    if self.mutable_filters.contains_account(account_pk) {
+                        drop(lk);
+                        // account was already tried to be loaded but does not exists, unless it was loaded just now
+                        return self.accounts_storage.get_account(account_pk, commitment);
                     }
-                    None => {
-                        // account is not loading
-                        if self.mutable_filters.contains_account(account_pk) {
-                            // account was already tried to be loaded but does not exists
-                            Ok(None)
-                        } else {
-                            // update account loading map
-                            // create a notify for accounts under loading
-                            lk.insert(account_pk, Arc::new(Condvar::new()));
-                            log::debug!("subscribing to accounts update : {}", account_pk);
+                    // update account loading map
+                    // create a notify for accounts under loading
+                    lk.insert(account_pk, Arc::new(Loading::default()));
+                    let account_filter = AccountFilter {
+                        accounts: vec![account_pk],
+                        program_id: None,
+                        filters: None,
+                    };
+                    // updates are accepted as soon as they are subscribed
+                    self.mutable_filters.start_loading(&account_filter);
+                    drop(lk);
+
+                    log::debug!("subscribing to accounts update : {}", account_pk);
+                    self.load_accounts(
+                        account_filter,
+                        || {
                             let mut hash_set = HashSet::new();
                             hash_set.insert(account_pk);
                             self.accounts_source
                                 .subscribe_accounts(hash_set)
-                                .map_err(|_| AccountLoadingError::ErrorSubscribingAccount)?;
-                            drop(lk);
-
-                            // save snapshot
-                            let account_filter = vec![AccountFilter {
-                                accounts: vec![account_pk],
-                                program_id: None,
-                                filters: None,
-                            }];
-                            self.accounts_source
-                                .save_snapshot(self.accounts_storage.clone(), account_filter)
-                                .map_err(|_| AccountLoadingError::ErrorCreatingSnapshot)?;
+                                .map_err(|_| AccountLoadingError::ErrorSubscribingAccount)
+                        },
+                        |result| {
                             // update loading lock
-                            {
-                                let mut write_lock = self.accounts_in_loading.lock().unwrap();
-                                let notify = write_lock.remove(&account_pk);
-                                drop(write_lock);
-                                if let Some(notify) = notify {
-                                    notify.notify_all();
-                                }
+                            let mut write_lock = self.accounts_in_loading.lock().unwrap();
+                            let notify = write_lock.remove(&account_pk);
+                            drop(write_lock);
+                            if let Some(notify) = notify {
+                                notify.finish(result);
                             }
-                            self.accounts_storage.get_account(account_pk, commitment)
-                        }
-                    }
+                        },
+                    )?;
+                    return self.accounts_storage.get_account(account_pk, commitment);
                 }
             }
         }
@@ -135,64 +208,69 @@ impl AccountStorageInterface for AccountsOnDemand {
             program_id: Some(program_id),
             filters: filters.clone(),
         };
+        let deadline = Instant::now() + LOADING_TIMEOUT;
         // accounts on demand will fetch gPA if they do not exist
         // it will first compare with existing filters and do the necessary if needed
-        if self.mutable_filters.contains_filter(&account_filter) {
-            self.accounts_storage
-                .get_program_accounts(program_id, filters.clone(), commitment)
-        } else {
+        while !self.mutable_filters.contains_filter(&account_filter) {
             // subsribing to new gpa accounts
             let mut lk = self.gpa_in_loading.lock().unwrap();
-            match lk
-                .get(&(program_id, filters.clone().unwrap_or_default()))
-                .cloned()
-            {
-                Some(loading_account) => {
-                    match loading_account.wait_timeout(lk, Duration::from_secs(10)) {
-                        Ok(_) => self.accounts_storage.get_program_accounts(
-                            program_id,
-                            filters.clone(),
-                            commitment,
-                        ),
-                        Err(_timeout) => {
-                            // todo replace with error
-                            log::error!("gPA on program : {}", program_id.to_string());
-                            Err(AccountLoadingError::OperationTimeOut)
-                        }
+            if self.mutable_filters.contains_filter(&account_filter) {
+                // loaded just now
+                break;
+            }
+            // wait for the same accounts or for a program or filters that include them
+            let loading_accounts = lk
+                .iter()
+                .find(|(loading_filter, _)| {
+                    let mut filter_store = SimpleFilterStore::default();
+                    filter_store.add_account_filter(loading_filter);
+                    filter_store.contains_filter(&account_filter)
+                })
+                .map(|(_, loading)| loading.clone());
+            match loading_accounts {
+                Some(loading_accounts) => {
+                    drop(lk);
+                    if let Err(AccountLoadingError::OperationTimeOut) =
+                        loading_accounts.wait_until(deadline)
+                    {
+                        log::error!("gPA on program : {}", program_id.to_string());
+                        return Err(AccountLoadingError::OperationTimeOut);
                     }
+                    // if it was not loaded try to load it again
                 }
                 None => {
                     // update account loading map
                     // create a notify for accounts under loading
-                    lk.insert(
-                        (program_id, filters.clone().unwrap_or_default()),
-                        Arc::new(Condvar::new()),
-                    );
-                    self.accounts_source
-                        .subscribe_program_accounts(program_id, filters.clone())
-                        .map_err(|_| AccountLoadingError::ErrorSubscribingAccount)?;
+                    lk.push((account_filter.clone(), Arc::new(Loading::default())));
+                    // updates are accepted as soon as they are subscribed
+                    self.mutable_filters.start_loading(&account_filter);
                     drop(lk);
-                    self.mutable_filters
-                        .add_account_filters(&vec![account_filter.clone()]);
 
-                    self.accounts_source
-                        .save_snapshot(self.accounts_storage.clone(), vec![account_filter])
-                        .map_err(|_| AccountLoadingError::ErrorCreatingSnapshot)?;
-                    // update loading lock
-                    {
-                        let mut write_lock = self.gpa_in_loading.lock().unwrap();
-                        let notify =
-                            write_lock.remove(&(program_id, filters.clone().unwrap_or_default()));
-                        drop(write_lock);
-                        if let Some(notify) = notify {
-                            notify.notify_all();
-                        }
-                    }
-                    self.accounts_storage
-                        .get_program_accounts(program_id, filters, commitment)
+                    self.load_accounts(
+                        account_filter.clone(),
+                        || {
+                            self.accounts_source
+                                .subscribe_program_accounts(program_id, filters.clone())
+                                .map_err(|_| AccountLoadingError::ErrorSubscribingAccount)
+                        },
+                        |result| {
+                            // update loading lock
+                            let mut write_lock = self.gpa_in_loading.lock().unwrap();
+                            let position = write_lock
+                                .iter()
+                                .position(|(filter, _)| *filter == account_filter);
+                            let notify = position.map(|x| write_lock.swap_remove(x).1);
+                            drop(write_lock);
+                            if let Some(notify) = notify {
+                                notify.finish(result);
+                            }
+                        },
+                    )?;
                 }
             }
         }
+        self.accounts_storage
+            .get_program_accounts(program_id, filters, commitment)
     }
 
     fn process_slot_data(&self, slot_info: SlotInfo, commitment: Commitment) -> Vec<AccountData> {
diff --git a/common/src/mutable_filter_store.rs b/common/src/mutable_filter_store.rs
index 02cc437..78400f2 100644
--- a/common/src/mutable_filter_store.rs
+++ b/common/src/mutable_filter_store.rs
@@ -10,6 +10,9 @@ use std::sync::{Arc, RwLock};
 #[derive(Default)]
 pub struct MutableFilterStore {
     filter_store: Arc<RwLock<SimpleFilterStore>>,
+    // filters of which the existing accounts are still being loaded
+    // their accounts are accepted, but they are not contained in the filter store until they are loaded
+    loading_filters: Arc<RwLock<Vec<(AccountFilter, SimpleFilterStore)>>>,
 }
 
 impl MutableFilterStore {
@@ -18,12 +21,40 @@ impl MutableFilterStore {
         lk.add_account_filters(account_filters)
     }
 
+    pub fn start_loading(&self, account_filter: &AccountFilter) {
+        let mut filter_store = SimpleFilterStore::default();
+        filter_store.add_account_filter(account_filter);
+        let mut lk = self.loading_filters.write().unwrap();
+        lk.push((account_filter.clone(), filter_store));
+    }
+
+    // should be called once for each filter that started loading
+    pub fn finish_loading(&self, account_filter: &AccountFilter, is_loaded: bool) {
+        if is_loaded {
+            let mut lk = self.filter_store.write().unwrap();
+            lk.add_account_filter(account_filter);
+        }
+        let mut lk = self.loading_filters.write().unwrap();
+        if let Some(position) = lk.iter().position(|(filter, _)| filter == account_filter) {
+            lk.swap_remove(position);
+        }
+    }
+
     pub fn contains_account(&self, account_pk: Pubkey) -> bool {
         let lk = self.filter_store.read().unwrap();
         lk.contains_account(account_pk)
     }
 
     pub fn satisfies_filter(&self, account: &AccountData) -> bool {
+        // loading filters first, because they are moved to the filter store
+        let lk = self.loading_filters.read().unwrap();
+        if lk
+            .iter()
+            .any(|(_, filter)| filter.satisfies_filter(account))
+        {
+            return true;
+        }
+        drop(lk);
         let lk = self.filter_store.read().unwrap();
         lk.satisfies_filter(account)
     }
-- 
2.43.0


From ba736114f309996175c36e0597ed5da70a994c1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:44 +0000
Subject: [PATCH 22/33] fix: loads of program accounts are waited for in the
 order they started

Removing a finished load with swap_remove reordered the loads in progress, so a
query could wait for a narrower, later load of the same accounts.
---
 accounts_on_demand/src/accounts_on_demand.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/accounts_on_demand/src/accounts_on_demand.rs b/accounts_on_demand/src/accounts_on_demand.rs
index eb9c0f2..8254a00 100644
--- a/accounts_on_demand/src/accounts_on_demand.rs
+++ b/accounts_on_demand/src/accounts_on_demand.rs
@@ -259,7 +259,7 @@ impl AccountStorageInterface for AccountsOnDemand {
                             let position = write_lock
                                 .iter()
                                 .position(|(filter, _)| *filter == account_filter);
-                            let notify = position.map(|x| write_lock.swap_remove(x).1);
+                            let notify = position.map(|x| write_lock.remove(x).1);
                             drop(write_lock);
                             if let Some(notify) = notify {
                                 notify.finish(result);
-- 
2.43.0


From ff1f8020b38ef70ec36c2751d22a99f7cfb2ad63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:55 +0000
Subject: [PATCH 23/33] fix: the dispatcher moves accounts between storages
 when their owner changes

The storage of the previous owner kept serving the account for ever; get_account
returned the error or absence of the first storage; a storage used for several
programs was notified several times and accounts were reported more than once.
---
 account_storage/src/storage_by_program_id.rs | 98 ++++++++++++++++----
 1 file changed, 78 insertions(+), 20 deletions(-)

diff --git a/account_storage/src/storage_by_program_id.rs b/account_storage/src/storage_by_program_id.rs
index 3437ade..5d84555 100644
--- a/account_storage/src/storage_by_program_id.rs
+++ b/account_storage/src/storage_by_program_id.rs
@@ -1,5 +1,5 @@
 use lite_account_manager_common::{
-    account_data::AccountData,
+    account_data::{Account, AccountData, Data},
     account_filter::AccountFilterType,
     account_store_interface::{AccountLoadingError, AccountStorageInterface},
     commitment::Commitment,
@@ -23,25 +23,72 @@ impl StorageByProgramId {
             default,
         }
     }
+
+    // every storage once, the default storage is the last one
+    fn storages(&self) -> Vec<&Arc<dyn AccountStorageInterface>> {
+        let mut storages: Vec<&Arc<dyn AccountStorageInterface>> = vec![];
+        for storage in self.program_id_dispatch_map.values() {
+            if !Self::is_same(storage, &self.default)
+                && !storages.iter().any(|x| Self::is_same(x, storage))
+            {
+                storages.push(storage);
+            }
+        }
+        storages.push(&self.default);
+        storages
+    }
+
+    fn storage_of_program(&self, program_id: &Pubkey) -> &Arc<dyn AccountStorageInterface> {
+        self.program_id_dispatch_map
+            .get(program_id)
+            .unwrap_or(&self.default)
+    }
+
+    // for the storages of other programs an account is deleted when its owner changes
+    fn deleted(account_data: &AccountData) -> AccountData {
+        AccountData {
+            account: Arc::new(Account {
+                lamports: 0,
+                data: Data::Uncompressed(vec![]),
+                owner: Pubkey::default(),
+                executable: false,
+                rent_epoch: account_data.account.rent_epoch,
+            }),
+            ..account_data.clone()
+        }
+    }
+
+    // same storage can be used for multiple programs
+    fn is_same(
+        left: &Arc<dyn AccountStorageInterface>,
+        right: &Arc<dyn AccountStorageInterface>,
+    ) -> bool {
+        std::ptr::eq(
+            Arc::as_ptr(left) as *const (),
+            Arc::as_ptr(right) as *const (),
+        )
+    }
 }
 
 impl AccountStorageInterface for StorageByProgramId {
     fn update_account(&self, account_data: AccountData, commitment: Commitment) -> bool {
-        for (_, interface) in self.program_id_dispatch_map.iter() {
-            if interface.update_account(account_data.clone(), commitment) {
-                return true;
+        let owner_storage = self.storage_of_program(&account_data.account.owner);
+        let mut updated = owner_storage.update_account(account_data.clone(), commitment);
+        for storage in self.storages() {
+            if !Self::is_same(storage, owner_storage) {
+                updated |= storage.update_account(Self::deleted(&account_data), commitment);
             }
         }
-        self.default.update_account(account_data, commitment)
+        updated
     }
 
     fn initilize_or_update_account(&self, account_data: AccountData) {
-        match self
-            .program_id_dispatch_map
-            .get(&account_data.account.owner)
-        {
-            Some(val) => val.initilize_or_update_account(account_data),
-            None => self.default.initilize_or_update_account(account_data),
+        let owner_storage = self.storage_of_program(&account_data.account.owner);
+        owner_storage.initilize_or_update_account(account_data.clone());
+        for storage in self.storages() {
+            if !Self::is_same(storage, owner_storage) {
+                storage.update_account(Self::deleted(&account_data), Commitment::Finalized);
+            }
         }
     }
 
@@ -51,8 +98,8 @@ impl AccountStorageInterface for StorageByProgramId {
         commitment: Commitment,
     ) -> Result<Option<AccountData>, AccountLoadingError> {
         for (_, interface) in self.program_id_dispatch_map.iter() {
-            if let Ok(accounts) = interface.get_account(account_pk, commitment) {
-                return Ok(accounts);
+            if let Ok(Some(account)) = interface.get_account(account_pk, commitment) {
+                return Ok(Some(account));
             }
         }
         self.default.get_account(account_pk, commitment)
@@ -73,14 +120,25 @@ impl AccountStorageInterface for StorageByProgramId {
     }
 
     fn process_slot_data(&self, slot_info: SlotInfo, commitment: Commitment) -> Vec<AccountData> {
-        let mut return_vec = vec![];
-        for (_, interface) in self.program_id_dispatch_map.iter() {
-            let mut t = interface.process_slot_data(slot_info, commitment);
-            return_vec.append(&mut t);
+        let mut accounts: HashMap<Pubkey, AccountData> = HashMap::new();
+        for storage in self.storages() {
+            for account in storage.process_slot_data(slot_info, commitment) {
+                accounts.entry(account.pubkey).or_insert(account);
+            }
         }
-        let mut t = self.default.process_slot_data(slot_info, commitment);
-        return_vec.append(&mut t);
-        return_vec
+        accounts
+            .into_values()
+            .map(|account| {
+                if account.account.lamports > 0 {
+                    return account;
+                }
+                // account could only be deleted for the storage of its previous owner
+                match self.get_account(account.pubkey, commitment) {
+                    Ok(Some(current)) => current,
+                    _ => account,
+                }
+            })
+            .collect()
     }
 
     // snapshot should always be created at finalized slot
-- 
2.43.0


From e88bb85e5804c5e3bdd9d1a0aa89a0bc3af6a273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:55 +0000
Subject: [PATCH 24/33] fix: a filter store with exceptions only contains
 filters without excluded accounts

A partly excluded program, or a list with one excluded account, was reported as
contained, so that queries were answered incompletely.
---
 common/src/except_filter_store.rs | 10 +++++++++-
 common/src/simple_filter_store.rs |  5 +++++
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/common/src/except_filter_store.rs b/common/src/except_filter_store.rs
index 9de0da8..02f9084 100644
--- a/common/src/except_filter_store.rs
+++ b/common/src/except_filter_store.rs
@@ -24,7 +24,15 @@ impl AccountFiltersStoreInterface for ExceptFilterStore {
     }
 
     fn contains_filter(&self, filter: &AccountFilter) -> bool {
-        !self.simple_filter_store.contains_filter_internal(filter)
+        // a filter is only contained if nothing it could match is excluded
+        let contains_excluded_account = filter
+            .accounts
+            .iter()
+            .any(|pk| self.simple_filter_store.contains_account(*pk));
+        let contains_excluded_program = filter
+            .program_id
+            .map_or(false, |pk| self.simple_filter_store.contains_program(&pk));
+        !contains_excluded_account && !contains_excluded_program
     }
 }
 
diff --git a/common/src/simple_filter_store.rs b/common/src/simple_filter_store.rs
index 3bdf082..b83169b 100644
--- a/common/src/simple_filter_store.rs
+++ b/common/src/simple_filter_store.rs
@@ -94,6 +94,11 @@ impl SimpleFilterStore {
         self.accounts.contains(&account_pk)
     }
 
+    // true if any accounts of the program are covered
+    pub fn contains_program(&self, program_id: &Pubkey) -> bool {
+        self.program_id_filters.contains_key(program_id)
+    }
+
     pub fn contains_filter_internal(&self, account_filter: &AccountFilter) -> bool {
         let accounts_match = account_filter
             .accounts
-- 
2.43.0


From 031a884bfc3a351a05e8349b435f5779e2988ee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:55 +0000
Subject: [PATCH 25/33] fix: damaged and incomplete validator snapshots are
 reported

Short append vecs were filled with zeros, a corrupt entry silently ended its
append vec, missing append vecs were not noticed, and for an unpacked snapshot
errors of the directory and of all append vecs were dropped.
---
 .../src/snapshot_utils/append_vec.rs          | 36 ++++++++++++++--
 .../src/snapshot_utils/archived.rs            | 32 ++++++++++-----
 .../src/snapshot_utils/mod.rs                 | 17 +++++++-
 .../src/snapshot_utils/unpacked.rs            | 41 ++++++++++++-------
 4 files changed, 98 insertions(+), 28 deletions(-)

diff --git a/simulate_from_snapshot/src/snapshot_utils/append_vec.rs b/simulate_from_snapshot/src/snapshot_utils/append_vec.rs
index 53585e6..34c6065 100644
--- a/simulate_from_snapshot/src/snapshot_utils/append_vec.rs
+++ b/simulate_from_snapshot/src/snapshot_utils/append_vec.rs
@@ -151,6 +151,7 @@ impl AppendVec {
             file_size,
             slot,
         };
+        new.sanitize_layout()?;
 
         Ok(new)
     }
@@ -161,13 +162,42 @@ impl AppendVec {
         slot: u64,
     ) -> io::Result<Self> {
         let mut map = MmapMut::map_anon(current_len)?;
-        io::copy(&mut reader.take(current_len as u64), &mut map.as_mut())?;
-        Ok(AppendVec {
+        let read_len = io::copy(&mut reader.take(current_len as u64), &mut map.as_mut())?;
+        if read_len != current_len as u64 {
+            return Err(std::io::Error::new(
+                std::io::ErrorKind::UnexpectedEof,
+                format!("AppendVec has {read_len} of {current_len} bytes"),
+            ));
+        }
+        let new = AppendVec {
             map: map.make_read_only()?,
             current_len,
             file_size: current_len as u64,
             slot,
-        })
+        };
+        new.sanitize_layout()?;
+
+        Ok(new)
+    }
+
+    /// the accounts have to fill the whole append vec, otherwise some of them would be lost
+    fn sanitize_layout(&self) -> io::Result<()> {
+        let mut offset = 0;
+        while let Some((account, next_offset)) = self.get_account(offset) {
+            // a bool read from the map may not have any other value
+            let executable = &account.account_meta.executable as *const bool as *const u8;
+            if unsafe { executable.read() } > 1 {
+                break;
+            }
+            offset = next_offset;
+        }
+        if offset != u64_align!(self.current_len) {
+            return Err(std::io::Error::new(
+                std::io::ErrorKind::InvalidData,
+                format!("incorrect layout of AppendVec at offset {offset}"),
+            ));
+        }
+        Ok(())
     }
 
     /// Get a reference to the data at `offset` of `size` bytes if that slice
diff --git a/simulate_from_snapshot/src/snapshot_utils/archived.rs b/simulate_from_snapshot/src/snapshot_utils/archived.rs
index abdb2b2..493f638 100644
--- a/simulate_from_snapshot/src/snapshot_utils/archived.rs
+++ b/simulate_from_snapshot/src/snapshot_utils/archived.rs
@@ -1,11 +1,12 @@
 use {
     crate::snapshot_utils::{
-        deserialize_from, parse_append_vec_name, AccountsDbFields, AppendVec, AppendVecIterator,
-        DeserializableVersionedBank, SerializableAccountStorageEntry, SnapshotError,
-        SnapshotExtractor, SnapshotResult,
+        deserialize_from, missing_append_vec, parse_append_vec_name, AccountsDbFields, AppendVec,
+        AppendVecIterator, DeserializableVersionedBank, SerializableAccountStorageEntry,
+        SnapshotError, SnapshotExtractor, SnapshotResult,
     },
     log::info,
     std::{
+        collections::HashSet,
         fs::File,
         io::{BufReader, Read},
         path::{Component, Path},
@@ -93,11 +94,15 @@ where
     }
 
     fn unboxed_iter(&mut self) -> impl Iterator<Item = SnapshotResult<AppendVec>> + '_ {
-        self.entries
-            .take()
-            .into_iter()
-            .flatten()
-            .filter_map(|entry| {
+        let mut entries = self.entries.take().into_iter().flatten();
+        let mut loaded = HashSet::new();
+        let mut is_finished = false;
+        let this = &*self;
+        std::iter::from_fn(move || {
+            if is_finished {
+                return None;
+            }
+            let append_vec = entries.find_map(|entry| {
                 let mut entry = match entry {
                     Ok(x) => x,
                     Err(e) => return Some(Err(e.into())),
@@ -107,8 +112,15 @@ where
                     Err(e) => return Some(Err(e.into())),
                 };
                 let (slot, id) = path.file_name().and_then(parse_append_vec_name)?;
-                Some(self.process_entry(&mut entry, slot, id))
-            })
+                loaded.insert((slot, id));
+                Some(this.process_entry(&mut entry, slot, id))
+            });
+            if append_vec.is_none() {
+                is_finished = true;
+                return missing_append_vec(&this.accounts_db_fields, &loaded).map(Err);
+            }
+            append_vec
+        })
     }
 
     fn process_entry(
diff --git a/simulate_from_snapshot/src/snapshot_utils/mod.rs b/simulate_from_snapshot/src/snapshot_utils/mod.rs
index 1602484..632fef4 100644
--- a/simulate_from_snapshot/src/snapshot_utils/mod.rs
+++ b/simulate_from_snapshot/src/snapshot_utils/mod.rs
@@ -6,7 +6,7 @@ use {
             SerializableAccountStorageEntry,
         },
     },
-    std::{ffi::OsStr, io::Read, path::Path, str::FromStr},
+    std::{collections::HashSet, ffi::OsStr, io::Read, path::Path, str::FromStr},
     thiserror::Error,
 };
 
@@ -30,6 +30,8 @@ pub enum SnapshotError {
     NoSnapshotManifest,
     #[error("Unexpected AppendVec")]
     UnexpectedAppendVec,
+    #[error("Missing AppendVec {0}.{1}")]
+    MissingAppendVec(u64, usize),
     #[error("Failed to create read progress tracking: {0}")]
     ReadProgressTracking(String),
 }
@@ -53,6 +55,19 @@ fn parse_append_vec_name(name: &OsStr) -> Option<(u64, u64)> {
     }
 }
 
+/// the first of the append vecs in the manifest that was not loaded
+fn missing_append_vec(
+    accounts_db_fields: &AccountsDbFields<SerializableAccountStorageEntry>,
+    loaded: &HashSet<(u64, u64)>,
+) -> Option<SnapshotError> {
+    accounts_db_fields
+        .0
+        .iter()
+        .flat_map(|(slot, entries)| entries.iter().map(|entry| (*slot, entry.id)))
+        .find(|(slot, id)| !loaded.contains(&(*slot, *id as u64)))
+        .map(|(slot, id)| SnapshotError::MissingAppendVec(slot, id))
+}
+
 pub fn append_vec_iter(append_vec: &AppendVec) -> impl Iterator<Item = StoredAccountMetaHandle> {
     let mut offset = 0usize;
     std::iter::repeat_with(move || {
diff --git a/simulate_from_snapshot/src/snapshot_utils/unpacked.rs b/simulate_from_snapshot/src/snapshot_utils/unpacked.rs
index 780e9b9..739867f 100644
--- a/simulate_from_snapshot/src/snapshot_utils/unpacked.rs
+++ b/simulate_from_snapshot/src/snapshot_utils/unpacked.rs
@@ -1,13 +1,15 @@
 use {
     crate::snapshot_utils::{
-        deserialize_from, parse_append_vec_name, AccountsDbFields, AppendVec, AppendVecIterator,
-        DeserializableVersionedBank, ReadProgressTracking, SerializableAccountStorageEntry,
-        SnapshotError, SnapshotExtractor, SnapshotResult, SNAPSHOTS_DIR,
+        deserialize_from, missing_append_vec, parse_append_vec_name, AccountsDbFields, AppendVec,
+        AppendVecIterator, DeserializableVersionedBank, ReadProgressTracking,
+        SerializableAccountStorageEntry, SnapshotError, SnapshotExtractor, SnapshotResult,
+        SNAPSHOTS_DIR,
     },
     itertools::Itertools,
     log::info,
     solana_runtime::snapshot_utils::SNAPSHOT_STATUS_CACHE_FILENAME,
     std::{
+        collections::HashSet,
         fs::OpenOptions,
         io::BufReader,
         path::{Path, PathBuf},
@@ -86,21 +88,32 @@ impl UnpackedSnapshotExtractor {
     pub fn unboxed_iter(&self) -> impl Iterator<Item = SnapshotResult<AppendVec>> + '_ {
         std::iter::once(self.iter_streams())
             .flatten_ok()
-            .flatten_ok()
+            .map(|append_vec| append_vec.and_then(|append_vec| append_vec))
     }
 
     fn iter_streams(&self) -> SnapshotResult<impl Iterator<Item = SnapshotResult<AppendVec>> + '_> {
         let accounts_dir = self.root.join("accounts");
-        Ok(accounts_dir
-            .read_dir()?
-            .filter_map(|f| f.ok())
-            .filter_map(|f| {
-                let name = f.file_name();
-                parse_append_vec_name(&f.file_name()).map(move |parsed| (parsed, name))
-            })
-            .map(move |((slot, version), name)| {
-                self.open_append_vec(slot, version, &accounts_dir.join(name))
-            }))
+        let mut files = accounts_dir.read_dir()?;
+        let mut loaded = HashSet::new();
+        let mut is_finished = false;
+        Ok(std::iter::from_fn(move || {
+            if is_finished {
+                return None;
+            }
+            let append_vec = files.find_map(|f| match f {
+                Ok(f) => {
+                    let (slot, version) = parse_append_vec_name(&f.file_name())?;
+                    loaded.insert((slot, version));
+                    Some(self.open_append_vec(slot, version, &f.path()))
+                }
+                Err(e) => Some(Err(e.into())),
+            });
+            if append_vec.is_none() {
+                is_finished = true;
+                return missing_append_vec(&self.accounts_db_fields, &loaded).map(Err);
+            }
+            append_vec
+        }))
     }
 
     fn open_append_vec(&self, slot: u64, id: u64, path: &Path) -> SnapshotResult<AppendVec> {
-- 
2.43.0


From 6eb80b1d077ac69e1a1033b90942ba83b325d72b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:20 +0000
Subject: [PATCH 26/33] fix: accounts removed from the account store are freed

---
 account_storage/src/inmemory_account_store.rs | 88 ++++++++++++++-----
 1 file changed, 68 insertions(+), 20 deletions(-)

diff --git a/account_storage/src/inmemory_account_store.rs b/account_storage/src/inmemory_account_store.rs
index dfc1da5..d1d453e 100644
--- a/account_storage/src/inmemory_account_store.rs
+++ b/account_storage/src/inmemory_account_store.rs
@@ -47,12 +47,28 @@ impl SlotStatus {
 }
 
 type AccountIndex = usize;
+
+// an index is never used again, so that an index of a removed account does not refer to another account
+#[derive(Default)]
+struct AccountsStore {
+    accounts: HashMap<AccountIndex, RwLock<AccountDataByCommitment>>,
+    next_index: AccountIndex,
+}
+
+impl std::ops::Index<AccountIndex> for AccountsStore {
+    type Output = RwLock<AccountDataByCommitment>;
+
+    fn index(&self, account_index: AccountIndex) -> &Self::Output {
+        &self.accounts[&account_index]
+    }
+}
+
 pub struct InmemoryAccountStore {
     pubkey_to_account_index: Arc<DashMap<Pubkey, AccountIndex>>,
     accounts_by_owner: Arc<DashMap<Pubkey, Arc<RwLock<BTreeSet<AccountIndex>>>>>,
     slots_status: Arc<Mutex<BTreeMap<Slot, SlotStatus>>>,
     filtered_accounts: Arc<dyn AccountFiltersStoreInterface>,
-    accounts_store: RwLock<Vec<RwLock<AccountDataByCommitment>>>,
+    accounts_store: RwLock<AccountsStore>,
 }
 
 impl InmemoryAccountStore {
@@ -62,7 +78,7 @@ impl InmemoryAccountStore {
             accounts_by_owner: Arc::new(DashMap::new()),
             slots_status: Arc::new(Mutex::new(BTreeMap::new())),
             filtered_accounts,
-            accounts_store: RwLock::new(vec![]),
+            accounts_store: RwLock::new(AccountsStore::default()),
         }
     }
 
@@ -146,20 +162,29 @@ impl InmemoryAccountStore {
     fn add_new_account(&self, account_data: AccountData, commitment: Commitment) -> AccountIndex {
         ACCOUNT_STORED_IN_MEMORY.inc();
         let mut lk = self.accounts_store.write().unwrap();
-        let index = lk.len();
+        let index = lk.next_index;
+        lk.next_index += 1;
         // check if the blockhash and slot is already confirmed
         let commitment =
             self.add_account_index_to_slot_status(account_data.updated_slot, index, commitment);
         let owner = account_data.account.owner;
-        lk.push(RwLock::new(AccountDataByCommitment::new(
-            account_data,
-            commitment,
-        )));
+        lk.accounts.insert(
+            index,
+            RwLock::new(AccountDataByCommitment::new(account_data, commitment)),
+        );
         // queries should find the account as soon as a slot notification can promote it
         self.add_account_owner(index, owner);
         index
     }
 
+    // should be called when the account is deleted and its index is not used in pubkey_to_account_index anymore
+    fn remove_account(&self, account_index: AccountIndex) {
+        let mut lk = self.accounts_store.write().unwrap();
+        if lk.accounts.remove(&account_index).is_some() {
+            ACCOUNT_STORED_IN_MEMORY.dec();
+        }
+    }
+
     pub fn satisfies_filters(&self, account: &AccountData) -> bool {
         self.filtered_accounts.satisfies(account)
     }
@@ -223,6 +248,7 @@ impl AccountStorageInterface for InmemoryAccountStore {
             dashmap::mapref::entry::Entry::Occupied(mut occ) => {
                 let index = *occ.get();
                 let read_lk = self.accounts_store.read().unwrap();
+                // an account is only removed from the store after it is removed from the index
                 let mut acc_by_commitment = read_lk[index].write().unwrap();
                 if acc_by_commitment.is_empty() {
                     // account deleted by process_slot_data, is handled like a new account
@@ -230,6 +256,7 @@ impl AccountStorageInterface for InmemoryAccountStore {
                     drop(read_lk);
                     return if self.satisfies_filters(&account_data) {
                         occ.insert(self.add_new_account(account_data, commitment));
+                        self.remove_account(index);
                         true
                     } else {
                         false
@@ -242,13 +269,18 @@ impl AccountStorageInterface for InmemoryAccountStore {
                 let previous_finalized = acc_by_commitment.finalized_version();
                 // if account has been updated
                 if acc_by_commitment.update(account_data.clone(), commitment) {
-                    if acc_by_commitment.finalized_version() != previous_finalized
-                        && self.needs_deletion(&acc_by_commitment)
-                    {
+                    let deleted = acc_by_commitment.finalized_version() != previous_finalized
+                        && self.needs_deletion(&acc_by_commitment);
+                    if deleted {
                         acc_by_commitment.delete();
                         occ.remove_entry();
                     }
                     self.update_owners(&previous_owners, &acc_by_commitment, index);
+                    if deleted {
+                        drop(acc_by_commitment);
+                        drop(read_lk);
+                        self.remove_account(index);
+                    }
                     true
                 } else {
                     false
@@ -279,10 +311,13 @@ impl AccountStorageInterface for InmemoryAccountStore {
         let Some(account_index) = account_index else {
             return Ok(None);
         };
-        let account = self.accounts_store.read().unwrap()[account_index]
+        let account = self
+            .accounts_store
             .read()
             .unwrap()
-            .get_account_data(commitment);
+            .accounts
+            .get(&account_index)
+            .and_then(|account| account.read().unwrap().get_account_data(commitment));
         if let Some(account_data) = &account {
             if account_data.account.lamports > 0 {
                 Ok(account)
@@ -319,10 +354,14 @@ impl AccountStorageInterface for InmemoryAccountStore {
         let mut retry_list = Vec::with_capacity(128);
         // optimization to avoid locking for each account
         for program_account_index in lk.read().unwrap().iter() {
-            let lk_on_account = match store_read_lk[*program_account_index].try_read() {
+            let Some(account) = store_read_lk.accounts.get(program_account_index) else {
+                // account is removed
+                continue;
+            };
+            let lk_on_account = match account.try_read() {
                 Ok(lk) => lk,
                 Err(_) => {
-                    retry_list.push(*program_account_index);
+                    retry_list.push(account);
                     continue;
                 }
             };
@@ -335,8 +374,8 @@ impl AccountStorageInterface for InmemoryAccountStore {
             );
         }
         // retry for the accounts which were locked
-        for retry_account_index in retry_list {
-            let lk_on_account = store_read_lk[retry_account_index].read().unwrap();
+        for retry_account in retry_list {
+            let lk_on_account = retry_account.read().unwrap();
             Self::get_account_with_filtering_from_lock(
                 lk_on_account,
                 &mut return_vec,
@@ -441,7 +480,11 @@ impl AccountStorageInterface for InmemoryAccountStore {
 
         let lk = self.accounts_store.read().unwrap();
         for (writable_account_index, (update_slot, abandoned_slots)) in writable_accounts {
-            let mut writable_lk = lk[writable_account_index].write().unwrap();
+            let Some(account) = lk.accounts.get(&writable_account_index) else {
+                // account is already removed
+                continue;
+            };
+            let mut writable_lk = account.write().unwrap();
             let previous_owners = writable_lk.owners();
             // remove the states of abandoned forks
             let abandoned = writable_lk.remove_unconfirmed(&abandoned_slots);
@@ -467,12 +510,17 @@ impl AccountStorageInterface for InmemoryAccountStore {
 
         // update_account locks the index before the account, so remove them without holding any account
         for pubkey in deleted_accounts {
-            self.pubkey_to_account_index.remove_if(&pubkey, |_, index| {
-                self.accounts_store.read().unwrap()[*index]
+            let removed = self.pubkey_to_account_index.remove_if(&pubkey, |_, index| {
+                self.accounts_store
                     .read()
                     .unwrap()
-                    .is_empty()
+                    .accounts
+                    .get(index)
+                    .map_or(true, |account| account.read().unwrap().is_empty())
             });
+            if let Some((_, account_index)) = removed {
+                self.remove_account(account_index);
+            }
         }
         updated_accounts
     }
-- 
2.43.0


From 41031daf8551fb950655839efc829cd48d997e2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:20 +0000
Subject: [PATCH 27/33] fix: finalized updates do not leave slot status entries
 behind

---
 account_storage/src/inmemory_account_store.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/account_storage/src/inmemory_account_store.rs b/account_storage/src/inmemory_account_store.rs
index d1d453e..a118a81 100644
--- a/account_storage/src/inmemory_account_store.rs
+++ b/account_storage/src/inmemory_account_store.rs
@@ -146,14 +146,15 @@ impl InmemoryAccountStore {
         account_index: AccountIndex,
         commitment: Commitment,
     ) -> Commitment {
-        let mut lk = self.slots_status.lock().unwrap();
-        let slot_status = lk.entry(slot).or_insert_with(SlotStatus::new);
         match commitment {
             Commitment::Processed | Commitment::Confirmed => {
+                let mut lk = self.slots_status.lock().unwrap();
+                let slot_status = lk.entry(slot).or_insert_with(SlotStatus::new);
                 // insert account into slot status
                 slot_status.accounts_updated.insert(account_index);
                 slot_status.commitment.max(commitment)
             }
+            // nothing to be promoted
             Commitment::Finalized => commitment,
         }
     }
-- 
2.43.0


From 22a0ce03dcd9b2ff386dc5949654d69d563dbf91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:20 +0000
Subject: [PATCH 28/33] fix: explicit finalized updates forget older processed
 states

---
 .../src/account_data_by_commitment.rs           | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/account_storage/src/account_data_by_commitment.rs b/account_storage/src/account_data_by_commitment.rs
index 803d910..a6e46e4 100644
--- a/account_storage/src/account_data_by_commitment.rs
+++ b/account_storage/src/account_data_by_commitment.rs
@@ -208,7 +208,9 @@ impl AccountDataByCommitment {
                     self.confirmed_account = Some(data.clone());
                 }
                 if update_finalized {
+                    let slot = data.updated_slot;
                     self.finalized_account = Some(data);
+                    self.remove_processed_before(slot);
                     updated = true;
                 }
             }
@@ -218,6 +220,21 @@ impl AccountDataByCommitment {
         }
         updated
     }
+
+    // slot finalized remove old processed slot data
+    fn remove_processed_before(&mut self, slot: Slot) {
+        while self.processed_accounts.len() > 1
+            && self
+                .processed_accounts
+                .first_key_value()
+                .map(|(s, _)| *s)
+                .unwrap_or(u64::MAX)
+                < slot
+        {
+            self.processed_accounts.pop_first();
+        }
+    }
+
     // this method will promote processed account to confirmed account to finalized account
     // returns promoted account
     pub fn promote_slot_commitment(
-- 
2.43.0


From 44ad9b37f8501441466f757b046f88b51a86ec2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:20 +0000
Subject: [PATCH 29/33] fix: indexes of deleted token accounts are freed and
 used again

---
 .../src/inmemory_token_account_storage.rs     | 40 ++++++++++++----
 .../src/inmemory_token_storage.rs             | 47 +++++++++++++++++--
 2 files changed, 73 insertions(+), 14 deletions(-)

diff --git a/token_account_storage/src/inmemory_token_account_storage.rs b/token_account_storage/src/inmemory_token_account_storage.rs
index 9ddb0b3..544de81 100644
--- a/token_account_storage/src/inmemory_token_account_storage.rs
+++ b/token_account_storage/src/inmemory_token_account_storage.rs
@@ -1,6 +1,6 @@
 use std::{
     collections::{HashSet, VecDeque},
-    sync::{Arc, RwLock},
+    sync::{Arc, Mutex, RwLock},
 };
 
 use dashmap::DashMap;
@@ -32,6 +32,30 @@ pub struct InmemoryTokenAccountStorage {
     // use only first 8 bytes of pubkey to create an index
     pubkey_to_index: Arc<DashMap<InmemoryPubkey, Vec<TokenAccountIndex>>>,
     token_accounts: Arc<RwLock<VecDeque<Vec<u8>>>>,
+    // indexes of the deleted accounts, which are used again for new accounts
+    deleted_indexes: Arc<Mutex<Vec<TokenAccountIndex>>>,
+}
+
+impl InmemoryTokenAccountStorage {
+    fn add_token_account(
+        &self,
+        token_accounts: &mut VecDeque<Vec<u8>>,
+        token_account: TokenAccount,
+    ) -> TokenAccountIndex {
+        TOKEN_ACCOUNT_STORED_IN_MEMORY.inc();
+        match self.deleted_indexes.lock().unwrap().pop() {
+            Some(token_index) => {
+                TOKEN_ACCOUNT_DELETED_IN_MEMORY.dec();
+                *token_accounts.get_mut(token_index as usize).unwrap() = token_account.to_bytes();
+                token_index
+            }
+            None => {
+                let token_index = token_accounts.len() as TokenAccountIndex;
+                token_accounts.push_back(token_account.to_bytes());
+                token_index
+            }
+        }
+    }
 }
 
 impl TokenAccountStorageInterface for InmemoryTokenAccountStorage {
@@ -71,20 +95,16 @@ impl TokenAccountStorageInterface for InmemoryTokenAccountStorage {
                     }
                 }
                 let token_indexes = occ.get_mut();
-                let token_index = write_lk.len() as TokenAccountIndex;
-                write_lk.push_back(token_account.to_bytes());
+                let token_index = self.add_token_account(&mut write_lk, token_account);
                 token_indexes.push(token_index);
-                TOKEN_ACCOUNT_STORED_IN_MEMORY.inc();
-                (token_index as TokenAccountIndex, true)
+                (token_index, true)
             }
             dashmap::mapref::entry::Entry::Vacant(v) => {
                 // add new token account
                 let mut write_lk = self.token_accounts.write().unwrap();
-                let token_index = write_lk.len() as TokenAccountIndex;
-                write_lk.push_back(token_account.to_bytes());
-                v.insert(vec![token_index as TokenAccountIndex]);
+                let token_index = self.add_token_account(&mut write_lk, token_account);
+                v.insert(vec![token_index]);
                 drop(write_lk);
-                TOKEN_ACCOUNT_STORED_IN_MEMORY.inc();
                 (token_index, true)
             }
         }
@@ -148,6 +168,8 @@ impl TokenAccountStorageInterface for InmemoryTokenAccountStorage {
             if let Some(position) = position {
                 let index = occ.get_mut().remove(position);
                 *write_lk.get_mut(index as usize).unwrap() = deleted_account;
+                self.deleted_indexes.lock().unwrap().push(index);
+                TOKEN_ACCOUNT_STORED_IN_MEMORY.dec();
                 TOKEN_ACCOUNT_DELETED_IN_MEMORY.inc();
                 if occ.get().is_empty() {
                     occ.remove();
diff --git a/token_account_storage/src/inmemory_token_storage.rs b/token_account_storage/src/inmemory_token_storage.rs
index 09067e6..ededff7 100644
--- a/token_account_storage/src/inmemory_token_storage.rs
+++ b/token_account_storage/src/inmemory_token_storage.rs
@@ -1,5 +1,5 @@
 use std::{
-    collections::{BTreeMap, HashMap, HashSet, VecDeque},
+    collections::{BTreeMap, BTreeSet, HashMap, HashSet},
     sync::{
         atomic::{AtomicU32, AtomicU64, Ordering},
         Arc, RwLock,
@@ -322,7 +322,7 @@ pub struct TokenProgramAccountsStorage {
     // mints are known by their index even if the mint account itself is not loaded or is deleted
     mint_pubkey_by_index: Arc<DashMap<MintIndex, Pubkey>>,
     multisigs: Arc<DashMap<Pubkey, MultiSig>>,
-    accounts_index_by_mint: Arc<DashMap<MintIndex, VecDeque<TokenAccountIndex>>>,
+    accounts_index_by_mint: Arc<DashMap<MintIndex, BTreeSet<TokenAccountIndex>>>,
     account_by_owner_pubkey: Arc<DashMap<InmemoryPubkey, Vec<TokenAccountIndex>>>,
     token_accounts_storage: Arc<dyn TokenAccountStorageInterface>,
     // slot and write version of all the finalized accounts
@@ -415,6 +415,23 @@ impl TokenProgramAccountsStorage {
         if !matches!(account, TokenProgramAccountType::MultiSig(_, _)) {
             self.multisigs.remove(&account_pk);
         }
+        // the index is removed from the mint and owner that the account leaves
+        let (mint, owner) = match &account {
+            TokenProgramAccountType::TokenAccount(token_account) => {
+                (Some(token_account.mint), Some(token_account.owner))
+            }
+            _ => (None, None),
+        };
+        let previous = self.token_accounts_storage.get_by_pubkey(&account_pk);
+        let token_index = self.token_accounts_storage.contains(&account_pk);
+        if let (Some(previous), Some(token_index)) = (&previous, token_index) {
+            if mint != Some(previous.mint) {
+                self.remove_index_from_mint(previous.mint, token_index);
+            }
+            if owner != Some(previous.owner) {
+                self.remove_index_from_owner(previous.owner, token_index);
+            }
+        }
         if !matches!(account, TokenProgramAccountType::TokenAccount(_)) {
             self.token_accounts_storage.delete(&account_pk);
         }
@@ -423,15 +440,13 @@ impl TokenProgramAccountsStorage {
             TokenProgramAccountType::TokenAccount(token_account) => {
                 let owner = token_account.owner;
                 let mint_index = token_account.mint;
-                let previous = self.token_accounts_storage.get_by_pubkey(&account_pk);
                 let (token_index, _) = self.token_accounts_storage.save_or_update(token_account);
-                // queries ignore the accounts that have left an owner or mint
                 if previous.as_ref().map(|previous| previous.mint) != Some(mint_index) {
                     // add account index in accounts_index_by_mint map
                     self.accounts_index_by_mint
                         .entry(mint_index)
                         .or_default()
-                        .push_back(token_index);
+                        .insert(token_index);
                 }
                 if previous.map(|previous| previous.owner) != Some(owner) {
                     // add account index in account_by_owner_pubkey map
@@ -461,6 +476,28 @@ impl TokenProgramAccountsStorage {
         }
     }
 
+    fn remove_index_from_mint(&self, mint: MintIndex, token_index: TokenAccountIndex) {
+        if let dashmap::mapref::entry::Entry::Occupied(mut occ) =
+            self.accounts_index_by_mint.entry(mint)
+        {
+            occ.get_mut().remove(&token_index);
+            if occ.get().is_empty() {
+                occ.remove();
+            }
+        }
+    }
+
+    fn remove_index_from_owner(&self, owner: Pubkey, token_index: TokenAccountIndex) {
+        if let dashmap::mapref::entry::Entry::Occupied(mut occ) =
+            self.account_by_owner_pubkey.entry(owner.into())
+        {
+            occ.get_mut().retain(|index| *index != token_index);
+            if occ.get().is_empty() {
+                occ.remove();
+            }
+        }
+    }
+
     fn is_newer_than_finalized(
         &self,
         account_pk: &Pubkey,
-- 
2.43.0


From 738e39f9861dd67f8e28a8ec6d235c1c5984b22e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:20 +0000
Subject: [PATCH 30/33] fix: equal filters are only stored once

---
 common/src/simple_filter_store.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/common/src/simple_filter_store.rs b/common/src/simple_filter_store.rs
index b83169b..4810463 100644
--- a/common/src/simple_filter_store.rs
+++ b/common/src/simple_filter_store.rs
@@ -65,7 +65,11 @@ impl SimpleFilterStore {
                         }
                         ProgramIdFilters::ByFilterType(current_filters) => {
                             if let Some(new_filters) = &account_filter.filters {
-                                current_filters.push(Self::normalize_filters(new_filters));
+                                let new_filters = Self::normalize_filters(new_filters);
+                                // the same filters can be added several times
+                                if !current_filters.contains(&new_filters) {
+                                    current_filters.push(new_filters);
+                                }
                             } else {
                                 // the new filters will subscribe to all the filters
                                 *program_filters = ProgramIdFilters::AllowAll;
-- 
2.43.0


From 9c17831c5a65d9474bb8fe28a57a5841b8b83756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:38 +0000
Subject: [PATCH 31/33] fix: finalized deletions of unknown accounts are not
 stored

---
 account_storage/src/inmemory_account_store.rs | 42 ++++++++++++-------
 1 file changed, 28 insertions(+), 14 deletions(-)

diff --git a/account_storage/src/inmemory_account_store.rs b/account_storage/src/inmemory_account_store.rs
index a118a81..d6549aa 100644
--- a/account_storage/src/inmemory_account_store.rs
+++ b/account_storage/src/inmemory_account_store.rs
@@ -160,14 +160,22 @@ impl InmemoryAccountStore {
     }
 
     // should be called while the pubkey is locked in pubkey_to_account_index
-    fn add_new_account(&self, account_data: AccountData, commitment: Commitment) -> AccountIndex {
-        ACCOUNT_STORED_IN_MEMORY.inc();
+    // a finalized deletion of an account that is not stored is not stored either
+    fn add_new_account(
+        &self,
+        account_data: AccountData,
+        commitment: Commitment,
+    ) -> Option<AccountIndex> {
         let mut lk = self.accounts_store.write().unwrap();
         let index = lk.next_index;
         lk.next_index += 1;
         // check if the blockhash and slot is already confirmed
         let commitment =
             self.add_account_index_to_slot_status(account_data.updated_slot, index, commitment);
+        if commitment == Commitment::Finalized && Self::is_deleted(&account_data) {
+            return None;
+        }
+        ACCOUNT_STORED_IN_MEMORY.inc();
         let owner = account_data.account.owner;
         lk.accounts.insert(
             index,
@@ -175,7 +183,7 @@ impl InmemoryAccountStore {
         );
         // queries should find the account as soon as a slot notification can promote it
         self.add_account_owner(index, owner);
-        index
+        Some(index)
     }
 
     // should be called when the account is deleted and its index is not used in pubkey_to_account_index anymore
@@ -255,13 +263,15 @@ impl AccountStorageInterface for InmemoryAccountStore {
                     // account deleted by process_slot_data, is handled like a new account
                     drop(acc_by_commitment);
                     drop(read_lk);
-                    return if self.satisfies_filters(&account_data) {
-                        occ.insert(self.add_new_account(account_data, commitment));
-                        self.remove_account(index);
-                        true
-                    } else {
-                        false
+                    if !self.satisfies_filters(&account_data) {
+                        return false;
+                    }
+                    let Some(new_index) = self.add_new_account(account_data, commitment) else {
+                        return false;
                     };
+                    occ.insert(new_index);
+                    self.remove_account(index);
+                    return true;
                 }
                 // check if the blockhash and slot is already confirmed
                 let commitment =
@@ -288,11 +298,15 @@ impl AccountStorageInterface for InmemoryAccountStore {
                 }
             }
             dashmap::mapref::entry::Entry::Vacant(vac) => {
-                if self.satisfies_filters(&account_data) {
-                    vac.insert(self.add_new_account(account_data, commitment));
-                    true
-                } else {
-                    false
+                if !self.satisfies_filters(&account_data) {
+                    return false;
+                }
+                match self.add_new_account(account_data, commitment) {
+                    Some(index) => {
+                        vac.insert(index);
+                        true
+                    }
+                    None => false,
                 }
             }
         };
-- 
2.43.0


From 15884033d4b592c2882a5691b0291dc733ef0e81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:47 +0000
Subject: [PATCH 32/33] fix: errors of the storages are reported by the
 dispatcher when it does not have the account

---
 account_storage/src/storage_by_program_id.rs | 25 +++++++++++++++-----
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/account_storage/src/storage_by_program_id.rs b/account_storage/src/storage_by_program_id.rs
index 5d84555..1d8aea6 100644
--- a/account_storage/src/storage_by_program_id.rs
+++ b/account_storage/src/storage_by_program_id.rs
@@ -44,6 +44,24 @@ impl StorageByProgramId {
             .unwrap_or(&self.default)
     }
 
+    // account could be in any of the storages, so it is absent only if none of them failed
+    fn get_from_any_storage(
+        &self,
+        get_account: impl Fn(
+            &Arc<dyn AccountStorageInterface>,
+        ) -> Result<Option<AccountData>, AccountLoadingError>,
+    ) -> Result<Option<AccountData>, AccountLoadingError> {
+        let mut result = Ok(None);
+        for storage in self.storages() {
+            match get_account(storage) {
+                Ok(Some(account)) => return Ok(Some(account)),
+                Ok(None) => {}
+                Err(e) => result = Err(e),
+            }
+        }
+        result
+    }
+
     // for the storages of other programs an account is deleted when its owner changes
     fn deleted(account_data: &AccountData) -> AccountData {
         AccountData {
@@ -97,12 +115,7 @@ impl AccountStorageInterface for StorageByProgramId {
         account_pk: Pubkey,
         commitment: Commitment,
     ) -> Result<Option<AccountData>, AccountLoadingError> {
-        for (_, interface) in self.program_id_dispatch_map.iter() {
-            if let Ok(Some(account)) = interface.get_account(account_pk, commitment) {
-                return Ok(Some(account));
-            }
-        }
-        self.default.get_account(account_pk, commitment)
+        self.get_from_any_storage(|storage| storage.get_account(account_pk, commitment))
     }
 
     fn get_program_accounts(
-- 
2.43.0


From dedcd7bdfa2d52f5bea685647825a8b7ebd1e78a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:47 +0000
Subject: [PATCH 33/33] fix: slot notifications never load accounts on demand

---
 account_storage/src/storage_by_program_id.rs | 10 +++++++++-
 accounts_on_demand/src/accounts_on_demand.rs |  9 +++++++++
 common/src/account_store_interface.rs        |  9 +++++++++
 3 files changed, 27 insertions(+), 1 deletion(-)

diff --git a/account_storage/src/storage_by_program_id.rs b/account_storage/src/storage_by_program_id.rs
index 1d8aea6..7ad0b14 100644
--- a/account_storage/src/storage_by_program_id.rs
+++ b/account_storage/src/storage_by_program_id.rs
@@ -118,6 +118,14 @@ impl AccountStorageInterface for StorageByProgramId {
         self.get_from_any_storage(|storage| storage.get_account(account_pk, commitment))
     }
 
+    fn get_known_account(
+        &self,
+        account_pk: Pubkey,
+        commitment: Commitment,
+    ) -> Result<Option<AccountData>, AccountLoadingError> {
+        self.get_from_any_storage(|storage| storage.get_known_account(account_pk, commitment))
+    }
+
     fn get_program_accounts(
         &self,
         program_pubkey: Pubkey,
@@ -146,7 +154,7 @@ impl AccountStorageInterface for StorageByProgramId {
                     return account;
                 }
                 // account could only be deleted for the storage of its previous owner
-                match self.get_account(account.pubkey, commitment) {
+                match self.get_known_account(account.pubkey, commitment) {
                     Ok(Some(current)) => current,
                     _ => account,
                 }
diff --git a/accounts_on_demand/src/accounts_on_demand.rs b/accounts_on_demand/src/accounts_on_demand.rs
index 8254a00..841b54b 100644
--- a/accounts_on_demand/src/accounts_on_demand.rs
+++ b/accounts_on_demand/src/accounts_on_demand.rs
@@ -197,6 +197,15 @@ impl AccountStorageInterface for AccountsOnDemand {
         }
     }
 
+    fn get_known_account(
+        &self,
+        account_pk: Pubkey,
+        commitment: Commitment,
+    ) -> Result<Option<AccountData>, AccountLoadingError> {
+        self.accounts_storage
+            .get_known_account(account_pk, commitment)
+    }
+
     fn get_program_accounts(
         &self,
         program_id: Pubkey,
diff --git a/common/src/account_store_interface.rs b/common/src/account_store_interface.rs
index 858ba12..82fb0bc 100644
--- a/common/src/account_store_interface.rs
+++ b/common/src/account_store_interface.rs
@@ -39,6 +39,15 @@ pub trait AccountStorageInterface: Send + Sync {
         commitment: Commitment,
     ) -> Result<Option<AccountData>, AccountLoadingError>;
 
+    // account as far as it is known by now, it is never loaded for the call
+    fn get_known_account(
+        &self,
+        account_pk: Pubkey,
+        commitment: Commitment,
+    ) -> Result<Option<AccountData>, AccountLoadingError> {
+        self.get_account(account_pk, commitment)
+    }
+
     fn get_program_accounts(
         &self,
         program_pubkey: Pubkey,
-- 
2.43.0

