From 01cda13b64ee774f5e03161efb0ce86f30a19206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:16 +0000
Subject: [PATCH 1/5] fix: multisig2 member keys may call
 add_request_and_confirm

The access keys added for key members were restricted to a method that does not
exist (add_and_confirm_request), so no key member could add and confirm at once.
---
 multisig2/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/multisig2/src/lib.rs b/multisig2/src/lib.rs
index 052bfab..fbc73b0 100644
--- a/multisig2/src/lib.rs
+++ b/multisig2/src/lib.rs
@@ -20,7 +20,7 @@ const REQUEST_COOLDOWN: u64 = 900_000_000_000;
 const ACTIVE_REQUESTS_LIMIT: u32 = 12;
 
 /// Default set of methods that access key should have.
-const MULTISIG_METHOD_NAMES: &str = "add_request,delete_request,confirm,add_and_confirm_request";
+const MULTISIG_METHOD_NAMES: &str = "add_request,delete_request,confirm,add_request_and_confirm";
 
 pub type RequestId = u32;
 
-- 
2.43.0


From 84c95356c538e1f973e2ce81afe2af1985448bae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:16 +0000
Subject: [PATCH 2/5] fix: multisig2 refuses to add a present member or delete
 an absent one

Repeated members in the constructor counted towards the confirmation threshold,
so a wallet could be created that can never execute anything. Adding a present key
or deleting an absent one made the access key action fail after the member set and
anything bundled with it had already been recorded.
---
 multisig2/src/lib.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/multisig2/src/lib.rs b/multisig2/src/lib.rs
index fbc73b0..739b5a9 100644
--- a/multisig2/src/lib.rs
+++ b/multisig2/src/lib.rs
@@ -340,7 +340,10 @@ impl MultiSigContract {
 
     /// Add member to the list. Adds access key if member is key based.
     fn add_member(&mut self, promise: Promise, member: MultisigMember) -> Promise {
-        self.members.insert(&member.clone().into());
+        assert(
+            self.members.insert(&member.clone().into()),
+            "Member is already added",
+        );
         match member {
             MultisigMember::AccessKey { public_key } => promise.add_access_key(
                 public_key.into(),
@@ -354,6 +357,10 @@ impl MultiSigContract {
 
     /// Delete member from the list. Removes access key if the member is key based.
     fn delete_member(&mut self, promise: Promise, member: MultisigMember) -> Promise {
+        assert(
+            self.members.contains(&member),
+            "Given member is not a member of this multisig",
+        );
         assert(
             self.members.len() - 1 >= self.num_confirmations as u64,
             "Removing given member will make total number of members below number of confirmations",
-- 
2.43.0


From 411ed9d8932acbf7a8ed1eaa03efc9b224ddcdba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:16 +0000
Subject: [PATCH 3/5] fix: multisig2 refuses a threshold larger than the number
 of members

The constructor and member deletion keep at least as many members as required
confirmations; changing the threshold did not, locking the wallet for good.
---
 multisig2/src/lib.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/multisig2/src/lib.rs b/multisig2/src/lib.rs
index 739b5a9..55cb4f2 100644
--- a/multisig2/src/lib.rs
+++ b/multisig2/src/lib.rs
@@ -274,6 +274,10 @@ impl MultiSigContract {
                 // the following methods must be a single action
                 MultiSigRequestAction::SetNumConfirmations { num_confirmations } => {
                     self.assert_one_action_only(receiver_id, num_actions);
+                    assert(
+                        self.members.len() >= num_confirmations as u64,
+                        "Members list must be equal or larger than number of confirmations",
+                    );
                     self.num_confirmations = num_confirmations;
                     return PromiseOrValue::Value(true);
                 }
-- 
2.43.0


From 0a95778310d31aa20df1081b384bd71c577ead61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:31 +0000
Subject: [PATCH 4/5] fix: lockup validates the vesting schedule at
 initialization

VestingSchedule::assert_valid was never called although get_unvested_amount relies
on it: with end <= start or a cliff outside of the schedule, computing the locked
amount panics or over-locks, so neither owner nor foundation can ever use the funds.
---
 lockup/src/lib.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lockup/src/lib.rs b/lockup/src/lib.rs
index 22db413..92c3357 100644
--- a/lockup/src/lib.rs
+++ b/lockup/src/lib.rs
@@ -223,6 +223,7 @@ impl LockupContract {
             }
             Some(VestingScheduleOrHash::VestingHash(hash)) => VestingInformation::VestingHash(hash),
             Some(VestingScheduleOrHash::VestingSchedule(vs)) => {
+                vs.assert_valid();
                 VestingInformation::VestingSchedule(vs)
             }
         };
-- 
2.43.0


From 035c183abd690b3ff62fb3631785fb7975f8e3fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:32 +0000
Subject: [PATCH 5/5] fix: multisig factory returns the deposit of a failed
 creation to its payer

The deposit of a failed creation was refunded to the factory and stayed there; the
staking pool and lockup factories return it in a callback.
---
 multisig-factory/src/lib.rs | 50 +++++++++++++++++++++++++++++++++++--
 1 file changed, 48 insertions(+), 2 deletions(-)

diff --git a/multisig-factory/src/lib.rs b/multisig-factory/src/lib.rs
index 9fe444f..1bd5119 100644
--- a/multisig-factory/src/lib.rs
+++ b/multisig-factory/src/lib.rs
@@ -1,8 +1,8 @@
 use near_sdk::borsh::{self, BorshDeserialize, BorshSerialize};
-use near_sdk::json_types::Base58PublicKey;
+use near_sdk::json_types::{Base58PublicKey, U128};
 use near_sdk::serde::{Deserialize, Serialize};
 use near_sdk::serde_json::json;
-use near_sdk::{env, near_bindgen, AccountId, Promise};
+use near_sdk::{env, ext_contract, near_bindgen, AccountId, Promise, PromiseResult};
 
 #[global_allocator]
 static ALLOC: near_sdk::wee_alloc::WeeAlloc<'_> = near_sdk::wee_alloc::WeeAlloc::INIT;
@@ -12,6 +12,9 @@ const CODE: &[u8] = include_bytes!("../../multisig2/res/multisig2.wasm");
 /// This gas spent on the call & account creation, the rest goes to the `new` call.
 const CREATE_CALL_GAS: u64 = 50_000_000_000_000;
 
+/// Gas for the callback, taken out of `CREATE_CALL_GAS`.
+const CALLBACK_GAS: u64 = 10_000_000_000_000;
+
 #[derive(Serialize, Deserialize)]
 #[serde(crate = "near_sdk::serde", untagged)]
 pub enum MultisigMember {
@@ -19,6 +22,15 @@ pub enum MultisigMember {
     Account { account_id: AccountId },
 }
 
+#[ext_contract(ext_self)]
+pub trait ExtSelf {
+    fn on_multisig_create(
+        &mut self,
+        attached_deposit: U128,
+        predecessor_account_id: AccountId,
+    ) -> bool;
+}
+
 #[near_bindgen]
 #[derive(BorshSerialize, BorshDeserialize, Default)]
 pub struct MultisigFactory {}
@@ -46,5 +58,39 @@ impl MultisigFactory {
                 0,
                 env::prepaid_gas() - CREATE_CALL_GAS,
             )
+            .then(ext_self::on_multisig_create(
+                env::attached_deposit().into(),
+                env::predecessor_account_id(),
+                &env::current_account_id(),
+                0,
+                CALLBACK_GAS,
+            ))
+    }
+
+    /// Callback after an attempt to create the multisig contract.
+    /// Returns true if it was created. Otherwise returns the attached deposit, which was refunded
+    /// to this contract, to the account that attached it.
+    pub fn on_multisig_create(
+        &mut self,
+        attached_deposit: U128,
+        predecessor_account_id: AccountId,
+    ) -> bool {
+        assert_eq!(
+            env::predecessor_account_id(),
+            env::current_account_id(),
+            "Can only be called as a callback"
+        );
+        assert_eq!(
+            env::promise_results_count(),
+            1,
+            "Contract expected a result on the callback"
+        );
+        match env::promise_result(0) {
+            PromiseResult::Successful(_) => true,
+            _ => {
+                Promise::new(predecessor_account_id).transfer(attached_deposit.0);
+                false
+            }
+        }
     }
 }
-- 
2.43.0

