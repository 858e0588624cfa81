From 11531d32a01538e96d8f704609eb33245e1eb7c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:59 +0000
Subject: [PATCH 1/5] fix: icrc3_get_blocks drops ranges whose length is very
 large

A length above 2^64 made the range be skipped, and start + length could
overflow when max_blocks_per_request is close to 2^64.
---
 cycles-ledger/src/storage.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/cycles-ledger/src/storage.rs b/cycles-ledger/src/storage.rs
index 9733829..18bed35 100644
--- a/cycles-ledger/src/storage.rs
+++ b/cycles-ledger/src/storage.rs
@@ -2376,10 +2376,8 @@ pub fn get_blocks(args: GetBlocksArgs) -> GetBlocksResult {
             Some(start) if start < log_length => start,
             _ => continue,
         };
-        let end_excluded = match length.0.to_u64() {
-            Some(length) => log_length.min(start + remaining_length.min(length)),
-            _ => continue,
-        };
+        let length = length.0.to_u64().unwrap_or(u64::MAX);
+        let end_excluded = log_length.min(start.saturating_add(remaining_length.min(length)));
         read_state(|state| {
             for id in start..end_excluded {
                 let block = state
-- 
2.43.0


From 0bf266538099b26960b2b6360abcdd715e826e12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:59 +0000
Subject: [PATCH 2/5] fix: an allowance counts as expired at its expiry time
 everywhere

icrc2_allowance, expected_allowance and the refund of an approval still
saw an allowance at the very nanosecond of its expiry, when it can no
longer be spent and an approval with this expiry is refused.
---
 cycles-ledger/src/storage.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cycles-ledger/src/storage.rs b/cycles-ledger/src/storage.rs
index 18bed35..6ef35c5 100644
--- a/cycles-ledger/src/storage.rs
+++ b/cycles-ledger/src/storage.rs
@@ -2164,7 +2164,7 @@ fn reimburse_approval(
 pub fn allowance(account: &Account, spender: &Account, now: u64) -> (u128, u64) {
     let key = (to_account_key(account), to_account_key(spender));
     let allowance = read_state(|s| s.approvals.get(&key).unwrap_or_default());
-    if allowance.1 > 0 && allowance.1 < now {
+    if allowance.1 > 0 && allowance.1 <= now {
         return (0, 0);
     }
     allowance
-- 
2.43.0


From 50c0d12b749cf3656e5ce45552738f384bd366c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:59 +0000
Subject: [PATCH 3/5] fix: BadFee takes precedence over InsufficientFunds for
 amounts above 2^128

---
 cycles-ledger/src/main.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/cycles-ledger/src/main.rs b/cycles-ledger/src/main.rs
index 004b4b9..d535f5d 100644
--- a/cycles-ledger/src/main.rs
+++ b/cycles-ledger/src/main.rs
@@ -217,6 +217,12 @@ fn execute_transfer(
     created_at_time: Option<u64>,
 ) -> Result<Nat, TransferFromError> {
     let Some(amount) = amount.0.to_u128() else {
+        // BadFee takes precedence over InsufficientFunds per ICRC-1 spec
+        if fee.is_some_and(|fee| fee != config::FEE) {
+            return Err(TransferFromError::BadFee {
+                expected_fee: Nat::from(config::FEE),
+            });
+        }
         return Err(TransferFromError::InsufficientFunds {
             balance: Nat::from(storage::balance_of(&from)),
         });
-- 
2.43.0


From afece650df9beb9cfec6a2e6ccc78c7701e89d36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:08 +0000
Subject: [PATCH 4/5] fix: refunding an approval keeps a newer approval without
 expiry as it is

---
 cycles-ledger/src/storage.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cycles-ledger/src/storage.rs b/cycles-ledger/src/storage.rs
index 6ef35c5..6ed194c 100644
--- a/cycles-ledger/src/storage.rs
+++ b/cycles-ledger/src/storage.rs
@@ -2142,8 +2142,11 @@ fn reimburse_approval(
     now: u64,
 ) -> Result<Nat, ApproveError> {
     let (current_allowance, current_expiry) = allowance(&from, &spender, now);
+    // An approval that is in place now keeps its expiry, or that it has none
     let expires_at = if current_expiry > 0 {
         Some(current_expiry)
+    } else if current_allowance > 0 {
+        None
     } else {
         old_expires_at
     };
-- 
2.43.0


From c393dfd188fa7d2c840cca6e7f3f7a7cef9edb61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:40 +0000
Subject: [PATCH 5/5] fix: give back only the cycles that came back when a call
 to the CMC fails

A canister that answers a call with a reject, or with a reply that cannot
be decoded, may have accepted some of the attached cycles. create_canister
and create_canister_from minted the whole amount again in that case, which
left the minted cycles without backing. Use the cycles that the system
reports as refunded instead.
---
 cycles-ledger/src/storage.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/cycles-ledger/src/storage.rs b/cycles-ledger/src/storage.rs
index 6ed194c..221c782 100644
--- a/cycles-ledger/src/storage.rs
+++ b/cycles-ledger/src/storage.rs
@@ -2011,8 +2011,17 @@ pub async fn create_canister(
             },
         },
         Err(call_error) => {
+            let returned_amount = match &call_error {
+                // The CMC may have kept some of the cycles before the call failed.
+                // Only the cycles that came back can be given back to the user.
+                ic_cdk::call::Error::CallRejected(_)
+                | ic_cdk::call::Error::CandidDecodeFailed(_) => ic_cdk::api::msg_cycles_refunded(),
+                // The call was never sent.
+                ic_cdk::call::Error::InsufficientLiquidCycleBalance(_)
+                | ic_cdk::call::Error::CallPerformFailed(_) => amount,
+            };
             let (rejection_code, rejection_reason) = call_error_to_reject(call_error);
-            Err((rejection_code, amount, rejection_reason))
+            Err((rejection_code, returned_amount, rejection_reason))
         }
     };
 
-- 
2.43.0

