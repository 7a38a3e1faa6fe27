From 560444caf8ac077c71bd60dd4f7ec922e5322f25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:31 +0000
Subject: [PATCH 1/2] fix: treat an allowance as expired from the instant of
 its expiry

---
 cycles-ledger/src/storage.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cycles-ledger/src/storage.rs b/cycles-ledger/src/storage.rs
index 9733829..0f2c96d 100644
--- a/cycles-ledger/src/storage.rs
+++ b/cycles-ledger/src/storage.rs
@@ -2164,7 +2164,7 @@ fn reimburse_approval(
 pub fn allowance(account: &Account, spender: &Account, now: u64) -> (u128, u64) {
     let key = (to_account_key(account), to_account_key(spender));
     let allowance = read_state(|s| s.approvals.get(&key).unwrap_or_default());
-    if allowance.1 > 0 && allowance.1 < now {
+    if allowance.1 > 0 && allowance.1 <= now {
         return (0, 0);
     }
     allowance
-- 
2.43.0


From 451e28765782609bfc5afc03701e87d77b40bd59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:37 +0000
Subject: [PATCH 2/2] fix: return every requested block when a range ends
 beyond 64 bits

---
 cycles-ledger/src/storage.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/cycles-ledger/src/storage.rs b/cycles-ledger/src/storage.rs
index 0f2c96d..e511756 100644
--- a/cycles-ledger/src/storage.rs
+++ b/cycles-ledger/src/storage.rs
@@ -2376,10 +2376,9 @@ pub fn get_blocks(args: GetBlocksArgs) -> GetBlocksResult {
             Some(start) if start < log_length => start,
             _ => continue,
         };
-        let end_excluded = match length.0.to_u64() {
-            Some(length) => log_length.min(start + remaining_length.min(length)),
-            _ => continue,
-        };
+        // a length that does not fit into 64 bits covers the rest of the log
+        let length = length.0.to_u64().unwrap_or(u64::MAX);
+        let end_excluded = log_length.min(start.saturating_add(remaining_length.min(length)));
         read_state(|state| {
             for id in start..end_excluded {
                 let block = state
-- 
2.43.0

