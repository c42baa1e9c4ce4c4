From b8273ef044e106ee44aa6e428e816512536a9eef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:50:14 +0000
Subject: [PATCH 1/4] fix: scrape native deposits once an ERC20 token is
 registered

---
 minter/src/deposit_logs/scraping.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/minter/src/deposit_logs/scraping.rs b/minter/src/deposit_logs/scraping.rs
index 811e1f7..9b6fc88 100644
--- a/minter/src/deposit_logs/scraping.rs
+++ b/minter/src/deposit_logs/scraping.rs
@@ -36,9 +36,10 @@ impl LogScraping for ReceivedDepositLogScraping {
         ))];
         // We add token contract addresses as additional topics to match.
         // It has a disjunction semantics, so it will match if event matches any one of these addresses.
+        // The zero address stands for native deposits.
         topics.push(
-            token_contract_addresses
-                .iter()
+            std::iter::once(&Address::ZERO)
+                .chain(token_contract_addresses.iter())
                 .map(|address| FixedSizeData(address.into()))
                 .collect::<Vec<_>>()
                 .into(),
-- 
2.43.0


From d7d6635aa4e82e8d7deca397a30f349eda2dd2b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:50:14 +0000
Subject: [PATCH 2/4] fix: keep minting when a native deposit is below the
 deposit fee

---
 minter/src/deposit.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/minter/src/deposit.rs b/minter/src/deposit.rs
index b99641a..783d95e 100644
--- a/minter/src/deposit.rs
+++ b/minter/src/deposit.rs
@@ -78,6 +78,20 @@ async fn mint() {
             ledger_canister_id,
         };
 
+        // A native deposit that does not cover the deposit fee can not be minted.
+        // Dropping the guard quarantines it, so that it does not hold up the other deposits.
+        if is_native_deposit
+            && deposit_native_fee
+                .as_ref()
+                .is_some_and(|fee| event.value() < *fee)
+        {
+            log!(
+                INFO,
+                "Deposit does not cover the deposit fee, quarantining it: {event:?}"
+            );
+            continue;
+        }
+
         // If deposit type is native_deposit and the fees are not set to zero,
         // The minted amount for user should be as follow
         // event.value() - deposit_native_fee
-- 
2.43.0


From 8716160807eaf2af3bddaa904d038a7a0f98776b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:50:14 +0000
Subject: [PATCH 3/4] fix: refuse withdrawals too small for the withdrawal fee
 before taking it

---
 minter/src/main.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/minter/src/main.rs b/minter/src/main.rs
index c0f86bc..971db62 100644
--- a/minter/src/main.rs
+++ b/minter/src/main.rs
@@ -300,7 +300,15 @@ async fn withdraw_native_token(
 
     let mut amount = Wei::try_from(amount).expect("failed to convert Nat to u256");
 
-    let minimum_withdrawal_amount = read_state(|s| s.native_minimum_withdrawal_amount);
+    let mut minimum_withdrawal_amount = read_state(|s| s.native_minimum_withdrawal_amount);
+    // After deducting the withdrawal fee, the ledger must still accept to burn the rest
+    if let Some(withdrawal_fee) = withdrawal_native_fee {
+        minimum_withdrawal_amount = minimum_withdrawal_amount.max(
+            withdrawal_fee
+                .checked_add(native_transfer_fee)
+                .unwrap_or(Wei::MAX),
+        );
+    }
     if amount < minimum_withdrawal_amount {
         return Err(WithdrawalError::AmountTooLow {
             min_withdrawal_amount: minimum_withdrawal_amount.into(),
-- 
2.43.0


From 3763b45da0c65902e18b0f27205b76ff7c6d76ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:50:14 +0000
Subject: [PATCH 4/4] fix: refund the withdrawal fee from the fee collecting
 account

---
 minter/src/ledger_client.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/minter/src/ledger_client.rs b/minter/src/ledger_client.rs
index ea84c52..fd43594 100644
--- a/minter/src/ledger_client.rs
+++ b/minter/src/ledger_client.rs
@@ -297,7 +297,8 @@ impl LedgerClient {
         match self
             .client
             .transfer_from(TransferFromArgs {
-                spender_subaccount: None,
+                // The fees are spent by the account that holds them, which needs no allowance
+                spender_subaccount: Some(FEES_SUBACCOUNT),
                 from: Account {
                     owner: ic_cdk::id(),
                     subaccount: Some(FEES_SUBACCOUNT),
-- 
2.43.0

