From 05dc743e261758646c0b9370e9e98bc6fbe7fe37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:49 +0000
Subject: [PATCH] fix: reject crossing limit orders placed with free funds
 unless the market is active

Orders that use only deposited funds settle against the trader's free funds, so
the matching engine response never has lots out and the market status check in
process_new_order was skipped: a crossing PlaceLimitOrderWithFreeFunds executed
while the market was in post-only status. Decide from the matched lots instead.
---
 src/program/processor/new_order.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/program/processor/new_order.rs b/src/program/processor/new_order.rs
index d236ed0..9cac274 100644
--- a/src/program/processor/new_order.rs
+++ b/src/program/processor/new_order.rs
@@ -380,6 +380,7 @@ fn process_new_order<'a, 'info>(
         quote_atoms_to_deposit,
         base_atoms_to_withdraw,
         base_atoms_to_deposit,
+        order_matched,
     ) = {
         let clock = Clock::get()?;
         let mut get_clock_fn = || (clock.slot, clock.unix_timestamp as u64);
@@ -425,13 +426,16 @@ fn process_new_order<'a, 'info>(
             matching_engine_response.get_deposit_amount_bid_in_quote_lots() * quote_lot_size,
             matching_engine_response.num_base_lots_out * base_lot_size,
             matching_engine_response.get_deposit_amount_ask_in_base_lots() * base_lot_size,
+            // Orders that use only deposited funds never have lots out, so the lots in are also considered
+            matching_engine_response.num_base_lots() > BaseLots::ZERO
+                || matching_engine_response.num_quote_lots() > QuoteLots::ZERO,
         )
     };
     let header = market_info.get_header()?;
     let quote_params = &header.quote_params;
     let base_params = &header.base_params;
 
-    if quote_atoms_to_withdraw > QuoteAtoms::ZERO || base_atoms_to_withdraw > BaseAtoms::ZERO {
+    if order_matched {
         let status = MarketStatus::from(header.status);
         assert_with_msg(
             status.cross_allowed(),
-- 
2.43.0

