From 34cf0e77e8692cdaaae8d4e9f71ae620afac08b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:07 +0000
Subject: [PATCH 1/2] fix: round division by price up exactly, also at prices
 above 10^18

---
 contracts/sumtree-orderbook/src/tick_math.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/contracts/sumtree-orderbook/src/tick_math.rs b/contracts/sumtree-orderbook/src/tick_math.rs
index 06db154..8e49d6d 100644
--- a/contracts/sumtree-orderbook/src/tick_math.rs
+++ b/contracts/sumtree-orderbook/src/tick_math.rs
@@ -121,18 +121,23 @@ pub fn divide_by_price(
     price: Decimal256,
     rounding_direction: RoundingDirection,
 ) -> ContractResult<Uint256> {
-    let amount_to_send_dec256 = Decimal256::from_ratio(amount, Uint256::one()).checked_div(price);
+    // Divide as integers rather than as decimals: a decimal quotient is truncated to 18 decimals,
+    // which loses the remainder that rounding up depends on (at prices above 10^18 all of it).
+    let price_atomics = price.atomics();
     ensure!(
-        amount_to_send_dec256.is_ok(),
+        !price_atomics.is_zero(),
         ContractError::Overflow(OverflowError {
             operation: OverflowOperation::Mul,
             operand1: amount.to_string(),
             operand2: price.to_string(),
         })
     );
-    let amount_to_send = rounding_direction.round(amount_to_send_dec256?);
+    let mut numerator = Decimal256::from_ratio(amount, Uint256::one()).atomics();
+    if matches!(rounding_direction, RoundingDirection::Up) {
+        numerator = numerator.checked_add(price_atomics.checked_sub(Uint256::one())?)?;
+    }
 
-    Ok(amount_to_send)
+    Ok(numerator.checked_div(price_atomics)?)
 }
 
 /// Converts a tick amount to it's value given a price and order direction
-- 
2.43.0


From eb391ac62e0a3e9a3faf1008349b90321918a322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:07 +0000
Subject: [PATCH 2/2] fix: let governance sudo messages through while the order
 book is inactive

---
 contracts/sumtree-orderbook/src/sudo.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/contracts/sumtree-orderbook/src/sudo.rs b/contracts/sumtree-orderbook/src/sudo.rs
index 30614e7..3ef292d 100644
--- a/contracts/sumtree-orderbook/src/sudo.rs
+++ b/contracts/sumtree-orderbook/src/sudo.rs
@@ -20,7 +20,15 @@ use crate::{
 #[cfg_attr(not(feature = "imported"), entry_point)]
 pub fn sudo(deps: DepsMut, env: Env, msg: SudoMsg) -> ContractResult<Response> {
     // Ensure orderbook is active
-    ensure_is_active(deps.as_ref())?;
+    // The active switch does not apply to governance messages, which must be able to turn it back on
+    if matches!(
+        msg,
+        SudoMsg::SwapExactAmountIn { .. }
+            | SudoMsg::SwapToTick { .. }
+            | SudoMsg::SwapExactAmountOut { .. }
+    ) {
+        ensure_is_active(deps.as_ref())?;
+    }
 
     match msg {
         SudoMsg::SwapExactAmountIn {
-- 
2.43.0

