From 36f66c97815d81832d035d0836033be6ae6a66f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:12 +0000
Subject: [PATCH 1/3] fix: keep the isolated debt tracker at WAD precision from
 market creation

---
 controller/src/router.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/controller/src/router.rs b/controller/src/router.rs
index 722bd17..179f425 100644
--- a/controller/src/router.rs
+++ b/controller/src/router.rs
@@ -171,7 +171,7 @@ pub trait RouterModule:
         is_siloed: bool,
         flashloan_enabled: bool,
         can_borrow_in_isolation: bool,
-        asset_decimals: usize,
+        _asset_decimals: usize,
         borrow_cap_wad: BigUint,
         supply_cap_wad: BigUint,
     ) -> ManagedAddress {
@@ -200,7 +200,7 @@ pub trait RouterModule:
 
         // Init ManagedDecimal for future usage and avoiding storage decode errors for checks
         self.isolated_asset_debt_usd(&base_asset)
-            .set(self.to_decimal(BigUint::zero(), asset_decimals));
+            .set(self.wad_zero());
 
         require!(
             liquidation_threshold_bps > ltv,
-- 
2.43.0


From 7feea2216c7f9795afc609b542340ca4054f5535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:03 +0000
Subject: [PATCH 2/3] fix: count a debt only once when a liquidation pays it in
 several transfers of one token

---
 controller/src/positions/liquidation.rs | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/controller/src/positions/liquidation.rs b/controller/src/positions/liquidation.rs
index 42fe9f1..ea21bd7 100644
--- a/controller/src/positions/liquidation.rs
+++ b/controller/src/positions/liquidation.rs
@@ -548,7 +548,13 @@ pub trait PositionLiquidationModule:
         >,
     ) {
         let mut total_repaid = self.ray_zero();
-        let mut repaid_tokens = ManagedVec::new();
+        let mut repaid_tokens: ManagedVec<
+            MultiValue3<
+                EgldOrEsdtTokenPayment,
+                ManagedDecimal<Self::Api, NumDecimals>,
+                PriceFeedShort<Self::Api>,
+            >,
+        > = ManagedVec::new();
         for payment_ref in repayments {
             let token_price_feed = self.token_price(&payment_ref.token_identifier, cache);
             let original_borrow_position =
@@ -560,8 +566,19 @@ pub trait PositionLiquidationModule:
                 self.token_egld_value_ray(&payment_amount_decimal, &token_price_feed.price_wad);
 
             let outstanding_debt_ray = self.total_amount_ray(&original_borrow_position, cache);
-            let outstanding_debt_egld_ray =
+            let mut outstanding_debt_egld_ray =
                 self.token_egld_value_ray(&outstanding_debt_ray, &token_price_feed.price_wad);
+            // Earlier payments in the same token already cover a part of this debt
+            for repaid in &repaid_tokens {
+                let (repaid_payment, repaid_egld_ray, _) = repaid.clone().into_tuple();
+                if repaid_payment.token_identifier == payment_ref.token_identifier {
+                    outstanding_debt_egld_ray -= repaid_egld_ray;
+                }
+            }
+            if outstanding_debt_egld_ray == self.ray_zero() {
+                refunds.push(payment_ref.clone());
+                continue;
+            }
             let mut adjusted_payment = payment_ref.clone();
             if payment_egld_value_ray > outstanding_debt_egld_ray {
                 let excess_egld_ray = payment_egld_value_ray - outstanding_debt_egld_ray.clone();
-- 
2.43.0


From 988d91424e1b649b664396a401784424ef3e31e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:13 +0000
Subject: [PATCH 3/3] fix: reject liquidation payments worth nothing instead of
 seizing the estimated maximum

---
 controller/src/positions/liquidation.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/controller/src/positions/liquidation.rs b/controller/src/positions/liquidation.rs
index ea21bd7..d1698f3 100644
--- a/controller/src/positions/liquidation.rs
+++ b/controller/src/positions/liquidation.rs
@@ -107,6 +107,12 @@ pub trait PositionLiquidationModule:
             cache,
         );
 
+        // Payments worth nothing must not be read as "no payment given", which estimates the maximum
+        require!(
+            debt_payments.is_empty() || debt_payment_in_egld_ray > self.ray_zero(),
+            ERROR_NO_DEBT_PAYMENTS_TO_PROCESS
+        );
+
         let (liquidation_collateral, total_collateral, _) =
             self.calculate_collateral_values(&deposit_positions, cache);
         let (proportional_weighted, bonus_weighted) =
-- 
2.43.0

