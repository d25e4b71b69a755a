From 0dba443a3db5ebbb613182be38b2e5fe2bf44614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:07 +0000
Subject: [PATCH 1/7] fix: min/max of decimals stored at different scales

ManagedDecimal's ordering is inverted when the left operand has more
decimals than the right one, so min returned the larger and max the
smaller operand for such pairs.
---
 common/math/src/math.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/common/math/src/math.rs b/common/math/src/math.rs
index a07b3d9..1d51fe3 100644
--- a/common/math/src/math.rs
+++ b/common/math/src/math.rs
@@ -225,7 +225,14 @@ pub trait SharedMathModule {
         a: ManagedDecimal<Self::Api, NumDecimals>,
         b: ManagedDecimal<Self::Api, NumDecimals>,
     ) -> ManagedDecimal<Self::Api, NumDecimals> {
-        if a < b {
+        // `ManagedDecimal` orders operands of different scales correctly only
+        // when the left one has the fewer decimals.
+        let a_is_smaller = if a.scale() > b.scale() {
+            b > a
+        } else {
+            a < b
+        };
+        if a_is_smaller {
             a
         } else {
             b
@@ -239,7 +246,12 @@ pub trait SharedMathModule {
         a: ManagedDecimal<Self::Api, NumDecimals>,
         b: ManagedDecimal<Self::Api, NumDecimals>,
     ) -> ManagedDecimal<Self::Api, NumDecimals> {
-        if a > b {
+        let a_is_larger = if a.scale() > b.scale() {
+            b < a
+        } else {
+            a > b
+        };
+        if a_is_larger {
             a
         } else {
             b
-- 
2.43.0


From 143f8c81b208f8e4d86a0896a01531d6ec0414d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:13 +0000
Subject: [PATCH 2/7] fix: count each debt once when a liquidation pays it in
 several parts

Every payment of a liquidation was compared with the full outstanding
debt, so two payments in the same token could both count up to the whole
debt: the second was refunded by the market, but its value still bought
collateral.
---
 controller/src/positions/liquidation.rs | 26 +++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/controller/src/positions/liquidation.rs b/controller/src/positions/liquidation.rs
index 42fe9f1..da5a818 100644
--- a/controller/src/positions/liquidation.rs
+++ b/controller/src/positions/liquidation.rs
@@ -548,7 +548,13 @@ pub trait PositionLiquidationModule:
         >,
     ) {
         let mut total_repaid = self.ray_zero();
-        let mut repaid_tokens = ManagedVec::new();
+        let mut repaid_tokens: ManagedVec<
+            MultiValue3<
+                EgldOrEsdtTokenPayment,
+                ManagedDecimal<Self::Api, NumDecimals>,
+                PriceFeedShort<Self::Api>,
+            >,
+        > = ManagedVec::new();
         for payment_ref in repayments {
             let token_price_feed = self.token_price(&payment_ref.token_identifier, cache);
             let original_borrow_position =
@@ -560,8 +566,24 @@ pub trait PositionLiquidationModule:
                 self.token_egld_value_ray(&payment_amount_decimal, &token_price_feed.price_wad);
 
             let outstanding_debt_ray = self.total_amount_ray(&original_borrow_position, cache);
-            let outstanding_debt_egld_ray =
+            let mut outstanding_debt_egld_ray =
                 self.token_egld_value_ray(&outstanding_debt_ray, &token_price_feed.price_wad);
+
+            // A debt can only be repaid once: what earlier payments in the same
+            // token already cover is no longer outstanding.
+            let mut already_paid = false;
+            for repaid in &repaid_tokens {
+                let (payment, value_egld_ray, _) = repaid.clone().into_tuple();
+                if payment.token_identifier == payment_ref.token_identifier {
+                    already_paid = true;
+                    outstanding_debt_egld_ray -= value_egld_ray;
+                }
+            }
+            if already_paid && outstanding_debt_egld_ray == self.ray_zero() {
+                refunds.push(payment_ref.clone());
+                continue;
+            }
+
             let mut adjusted_payment = payment_ref.clone();
             if payment_egld_value_ray > outstanding_debt_egld_ray {
                 let excess_egld_ray = payment_egld_value_ray - outstanding_debt_egld_ray.clone();
-- 
2.43.0


From 2a503622b8f73ded9090db763e0262aabd3cb549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:41 +0000
Subject: [PATCH 3/7] fix: check the supply cap on what the market owes after
 the deposit

The check used the market's recorded totals, which leave out the
protocol's share of the interest accrued since the last update, so a
deposit could lift the supplied value above the cap.
---
 controller/src/positions/supply.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/controller/src/positions/supply.rs b/controller/src/positions/supply.rs
index 15379ae..fe9f4a5 100644
--- a/controller/src/positions/supply.rs
+++ b/controller/src/positions/supply.rs
@@ -70,7 +70,6 @@ pub trait PositionDepositModule:
                 &position_attributes,
             );
             let price_feed = self.token_price(&deposit_payment.token_identifier, cache);
-            self.validate_supply_cap(&asset_info, &deposit_payment, &price_feed, cache);
 
             self.update_deposit_position(
                 account_nonce,
@@ -81,6 +80,10 @@ pub trait PositionDepositModule:
                 &price_feed,
                 cache,
             );
+
+            // Checked after the deposit, when the market has also recorded the
+            // protocol's share of the interest accrued since its last update.
+            self.validate_supply_cap(&asset_info, &deposit_payment, &price_feed, cache);
         }
     }
 
@@ -433,7 +436,7 @@ pub trait PositionDepositModule:
     /// **Mathematical Validation**:
     /// ```
     /// total_supplied = (total_supply_scaled * supply_index) / RAY_PRECISION
-    /// require(total_supplied + deposit_amount <= supply_cap)
+    /// require(total_supplied <= supply_cap)
     /// ```
     ///
     /// **Note**: supply_cap is stored in asset decimals (e.g., for USDC with 6 decimals,
@@ -441,7 +444,7 @@ pub trait PositionDepositModule:
     ///
     /// # Arguments
     /// - `asset_info`: Asset configuration containing optional supply cap in asset decimals
-    /// - `deposit_payment`: Deposit payment with amount to validate
+    /// - `deposit_payment`: Deposit payment, already credited in the market
     /// - `feed`: Price feed for decimal conversion
     /// - `cache`: Storage cache for pool address and market index access
     fn validate_supply_cap(
@@ -463,7 +466,7 @@ pub trait PositionDepositModule:
                 );
 
                 require!(
-                    total_supplied.into_raw_units() + &deposit_payment.amount <= *supply_cap,
+                    *total_supplied.into_raw_units() <= *supply_cap,
                     ERROR_SUPPLY_CAP
                 );
             },
-- 
2.43.0


From 14d685176a6bd97bcaa3632913fb3c67194076c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:11 +0000
Subject: [PATCH 4/7] fix: keep the weighted liquidation bonus within its
 maximum

---
 controller/src/positions/liquidation.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/controller/src/positions/liquidation.rs b/controller/src/positions/liquidation.rs
index da5a818..678fd83 100644
--- a/controller/src/positions/liquidation.rs
+++ b/controller/src/positions/liquidation.rs
@@ -1,4 +1,4 @@
-use common_constants::{RAY_PRECISION, WAD_PRECISION};
+use common_constants::{MAX_LIQUIDATION_BONUS, RAY_PRECISION, WAD_PRECISION};
 use common_structs::{AccountPosition, AccountPositionType, PriceFeedShort};
 
 use crate::{cache::Cache, helpers, oracle, proxy_pool, storage, utils, validation};
@@ -716,7 +716,14 @@ pub trait PositionLiquidationModule:
             );
         }
 
-        (proportion_seized, weighted_bonus)
+        // Portfolio weights are rounded and can add up to slightly more than one,
+        // so the weighted bonus must be kept within the documented maximum.
+        let max_bonus = self
+            .to_decimal_bps(BigUint::from(MAX_LIQUIDATION_BONUS))
+            .rescale(RAY_PRECISION);
+        let base_bonus = self.min(weighted_bonus, max_bonus);
+
+        (proportion_seized, base_bonus)
     }
 
     /// Calculates optimal liquidation amounts using a sophisticated Dutch auction mechanism.
-- 
2.43.0


From ee43d345005cd934b32ca32d07a767ac770133e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:20 +0000
Subject: [PATCH 5/7] fix: report a market's reserves after a strategy's funds
 left it

---
 liquidity_layer/src/liquidity.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/liquidity_layer/src/liquidity.rs b/liquidity_layer/src/liquidity.rs
index ef2de53..221df2f 100644
--- a/liquidity_layer/src/liquidity.rs
+++ b/liquidity_layer/src/liquidity.rs
@@ -467,11 +467,11 @@ pub trait LiquidityModule:
 
         self.internal_add_protocol_revenue(&mut cache, strategy_fee.clone());
 
-        self.emit_market_update(&cache, price);
-
         // Send the net amount (after fee deduction) to the user
         self.send_asset(&cache, &amount_to_send, &self.blockchain().get_caller());
 
+        self.emit_market_update(&cache, price);
+
         position
     }
 
-- 
2.43.0


From d56de4fc8ce0403c60007499a2e74d61ab0a9f77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:39 +0000
Subject: [PATCH 6/7] fix: credit suppliers exactly their rewards when the
 supply index is low

---
 common/rates/src/rates.rs | 28 ++++++++++++----------------
 1 file changed, 12 insertions(+), 16 deletions(-)

diff --git a/common/rates/src/rates.rs b/common/rates/src/rates.rs
index 9dc0e35..f787ccd 100644
--- a/common/rates/src/rates.rs
+++ b/common/rates/src/rates.rs
@@ -184,16 +184,14 @@ pub trait InterestRates: common_math::SharedMathModule {
     /// **Goal**: Ensure suppliers' yields reflect their share of interest earned.
     ///
     /// **Formula**:
-    /// - `current_total_supplied_value_ray = cache.supplied * old_supply_index`
-    /// - `rewards_ratio = rewards_increase_ray / current_total_supplied_value_ray` (if `current_total_supplied_value_ray > 0`).
-    /// - `rewards_factor = 1 + rewards_ratio`.
-    /// - `new_supply_index = old_supply_index * rewards_factor`.
+    /// - `new_supply_index = old_supply_index + rewards_increase_ray / supplied_ray` (if `supplied_ray > 0`),
+    ///   i.e. `old_supply_index * (1 + rewards_increase_ray / (supplied_ray * old_supply_index))`.
     ///
     /// # Arguments
     /// - `cache`: Mutable reference to pool state (`Cache<Self>`), holding supplied amount and supply index.
     /// - `rewards_increase`: Net rewards for suppliers (`ManagedDecimal<Self::Api, NumDecimals>`), RAY-based.
     ///
-    /// **Security Tip**: Skips update if `cache.supplied == 0` (which implies `current_total_supplied_value_ray` would be zero if `old_supply_index` is not zero, or if `old_supply_index` is zero) to avoid division-by-zero.
+    /// **Security Tip**: Skips update if `supplied == 0` to avoid division-by-zero.
     fn update_supply_index(
         &self,
         supplied: ManagedDecimal<Self::Api, NumDecimals>,
@@ -201,17 +199,15 @@ pub trait InterestRates: common_math::SharedMathModule {
         rewards_increase: ManagedDecimal<Self::Api, NumDecimals>,
     ) -> ManagedDecimal<Self::Api, NumDecimals> {
         if supplied != self.ray_zero() && rewards_increase != self.ray_zero() {
-            let total_supplied_with_interest =
-                self.mul_half_up(&supplied, &old_supply_index, RAY_PRECISION);
-            let rewards_ratio = self.div_half_up(
-                &rewards_increase,
-                &total_supplied_with_interest,
-                RAY_PRECISION,
-            );
-
-            let rewards_factor = self.ray() + rewards_ratio;
-
-            return self.mul_half_up(&old_supply_index, &rewards_factor, RAY_PRECISION);
+            // old_supply_index * (1 + rewards / (supplied * old_supply_index)), without the
+            // intermediate product: after a bad debt took the index down to its floor that
+            // product keeps no significant digits. Rounded down, so that the suppliers are
+            // never credited more than the rewards.
+            let index_increase =
+                rewards_increase.into_raw_units().clone() * self.ray().into_raw_units()
+                    / supplied.into_raw_units();
+
+            return old_supply_index + self.to_decimal(index_increase, RAY_PRECISION);
         }
         return old_supply_index;
     }
-- 
2.43.0


From c373c35081f1f4a28554b4b4b1a9963ed7fb58fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:52 +0000
Subject: [PATCH 7/7] fix: keep a market usable once a bad debt left its supply
 worth nothing

---
 liquidity_layer/src/cache/mod.rs | 13 +++++--------
 liquidity_layer/src/utils.rs     |  5 +++++
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/liquidity_layer/src/cache/mod.rs b/liquidity_layer/src/cache/mod.rs
index d899b48..9a86581 100644
--- a/liquidity_layer/src/cache/mod.rs
+++ b/liquidity_layer/src/cache/mod.rs
@@ -134,14 +134,11 @@ where
     ///
     /// **Security Tip**: Handles division-by-zero by returning 0 when `supplied` is zero.
     pub fn calculate_utilization(&self) -> ManagedDecimal<C::Api, NumDecimals> {
-        if self.supplied_ray == self.sc_ref.ray_zero() {
-            self.sc_ref.ray_zero()
-        } else {
-            let total_borrowed = self.calculate_original_borrow_ray(&self.borrowed_ray);
-            let total_supplied = self.calculate_original_supply_ray(&self.supplied_ray);
-            self.sc_ref
-                .div_half_up(&total_borrowed, &total_supplied, RAY_PRECISION)
-        }
+        let total_borrowed = self.calculate_original_borrow_ray(&self.borrowed_ray);
+        let total_supplied = self.calculate_original_supply_ray(&self.supplied_ray);
+
+        // After a bad debt a non-zero scaled supply can be worth nothing
+        self.sc_ref.utilization(&total_borrowed, &total_supplied)
     }
 
     /// Calculates the effective reserves available (reserves minus protocol revenue).
diff --git a/liquidity_layer/src/utils.rs b/liquidity_layer/src/utils.rs
index e9305d3..ef78fdc 100644
--- a/liquidity_layer/src/utils.rs
+++ b/liquidity_layer/src/utils.rs
@@ -68,6 +68,11 @@ pub trait UtilsModule:
     ) {
         // Calculate total supplied value in RAY precision
         let total_supplied_value_ray = cache.calculate_original_supply_ray(&cache.supplied_ray);
+        // Nothing left to write down
+        if total_supplied_value_ray == self.ray_zero() {
+            return;
+        }
+
         // Convert bad debt to RAY precision
         // Cap bad debt to available value (prevent negative results)
         let capped_bad_debt_ray = self.min(bad_debt_amount_ray, total_supplied_value_ray.clone());
-- 
2.43.0

