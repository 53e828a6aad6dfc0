From a18c1c6bae350f1d55eedc5eab710148b82ef4e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:45 +0000
Subject: [PATCH 1/7] fix: reject single-sided deposits on curves that disallow
 deposits

Linear-price and offset pools refuse deposits, but only the two-sided
deposit checked it. When every pool token of such a pool has been burned,
anybody could deposit one side (even zero tokens) and receive a full new
pool-token supply.
---
 programs/token-bonding-curve/src/processor.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/programs/token-bonding-curve/src/processor.rs b/programs/token-bonding-curve/src/processor.rs
index 57efa87..b6d976c 100644
--- a/programs/token-bonding-curve/src/processor.rs
+++ b/programs/token-bonding-curve/src/processor.rs
@@ -740,6 +740,10 @@ impl Processor {
         let token_program_info = next_account_info(account_info_iter)?;
 
         let token_swap = SwapVersion::unpack(&swap_info.data.borrow())?;
+        let calculator = &token_swap.swap_curve().calculator;
+        if !calculator.allows_deposits() {
+            return Err(SwapError::UnsupportedCurveOperation.into());
+        }
         let source_account =
             Self::unpack_token_account(source_info, token_swap.token_program_id())?;
         let swap_token_a =
-- 
2.43.0


From f0a20daa5d380b0df8b177580df6d938bc1e613d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:04 +0000
Subject: [PATCH 2/7] fix: round the price of a sold-out linear buy up

A buy that takes all remaining B tokens was charged the integral rounded to
the nearest A token, so it could pay up to half a token less than the tokens
are worth; every other path rounds in favor of the pool.
---
 programs/token-bonding-curve/src/curve/linear_price.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/programs/token-bonding-curve/src/curve/linear_price.rs b/programs/token-bonding-curve/src/curve/linear_price.rs
index 947abab..65433e5 100644
--- a/programs/token-bonding-curve/src/curve/linear_price.rs
+++ b/programs/token-bonding-curve/src/curve/linear_price.rs
@@ -176,7 +176,12 @@ impl LinearPriceCurve {
         let maximum_b_value =
             b_start.checked_add(&(DFSPreciseNumber::new(swap_destination_amount)?))?;
         let maximum_a_locked = self.amt_a_locked_at_b_value_quadratic(&maximum_b_value)?;
-        let maximum_a_remaining = maximum_a_locked.checked_sub(&a_start)?.to_imprecise()?;
+        // to_imprecise rounds .5- down, make sure to ceiling first so the last B tokens aren't sold for less
+        // than the integral
+        let maximum_a_remaining = maximum_a_locked
+            .checked_sub(&a_start)?
+            .ceiling()?
+            .to_imprecise()?;
 
         if maximum_a_remaining <= source_amount {
             return Some((maximum_a_remaining, swap_destination_amount));
-- 
2.43.0


From 8a3d77585e6a04b52b325bb9ce871535d8fa2731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:41 +0000
Subject: [PATCH 3/7] fix: charge the trade fee of a single-sided withdrawal
 instead of refunding it

The fee on the half that is implicitly swapped was subtracted from the
requested amount, so withdrawing one side got cheaper the higher the trade
fee and diluted the remaining pool token holders. Add it instead. The owner
fee of a swap was converted through the same function; it is converted
directly now, so that it is not charged a trade fee on top.
---
 .../token-bonding-curve/src/curve/base.rs     |  7 +++--
 programs/token-bonding-curve/src/processor.rs | 28 +++++++++++--------
 2 files changed, 21 insertions(+), 14 deletions(-)

diff --git a/programs/token-bonding-curve/src/curve/base.rs b/programs/token-bonding-curve/src/curve/base.rs
index 7a52fb7..38afe4d 100644
--- a/programs/token-bonding-curve/src/curve/base.rs
+++ b/programs/token-bonding-curve/src/curve/base.rs
@@ -150,12 +150,13 @@ impl SwapCurve {
         if source_amount == 0 {
             return Some(0);
         }
-        // Get the trading fee incurred if *half* the source amount is swapped
-        // for the other side. Reference at:
+        // Get the trading fee incurred if *half* the source amount is received
+        // from swapping the other side, which the withdrawer has to pay on top
+        // of the exact amount out. Reference at:
         // https://github.com/balancer-labs/balancer-core/blob/f4ed5d65362a8d6cec21662fb6eae233b0babc1f/contracts/BMath.sol#L117
         let half_source_amount = std::cmp::max(1, source_amount.checked_div(2)?);
         let trade_fee = fees.trading_fee(half_source_amount)?;
-        let source_amount = source_amount.checked_sub(trade_fee)?;
+        let source_amount = source_amount.checked_add(trade_fee)?;
         self.calculator.withdraw_single_token_type_exact_out(
             source_amount,
             swap_token_a_amount,
diff --git a/programs/token-bonding-curve/src/processor.rs b/programs/token-bonding-curve/src/processor.rs
index b6d976c..da16ec8 100644
--- a/programs/token-bonding-curve/src/processor.rs
+++ b/programs/token-bonding-curve/src/processor.rs
@@ -423,17 +423,23 @@ impl Processor {
             to_u64(result.source_amount_swapped)?,
         )?;
 
-        let mut pool_token_amount = token_swap
-            .swap_curve()
-            .withdraw_single_token_type_exact_out(
-                result.owner_fee,
-                swap_token_a_amount,
-                swap_token_b_amount,
-                to_u128(pool_mint.supply)?,
-                trade_direction,
-                token_swap.fees(),
-            )
-            .ok_or(SwapError::FeeCalculationFailure)?;
+        let mut pool_token_amount = if result.owner_fee > 0 {
+            // the owner fee has already been collected, so its conversion into
+            // pool tokens doesn't incur another trade fee
+            token_swap
+                .swap_curve()
+                .calculator
+                .withdraw_single_token_type_exact_out(
+                    result.owner_fee,
+                    swap_token_a_amount,
+                    swap_token_b_amount,
+                    to_u128(pool_mint.supply)?,
+                    trade_direction,
+                )
+                .ok_or(SwapError::FeeCalculationFailure)?
+        } else {
+            0
+        };
 
         if pool_token_amount > 0 {
             // Allow error to fall through
-- 
2.43.0


From 7ce4769af830eaa18f1541933860d35ba46af23d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:41 +0000
Subject: [PATCH 4/7] fix: reject a single-sided deposit of zero tokens into an
 empty pool

With no pool tokens outstanding, depositing nothing minted the full initial
pool-token supply, and with it the claim on whatever the pool still held.
---
 programs/token-bonding-curve/src/processor.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/programs/token-bonding-curve/src/processor.rs b/programs/token-bonding-curve/src/processor.rs
index da16ec8..d8acbce 100644
--- a/programs/token-bonding-curve/src/processor.rs
+++ b/programs/token-bonding-curve/src/processor.rs
@@ -806,7 +806,7 @@ impl Processor {
         if pool_token_amount < minimum_pool_token_amount {
             return Err(SwapError::ExceededSlippage.into());
         }
-        if pool_token_amount == 0 {
+        if pool_token_amount == 0 || source_token_amount == 0 {
             return Err(SwapError::ZeroTradingTokens.into());
         }
 
-- 
2.43.0


From 14f9a6e5809fcd81258100675976047fc70baed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:46 +0000
Subject: [PATCH 5/7] fix: do not overflow when rounding the mantissa of a
 square root up

---
 programs/token-bonding-curve/src/dfs_precise_number.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/programs/token-bonding-curve/src/dfs_precise_number.rs b/programs/token-bonding-curve/src/dfs_precise_number.rs
index f36c2bd..862ab6e 100644
--- a/programs/token-bonding-curve/src/dfs_precise_number.rs
+++ b/programs/token-bonding-curve/src/dfs_precise_number.rs
@@ -297,7 +297,8 @@ impl DFSPreciseNumber {
 
             // we're implicitly multiplying by ONE here (since we converted self.value to u128 directly)
             // so `padded_u128 = real_value * 2^pad_bits / ONE`
-            let padded_u128 = padded_value.as_u64();
+            // (rounding up may have carried into a 65th bit; u64::MAX has the same rounded up root)
+            let padded_u128 = padded_value.min(InnerUint::from(u64::MAX)).as_u64();
 
             // `sqrt_padded_u128 = real_sqrt * sqrt(2^pad_bits) / sqrt(ONE)`
             let sqrt_padded_u128 = Self::sqrt_babylonian(padded_u128, should_round_up)?;
-- 
2.43.0


From c931b462d2cdb53164439e0d8a7265ccbee3aa6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:16 +0000
Subject: [PATCH 6/7] fix: reject stable swaps that take or pay nothing

A stable pool paid out one base unit for an offer of zero whenever its solver
rounded down, and took an offer without paying anything when it was too small.
---
 programs/token-bonding-curve/src/curve/stable.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/programs/token-bonding-curve/src/curve/stable.rs b/programs/token-bonding-curve/src/curve/stable.rs
index 631d909..3a30985 100644
--- a/programs/token-bonding-curve/src/curve/stable.rs
+++ b/programs/token-bonding-curve/src/curve/stable.rs
@@ -2,8 +2,8 @@
 use {
     crate::{
         curve::calculator::{
-            CurveCalculator, DynPack, RoundDirection, SwapWithoutFeesResult, TradeDirection,
-            TradingTokenResult,
+            map_zero_to_none, CurveCalculator, DynPack, RoundDirection, SwapWithoutFeesResult,
+            TradeDirection, TradingTokenResult,
         },
         error::SwapError,
     },
@@ -141,6 +141,7 @@ impl CurveCalculator for StableCurve {
         swap_destination_amount: u128,
         _trade_direction: TradeDirection,
     ) -> Option<SwapWithoutFeesResult> {
+        let source_amount = map_zero_to_none(source_amount)?;
         let leverage = self.amp.checked_mul(N_COINS as u64)?;
 
         let new_source_amount = swap_source_amount.checked_add(source_amount)?;
@@ -150,7 +151,8 @@ impl CurveCalculator for StableCurve {
             compute_d(leverage, swap_source_amount, swap_destination_amount)?,
         )?;
 
-        let amount_swapped = swap_destination_amount.checked_sub(new_destination_amount)?;
+        let amount_swapped =
+            map_zero_to_none(swap_destination_amount.checked_sub(new_destination_amount)?)?;
 
         Some(SwapWithoutFeesResult {
             source_amount_swapped: source_amount,
-- 
2.43.0


From d4cd41ea1176439e87ccf8752b2603a13439766f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:39 +0000
Subject: [PATCH 7/7] fix: convert the whole part of a precise number without
 rounding it up

---
 programs/token-bonding-curve/src/dfs_precise_number.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/programs/token-bonding-curve/src/dfs_precise_number.rs b/programs/token-bonding-curve/src/dfs_precise_number.rs
index 862ab6e..5da4752 100644
--- a/programs/token-bonding-curve/src/dfs_precise_number.rs
+++ b/programs/token-bonding-curve/src/dfs_precise_number.rs
@@ -177,7 +177,7 @@ impl DFSPreciseNumber {
     }
 
     pub fn to_spl_precise_number(&self) -> Option<spl_math::precise_number::PreciseNumber> {
-        let value_u128 = self.to_imprecise()?;
+        let value_u128 = self.floor()?.to_imprecise()?;
         let spl_number = spl_math::precise_number::PreciseNumber::new(value_u128)?;
 
         // add on the decimals manually
-- 
2.43.0

