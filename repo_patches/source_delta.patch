From 71380e6ead964f840a8b84547368555b07b50dec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:36 +0000
Subject: [PATCH 01/11] fix: never move the harvest calculation back when
 vested tokens get staked

---
 programs/farming/src/models/farmer.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/programs/farming/src/models/farmer.rs b/programs/farming/src/models/farmer.rs
index de065ab..c5866dc 100644
--- a/programs/farming/src/models/farmer.rs
+++ b/programs/farming/src/models/farmer.rs
@@ -166,7 +166,14 @@ impl Farmer {
                 self.set_harvests(farmer_harvests)?;
                 // and take a note that we calculated harvest until this
                 // point
-                self.calculate_next_harvest_from = snapshot.started_at;
+                //
+                // The farmer could have already been updated in the very same
+                // slot in which the snapshot was then taken. The calculation is
+                // inclusive of that slot, so we must not go back.
+                self.calculate_next_harvest_from = cmp::max(
+                    self.calculate_next_harvest_from,
+                    snapshot.started_at,
+                );
 
                 // mark funds which are beyond vesting period as staked
                 self.staked.amount = self
-- 
2.43.0


From 8093c091f1d89e62425ac1a953f40fc6f6a25382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:36 +0000
Subject: [PATCH 02/11] fix: find the first snapshot after a slot which
 precedes the whole history

---
 programs/farming/src/models/farm.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/programs/farming/src/models/farm.rs b/programs/farming/src/models/farm.rs
index 1a0fd2a..ca88cef 100644
--- a/programs/farming/src/models/farm.rs
+++ b/programs/farming/src/models/farm.rs
@@ -335,7 +335,12 @@ impl Farm {
             .skip(inverted_tip)
             .take(consts::SNAPSHOTS_LEN)
             .find(|(_, s)| s.started_at <= slot)
-            .map(|(index, _)| index)?;
+            .map(|(index, _)| index);
+        let pos = match pos {
+            Some(pos) => pos,
+            // the whole history is more recent than the slot
+            None => return Some(self.oldest_snapshot()),
+        };
 
         Some(if pos == consts::SNAPSHOTS_LEN - 1 {
             self.snapshots.ring_buffer[0]
-- 
2.43.0


From f9d362c366dd6aeb2bf8d17c78bfb6816ed885b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:51 +0000
Subject: [PATCH 03/11] fix: enforce the harvest periods history limit in all
 but dev builds

The check was enabled by a feature `prod` which the program doesn't have, so
that periods still needed to calculate harvest could be dropped.
---
 programs/farming/src/models/farm.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/programs/farming/src/models/farm.rs b/programs/farming/src/models/farm.rs
index ca88cef..df2131c 100644
--- a/programs/farming/src/models/farm.rs
+++ b/programs/farming/src/models/farm.rs
@@ -272,8 +272,10 @@ impl Farm {
         // already initialized as a fixed number length array of default
         // elements so unwrap `.last()` is safe
         let oldest_period = harvest.periods.last().unwrap();
-        let is_oldest_period_initialized = if cfg!(any(feature = "prod", test))
-        {
+        let is_oldest_period_initialized = if cfg!(any(
+            not(feature = "dev"),
+            test
+        )) {
             // if the oldest period is within the current snapshot history,
             // we are unable to update its value, the admin already passed the
             // allowed max number of possible configuration updates
-- 
2.43.0


From a574d78f53c7554eda71e676f419eb16a47c3bbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:51 +0000
Subject: [PATCH 04/11] fix: accept harvest periods which last a single slot

---
 programs/farming/src/models/farm.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/programs/farming/src/models/farm.rs b/programs/farming/src/models/farm.rs
index df2131c..edcc54a 100644
--- a/programs/farming/src/models/farm.rs
+++ b/programs/farming/src/models/farm.rs
@@ -223,8 +223,9 @@ impl Farm {
 
         let (starts_at, ends_at) = period;
 
-        if starts_at >= ends_at {
-            msg!("New harvest period must start before it ends");
+        // both slots are inclusive, a period can last a single slot
+        if starts_at > ends_at {
+            msg!("New harvest period cannot end before it starts");
             return Err(error!(
                 FarmingError::HarvestPeriodCannotHaveNegativeLength
             ));
-- 
2.43.0


From 913db337c61266da48405d8251b1e4f06e62853f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:52 +0000
Subject: [PATCH 05/11] fix: update the target farmer before compounding into
 it

Adding to vested tokens resets the slot at which they were deposited. If the
earlier vested tokens aren't moved to the staked ones first, they have to wait
for yet another snapshot and their harvest since the last one is lost.
---
 programs/farming/src/endpoints/compound_across_farms.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/programs/farming/src/endpoints/compound_across_farms.rs b/programs/farming/src/endpoints/compound_across_farms.rs
index 3c3e13c..6a71616 100644
--- a/programs/farming/src/endpoints/compound_across_farms.rs
+++ b/programs/farming/src/endpoints/compound_across_farms.rs
@@ -94,6 +94,11 @@ pub fn handle(ctx: Context<CompoundAcrossFarms>) -> Result<()> {
     accounts
         .source_farmer
         .check_vested_period_and_update_harvest(&source_farm, current_slot)?;
+    // the tokens which the target farmer staked earlier must not start vesting
+    // again just because more tokens are added to them now
+    accounts
+        .target_farmer
+        .check_vested_period_and_update_harvest(&target_farm, current_slot)?;
 
     // get all harvestable tokens of the farmer and add them to their vested
     // tokens
-- 
2.43.0


From 5fc541789ee7af946a357c12c2b7db228c0606b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:26 +0000
Subject: [PATCH 06/11] fix: never deposit more tokens than the user's maximum

---
 programs/amm/src/models/pool.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/programs/amm/src/models/pool.rs b/programs/amm/src/models/pool.rs
index d9d5cf8..ff01d3c 100644
--- a/programs/amm/src/models/pool.rs
+++ b/programs/amm/src/models/pool.rs
@@ -240,6 +240,10 @@ impl Pool {
             let tokens_to_deposit = reserves
                 .into_iter()
                 .map(|(mint, token_reserve)| {
+                    let max_amount = max_tokens
+                        .get(&mint)
+                        .ok_or(AmmError::InvariantViolation)?
+                        .amount;
                     let amount = if !is_inverted {
                         Decimal::from(token_reserve)
                             .try_mul(ratio)?
@@ -251,6 +255,9 @@ impl Pool {
                             // we ceil to prevent deposit of 0 tokens
                             .try_ceil()?
                     };
+                    // the ratio is rounded, which must not cost the user more
+                    // than what they agreed to
+                    let amount = amount.min(max_amount);
 
                     Ok((mint, TokenAmount { amount }))
                 })
-- 
2.43.0


From e74812567424eb88dd0c406ea71fffbd9e5ea5d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:42 +0000
Subject: [PATCH 07/11] fix: mint LP tokens for the smallest share which is
 deposited

---
 programs/amm/src/models/pool.rs | 35 ++++++++++++++++++++++-----------
 1 file changed, 23 insertions(+), 12 deletions(-)

diff --git a/programs/amm/src/models/pool.rs b/programs/amm/src/models/pool.rs
index ff01d3c..47e0cda 100644
--- a/programs/amm/src/models/pool.rs
+++ b/programs/amm/src/models/pool.rs
@@ -473,20 +473,31 @@ impl Pool {
         debug_assert_ne!(lp_mint_supply, TokenAmount::new(0));
         debug_assert_eq!(tokens_deposited.len(), self.dimension as usize);
 
-        let any_reserve = self.reserves[0];
-        let reserve_deposit = tokens_deposited
-            .get(&any_reserve.mint)
+        // The deposited amounts are rounded to whole tokens, so the deposit of
+        // one reserve can be relatively larger than that of another. The
+        // smallest share is what the deposit is worth.
+        let tokens = self
+            .reserves()
+            .iter()
+            .map(|reserve| {
+                let reserve_deposit = tokens_deposited
+                    .get(&reserve.mint)
+                    .ok_or(AmmError::InvariantViolation)?;
+
+                Ok(TokenAmount::new(
+                    try_mul_div(
+                        Decimal::from(lp_mint_supply.amount),
+                        Decimal::from(reserve_deposit.amount),
+                        Decimal::from(reserve.tokens.amount),
+                    )?
+                    .try_floor()?,
+                ))
+            })
+            .collect::<Result<Vec<_>>>()?
+            .into_iter()
+            .min()
             .ok_or(AmmError::InvariantViolation)?;
 
-        let tokens = TokenAmount::new(
-            try_mul_div(
-                Decimal::from(lp_mint_supply.amount),
-                Decimal::from(reserve_deposit.amount),
-                Decimal::from(any_reserve.tokens.amount),
-            )?
-            .try_floor()?,
-        );
-
         Ok(if tokens.amount == 0 {
             None
         } else {
-- 
2.43.0


From b3c11eec65c90fbc9d20f73392c35e8ff01cc1ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:17 +0000
Subject: [PATCH 08/11] fix: swaps of reserves above 10^18 pay one token too
 much

The balance left after a constant product swap was rounded down at the 18th
decimal. Once the reserve sold into exceeds 10^18 that is enough to pay out
the next whole token, which lowers the product of the reserves.
---
 programs/amm/src/models/pool.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/programs/amm/src/models/pool.rs b/programs/amm/src/models/pool.rs
index 47e0cda..1f66e85 100644
--- a/programs/amm/src/models/pool.rs
+++ b/programs/amm/src/models/pool.rs
@@ -660,7 +660,14 @@ impl Pool {
                     .collect();
 
                 let k = fold_product(&tokens_deposits_before_swap)?;
-                k.try_div(product)?
+                let balance = k.try_div(product)?;
+                // what stays in the pool is rounded up, otherwise reserves
+                // above 10^18 could pay out more than the curve allows
+                if balance.try_mul(product)? < k {
+                    balance.try_add(Decimal::from_scaled_val(1))?
+                } else {
+                    balance
+                }
             }
             Curve::Stable {
                 amplifier,
-- 
2.43.0


From 12ef8ddd76caef11e2d9b9d4c95d663b574a20f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:17 +0000
Subject: [PATCH 09/11] fix: balanced stable pools can neither be deposited to
 nor redeemed from

If the reserves are (almost) the same, then the initial guess of Newton's
method is its solution. The polynomial was then negative or zero only up to
rounding of decimals, which failed either as overflow or as violation of
an invariant. All endpoints which recompute the invariant failed with it.
---
 .../amm/src/math/stable_curve_invariant.rs    | 58 +++++++++----------
 1 file changed, 27 insertions(+), 31 deletions(-)

diff --git a/programs/amm/src/math/stable_curve_invariant.rs b/programs/amm/src/math/stable_curve_invariant.rs
index 54b8686..058034d 100644
--- a/programs/amm/src/math/stable_curve_invariant.rs
+++ b/programs/amm/src/math/stable_curve_invariant.rs
@@ -123,7 +123,6 @@ impl StableCurveInvariant {
 
         for _ in 0..MAX_ITERATIONS {
             prev_val = new_val;
-            new_val = self.newton_method_single_iteration(&prev_val)?;
             // We proved by algebraic manipulations that given a first initial
             // guess coinciding with the sum of token reserve
             // balances, then sum(x_i) >= positive_zero where
@@ -131,35 +130,17 @@ impl StableCurveInvariant {
             // polynomial. Moreover, the method is decreasing on
             // each iteration. Therefore, in order to check that the method
             // converges, we only need to check that (prev_iter - next_iter) <=
-            // adm_err. Given this assumption, it is impossible that prev_val <
-            // new_val and the only case where equality holds is when
-            // prev_val is a precise root of the polynomial.
-            // Notice also that if x is a root of the stable polynomial,
-            // applying Newton method to it will result in getting x again,
-            // and the reciprocal statement holds true, so it is an equivalence.
-            // Thus, the following checks are sufficient to guarantee
-            // full logic coverage.
-            if prev_val <= new_val {
-                let is_val_root_stable_poly = self
-                    .get_stable_swap_polynomial(&prev_val)?
-                    == Decimal::zero();
-
-                if is_val_root_stable_poly {
-                    return prev_val.try_mul(self.scl_down_coef);
-                } else {
-                    // in this case, prev_val is not a root of the polynomial,
-                    // and therefore having prev_val <=
-                    // new_val would violate our
-                    // mathematical assumptions
-                    msg!(
-                        "Invalid mathematical assumption: \
-                        previous value cannot be less or equal to new value"
-                    );
-                    return Err(error!(AmmError::InvariantViolation));
-                }
+            // adm_err. Once the polynomial, which only has this one positive
+            // zero and is negative below it, isn't positive anymore, we have
+            // reached the zero. Since decimals are rounded, this happens not
+            // only if prev_val is a precise root of the polynomial. Most
+            // notably the sum itself is the zero if the pool is balanced.
+            if self.has_reached_stable_swap_polynomial_root(&prev_val)? {
+                break;
             }
+            new_val = self.newton_method_single_iteration(&prev_val)?;
 
-            // assuming that prev_val >= new_val, we just need to check that
+            // given that prev_val >= new_val, we just need to check that
             // prev_val - new_val <= adm_error
             if prev_val.try_sub(new_val)? <= admissible_error {
                 break;
@@ -184,14 +165,29 @@ impl StableCurveInvariant {
 
     // Stable swap polynomial to be found in README.md under AMM - Equations
     fn get_stable_swap_polynomial(&self, val: &Decimal) -> Result<Decimal> {
+        self.get_stable_swap_polynomial_positive_terms(val)?
+            .try_sub(self.polynomial_third_term)
+    }
+
+    fn get_stable_swap_polynomial_positive_terms(
+        &self,
+        val: &Decimal,
+    ) -> Result<Decimal> {
         // D^(n+1) + D(An^n -1)\prod_i x_i n^n + A(n^n)^2\sum_i x_i \prod_i x_i
         let first_term = val.try_pow(self.exponent + 1)?;
 
         let second_term = val.try_mul(self.first_order_coeff)?;
 
-        first_term
-            .try_add(second_term)?
-            .try_sub(self.polynomial_third_term)
+        first_term.try_add(second_term)
+    }
+
+    // The value of the polynomial isn't positive
+    fn has_reached_stable_swap_polynomial_root(
+        &self,
+        val: &Decimal,
+    ) -> Result<bool> {
+        Ok(self.get_stable_swap_polynomial_positive_terms(val)?
+            <= self.polynomial_third_term)
     }
 
     // Derivative of stable swap polynomial to be found in README.md under AMM -
-- 
2.43.0


From 0da81a92c36aee9c97a946f214f2c6e47cf4a548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:51 +0000
Subject: [PATCH 10/11] fix: invariants of stable pools are off by up to a
 percent

Newton's method stopped once the last step was at most half a token, but the
steps are scaled down by a thousand for every three digits of the reserves. In
a pool of 400000 and 2000000 tokens with an amplifier of 1 the invariant was
0.7% too high, which is what traders were underpaid.
---
 programs/amm/src/math/stable_curve_invariant.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/programs/amm/src/math/stable_curve_invariant.rs b/programs/amm/src/math/stable_curve_invariant.rs
index 058034d..759f597 100644
--- a/programs/amm/src/math/stable_curve_invariant.rs
+++ b/programs/amm/src/math/stable_curve_invariant.rs
@@ -111,9 +111,10 @@ impl StableCurveInvariant {
 
     fn compute(self) -> Result<Decimal> {
         // acts as a threshold for the difference between successive
-        // approximations
-        let admissible_error: Decimal =
-            Decimal::from(1u64).try_div(Decimal::from(2u64)).unwrap();
+        // approximations, which are scaled down: half a token
+        let admissible_error: Decimal = Decimal::from(1u64)
+            .try_div(Decimal::from(2u64))?
+            .try_div(self.scl_down_coef)?;
 
         // our initial guess is the scaled down sum of token reserve balances
         let mut prev_val = self.initial_guess;
-- 
2.43.0


From 263c011cd78387152ffde61abf40163e41d2a316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:48 +0000
Subject: [PATCH 11/11] fix: swaps in pools of three and four large reserves
 don't overflow

---
 programs/amm/src/models/pool.rs | 37 +++++++++++++++++++++++----------
 1 file changed, 26 insertions(+), 11 deletions(-)

diff --git a/programs/amm/src/models/pool.rs b/programs/amm/src/models/pool.rs
index 1f66e85..7f27a68 100644
--- a/programs/amm/src/models/pool.rs
+++ b/programs/amm/src/models/pool.rs
@@ -650,20 +650,22 @@ impl Pool {
             })
             .collect();
 
-        let product = fold_product(&sold_or_neutral_token_balances_after_swap)?;
-
         let bought_token_balance_after_swap = match self.curve {
             Curve::ConstProd => {
-                let tokens_deposits_before_swap: Vec<Decimal> = reserves
-                    .values()
-                    .map(|v| Decimal::from(v.amount))
-                    .collect();
-
-                let k = fold_product(&tokens_deposits_before_swap)?;
-                let balance = k.try_div(product)?;
+                // all other reserves are the same before and after the swap,
+                // therefore they don't have any effect on the price and we
+                // leave them out, because the product of more than two
+                // reserves doesn't necessarily fit into a decimal
+                let sell_tokens = *reserves.get(&sell_mint).unwrap();
+                let buy_tokens = *reserves.get(&buy_mint).unwrap();
+                let k = Decimal::from(sell_tokens.amount)
+                    .try_mul(Decimal::from(buy_tokens.amount))?;
+                let sell_tokens_after_swap = Decimal::from(sell_tokens.amount)
+                    .try_add(Decimal::from(tokens_to_swap.amount))?;
+                let balance = k.try_div(sell_tokens_after_swap)?;
                 // what stays in the pool is rounded up, otherwise reserves
                 // above 10^18 could pay out more than the curve allows
-                if balance.try_mul(product)? < k {
+                if balance.try_mul(sell_tokens_after_swap)? < k {
                     balance.try_add(Decimal::from_scaled_val(1))?
                 } else {
                     balance
@@ -677,9 +679,21 @@ impl Pool {
                 let d: Decimal = invariant.into();
                 let num_reserves = reserves.len() as u64;
 
+                // the product of three balances doesn't necessarily fit into
+                // a decimal, so we scale everything down first
+                let scale_down_out = scale_down_value(d)?;
+                let d = scale_down_out.scale_down;
+                let scale_down_coef = Decimal::from(1000u64)
+                    .try_pow(scale_down_out.exponent as u64)?;
+                let balances = sold_or_neutral_token_balances_after_swap
+                    .into_iter()
+                    .map(|balance| Ok(balance.try_div(scale_down_coef)?))
+                    .collect::<Result<Vec<_>>>()?;
+
                 // we shall need to compute the sum of all token deposits except
                 // for the base mint
-                let sum = fold_sum(&sold_or_neutral_token_balances_after_swap)?;
+                let sum = fold_sum(&balances)?;
+                let product = fold_product(&balances)?;
 
                 get_buy_reserve_balance_after_swap(
                     num_reserves,
@@ -688,6 +702,7 @@ impl Pool {
                     sum,
                     product,
                 )?
+                .try_mul(scale_down_coef)?
             }
         };
 
-- 
2.43.0

