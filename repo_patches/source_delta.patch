From 222ee22e506db78b510b7e02611cfa60d3fe6c66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:50 +0000
Subject: [PATCH 01/21] fix: integer power of a negative base takes the sign
 from the exponent parity

The accumulator started at -1 for a negative base, so (-2)^2 was -4, (-2)^1 was
+2 and (-2)^0 was -1.
---
 programs/hmmcl-sandbox/src/decimal.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/programs/hmmcl-sandbox/src/decimal.rs b/programs/hmmcl-sandbox/src/decimal.rs
index 8ee79bd..dea6c86 100644
--- a/programs/hmmcl-sandbox/src/decimal.rs
+++ b/programs/hmmcl-sandbox/src/decimal.rs
@@ -500,7 +500,7 @@ impl Pow<u128> for Decimal {
         let one = Decimal {
             value: self.denominator(),
             scale: self.scale,
-            negative: self.negative,
+            negative: false,
         };
 
         if exp == 0 {
-- 
2.43.0


From e271b972e324d9511da393ff5456e425e6502266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:50 +0000
Subject: [PATCH 02/21] fix: integer power no longer squares the base once more
 than needed

The squaring after the last exponent bit overflowed and aborted although the
result itself is representable, e.g. (10^10)^2 at scale 0.
---
 programs/hmmcl-sandbox/src/decimal.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/programs/hmmcl-sandbox/src/decimal.rs b/programs/hmmcl-sandbox/src/decimal.rs
index dea6c86..7ae6820 100644
--- a/programs/hmmcl-sandbox/src/decimal.rs
+++ b/programs/hmmcl-sandbox/src/decimal.rs
@@ -516,7 +516,9 @@ impl Pow<u128> for Decimal {
                 result = result.mul(base);
             }
             current_exp /= 2;
-            base = base.mul(base);
+            if current_exp > 0 {
+                base = base.mul(base);
+            }
         }
         return result;
     }
-- 
2.43.0


From 47a25cdc1721f8119e5ca0ae344ace2ecc968e25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:50 +0000
Subject: [PATCH 03/21] fix: comparisons treat a zero that carries a sign as
 zero

Signed multiplication and division can produce a zero with the negative flag
set; it compared unequal to, and less than, zero.
---
 programs/hmmcl-sandbox/src/decimal.rs | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/programs/hmmcl-sandbox/src/decimal.rs b/programs/hmmcl-sandbox/src/decimal.rs
index 7ae6820..f7243b1 100644
--- a/programs/hmmcl-sandbox/src/decimal.rs
+++ b/programs/hmmcl-sandbox/src/decimal.rs
@@ -569,7 +569,7 @@ impl Compare<Decimal> for Decimal {
         if !(self.scale == other.scale) {
             return Err(ErrorCode::DifferentScale.into());
         } else {
-            Ok(self.value == other.value && self.negative == other.negative)
+            Ok(self.value == other.value && self.is_negative() == other.is_negative())
         }
     }
 
@@ -578,11 +578,11 @@ impl Compare<Decimal> for Decimal {
         if !(self.scale == other.scale) {
             return Err(ErrorCode::DifferentScale.into());
         } else {
-            if self.negative && other.negative {
+            if self.is_negative() && other.is_negative() {
                 Ok(self.value > other.value)
-            } else if self.negative && !other.negative {
+            } else if self.is_negative() && !other.is_negative() {
                 Ok(true)
-            } else if !self.negative && other.negative {
+            } else if !self.is_negative() && other.is_negative() {
                 Ok(false)
             } else {
                 Ok(self.value < other.value)
@@ -595,11 +595,11 @@ impl Compare<Decimal> for Decimal {
         if !(self.scale == other.scale) {
             return Err(ErrorCode::DifferentScale.into());
         } else {
-            if self.negative && other.negative {
+            if self.is_negative() && other.is_negative() {
                 Ok(self.value < other.value)
-            } else if self.negative && !other.negative {
+            } else if self.is_negative() && !other.is_negative() {
                 Ok(false)
-            } else if !self.negative && other.negative {
+            } else if !self.is_negative() && other.is_negative() {
                 Ok(true)
             } else {
                 Ok(self.value > other.value)
@@ -612,11 +612,11 @@ impl Compare<Decimal> for Decimal {
         if !(self.scale == other.scale) {
             return Err(ErrorCode::DifferentScale.into());
         } else {
-            if self.negative && other.negative {
+            if self.is_negative() && other.is_negative() {
                 Ok(self.value <= other.value)
-            } else if self.negative && !other.negative {
+            } else if self.is_negative() && !other.is_negative() {
                 Ok(false)
-            } else if !self.negative && other.negative {
+            } else if !self.is_negative() && other.is_negative() {
                 Ok(true)
             } else {
                 Ok(self.value >= other.value)
@@ -629,11 +629,11 @@ impl Compare<Decimal> for Decimal {
         if !(self.scale == other.scale) {
             return Err(ErrorCode::DifferentScale.into());
         } else {
-            if self.negative && other.negative {
+            if self.is_negative() && other.is_negative() {
                 Ok(self.value >= other.value)
-            } else if self.negative && !other.negative {
+            } else if self.is_negative() && !other.is_negative() {
                 Ok(true)
-            } else if !self.negative && other.negative {
+            } else if !self.is_negative() && other.is_negative() {
                 Ok(false)
             } else {
                 Ok(self.value <= other.value)
-- 
2.43.0


From 4aac3750986d3daf2d13d6db55b2c5c9eb8ae01e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:50 +0000
Subject: [PATCH 04/21] fix: to_scale_up keeps the sign of a negative value

---
 programs/hmmcl-sandbox/src/decimal.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/programs/hmmcl-sandbox/src/decimal.rs b/programs/hmmcl-sandbox/src/decimal.rs
index f7243b1..6e66f9c 100644
--- a/programs/hmmcl-sandbox/src/decimal.rs
+++ b/programs/hmmcl-sandbox/src/decimal.rs
@@ -145,13 +145,13 @@ impl Decimal {
             decimal.div_up(Self::new(
                 10u128.pow((self.scale.checked_sub(scale).unwrap()).try_into().unwrap()),
                 0,
-                self.negative,
+                false,
             ))
         } else {
             decimal.mul_up(Self::new(
                 10u128.pow((scale.checked_sub(self.scale).unwrap()).try_into().unwrap()),
                 0,
-                self.negative,
+                false,
             ))
         }
     }
-- 
2.43.0


From ce453f37025c3e4b152863c3da8ae87a97a9e798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:50 +0000
Subject: [PATCH 05/21] fix: square root of a negative value is an error

It returned the negated root of the absolute value.
---
 programs/hmmcl-sandbox/src/decimal.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/programs/hmmcl-sandbox/src/decimal.rs b/programs/hmmcl-sandbox/src/decimal.rs
index 6e66f9c..95a2471 100644
--- a/programs/hmmcl-sandbox/src/decimal.rs
+++ b/programs/hmmcl-sandbox/src/decimal.rs
@@ -1003,6 +1003,10 @@ impl Sqrt<Decimal> for Decimal {
             return Err(ErrorCode::ExceedsRange.into());
         }
 
+        if self.is_negative() {
+            return Err(ErrorCode::SignedDecimalsNotSupported.into());
+        }
+
         if self.eq(zero).unwrap() || self.eq(one).unwrap() {
             return Ok(self.clone());
         }
-- 
2.43.0


From 493d84b27de032ba9945f2a86ec931b0d48f8952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:50 +0000
Subject: [PATCH 06/21] fix: powers of ten used for rescaling are checked in
 every build profile

10u128.pow wraps when overflow checks are off (the release profile used on
chain), so a scale above 38 produced a wrong value instead of an abort.
---
 programs/hmmcl-sandbox/src/decimal.rs | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/programs/hmmcl-sandbox/src/decimal.rs b/programs/hmmcl-sandbox/src/decimal.rs
index 95a2471..71dd563 100644
--- a/programs/hmmcl-sandbox/src/decimal.rs
+++ b/programs/hmmcl-sandbox/src/decimal.rs
@@ -125,11 +125,11 @@ impl Decimal {
         Self {
             value: if self.scale > scale {
                 self.value
-                    .checked_div(10u128.pow((self.scale.checked_sub(scale).unwrap()).into()))
+                    .checked_div(10u128.checked_pow((self.scale.checked_sub(scale).unwrap()).into()).expect("checked_pow"))
                     .expect("scaled_down")
             } else {
                 self.value
-                    .checked_mul(10u128.pow((scale.checked_sub(self.scale).unwrap()).into()))
+                    .checked_mul(10u128.checked_pow((scale.checked_sub(self.scale).unwrap()).into()).expect("checked_pow"))
                     .expect("scaled_up")
             },
             scale,
@@ -143,13 +143,17 @@ impl Decimal {
         let decimal = Self::new(self.value, scale, self.negative);
         if self.scale >= scale {
             decimal.div_up(Self::new(
-                10u128.pow((self.scale.checked_sub(scale).unwrap()).try_into().unwrap()),
+                10u128
+                    .checked_pow((self.scale.checked_sub(scale).unwrap()).into())
+                    .expect("checked_pow"),
                 0,
                 false,
             ))
         } else {
             decimal.mul_up(Self::new(
-                10u128.pow((scale.checked_sub(self.scale).unwrap()).try_into().unwrap()),
+                10u128
+                    .checked_pow((scale.checked_sub(self.scale).unwrap()).into())
+                    .expect("checked_pow"),
                 0,
                 false,
             ))
@@ -163,7 +167,7 @@ impl Decimal {
 
     /// Show the scale of a [Decimal] expressed as a power of 10.
     pub fn denominator(self) -> u128 {
-        10u128.pow(self.scale.into())
+        10u128.checked_pow(self.scale.into()).expect("checked_pow")
     }
 
     /// Returns true if [Decimal] is positive and false if the number is zero or negative.
@@ -429,11 +433,11 @@ impl DivScale<Decimal> for Decimal {
             self.value
                 .checked_div(rhs.value)
                 .expect("checked_div")
-                .checked_div(10u128.pow(decimal_difference.try_into().unwrap()))
+                .checked_div(10u128.checked_pow(decimal_difference.try_into().unwrap()).expect("checked_pow"))
                 .expect("checked_div")
         } else {
             self.value
-                .checked_mul(10u128.pow((-decimal_difference).try_into().unwrap()))
+                .checked_mul(10u128.checked_pow((-decimal_difference).try_into().unwrap()).expect("checked_pow"))
                 .expect("checked_mul")
                 .checked_div(rhs.value)
                 .expect("checked_div")
-- 
2.43.0


From a2dab8fa1749c1be5506a3508d4a35ffe739d2f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:50 +0000
Subject: [PATCH 07/21] fix: conversion to i32 fails instead of truncating a
 large value

---
 programs/hmmcl-sandbox/src/decimal.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/programs/hmmcl-sandbox/src/decimal.rs b/programs/hmmcl-sandbox/src/decimal.rs
index 71dd563..341395d 100644
--- a/programs/hmmcl-sandbox/src/decimal.rs
+++ b/programs/hmmcl-sandbox/src/decimal.rs
@@ -560,7 +560,8 @@ impl Into<f64> for Decimal {
 impl Into<i32> for Decimal {
     fn into(self) -> i32 {
         let sign = if self.negative { -1i32 } else { 1i32 };
-        (self.value as i32)
+        let value: i32 = self.value.try_into().expect("signed integer");
+        value
             .checked_mul(sign)
             .expect("signed integer")
     }
-- 
2.43.0


From 94b2ca5b010ead9a7ab99d844e829586303d2c83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:50 +0000
Subject: [PATCH 08/21] fix: rp_to_tick_loop is the inverse of tick_to_rp

Rounding down, a price exactly at a tick gave the tick below, and the iterated
product drifted from the root price tick_to_rp gives for the same tick.
---
 programs/hmmcl-sandbox/src/cl_pool/cl_math.rs | 22 ++++++++++++-------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/programs/hmmcl-sandbox/src/cl_pool/cl_math.rs b/programs/hmmcl-sandbox/src/cl_pool/cl_math.rs
index 0212fb2..882556a 100644
--- a/programs/hmmcl-sandbox/src/cl_pool/cl_math.rs
+++ b/programs/hmmcl-sandbox/src/cl_pool/cl_math.rs
@@ -47,18 +47,24 @@ pub trait PoolMath {
     }
 
     fn rp_to_tick_loop(rp: Decimal, left_to_right: bool, start: u128) -> u128 {
-        let m = Self::tick_base_root();
-        let mut rez = m.pow(start);
         let mut x = start;
         let result = loop {
-            rez = rez.mul(m);
-            if rez.gte(rp).unwrap() {
-                match left_to_right {
-                    true => break x.checked_add(1).unwrap(),
-                    false => break x,
+            // use the same root price as tick_to_rp, so that both conversions agree
+            let next = x.checked_add(1).unwrap();
+            let rez = Self::tick_to_rp(next);
+            match left_to_right {
+                true => {
+                    if rez.gte(rp).unwrap() {
+                        break next;
+                    }
+                }
+                false => {
+                    if rez.gt(rp).unwrap() {
+                        break x;
+                    }
                 }
             }
-            x = x.checked_add(1).unwrap();
+            x = next;
         };
         result
     }
-- 
2.43.0


From bb1f5b734a18413ae62daa2aee1e4a1071a5265a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:50 +0000
Subject: [PATCH 09/21] fix: a new position does not collect fees earned before
 it existed

The fee checkpoint of a new position was zero instead of the current fee growth
in its range, so its first touch paid out fees that belong to other positions.
---
 programs/hmmcl-sandbox/src/cl_pool/mod.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/programs/hmmcl-sandbox/src/cl_pool/mod.rs b/programs/hmmcl-sandbox/src/cl_pool/mod.rs
index ef9d991..2d832a9 100644
--- a/programs/hmmcl-sandbox/src/cl_pool/mod.rs
+++ b/programs/hmmcl-sandbox/src/cl_pool/mod.rs
@@ -428,11 +428,7 @@ impl<'a> Pool<'a> {
                 self.positions.insert(
                     key,
                     PositionState::new(
-                        liq_delta,
-                        Self::zero(),
-                        Self::zero(),
-                        Self::zero(),
-                        Self::zero(),
+                        liq_delta, new_fr_x, new_fr_y, new_hr_x, new_hr_y,
                     ),
                 );
             }
-- 
2.43.0


From 7ae2f46ea472157dac0e1fcd9a690f5882495894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:50 +0000
Subject: [PATCH 10/21] fix: a swap that ends without crossing a tick stays on
 its side of that tick

A swap ending exactly at the goal tick moved the current tick past it without
applying its net liquidity, so the liquidity in range no longer matched the
positions; the search also underflowed at tick 0.
---
 programs/hmmcl-sandbox/src/cl_pool/mod.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/programs/hmmcl-sandbox/src/cl_pool/mod.rs b/programs/hmmcl-sandbox/src/cl_pool/mod.rs
index 2d832a9..8224c84 100644
--- a/programs/hmmcl-sandbox/src/cl_pool/mod.rs
+++ b/programs/hmmcl-sandbox/src/cl_pool/mod.rs
@@ -695,7 +695,8 @@ impl<'a> Pool<'a> {
             fee_x = dx.sub(dx_max).unwrap(); // fee as expected
             cross = false;
             end_rp = Pool::rp_new_from_l_dx(liq, start_rp, done_dx);
-            end_t = Pool::rp_to_tick_loop(end_rp, false, goal_tick - 1);
+            // no tick is crossed here, so stay between the goal tick and the current tick
+            end_t = Pool::rp_to_tick_loop(end_rp, false, goal_tick).min(self.glbl_tick());
             // * this loop happens only once per trade if price ends in-between ticks
             // * tick is always on the left (round down after 'log')
 
@@ -957,9 +958,8 @@ impl<'a> Pool<'a> {
             fee_y = dy.sub(dy_max).unwrap(); // fee as expected
             cross = false;
             end_rp = Pool::rp_new_from_l_dy(liq, start_rp, done_dy);
-            // start seeking the goal from tick under current tick, that can be initialized
-            let seek_start = self.tick_to_possible_tick(self.glbl_tick() - 1, false);
-            end_t = Pool::rp_to_tick_loop(end_rp, false, seek_start);
+            // no tick is crossed here, so stay between the current tick and the goal tick
+            end_t = Pool::rp_to_tick_loop(end_rp, false, self.glbl_tick()).min(goal_tick - 1);
             // * this log is take only once per trade if price ends in-between ticks
             // * tick is always on the left (round down after log)
 
-- 
2.43.0


From d0d860864b85e5516be46819b5c45908199aaf9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:50 +0000
Subject: [PATCH 11/21] fix: swaps to the right work from a current tick that
 is not a multiple of the spacing

The rounded start tick was compared with the unrounded current tick, which
aborted every such swap once a swap had ended between two possible ticks.
---
 programs/hmmcl-sandbox/src/cl_pool/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/programs/hmmcl-sandbox/src/cl_pool/mod.rs b/programs/hmmcl-sandbox/src/cl_pool/mod.rs
index 8224c84..006625a 100644
--- a/programs/hmmcl-sandbox/src/cl_pool/mod.rs
+++ b/programs/hmmcl-sandbox/src/cl_pool/mod.rs
@@ -242,6 +242,7 @@ impl<'a> Pool<'a> {
 
         // get to initializable tick. we use False here to round down
         let start_tick = self.tick_to_possible_tick(start_t, false);
+        let glbl_tick = self.tick_to_possible_tick(glbl_tick, false);
 
         if start_tick == glbl_tick {
             // we've already technically crossed this tick (left-to-right) i.e.
-- 
2.43.0


From 9cd1e1a5ef0bc6402b0384a7bbe7cb1816c5b2c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:50 +0000
Subject: [PATCH 12/21] fix: crossing the lowest tick aborts instead of
 wrapping around

---
 programs/hmmcl-sandbox/src/cl_pool/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/programs/hmmcl-sandbox/src/cl_pool/mod.rs b/programs/hmmcl-sandbox/src/cl_pool/mod.rs
index 006625a..bbd7bce 100644
--- a/programs/hmmcl-sandbox/src/cl_pool/mod.rs
+++ b/programs/hmmcl-sandbox/src/cl_pool/mod.rs
@@ -213,7 +213,10 @@ impl<'a> Pool<'a> {
         if left_to_right {
             self.set_glbl_tick(provided_tick);
         } else {
-            self.set_glbl_tick(self.tick_to_possible_tick(provided_tick - 1, left_to_right))
+            self.set_glbl_tick(self.tick_to_possible_tick(
+                provided_tick.checked_sub(1).expect("no tick below"),
+                left_to_right,
+            ))
         }
 
         // adjust global liquidity
-- 
2.43.0


From da8309c21ed1747a96b182231981589c86c295eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:50 +0000
Subject: [PATCH 13/21] fix: deposits round the debited amounts up

Rounding down let a user offer one token at a time and receive liquidity without
being debited anything, which withdrawals then pay out of the other deposits.
---
 programs/hmmcl-sandbox/src/instructions/deposit.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/programs/hmmcl-sandbox/src/instructions/deposit.rs b/programs/hmmcl-sandbox/src/instructions/deposit.rs
index 3c6dbcc..e660a72 100644
--- a/programs/hmmcl-sandbox/src/instructions/deposit.rs
+++ b/programs/hmmcl-sandbox/src/instructions/deposit.rs
@@ -305,18 +305,18 @@ pub fn handle(
     // transfer to vault
     token::transfer(
         ctx.accounts.transfer_user_token_x_to_vault(),
-        x_debited.abs(),
+        x_debited.abs_up(),
     )?;
 
     // transfer to vault
     token::transfer(
         ctx.accounts.transfer_user_token_y_to_vault(),
-        y_debited.abs(),
+        y_debited.abs_up(),
     )?;
 
     emit!(LiquidityAdded {
-        tokens_x_transferred: x_debited.abs(),
-        tokens_y_transferred: y_debited.abs(),
+        tokens_x_transferred: x_debited.abs_up(),
+        tokens_y_transferred: y_debited.abs_up(),
         lp_tokens_minted: liquidity_delta.abs(),
     });
 
-- 
2.43.0


From 7ab19cd7de7d401404b11ed2e2b521b89e1ab5cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:50 +0000
Subject: [PATCH 14/21] fix: fee sums of deposits and withdrawals are checked
 for overflow

---
 programs/hmmcl-sandbox/src/instructions/deposit.rs  | 4 ++--
 programs/hmmcl-sandbox/src/instructions/withdraw.rs | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/programs/hmmcl-sandbox/src/instructions/deposit.rs b/programs/hmmcl-sandbox/src/instructions/deposit.rs
index e660a72..992bfcd 100644
--- a/programs/hmmcl-sandbox/src/instructions/deposit.rs
+++ b/programs/hmmcl-sandbox/src/instructions/deposit.rs
@@ -264,10 +264,10 @@ pub fn handle(
 
     // offset fee amounts from deposit amounts: this will be the amount debited from user
     let x_debited = x_in
-        .sub(Decimal::new(new_fee.f_x + new_fee.h_x, new_fee.fee_scale, false).to_scale(x_in.scale))
+        .sub(Decimal::new(new_fee.f_x.checked_add(new_fee.h_x).unwrap(), new_fee.fee_scale, false).to_scale(x_in.scale))
         .unwrap();
     let y_debited = y_in
-        .sub(Decimal::new(new_fee.f_y + new_fee.h_y, new_fee.fee_scale, false).to_scale(y_in.scale))
+        .sub(Decimal::new(new_fee.f_y.checked_add(new_fee.h_y).unwrap(), new_fee.fee_scale, false).to_scale(y_in.scale))
         .unwrap();
 
     if x_debited.gt(x).unwrap() {
diff --git a/programs/hmmcl-sandbox/src/instructions/withdraw.rs b/programs/hmmcl-sandbox/src/instructions/withdraw.rs
index 4af12c6..08bd999 100644
--- a/programs/hmmcl-sandbox/src/instructions/withdraw.rs
+++ b/programs/hmmcl-sandbox/src/instructions/withdraw.rs
@@ -248,12 +248,12 @@ pub fn handle(
     // add fees on top of what user would receive
     let x_credited = x_out
         .add(
-            Decimal::new(new_fee.f_x + new_fee.h_x, new_fee.fee_scale, false).to_scale(x_out.scale),
+            Decimal::new(new_fee.f_x.checked_add(new_fee.h_x).unwrap(), new_fee.fee_scale, false).to_scale(x_out.scale),
         )
         .unwrap();
     let y_credited = y_out
         .add(
-            Decimal::new(new_fee.f_y + new_fee.h_y, new_fee.fee_scale, false).to_scale(y_out.scale),
+            Decimal::new(new_fee.f_y.checked_add(new_fee.h_y).unwrap(), new_fee.fee_scale, false).to_scale(y_out.scale),
         )
         .unwrap();
 
-- 
2.43.0


From ca00a68da22a45dd8ab760a5700827bbdc420ee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:57 +0000
Subject: [PATCH 15/21] fix: x amounts computed from liquidity round in favour
 of the pool

The product of the two root prices was rounded down in a denominator, so the x
amount needed for a liquidity came out above the amount it was computed from and
every deposit below the price range was aborted; payouts of x could also exceed
what the liquidity is worth.
---
 programs/hmmcl-sandbox/src/cl_pool/cl_math.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/programs/hmmcl-sandbox/src/cl_pool/cl_math.rs b/programs/hmmcl-sandbox/src/cl_pool/cl_math.rs
index 882556a..2a15c9e 100644
--- a/programs/hmmcl-sandbox/src/cl_pool/cl_math.rs
+++ b/programs/hmmcl-sandbox/src/cl_pool/cl_math.rs
@@ -156,7 +156,7 @@ pub trait PoolMath {
         let rp = rp.min(rpb).max(rpa);
 
         let rpb_minus_rp = rpb.sub(rp).unwrap();
-        let rp_mul_rpb = rp.mul(rpb);
+        let rp_mul_rpb = rp.mul_up(rpb);
 
         // l * (rpb - rp) / (rp * rpb)
         l.mul(rpb_minus_rp).div(rp_mul_rpb)
@@ -267,7 +267,7 @@ pub trait PoolMath {
             panic!("root price should not be nil");
         }
         let diff = rp_old.sub(rp_new).unwrap();
-        let old_mul_new = rp_old.mul(rp_new);
+        let old_mul_new = rp_old.mul_up(rp_new);
 
         l.mul(diff).div(old_mul_new)
     }
-- 
2.43.0


From 1993d96654d67c641fcf8c8206f71d6ec52aec05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:46 +0000
Subject: [PATCH 16/21] fix: positions can be opened on a range whose fee
 growth is negative

Fee growth inside a range is relative to when its ticks were initialized, and is
negative when only the upper tick was initialized before fees were earned beyond
it; the deposit was aborted. Only differences of it are ever paid out.
---
 .../hmmcl-sandbox/src/cl_pool/cl_components.rs     |  3 ---
 programs/hmmcl-sandbox/src/cl_pool/mod.rs          | 14 ++++++++------
 2 files changed, 8 insertions(+), 9 deletions(-)

diff --git a/programs/hmmcl-sandbox/src/cl_pool/cl_components.rs b/programs/hmmcl-sandbox/src/cl_pool/cl_components.rs
index fef37b5..06e7dec 100644
--- a/programs/hmmcl-sandbox/src/cl_pool/cl_components.rs
+++ b/programs/hmmcl-sandbox/src/cl_pool/cl_components.rs
@@ -196,9 +196,6 @@ impl PositionState {
         if liq.is_negative() {
             panic!("position liquidity cannot be negative");
         }
-        if fr_x.is_negative() || fr_y.is_negative() || hr_x.is_negative() || hr_y.is_negative() {
-            panic!("fee cannot be negative");
-        }
         Self {
             liq,
             fr_x,
diff --git a/programs/hmmcl-sandbox/src/cl_pool/mod.rs b/programs/hmmcl-sandbox/src/cl_pool/mod.rs
index bbd7bce..039c79c 100644
--- a/programs/hmmcl-sandbox/src/cl_pool/mod.rs
+++ b/programs/hmmcl-sandbox/src/cl_pool/mod.rs
@@ -386,12 +386,9 @@ impl<'a> Pool<'a> {
         assert_eq!(sum_lwr, sum_upr);
         let fg = sum_lwr;
 
-        let fee_earned = fg.sub(f_blw_lwr).unwrap().sub(f_abv_upr).unwrap();
-        if fee_earned.is_negative() {
-            panic!("fees earned cannot be negative");
-        }
-
-        fee_earned
+        // can be negative, as fees outside are relative to when each tick was initialized:
+        // only the difference between two points in time is meaningful
+        fg.sub(f_blw_lwr).unwrap().sub(f_abv_upr).unwrap()
     }
 
     fn _set_position(
@@ -429,6 +426,11 @@ impl<'a> Pool<'a> {
                     // abort if withdrawal liq exceeds position liquidity
                     panic!("cannot newly provide negative liquidity");
                 }
+                // nothing is uncollected yet
+                old_fr_x = new_fr_x;
+                old_fr_y = new_fr_y;
+                old_hr_x = new_hr_x;
+                old_hr_y = new_hr_y;
                 self.positions.insert(
                     key,
                     PositionState::new(
-- 
2.43.0


From 63cfa80998d07c673ac67469eae7c6609bf6c3b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:23 +0000
Subject: [PATCH 17/21] fix: deposit and withdraw do not write the current tick
 account back

The current tick may be the lower or the upper tick of the range; the
stale copy of the account then overwrote the liquidity just recorded.
---
 programs/hmmcl-sandbox/src/instructions/deposit.rs  | 1 -
 programs/hmmcl-sandbox/src/instructions/withdraw.rs | 1 -
 2 files changed, 2 deletions(-)

diff --git a/programs/hmmcl-sandbox/src/instructions/deposit.rs b/programs/hmmcl-sandbox/src/instructions/deposit.rs
index 992bfcd..76fb65e 100644
--- a/programs/hmmcl-sandbox/src/instructions/deposit.rs
+++ b/programs/hmmcl-sandbox/src/instructions/deposit.rs
@@ -66,7 +66,6 @@ pub struct Deposit<'info> {
     pub upper_tick_state: Box<Account<'info, TickState>>,
 
     #[account(
-        mut,
         seeds = [b"tick", pool_state.key().as_ref(), current_tick.to_le_bytes().as_ref()],
         bump = current_tick_state.bump,
         constraint = current_tick_state.tick == current_tick,
diff --git a/programs/hmmcl-sandbox/src/instructions/withdraw.rs b/programs/hmmcl-sandbox/src/instructions/withdraw.rs
index 08bd999..7e99770 100644
--- a/programs/hmmcl-sandbox/src/instructions/withdraw.rs
+++ b/programs/hmmcl-sandbox/src/instructions/withdraw.rs
@@ -68,7 +68,6 @@ pub struct Withdraw<'info> {
     pub upper_tick_state: Box<Account<'info, TickState>>,
 
     #[account(
-        mut,
         seeds = [b"tick", pool_state.key().as_ref(), current_tick.to_le_bytes().as_ref()],
         bump = current_tick_state.bump,
         constraint = current_tick_state.tick == current_tick,
-- 
2.43.0


From d91916a25f3fa7f387aaa69b05287428f2ee4756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:12 +0000
Subject: [PATCH 18/21] fix: keep the digits a small positive exponent leaves
 behind the point (1.55e1 parsed as 15)

---
 programs/hmmcl-sandbox/src/decimal.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/programs/hmmcl-sandbox/src/decimal.rs b/programs/hmmcl-sandbox/src/decimal.rs
index 341395d..905b9ae 100644
--- a/programs/hmmcl-sandbox/src/decimal.rs
+++ b/programs/hmmcl-sandbox/src/decimal.rs
@@ -257,7 +257,7 @@ impl Decimal {
 
         let scale = (decimal_offset - exp).abs() as u8;
 
-        if exp.is_positive() {
+        if exp.is_positive() && exp >= decimal_offset {
             Ok(Decimal::new(
                 Decimal::from_str(base.as_str())
                     .expect("decimal of base")
-- 
2.43.0


From 4ff183b6a5efbfe84688b9be8ab4a44750e2a8ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:12 +0000
Subject: [PATCH 19/21] fix: refuse a scale or exponent that does not fit
 instead of wrapping it (1e-256 parsed as 1)

---
 programs/hmmcl-sandbox/src/decimal.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/programs/hmmcl-sandbox/src/decimal.rs b/programs/hmmcl-sandbox/src/decimal.rs
index 905b9ae..92dd0c2 100644
--- a/programs/hmmcl-sandbox/src/decimal.rs
+++ b/programs/hmmcl-sandbox/src/decimal.rs
@@ -255,22 +255,24 @@ impl Decimal {
             }
         };
 
-        let scale = (decimal_offset - exp).abs() as u8;
-
         if exp.is_positive() && exp >= decimal_offset {
+            let exp: u8 = exp.try_into().expect("exponent out of range");
+
             Ok(Decimal::new(
                 Decimal::from_str(base.as_str())
                     .expect("decimal of base")
-                    .to_scale(exp.abs() as u8)
+                    .to_scale(exp)
                     .value,
                 0,
                 negative,
             )
-            .to_scale(exp.abs() as u8))
+            .to_scale(exp))
         } else {
+            let scale = decimal_offset.checked_sub(exp).expect("checked_sub");
+
             Ok(Decimal::new(
                 u128::from_str_radix(&digits, radix).unwrap(),
-                scale,
+                scale.try_into().expect("scale out of range"),
                 negative,
             ))
         }
-- 
2.43.0


From 6c5a043b0594b19aa804e665267ee057fad61e08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:11 +0000
Subject: [PATCH 20/21] fix: find the power of two of a logarithm on integers
 (ln of a value just below 2^11 was off by 0.1)

---
 programs/hmmcl-sandbox/src/decimal.rs | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/programs/hmmcl-sandbox/src/decimal.rs b/programs/hmmcl-sandbox/src/decimal.rs
index 92dd0c2..20a1f42 100644
--- a/programs/hmmcl-sandbox/src/decimal.rs
+++ b/programs/hmmcl-sandbox/src/decimal.rs
@@ -938,6 +938,21 @@ impl BitLength<Decimal> for Decimal {
     }
 }
 
+/// Whole power of two of a positive [Decimal]: the greatest integer n with 2^n <= value.
+/// Calculated on integers because a float rounds a value just below a power of two up to it.
+fn log2_floor(value: Decimal) -> Decimal {
+    let denominator = value.denominator();
+    let integer = value.value / denominator;
+
+    if integer > 0 {
+        Decimal::new((127 - integer.leading_zeros()).into(), 0, false)
+    } else {
+        // 2^-n <= value is the same as 2^n > (denominator - 1) / value
+        let inverse = (denominator - 1) / value.value;
+        Decimal::new((128 - inverse.leading_zeros()).into(), 0, true)
+    }
+}
+
 /// Calculate the natural logarithm of a [Decimal] value. For full algorithm please refer to:
 // https://docs.google.com/spreadsheets/d/19mgYjGQlpsuaTk1zXujn-yCSdbAL25sP/edit?pli=1#gid=2070648638
 impl Ln<Decimal> for Decimal {
@@ -950,7 +965,7 @@ impl Ln<Decimal> for Decimal {
 
         let ln_2_decimal = Decimal::new(693_147_180_559u128, 12, false);
 
-        let bit_length_decimal = self.bit_length().expect("bit_length");
+        let bit_length_decimal = log2_floor(scaled_out);
 
         // TODO: calculate with higher compute scale when big_mul is implemented otherwise overflow
         let max = Decimal::from_u64(2)
-- 
2.43.0


From 3371978af561e9f2663994d578db8ebde7450e99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:15 +0000
Subject: [PATCH 21/21] fix: scale values below one up before taking their
 logarithm (ln(0.001) was off by 0.0006, ln(0.000001) aborted)

---
 programs/hmmcl-sandbox/src/decimal.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/programs/hmmcl-sandbox/src/decimal.rs b/programs/hmmcl-sandbox/src/decimal.rs
index 20a1f42..5d9c9d0 100644
--- a/programs/hmmcl-sandbox/src/decimal.rs
+++ b/programs/hmmcl-sandbox/src/decimal.rs
@@ -967,13 +967,15 @@ impl Ln<Decimal> for Decimal {
 
         let bit_length_decimal = log2_floor(scaled_out);
 
-        // TODO: calculate with higher compute scale when big_mul is implemented otherwise overflow
-        let max = Decimal::from_u64(2)
-            .to_scale(6)
-            .pow(bit_length_decimal.to_scale(6))
-            .to_compute_scale();
+        // below one multiply by the whole power of two, its inverse has more digits than fit
+        let power = Decimal::from_u64(2).pow(bit_length_decimal.value);
+        let (scaled, max) = if bit_length_decimal.is_negative() {
+            (scaled_out.mul(power), Decimal::one())
+        } else {
+            (scaled_out, power.to_compute_scale())
+        };
 
-        let (s_0, t_0, lx_0) = log_table_value(scaled_out, max, 0);
+        let (s_0, t_0, lx_0) = log_table_value(scaled, max, 0);
         let (s_1, t_1, lx_1) = log_table_value(s_0, t_0, 1);
         let (s_2, t_2, lx_2) = log_table_value(s_1, t_1, 2);
         let (s_3, t_3, lx_3) = log_table_value(s_2, t_2, 3);
-- 
2.43.0

