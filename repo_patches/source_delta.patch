From 171711bb8250a9d97c9c6d705fc2c25580e4c872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:23 +0000
Subject: [PATCH 01/12] fix: refuse over-long numbers and exponents when
 parsing instead of overflowing

---
 src/serde.rs | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/serde.rs b/src/serde.rs
index 51955ff..74ade26 100644
--- a/src/serde.rs
+++ b/src/serde.rs
@@ -20,8 +20,8 @@ impl FixedDecimal {
         if bs.is_empty() {
             return Err(Error::ConversionSyntax);
         }
-        let mut exp = 0; // exponent
-        let mut d = 0; // total digits of input
+        let mut exp = 0i32; // exponent
+        let mut d = 0isize; // total digits of input
         let mut dotchar = -1; // position of dot character
         let mut last = -1; // position of last digit
         let mut cfirst = 0; // position of first digit
@@ -108,7 +108,7 @@ impl FixedDecimal {
                     // not a digit
                     return Err(Error::ConversionSyntax);
                 }
-                exp = exp * 10 + *c as i32 - '0' as i32;
+                exp = exp.saturating_mul(10).saturating_add(*c as i32 - '0' as i32);
                 i += 1
             }
             // maximum exponent is 65, with sign at most 4 chars
@@ -132,9 +132,9 @@ impl FixedDecimal {
         };
         // apply exponent to frac
         let (frac, digits, mut heading_zeroes) = {
-            let mut frac = frac_digits as i8 - exp as i8;
+            let mut frac = frac_digits - exp as isize;
             let digits;
-            let mut heading_zeroes = 0i8;
+            let mut heading_zeroes = 0isize;
             match frac.cmp(&0) {
                 Ordering::Equal => digits = d,
                 Ordering::Greater => {
@@ -158,6 +158,7 @@ impl FixedDecimal {
         if digits as usize > MAX_DIGITS {
             return Err(Error::ConversionSyntax);
         }
+        let (frac, digits) = (frac as i8, digits as i8);
 
         // units of integral part and fractional part
         let intg_units = get_units(digits - frac);
@@ -211,11 +212,11 @@ impl FixedDecimal {
         if frac_units > 0 {
             let mut out = 0; // accumulator in unit
             let mut cut = DIGITS_PER_UNIT as i8;
-            while heading_zeroes >= DIGITS_PER_UNIT as i8 {
+            while heading_zeroes >= DIGITS_PER_UNIT as isize {
                 // current unit filled all zeroes
                 self.lsu[up as usize] = 0;
                 up -= 1;
-                heading_zeroes -= DIGITS_PER_UNIT as i8;
+                heading_zeroes -= DIGITS_PER_UNIT as isize;
             }
             cut -= heading_zeroes as i8;
             // parse fractional part
-- 
2.43.0


From b5cf7d9219d578d9a41933dec70696f845835eb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:24 +0000
Subject: [PATCH 02/12] fix: keep zero non-negative

---
 src/decimal.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/decimal.rs b/src/decimal.rs
index 4c67980..543d015 100644
--- a/src/decimal.rs
+++ b/src/decimal.rs
@@ -63,9 +63,13 @@ impl FixedDecimal {
         self.intg & (0x80u8 as i8) != 0
     }
 
+    /// marks this decimal as negative.
+    /// Zero has no sign, so this is a no-op on zero.
     #[inline]
     pub fn set_neg(&mut self) {
-        self.intg |= 0x80u8 as i8;
+        if !self.is_zero() {
+            self.intg |= 0x80u8 as i8;
+        }
     }
 
     #[inline]
-- 
2.43.0


From 16aa3222ceff5195904a06f68f0d6c5e48150492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:47 +0000
Subject: [PATCH 03/12] fix: extend the scale when rounding without corrupting
 or overflowing units

---
 src/decimal.rs | 11 +++++++++++
 src/round.rs   | 27 ++++++++++++++++++++++++---
 2 files changed, 35 insertions(+), 3 deletions(-)

diff --git a/src/decimal.rs b/src/decimal.rs
index 543d015..feca85e 100644
--- a/src/decimal.rs
+++ b/src/decimal.rs
@@ -115,6 +115,17 @@ impl FixedDecimal {
         get_units(self.intg())
     }
 
+    /// number of integral units, leading zero units excluded.
+    #[inline]
+    pub(crate) fn intg_units_non_zero(&self) -> usize {
+        let frac_units = self.frac_units();
+        let mut intg_units = self.intg_units();
+        while intg_units > 0 && self.lsu[frac_units + intg_units - 1] == 0 {
+            intg_units -= 1;
+        }
+        intg_units
+    }
+
     #[inline]
     pub fn frac(&self) -> i8 {
         self.frac
diff --git a/src/round.rs b/src/round.rs
index 78f730e..95dd956 100644
--- a/src/round.rs
+++ b/src/round.rs
@@ -1,5 +1,5 @@
 use crate::arith::add_with_carry;
-use crate::decimal::{FixedDecimal, DIGITS_PER_UNIT, HALF_UNIT, UNIT};
+use crate::decimal::{FixedDecimal, DIGITS_PER_UNIT, HALF_UNIT, MAX_UNITS, UNIT};
 use crate::utils::{div9, get_units, mod9};
 
 impl FixedDecimal {
@@ -16,16 +16,24 @@ impl FixedDecimal {
         let intg_units = self.intg_units();
         let mut frac_units = self.frac_units();
         if frac >= this_frac as isize {
-            // round precision is greater than current decimal's precision
+            // round precision is greater than current decimal's precision,
+            // it is limited to the units the integral part leaves.
+            let frac = frac.min(self.max_frac());
             let round_frac_units = get_units(frac as i8);
             if round_frac_units == frac_units {
                 // same number of frac units
                 self.frac = frac as i8;
                 return;
             }
+            // leading zero units may have to make room for fractional units
+            let intg_units = intg_units.min(MAX_UNITS - round_frac_units);
+            if intg_units < self.intg_units() {
+                self.intg = (self.intg & 0x80u8 as i8) | (intg_units * DIGITS_PER_UNIT) as i8;
+            }
             // copy with offset
             self.lsu
                 .copy_within(..frac_units + intg_units, round_frac_units - frac_units);
+            self.lsu[..round_frac_units - frac_units].fill(0);
             self.frac = frac as i8;
             return;
         }
@@ -89,7 +97,9 @@ impl FixedDecimal {
         let intg_units = self.intg_units();
         let mut frac_units = self.frac_units();
         if frac >= this_frac as isize {
-            // round precision is larger than or equal to current decimal's precision
+            // round precision is larger than or equal to current decimal's precision,
+            // it is limited to the units the integral part leaves.
+            let frac = frac.min(self.max_frac());
             let round_frac_units = get_units(frac as i8);
             if round_frac_units == frac_units {
                 // same number of frac units
@@ -98,10 +108,15 @@ impl FixedDecimal {
                 res.lsu = self.lsu;
                 return;
             }
+            // leading zero units may have to make room for fractional units
+            let intg_units = intg_units.min(MAX_UNITS - round_frac_units);
             // copy with offset
             res.lsu[round_frac_units - frac_units..round_frac_units + intg_units]
                 .copy_from_slice(&self.lsu[..frac_units + intg_units]);
             res.intg = self.intg;
+            if intg_units < self.intg_units() {
+                res.intg = (self.intg & 0x80u8 as i8) | (intg_units * DIGITS_PER_UNIT) as i8;
+            }
             res.frac = frac as i8;
             return;
         }
@@ -154,6 +169,12 @@ impl FixedDecimal {
         }
         round_half_up(res, intg_units, frac_units, trunc, round_frac, carry);
     }
+
+    /// maximum fractional digits the integral part leaves.
+    #[inline]
+    fn max_frac(&self) -> isize {
+        ((MAX_UNITS - self.intg_units_non_zero()) * DIGITS_PER_UNIT) as isize
+    }
 }
 
 fn round_half_up(
-- 
2.43.0


From 4512d14c462d4763cebdfe57424bc719837d079c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:47 +0000
Subject: [PATCH 04/12] fix: round integral digits half up at the leading digit
 and at unit edges

---
 src/round.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/round.rs b/src/round.rs
index 95dd956..def5a15 100644
--- a/src/round.rs
+++ b/src/round.rs
@@ -42,8 +42,8 @@ impl FixedDecimal {
         let mut carry: i32 = 0;
         if frac < 0 {
             // round integral part
-            let intg = -frac;
-            if intg + 1 > self.intg() as isize {
+            let intg = frac.saturating_neg();
+            if intg > self.intg() as isize {
                 self.set_zero();
                 return;
             }
@@ -51,6 +51,10 @@ impl FixedDecimal {
             for v in &mut self.lsu[intg_units..frac_units + intg_units] {
                 *v = 0; // reset higher units to zero
             }
+            if mod9(intg as i8) == 0 && self.lsu[div9(intg as i8) - 1] >= HALF_UNIT as i32 {
+                // at edge of one unit
+                carry = 1;
+            }
             frac_units = 0;
             round_frac = 0;
             trunc = intg;
@@ -125,12 +129,16 @@ impl FixedDecimal {
         let mut carry: i32 = 0;
         if frac < 0 {
             // round integral part
-            let intg = -frac;
-            if intg + 1 > self.intg() as isize {
+            let intg = frac.saturating_neg();
+            if intg > self.intg() as isize {
                 res.set_zero();
                 return;
             }
             res.lsu[..intg_units].copy_from_slice(&self.lsu[frac_units..frac_units + intg_units]); // remove fractional units
+            if mod9(intg as i8) == 0 && res.lsu[div9(intg as i8) - 1] >= HALF_UNIT as i32 {
+                // at edge of one unit
+                carry = 1;
+            }
             frac_units = 0;
             round_frac = 0;
             trunc = intg;
-- 
2.43.0


From 539cebd6458ee0585c41e8849e769ac0fc1c13c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:42 +0000
Subject: [PATCH 05/12] fix: report overflow of addition and subtraction
 instead of panicking, ignoring leading zero units

---
 src/arith.rs | 31 ++++++++++++++++++-------------
 1 file changed, 18 insertions(+), 13 deletions(-)

diff --git a/src/arith.rs b/src/arith.rs
index b06722f..b714574 100644
--- a/src/arith.rs
+++ b/src/arith.rs
@@ -198,10 +198,13 @@ impl Rem for FixedDecimal {
 /// intg is added with 0 and carry.
 fn add_abs(lhs: &FixedDecimal, rhs: &FixedDecimal, res: &mut FixedDecimal) -> Result<()> {
     res.set_zero(); // always clear result first
-    let liu = lhs.intg_units();
+    let liu = lhs.intg_units_non_zero();
     let lfu = lhs.frac_units();
-    let riu = rhs.intg_units();
+    let riu = rhs.intg_units_non_zero();
     let rfu = rhs.frac_units();
+    if liu.max(riu) + lfu.max(rfu) > MAX_UNITS {
+        return Err(Error::Overflow);
+    }
     let mut frac_unit_diff = lfu as isize - rfu as isize;
     let mut lhs_idx: isize = 0;
     let mut rhs_idx: isize = 0;
@@ -241,9 +244,6 @@ fn add_abs(lhs: &FixedDecimal, rhs: &FixedDecimal, res: &mut FixedDecimal) -> Re
             res_idx += 1;
             lhs_idx += 1;
         }
-        if carry > 0 {
-            res.lsu[res_idx as usize] = carry;
-        }
     } else if intg_unit_diff < 0 {
         // rhs has more intg
         stop = rhs_idx - intg_unit_diff;
@@ -254,15 +254,17 @@ fn add_abs(lhs: &FixedDecimal, rhs: &FixedDecimal, res: &mut FixedDecimal) -> Re
             res_idx += 1;
             rhs_idx += 1;
         }
-        if carry > 0 {
-            res.lsu[res_idx as usize] = carry;
-        }
-    } else if carry != 0 {
+    }
+    if carry > 0 {
         // no more intg but carry is non-zero
+        if res_idx as usize == MAX_UNITS {
+            res.set_zero();
+            return Err(Error::Overflow);
+        }
         res.lsu[res_idx as usize] = carry;
     }
 
-    let mut res_intg_non_zero = liu.max(riu) as isize + carry as isize;
+    let mut res_intg_non_zero = liu.max(riu) as isize + carry as isize - 1;
     res.frac = lhs.frac.max(rhs.frac);
     let res_frac_units = res.frac_units() as isize;
     while res_intg_non_zero >= 0 {
@@ -291,10 +293,13 @@ fn add_abs(lhs: &FixedDecimal, rhs: &FixedDecimal, res: &mut FixedDecimal) -> Re
 /// |      |  intg  |   common    |  frac  |
 fn sub_abs(lhs: &FixedDecimal, rhs: &FixedDecimal, res: &mut FixedDecimal) -> Result<bool> {
     res.set_zero(); // always clear result first
-    let liu = lhs.intg_units();
+    let liu = lhs.intg_units_non_zero();
     let lfu = lhs.frac_units();
-    let riu = rhs.intg_units();
+    let riu = rhs.intg_units_non_zero();
     let rfu = rhs.frac_units();
+    if liu.max(riu) + lfu.max(rfu) > MAX_UNITS {
+        return Err(Error::Overflow);
+    }
     let mut frac_unit_diff = lfu as isize - rfu as isize;
     let mut lhs_idx: isize = 0;
     let mut rhs_idx: isize = 0;
@@ -367,7 +372,7 @@ fn sub_abs(lhs: &FixedDecimal, rhs: &FixedDecimal, res: &mut FixedDecimal) -> Re
             borrow = b0;
         }
     }
-    let mut res_intg_non_zero = liu.max(riu) as isize;
+    let mut res_intg_non_zero = liu.max(riu) as isize - 1;
     res.frac = lhs.frac.max(rhs.frac);
     let result_frac_units = res.frac_units();
     while res_intg_non_zero >= 0 {
-- 
2.43.0


From 7739572920e464e46387f76219531122e8bd7e7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:08 +0000
Subject: [PATCH 06/12] fix: multiply without overflowing digit counts and
 without counting leading zeroes

---
 src/arith.rs   | 20 ++++++++++++--------
 src/decimal.rs | 13 ++++++++++++-
 2 files changed, 24 insertions(+), 9 deletions(-)

diff --git a/src/arith.rs b/src/arith.rs
index b714574..1525e74 100644
--- a/src/arith.rs
+++ b/src/arith.rs
@@ -394,10 +394,11 @@ fn sub_abs(lhs: &FixedDecimal, rhs: &FixedDecimal, res: &mut FixedDecimal) -> Re
 /// reaching the limitation of MAX_UNITS or MAX_FRAC_UNITS.
 fn mul_abs(lhs: &FixedDecimal, rhs: &FixedDecimal, res: &mut FixedDecimal) -> Result<()> {
     res.set_zero(); // always clear result first
-    let res_intg_digits = lhs.intg() + rhs.intg();
-    let res_intg_units = get_units(res_intg_digits);
-    let res_frac_digits = lhs.frac() + rhs.frac();
-    let mut res_frac_units = get_units(res_frac_digits);
+    // leading zeroes do not count, and the sums may exceed i8
+    let res_intg_digits = lhs.intg_non_zero() + rhs.intg_non_zero();
+    let res_intg_units = (res_intg_digits + DIGITS_PER_UNIT - 1) / DIGITS_PER_UNIT;
+    let res_frac_digits = lhs.frac() as usize + rhs.frac() as usize;
+    let mut res_frac_units = (res_frac_digits + DIGITS_PER_UNIT - 1) / DIGITS_PER_UNIT;
     if res_intg_units > MAX_UNITS {
         // integral overflow
         return Err(Error::Overflow);
@@ -410,9 +411,9 @@ fn mul_abs(lhs: &FixedDecimal, rhs: &FixedDecimal, res: &mut FixedDecimal) -> Re
         // exceeds maximum fractional units
         res_frac_units = MAX_FRAC_UNITS;
     }
-    let liu = lhs.intg_units();
+    let liu = lhs.intg_units_non_zero();
     let lfu = lhs.frac_units();
-    let riu = rhs.intg_units();
+    let riu = rhs.intg_units_non_zero();
     let rfu = rhs.frac_units();
     // because result fractional part may be truncated, we need to calculate
     // how many units has to be shifted and can be ignored in calculation.
@@ -444,7 +445,10 @@ fn mul_abs(lhs: &FixedDecimal, rhs: &FixedDecimal, res: &mut FixedDecimal) -> Re
             carry = v / UNIT as i64;
             res.lsu[res_idx as usize] = (v - carry * UNIT as i64) as i32;
         }
-        debug_assert!(res_idx >= 0);
+        if res_idx < -1 {
+            // whole row is truncated
+            continue;
+        }
         if res_idx + 1 < MAX_UNITS as isize {
             res.lsu[(res_idx + 1) as usize] = carry as i32;
         } else if carry > 0 {
@@ -452,7 +456,7 @@ fn mul_abs(lhs: &FixedDecimal, rhs: &FixedDecimal, res: &mut FixedDecimal) -> Re
         }
         carry = 0
     }
-    res.frac = res_frac_digits.min((res_frac_units * DIGITS_PER_UNIT) as i8);
+    res.frac = res_frac_digits.min(res_frac_units * DIGITS_PER_UNIT) as i8;
     res.intg = (res_intg_units * DIGITS_PER_UNIT) as i8;
     Ok(())
 }
diff --git a/src/decimal.rs b/src/decimal.rs
index feca85e..51b968b 100644
--- a/src/decimal.rs
+++ b/src/decimal.rs
@@ -1,4 +1,4 @@
-use crate::utils::get_units;
+use crate::utils::{get_units, unit_leading_zeroes};
 use std::hash::{Hash, Hasher};
 use crate::error::{Result, Error};
 
@@ -126,6 +126,17 @@ impl FixedDecimal {
         intg_units
     }
 
+    /// number of integral digits, leading zeroes excluded.
+    #[inline]
+    pub(crate) fn intg_non_zero(&self) -> usize {
+        let intg_units = self.intg_units_non_zero();
+        if intg_units == 0 {
+            return 0;
+        }
+        intg_units * DIGITS_PER_UNIT
+            - unit_leading_zeroes(self.lsu[self.frac_units() + intg_units - 1])
+    }
+
     #[inline]
     pub fn frac(&self) -> i8 {
         self.frac
-- 
2.43.0


From eb9fd818a04c36606525cb2360fe21a19cd6a021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:09 +0000
Subject: [PATCH 07/12] fix: divide operands of any precision without
 truncating digit counts

---
 src/arith.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/arith.rs b/src/arith.rs
index 1525e74..81543e3 100644
--- a/src/arith.rs
+++ b/src/arith.rs
@@ -83,6 +83,8 @@ impl FixedDecimal {
     #[inline]
     pub fn div_to(lhs: &Self, rhs: &Self, res: &mut Self, incr_frac: usize) -> Result<()> {
         let res_neg = lhs.is_neg() != rhs.is_neg();
+        // more than the maximum makes no difference
+        let incr_frac = incr_frac.min(MAX_FRAC_UNITS * DIGITS_PER_UNIT);
         div_abs(lhs, rhs, res, incr_frac as isize)?;
         if res_neg {
             res.set_neg_and_check_zero();
@@ -520,7 +522,7 @@ fn div_abs(
         incr_frac = 0;
     }
     // calculate result frac units
-    let mut res_frac_units = get_units((lhs_ext_frac + rhs_ext_frac + incr_frac) as i8);
+    let mut res_frac_units = units_of(lhs_ext_frac + rhs_ext_frac + incr_frac);
     if res_frac_units > MAX_FRAC_UNITS {
         // exceeds maximum fractional digits
         res_frac_units = MAX_FRAC_UNITS;
@@ -541,7 +543,7 @@ fn div_abs(
     let res_intg_units: usize;
     let res_start_idx: isize;
     if res_intg > 0 {
-        res_intg_units = get_units(res_intg as i8);
+        res_intg_units = units_of(res_intg);
         if res_intg_units > MAX_UNITS {
             return Err(Error::Overflow);
         }
@@ -551,7 +553,7 @@ fn div_abs(
         res_start_idx = (res_frac_units + res_intg_units) as isize - 1;
     } else {
         res_intg_units = 0;
-        let res_start_offset = get_units((1 - res_intg) as i8) as isize;
+        let res_start_offset = units_of(1 - res_intg) as isize;
         res_start_idx = res_frac_units as isize - res_start_offset;
         res_intg = 0;
     }
@@ -942,6 +944,12 @@ fn rem_abs(lhs: &FixedDecimal, rhs: &FixedDecimal, res: &mut FixedDecimal) -> Re
     Ok(())
 }
 
+// units of given digits, not limited to i8
+#[inline]
+fn units_of(digits: isize) -> usize {
+    (digits as usize + DIGITS_PER_UNIT - 1) / DIGITS_PER_UNIT
+}
+
 // NOTE: carry can only be 0 or 1
 #[inline]
 pub(crate) fn add_with_carry(a: i32, b: i32, carry: i32) -> (i32, i32) {
-- 
2.43.0


From 99fe870ea8a98f05e25458f8dd41dd4f363a0c43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:22 +0000
Subject: [PATCH 08/12] fix: long division corrects its trial quotient and
 keeps the units below the divider

---
 src/arith.rs | 46 ++++++++++++++++++++--------------------------
 1 file changed, 20 insertions(+), 26 deletions(-)

diff --git a/src/arith.rs b/src/arith.rs
index 81543e3..24c519e 100644
--- a/src/arith.rs
+++ b/src/arith.rs
@@ -591,17 +591,19 @@ fn div_abs(
     // D1. normalization
     let norm_factor = UNIT as i64 / (rhs.lsu[rhs_non_zero as usize] as i64 + 1);
     // normalize buf1 and buf2
-    let mut buf1 = [0i32; MAX_UNITS * 2]; // store normalized lhs
+    // units of result and divider are appended to lhs
+    let lhs_shift_units = res_units + rhs_non_zero as usize;
+    let mut buf1 = [0i32; MAX_UNITS * 3]; // store normalized lhs
     let mut buf2 = [0i32; MAX_UNITS]; // store normalized rhs
     if norm_factor == 1 {
-        buf1[res_units..res_units + lhs_non_zero as usize + 1]
+        buf1[lhs_shift_units..lhs_shift_units + lhs_non_zero as usize + 1]
             .copy_from_slice(&lhs.lsu[..lhs_non_zero as usize + 1]);
         buf2[..rhs_non_zero as usize + 1].copy_from_slice(&rhs.lsu[..rhs_non_zero as usize + 1]);
     } else {
         let mut carry: i64 = 0;
         // normalize lhs into buf1
-        let buf1_end = res_units + lhs_non_zero as usize + 1;
-        for (b1, lv) in buf1[res_units..buf1_end]
+        let buf1_end = lhs_shift_units + lhs_non_zero as usize + 1;
+        for (b1, lv) in buf1[lhs_shift_units..buf1_end]
             .iter_mut()
             .zip(lhs.lsu[..lhs_non_zero as usize + 1].iter())
         {
@@ -627,7 +629,7 @@ fn div_abs(
 
     let d0 = buf2[rhs_non_zero as usize] as i64; // rhs most significant unit
     let d1 = buf2[rhs_non_zero as usize - 1] as i64; // rhs second significant unit
-    let mut i = res_units as isize + lhs_non_zero + dividend_shift; // index of normalized lhs
+    let mut i = lhs_shift_units as isize + lhs_non_zero + dividend_shift; // index of normalized lhs
     let mut j = res_start_idx; // index of result
     while j >= 0 {
         // D3. make the guess on u1
@@ -639,14 +641,12 @@ fn div_abs(
         let u = u0 * UNIT as i64 + u1;
         let mut qhat = u / d0;
         let mut rhat = u - qhat * d0;
-        // qhat cannot be greater or equal to UNIT
-        debug_assert!(qhat < UNIT as i64, "qhat must be less than UNIT");
         let mut u2: i64 = 0;
         if i > 0 {
             u2 = buf1[i as usize - 1] as i64;
         }
-        while qhat * d1 > rhat * UNIT as i64 + u2 {
-            // check if qhat can satisfy next unit
+        while qhat >= UNIT as i64 || qhat * d1 > rhat * UNIT as i64 + u2 {
+            // check if qhat fits in one unit and can satisfy next unit
             qhat -= 1; // decrease qhat
             rhat += d0; // increase rhat
         }
@@ -659,32 +659,26 @@ fn div_abs(
             let mul_v = qhat * buf2[k as usize] as i64 + carry; // mul
             carry = mul_v / UNIT as i64; // update carry
             let mul_v0 = mul_v - carry * UNIT as i64; // in current unit
-            if ms_idx < 0 {
-                let (_, b0) = sub_with_borrow(0, mul_v0 as i32, borrow);
-                borrow = b0;
-            } else {
-                let (sub_v, b0) = sub_with_borrow(buf1[ms_idx as usize], mul_v0 as i32, borrow);
-                buf1[ms_idx as usize] = sub_v;
-                borrow = b0;
-            }
+            let (sub_v, b0) = sub_with_borrow(buf1[ms_idx as usize], mul_v0 as i32, borrow);
+            buf1[ms_idx as usize] = sub_v;
+            borrow = b0;
             k += 1;
             ms_idx += 1;
         }
         borrow += buf1[ms_idx as usize] - carry as i32;
         if borrow == -1 {
             // qhat is larger, cannot satisfy the whole decimal
-            // D6. add back (reverse subtract)
+            // D6. add back
             qhat -= 1; // decrease qhat
-            borrow = 0;
-            for i in 0..rhs_non_zero {
-                // reverse subtract
-                let (r0, b0) = sub_with_borrow(0, buf1[(i + j) as usize], borrow);
-                buf1[(i + j) as usize] = r0;
-                borrow = b0;
+            let mut carry = 0;
+            for k in 0..rhs_non_zero + 1 {
+                let idx = (i - rhs_non_zero + k) as usize;
+                let (r0, c0) = add_with_carry(buf1[idx], buf2[k as usize], carry);
+                buf1[idx] = r0;
+                carry = c0;
             }
-        } else {
-            buf1[ms_idx as usize] = 0; // clear buf1 because multiply w/ subtract succeeds
         }
+        buf1[ms_idx as usize] = 0; // clear buf1 because multiply w/ subtract succeeds
         res.lsu[j as usize] = qhat as i32;
         i -= 1;
         j -= 1;
-- 
2.43.0


From 28716ad982542c9ef94a3ad30a9f2e74bb934be1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:23 +0000
Subject: [PATCH 09/12] fix: remainder corrects its trial quotient by adding
 the divider back

---
 src/arith.rs | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/src/arith.rs b/src/arith.rs
index 24c519e..4d8c9d8 100644
--- a/src/arith.rs
+++ b/src/arith.rs
@@ -817,7 +817,7 @@ fn rem_abs(lhs: &FixedDecimal, rhs: &FixedDecimal, res: &mut FixedDecimal) -> Re
     // D1. normalization
     let norm_factor = UNIT as i64 / (rhs.lsu[rhs_non_zero as usize] as i64 + 1);
     // normalize buf1 and buf2
-    let mut buf1 = [0i32; MAX_UNITS * 2];
+    let mut buf1 = [0i32; MAX_UNITS * 2 + 1];
     let mut buf2 = [0i32; MAX_UNITS * 2];
     if norm_factor == 1 {
         buf1[lhs_shift_units as usize..buf1_len as usize]
@@ -861,13 +861,12 @@ fn rem_abs(lhs: &FixedDecimal, rhs: &FixedDecimal, res: &mut FixedDecimal) -> Re
         let u = u0 * UNIT as i64 + u1;
         let mut qhat = u / d0;
         let mut rhat = u - qhat * d0 as i64;
-        debug_assert!(qhat < UNIT as i64, "qhat must be less than Unit");
         let mut u2 = 0;
         if i > 0 {
             u2 = buf1[(i - 1) as usize] as i64;
         }
-        while qhat * d1 > rhat * UNIT as i64 + u2 {
-            // check if qhat can satisfy next unit
+        while qhat >= UNIT as i64 || qhat * d1 > rhat * UNIT as i64 + u2 {
+            // check if qhat fits in one unit and can satisfy next unit
             qhat -= 1;
             rhat += d0;
         }
@@ -889,13 +888,16 @@ fn rem_abs(lhs: &FixedDecimal, rhs: &FixedDecimal, res: &mut FixedDecimal) -> Re
         borrow += buf1[(i + 1) as usize] - carry as i32;
         if borrow == -1 {
             // qhat is larger, cannot satisfy the whole decimal
-            // D6. add back (reverse subtract)
+            // D6. add back
             // should decrease qhat, but not used in remainder
-            borrow = 0; // reset borrow to zero
-            for b in &mut buf1[(i - buf2_len + 1) as usize..(i + 1) as usize] {
-                let (r0, b0) = sub_with_borrow(0, *b, borrow);
-                borrow = b0;
-                *b = r0;
+            let mut carry = 0;
+            for (b1, b2) in buf1[(i - buf2_len + 1) as usize..(i + 1) as usize]
+                .iter_mut()
+                .zip(buf2[..buf2_len as usize].iter())
+            {
+                let (r0, c0) = add_with_carry(*b1, *b2, carry);
+                carry = c0;
+                *b1 = r0;
             }
         }
         buf1[(i + 1) as usize] = 0;
-- 
2.43.0


From 7fe52d25be4c9d17b1150a1759142ad314d36e44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:34 +0000
Subject: [PATCH 10/12] fix: remainder of a dividend with leading zero units by
 a divider of higher precision

---
 src/arith.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/arith.rs b/src/arith.rs
index 4d8c9d8..c7e2b84 100644
--- a/src/arith.rs
+++ b/src/arith.rs
@@ -735,9 +735,11 @@ fn rem_abs(lhs: &FixedDecimal, rhs: &FixedDecimal, res: &mut FixedDecimal) -> Re
         Ordering::Less => {
             if rfu > lfu {
                 // rhs has higher fractional precision
+                // leading zero units of lhs may have to make room for it
+                let liu = liu.min(MAX_UNITS - rfu);
                 res.lsu[rfu - lfu..liu + rfu].copy_from_slice(&lhs.lsu[..lfu + liu]);
                 res.frac = rhs_frac;
-                res.intg = lhs_intg;
+                res.intg = lhs_intg.min((liu * DIGITS_PER_UNIT) as i8);
                 return Ok(());
             }
             // lhs has higher or same fractional precision
-- 
2.43.0


From 95a00f9a6e2848388d62b60135451bc7eac31e60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:44 +0000
Subject: [PATCH 11/12] fix: hash equal decimals equally

---
 src/decimal.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/decimal.rs b/src/decimal.rs
index 51b968b..c7bff41 100644
--- a/src/decimal.rs
+++ b/src/decimal.rs
@@ -193,20 +193,24 @@ impl FixedDecimal {
 
 /// Simple hash implementation on FixedDecimal.
 ///
-/// NOTE: Same numeric values with different number of
-/// internal units will have different hash code.
+/// NOTE: Leading and trailing zero units are skipped, so that
+/// same numeric values have same hash code.
 impl Hash for FixedDecimal {
     fn hash<H: Hasher>(&self, state: &mut H) {
         // hash neg flag
         state.write_u8(if self.is_neg() { 1 } else { 0 });
         // hash nbr of intg units
-        let intg_units = self.intg_units();
+        let intg_units = self.intg_units_non_zero();
         state.write_u8(intg_units as u8);
         // hash nbr of frac units
-        let frac_units = self.frac_units();
+        let mut frac_units = self.frac_units();
+        let end_idx = intg_units + frac_units;
+        while frac_units > 0 && self.lsu[end_idx - intg_units - frac_units] == 0 {
+            frac_units -= 1;
+        }
         state.write_u8(frac_units as u8);
         // hash all units
-        for v in &self.lsu[..intg_units + frac_units] {
+        for v in &self.lsu[end_idx - intg_units - frac_units..end_idx] {
             state.write_u32(*v as u32)
         }
     }
-- 
2.43.0


From 879a2829649431a0126880ad023a8b631c43197c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:36 +0000
Subject: [PATCH 12/12] fix: declare the actual number of integral digits of a
 quotient

---
 src/arith.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/arith.rs b/src/arith.rs
index c7e2b84..47f618a 100644
--- a/src/arith.rs
+++ b/src/arith.rs
@@ -555,7 +555,6 @@ fn div_abs(
         res_intg_units = 0;
         let res_start_offset = units_of(1 - res_intg) as isize;
         res_start_idx = res_frac_units as isize - res_start_offset;
-        res_intg = 0;
     }
     let res_units = res_intg_units + res_frac_units;
 
@@ -582,8 +581,9 @@ fn div_abs(
             i -= 1;
             j -= 1;
         }
-        res.intg = res_intg as i8;
+        res.intg = (res_intg_units * DIGITS_PER_UNIT) as i8;
         res.frac = (res_frac_units * DIGITS_PER_UNIT) as i8;
+        res.intg = res.intg_non_zero() as i8; // actual digits
         return Ok(());
     }
 
@@ -683,8 +683,9 @@ fn div_abs(
         i -= 1;
         j -= 1;
     }
-    res.intg = res_intg as i8;
+    res.intg = (res_intg_units * DIGITS_PER_UNIT) as i8;
     res.frac = (res_frac_units * DIGITS_PER_UNIT) as i8;
+    res.intg = res.intg_non_zero() as i8; // actual digits
     Ok(())
 }
 
-- 
2.43.0

