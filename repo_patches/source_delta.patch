From 9eee7fcdde60febcd1d6000b70c7a713d2e1a545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:27 +0000
Subject: [PATCH 01/37] fix: rem no longer drops subnormal remainders

EXPONENT_MIN - e was compared with usize::MAX cast to isize, i.e. with -1, so
every remainder below the normal range was replaced with zero.
---
 astro-float-num/src/num.rs | 23 +++++++++--------------
 1 file changed, 9 insertions(+), 14 deletions(-)

diff --git a/astro-float-num/src/num.rs b/astro-float-num/src/num.rs
index f477fb9..feac14d 100644
--- a/astro-float-num/src/num.rs
+++ b/astro-float-num/src/num.rs
@@ -460,23 +460,18 @@ impl BigFloatNumber {
                     // first, see if m3 is already subnormal, then shift accordingly
                     let mut excess = m3.max_bit_len() - m3.bit_len();
 
-                    if EXPONENT_MIN as isize - e > usize::MAX as isize {
-                        m3.set_zero();
-                        e = 0;
-                    } else {
-                        let shift = (EXPONENT_MIN as isize - e) as usize;
+                    let shift = (EXPONENT_MIN as isize - e) as usize;
 
-                        if excess < shift {
-                            m3.extend_subnormal(shift)?;
-                            excess = m3.max_bit_len() - m3.bit_len();
-                        }
+                    if excess < shift {
+                        m3.extend_subnormal(shift)?;
+                        excess = m3.max_bit_len() - m3.bit_len();
+                    }
 
-                        let shift = excess - shift;
-                        m3.shift_left(shift);
-                        m3.set_bit_len(m3.bit_len() + shift);
+                    let shift = excess - shift;
+                    m3.shift_left(shift);
+                    m3.set_bit_len(m3.bit_len() + shift);
 
-                        e = EXPONENT_MIN as isize;
-                    }
+                    e = EXPONENT_MIN as isize;
                 } else {
                     m3.normilize2();
                 }
-- 
2.43.0


From 969819937b4ef6fa85b8f6a16debb4ac357c5d51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:27 +0000
Subject: [PATCH 02/37] fix: full-precision addition and subtraction keep the
 other operand when one is zero

---
 astro-float-num/src/num.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/astro-float-num/src/num.rs b/astro-float-num/src/num.rs
index feac14d..3936adc 100644
--- a/astro-float-num/src/num.rs
+++ b/astro-float-num/src/num.rs
@@ -585,7 +585,9 @@ impl BigFloatNumber {
         if self.m.is_zero() {
             let mut ret = if op < 0 { d2.neg() } else { d2.clone() }?;
 
-            ret.set_precision(p, rm)?;
+            if !full_prec {
+                ret.set_precision(p, rm)?;
+            }
 
             return Ok(ret);
         }
@@ -593,7 +595,9 @@ impl BigFloatNumber {
         if d2.m.is_zero() {
             let mut ret = self.clone()?;
 
-            ret.set_precision(p, rm)?;
+            if !full_prec {
+                ret.set_precision(p, rm)?;
+            }
 
             return Ok(ret);
         }
-- 
2.43.0


From a24a0ddbf9d6a3501ff17f61295915533f2199ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:27 +0000
Subject: [PATCH 03/37] fix: full-precision addition and subtraction keep all
 digits of subnormal results

---
 astro-float-num/src/num.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/astro-float-num/src/num.rs b/astro-float-num/src/num.rs
index 3936adc..eff214b 100644
--- a/astro-float-num/src/num.rs
+++ b/astro-float-num/src/num.rs
@@ -685,6 +685,10 @@ impl BigFloatNumber {
         d3.m = m3;
 
         if e < EXPONENT_MIN as isize {
+            if full_prec {
+                // no digit may be lost
+                d3.m.set_length(d3.m.max_bit_len() + (EXPONENT_MIN as isize - e) as usize)?;
+            }
             d3.e = EXPONENT_MIN;
             d3.subnormalize(e, rm);
         } else {
-- 
2.43.0


From 8a40cce755f435c9a2cafe44332e8bd25f211635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:17 +0000
Subject: [PATCH 04/37] fix: results keep the inexact flag when an operand is
 zero or the dividend is smaller than the divisor

---
 astro-float-num/src/num.rs | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/astro-float-num/src/num.rs b/astro-float-num/src/num.rs
index eff214b..d4ec543 100644
--- a/astro-float-num/src/num.rs
+++ b/astro-float-num/src/num.rs
@@ -313,9 +313,7 @@ impl BigFloatNumber {
         let s = if self.s == d2.s { Sign::Pos } else { Sign::Neg };
 
         if self.m.is_zero() || d2.m.is_zero() {
-            let mut ret = Self::new(p)?;
-            ret.set_sign(s);
-            return Ok(ret);
+            return Self::new2(p, s, self.inexact || d2.inexact);
         }
 
         let (e1, m1_opt) = self.normalize()?;
@@ -385,9 +383,7 @@ impl BigFloatNumber {
         let s = if self.s == d2.s { Sign::Pos } else { Sign::Neg };
 
         if self.m.is_zero() {
-            let mut ret = Self::new(p)?; // self / d2 = 0
-            ret.set_sign(s);
-            return Ok(ret);
+            return Self::new2(p, s, self.inexact || d2.inexact); // self / d2 = 0
         }
 
         let (e1, m1_opt) = self.normalize()?;
@@ -440,7 +436,9 @@ impl BigFloatNumber {
         }
 
         if self.m.is_zero() {
-            return self.clone();
+            let mut ret = self.clone()?;
+            ret.inexact |= d2.inexact;
+            return Ok(ret);
         }
 
         // represent as mN * 2 ^ eNeff
@@ -513,7 +511,9 @@ impl BigFloatNumber {
             < (m2_normalized.bit_len() as isize + e)
         {
             // self < d2, remainder = self
-            self.clone()
+            let mut ret = self.clone()?;
+            ret.inexact |= d2.inexact;
+            Ok(ret)
         } else {
             // since self.e >= d2.e and e1eff <= e2eff, then e2eff - e1eff < m1.len()
             // (m1 * 2 ^ e1eff) mod (m2 * 2 ^ e2eff) = m1 mod (m2 * 2 ^ (e2eff - e1eff))
@@ -589,6 +589,8 @@ impl BigFloatNumber {
                 ret.set_precision(p, rm)?;
             }
 
+            ret.inexact |= self.inexact || d2.inexact;
+
             return Ok(ret);
         }
 
@@ -599,6 +601,8 @@ impl BigFloatNumber {
                 ret.set_precision(p, rm)?;
             }
 
+            ret.inexact |= self.inexact || d2.inexact;
+
             return Ok(ret);
         }
 
-- 
2.43.0


From 884f205354468bf042d45f066cbc98c7d43328c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:56 +0000
Subject: [PATCH 05/37] fix: roundability check in nearest modes examines the
 most significant discarded words first and does not underflow

---
 astro-float-num/src/mantissa/mantissa.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/astro-float-num/src/mantissa/mantissa.rs b/astro-float-num/src/mantissa/mantissa.rs
index 352ea0d..391fffa 100644
--- a/astro-float-num/src/mantissa/mantissa.rs
+++ b/astro-float-num/src/mantissa/mantissa.rs
@@ -897,7 +897,7 @@ impl Mantissa {
             let mut i;
             let mut t;
             let mut c = false;
-            let mut cc = (n - (self.max_bit_len() - s)) / WORD_BIT_SIZE; // num of roundable significant words
+            let mut cc = (n + s).saturating_sub(self.max_bit_len()) / WORD_BIT_SIZE; // num of roundable significant words
 
             if rm == RoundingMode::ToEven || rm == RoundingMode::ToOdd {
                 let n = n - 1;
@@ -944,7 +944,7 @@ impl Mantissa {
                 let nump1 = if ip1 < self_len { (self.m[ip1] >> tp1) & 1 } else { 0 };
 
                 // anything before n'th word becomes 0
-                for v in &mut self.m[..n / WORD_BIT_SIZE] {
+                for v in self.m[..z].iter_mut().rev() {
                     if *check_roundable && cc > 0 {
                         if *v != td {
                             *check_roundable = false; // self is roundable
-- 
2.43.0


From 4f25e50f4cb9af7d83870b5807345029f22768c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:56 +0000
Subject: [PATCH 06/37] fix: pow computes exactly representable results
 directly instead of approximating them

---
 astro-float-num/src/ops/pow.rs | 63 +++++++++++++++++++++++++++++++++-
 1 file changed, 62 insertions(+), 1 deletion(-)

diff --git a/astro-float-num/src/ops/pow.rs b/astro-float-num/src/ops/pow.rs
index cfcfab5..6c36a04 100644
--- a/astro-float-num/src/ops/pow.rs
+++ b/astro-float-num/src/ops/pow.rs
@@ -4,7 +4,7 @@ use crate::common::consts::{FOUR, THREE};
 use crate::common::util::{calc_add_cost, calc_mul_cost, round_p};
 use crate::ops::consts::Consts;
 use crate::ops::util::compute_small_exp;
-use crate::EXPONENT_MIN;
+use crate::{Exponent, EXPONENT_MAX, EXPONENT_MIN};
 use crate::{
     common::consts::ONE,
     defs::{Error, WORD_BIT_SIZE, WORD_SIGNIFICANT_BIT},
@@ -528,6 +528,12 @@ impl BigFloatNumber {
         let mut p_wrk = p.max(self.mantissa_max_bit_len().max(y.mantissa_max_bit_len())) + p_inc;
 
         match || -> Result<Self, Error> {
+            // correct rounding can not be decided using approximations if the result is exact
+            if let Some(mut ret) = x.pow_exact(&y, p, effective_rm)? {
+                ret.set_inexact(ret.inexact() | self.inexact() | n.inexact());
+                return Ok(ret);
+            }
+
             loop {
                 let p_ext = p_wrk + 2;
                 x.set_precision(p_ext, RoundingMode::None)?;
@@ -599,6 +605,61 @@ impl BigFloatNumber {
             },
         }
     }
+
+    // Computes `self`^`n` for a positive `self` if the number of digits in the exact result
+    // can be small enough for the result to be representable with precision p + 1.
+    fn pow_exact(&self, n: &Self, p: usize, rm: RoundingMode) -> Result<Option<Self>, Error> {
+        if n.exponent() < -(WORD_BIT_SIZE as Exponent) {
+            return Ok(None);
+        }
+
+        // make n integer
+        let mut x = self.clone()?;
+        let mut n = n.clone()?;
+        while !n.is_int() {
+            x = x.sqrt(x.mantissa_max_bit_len(), RoundingMode::None)?;
+            if x.inexact() {
+                return Ok(None);
+            }
+            n.set_exponent(n.exponent() + 1);
+        }
+
+        let n_abs = match n.int_as_usize() {
+            Ok(v) => v,
+            Err(Error::InvalidArgument) => return Ok(None),
+            Err(e) => return Err(e),
+        };
+
+        // number of digits in x, and position of the last of them
+        let digits = x.mantissa().digits();
+        let z = digits.iter().position(|w| *w != 0).unwrap_or(0);
+        let trailing = z * WORD_BIT_SIZE + digits[z].trailing_zeros() as usize;
+        let len = x.precision() - trailing;
+
+        if len == 1 {
+            // power of 2
+            let pos = trailing as i128 + x.exponent() as i128 - x.mantissa_max_bit_len() as i128;
+            let pos = if n.is_positive() { pos } else { -pos } * n_abs as i128;
+
+            if pos >= EXPONENT_MAX as i128 {
+                return Err(Error::ExponentOverflow(Sign::Pos));
+            }
+
+            let mut ret = Self::from_word(1, p)?;
+            if pos + 1 < EXPONENT_MIN as i128 {
+                ret.set_exponent(EXPONENT_MIN);
+                ret.subnormalize((pos + 1).max(isize::MIN as i128 / 2) as isize, rm);
+            } else {
+                ret.set_exponent((pos + 1) as Exponent);
+            }
+
+            Ok(Some(ret))
+        } else if n.is_positive() && (len - 1).saturating_mul(n_abs) <= p {
+            x.powi(n_abs, p, rm).map(Some)
+        } else {
+            Ok(None)
+        }
+    }
 }
 
 #[cfg(test)]
-- 
2.43.0


From 919e59333d830bfd842ae0b4449ac3e9e70afd56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:56 +0000
Subject: [PATCH 07/37] fix: log and log10 do not report exact results when the
 check was inexact, and round the exact value only

---
 astro-float-num/src/ops/log.rs | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/astro-float-num/src/ops/log.rs b/astro-float-num/src/ops/log.rs
index 40cecbc..291a614 100644
--- a/astro-float-num/src/ops/log.rs
+++ b/astro-float-num/src/ops/log.rs
@@ -320,14 +320,17 @@ impl BigFloatNumber {
             let mut ret = p1.div(&p2, p_x, RoundingMode::None)?;
 
             // check if x is exactly power of 10
-            if ret.is_int() {
-                let n = ret.int_as_usize()?;
+            let mut ret2 = ret.clone()?;
+            ret2.set_precision(WORD_BIT_SIZE, RoundingMode::ToEven)?;
+            if ret2.is_int() {
+                let n = ret2.int_as_usize()?;
 
                 let tp = TEN.powi(n, p_x, RoundingMode::None)?;
 
-                if tp.cmp(&x) == 0 {
-                    ret.set_precision(p, rm)?;
-                    return Ok(ret);
+                if !tp.inexact() && tp.cmp(&x) == 0 {
+                    ret2.set_precision(p, rm)?;
+                    ret2.set_inexact(self.inexact());
+                    return Ok(ret2);
                 }
             }
 
@@ -389,7 +392,10 @@ impl BigFloatNumber {
                 ret.set_inexact(ret.inexact() | self.inexact() | n.inexact());
                 return Ok(ret);
             } else {
-                // check if the result is exact
+                // check if the result is exact; it is a ratio of two integers not longer than a word
+                ret2.set_precision(2 * WORD_BIT_SIZE, RoundingMode::ToEven)?;
+                ret2.set_inexact(false);
+
                 let pwr = y.pow(
                     &ret2,
                     p_x.max(self.mantissa_max_bit_len()),
@@ -397,9 +403,9 @@ impl BigFloatNumber {
                     cc,
                 )?;
 
-                if pwr.cmp(self) == 0 {
-                    ret2.set_inexact(ret2.inexact() | self.inexact() | n.inexact());
+                if !pwr.inexact() && pwr.cmp(self) == 0 {
                     ret2.set_precision(p, rm)?;
+                    ret2.set_inexact(ret2.inexact() | self.inexact() | n.inexact());
                     return Ok(ret2);
                 }
             }
-- 
2.43.0


From b9419847cb5ae0733528da980cddd54dffffd029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:41 +0000
Subject: [PATCH 08/37] fix: results of add, sub, mul, div below the normal
 range are rounded only once, and to nearest above one half of the smallest
 number

---
 astro-float-num/src/conv.rs      |  3 +-
 astro-float-num/src/num.rs       | 93 +++++++++++++++++++++++++-------
 astro-float-num/src/ops/atanh.rs |  2 +-
 astro-float-num/src/ops/cbrt.rs  |  2 +-
 astro-float-num/src/ops/cosh.rs  |  2 +-
 astro-float-num/src/ops/pow.rs   |  2 +-
 astro-float-num/src/ops/sinh.rs  |  2 +-
 astro-float-num/src/ops/sqrt.rs  |  2 +-
 8 files changed, 81 insertions(+), 27 deletions(-)

diff --git a/astro-float-num/src/conv.rs b/astro-float-num/src/conv.rs
index f0c43ed..1d175c6 100644
--- a/astro-float-num/src/conv.rs
+++ b/astro-float-num/src/conv.rs
@@ -239,7 +239,8 @@ impl BigFloatNumber {
                         num.set_precision(p + WORD_BIT_SIZE, RoundingMode::None)?;
                     }
 
-                    num.subnormalize(e, RoundingMode::None);
+                    let num_p = num.mantissa_max_bit_len();
+                    num.subnormalize(e, RoundingMode::None, num_p)?;
 
                     if num.inexact() {
                         num.mantissa_mut().digits_mut()[0] |= 1; // sticky for correct rounding when calling set_precision()
diff --git a/astro-float-num/src/num.rs b/astro-float-num/src/num.rs
index d4ec543..cf946c6 100644
--- a/astro-float-num/src/num.rs
+++ b/astro-float-num/src/num.rs
@@ -339,6 +339,22 @@ impl BigFloatNumber {
         }
 
         if e < EXPONENT_MIN as isize {
+            let p = m3.max_bit_len();
+
+            // the exact product must be rounded once
+            inexact = self.inexact || d2.inexact;
+
+            let (e_shift, mut m3) = m1_normalized.mul(
+                m2_normalized,
+                0,
+                RoundingMode::None,
+                s == Sign::Pos,
+                true,
+                &mut inexact,
+            )?;
+
+            m3.set_length(p.max(m3.max_bit_len()))?;
+
             let mut ret = BigFloatNumber {
                 m: m3,
                 s,
@@ -346,7 +362,7 @@ impl BigFloatNumber {
                 inexact,
             };
 
-            ret.subnormalize(e, rm);
+            ret.subnormalize(e1 + e2 - e_shift, rm, p)?;
 
             Ok(ret)
         } else {
@@ -403,14 +419,29 @@ impl BigFloatNumber {
         }
 
         if e < EXPONENT_MIN as isize {
+            // the quotient must be rounded once
+            let mut truncated = false;
+
+            let (e_shift, mut m3) = m1_normalized.div(
+                m2_normalized,
+                p + WORD_BIT_SIZE,
+                RoundingMode::ToZero,
+                s == Sign::Pos,
+                &mut truncated,
+            )?;
+
+            if truncated {
+                m3.digits_mut()[0] |= 1; // sticky
+            }
+
             let mut ret = BigFloatNumber {
                 m: m3,
                 s,
                 e: EXPONENT_MIN,
-                inexact,
+                inexact: self.inexact || d2.inexact,
             };
 
-            ret.subnormalize(e, rm);
+            ret.subnormalize(e1 - e2 + e_shift, rm, p)?;
 
             Ok(ret)
         } else {
@@ -689,12 +720,18 @@ impl BigFloatNumber {
         d3.m = m3;
 
         if e < EXPONENT_MIN as isize {
-            if full_prec {
-                // no digit may be lost
-                d3.m.set_length(d3.m.max_bit_len() + (EXPONENT_MIN as isize - e) as usize)?;
+            if !full_prec {
+                // the exact sum must be rounded once
+                let mut ret = self.add_sub(d2, p, op, RoundingMode::None, true)?;
+                ret.set_precision(p, rm)?;
+                return Ok(ret);
             }
+
+            // no digit may be lost
+            d3.m.set_length(d3.m.max_bit_len() + (EXPONENT_MIN as isize - e) as usize)?;
             d3.e = EXPONENT_MIN;
-            d3.subnormalize(e, rm);
+            let p = d3.m.max_bit_len();
+            d3.subnormalize(e, rm, p)?;
         } else {
             d3.e = e as Exponent;
         }
@@ -702,26 +739,32 @@ impl BigFloatNumber {
         Ok(d3)
     }
 
-    /// Make `self` subnormal
-    pub(crate) fn subnormalize(&mut self, e: isize, rm: RoundingMode) {
+    /// Make `self` with exponent `e` subnormal with precision `p` not larger than the precision of `self`.
+    pub(crate) fn subnormalize(
+        &mut self,
+        e: isize,
+        rm: RoundingMode,
+        p: usize,
+    ) -> Result<(), Error> {
         debug_assert_eq!(self.exponent(), EXPONENT_MIN);
         debug_assert!(!self.is_subnormal());
 
         if self.is_zero() {
-            return;
+            return self.m.set_length(p);
         }
 
         let is_positive = self.is_positive();
+        let extra = self.m.max_bit_len() - p;
+        let mut shift = (EXPONENT_MIN as isize).saturating_sub(e) as usize;
+        let n = shift.saturating_add(extra); // number of digits to remove
 
-        if (self.m.max_bit_len() as isize) + e > EXPONENT_MIN as isize {
+        if n < self.m.max_bit_len() {
             // subnormal
 
-            let mut shift = (EXPONENT_MIN as isize - e) as usize;
-
             let mut inexact = self.inexact;
 
             if self.m.round_mantissa(
-                shift,
+                n,
                 rm,
                 is_positive,
                 &mut false,
@@ -740,17 +783,25 @@ impl BigFloatNumber {
         } else if rm == RoundingMode::FromZero
             || (is_positive && rm == RoundingMode::Up)
             || (!is_positive && rm == RoundingMode::Down)
+            || (n == self.m.max_bit_len()
+                && (rm == RoundingMode::ToOdd
+                    || (rm == RoundingMode::ToEven
+                        && count_leading_zeroes_skip_first(self.mantissa().digits())
+                            != self.m.max_bit_len())))
         {
-            // non zero for directed rounding modes
+            // non zero for directed rounding modes,
+            // and if it is closer to the smallest positive number than to zero
             self.m.set_zero();
-            self.m.digits_mut()[0] = 1;
-            self.m.set_bit_len(1);
+            self.m.digits_mut()[extra / WORD_BIT_SIZE] = 1;
+            self.m.set_bit_len(extra + 1);
             self.inexact |= true;
         } else {
             self.m.set_zero();
             self.e = 0;
             self.inexact |= true;
         }
+
+        self.m.set_length(p)
     }
 
     /// Compares `self` to `d2`.
@@ -1266,7 +1317,8 @@ impl BigFloatNumber {
                     let e = -(n as isize - 1);
                     if e < EXPONENT_MIN as isize {
                         ret.e = EXPONENT_MIN;
-                        ret.subnormalize(e, rm);
+                        let p = ret.mantissa_max_bit_len();
+                        ret.subnormalize(e, rm, p)?;
                     } else {
                         ret.e = e as Exponent;
                     }
@@ -1552,12 +1604,13 @@ impl BigFloatNumber {
     }
 
     /// Divide `self` by 2.
-    pub(crate) fn div_by_2(&mut self, rm: RoundingMode) {
+    pub(crate) fn div_by_2(&mut self, rm: RoundingMode) -> Result<(), Error> {
         let e = self.exponent();
         if e == EXPONENT_MIN {
-            self.subnormalize(e as isize - 1, rm);
+            self.subnormalize(e as isize - 1, rm, self.mantissa_max_bit_len())
         } else {
             self.set_exponent(e - 1);
+            Ok(())
         }
     }
 
diff --git a/astro-float-num/src/ops/atanh.rs b/astro-float-num/src/ops/atanh.rs
index 4a92ea0..e1f9d4b 100644
--- a/astro-float-num/src/ops/atanh.rs
+++ b/astro-float-num/src/ops/atanh.rs
@@ -69,7 +69,7 @@ impl BigFloatNumber {
 
             let mut ret = d3.ln(p_x, RoundingMode::None, cc)?;
 
-            ret.div_by_2(RoundingMode::None);
+            ret.div_by_2(RoundingMode::None)?;
 
             if ret.try_set_precision(p, rm, p_wrk)? {
                 ret.set_inexact(ret.inexact() | self.inexact());
diff --git a/astro-float-num/src/ops/cbrt.rs b/astro-float-num/src/ops/cbrt.rs
index b153560..9cc73cd 100644
--- a/astro-float-num/src/ops/cbrt.rs
+++ b/astro-float-num/src/ops/cbrt.rs
@@ -44,7 +44,7 @@ impl BigFloatNumber {
             let mut ret =
                 BigFloatNumber::from_raw_unchecked(m3, self.sign(), EXPONENT_MIN, inexact);
 
-            ret.subnormalize(e, rm);
+            ret.subnormalize(e, rm, p)?;
 
             Ok(ret)
         } else {
diff --git a/astro-float-num/src/ops/cosh.rs b/astro-float-num/src/ops/cosh.rs
index 87ecd83..62a74ec 100644
--- a/astro-float-num/src/ops/cosh.rs
+++ b/astro-float-num/src/ops/cosh.rs
@@ -59,7 +59,7 @@ impl BigFloatNumber {
                 ex.add(&xe, p_x, RoundingMode::None)
             }?;
 
-            ret.div_by_2(RoundingMode::None);
+            ret.div_by_2(RoundingMode::None)?;
 
             if ret.try_set_precision(p, rm, p_wrk)? {
                 ret.set_inexact(ret.inexact() | self.inexact());
diff --git a/astro-float-num/src/ops/pow.rs b/astro-float-num/src/ops/pow.rs
index 6c36a04..00e54c7 100644
--- a/astro-float-num/src/ops/pow.rs
+++ b/astro-float-num/src/ops/pow.rs
@@ -648,7 +648,7 @@ impl BigFloatNumber {
             let mut ret = Self::from_word(1, p)?;
             if pos + 1 < EXPONENT_MIN as i128 {
                 ret.set_exponent(EXPONENT_MIN);
-                ret.subnormalize((pos + 1).max(isize::MIN as i128 / 2) as isize, rm);
+                ret.subnormalize((pos + 1).max(isize::MIN as i128 / 2) as isize, rm, p)?;
             } else {
                 ret.set_exponent((pos + 1) as Exponent);
             }
diff --git a/astro-float-num/src/ops/sinh.rs b/astro-float-num/src/ops/sinh.rs
index d799f55..50dd51f 100644
--- a/astro-float-num/src/ops/sinh.rs
+++ b/astro-float-num/src/ops/sinh.rs
@@ -72,7 +72,7 @@ impl BigFloatNumber {
                     }
                 })?;
 
-                val.div_by_2(RoundingMode::None);
+                val.div_by_2(RoundingMode::None)?;
 
                 val
             };
diff --git a/astro-float-num/src/ops/sqrt.rs b/astro-float-num/src/ops/sqrt.rs
index b64aedf..bde1256 100644
--- a/astro-float-num/src/ops/sqrt.rs
+++ b/astro-float-num/src/ops/sqrt.rs
@@ -40,7 +40,7 @@ impl BigFloatNumber {
         if e < EXPONENT_MIN as isize {
             let mut ret = BigFloatNumber::from_raw_unchecked(m3, Sign::Pos, EXPONENT_MIN, inexact);
 
-            ret.subnormalize(e, rm);
+            ret.subnormalize(e, rm, p)?;
 
             Ok(ret)
         } else {
-- 
2.43.0


From 2266687bc9f4e5fb99e03ed45930bf0974fe3828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:25 +0000
Subject: [PATCH 09/37] fix: exp, pow, powi, sinh, cosh near the ends of the
 exponent range are rounded correctly instead of returning zero or infinity

---
 astro-float-num/src/ops/cosh.rs |  10 +-
 astro-float-num/src/ops/pow.rs  | 205 +++++++++++++++++++-------------
 astro-float-num/src/ops/sinh.rs |  11 +-
 3 files changed, 138 insertions(+), 88 deletions(-)

diff --git a/astro-float-num/src/ops/cosh.rs b/astro-float-num/src/ops/cosh.rs
index 62a74ec..50c8085 100644
--- a/astro-float-num/src/ops/cosh.rs
+++ b/astro-float-num/src/ops/cosh.rs
@@ -44,11 +44,17 @@ impl BigFloatNumber {
 
             x.set_sign(Sign::Pos);
 
+            let mut e = 0;
+
             let mut ret = if (x.exponent() as isize - 1) * 2 > x.mantissa_max_bit_len() as isize + 2
+                || x.exp_near_overflow()
             {
                 // e^x / 2
 
-                x.exp(p_x, RoundingMode::None, cc)
+                x.exp_scaled(p_x + WORD_BIT_SIZE, cc).map(|(v, n)| {
+                    e = n;
+                    v
+                })
             } else {
                 // (e^x + e^(-x)) / 2
 
@@ -61,7 +67,7 @@ impl BigFloatNumber {
 
             ret.div_by_2(RoundingMode::None)?;
 
-            if ret.try_set_precision(p, rm, p_wrk)? {
+            if let Some(mut ret) = ret.round_scaled(e, p, rm, p_wrk)? {
                 ret.set_inexact(ret.inexact() | self.inexact());
                 break Ok(ret);
             }
diff --git a/astro-float-num/src/ops/pow.rs b/astro-float-num/src/ops/pow.rs
index 00e54c7..e1480d8 100644
--- a/astro-float-num/src/ops/pow.rs
+++ b/astro-float-num/src/ops/pow.rs
@@ -4,7 +4,7 @@ use crate::common::consts::{FOUR, THREE};
 use crate::common::util::{calc_add_cost, calc_mul_cost, round_p};
 use crate::ops::consts::Consts;
 use crate::ops::util::compute_small_exp;
-use crate::{Exponent, EXPONENT_MAX, EXPONENT_MIN};
+use crate::{Exponent, EXPONENT_BIT_SIZE, EXPONENT_MAX, EXPONENT_MIN};
 use crate::{
     common::consts::ONE,
     defs::{Error, WORD_BIT_SIZE, WORD_SIGNIFICANT_BIT},
@@ -118,25 +118,14 @@ impl BigFloatNumber {
         loop {
             let p_x = p_wrk + 2;
 
-            let mut ret = if self.is_negative() {
-                let x = match self.exp_positive_arg(p_x, cc) {
-                    Ok(v) => Ok(v),
-                    Err(e) => match e {
-                        Error::ExponentOverflow(sign) => {
-                            return Self::new2(p, sign, self.inexact());
-                        }
-                        Error::DivisionByZero => Err(Error::DivisionByZero),
-                        Error::InvalidArgument => Err(Error::InvalidArgument),
-                        Error::MemoryAllocation => Err(Error::MemoryAllocation),
-                    },
-                }?;
-
-                ONE.div(&x, p_x, RoundingMode::FromZero)
-            } else {
-                self.exp_positive_arg(p_x, cc)
+            let (ret, e) = match self.exp_scaled(p_x, cc) {
+                Err(Error::ExponentOverflow(_)) if self.is_negative() => {
+                    return Self::underflow(p, rm);
+                }
+                v => v,
             }?;
 
-            if ret.try_set_precision(p, rm, p_wrk)? {
+            if let Some(mut ret) = ret.round_scaled(e, p, rm, p_wrk)? {
                 ret.set_inexact(ret.inexact() | self.inexact());
                 return Ok(ret);
             }
@@ -146,6 +135,89 @@ impl BigFloatNumber {
         }
     }
 
+    // exp which can be out of the exponent range: returns x and n such that e^self = x * 2^n.
+    pub(super) fn exp_scaled(&self, p: usize, cc: &mut Consts) -> Result<(Self, i128), Error> {
+        let split = self.exponent() as isize >= EXPONENT_BIT_SIZE as isize - 1;
+
+        let mut ret = if split {
+            let mut half = self.clone()?;
+            half.set_exponent(self.exponent() - 1);
+            half.exp_positive_arg(p, cc)
+        } else {
+            self.exp_positive_arg(p, cc)
+        }?;
+
+        if self.is_negative() {
+            ret = ONE.div(&ret, p, RoundingMode::FromZero)?;
+        }
+
+        if split {
+            let e = ret.exponent() as i128 * 2;
+            ret.set_exponent(0);
+            Ok((ret.mul(&ret, p, RoundingMode::FromZero)?, e))
+        } else {
+            Ok((ret, 0))
+        }
+    }
+
+    // True if e^|self| can exceed the exponent range, and e^-|self| is negligible.
+    pub(super) fn exp_near_overflow(&self) -> bool {
+        self.exponent() as isize >= EXPONENT_BIT_SIZE as isize - 1
+            && self.mantissa_max_bit_len() < EXPONENT_MAX as usize
+    }
+
+    // Positive value which is smaller than any positive number.
+    fn underflow(p: usize, rm: RoundingMode) -> Result<Self, Error> {
+        let mut ret = Self::from_word(1, p)?;
+        ret.set_exponent(EXPONENT_MIN);
+        ret.subnormalize(isize::MIN / 2, rm, p)?;
+        Ok(ret)
+    }
+
+    // Rounds self * 2^e to precision p if the first s digits of self are correct.
+    // Returns None if the number of correct digits is not sufficient.
+    pub(super) fn round_scaled(
+        mut self,
+        e: i128,
+        p: usize,
+        rm: RoundingMode,
+        s: usize,
+    ) -> Result<Option<Self>, Error> {
+        let mut e = self.exponent() as i128 + e;
+
+        if e > EXPONENT_MAX as i128 {
+            return Err(Error::ExponentOverflow(self.sign()));
+        }
+
+        if e >= EXPONENT_MIN as i128 {
+            self.set_exponent(e as Exponent);
+            let rounded = self.try_set_precision(p, rm, s)?;
+            return Ok(if rounded { Some(self) } else { None });
+        }
+
+        // subnormal
+        let p_sub = p as i128 + e - EXPONENT_MIN as i128;
+
+        if p_sub > 0 {
+            self.set_exponent(0);
+
+            if !self.try_set_precision(p_sub as usize, rm, s)? {
+                return Ok(None);
+            }
+
+            e += self.exponent() as i128;
+            self.set_precision(p, RoundingMode::None)?;
+        }
+
+        self.set_exponent(EXPONENT_MIN);
+
+        if e < EXPONENT_MIN as i128 {
+            self.subnormalize(e.max(isize::MIN as i128 / 2) as isize, rm, p)?;
+        }
+
+        Ok(Some(self))
+    }
+
     // exp for positive argument
     fn exp_positive_arg(&self, p: usize, cc: &mut Consts) -> Result<Self, Error> {
         debug_assert!(!self.is_zero());
@@ -257,7 +329,9 @@ impl BigFloatNumber {
         let mut i = n;
 
         if i == 0 {
-            return Self::from_word(1, p);
+            let mut ret = Self::from_word(1, p)?;
+            ret.set_inexact(update_inexact && self.inexact());
+            return Ok(ret);
         }
 
         if self.is_zero() || i == 1 {
@@ -287,59 +361,37 @@ impl BigFloatNumber {
         loop {
             let p_x = p_wrk + bit_pos * 2;
 
-            let mut ret = || -> Result<Self, Error> {
-                let mut x = self.clone()?;
-                x.set_inexact(false);
-
-                let mut c;
-                let arg = if self.inexact() {
-                    c = self.clone()?;
-                    c.set_inexact(false);
-                    &c
-                } else {
-                    self
-                };
+            // exponents are computed separately to avoid overflow and underflow.
+            let mut arg = self.clone()?;
+            arg.set_inexact(false);
+            arg.set_exponent(0);
 
-                x.set_precision(p_x, RoundingMode::FromZero)?;
+            let mut x = arg.clone()?;
+            x.set_precision(p_x, RoundingMode::FromZero)?;
 
-                // TODO: consider windowing and precomputed values.
-                let mut bp = bit_pos;
-                let mut j = i;
-                while bp > 0 {
-                    bp -= 1;
+            let mut e = self.exponent() as i128;
 
-                    x = x.mul(&x, p_x, RoundingMode::FromZero)?;
+            // TODO: consider windowing and precomputed values.
+            let mut bp = bit_pos;
+            let mut j = i;
+            while bp > 0 {
+                bp -= 1;
 
-                    if j & WORD_SIGNIFICANT_BIT as usize != 0 {
-                        x = x.mul(arg, p_x, RoundingMode::FromZero)?;
-                    }
+                x = x.mul(&x, p_x, RoundingMode::FromZero)?;
+                e *= 2;
 
-                    j <<= 1;
+                if j & WORD_SIGNIFICANT_BIT as usize != 0 {
+                    x = x.mul(&arg, p_x, RoundingMode::FromZero)?;
+                    e += self.exponent() as i128;
                 }
 
-                Ok(x)
-            }()
-            .map_err(|e| -> Error {
-                if let Error::ExponentOverflow(_) = e {
-                    Error::ExponentOverflow(if self.is_negative() && (n & 1 == 1) {
-                        Sign::Neg
-                    } else {
-                        Sign::Pos
-                    })
-                } else {
-                    e
-                }
-            })?;
+                e += x.exponent() as i128;
+                x.set_exponent(0);
 
-            if ret.exponent() == EXPONENT_MIN && ret.precision() == 1 {
-                if update_inexact {
-                    ret.set_inexact(ret.inexact() | self.inexact());
-                }
-                ret.set_precision(p, rm)?;
-                return Ok(ret);
+                j <<= 1;
             }
 
-            if ret.try_set_precision(p, rm, p_wrk)? {
+            if let Some(mut ret) = x.round_scaled(e, p, rm, p_wrk)? {
                 if update_inexact {
                     ret.set_inexact(ret.inexact() | self.inexact());
                 }
@@ -540,11 +592,11 @@ impl BigFloatNumber {
 
                 let ln = x.ln(p_ext, RoundingMode::None, cc)?;
 
-                let mut m = match y.mul(&ln, p_ext, RoundingMode::None) {
+                let m = match y.mul(&ln, p_ext, RoundingMode::None) {
                     Ok(v) => Ok(v),
                     Err(e) => match e {
                         Error::ExponentOverflow(Sign::Neg) => {
-                            return Self::new2(p, Sign::Pos, n.inexact() || ln.inexact());
+                            return Self::underflow(p, effective_rm);
                         }
                         Error::ExponentOverflow(Sign::Pos) => {
                             Err(Error::ExponentOverflow(Sign::Pos))
@@ -564,27 +616,14 @@ impl BigFloatNumber {
                     effective_rm
                 );
 
-                let mut ret = if m.is_negative() {
-                    m.set_sign(Sign::Pos);
-
-                    let u = match m.exp(p_ext, RoundingMode::None, cc) {
-                        Ok(v) => Ok(v),
-                        Err(e) => match e {
-                            Error::ExponentOverflow(sign) => {
-                                return Self::new2(p, sign, self.inexact());
-                            }
-                            Error::DivisionByZero => Err(Error::DivisionByZero),
-                            Error::InvalidArgument => Err(Error::InvalidArgument),
-                            Error::MemoryAllocation => Err(Error::MemoryAllocation),
-                        },
-                    }?;
-
-                    ONE.div(&u, p_ext, RoundingMode::FromZero)
-                } else {
-                    m.exp(p_ext, RoundingMode::None, cc)
+                let (ret, e) = match m.exp_scaled(p_ext + WORD_BIT_SIZE, cc) {
+                    Err(Error::ExponentOverflow(_)) if m.is_negative() => {
+                        return Self::underflow(p, effective_rm);
+                    }
+                    v => v,
                 }?;
 
-                if ret.try_set_precision(p, effective_rm, p_wrk)? {
+                if let Some(mut ret) = ret.round_scaled(e, p, effective_rm, p_wrk)? {
                     ret.set_inexact(ret.inexact() | self.inexact() | n.inexact());
                     return Ok(ret);
                 }
diff --git a/astro-float-num/src/ops/sinh.rs b/astro-float-num/src/ops/sinh.rs
index 50dd51f..edb7cb9 100644
--- a/astro-float-num/src/ops/sinh.rs
+++ b/astro-float-num/src/ops/sinh.rs
@@ -42,13 +42,18 @@ impl BigFloatNumber {
             let p_x = p_wrk + 4;
             x.set_precision(p_x, RoundingMode::None)?;
 
+            let mut e = 0;
+
             let mut ret = if x.exponent() <= 0 {
                 Self::sinh_series(x.clone()?, p_x, RoundingMode::None)?
             } else {
-                let mut val = if ethres > x.mantissa_max_bit_len() + 2 {
+                let mut val = if ethres > x.mantissa_max_bit_len() + 2 || x.exp_near_overflow() {
                     // e^|x| / 2 * signum(self)
 
-                    x.exp(p_x, RoundingMode::None, cc)
+                    x.exp_scaled(p_x + WORD_BIT_SIZE, cc).map(|(v, n)| {
+                        e = n;
+                        v
+                    })
                 } else {
                     // (e^x - e^(-x)) / 2
 
@@ -79,7 +84,7 @@ impl BigFloatNumber {
 
             ret.set_sign(self.sign());
 
-            if ret.try_set_precision(p, rm, p_wrk)? {
+            if let Some(mut ret) = ret.round_scaled(e, p, rm, p_wrk)? {
                 ret.set_inexact(ret.inexact() | self.inexact());
                 break Ok(ret);
             }
-- 
2.43.0


From 7e6e93fa50f72755f357b30523dbf64bac4f4643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:47 +0000
Subject: [PATCH 10/37] fix: roundability check uses only the known digits, and
 recognizes runs of ones in a partial word

---
 astro-float-num/src/mantissa/mantissa.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/astro-float-num/src/mantissa/mantissa.rs b/astro-float-num/src/mantissa/mantissa.rs
index 391fffa..b66f70a 100644
--- a/astro-float-num/src/mantissa/mantissa.rs
+++ b/astro-float-num/src/mantissa/mantissa.rs
@@ -901,6 +901,7 @@ impl Mantissa {
 
             if rm == RoundingMode::ToEven || rm == RoundingMode::ToOdd {
                 let n = n - 1;
+                cc = (n + s).saturating_sub(self.max_bit_len()) / WORD_BIT_SIZE; // the rounding bit itself is not counted
                 let mut rem_zero = true;
                 let mut td = 0; // either all bits set, or zero (default)
 
@@ -920,10 +921,9 @@ impl Mantissa {
 
                         if *check_roundable {
                             // try to get information from preceding bits
-                            let msk = rb & (WORD_MAX << (WORD_BIT_SIZE - t));
-                            if msk == rb {
+                            if rb == WORD_MAX << (WORD_BIT_SIZE - t) {
                                 td = WORD_MAX;
-                            } else if msk != 0 {
+                            } else if n + s > self.max_bit_len() {
                                 *check_roundable = false; // self is roundable
                             }
                         }
@@ -1010,10 +1010,9 @@ impl Mantissa {
 
                         if *check_roundable {
                             // try to get information from preceding bits
-                            let msk = rb & (WORD_MAX << (WORD_BIT_SIZE - t));
-                            if msk == rb {
+                            if rb == WORD_MAX << (WORD_BIT_SIZE - t) {
                                 td = WORD_MAX;
-                            } else if msk != 0 {
+                            } else if n + s > self.max_bit_len() {
                                 *check_roundable = false; // self is roundable
                             }
                         }
-- 
2.43.0


From f155db6f5b91f667136999c93dcd6f9dad596ce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:47 +0000
Subject: [PATCH 11/37] fix: pow with exponent one rounds to the precision
 rounded up to the word size

---
 astro-float-num/src/ops/pow.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/astro-float-num/src/ops/pow.rs b/astro-float-num/src/ops/pow.rs
index e1480d8..769e94d 100644
--- a/astro-float-num/src/ops/pow.rs
+++ b/astro-float-num/src/ops/pow.rs
@@ -544,7 +544,7 @@ impl BigFloatNumber {
         } else if n.exponent() == 1 && n.abs_cmp(&ONE) == 0 {
             if n.is_positive() {
                 let mut ret = self.clone()?;
-                ret.set_precision(p, rm)?;
+                ret.set_precision(round_p(p), rm)?;
                 ret.set_inexact(ret.inexact() || n.inexact());
                 return Ok(ret);
             } else {
-- 
2.43.0


From c1a16c4fc6cc17229ec356b50e8318c80b4d4199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:59 +0000
Subject: [PATCH 12/37] fix: comparisons order nonzero numbers after zero, and
 abs_cmp compares absolute values

---
 astro-float-num/src/ext.rs | 2 +-
 astro-float-num/src/num.rs | 2 ++
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/astro-float-num/src/ext.rs b/astro-float-num/src/ext.rs
index 60822c9..124a122 100644
--- a/astro-float-num/src/ext.rs
+++ b/astro-float-num/src/ext.rs
@@ -352,7 +352,7 @@ impl BigFloat {
     pub fn abs_cmp(&self, d2: &Self) -> Option<SignedWord> {
         match &self.inner {
             Flavor::Value(v1) => match &d2.inner {
-                Flavor::Value(v2) => Some(v1.cmp(v2)),
+                Flavor::Value(v2) => Some(v1.abs_cmp(v2)),
                 Flavor::Inf(_) => Some(-1),
                 Flavor::NaN(_) => None,
             },
diff --git a/astro-float-num/src/num.rs b/astro-float-num/src/num.rs
index cf946c6..141a641 100644
--- a/astro-float-num/src/num.rs
+++ b/astro-float-num/src/num.rs
@@ -827,6 +827,8 @@ impl BigFloatNumber {
             } else {
                 return -1;
             }
+        } else if d2.m.is_zero() {
+            return 1;
         }
 
         let n1 = self.mantissa_max_bit_len() as isize - self.precision() as isize;
-- 
2.43.0


From d6d74105bc1b97f9d935fc171404ebfd08d8f483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:20 +0000
Subject: [PATCH 13/37] fix: classify reports zero as zero

---
 astro-float-num/src/ext.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/astro-float-num/src/ext.rs b/astro-float-num/src/ext.rs
index 124a122..33c3f5e 100644
--- a/astro-float-num/src/ext.rs
+++ b/astro-float-num/src/ext.rs
@@ -737,10 +737,10 @@ impl BigFloat {
     pub fn classify(&self) -> FpCategory {
         match &self.inner {
             Flavor::Value(v) => {
-                if v.is_subnormal() {
-                    FpCategory::Subnormal
-                } else if v.is_zero() {
+                if v.is_zero() {
                     FpCategory::Zero
+                } else if v.is_subnormal() {
+                    FpCategory::Subnormal
                 } else {
                     FpCategory::Normal
                 }
-- 
2.43.0


From 19d15339b27375d7a340f748cbf5c451ebea32e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:20 +0000
Subject: [PATCH 14/37] fix: extreme value constructors refuse zero precision
 instead of panicking

---
 astro-float-num/src/mantissa/mantissa.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/astro-float-num/src/mantissa/mantissa.rs b/astro-float-num/src/mantissa/mantissa.rs
index b66f70a..e80ea71 100644
--- a/astro-float-num/src/mantissa/mantissa.rs
+++ b/astro-float-num/src/mantissa/mantissa.rs
@@ -54,6 +54,10 @@ impl Mantissa {
     pub fn oned_mantissa(p: usize) -> Result<Self, Error> {
         let mut m = Self::reserve_new(Self::bit_len_to_word_len(p))?;
 
+        if m.len() == 0 {
+            return Err(Error::InvalidArgument);
+        }
+
         let n = WORD_BIT_SIZE * m.len();
 
         m.fill(WORD_MAX);
@@ -65,6 +69,10 @@ impl Mantissa {
     pub fn min(p: usize) -> Result<Self, Error> {
         let mut m = Self::reserve_new(Self::bit_len_to_word_len(p))?;
 
+        if m.len() == 0 {
+            return Err(Error::InvalidArgument);
+        }
+
         m.fill(0);
 
         m[0] = 1;
-- 
2.43.0


From 1092bc5af143ff527f910358ad7a7fc20dbc8f07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:13 +0000
Subject: [PATCH 15/37] fix: from_f64 of zero has the requested precision

---
 astro-float-num/src/num.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/astro-float-num/src/num.rs b/astro-float-num/src/num.rs
index 141a641..f251ef1 100644
--- a/astro-float-num/src/num.rs
+++ b/astro-float-num/src/num.rs
@@ -870,7 +870,7 @@ impl BigFloatNumber {
         let mut ret = Self::new(0)?;
 
         if f == 0.0f64 {
-            return Ok(ret);
+            return Self::new(p);
         }
 
         if f.is_infinite() {
-- 
2.43.0


From b846041f81699a75140e75c142ea6f691de30920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:46 +0000
Subject: [PATCH 16/37] fix: parsing keeps the sign of zero

---
 astro-float-num/src/conv.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/astro-float-num/src/conv.rs b/astro-float-num/src/conv.rs
index 1d175c6..d012705 100644
--- a/astro-float-num/src/conv.rs
+++ b/astro-float-num/src/conv.rs
@@ -78,7 +78,7 @@ impl BigFloatNumber {
         rm: RoundingMode,
     ) -> Result<Self, Error> {
         if digits.is_empty() {
-            return Self::new(if p < usize::MAX { p } else { DEFAULT_P });
+            return Self::new2(if p < usize::MAX { p } else { DEFAULT_P }, sign, false);
         }
 
         Self::p_assertion(round_p(digits.len()))?;
@@ -284,7 +284,7 @@ impl BigFloatNumber {
         let leadzeroes = digits.iter().take_while(|&&x| x == 0).count();
 
         if digits.len() - leadzeroes == 0 {
-            return Self::new(if p < usize::MAX { p } else { DEFAULT_P });
+            return Self::new2(if p < usize::MAX { p } else { DEFAULT_P }, sign, false);
         }
 
         let k = log2_ceil(digits.len() - leadzeroes);
-- 
2.43.0


From 7f80015279cdf58c67e62c19a734dd8eec0f9bfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:56 +0000
Subject: [PATCH 17/37] fix: decimal numbers near the ends of the exponent
 range are parsed with correct rounding instead of hanging

---
 astro-float-num/src/conv.rs    | 8 +++++++-
 astro-float-num/src/ops/pow.rs | 2 +-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/astro-float-num/src/conv.rs b/astro-float-num/src/conv.rs
index d012705..1051601 100644
--- a/astro-float-num/src/conv.rs
+++ b/astro-float-num/src/conv.rs
@@ -329,7 +329,10 @@ impl BigFloatNumber {
         loop {
             let p_f = p_wrk + err;
 
+            // exponents are computed separately to avoid overflow and underflow.
             let mut f = x.clone()?;
+            let mut e = f.exponent() as i128;
+            f.set_exponent(0);
 
             if npowmax != 0 {
                 let fpnmax = TEN.powi(TEN_PWR_MAX_FROM_DEC, p_f, RoundingMode::None)?;
@@ -340,6 +343,9 @@ impl BigFloatNumber {
                     } else {
                         f = f.mul(&fpnmax, p_f, RoundingMode::None)?
                     }
+
+                    e += f.exponent() as i128;
+                    f.set_exponent(0);
                 }
             };
 
@@ -354,7 +360,7 @@ impl BigFloatNumber {
 
             f.set_sign(sign);
 
-            if f.try_set_precision(p, rm, p_wrk)? {
+            if let Some(f) = f.round_scaled(e, p, rm, p_wrk)? {
                 return Ok(f);
             }
 
diff --git a/astro-float-num/src/ops/pow.rs b/astro-float-num/src/ops/pow.rs
index 769e94d..80ea53a 100644
--- a/astro-float-num/src/ops/pow.rs
+++ b/astro-float-num/src/ops/pow.rs
@@ -176,7 +176,7 @@ impl BigFloatNumber {
 
     // Rounds self * 2^e to precision p if the first s digits of self are correct.
     // Returns None if the number of correct digits is not sufficient.
-    pub(super) fn round_scaled(
+    pub(crate) fn round_scaled(
         mut self,
         e: i128,
         p: usize,
-- 
2.43.0


From 5d428603e99a98c7d597f14b4e3c8a2023678bf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:56 +0000
Subject: [PATCH 18/37] fix: zero with a large exponent is parsed as zero, not
 as infinity

---
 astro-float-num/src/parser.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/astro-float-num/src/parser.rs b/astro-float-num/src/parser.rs
index 6f0aaf7..98e7ff9 100644
--- a/astro-float-num/src/parser.rs
+++ b/astro-float-num/src/parser.rs
@@ -145,7 +145,11 @@ fn parse_num(parser_state: &mut ParserState, rdx: Radix) -> Result<(), Error> {
             parser_state.mantissa_bytes = zero;
             parser_state.e = 0;
         } else if parser_state.e > EXPONENT_MAX as isize {
-            parser_state.inf = true;
+            if parser_state.mantissa_bytes.iter().all(|&d| d == 0) {
+                parser_state.e = 0;
+            } else {
+                parser_state.inf = true;
+            }
         }
     } else if skip_cnt1 > 0 {
         // just zeroes
-- 
2.43.0


From 2f2c34ff3ad0334691c4f3429bce73e88b27e5ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:21 +0000
Subject: [PATCH 19/37] fix: radix 2, 8, 16 numbers with leading zero digits or
 in the subnormal range are converted exactly and rounded once

---
 astro-float-num/src/conv.rs    | 91 +++-------------------------------
 astro-float-num/src/ops/pow.rs |  3 ++
 2 files changed, 10 insertions(+), 84 deletions(-)

diff --git a/astro-float-num/src/conv.rs b/astro-float-num/src/conv.rs
index 1051601..efce7c5 100644
--- a/astro-float-num/src/conv.rs
+++ b/astro-float-num/src/conv.rs
@@ -63,84 +63,13 @@ impl BigFloatNumber {
         }
 
         match rdx {
-            Radix::Bin => Self::conv_from_binary(sign, digits, e, p, rm),
+            Radix::Bin => Self::conv_from_commensurable(sign, digits, e, 1, p, rm),
             Radix::Oct => Self::conv_from_commensurable(sign, digits, e, 3, p, rm),
             Radix::Dec => Self::conv_from_dec(sign, digits, e, p, rm, cc),
             Radix::Hex => Self::conv_from_commensurable(sign, digits, e, 4, p, rm),
         }
     }
 
-    fn conv_from_binary(
-        sign: Sign,
-        digits: &[u8],
-        mut e: Exponent,
-        p: usize,
-        rm: RoundingMode,
-    ) -> Result<Self, Error> {
-        if digits.is_empty() {
-            return Self::new2(if p < usize::MAX { p } else { DEFAULT_P }, sign, false);
-        }
-
-        Self::p_assertion(round_p(digits.len()))?;
-
-        let mut mantissa = Mantissa::new(digits.len())?;
-        let mut d = 0;
-        let mut shift = digits.len() % WORD_BIT_SIZE;
-        if shift != 0 {
-            shift = WORD_BIT_SIZE - shift;
-        }
-
-        let mut dst = mantissa.digits_mut().iter_mut();
-
-        for v in digits.iter().rev() {
-            if *v > 1 {
-                return Err(Error::InvalidArgument);
-            }
-
-            d |= (*v as Word) << shift;
-            shift += 1;
-
-            if shift == WORD_BIT_SIZE {
-                *dst.next().unwrap() = d; // mantissa has precision of digits.len()
-                shift = 0;
-                d = 0;
-            }
-        }
-
-        if shift > 0 {
-            *dst.next().unwrap() = d; // mantissa has precision of digits.len()
-        }
-
-        mantissa.update_bit_len();
-
-        if p < usize::MAX {
-            let mut ret = BigFloatNumber::from_raw_unchecked(mantissa, sign, e, false);
-
-            ret.set_precision(p, rm)?;
-
-            Ok(ret)
-        } else {
-            let shift = mantissa.max_bit_len() - mantissa.bit_len();
-
-            if shift > 0 {
-                if e > EXPONENT_MIN {
-                    let e_shift = (e - EXPONENT_MIN) as usize;
-
-                    if e_shift >= shift {
-                        mantissa.normilize2();
-                        e -= shift as Exponent;
-                    } else {
-                        mantissa.shift_left(e_shift);
-                        mantissa.set_bit_len(mantissa.bit_len() + e_shift);
-                        e = EXPONENT_MIN;
-                    }
-                }
-            }
-
-            Ok(BigFloatNumber::from_raw_unchecked(mantissa, sign, e, false))
-        }
-    }
-
     // radix is power of 2.
     fn conv_from_commensurable(
         sign: Sign,
@@ -233,20 +162,13 @@ impl BigFloatNumber {
 
             let mut ret = if e < EXPONENT_MIN as isize {
                 if p < usize::MAX {
-                    let mut num = BigFloatNumber::from_raw_unchecked(m, sign, EXPONENT_MIN, false);
+                    // the exact value is rounded once
+                    let num = BigFloatNumber::from_raw_unchecked(m, sign, 0, false);
 
-                    if p + WORD_BIT_SIZE > num.mantissa_max_bit_len() {
-                        num.set_precision(p + WORD_BIT_SIZE, RoundingMode::None)?;
+                    match num.round_scaled(e as i128, p, rm, p)? {
+                        Some(num) => num,
+                        None => Self::new2(p, sign, true)?, // unreachable, because num is exact
                     }
-
-                    let num_p = num.mantissa_max_bit_len();
-                    num.subnormalize(e, RoundingMode::None, num_p)?;
-
-                    if num.inexact() {
-                        num.mantissa_mut().digits_mut()[0] |= 1; // sticky for correct rounding when calling set_precision()
-                    }
-
-                    num
                 } else {
                     let e_shift = (EXPONENT_MIN as isize - e) as usize;
                     let newbitlen = m.bit_len().saturating_add(e_shift);
@@ -257,6 +179,7 @@ impl BigFloatNumber {
 
                     let leftshift = m.max_bit_len() - newbitlen;
                     m.shift_left(leftshift);
+                    m.update_bit_len();
 
                     BigFloatNumber::from_raw_unchecked(m, sign, EXPONENT_MIN, false)
                 }
diff --git a/astro-float-num/src/ops/pow.rs b/astro-float-num/src/ops/pow.rs
index 80ea53a..ac2d9e3 100644
--- a/astro-float-num/src/ops/pow.rs
+++ b/astro-float-num/src/ops/pow.rs
@@ -206,6 +206,9 @@ impl BigFloatNumber {
             }
 
             e += self.exponent() as i128;
+        }
+
+        if p_sub > 0 || self.mantissa_max_bit_len() < p {
             self.set_precision(p, RoundingMode::None)?;
         }
 
-- 
2.43.0


From e4219253283831cb93066486b0d07d53789c4f5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:21 +0000
Subject: [PATCH 20/37] fix: decimal output keeps leading zeroes of the lower
 part of the digits

---
 astro-float-num/src/mantissa/conv.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/astro-float-num/src/mantissa/conv.rs b/astro-float-num/src/mantissa/conv.rs
index ed5c15c..bf353e4 100644
--- a/astro-float-num/src/mantissa/conv.rs
+++ b/astro-float-num/src/mantissa/conv.rs
@@ -72,9 +72,20 @@ impl Mantissa {
             let mut r = Mantissa::from_word_buf(r);
 
             if q.is_zero() {
-                let part1 = Self::conv_to_dec(&mut r, l / 2, tenpowers, p - 1, most_significant)?;
+                let mut part1 =
+                    Self::conv_to_dec(&mut r, l / 2, tenpowers, p - 1, most_significant)?;
 
-                Ok(part1)
+                if most_significant {
+                    Ok(part1)
+                } else {
+                    // keep leading zeroes
+                    let mut ret = Vec::new();
+                    ret.try_reserve_exact(l)?;
+                    ret.resize(l - part1.len(), 0);
+                    ret.append(&mut part1);
+
+                    Ok(ret)
+                }
             } else {
                 let mut part1 = Self::conv_to_dec(&mut r, l / 2, tenpowers, p - 1, false)?;
                 let mut part2 =
-- 
2.43.0


From 2e071ded2a32edca0f98974e59a6d2878d4bcb8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:19 +0000
Subject: [PATCH 21/37] fix: conversion of zero with zero precision to radix 8
 or 16 does not panic

---
 astro-float-num/src/conv.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/astro-float-num/src/conv.rs b/astro-float-num/src/conv.rs
index efce7c5..ff577ba 100644
--- a/astro-float-num/src/conv.rs
+++ b/astro-float-num/src/conv.rs
@@ -595,6 +595,10 @@ impl BigFloatNumber {
 
     /// Conversion for radixes of power of 2.
     fn conv_to_commensurable(&self, shift: usize) -> Result<(Sign, Vec<u8>, Exponent), Error> {
+        if self.mantissa_max_bit_len() == 0 {
+            return Ok((self.sign(), Vec::new(), 0));
+        }
+
         let mut e = self.exponent();
         let mut e_shift = e.unsigned_abs() as usize % shift;
         e /= shift as Exponent;
-- 
2.43.0


From 5761f25b95fb66b81f10af540fd1a50a7fcc796b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:19 +0000
Subject: [PATCH 22/37] fix: conversion to radix 8 or 16 reserves memory for
 all digits

---
 astro-float-num/src/conv.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/astro-float-num/src/conv.rs b/astro-float-num/src/conv.rs
index ff577ba..0a8c253 100644
--- a/astro-float-num/src/conv.rs
+++ b/astro-float-num/src/conv.rs
@@ -608,7 +608,7 @@ impl BigFloatNumber {
         }
 
         let mut ret = Vec::new();
-        ret.try_reserve_exact(self.mantissa_max_bit_len() / shift)?;
+        ret.try_reserve_exact(self.mantissa_max_bit_len() / shift + 3)?; // partial digits at both ends
 
         let mask = (WORD_MAX >> (WORD_BIT_SIZE - shift)) as DoubleWord;
         let mut iter = self.mantissa().digits().iter().rev();
-- 
2.43.0


From cae7ee8ecf12640f8673ce2fe8fbe6a35d86353c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:13 +0000
Subject: [PATCH 23/37] fix: constants and functions refuse a precision that is
 too large instead of panicking or hanging

---
 astro-float-num/src/ops/acos.rs        | 1 +
 astro-float-num/src/ops/acosh.rs       | 1 +
 astro-float-num/src/ops/asin.rs        | 1 +
 astro-float-num/src/ops/asinh.rs       | 1 +
 astro-float-num/src/ops/atan.rs        | 1 +
 astro-float-num/src/ops/atanh.rs       | 1 +
 astro-float-num/src/ops/consts/ln10.rs | 2 +-
 astro-float-num/src/ops/consts/mod.rs  | 4 ++++
 astro-float-num/src/ops/cos.rs         | 1 +
 astro-float-num/src/ops/cosh.rs        | 1 +
 astro-float-num/src/ops/log.rs         | 4 ++++
 astro-float-num/src/ops/pow.rs         | 3 +++
 astro-float-num/src/ops/sin.rs         | 1 +
 astro-float-num/src/ops/sinh.rs        | 1 +
 astro-float-num/src/ops/tan.rs         | 1 +
 astro-float-num/src/ops/tanh.rs        | 1 +
 16 files changed, 24 insertions(+), 1 deletion(-)

diff --git a/astro-float-num/src/ops/acos.rs b/astro-float-num/src/ops/acos.rs
index dc9e998..4fdf0e6 100644
--- a/astro-float-num/src/ops/acos.rs
+++ b/astro-float-num/src/ops/acos.rs
@@ -23,6 +23,7 @@ impl BigFloatNumber {
     ///  - MemoryAllocation: failed to allocate memory.
     pub fn acos(&self, p: usize, rm: RoundingMode, cc: &mut Consts) -> Result<Self, Error> {
         let p = round_p(p);
+        Self::p_assertion(p)?;
 
         let cmpone = self.abs_cmp(&ONE);
         if cmpone == 0 && self.is_positive() {
diff --git a/astro-float-num/src/ops/acosh.rs b/astro-float-num/src/ops/acosh.rs
index 93bef52..f9f43ba 100644
--- a/astro-float-num/src/ops/acosh.rs
+++ b/astro-float-num/src/ops/acosh.rs
@@ -23,6 +23,7 @@ impl BigFloatNumber {
     ///  - InvalidArgument: when `self` < 1, or the precision is incorrect.
     pub fn acosh(&self, p: usize, rm: RoundingMode, cc: &mut Consts) -> Result<Self, Error> {
         let p = round_p(p);
+        Self::p_assertion(p)?;
 
         let cmpone = self.cmp(&ONE);
         if cmpone == 0 {
diff --git a/astro-float-num/src/ops/asin.rs b/astro-float-num/src/ops/asin.rs
index 0f76d86..d2a2bf3 100644
--- a/astro-float-num/src/ops/asin.rs
+++ b/astro-float-num/src/ops/asin.rs
@@ -22,6 +22,7 @@ impl BigFloatNumber {
     ///  - MemoryAllocation: failed to allocate memory.
     pub fn asin(&self, p: usize, rm: RoundingMode, cc: &mut Consts) -> Result<Self, Error> {
         let p = round_p(p);
+        Self::p_assertion(p)?;
 
         if self.is_zero() {
             return Self::new2(p, self.sign(), self.inexact());
diff --git a/astro-float-num/src/ops/asinh.rs b/astro-float-num/src/ops/asinh.rs
index eadcd3a..78906fc 100644
--- a/astro-float-num/src/ops/asinh.rs
+++ b/astro-float-num/src/ops/asinh.rs
@@ -24,6 +24,7 @@ impl BigFloatNumber {
     ///  - InvalidArgument: the precision is incorrect.
     pub fn asinh(&self, p: usize, rm: RoundingMode, cc: &mut Consts) -> Result<Self, Error> {
         let p = round_p(p);
+        Self::p_assertion(p)?;
 
         if self.is_zero() {
             return Self::new2(p, self.sign(), self.inexact());
diff --git a/astro-float-num/src/ops/atan.rs b/astro-float-num/src/ops/atan.rs
index 0f40485..7366d12 100644
--- a/astro-float-num/src/ops/atan.rs
+++ b/astro-float-num/src/ops/atan.rs
@@ -89,6 +89,7 @@ impl BigFloatNumber {
     ///  - InvalidArgument: the precision is incorrect.
     pub fn atan(&self, p: usize, rm: RoundingMode, cc: &mut Consts) -> Result<Self, Error> {
         let p = round_p(p);
+        Self::p_assertion(p)?;
 
         if self.is_zero() {
             return Self::new2(p, self.sign(), self.inexact());
diff --git a/astro-float-num/src/ops/atanh.rs b/astro-float-num/src/ops/atanh.rs
index e1f9d4b..651adb8 100644
--- a/astro-float-num/src/ops/atanh.rs
+++ b/astro-float-num/src/ops/atanh.rs
@@ -22,6 +22,7 @@ impl BigFloatNumber {
     ///  - InvalidArgument: when |`self`| > 1, or the precision is incorrect.
     pub fn atanh(&self, p: usize, rm: RoundingMode, cc: &mut Consts) -> Result<Self, Error> {
         let p = round_p(p);
+        Self::p_assertion(p)?;
 
         if self.is_zero() {
             let mut ret = self.clone()?;
diff --git a/astro-float-num/src/ops/consts/ln10.rs b/astro-float-num/src/ops/consts/ln10.rs
index d7a452f..6ce6a19 100644
--- a/astro-float-num/src/ops/consts/ln10.rs
+++ b/astro-float-num/src/ops/consts/ln10.rs
@@ -92,7 +92,7 @@ impl Ln10Cache {
         let mut p_wrk = round_p(k) + p_inc;
 
         loop {
-            let kext = k * 1728 / 1000 + 4;
+            let kext = k / 1000 * 1728 + k % 1000 * 1728 / 1000 + 4;
 
             if self.b > kext {
                 let mut ret = self.val.clone()?;
diff --git a/astro-float-num/src/ops/consts/mod.rs b/astro-float-num/src/ops/consts/mod.rs
index 2a7f09b..d7c22b4 100644
--- a/astro-float-num/src/ops/consts/mod.rs
+++ b/astro-float-num/src/ops/consts/mod.rs
@@ -55,6 +55,7 @@ impl Consts {
     ///  - InvalidArgument: the precision is incorrect.
     pub(crate) fn pi_num(&mut self, p: usize, rm: RoundingMode) -> Result<BigFloatNumber, Error> {
         let p = round_p(p);
+        BigFloatNumber::p_assertion(p)?;
         self.pi.for_prec(p, rm)
     }
 
@@ -67,6 +68,7 @@ impl Consts {
     ///  - InvalidArgument: the precision is incorrect.
     pub(crate) fn e_num(&mut self, p: usize, rm: RoundingMode) -> Result<BigFloatNumber, Error> {
         let p = round_p(p);
+        BigFloatNumber::p_assertion(p)?;
         self.e.for_prec(p, rm)
     }
 
@@ -79,6 +81,7 @@ impl Consts {
     ///  - InvalidArgument: the precision is incorrect.
     pub(crate) fn ln_2_num(&mut self, p: usize, rm: RoundingMode) -> Result<BigFloatNumber, Error> {
         let p = round_p(p);
+        BigFloatNumber::p_assertion(p)?;
         self.ln2.for_prec(p, rm)
     }
 
@@ -95,6 +98,7 @@ impl Consts {
         rm: RoundingMode,
     ) -> Result<BigFloatNumber, Error> {
         let p = round_p(p);
+        BigFloatNumber::p_assertion(p)?;
         self.ln10.for_prec(p, rm)
     }
 
diff --git a/astro-float-num/src/ops/cos.rs b/astro-float-num/src/ops/cos.rs
index 99277c7..f7ac164 100644
--- a/astro-float-num/src/ops/cos.rs
+++ b/astro-float-num/src/ops/cos.rs
@@ -109,6 +109,7 @@ impl BigFloatNumber {
     ///  - InvalidArgument: the precision is incorrect.
     pub fn cos(&self, p: usize, rm: RoundingMode, cc: &mut Consts) -> Result<Self, Error> {
         let p = round_p(p);
+        Self::p_assertion(p)?;
 
         if self.is_zero() {
             let mut ret = Self::from_word(1, p)?;
diff --git a/astro-float-num/src/ops/cosh.rs b/astro-float-num/src/ops/cosh.rs
index 50c8085..7c11136 100644
--- a/astro-float-num/src/ops/cosh.rs
+++ b/astro-float-num/src/ops/cosh.rs
@@ -21,6 +21,7 @@ impl BigFloatNumber {
     ///  - InvalidArgument: the precision is incorrect.
     pub fn cosh(&self, p: usize, rm: RoundingMode, cc: &mut Consts) -> Result<Self, Error> {
         let p = round_p(p);
+        Self::p_assertion(p)?;
 
         if self.is_zero() {
             let mut ret = Self::from_word(1, p)?;
diff --git a/astro-float-num/src/ops/log.rs b/astro-float-num/src/ops/log.rs
index 291a614..6c1463f 100644
--- a/astro-float-num/src/ops/log.rs
+++ b/astro-float-num/src/ops/log.rs
@@ -93,6 +93,7 @@ impl BigFloatNumber {
     ///  - MemoryAllocation: failed to allocate memory.
     pub fn ln(&self, p: usize, rm: RoundingMode, cc: &mut Consts) -> Result<Self, Error> {
         let p = round_p(p);
+        Self::p_assertion(p)?;
 
         // factoring: ln(self) = ln(x * 2^n) = ln(x) + n*ln(2), 0.5 <= x < 1
         // reduction: ln(x) = 2*ln(sqrt(x))
@@ -221,6 +222,7 @@ impl BigFloatNumber {
     ///  - MemoryAllocation: failed to allocate memory.
     pub fn log2(&self, p: usize, rm: RoundingMode, cc: &mut Consts) -> Result<Self, Error> {
         let p = round_p(p);
+        Self::p_assertion(p)?;
 
         // log2(self) = ln(x * 2^n) / ln(2) = ln(x) / ln(2) + n, 0.5 <= x < 1
 
@@ -300,6 +302,7 @@ impl BigFloatNumber {
     ///  - MemoryAllocation: failed to allocate memory.
     pub fn log10(&self, p: usize, rm: RoundingMode, cc: &mut Consts) -> Result<Self, Error> {
         let p = round_p(p);
+        Self::p_assertion(p)?;
 
         // ln(self) / ln(10)
 
@@ -361,6 +364,7 @@ impl BigFloatNumber {
         cc: &mut Consts,
     ) -> Result<Self, Error> {
         let p = round_p(p);
+        Self::p_assertion(p)?;
 
         if self.is_zero() || self.is_negative() || n.is_zero() || n.is_negative() {
             return Err(Error::InvalidArgument);
diff --git a/astro-float-num/src/ops/pow.rs b/astro-float-num/src/ops/pow.rs
index ac2d9e3..fee811f 100644
--- a/astro-float-num/src/ops/pow.rs
+++ b/astro-float-num/src/ops/pow.rs
@@ -94,6 +94,7 @@ impl BigFloatNumber {
     ///  - InvalidArgument: the precision is incorrect.
     pub fn exp(&self, p: usize, rm: RoundingMode, cc: &mut Consts) -> Result<Self, Error> {
         let p = round_p(p);
+        Self::p_assertion(p)?;
 
         if self.is_zero() {
             let mut ret = Self::from_word(1, p)?;
@@ -328,6 +329,7 @@ impl BigFloatNumber {
         update_inexact: bool,
     ) -> Result<Self, Error> {
         let p = round_p(p);
+        Self::p_assertion(p)?;
 
         let mut i = n;
 
@@ -560,6 +562,7 @@ impl BigFloatNumber {
         // actual pow : self^n = e^(n * ln(self))
 
         let p = round_p(p);
+        Self::p_assertion(p)?;
 
         let mut x = self.clone()?;
         let mut y = n.clone()?;
diff --git a/astro-float-num/src/ops/sin.rs b/astro-float-num/src/ops/sin.rs
index dd8f87d..ace2010 100644
--- a/astro-float-num/src/ops/sin.rs
+++ b/astro-float-num/src/ops/sin.rs
@@ -109,6 +109,7 @@ impl BigFloatNumber {
     ///  - InvalidArgument: the precision is incorrect.
     pub fn sin(&self, p: usize, rm: RoundingMode, cc: &mut Consts) -> Result<Self, Error> {
         let p = round_p(p);
+        Self::p_assertion(p)?;
 
         if self.is_zero() {
             return Self::new2(p, self.sign(), self.inexact());
diff --git a/astro-float-num/src/ops/sinh.rs b/astro-float-num/src/ops/sinh.rs
index edb7cb9..bae942e 100644
--- a/astro-float-num/src/ops/sinh.rs
+++ b/astro-float-num/src/ops/sinh.rs
@@ -20,6 +20,7 @@ impl BigFloatNumber {
     ///  - InvalidArgument: the precision is incorrect.
     pub fn sinh(&self, p: usize, rm: RoundingMode, cc: &mut Consts) -> Result<Self, Error> {
         let p = round_p(p);
+        Self::p_assertion(p)?;
 
         if self.is_zero() {
             return Self::new2(p, self.sign(), self.inexact());
diff --git a/astro-float-num/src/ops/tan.rs b/astro-float-num/src/ops/tan.rs
index b1c58a8..ae175d8 100644
--- a/astro-float-num/src/ops/tan.rs
+++ b/astro-float-num/src/ops/tan.rs
@@ -72,6 +72,7 @@ impl BigFloatNumber {
     ///  - InvalidArgument: the precision is incorrect.
     pub fn tan(&self, p: usize, rm: RoundingMode, cc: &mut Consts) -> Result<Self, Error> {
         let p = round_p(p);
+        Self::p_assertion(p)?;
 
         if self.is_zero() {
             return Self::new2(p, self.sign(), self.inexact());
diff --git a/astro-float-num/src/ops/tanh.rs b/astro-float-num/src/ops/tanh.rs
index 797b325..b0cb0c4 100644
--- a/astro-float-num/src/ops/tanh.rs
+++ b/astro-float-num/src/ops/tanh.rs
@@ -23,6 +23,7 @@ impl BigFloatNumber {
     ///  - InvalidArgument: the precision is incorrect.
     pub fn tanh(&self, p: usize, rm: RoundingMode, cc: &mut Consts) -> Result<Self, Error> {
         let p = round_p(p);
+        Self::p_assertion(p)?;
 
         if self.is_zero() {
             return Self::new2(p, self.sign(), self.inexact());
-- 
2.43.0


From 14774dbd34fea769420a72bfdf9e739724694729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:13 +0000
Subject: [PATCH 24/37] fix: even integer power of negative zero is positive

---
 astro-float-num/src/ops/pow.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/astro-float-num/src/ops/pow.rs b/astro-float-num/src/ops/pow.rs
index fee811f..5cdc369 100644
--- a/astro-float-num/src/ops/pow.rs
+++ b/astro-float-num/src/ops/pow.rs
@@ -342,6 +342,10 @@ impl BigFloatNumber {
         if self.is_zero() || i == 1 {
             let mut ret = self.clone()?;
             ret.set_precision(p, rm)?;
+            if i & 1 == 0 {
+                // an even power of negative zero
+                ret.set_sign(Sign::Pos);
+            }
             return Ok(ret);
         }
 
-- 
2.43.0


From a160d64a346662a926d6f28ac69c0afec6e571ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:17 +0000
Subject: [PATCH 25/37] fix: powers of infinity and of minus one, and tanh of
 infinity, accept precisions below 8

---
 astro-float-num/src/ext.rs     | 12 ++++++++----
 astro-float-num/src/ops/pow.rs |  3 ++-
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/astro-float-num/src/ext.rs b/astro-float-num/src/ext.rs
index 33c3f5e..a02dd5b 100644
--- a/astro-float-num/src/ext.rs
+++ b/astro-float-num/src/ext.rs
@@ -397,7 +397,7 @@ impl BigFloat {
                         } else if val < 0 {
                             Self::new(p)
                         } else {
-                            Self::from_u8(1, p)
+                            Self::from_word(1, p)
                         }
                     }
                     Flavor::NaN(err) => Self::nan(*err),
@@ -408,7 +408,7 @@ impl BigFloat {
                     Flavor::Value(v2) => {
                         // inf ^ v2
                         if v2.is_zero() {
-                            Self::from_u8(1, p)
+                            Self::from_word(1, p)
                         } else if v2.is_positive() {
                             if s1.is_negative() && v2.is_odd_int() {
                                 // v2 is odd and has no fractional part.
@@ -444,7 +444,7 @@ impl BigFloat {
             Flavor::Inf(s1) => {
                 // inf ^ v2
                 if n == 0 {
-                    Self::from_u8(1, p)
+                    Self::from_word(1, p)
                 } else if s1.is_negative() && (n & 1 == 1) {
                     INF_NEG
                 } else {
@@ -769,7 +769,11 @@ impl BigFloat {
     pub fn tanh(&self, p: usize, rm: RoundingMode, cc: &mut Consts) -> Self {
         match &self.inner {
             Flavor::Value(v) => Self::result_to_ext(v.tanh(p, rm, cc), v.is_zero(), true),
-            Flavor::Inf(s) => Self::from_i8(s.to_int(), p),
+            Flavor::Inf(s) => {
+                let mut ret = Self::from_word(1, p);
+                ret.set_sign(*s);
+                ret
+            }
             Flavor::NaN(err) => Self::nan(*err),
         }
     }
diff --git a/astro-float-num/src/ops/pow.rs b/astro-float-num/src/ops/pow.rs
index 5cdc369..82d4568 100644
--- a/astro-float-num/src/ops/pow.rs
+++ b/astro-float-num/src/ops/pow.rs
@@ -536,7 +536,8 @@ impl BigFloatNumber {
         } else if self.exponent() == 1 && self.abs_cmp(&ONE) == 0 {
             // 1^n or (-1)^n
             if n.is_odd_int() {
-                let mut ret = Self::from_i8(self.sign().to_int(), p)?;
+                let mut ret = Self::from_word(1, p)?;
+                ret.set_sign(self.sign());
                 ret.set_inexact(self.inexact() || n.inexact());
                 return Ok(ret);
             } else {
-- 
2.43.0


From ba708de6d262ebb513a456ea0d36ab5e5f034dca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:17 +0000
Subject: [PATCH 26/37] fix: rem and log of infinity keep the error of a NaN
 argument

---
 astro-float-num/src/ext.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/astro-float-num/src/ext.rs b/astro-float-num/src/ext.rs
index a02dd5b..6bfdddf 100644
--- a/astro-float-num/src/ext.rs
+++ b/astro-float-num/src/ext.rs
@@ -317,7 +317,10 @@ impl BigFloat {
                 Flavor::Inf(_) => self.clone(),
                 Flavor::NaN(err) => Self::nan(*err),
             },
-            Flavor::Inf(_) => NAN,
+            Flavor::Inf(_) => match &d2.inner {
+                Flavor::NaN(err) => Self::nan(*err),
+                _ => NAN,
+            },
             Flavor::NaN(err) => Self::nan(*err),
         }
     }
@@ -483,7 +486,10 @@ impl BigFloat {
             Flavor::Inf(s1) => {
                 if *s1 == Sign::Neg {
                     // -inf.log(any)
-                    NAN
+                    match &n.inner {
+                        Flavor::NaN(err) => Self::nan(*err),
+                        _ => NAN,
+                    }
                 } else {
                     match &n.inner {
                         Flavor::Value(v2) => {
-- 
2.43.0


From 43734412d867cc27c5f5777074a3c5e407ab5b88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:17 +0000
Subject: [PATCH 27/37] fix: logarithm of zero to any base is infinite like ln,
 log2 and log10 of zero

---
 astro-float-num/src/ext.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/astro-float-num/src/ext.rs b/astro-float-num/src/ext.rs
index 6bfdddf..f2d56e3 100644
--- a/astro-float-num/src/ext.rs
+++ b/astro-float-num/src/ext.rs
@@ -470,6 +470,10 @@ impl BigFloat {
                         if v2.is_zero() {
                             return INF_NEG;
                         }
+                        if v1.is_zero() && v2.is_positive() {
+                            // 0.log(v2)
+                            return if v2.exponent() <= 0 { INF_POS } else { INF_NEG };
+                        }
                         Self::result_to_ext(v1.log(v2, p, rm, cc), false, true)
                     }
                     Flavor::Inf(s2) => {
-- 
2.43.0


From 60f611f49047169c1bf5f3233d94e6f36a07cc11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:17 +0000
Subject: [PATCH 28/37] fix: atan of negative infinity is rounded in the
 requested direction

---
 astro-float-num/src/ext.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/astro-float-num/src/ext.rs b/astro-float-num/src/ext.rs
index f2d56e3..89aeb57 100644
--- a/astro-float-num/src/ext.rs
+++ b/astro-float-num/src/ext.rs
@@ -1,5 +1,6 @@
 //! BigFloat including finite numbers, NaN, and `Inf`.
 
+use crate::common::util::invert_rm_for_sign;
 use crate::defs::SignedWord;
 use crate::defs::DEFAULT_P;
 use crate::num::BigFloatNumber;
@@ -794,6 +795,7 @@ impl BigFloat {
         rm: RoundingMode,
         cc: &mut Consts,
     ) -> Result<BigFloatNumber, Error> {
+        let rm = if s.is_negative() { invert_rm_for_sign(rm) } else { rm };
         let mut half_pi = cc.pi_num(p, rm)?;
 
         half_pi.set_exponent(1);
-- 
2.43.0


From 1e1c2caf6b57e52f068afd4740fae575cefdfbcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:38 +0000
Subject: [PATCH 29/37] fix: growing buffers report a memory allocation failure
 instead of aborting

---
 astro-float-num/src/common/buf.rs    | 4 +---
 astro-float-num/src/conv.rs          | 1 +
 astro-float-num/src/mantissa/conv.rs | 2 ++
 astro-float-num/src/ops/series.rs    | 1 +
 4 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/astro-float-num/src/common/buf.rs b/astro-float-num/src/common/buf.rs
index 844d8e5..b58475d 100644
--- a/astro-float-num/src/common/buf.rs
+++ b/astro-float-num/src/common/buf.rs
@@ -73,10 +73,8 @@ impl WordBuf {
     /// Try to exted the size to fit the precision p. Fill new elements with 0. Data is not moved.
     pub fn try_extend_2(&mut self, p: usize) -> Result<(), Error> {
         let n = (p + WORD_BIT_SIZE - 1) / WORD_BIT_SIZE;
-        if n > self.inner.capacity() {
-            self.inner.try_reserve(n - self.inner.capacity())?;
-        }
         if n > self.inner.len() {
+            self.inner.try_reserve(n - self.inner.len())?;
             self.inner.resize(n, 0);
         }
         Ok(())
diff --git a/astro-float-num/src/conv.rs b/astro-float-num/src/conv.rs
index 0a8c253..4ccc79c 100644
--- a/astro-float-num/src/conv.rs
+++ b/astro-float-num/src/conv.rs
@@ -421,6 +421,7 @@ impl BigFloatNumber {
 
                         let rsz = if digits.len() > n { n } else { digits.len() };
 
+                        digits.try_reserve((rsz + e_subn).saturating_sub(digits.len()))?;
                         digits.resize(rsz + e_subn, 0);
                         digits[rsz..].fill(0);
                         digits.rotate_right(e_subn);
diff --git a/astro-float-num/src/mantissa/conv.rs b/astro-float-num/src/mantissa/conv.rs
index bf353e4..955753b 100644
--- a/astro-float-num/src/mantissa/conv.rs
+++ b/astro-float-num/src/mantissa/conv.rs
@@ -112,6 +112,7 @@ impl Mantissa {
             let mut wb2 = WordBuf::new(1)?;
             wb2[0] = 10;
 
+            tenpowers.try_reserve(1)?;
             tenpowers.push((wb, wb2, shift));
         }
 
@@ -130,6 +131,7 @@ impl Mantissa {
 
                 let shift = Self::maximize(&mut wb);
 
+                tenpowers.try_reserve(1)?;
                 tenpowers.push((wb, wb2, shift));
             }
         }
diff --git a/astro-float-num/src/ops/series.rs b/astro-float-num/src/ops/series.rs
index 0a95814..54792f8 100644
--- a/astro-float-num/src/ops/series.rs
+++ b/astro-float-num/src/ops/series.rs
@@ -327,6 +327,7 @@ fn series_horner<T: PolycoeffGen>(
         let coeff = polycoeff_gen.next(RoundingMode::None)?;
         coef_p = -coeff.exponent() as isize;
         x_p += -x_step.exponent() as isize;
+        cache.try_reserve(1)?;
         cache.push(coeff.clone()?);
     }
 
-- 
2.43.0


From ac704d7bfafaa7ff81a804e84b9f04119092e42a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:39 +0000
Subject: [PATCH 30/37] fix: format returns an error instead of the text Err
 when memory allocation fails

---
 astro-float-num/src/ext.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/astro-float-num/src/ext.rs b/astro-float-num/src/ext.rs
index 89aeb57..dafebc5 100644
--- a/astro-float-num/src/ext.rs
+++ b/astro-float-num/src/ext.rs
@@ -709,7 +709,7 @@ impl BigFloat {
                             "-Inf"
                         }
                     }
-                    _ => "Err",
+                    e => return Err(e),
                 },
             },
             Flavor::Inf(sign) => {
-- 
2.43.0


From 0bc5dfa6b8ef52230481952f388686e798f3341f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:21 +0000
Subject: [PATCH 31/37] fix: expr macro does not round its arguments to the
 working precision and then take them as exact

---
 astro-float-macro/src/lib.rs      |  7 ++-----
 astro-float-num/src/macro_util.rs | 26 +++++++++++++++++++++++++-
 2 files changed, 27 insertions(+), 6 deletions(-)

diff --git a/astro-float-macro/src/lib.rs b/astro-float-macro/src/lib.rs
index 0d22876..5506514 100644
--- a/astro-float-macro/src/lib.rs
+++ b/astro-float-macro/src/lib.rs
@@ -411,10 +411,8 @@ fn traverse_path(expr: &ExprPath) -> Result<TokenStream, Error> {
         quote!({ cc.ln_10(p_wrk, astro_float::RoundingMode::None) })
     } else {
         quote!({
-            let mut arg = astro_float::BigFloat::from_ext((#expr).clone(), p_wrk, astro_float::RoundingMode::ToEven, cc);
-            arg.set_inexact(false);
-            arg = astro_float::macro_util::check_exponent_range(arg, emin, emax);
-            arg
+            let arg = <astro_float::BigFloat as astro_float::macro_util::FromArg<_>>::from_arg((#expr).clone(), p_wrk, cc);
+            astro_float::macro_util::check_exponent_range(arg, emin, emax)
         })
     })
 }
@@ -466,7 +464,6 @@ pub fn expr(input: proc_macro::TokenStream) -> proc_macro::TokenStream {
     let err_sz = err.len();
 
     let ret = quote!({
-        use astro_float::FromExt;
         use astro_float::ctx::Contextable;
 
         let mut ctx = &mut (#ctx);
diff --git a/astro-float-num/src/macro_util.rs b/astro-float-num/src/macro_util.rs
index ae0f796..e2e3569 100644
--- a/astro-float-num/src/macro_util.rs
+++ b/astro-float-num/src/macro_util.rs
@@ -3,7 +3,7 @@
 use crate::{
     common::util::{count_leading_ones, count_leading_zeroes_skip_first},
     defs::DEFAULT_P,
-    BigFloat, Consts, Exponent, RoundingMode, Sign, EXPONENT_BIT_SIZE, INF_NEG, INF_POS,
+    BigFloat, Consts, Exponent, Radix, RoundingMode, Sign, EXPONENT_BIT_SIZE, INF_NEG, INF_POS,
 };
 
 /// Computes error for BigFloat values near 1. This function is for internal use by macro `expr`.
@@ -212,6 +212,30 @@ pub fn compute_added_err(algo: ErrAlgo<'_>) -> usize {
     }
 }
 
+/// Conversion of an argument of an expression to `BigFloat`. This trait is for internal use by macro `expr`.
+pub trait FromArg<T> {
+    /// Converts `v` to `BigFloat`. The value of `v` is considered exact, and is not rounded,
+    /// unless it is a text which can not be converted exactly. In that case the precision `p` is used.
+    fn from_arg(v: T, p: usize, cc: &mut Consts) -> Self;
+}
+
+impl<T> FromArg<T> for BigFloat
+where
+    BigFloat: From<T>,
+{
+    fn from_arg(v: T, _p: usize, _cc: &mut Consts) -> Self {
+        let mut ret = BigFloat::from(v);
+        ret.set_inexact(false);
+        ret
+    }
+}
+
+impl FromArg<&str> for BigFloat {
+    fn from_arg(v: &str, p: usize, cc: &mut Consts) -> Self {
+        BigFloat::parse(v, Radix::Dec, p, RoundingMode::ToEven, cc)
+    }
+}
+
 /// Checks if the number's exponent is in the given exponent range.
 /// Returns Inf if the exponent of `n` is larger than `emax`.
 /// The sign of the infinity is determined by the sign of `n`.
-- 
2.43.0


From 9ecf4a4b0c99d784ee0190ad43a69605a918ec7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:38 +0000
Subject: [PATCH 32/37] fix: error compensation of addition and subtraction in
 expr macro stops at the minimum exponent of the context

---
 astro-float-macro/src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/astro-float-macro/src/lib.rs b/astro-float-macro/src/lib.rs
index 5506514..db04859 100644
--- a/astro-float-macro/src/lib.rs
+++ b/astro-float-macro/src/lib.rs
@@ -56,7 +56,7 @@ fn traverse_binary(
                 let ret = astro_float::BigFloat::add(&arg1, &arg2, p_wrk, astro_float::RoundingMode::None);
                 if arg1.inexact() || arg2.inexact() {
                     if let (Some(e1), Some(e2), Some(e3)) = (arg1.exponent(), arg2.exponent(), ret.exponent()) {
-                        if (e1 as isize - e2 as isize).abs() <= 1 && arg1.sign() != arg2.sign() {
+                        if (e1 as isize - e2 as isize).abs() <= 1 && arg1.sign() != arg2.sign() && e3 >= emin {
                             let newerr = (e1.max(e2) as isize - e3 as isize).unsigned_abs() + 1;
                             if errs[#errs_id] < newerr {
                                 errs[#errs_id] = newerr;
@@ -76,7 +76,7 @@ fn traverse_binary(
                 let ret = astro_float::BigFloat::sub(&arg1, &arg2, p_wrk, astro_float::RoundingMode::None);
                 if arg1.inexact() || arg2.inexact() {
                     if let (Some(e1), Some(e2), Some(e3)) = (arg1.exponent(), arg2.exponent(), ret.exponent()) {
-                        if (e1 as isize - e2 as isize).abs() <= 1 && arg1.sign() == arg2.sign() {
+                        if (e1 as isize - e2 as isize).abs() <= 1 && arg1.sign() == arg2.sign() && e3 >= emin {
                             let newerr = (e1.max(e2) as isize - e3 as isize).unsigned_abs() + 1;
                             if errs[#errs_id] < newerr {
                                 errs[#errs_id] = newerr;
-- 
2.43.0


From 87864170bab527bdfc40372af1e4935e7592ac7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:38 +0000
Subject: [PATCH 33/37] fix: expr macro compensates the error of the remainder
 of inexact values

---
 astro-float-macro/src/lib.rs | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/astro-float-macro/src/lib.rs b/astro-float-macro/src/lib.rs
index db04859..f63fe01 100644
--- a/astro-float-macro/src/lib.rs
+++ b/astro-float-macro/src/lib.rs
@@ -98,7 +98,25 @@ fn traverse_binary(
             quote!(astro_float::BigFloat::div(&(#left_expr), &(#right_expr), p_wrk, astro_float::RoundingMode::None))
         }
         BinOp::Rem(_) => {
-            quote!(astro_float::BigFloat::rem(&(#left_expr), &(#right_expr)))
+            err.push(2);
+            quote!({
+                let arg1 = #left_expr;
+                let arg2 = #right_expr;
+                let ret = astro_float::BigFloat::rem(&arg1, &arg2);
+                if arg1.inexact() || arg2.inexact() {
+                    if let (Some(e1), Some(e2), Some(e3)) = (arg1.exponent(), arg2.exponent(), ret.exponent()) {
+                        let e = if ret.is_zero() { e2 } else { e3 };
+                        if e >= emin {
+                            let newerr = (e1 as isize - e as isize).max(0) as usize + 2;
+                            if errs[#errs_id] < newerr {
+                                errs[#errs_id] = newerr;
+                                continue;
+                            }
+                        }
+                    }
+                }
+                ret
+            })
         }
         _ => return Err(Error::new(
             expr.span(),
-- 
2.43.0


From 9f7107e8d5a982af7e779da948db6aaac961a153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:38 +0000
Subject: [PATCH 34/37] fix: infinity and NaN literals in expr macro compile to
 these values

---
 astro-float-macro/src/util.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/astro-float-macro/src/util.rs b/astro-float-macro/src/util.rs
index 436128e..46a1ad4 100644
--- a/astro-float-macro/src/util.rs
+++ b/astro-float-macro/src/util.rs
@@ -29,8 +29,12 @@ pub fn str_to_bigfloat_expr(s: &str, span: Span, cc: &mut Consts) -> Result<Toke
             quote!(astro_float::Sign::Neg)
         };
         quote!(astro_float::macro_util::check_exponent_range(astro_float::BigFloat::from_raw_parts(&[#(#m),*], #n, #stoken, #e, #inexact), emin, emax))
+    } else if f.is_inf_pos() {
+        quote!(astro_float::INF_POS)
+    } else if f.is_inf_neg() {
+        quote!(astro_float::INF_NEG)
     } else {
-        quote!(astro_float::BigFloat::nan())
+        quote!(astro_float::NAN)
     };
 
     Ok(q)
-- 
2.43.0


From d9a04838350ec20723f705726cdf19621f90c4e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:27 +0000
Subject: [PATCH 35/37] fix: the digits of a long exponent are not dropped

---
 astro-float-num/src/parser.rs | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/astro-float-num/src/parser.rs b/astro-float-num/src/parser.rs
index 98e7ff9..ee671e6 100644
--- a/astro-float-num/src/parser.rs
+++ b/astro-float-num/src/parser.rs
@@ -242,12 +242,8 @@ fn parse_exp(parser_state: &mut ParserState, rdx: Radix) {
             _ => {}
         };
     }
-    let e_thres = EXPONENT_MAX.unsigned_abs().max(EXPONENT_MIN.unsigned_abs()) as isize;
     while let Some(c) = ch {
         if is_radix_digit(c, rdx) {
-            if parser_state.e > e_thres {
-                break;
-            }
             parser_state.e = parser_state.e.saturating_mul(rdx as isize);
             let digit = c.to_digit(rdx as u32).unwrap(); // call to unwrap() is unreachable, because c is surely a digit.
             parser_state.e = parser_state.e.saturating_add(digit as isize);
-- 
2.43.0


From 1b4463b8db4a6c56c576da4d56a3a00bb1a61553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:40 +0000
Subject: [PATCH 36/37] fix: zero results of set_precision and log2 have
 exponent 0

---
 astro-float-num/src/num.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/astro-float-num/src/num.rs b/astro-float-num/src/num.rs
index f251ef1..6aea899 100644
--- a/astro-float-num/src/num.rs
+++ b/astro-float-num/src/num.rs
@@ -1489,6 +1489,10 @@ impl BigFloatNumber {
 
         self.m.set_length(p)?;
 
+        if self.is_zero() {
+            self.e = 0;
+        }
+
         Ok(true)
     }
 
@@ -1522,7 +1526,7 @@ impl BigFloatNumber {
     pub(crate) fn from_usize(u: usize) -> Result<Self, Error> {
         let (shift, m) = Mantissa::from_usize(u)?;
         let s = Sign::Pos;
-        let e = (m.max_bit_len() - shift) as Exponent;
+        let e = if u == 0 { 0 } else { (m.max_bit_len() - shift) as Exponent };
 
         Ok(BigFloatNumber {
             m,
-- 
2.43.0


From e0282a13deb7a73bb408f33b174c0fd409c01574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:59 +0000
Subject: [PATCH 37/37] fix: keep the local variables of the code generated by
 expr! apart from the variables of the user

---
 astro-float-macro/src/lib.rs  | 8 +++++++-
 astro-float-macro/src/util.rs | 1 -
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/astro-float-macro/src/lib.rs b/astro-float-macro/src/lib.rs
index f63fe01..162e7f0 100644
--- a/astro-float-macro/src/lib.rs
+++ b/astro-float-macro/src/lib.rs
@@ -5,11 +5,17 @@
 #![deny(missing_docs)]
 #![deny(clippy::suspicious)]
 
+// The local variables of the generated code must not be visible to the expressions of the user.
+macro_rules! quote {
+    ($($t:tt)*) => {
+        quote::quote_spanned!(proc_macro2::Span::mixed_site()=> $($t)*)
+    };
+}
+
 mod util;
 
 use astro_float_num::{Consts, EXPONENT_BIT_SIZE};
 use proc_macro2::TokenStream;
-use quote::quote;
 use syn::{
     parse::Parse, spanned::Spanned, BinOp, Error, Expr, ExprBinary, ExprCall, ExprGroup, ExprLit,
     ExprParen, ExprPath, ExprUnary, Lit, Token, UnOp,
diff --git a/astro-float-macro/src/util.rs b/astro-float-macro/src/util.rs
index 46a1ad4..1b7d896 100644
--- a/astro-float-macro/src/util.rs
+++ b/astro-float-macro/src/util.rs
@@ -6,7 +6,6 @@ use astro_float_num::Radix;
 use astro_float_num::RoundingMode;
 use proc_macro2::Span;
 use proc_macro2::TokenStream;
-use quote::quote;
 use syn::spanned::Spanned;
 use syn::Error;
 use syn::ExprCall;
-- 
2.43.0

