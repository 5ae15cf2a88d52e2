From b4147189a052b7a8ddd0283c8b467569479d1d59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:26 +0000
Subject: [PATCH 01/15] fix: reserve the full extension in
 WordBuf::try_extend_2

---
 astro-float-num/src/common/buf.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/astro-float-num/src/common/buf.rs b/astro-float-num/src/common/buf.rs
index 844d8e5..93fb947 100644
--- a/astro-float-num/src/common/buf.rs
+++ b/astro-float-num/src/common/buf.rs
@@ -73,10 +73,9 @@ impl WordBuf {
     /// Try to exted the size to fit the precision p. Fill new elements with 0. Data is not moved.
     pub fn try_extend_2(&mut self, p: usize) -> Result<(), Error> {
         let n = (p + WORD_BIT_SIZE - 1) / WORD_BIT_SIZE;
-        if n > self.inner.capacity() {
-            self.inner.try_reserve(n - self.inner.capacity())?;
-        }
-        if n > self.inner.len() {
+        let l = self.inner.len();
+        if n > l {
+            self.inner.try_reserve(n - l)?;
             self.inner.resize(n, 0);
         }
         Ok(())
-- 
2.43.0


From 554d6d9586ba7ff8c8678b2a2169713dee04ab8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:26 +0000
Subject: [PATCH 02/15] fix: report allocation failure of the coefficient cache
 in series_horner

---
 astro-float-num/src/ops/series.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/astro-float-num/src/ops/series.rs b/astro-float-num/src/ops/series.rs
index 0a95814..54792f8 100644
--- a/astro-float-num/src/ops/series.rs
+++ b/astro-float-num/src/ops/series.rs
@@ -327,6 +327,7 @@ fn series_horner<T: PolycoeffGen>(
         let coeff = polycoeff_gen.next(RoundingMode::None)?;
         coef_p = -coeff.exponent() as isize;
         x_p += -x_step.exponent() as isize;
+        cache.try_reserve(1)?;
         cache.push(coeff.clone()?);
     }
 
-- 
2.43.0


From 6e1c490e2dac3c61bb7cd79f46d69b0b939794a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:26 +0000
Subject: [PATCH 03/15] fix: report allocation failure of the powers-of-ten
 cache

---
 astro-float-num/src/mantissa/conv.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/astro-float-num/src/mantissa/conv.rs b/astro-float-num/src/mantissa/conv.rs
index ed5c15c..af63f7d 100644
--- a/astro-float-num/src/mantissa/conv.rs
+++ b/astro-float-num/src/mantissa/conv.rs
@@ -101,6 +101,7 @@ impl Mantissa {
             let mut wb2 = WordBuf::new(1)?;
             wb2[0] = 10;
 
+            tenpowers.try_reserve(1)?;
             tenpowers.push((wb, wb2, shift));
         }
 
@@ -119,6 +120,7 @@ impl Mantissa {
 
                 let shift = Self::maximize(&mut wb);
 
+                tenpowers.try_reserve(1)?;
                 tenpowers.push((wb, wb2, shift));
             }
         }
-- 
2.43.0


From b9b1a50552c1c11ecf725af31d829dd4b02afb55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:19 +0000
Subject: [PATCH 04/15] fix: assume the worst cancellation when the trig
 argument remainder can not be computed

---
 astro-float-num/src/macro_util.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/astro-float-num/src/macro_util.rs b/astro-float-num/src/macro_util.rs
index ae0f796..b759555 100644
--- a/astro-float-num/src/macro_util.rs
+++ b/astro-float-num/src/macro_util.rs
@@ -92,6 +92,8 @@ pub fn compute_added_err(algo: ErrAlgo<'_>) -> usize {
                     let err = if e < 1 {
                         0
                     } else {
+                        // The remainder is NaN when memory can not be allocated for it.
+                        // In that case the cancellation is unknown, and the worst case is assumed.
                         let err = match fun {
                             TrigFun::Sin => {
                                 let pi = cc.pi(p, RoundingMode::None);
@@ -107,7 +109,7 @@ pub fn compute_added_err(algo: ErrAlgo<'_>) -> usize {
                                         p
                                     }
                                 } else {
-                                    argrem.exponent().map_or(0, |e| {
+                                    argrem.exponent().map_or(p, |e| {
                                         if e < 0 && e >= emin {
                                             e.unsigned_abs() as usize
                                         } else {
@@ -119,7 +121,9 @@ pub fn compute_added_err(algo: ErrAlgo<'_>) -> usize {
                             TrigFun::Cos => {
                                 let mut pi = cc.pi(p, RoundingMode::None);
                                 let mut argrem = arg.rem(&pi);
-                                if argrem.exponent().unwrap_or(0) == 1 {
+                                if argrem.is_nan() {
+                                    p
+                                } else if argrem.exponent().unwrap_or(0) == 1 {
                                     argrem.set_sign(Sign::Pos);
                                     pi.set_exponent(1);
                                     argrem = argrem.sub(&pi, p, RoundingMode::None);
@@ -130,7 +134,7 @@ pub fn compute_added_err(algo: ErrAlgo<'_>) -> usize {
                                             p
                                         }
                                     } else {
-                                        argrem.exponent().map_or(0, |e| {
+                                        argrem.exponent().map_or(p, |e| {
                                             if e < 0 && e >= emin {
                                                 e.unsigned_abs() as usize
                                             } else {
@@ -157,7 +161,7 @@ pub fn compute_added_err(algo: ErrAlgo<'_>) -> usize {
                                         p
                                     }
                                 } else {
-                                    argrem.exponent().map_or(0, |e| {
+                                    argrem.exponent().map_or(p, |e| {
                                         if e < emin {
                                             0
                                         } else {
-- 
2.43.0


From 1db42a182a86e0a42d5156a6aedbe9dadb62917d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:19 +0000
Subject: [PATCH 05/15] fix: reserve memory for all digits in conversion to
 radix

---
 astro-float-num/src/conv.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/astro-float-num/src/conv.rs b/astro-float-num/src/conv.rs
index f0c43ed..7621630 100644
--- a/astro-float-num/src/conv.rs
+++ b/astro-float-num/src/conv.rs
@@ -491,6 +491,10 @@ impl BigFloatNumber {
 
                         let rsz = if digits.len() > n { n } else { digits.len() };
 
+                        if rsz + e_subn > digits.len() {
+                            digits.try_reserve_exact(rsz + e_subn - digits.len())?;
+                        }
+
                         digits.resize(rsz + e_subn, 0);
                         digits[rsz..].fill(0);
                         digits.rotate_right(e_subn);
@@ -674,7 +678,9 @@ impl BigFloatNumber {
         }
 
         let mut ret = Vec::new();
-        ret.try_reserve_exact(self.mantissa_max_bit_len() / shift)?;
+        // The shift of the exponent can add a digit at the beginning,
+        // and the remaining bits of mantissa can add a digit at the end.
+        ret.try_reserve_exact(self.mantissa_max_bit_len() / shift + 2)?;
 
         let mask = (WORD_MAX >> (WORD_BIT_SIZE - shift)) as DoubleWord;
         let mut iter = self.mantissa().digits().iter().rev();
-- 
2.43.0


From a319d149459f93ec16d06618f030e522be89d7e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:09 +0000
Subject: [PATCH 06/15] fix: return the error from format instead of the string
 "Err"

---
 astro-float-num/src/ext.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/astro-float-num/src/ext.rs b/astro-float-num/src/ext.rs
index 60822c9..3026fdb 100644
--- a/astro-float-num/src/ext.rs
+++ b/astro-float-num/src/ext.rs
@@ -698,7 +698,7 @@ impl BigFloat {
                             "-Inf"
                         }
                     }
-                    _ => "Err",
+                    _ => return Err(e),
                 },
             },
             Flavor::Inf(sign) => {
-- 
2.43.0


From 019c1d315a5d8bfd2c3226d24f46867f5ae5ab65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:30 +0000
Subject: [PATCH 07/15] fix: do not panic in parsing and formatting when the
 thread's constants cache is unavailable

---
 astro-float-num/src/common/consts.rs | 36 ++++++++++++++++++++++++++--
 astro-float-num/src/ext.rs           | 18 ++++++--------
 2 files changed, 41 insertions(+), 13 deletions(-)

diff --git a/astro-float-num/src/common/consts.rs b/astro-float-num/src/common/consts.rs
index b7d55f4..ec3882b 100644
--- a/astro-float-num/src/common/consts.rs
+++ b/astro-float-num/src/common/consts.rs
@@ -4,7 +4,7 @@ use crate::{defs::DEFAULT_P, num::BigFloatNumber, Exponent, WORD_BIT_SIZE};
 use lazy_static::lazy_static;
 
 #[cfg(feature = "std")]
-use crate::ops::consts::Consts;
+use crate::{ops::consts::Consts, Error};
 #[cfg(feature = "std")]
 use core::cell::RefCell;
 
@@ -53,7 +53,39 @@ lazy_static! {
 // TODO: Consider using in std environment everywhere Consts are needed.
 #[cfg(feature = "std")]
 thread_local! {
-    pub static TENPOWERS: RefCell<Consts> = RefCell::new(Consts::new().expect("Failed to initialize thread-local constants cache"));
+    static TENPOWERS: RefCell<Option<Consts>> = const { RefCell::new(None) };
+}
+
+/// Calls `f` with the constants cache of the current thread.
+/// A temporary cache is passed to `f` if the cache of the thread is being used by a caller of this function,
+/// or if the cache is already destroyed, because the thread is exiting.
+///
+/// ## Errors
+///
+///  - MemoryAllocation: failed to allocate memory for the cache.
+///  - an error returned by `f`.
+#[cfg(feature = "std")]
+pub(crate) fn with_tenpowers<T>(
+    f: impl Fn(&mut Consts) -> Result<T, Error>,
+) -> Result<T, Error> {
+    let ret = TENPOWERS.try_with(|tp| {
+        let mut tp = tp.try_borrow_mut().ok()?;
+
+        let cc = match tp.as_mut() {
+            Some(cc) => cc,
+            None => match Consts::new() {
+                Ok(cc) => tp.insert(cc),
+                Err(err) => return Some(Err(err)),
+            },
+        };
+
+        Some(f(cc))
+    });
+
+    match ret {
+        Ok(Some(ret)) => ret,
+        _ => f(&mut Consts::new()?),
+    }
 }
 
 pub const TRIG_EXP_THRES: Exponent = -(WORD_BIT_SIZE as Exponent);
diff --git a/astro-float-num/src/ext.rs b/astro-float-num/src/ext.rs
index 3026fdb..54bc724 100644
--- a/astro-float-num/src/ext.rs
+++ b/astro-float-num/src/ext.rs
@@ -14,7 +14,7 @@ use core::num::FpCategory;
 use lazy_static::lazy_static;
 
 #[cfg(feature = "std")]
-use core::fmt::Write;
+use {crate::common::consts::with_tenpowers, core::fmt::Write};
 
 #[cfg(not(feature = "std"))]
 use alloc::{string::String, vec::Vec};
@@ -653,10 +653,10 @@ impl BigFloat {
         w: &mut T,
         rdx: Radix,
         rm: RoundingMode,
-        cc: &mut Consts,
     ) -> Result<(), core::fmt::Error> {
         match &self.inner {
-            Flavor::Value(v) => match v.format(rdx, rm, cc) {
+            // `w` is called after the cache is released, because `w` can use the cache too.
+            Flavor::Value(v) => match with_tenpowers(|cc| v.format(rdx, rm, cc)) {
                 Ok(s) => w.write_str(&s),
                 Err(e) => match e {
                     Error::ExponentOverflow(s) => {
@@ -1584,10 +1584,9 @@ impl FromStr for BigFloat {
     /// Returns parsed number or NAN in case of error.
     /// The implementation is not available in no_std environment.
     fn from_str(src: &str) -> Result<BigFloat, Self::Err> {
-        let bf = crate::common::consts::TENPOWERS.with(|tp| {
-            let cc = &mut tp.borrow_mut();
-            BigFloat::parse(src, Radix::Dec, usize::MAX, RoundingMode::ToEven, cc)
-        });
+        let bf = with_tenpowers(|cc| {
+            Ok(BigFloat::parse(src, Radix::Dec, usize::MAX, RoundingMode::ToEven, cc))
+        })?;
 
         if bf.is_nan() {
             if let Some(err) = bf.err() {
@@ -1629,10 +1628,7 @@ macro_rules! impl_format_rdx {
             /// Formats the number.
             /// The implementation is not available in no_std environment.
             fn fmt(&self, f: &mut Formatter<'_>) -> Result<(), core::fmt::Error> {
-                crate::common::consts::TENPOWERS.with(|tp| {
-                    let cc = &mut tp.borrow_mut();
-                    self.write_str(f, $rdx, RoundingMode::ToEven, cc)
-                })
+                self.write_str(f, $rdx, RoundingMode::ToEven)
             }
         }
     };
-- 
2.43.0


From 2e3ae8aeee8920db8b7038a3772732751d1e3036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:33 +0000
Subject: [PATCH 08/15] fix: return an error from serialize when the number can
 not be formatted

---
 astro-float-num/src/for_3rd/ser.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/astro-float-num/src/for_3rd/ser.rs b/astro-float-num/src/for_3rd/ser.rs
index 734beb2..6152977 100644
--- a/astro-float-num/src/for_3rd/ser.rs
+++ b/astro-float-num/src/for_3rd/ser.rs
@@ -1,12 +1,19 @@
 //! Serialization of BigFloat.
 //! Serialization to a string uses decimal radix.
 
+use crate::common::consts::with_tenpowers;
 use crate::BigFloat;
+use crate::Radix;
+use crate::RoundingMode;
+use serde::ser::Error;
 use serde::{Serialize, Serializer};
 
 impl Serialize for BigFloat {
     fn serialize<S: Serializer>(&self, serializer: S) -> Result<S::Ok, S::Error> {
-        serializer.serialize_str(&self.to_string())
+        let s = with_tenpowers(|cc| self.format(Radix::Dec, RoundingMode::ToEven, cc))
+            .map_err(S::Error::custom)?;
+
+        serializer.serialize_str(&s)
     }
 }
 
-- 
2.43.0


From db57ee37a8c680917f26570b21fb6b0e141c902a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:55 +0000
Subject: [PATCH 09/15] fix: overflow of the random exponent in random_normal

---
 astro-float-num/src/num.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/astro-float-num/src/num.rs b/astro-float-num/src/num.rs
index f477fb9..2efaa67 100644
--- a/astro-float-num/src/num.rs
+++ b/astro-float-num/src/num.rs
@@ -1321,7 +1321,8 @@ impl BigFloatNumber {
 
         let m = Mantissa::random_normal(p)?;
         let e = if exp_from < exp_to {
-            (rand::random::<isize>().abs() % (exp_to as isize - exp_from as isize)
+            ((rand::random::<isize>().unsigned_abs()
+                % (exp_to as isize - exp_from as isize).unsigned_abs()) as isize
                 + exp_from as isize) as Exponent
         } else {
             exp_from
-- 
2.43.0


From bafd1f3ab7050c36c714e87bd6efb3b3dc7e46a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:59 +0000
Subject: [PATCH 10/15] fix: random_normal returns zero if all random words are
 zero

---
 astro-float-num/src/mantissa/mantissa.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/astro-float-num/src/mantissa/mantissa.rs b/astro-float-num/src/mantissa/mantissa.rs
index 352ea0d..07cf3ba 100644
--- a/astro-float-num/src/mantissa/mantissa.rs
+++ b/astro-float-num/src/mantissa/mantissa.rs
@@ -1161,6 +1161,12 @@ impl Mantissa {
         for v in m.iter_mut() {
             *v = rand::random::<Word>();
         }
+        if m.iter().all(|v| *v == 0) {
+            // zero is excluded
+            if let Some(v) = m.last_mut() {
+                *v = WORD_SIGNIFICANT_BIT;
+            }
+        }
         let mut ret = Mantissa { m, n: 0 };
         if !ret.is_all_zero() {
             Self::maximize(&mut ret.m);
-- 
2.43.0


From b25ecd887e90f1f9e2769f69d9c4ed061bf971d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:26 +0000
Subject: [PATCH 11/15] fix: do not allocate memory infallibly to report an
 error from deserialize

---
 astro-float-num/src/for_3rd/de.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/astro-float-num/src/for_3rd/de.rs b/astro-float-num/src/for_3rd/de.rs
index 6efc628..c840828 100644
--- a/astro-float-num/src/for_3rd/de.rs
+++ b/astro-float-num/src/for_3rd/de.rs
@@ -27,28 +27,28 @@ impl<'de> Visitor<'de> for BigFloatVisitor {
     fn visit_u64<E: Error>(self, v: u64) -> Result<Self::Value, E> {
         match BigFloatNumber::from_usize(v as usize) {
             Ok(o) => Ok(o.into()),
-            Err(e) => Err(Error::custom(format!("{e:?}"))),
+            Err(e) => Err(Error::custom(format_args!("{e:?}"))),
         }
     }
 
     fn visit_f32<E: Error>(self, v: f32) -> Result<Self::Value, E> {
         match BigFloatNumber::from_f64(64, v as f64) {
             Ok(o) => Ok(o.into()),
-            Err(e) => Err(Error::custom(format!("{e:?}"))),
+            Err(e) => Err(Error::custom(format_args!("{e:?}"))),
         }
     }
 
     fn visit_f64<E: Error>(self, v: f64) -> Result<Self::Value, E> {
         match BigFloatNumber::from_f64(64, v) {
             Ok(o) => Ok(o.into()),
-            Err(e) => Err(Error::custom(format!("{e:?}"))),
+            Err(e) => Err(Error::custom(format_args!("{e:?}"))),
         }
     }
 
     fn visit_str<E: Error>(self, v: &str) -> Result<Self::Value, E> {
         match BigFloat::from_str(v) {
             Ok(o) => Ok(o),
-            Err(e) => Err(Error::custom(format!("{e:?}"))),
+            Err(e) => Err(Error::custom(format_args!("{e:?}"))),
         }
     }
 
-- 
2.43.0


From e6090615aa9ac7c879ea08f84cfb46430ae55ad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:54 +0000
Subject: [PATCH 12/15] fix: report the failure to compute the trig argument
 remainder in expr!

Assuming the worst cancellation gave a number computed with more precision than
without the failure, and so a different one when the precision was not yet settled.
---
 astro-float-macro/src/lib.rs      | 14 +++++++++-----
 astro-float-num/src/macro_util.rs | 18 ++++++++++++------
 2 files changed, 21 insertions(+), 11 deletions(-)

diff --git a/astro-float-macro/src/lib.rs b/astro-float-macro/src/lib.rs
index 0d22876..5fe4c25 100644
--- a/astro-float-macro/src/lib.rs
+++ b/astro-float-macro/src/lib.rs
@@ -176,12 +176,16 @@ fn trig_fun(
         let arg = astro_float::macro_util::check_exponent_range(#arg, emin, emax);
 
         let newerr = astro_float::macro_util::compute_added_err(astro_float::macro_util::ErrAlgo::Trig(&arg, p_wrk, #errfun, cc, emin));
-        if errs[#errs_id] < newerr {
-            errs[#errs_id] = newerr;
-            continue;
-        }
+        if newerr == astro_float::macro_util::ADDED_ERR_UNKNOWN {
+            astro_float::BigFloat::nan(Some(astro_float::Error::MemoryAllocation))
+        } else {
+            if errs[#errs_id] < newerr {
+                errs[#errs_id] = newerr;
+                continue;
+            }
 
-        #fun(&arg, p_wrk, astro_float::RoundingMode::None, cc)
+            #fun(&arg, p_wrk, astro_float::RoundingMode::None, cc)
+        }
     }))
 }
 
diff --git a/astro-float-num/src/macro_util.rs b/astro-float-num/src/macro_util.rs
index b759555..c1b9c73 100644
--- a/astro-float-num/src/macro_util.rs
+++ b/astro-float-num/src/macro_util.rs
@@ -25,6 +25,10 @@ pub fn compute_added_err_near_one(arg: &BigFloat, emin: Exponent) -> usize {
     }
 }
 
+/// Returned by `compute_added_err` for a trigonometric function when the remainder of the argument
+/// can not be computed because memory can not be allocated.
+pub const ADDED_ERR_UNKNOWN: usize = usize::MAX;
+
 #[derive(Debug)]
 pub enum TrigFun {
     Sin,
@@ -92,8 +96,6 @@ pub fn compute_added_err(algo: ErrAlgo<'_>) -> usize {
                     let err = if e < 1 {
                         0
                     } else {
-                        // The remainder is NaN when memory can not be allocated for it.
-                        // In that case the cancellation is unknown, and the worst case is assumed.
                         let err = match fun {
                             TrigFun::Sin => {
                                 let pi = cc.pi(p, RoundingMode::None);
@@ -109,7 +111,7 @@ pub fn compute_added_err(algo: ErrAlgo<'_>) -> usize {
                                         p
                                     }
                                 } else {
-                                    argrem.exponent().map_or(p, |e| {
+                                    argrem.exponent().map_or(ADDED_ERR_UNKNOWN, |e| {
                                         if e < 0 && e >= emin {
                                             e.unsigned_abs() as usize
                                         } else {
@@ -122,7 +124,7 @@ pub fn compute_added_err(algo: ErrAlgo<'_>) -> usize {
                                 let mut pi = cc.pi(p, RoundingMode::None);
                                 let mut argrem = arg.rem(&pi);
                                 if argrem.is_nan() {
-                                    p
+                                    ADDED_ERR_UNKNOWN
                                 } else if argrem.exponent().unwrap_or(0) == 1 {
                                     argrem.set_sign(Sign::Pos);
                                     pi.set_exponent(1);
@@ -134,7 +136,7 @@ pub fn compute_added_err(algo: ErrAlgo<'_>) -> usize {
                                             p
                                         }
                                     } else {
-                                        argrem.exponent().map_or(p, |e| {
+                                        argrem.exponent().map_or(ADDED_ERR_UNKNOWN, |e| {
                                             if e < 0 && e >= emin {
                                                 e.unsigned_abs() as usize
                                             } else {
@@ -161,7 +163,7 @@ pub fn compute_added_err(algo: ErrAlgo<'_>) -> usize {
                                         p
                                     }
                                 } else {
-                                    argrem.exponent().map_or(p, |e| {
+                                    argrem.exponent().map_or(ADDED_ERR_UNKNOWN, |e| {
                                         if e < emin {
                                             0
                                         } else {
@@ -172,6 +174,10 @@ pub fn compute_added_err(algo: ErrAlgo<'_>) -> usize {
                             }
                         };
 
+                        if err == ADDED_ERR_UNKNOWN {
+                            return err;
+                        }
+
                         err + e.unsigned_abs() as usize
                     };
 
-- 
2.43.0


From b1f59c8e329d08641c4e97dfcac168db5d655130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:10 +0000
Subject: [PATCH 13/15] fix: bound the work to parse a decimal number far below
 the smallest one

The number of digits correct in the quotient is judged against the working
precision although the quotient is zero because of underflow, so that the
working precision was increased until the smallest number could be reached.
---
 astro-float-num/src/conv.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/astro-float-num/src/conv.rs b/astro-float-num/src/conv.rs
index 7621630..7d0b334 100644
--- a/astro-float-num/src/conv.rs
+++ b/astro-float-num/src/conv.rs
@@ -311,6 +311,13 @@ impl BigFloatNumber {
             p
         };
 
+        // a value far below the smallest number is rounded in the same way whatever its exponent is.
+        let nmin = (me as i64 - EXPONENT_MIN as i64 + 4 * WORD_BIT_SIZE as i64)
+            .saturating_add(p as i64)
+            .saturating_mul(30103)
+            / 100000;
+        let n = (n as i64).max(-nmin - 1) as isize;
+
         let mut p_inc = WORD_BIT_SIZE;
         let mut p_wrk = p + p_inc;
 
-- 
2.43.0


From 191aaa1e4f303f08af815dc7b2abb8ee21463845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:51 +0000
Subject: [PATCH 14/15] fix: pow does not return if the result is exact

The precision was increased until the approximation of the result becomes
roundable, which never happens when the result is exact and the rounding is
directed (2^3 rounded up), or is in the middle between two numbers.
---
 astro-float-num/src/ops/pow.rs | 37 ++++++++++++++++++++++++++++++++++
 1 file changed, 37 insertions(+)

diff --git a/astro-float-num/src/ops/pow.rs b/astro-float-num/src/ops/pow.rs
index cfcfab5..a1c498b 100644
--- a/astro-float-num/src/ops/pow.rs
+++ b/astro-float-num/src/ops/pow.rs
@@ -583,6 +583,12 @@ impl BigFloatNumber {
                     return Ok(ret);
                 }
 
+                // an approximation of an exact result may never become roundable
+                if let Some(mut ret) = x.pow_exact(&y, p, effective_rm)? {
+                    ret.set_inexact(ret.inexact() | self.inexact() | n.inexact());
+                    return Ok(ret);
+                }
+
                 p_wrk += p_inc;
                 p_inc = round_p(p_wrk / 5);
             }
@@ -599,6 +605,37 @@ impl BigFloatNumber {
             },
         }
     }
+
+    /// Computes the power of positive `self` to the `n` with precision `p` using only roots, multiplications and division.
+    /// The result is rounded using the rounding mode `rm`.
+    /// If it is not possible, because some of the roots is not exact, then the function returns None.
+    pub(super) fn pow_exact(
+        &self,
+        n: &Self,
+        p: usize,
+        rm: RoundingMode,
+    ) -> Result<Option<Self>, Error> {
+        let mut x = self.clone()?;
+        let mut n = n.clone()?;
+
+        // self^n = sqrt(self)^(2*n)
+        while !n.is_int() {
+            x = x.sqrt(x.mantissa_max_bit_len(), RoundingMode::None)?;
+            if x.inexact() {
+                return Ok(None);
+            }
+
+            n.set_exponent(n.exponent() + 1);
+        }
+
+        match n.int_as_usize() {
+            Ok(i) if i <= isize::MAX as usize => {
+                let i = if n.is_negative() { -(i as isize) } else { i as isize };
+                x.powsi(i, p, rm).map(Some)
+            }
+            _ => Ok(None),
+        }
+    }
 }
 
 #[cfg(test)]
-- 
2.43.0


From 4a6ebec0890dcb619dc6a6690677d824650fa129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:51 +0000
Subject: [PATCH 15/15] fix: log does not return if the result is exact

The power of the base was compared with the argument using the approximation
of the result, which is not equal to the exact result (log base 10 of 1000).
---
 astro-float-num/src/ops/log.rs | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/astro-float-num/src/ops/log.rs b/astro-float-num/src/ops/log.rs
index 40cecbc..a5c9ea1 100644
--- a/astro-float-num/src/ops/log.rs
+++ b/astro-float-num/src/ops/log.rs
@@ -389,18 +389,19 @@ impl BigFloatNumber {
                 ret.set_inexact(ret.inexact() | self.inexact() | n.inexact());
                 return Ok(ret);
             } else {
-                // check if the result is exact
-                let pwr = y.pow(
-                    &ret2,
-                    p_x.max(self.mantissa_max_bit_len()),
-                    RoundingMode::None,
-                    cc,
-                )?;
-
-                if pwr.cmp(self) == 0 {
-                    ret2.set_inexact(ret2.inexact() | self.inexact() | n.inexact());
-                    ret2.set_precision(p, rm)?;
-                    return Ok(ret2);
+                // check if the result is exact, i.e. it is a number with few significant digits
+                ret2.set_precision(64, RoundingMode::ToEven)?;
+                ret2.set_inexact(self.inexact() | n.inexact());
+
+                match y.pow_exact(&ret2, self.mantissa_max_bit_len(), RoundingMode::None) {
+                    Ok(Some(pwr)) => {
+                        if !pwr.inexact() && pwr.cmp(self) == 0 {
+                            ret2.set_precision(p, rm)?;
+                            return Ok(ret2);
+                        }
+                    }
+                    Err(Error::MemoryAllocation) => return Err(Error::MemoryAllocation),
+                    _ => {}
                 }
             }
 
-- 
2.43.0

