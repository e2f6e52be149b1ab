From b6d1caab04809a3d00ad0d7351b55d80fd3f36c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:39:35 +0000
Subject: [PATCH 01/59] fix: WrappingAdd for primitive integers subtracted

---
 crates/traits/src/__impl.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/traits/src/__impl.rs b/crates/traits/src/__impl.rs
index 741e976..8f0e30b 100644
--- a/crates/traits/src/__impl.rs
+++ b/crates/traits/src/__impl.rs
@@ -170,7 +170,7 @@ macro_rules! impl_int {
             type Output = $ty;
 
             fn wrapping_add(self, rhs: Self) -> Self::Output {
-                <$ty>::wrapping_sub(self, rhs)
+                <$ty>::wrapping_add(self, rhs)
             }
         }
 
-- 
2.43.0


From 55de4ed6aeda9dc4ffd415222b054b3a06ec6683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:39:35 +0000
Subject: [PATCH 02/59] fix: checked shifts truncated the shift amount to 32
 bits

---
 crates/traits/src/__impl.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/crates/traits/src/__impl.rs b/crates/traits/src/__impl.rs
index 8f0e30b..d0b6f3f 100644
--- a/crates/traits/src/__impl.rs
+++ b/crates/traits/src/__impl.rs
@@ -76,7 +76,7 @@ macro_rules! checked_shift {
             type Output = $ty;
 
             fn checked_shl(self, rhs: usize) -> Option<Self> {
-                <$ty>::checked_shl(self, rhs as u32)
+                <$ty>::checked_shl(self, rhs.try_into().ok()?)
             }
         }
 
@@ -84,7 +84,7 @@ macro_rules! checked_shift {
             type Output = $ty;
 
             fn checked_shr(self, rhs: usize) -> Option<Self> {
-                <$ty>::checked_shr(self, rhs as u32)
+                <$ty>::checked_shr(self, rhs.try_into().ok()?)
             }
         }
     };
@@ -266,7 +266,7 @@ macro_rules! impl_int {
             type Output = $ty;
 
             fn checked_shl(self, rhs: Self) -> Option<Self> {
-                <$ty>::checked_shl(self, rhs as u32)
+                <$ty>::checked_shl(self, rhs.try_into().ok()?)
             }
         }
 
@@ -274,7 +274,7 @@ macro_rules! impl_int {
             type Output = $ty;
 
             fn checked_shr(self, rhs: Self) -> Option<Self> {
-                <$ty>::checked_shr(self, rhs as u32)
+                <$ty>::checked_shr(self, rhs.try_into().ok()?)
             }
         }
 
-- 
2.43.0


From 4edc4e65b228ba5e75e9120e08f2c3cfa25a7760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:39:35 +0000
Subject: [PATCH 03/59] fix: gcd of signed integers could be negative, or
 overflow on MIN % -1

---
 crates/traits/src/__impl.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/crates/traits/src/__impl.rs b/crates/traits/src/__impl.rs
index d0b6f3f..5a0498f 100644
--- a/crates/traits/src/__impl.rs
+++ b/crates/traits/src/__impl.rs
@@ -160,9 +160,13 @@ macro_rules! impl_int {
 
                 let [mut min, mut max] = minmax(self, rhs);
                 while min != 0 {
-                    (min, max) = (max % min, min);
+                    (min, max) = (max.wrapping_rem(min), min);
+                }
+                if max < <$ty>::default() {
+                    <$ty>::default() - max
+                } else {
+                    max
                 }
-                max
             }
         }
 
-- 
2.43.0


From dff5071eb3f0814399a9b0e93052978dec800a35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:39:35 +0000
Subject: [PATCH 04/59] fix: Signed::is_positive of zero contradicted its
 documentation

---
 crates/traits/src/__impl.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/traits/src/__impl.rs b/crates/traits/src/__impl.rs
index 5a0498f..5022fc1 100644
--- a/crates/traits/src/__impl.rs
+++ b/crates/traits/src/__impl.rs
@@ -329,7 +329,7 @@ macro_rules! impl_sint {
 
             #[inline]
             fn is_positive(&self) -> bool {
-                <$ty>::is_positive(*self)
+                *self >= 0
             }
 
             #[inline]
-- 
2.43.0


From 2a9c8544a902ee906d6f11ffe72653e34bcf83e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:39:35 +0000
Subject: [PATCH 05/59] fix: saturating isize to i16/i32 casts truncated

---
 crates/traits/src/__impl.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/crates/traits/src/__impl.rs b/crates/traits/src/__impl.rs
index 5022fc1..9de3e9f 100644
--- a/crates/traits/src/__impl.rs
+++ b/crates/traits/src/__impl.rs
@@ -864,8 +864,8 @@ mod _isize {
         i16,
         u_less = [],
         u_greater_eq = [usize],
-        s_less_eq = [isize],
-        s_greater = [],
+        s_less_eq = [],
+        s_greater = [isize],
     );
     saturate_sint_impl!(
         i32,
@@ -897,15 +897,15 @@ mod _isize {
         i16,
         u_less = [],
         u_greater_eq = [usize],
-        s_less_eq = [isize],
-        s_greater = [],
+        s_less_eq = [],
+        s_greater = [isize],
     );
     saturate_sint_impl!(
         i32,
         u_less = [],
         u_greater_eq = [usize],
-        s_less_eq = [isize],
-        s_greater = [],
+        s_less_eq = [],
+        s_greater = [isize],
     );
     saturate_sint_impl!(
         i64,
-- 
2.43.0


From 1f0596fa15e6605e7719b383b230200ab5cca377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:39:35 +0000
Subject: [PATCH 06/59] fix: NonZero is_one was true for every value

---
 crates/traits/src/__impl/nz.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/traits/src/__impl/nz.rs b/crates/traits/src/__impl/nz.rs
index 36fce39..17238a4 100644
--- a/crates/traits/src/__impl/nz.rs
+++ b/crates/traits/src/__impl/nz.rs
@@ -13,7 +13,7 @@ macro_rules! impl_nz {
             }
 
             fn is_one(&self) -> bool {
-                self.get() != 0
+                self.get() == 1
             }
         }
 
-- 
2.43.0


From e1c37d16fa0bd9ada6a2aa605e39362a03678fcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:47:11 +0000
Subject: [PATCH 07/59] fix: slice comparison started at the least significant
 element

---
 crates/bits/src/algos/element/cmp.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/bits/src/algos/element/cmp.rs b/crates/bits/src/algos/element/cmp.rs
index 057b19e..9d77093 100644
--- a/crates/bits/src/algos/element/cmp.rs
+++ b/crates/bits/src/algos/element/cmp.rs
@@ -10,7 +10,7 @@ pub trait ElementCmp: BitSliceExt {
         let zero = Self::Bit::zero();
         let len = usize::max(left.len(), right.len());
         // let iter = Iterator::zip(left.iter(), right.iter());
-        for idx in 0..len {
+        for idx in (0..len).rev() {
             match Ord::cmp(
                 &left.get_opt(idx).unwrap_or(zero),
                 &right.get_opt(idx).unwrap_or(zero),
-- 
2.43.0


From 8c88c4dbc89f94d7dce5a7a0bc0661a8cfa2ec6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:47:11 +0000
Subject: [PATCH 08/59] fix: element subtraction with a borrow returned the
 wrong magnitude

---
 crates/bits/src/algos/element/sub.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/bits/src/algos/element/sub.rs b/crates/bits/src/algos/element/sub.rs
index db2448c..212eec9 100644
--- a/crates/bits/src/algos/element/sub.rs
+++ b/crates/bits/src/algos/element/sub.rs
@@ -1,4 +1,4 @@
-use crate::algos::element::ElementNot;
+use crate::algos::element::{ElementAdd, ElementNot};
 use crate::bit_slice::BitSliceExt;
 use crate::utils::IntSlice;
 #[cfg(feature = "std")]
@@ -44,8 +44,9 @@ pub trait ElementSub: BitSliceExt {
         }
 
         if carry {
-            out.set_bit(0, !out.get_bit(0));
+            // Two's complement: invert and add one
             ElementNot::not(&mut out);
+            ElementAdd::add_wrapping(&mut out, &[one]);
         }
 
         (IntSlice::shrink(out), carry)
-- 
2.43.0


From a94ded20db1ed210f5631add23ec92728ef77973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:47:11 +0000
Subject: [PATCH 09/59] fix: bitwise subtraction with a borrow returned the
 wrong magnitude

---
 crates/bits/src/algos/bitwise/sub.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/crates/bits/src/algos/bitwise/sub.rs b/crates/bits/src/algos/bitwise/sub.rs
index cd701fd..87707af 100644
--- a/crates/bits/src/algos/bitwise/sub.rs
+++ b/crates/bits/src/algos/bitwise/sub.rs
@@ -1,8 +1,8 @@
-use crate::algos::ElementNot;
+use crate::algos::{ElementAdd, ElementNot};
 use crate::bit_slice::BitSliceExt;
 #[cfg(feature = "std")]
 use alloc::{vec, vec::Vec};
-use numeric_traits::identity::Zero;
+use numeric_traits::identity::{One, Zero};
 
 pub trait BitwiseSub: BitSliceExt {
     #[cfg(feature = "std")]
@@ -44,8 +44,9 @@ pub trait BitwiseSub: BitSliceExt {
         }
 
         if carry {
-            out.set_bit(0, !out.get_bit(0));
+            // Two's complement: invert and add one
             ElementNot::not(&mut out);
+            ElementAdd::add_wrapping(&mut out, &[Self::Bit::one()]);
         }
 
         (out, carry)
-- 
2.43.0


From 6725c120d3162b71a69dd7ec5a5db4a80d24b9ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:47:11 +0000
Subject: [PATCH 10/59] fix: right shift by a whole element or more underflowed
 the index

---
 crates/bits/src/algos/element/shr.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/crates/bits/src/algos/element/shr.rs b/crates/bits/src/algos/element/shr.rs
index e055d45..ceb8ae0 100644
--- a/crates/bits/src/algos/element/shr.rs
+++ b/crates/bits/src/algos/element/shr.rs
@@ -20,17 +20,17 @@ pub trait ElementShr: BitSliceExt {
             let high = val << inverse_elem_shift;
             let low = val >> elem_shift;
 
-            if idx != 0 {
-                let high = (out.get_opt(idx - arr_shift).unwrap_or(zero) & !elem_mask)
-                    | (high & elem_mask);
+            if let Some(idx) = usize::checked_sub(idx, arr_shift) {
+                let high = (out.get_opt(idx).unwrap_or(zero) & !elem_mask) | (high & elem_mask);
 
-                out.set_ignore(idx - arr_shift, high);
+                out.set_ignore(idx, high);
             }
 
-            let low =
-                (out.get_opt(idx + 1 - arr_shift).unwrap_or(zero) & elem_mask) | (low & !elem_mask);
+            if let Some(idx) = usize::checked_sub(idx + 1, arr_shift) {
+                let low = (out.get_opt(idx).unwrap_or(zero) & elem_mask) | (low & !elem_mask);
 
-            out.set_ignore(idx + 1 - arr_shift, low);
+                out.set_ignore(idx, low);
+            }
         });
 
         IntSlice::shrink(out)
-- 
2.43.0


From 4791086b7f9c656b7daff0df7f2129754e86f97a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:47:11 +0000
Subject: [PATCH 11/59] fix: in-place right shift kept stale top bits

---
 crates/bits/src/algos/element/shr.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/bits/src/algos/element/shr.rs b/crates/bits/src/algos/element/shr.rs
index ceb8ae0..ebdff6f 100644
--- a/crates/bits/src/algos/element/shr.rs
+++ b/crates/bits/src/algos/element/shr.rs
@@ -58,7 +58,8 @@ pub trait ElementShr: BitSliceExt {
             }
 
             if let Some(idx) = usize::checked_sub(idx + 1, arr_shift) {
-                let low = (left.get_opt(idx).unwrap_or(zero) & elem_mask) | (low & !elem_mask);
+                // The upper bits are filled in by the next element, if there is one
+                let low = low & !elem_mask;
 
                 left.set_ignore(idx, low);
             }
-- 
2.43.0


From a0d4cde6d3705e75accb91ea11f1321203438af7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:47:11 +0000
Subject: [PATCH 12/59] fix: in-place right shift by the full bit length
 underflowed

---
 crates/bits/src/algos/element/shr.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/bits/src/algos/element/shr.rs b/crates/bits/src/algos/element/shr.rs
index ebdff6f..7d31667 100644
--- a/crates/bits/src/algos/element/shr.rs
+++ b/crates/bits/src/algos/element/shr.rs
@@ -64,7 +64,7 @@ pub trait ElementShr: BitSliceExt {
                 left.set_ignore(idx, low);
             }
         });
-        let empty = left.len() - arr_shift + 1;
+        let empty = left.len() + 1 - arr_shift;
         left.slice_mut()[empty..].fill(zero);
 
         left
-- 
2.43.0


From 1484a3591e2e3e818d6911341e433fe4d67e0fec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:47:11 +0000
Subject: [PATCH 13/59] fix: wrapping shifts altered in-range amounts when the
 bit length is not a power of two

---
 crates/bits/src/algos/element/shl.rs | 4 +---
 crates/bits/src/algos/element/shr.rs | 3 +--
 2 files changed, 2 insertions(+), 5 deletions(-)

diff --git a/crates/bits/src/algos/element/shl.rs b/crates/bits/src/algos/element/shl.rs
index 2a58669..765e316 100644
--- a/crates/bits/src/algos/element/shl.rs
+++ b/crates/bits/src/algos/element/shl.rs
@@ -1,6 +1,5 @@
 #[cfg(feature = "std")]
 use alloc::{vec, vec::Vec};
-use numeric_traits::cast::FromTruncating;
 use numeric_traits::class::Bounded;
 use numeric_traits::identity::Zero;
 
@@ -82,8 +81,7 @@ pub trait ElementShl: BitSliceExt {
     /// the shift value if it is greater than the number of bits in the left-hand side.
     fn shl_wrapping(left: &mut Self, right: usize) -> &mut Self {
         let bit_len = left.bit_len();
-        let num_zeroes = usize::truncate_from(bit_len.leading_zeros()) + 1;
-        Self::inner_shl_wrap_and_mask(left, right & usize::MAX >> num_zeroes)
+        Self::inner_shl_wrap_and_mask(left, right % bit_len)
     }
 }
 
diff --git a/crates/bits/src/algos/element/shr.rs b/crates/bits/src/algos/element/shr.rs
index 7d31667..f4bc482 100644
--- a/crates/bits/src/algos/element/shr.rs
+++ b/crates/bits/src/algos/element/shr.rs
@@ -84,8 +84,7 @@ pub trait ElementShr: BitSliceExt {
     /// the shift value if it is greater than the number of bits in the left-hand side.
     fn shr_wrapping(left: &mut Self, right: usize) -> &mut Self {
         let bit_len = left.bit_len();
-        let num_zeroes = (bit_len.leading_zeros() as usize) + 1;
-        Self::inner_shr_wrap_and_mask(left, right & usize::MAX >> num_zeroes)
+        Self::inner_shr_wrap_and_mask(left, right % bit_len)
     }
 }
 
-- 
2.43.0


From 54e49f8d16ecd994e6e26910c0ea392c33052a12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:47:11 +0000
Subject: [PATCH 14/59] fix: overflowing slice multiplication missed products
 past the end of the slice

---
 crates/bits/src/algos/element/mul.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/bits/src/algos/element/mul.rs b/crates/bits/src/algos/element/mul.rs
index 242f165..bb45252 100644
--- a/crates/bits/src/algos/element/mul.rs
+++ b/crates/bits/src/algos/element/mul.rs
@@ -35,7 +35,8 @@ pub trait ElementMul: BitSliceExt {
 
     fn add_item(&mut self, mut idx: usize, mut val: Self::Bit) -> bool {
         let slice = self.slice_mut();
-        let mut carry = false;
+        // Anything added past the end of the slice is lost
+        let mut carry = val != Self::Bit::zero();
 
         while let Some(loc) = slice.get_mut(idx) {
             let (new, new_carry) = loc.overflowing_add(val);
-- 
2.43.0


From 2c2dfff08195db5d2f830f763fdfdf55d8a74b69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:47:11 +0000
Subject: [PATCH 15/59] fix: overflowing slice addition missed overflow into
 elements the left side lacks

---
 crates/bits/src/algos/element/add.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/crates/bits/src/algos/element/add.rs b/crates/bits/src/algos/element/add.rs
index d592ff8..4e6e6f3 100644
--- a/crates/bits/src/algos/element/add.rs
+++ b/crates/bits/src/algos/element/add.rs
@@ -47,6 +47,7 @@ pub trait ElementAdd: BitSliceExt {
         let one = Self::Bit::one();
 
         let mut carry = false;
+        let mut lost = false;
 
         for idx in 0..len {
             let l = left.get_opt(idx).unwrap_or(zero);
@@ -61,10 +62,12 @@ pub trait ElementAdd: BitSliceExt {
                 carry = true;
             }
 
-            left.set_ignore(idx, res);
+            if left.set_opt(idx, res).is_none() && res != zero {
+                lost = true;
+            }
         }
 
-        (left, carry)
+        (left, carry || lost)
     }
 
     /// Add two slices, implemented as checked element-wise add and carry
-- 
2.43.0


From cc57c75c2c44a09a0c680f4262168f906af72da8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:47:11 +0000
Subject: [PATCH 16/59] fix: bitwise in-place addition always indexed out of
 bounds

---
 crates/bits/src/algos/bitwise/add.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/crates/bits/src/algos/bitwise/add.rs b/crates/bits/src/algos/bitwise/add.rs
index 69ec20d..5a8e58b 100644
--- a/crates/bits/src/algos/bitwise/add.rs
+++ b/crates/bits/src/algos/bitwise/add.rs
@@ -56,12 +56,10 @@ pub trait BitwiseAdd: BitSliceExt {
     where
         T: BitSliceExt<Bit = Self::Bit>,
     {
-        let bit_len = usize::max(left.bit_len(), right.bit_len());
-
         let mut carry = false;
-        for idx in 0..=bit_len {
+        for idx in 0..left.bit_len() {
             let l = u8::from(left.get_bit(idx));
-            let r = u8::from(right.get_bit(idx));
+            let r = u8::from(right.get_bit_opt(idx).unwrap_or(false));
 
             let c = if carry {
                 carry = false;
-- 
2.43.0


From 3142c00cd3e2869d08cc1ea942977db1c2841d85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:47:11 +0000
Subject: [PATCH 17/59] fix: BitIter length underflowed after the first element

---
 crates/bits/src/bit_slice/iter.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/bits/src/bit_slice/iter.rs b/crates/bits/src/bit_slice/iter.rs
index aa3bac8..08bcb42 100644
--- a/crates/bits/src/bit_slice/iter.rs
+++ b/crates/bits/src/bit_slice/iter.rs
@@ -54,7 +54,7 @@ where
         let remaining = self.iter.len();
         I::BIT_LEN * remaining
             + if self.cur.is_some() {
-                I::BIT_LEN - self.idx
+                I::BIT_LEN - self.idx % I::BIT_LEN
             } else {
                 0
             }
-- 
2.43.0


From 9e2cd4e8ed73fe96a76248586ecff8c3c3a85231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:47:11 +0000
Subject: [PATCH 18/59] fix: set_push dropped a value written just past the end

---
 crates/bits/src/bit_slice.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/bits/src/bit_slice.rs b/crates/bits/src/bit_slice.rs
index 63f3d97..92c8dcb 100644
--- a/crates/bits/src/bit_slice.rs
+++ b/crates/bits/src/bit_slice.rs
@@ -208,7 +208,7 @@ pub trait BitVecExt: BitSliceExt {
 
     /// Set a single value by index on this slice, extending it if the index is out of range
     fn set_push(&mut self, idx: usize, val: Self::Bit) {
-        self.extend(idx, Self::Bit::zero());
+        self.extend(idx + 1, Self::Bit::zero());
         self.set_ignore(idx, val);
     }
 
-- 
2.43.0


From 1dcabeba01d5027c3d7b6d9fc2a97bde1ea12d0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:47:43 +0000
Subject: [PATCH 19/59] fix: bitwise division panicked when the divisor has
 more elements

---
 crates/bits/src/algos/bitwise/div.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/crates/bits/src/algos/bitwise/div.rs b/crates/bits/src/algos/bitwise/div.rs
index 99f98ec..d03ebac 100644
--- a/crates/bits/src/algos/bitwise/div.rs
+++ b/crates/bits/src/algos/bitwise/div.rs
@@ -19,7 +19,7 @@ pub trait BitwiseDiv: BitSliceExt {
 
         for idx in (0..bit_len).rev() {
             ElementShl::shl_wrapping(&mut remainder, 1);
-            remainder.set_bit(0, num.get_bit(idx));
+            remainder.set_bit(0, num.get_bit_opt(idx).unwrap_or(false));
             if ElementCmp::cmp(&remainder, div).is_ge() {
                 // Subtract will never overflow
                 ElementSub::sub_wrapping(&mut remainder, div);
@@ -42,13 +42,13 @@ pub trait BitwiseDiv: BitSliceExt {
         let bit_len = usize::max(num.bit_len(), div.bit_len());
         for idx in (0..bit_len).rev() {
             ElementShl::shl_wrapping(remainder, 1);
-            remainder.set_bit(0, num.get_bit(idx));
+            remainder.set_bit(0, num.get_bit_opt(idx).unwrap_or(false));
             if ElementCmp::cmp(remainder, div).is_ge() {
                 // Subtract will never overflow
                 ElementSub::sub_wrapping(remainder, div);
-                num.set_bit(idx, true);
+                num.set_bit_ignore(idx, true);
             } else {
-                num.set_bit(idx, false);
+                num.set_bit_ignore(idx, false);
             }
         }
 
@@ -97,7 +97,7 @@ pub trait BitwiseDiv: BitSliceExt {
 
         for idx in (0..bit_len).rev() {
             ElementShl::shl_wrapping(remainder, 1);
-            remainder.set_bit(0, num.get_bit(idx));
+            remainder.set_bit(0, num.get_bit_opt(idx).unwrap_or(false));
             if ElementCmp::cmp(remainder, div).is_ge() {
                 // Subtract will never overflow
                 ElementSub::sub_wrapping(remainder, div);
-- 
2.43.0


From 5ce162d39ff9a631eaec92b1d1368a9eb3beed24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:47:43 +0000
Subject: [PATCH 20/59] fix: bitwise division by zero returned a quotient
 instead of failing

---
 crates/bits/src/algos/bitwise/div.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/crates/bits/src/algos/bitwise/div.rs b/crates/bits/src/algos/bitwise/div.rs
index d03ebac..29297f4 100644
--- a/crates/bits/src/algos/bitwise/div.rs
+++ b/crates/bits/src/algos/bitwise/div.rs
@@ -4,6 +4,10 @@ use crate::bit_slice::BitSliceExt;
 use alloc::{vec, vec::Vec};
 use numeric_traits::identity::Zero;
 
+fn is_zero<T: ?Sized + BitSliceExt>(val: &T) -> bool {
+    val.slice().iter().all(Zero::is_zero)
+}
+
 pub trait BitwiseDiv: BitSliceExt {
     #[cfg(feature = "std")]
     /// Divide two slices, implemented as bitwise long division
@@ -11,6 +15,7 @@ pub trait BitwiseDiv: BitSliceExt {
     where
         T: ?Sized + BitSliceExt<Bit = Self::Bit>,
     {
+        assert!(!is_zero(div), "attempt to divide by zero");
         let len = usize::max(num.len(), div.len());
         let bit_len = usize::max(num.bit_len(), div.bit_len());
 
@@ -39,6 +44,7 @@ pub trait BitwiseDiv: BitSliceExt {
     where
         T: ?Sized + BitSliceExt<Bit = Self::Bit>,
     {
+        assert!(!is_zero(div), "attempt to divide by zero");
         let bit_len = usize::max(num.bit_len(), div.bit_len());
         for idx in (0..bit_len).rev() {
             ElementShl::shl_wrapping(remainder, 1);
@@ -64,6 +70,9 @@ pub trait BitwiseDiv: BitSliceExt {
     where
         T: ?Sized + BitSliceExt<Bit = Self::Bit>,
     {
+        if is_zero(right) {
+            return None;
+        }
         let (out, carry) = BitwiseDiv::div_long_overflowing(left, right, scratch);
         if carry {
             None
@@ -93,6 +102,7 @@ pub trait BitwiseDiv: BitSliceExt {
     where
         T: ?Sized + BitSliceExt<Bit = Self::Bit>,
     {
+        assert!(!is_zero(div), "attempt to divide by zero");
         let bit_len = usize::max(num.bit_len(), div.bit_len());
 
         for idx in (0..bit_len).rev() {
@@ -117,6 +127,9 @@ pub trait BitwiseDiv: BitSliceExt {
     where
         T: ?Sized + BitSliceExt<Bit = Self::Bit>,
     {
+        if is_zero(right) {
+            return None;
+        }
         let (out, carry) = BitwiseDiv::rem_long_overflowing(left, right, scratch);
         if carry {
             None
-- 
2.43.0


From d9137a27e28af3df31dd96844e44860fb0a01c1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:47:43 +0000
Subject: [PATCH 21/59] fix: element division panicked when the divisor has
 more elements

---
 crates/bits/src/algos/element/div.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/bits/src/algos/element/div.rs b/crates/bits/src/algos/element/div.rs
index cddce40..52952de 100644
--- a/crates/bits/src/algos/element/div.rs
+++ b/crates/bits/src/algos/element/div.rs
@@ -28,7 +28,7 @@ pub trait ElementDiv: BitSliceExt {
             // Shift left by 1 element
             ElementShl::shl_wrapping(&mut remainder, Self::Bit::BIT_LEN);
             // Set new element to left[idx]
-            remainder.set(0, left.get(idx));
+            remainder.set(0, left.get_opt(idx).unwrap_or(Self::Bit::zero()));
 
             // Mathy stuff:
             //   The remainder will *always* be no more than one digit greater than the divisor
-- 
2.43.0


From 409621af7018ccb2fdb0b6a5c66f091ff88b276a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:47:43 +0000
Subject: [PATCH 22/59] fix: element division by zero never terminated

---
 crates/bits/src/algos/element/div.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/bits/src/algos/element/div.rs b/crates/bits/src/algos/element/div.rs
index 52952de..9feac0a 100644
--- a/crates/bits/src/algos/element/div.rs
+++ b/crates/bits/src/algos/element/div.rs
@@ -17,6 +17,10 @@ pub trait ElementDiv: BitSliceExt {
     where
         T: ?Sized + BitSliceExt<Bit = Self::Bit>,
     {
+        assert!(
+            !right.slice().iter().all(Zero::is_zero),
+            "attempt to divide by zero"
+        );
         let len = usize::max(left.len(), right.len());
 
         let mut quotient = vec![Self::Bit::zero(); len];
-- 
2.43.0


From 70fd8e3908f28359402304ebefa1c0a10400cc57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:11:00 +0000
Subject: [PATCH 23/59] fix: checked U to primitive conversion indexed out of
 bounds

---
 crates/ints/src/u.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/ints/src/u.rs b/crates/ints/src/u.rs
index 75baea3..a048f00 100644
--- a/crates/ints/src/u.rs
+++ b/crates/ints/src/u.rs
@@ -574,7 +574,7 @@ macro_rules! impl_unsign_cast {
                     Some(<$num>::from_le_bytes(arr))
                 } else {
                     for i in 0..N {
-                        if i <= SIZE {
+                        if i < SIZE {
                             arr[i] = val.0[i];
                         } else {
                             if val.0[i] != 0 {
-- 
2.43.0


From 47ef82b638f4dee0cba4338bfc347780d01d36b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:11:00 +0000
Subject: [PATCH 24/59] fix: truncating U to primitive conversion indexed out
 of bounds

---
 crates/ints/src/u.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/ints/src/u.rs b/crates/ints/src/u.rs
index a048f00..9237027 100644
--- a/crates/ints/src/u.rs
+++ b/crates/ints/src/u.rs
@@ -597,7 +597,7 @@ macro_rules! impl_unsign_cast {
             fn truncate_from(val: U<N>) -> Self {
                 const SIZE: usize = size_of::<$num>();
                 let mut arr = [0; SIZE];
-                for i in 0..N {
+                for i in 0..usize::min(N, SIZE) {
                     arr[i] = val.0[i];
                 }
                 <$num>::from_le_bytes(arr)
-- 
2.43.0


From a14d69334d9c74a59a118a8a360f0885f35d3efc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:11:00 +0000
Subject: [PATCH 25/59] fix: checked primitive to U conversion indexed out of
 bounds or dropped high bytes

---
 crates/ints/src/u.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/ints/src/u.rs b/crates/ints/src/u.rs
index 9237027..05c7535 100644
--- a/crates/ints/src/u.rs
+++ b/crates/ints/src/u.rs
@@ -610,13 +610,13 @@ macro_rules! impl_unsign_cast {
                 let bytes = val.to_le_bytes();
                 let mut arr = [0; N];
                 if N >= SIZE {
-                    for i in 0..N {
+                    for i in 0..SIZE {
                         arr[i] = bytes[i];
                     }
                     Some(U::from_le_bytes(arr))
                 } else {
-                    for i in 0..N {
-                        if i <= N {
+                    for i in 0..SIZE {
+                        if i < N {
                             arr[i] = bytes[i];
                         } else {
                             if bytes[i] != 0 {
-- 
2.43.0


From ff962abdeb6fb2fa9415b35217c724f19f83c33d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:11:00 +0000
Subject: [PATCH 26/59] fix: U zero to the power of zero was zero

---
 crates/ints/src/u.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/ints/src/u.rs b/crates/ints/src/u.rs
index 05c7535..c36a40b 100644
--- a/crates/ints/src/u.rs
+++ b/crates/ints/src/u.rs
@@ -430,10 +430,10 @@ impl<const N: usize> Pow for U<N> {
     type Output = Self;
 
     fn pow(self, rhs: Self) -> Self::Output {
-        if self.is_zero() || self.is_one() {
-            self
-        } else if rhs.is_zero() {
+        if rhs.is_zero() {
             Self::one()
+        } else if self.is_zero() || self.is_one() {
+            self
         } else {
             // Any value greater than N will definitely overflow, and N is capped by usize
             let val: usize = usize::from_checked(rhs).unwrap();
-- 
2.43.0


From 1a420bbf6a2463a5a43b896dc05a9d3ba73e384b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:11:00 +0000
Subject: [PATCH 27/59] fix: I::abs cleared the sign bit of a two's complement
 value

---
 crates/ints/src/i.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/crates/ints/src/i.rs b/crates/ints/src/i.rs
index c9c2aa2..bd80f64 100644
--- a/crates/ints/src/i.rs
+++ b/crates/ints/src/i.rs
@@ -309,10 +309,12 @@ impl<const N: usize> Pow for I<N> {
 impl<const N: usize> Numeric for I<N> {}
 
 impl<const N: usize> Signed for I<N> {
-    fn abs(mut self) -> Self {
-        let last = self.0.last_mut().unwrap();
-        *last &= 0x7F;
-        self
+    fn abs(self) -> Self {
+        if self.is_negative() {
+            -self
+        } else {
+            self
+        }
     }
 
     fn is_positive(&self) -> bool {
-- 
2.43.0


From cd853366fbcca6fbe15b52b96f7d81fb07013bfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:11:00 +0000
Subject: [PATCH 28/59] fix: I ordering started at the least significant byte

---
 crates/ints/src/i.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/ints/src/i.rs b/crates/ints/src/i.rs
index bd80f64..a22760d 100644
--- a/crates/ints/src/i.rs
+++ b/crates/ints/src/i.rs
@@ -5,7 +5,7 @@
 use core::array;
 use core::cmp::Ordering;
 use core::ops::{Add, BitAnd, BitOr, BitXor, Div, Mul, Neg, Not, Rem, Shl, Shr, Sub};
-use numeric_bits::algos::{BitwiseDiv, ElementAdd, ElementMul, ElementSub};
+use numeric_bits::algos::{BitwiseDiv, ElementAdd, ElementCmp, ElementMul, ElementSub};
 use numeric_static_iter::{IntoStaticIter, StaticIter};
 use numeric_traits::class::{Bounded, BoundedSigned, Integral, Numeric, Signed};
 use numeric_traits::identity::{One, Zero};
@@ -216,7 +216,7 @@ impl<const N: usize> PartialOrd for I<N> {
 impl<const N: usize> Ord for I<N> {
     fn cmp(&self, other: &Self) -> Ordering {
         match self.is_negative().cmp(&other.is_negative()) {
-            Ordering::Equal => self.0.cmp(&other.0),
+            Ordering::Equal => ElementCmp::cmp(&self.0, &other.0),
             ord => ord.reverse(),
         }
     }
-- 
2.43.0


From ae76fa38cb04e4e37883119d594d7c1f3ec138dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:11:00 +0000
Subject: [PATCH 29/59] fix: I remainder took the sign of the quotient, not the
 dividend

---
 crates/ints/src/i.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/ints/src/i.rs b/crates/ints/src/i.rs
index a22760d..f10d344 100644
--- a/crates/ints/src/i.rs
+++ b/crates/ints/src/i.rs
@@ -75,7 +75,7 @@ impl<const N: usize> Rem for I<N> {
     type Output = Self;
 
     fn rem(mut self, mut rhs: Self) -> Self::Output {
-        let neg = self.is_negative() != rhs.is_negative();
+        let neg = self.is_negative();
         self = self.abs();
         rhs = rhs.abs();
         BitwiseDiv::rem_long_wrapping(&mut self.0, &rhs.0, &mut [0; N]);
-- 
2.43.0


From b65707824289f3ccb6fda7ce4a167fda83b66021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:11:00 +0000
Subject: [PATCH 30/59] fix: BigInt ordering started at the least significant
 limb

---
 crates/ints/src/big_int.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/ints/src/big_int.rs b/crates/ints/src/big_int.rs
index 15baf24..4c9a4ab 100644
--- a/crates/ints/src/big_int.rs
+++ b/crates/ints/src/big_int.rs
@@ -381,7 +381,8 @@ impl Ord for BigInt {
                 usize::cmp(&this.len(), &other.len())
             } else {
                 this.iter()
-                    .zip(other.iter())
+                    .rev()
+                    .zip(other.iter().rev())
                     .find_map(|(l, r)| match l.cmp(r) {
                         Ordering::Equal => None,
                         other => Some(other),
-- 
2.43.0


From 104c87063765836ab2b477b0af4dfe86d0020928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:11:00 +0000
Subject: [PATCH 31/59] fix: negating a zero BigInt gave a negative zero

---
 crates/ints/src/big_int.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/crates/ints/src/big_int.rs b/crates/ints/src/big_int.rs
index 4c9a4ab..994dc9f 100644
--- a/crates/ints/src/big_int.rs
+++ b/crates/ints/src/big_int.rs
@@ -546,7 +546,9 @@ impl ops::Neg for BigInt {
     type Output = BigInt;
 
     fn neg(mut self) -> Self::Output {
-        self.0 = self.0.invert_neg();
+        if !self.is_zero() {
+            self.0 = self.0.invert_neg();
+        }
         self
     }
 }
@@ -555,9 +557,7 @@ impl ops::Neg for &BigInt {
     type Output = BigInt;
 
     fn neg(self) -> Self::Output {
-        let mut out = self.clone();
-        out.0 = out.0.invert_neg();
-        out
+        -self.clone()
     }
 }
 
-- 
2.43.0


From 49e4de234e3984552b118ea6fad4576cc308e83a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:11:00 +0000
Subject: [PATCH 32/59] fix: BigInt remainder took the sign of the quotient,
 not the dividend

---
 crates/ints/src/big_int.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/ints/src/big_int.rs b/crates/ints/src/big_int.rs
index 994dc9f..fd07d02 100644
--- a/crates/ints/src/big_int.rs
+++ b/crates/ints/src/big_int.rs
@@ -491,7 +491,7 @@ impl_op!(rem(self, rhs) => {
     let out = BigInt::with_slices(self, rhs, |this, other| {
         BitwiseDiv::div_long(this, other).1
     });
-    BigInt::new_slice(out, self.is_negative() != rhs.is_negative())
+    BigInt::new_slice(out, self.is_negative())
 });
 
 impl_op!(shl(self, rhs) => {
-- 
2.43.0


From 707d08ddfdd7de87741bb5cbec794d4924d32aa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:11:00 +0000
Subject: [PATCH 33/59] fix: negative BigInts were all formatted as -0

---
 crates/ints/src/big_int.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/ints/src/big_int.rs b/crates/ints/src/big_int.rs
index fd07d02..843e089 100644
--- a/crates/ints/src/big_int.rs
+++ b/crates/ints/src/big_int.rs
@@ -209,7 +209,7 @@ impl BigInt {
         // This is the simplest way - mod base for digit, div base for next digit
         // It isn't super fast though, so there are probably optimization improvements
         let mut digits = Vec::new();
-        let mut scratch = self.clone();
+        let mut scratch = self.clone().abs();
 
         while scratch > 0 {
             let digit = u8::from_checked(scratch.clone() % base)
-- 
2.43.0


From 89fd8f04cbfba85ed921933575d60765cef8b3b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:11:00 +0000
Subject: [PATCH 34/59] fix: BigInt could not parse negative numbers

---
 crates/ints/src/big_int.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/crates/ints/src/big_int.rs b/crates/ints/src/big_int.rs
index 843e089..5bba0f8 100644
--- a/crates/ints/src/big_int.rs
+++ b/crates/ints/src/big_int.rs
@@ -660,12 +660,16 @@ impl FromStrRadix for BigInt {
     type Error = FromStrError;
 
     fn from_str_radix(str: &str, radix: u32) -> Result<Self, Self::Error> {
+        let (neg, digits) = match str.strip_prefix('-') {
+            Some(digits) => (true, digits),
+            None => (false, str),
+        };
         let mut out = BigInt::zero();
-        for digit in str.chars() {
+        for digit in digits.chars() {
             let new_val = RadixChars::val_from_char(digit, radix)?;
             out = (out * radix) + new_val;
         }
-        Ok(out)
+        Ok(if neg { -out } else { out })
     }
 }
 
-- 
2.43.0


From 4af1d1f97a42997d21af90adcb114b9c3dff0f11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:11:00 +0000
Subject: [PATCH 35/59] fix: BigInt to signed conversion dropped the sign

---
 crates/ints/src/big_int/macros.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/crates/ints/src/big_int/macros.rs b/crates/ints/src/big_int/macros.rs
index f258fe9..7d2ade7 100644
--- a/crates/ints/src/big_int/macros.rs
+++ b/crates/ints/src/big_int/macros.rs
@@ -88,8 +88,13 @@ macro_rules! impl_for_int {
                 } else if bi < &BigInt::from(Self::MIN) {
                     Err(OutOfRangeError::below())
                 } else {
-                    bi.with_slice(|s| arr_to_int(s))
-                        .ok_or_else(|| OutOfRangeError::above())
+                    let mag: Option<$unsigned> = bi.with_slice(|s| arr_to_int(s));
+                    match mag {
+                        // In range, so only `MIN` wraps
+                        Some(mag) if bi.is_negative() => Ok((mag as $signed).wrapping_neg()),
+                        Some(mag) => Ok(mag as $signed),
+                        None => Err(OutOfRangeError::above()),
+                    }
                 }
             }
         }
-- 
2.43.0


From e9dc10e485121cf74e21f277d46b8916096f547f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:11:00 +0000
Subject: [PATCH 36/59] fix: comparing a BigInt with the minimum signed value
 overflowed

---
 crates/ints/src/big_int/macros.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/ints/src/big_int/macros.rs b/crates/ints/src/big_int/macros.rs
index 7d2ade7..4502aee 100644
--- a/crates/ints/src/big_int/macros.rs
+++ b/crates/ints/src/big_int/macros.rs
@@ -169,10 +169,10 @@ macro_rules! impl_for_int {
                 if self.is_negative() != other.is_negative() {
                     return false;
                 }
-                let other = other.abs();
+                let other = other.unsigned_abs();
 
                 self.with_slice(|this| {
-                    let arr = int_to_arr::<_, _, { arr_size::<$unsigned>() }>(other as $unsigned);
+                    let arr = int_to_arr::<_, _, { arr_size::<$unsigned>() }>(other);
                     this == IntSlice::shrink(&arr as &[_])
                 })
             }
-- 
2.43.0


From e1e02d7f3ca0b5e1d9deaf9d8a5f1fa699066ef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:11:00 +0000
Subject: [PATCH 37/59] fix: a negative BigInt compared equal to the unsigned
 value of its magnitude

---
 crates/ints/src/big_int/macros.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/ints/src/big_int/macros.rs b/crates/ints/src/big_int/macros.rs
index 4502aee..643de33 100644
--- a/crates/ints/src/big_int/macros.rs
+++ b/crates/ints/src/big_int/macros.rs
@@ -180,6 +180,9 @@ macro_rules! impl_for_int {
 
         impl PartialEq<$unsigned> for BigInt {
             fn eq(&self, other: &$unsigned) -> bool {
+                if self.is_negative() {
+                    return false;
+                }
                 self.with_slice(|this| {
                     let arr = int_to_arr::<_, _, { arr_size::<$unsigned>() }>(*other);
                     this == IntSlice::shrink(&arr as &[_])
-- 
2.43.0


From 8f210768ca3df9f67ec091ae3dfd0187a122a05b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:12:41 +0000
Subject: [PATCH 38/59] fix: truncating BigInt casts saturated

---
 crates/ints/src/big_int/macros.rs | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/crates/ints/src/big_int/macros.rs b/crates/ints/src/big_int/macros.rs
index 643de33..2c3e060 100644
--- a/crates/ints/src/big_int/macros.rs
+++ b/crates/ints/src/big_int/macros.rs
@@ -118,15 +118,27 @@ macro_rules! impl_for_int {
 
         impl numeric_traits::cast::FromTruncating<BigInt> for $unsigned {
             fn truncate_from(val: BigInt) -> Self {
-                val.with_slice(|s| arr_to_int(s))
-                    .unwrap_or(<$unsigned>::MAX)
+                // Keep the low bits of the two's complement representation
+                let mag = val.with_slice(|s| {
+                    s.iter()
+                        .take(arr_size::<$unsigned>())
+                        .rev()
+                        .fold(0, |acc: $unsigned, &limb| {
+                            acc.checked_shl(usize::BITS).unwrap_or(0) | limb as $unsigned
+                        })
+                });
+                if val.is_negative() {
+                    mag.wrapping_neg()
+                } else {
+                    mag
+                }
             }
         }
 
         impl numeric_traits::cast::FromTruncating<BigInt> for $signed {
             fn truncate_from(val: BigInt) -> Self {
-                val.with_slice(|s| arr_to_int(s)).unwrap_or(<$signed>::MAX)
-                    * if val.is_negative() { -1 } else { 1 }
+                <$unsigned as numeric_traits::cast::FromTruncating<BigInt>>::truncate_from(val)
+                    as $signed
             }
         }
 
-- 
2.43.0


From 319cf9088fcfa3548914f635efbeb5f814d40260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:53:34 +0000
Subject: [PATCH 39/59] fix: list push returned a stale length when another
 push won the race

---
 crates/utils/src/linked.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/utils/src/linked.rs b/crates/utils/src/linked.rs
index 2313d8e..2c85d18 100644
--- a/crates/utils/src/linked.rs
+++ b/crates/utils/src/linked.rs
@@ -97,10 +97,11 @@ impl<T> UnsyncLinked<T> {
         {
             Ok(_) => 1,
             Err(_) => {
-                let (mut tail, len) = self.tail();
+                let (mut tail, mut len) = self.tail();
                 while !Node::set_next(tail, new) {
                     if let Some(next) = Node::get_next_opt(tail) {
                         tail = next.load(Ordering::Relaxed);
+                        len += 1;
                     }
                 }
                 len + 1
-- 
2.43.0


From 53d93cf7f8755bffef140770078654017f9ce369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:56:24 +0000
Subject: [PATCH 40/59] fix: concurrent interner additions raced on the value
 of a slot

---
 crates/utils/src/intern.rs | 105 ++++++++++++++++++++++++-------------
 1 file changed, 69 insertions(+), 36 deletions(-)

diff --git a/crates/utils/src/intern.rs b/crates/utils/src/intern.rs
index 3b02b53..4bf03c5 100644
--- a/crates/utils/src/intern.rs
+++ b/crates/utils/src/intern.rs
@@ -8,8 +8,13 @@ use crate::static_assert;
 
 const CHUNK_SIZE: usize = 32;
 
+/// The reference count of a slot whose value is being replaced
+const LOCKED: usize = usize::MAX;
+
 enum Find<T> {
+    /// The slot holds the value, and a reference to it was taken
     Exists(T),
+    /// The slot was dead, and is now locked so that the value can be set
     Dead(T),
     None,
 }
@@ -96,14 +101,46 @@ where
     {
         for (idx, i) in list.iter().enumerate() {
             for (idx2, i) in i.iter().enumerate() {
+                // Take the slot before looking at its value, so that it can't change meanwhile:
+                // a reference if it's live, the lock if it's dead
+                let mut count = i.refs.load(Ordering::Acquire);
+                loop {
+                    let taken = match count {
+                        LOCKED => {
+                            core::hint::spin_loop();
+                            count = i.refs.load(Ordering::Acquire);
+                            continue;
+                        }
+                        0 => LOCKED,
+                        live => live + 1,
+                    };
+                    debug_assert!(
+                        count == 0 || taken != LOCKED,
+                        "Too many instances of a single value!"
+                    );
+                    match i.refs.compare_exchange(
+                        count,
+                        taken,
+                        Ordering::AcqRel,
+                        Ordering::Acquire,
+                    ) {
+                        Ok(_) => break,
+                        Err(cur) => count = cur,
+                    }
+                }
+
                 // This intentionally allows reviving dead slots - saves work if you're rapidly
                 // dropping and creating references to a value
-                let count = i.refs.load(Ordering::Acquire);
-                if i.val_opt().is_some_and(|cur_val| val == cur_val.borrow()) {
+                let same = i.val_opt().is_some_and(|cur_val| val == cur_val.borrow());
+                if same {
+                    if count == 0 {
+                        i.refs.store(1, Ordering::Release);
+                    }
                     return Find::Exists((idx, idx2));
                 } else if count == 0 {
                     return Find::Dead((idx, idx2));
                 }
+                Self::decr_inner(i);
             }
         }
         Find::None
@@ -120,7 +157,11 @@ where
         let _ = interned
             .refs
             .fetch_update(Ordering::AcqRel, Ordering::Acquire, |val| {
-                val.checked_sub(1)
+                if val == LOCKED {
+                    None
+                } else {
+                    val.checked_sub(1)
+                }
             });
     }
 
@@ -137,44 +178,33 @@ where
         T: Borrow<V>,
         V: ?Sized + PartialEq,
     {
-        let find = Self::find(&self.inner, val.borrow());
-        InternId::from_usize(match find {
-            Find::Exists((loc1, loc2)) => {
-                Self::incr_inner(&self.inner[loc1][loc2]);
-                loc1 * 32 + loc2
-            }
-            // This can't race with below because they're guaranteed to act on different memory
-            // locations. But maybe... it could race with itself?
-            Find::Dead((loc1, loc2)) => {
-                Self::incr_inner(&self.inner[loc1][loc2]);
-                // TODO: This isn't actually sound - in multi-threaded environments this can
-                //       race with `find`.
-                //       We want to implement a scheme where `set` only occurs when inner is set
-                //       to 1, not before or after, and find doesn't get a ref till after set is
-                //       done.
-                // SAFETY: Slot is dead, we're making it live, we are the only ones with access
-                unsafe { self.inner[loc1][loc2].set_val(val.into()) };
-                loc1 * 32 + loc2
-            }
-            Find::None => {
-                let len = self
-                    .inner
-                    .push([(); CHUNK_SIZE].map(|_| Interned::new_uninit()));
-                Self::incr_inner(&self.inner[len - 1][0]);
-                // SAFETY: Slot is empty, we're making it live, we are the only ones with access
-                unsafe { self.inner[len - 1][0].set_val(val.into()) };
-                (len - 1) * 32
+        loop {
+            match Self::find(&self.inner, val.borrow()) {
+                Find::Exists((loc1, loc2)) => {
+                    return InternId::from_usize(loc1 * 32 + loc2);
+                }
+                Find::Dead((loc1, loc2)) => {
+                    let slot = &self.inner[loc1][loc2];
+                    // SAFETY: Slot was dead and `find` locked it, we are the only ones with access
+                    unsafe { slot.set_val(val.into()) };
+                    slot.refs.store(1, Ordering::Release);
+                    return InternId::from_usize(loc1 * 32 + loc2);
+                }
+                // Another thread may claim slots of the new chunk first, so look again
+                Find::None => {
+                    self.inner
+                        .push([(); CHUNK_SIZE].map(|_| Interned::new_uninit()));
+                }
             }
-        })
+        }
     }
 
     pub fn try_get(&self, offset: InternId) -> Option<&T> {
         let (idx1, idx2) = Self::offset_to_idx(offset);
         let slot = &self.inner[idx1][idx2];
-        if slot.refs.load(Ordering::Relaxed) == 0 {
-            None
-        } else {
-            Some(slot.val())
+        match slot.refs.load(Ordering::Relaxed) {
+            0 | LOCKED => None,
+            _ => Some(slot.val()),
         }
     }
 
@@ -195,7 +225,10 @@ where
     #[allow(dead_code)]
     pub fn refcount(&self, offset: InternId) -> usize {
         let (idx1, idx2) = Self::offset_to_idx(offset);
-        self.inner[idx1][idx2].refs.load(Ordering::Relaxed)
+        match self.inner[idx1][idx2].refs.load(Ordering::Relaxed) {
+            LOCKED => 0,
+            refs => refs,
+        }
     }
 }
 
-- 
2.43.0


From c3b48ac1162813d71f0d9669804da3a375e131c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:01:11 +0000
Subject: [PATCH 41/59] fix: Fixed multiplication and division ignored the
 scale

---
 crates/reals/src/fixed.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/crates/reals/src/fixed.rs b/crates/reals/src/fixed.rs
index d190148..5e2dda3 100644
--- a/crates/reals/src/fixed.rs
+++ b/crates/reals/src/fixed.rs
@@ -133,7 +133,8 @@ impl<T: Integral, const N: usize> Mul for Fixed<T, N> {
     type Output = Fixed<T, N>;
 
     fn mul(self, rhs: Self) -> Self::Output {
-        Fixed(self.0 * rhs.0)
+        // The raw product is scaled by 2^N twice
+        Fixed((self.0 * rhs.0) >> N)
     }
 }
 
@@ -141,7 +142,8 @@ impl<T: Integral, const N: usize> Div for Fixed<T, N> {
     type Output = Fixed<T, N>;
 
     fn div(self, rhs: Self) -> Self::Output {
-        Fixed(self.0 / rhs.0)
+        // The scale cancels out in a raw quotient, so scale the dividend once more
+        Fixed((self.0 << N) / rhs.0)
     }
 }
 
-- 
2.43.0


From d115dc64d4a36b6edac23cf447c9c0929902af3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:01:11 +0000
Subject: [PATCH 42/59] fix: Fixed::round always rounded negative fractions up

---
 crates/reals/src/fixed.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/reals/src/fixed.rs b/crates/reals/src/fixed.rs
index 5e2dda3..74aad9d 100644
--- a/crates/reals/src/fixed.rs
+++ b/crates/reals/src/fixed.rs
@@ -246,10 +246,11 @@ impl<T: Integral, const N: usize> Real for Fixed<T, N> {
     fn round(self) -> Self {
         let half = Self::one() / (Self::one() + Self::one());
         let f = self.clone().fract();
+        // Distance from the floor
         let f = if f >= Self::zero() {
             f
         } else {
-            Self::one() - f
+            Self::one() + f
         };
         if f > half {
             self.ceil()
-- 
2.43.0


From bcfda9aa1bd32d150518350a1d9e1522f85b0b69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:01:11 +0000
Subject: [PATCH 43/59] fix: Rat was not reduced when one part divides the
 other

---
 crates/reals/src/rat.rs | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/crates/reals/src/rat.rs b/crates/reals/src/rat.rs
index 597b3e9..2eeee71 100644
--- a/crates/reals/src/rat.rs
+++ b/crates/reals/src/rat.rs
@@ -54,11 +54,6 @@ impl<T: Integral> Rat<T> {
     {
         if num == T::zero() {
             Rat::zero()
-        } else if (num == T::one() && denom == T::one())
-            || num.clone() % denom.clone() == T::zero()
-            || denom.clone() % num.clone() == T::zero()
-        {
-            unsafe { Rat::new_unchecked(num, denom) }
         } else {
             let gcd = num.clone().gcd(denom.clone());
             unsafe { Rat::new_unchecked(num / gcd.clone(), denom / gcd) }
-- 
2.43.0


From 13f4d00c7b90381de8628284e092b263b5033a53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:01:11 +0000
Subject: [PATCH 44/59] fix: Rat with a negative denominator was not normalised

---
 crates/reals/src/rat.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/crates/reals/src/rat.rs b/crates/reals/src/rat.rs
index 2eeee71..ced30ce 100644
--- a/crates/reals/src/rat.rs
+++ b/crates/reals/src/rat.rs
@@ -56,7 +56,13 @@ impl<T: Integral> Rat<T> {
             Rat::zero()
         } else {
             let gcd = num.clone().gcd(denom.clone());
-            unsafe { Rat::new_unchecked(num / gcd.clone(), denom / gcd) }
+            let (num, denom) = (num / gcd.clone(), denom / gcd);
+            // The sign is carried by the numerator
+            if denom < T::zero() {
+                unsafe { Rat::new_unchecked(T::zero() - num, T::zero() - denom) }
+            } else {
+                unsafe { Rat::new_unchecked(num, denom) }
+            }
         }
     }
 
-- 
2.43.0


From 29de18e3a7b263314f00680a61137af0a4739b30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:01:11 +0000
Subject: [PATCH 45/59] fix: Rat::ceil of a whole number added one

---
 crates/reals/src/rat.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/reals/src/rat.rs b/crates/reals/src/rat.rs
index ced30ce..1426f4e 100644
--- a/crates/reals/src/rat.rs
+++ b/crates/reals/src/rat.rs
@@ -237,7 +237,11 @@ impl<T: Integral + Gcd<Output = T>> Real for Rat<T> {
     }
 
     fn ceil(self) -> Self {
-        let diff = self.denom.clone() - (self.num.clone() % self.denom.clone());
+        let rem = self.num.clone() % self.denom.clone();
+        if rem == T::zero() {
+            return self;
+        }
+        let diff = self.denom.clone() - rem;
         Rat::new((self.num + diff) / self.denom, T::one()).unwrap()
     }
 
-- 
2.43.0


From 405bc6cb3fd11726280252d6d9a4de6588aba9f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:01:11 +0000
Subject: [PATCH 46/59] fix: Rat::round truncated negative numbers

---
 crates/reals/src/rat.rs | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/crates/reals/src/rat.rs b/crates/reals/src/rat.rs
index 1426f4e..f4964df 100644
--- a/crates/reals/src/rat.rs
+++ b/crates/reals/src/rat.rs
@@ -248,17 +248,18 @@ impl<T: Integral + Gcd<Output = T>> Real for Rat<T> {
     fn round(self) -> Self {
         let two = T::one() + T::one();
         let diff = self.num.clone() % self.denom.clone();
-        // Check if remainder is more or less than half denom
-        let add = if diff > (self.denom.clone() / two) {
-            T::one()
-        } else {
-            T::zero()
-        };
+        let half = self.denom.clone() / two;
         // Integer division should be round-to-zero division
-        // TODO: This may be wrong for negatives? We probably want floor-division
         let div = self.num / self.denom;
-        // Floor div, add one if we should round up
-        Rat::new(div + add, T::one()).unwrap()
+        // Check if remainder is more or less than half denom, and move away from zero if it's more
+        let out = if diff > half {
+            div + T::one()
+        } else if diff < T::zero() && T::zero() - diff > half {
+            div - T::one()
+        } else {
+            div
+        };
+        Rat::new(out, T::one()).unwrap()
     }
 
     fn trunc(self) -> Self {
-- 
2.43.0


From 75fd8d8901abab90773b5488223a5a0e0a46a239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:01:11 +0000
Subject: [PATCH 47/59] fix: Fixed Debug dropped the sign and the zeros after
 the point

---
 crates/reals/src/fixed.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/reals/src/fixed.rs b/crates/reals/src/fixed.rs
index 74aad9d..0037205 100644
--- a/crates/reals/src/fixed.rs
+++ b/crates/reals/src/fixed.rs
@@ -59,8 +59,13 @@ where
             self.0.clone() * ten.clone().pow(T::truncate_from(N)) / two.pow(T::truncate_from(N));
         let mut idx = 0;
 
+        if whole < T::zero() {
+            f.write_str("-")?;
+            whole = T::zero() - whole;
+        }
+
         let mut buf = String::new();
-        while whole > T::zero() {
+        while whole > T::zero() || idx < N {
             let digit = whole.clone() % ten.clone();
             if idx == N {
                 write!(buf, ".")?;
-- 
2.43.0


From 2f4de4ed1b375f360b9098ba839ec44efe521f01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:15:03 +0000
Subject: [PATCH 48/59] fix: Fixed::round took one half to be zero

---
 crates/reals/src/fixed.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/reals/src/fixed.rs b/crates/reals/src/fixed.rs
index 0037205..c59fd08 100644
--- a/crates/reals/src/fixed.rs
+++ b/crates/reals/src/fixed.rs
@@ -249,7 +249,7 @@ impl<T: Integral, const N: usize> Real for Fixed<T, N> {
     }
 
     fn round(self) -> Self {
-        let half = Self::one() / (Self::one() + Self::one());
+        let half = Fixed(Self::one().0 >> 1);
         let f = self.clone().fract();
         // Distance from the floor
         let f = if f >= Self::zero() {
-- 
2.43.0


From dbaa050ddde180763c51db23a3f1bee5fe10da15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:44 +0000
Subject: [PATCH 49/59] fix: row reduction of non-square matrices swapped rows
 and columns

---
 crates/compounds/src/matrix/macros.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/compounds/src/matrix/macros.rs b/crates/compounds/src/matrix/macros.rs
index d8c6f97..a01d1be 100644
--- a/crates/compounds/src/matrix/macros.rs
+++ b/crates/compounds/src/matrix/macros.rs
@@ -1,5 +1,5 @@
 macro_rules! gauss_elim {
-    ($self:ident, $cols:expr, $rows:expr, $data:expr) => {
+    ($self:ident, $rows:expr, $cols:expr, $data:expr) => {
         /// Uses Gaussian Elimination to put the matrix in triangular row-echelon form,
         /// and returns the new matrix and the product of the scalars by which the determinant was
         /// multiplied to produce the result.
-- 
2.43.0


From 07d537b0e22d9e7b9689089136ade6c850904700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:44 +0000
Subject: [PATCH 50/59] fix: matrix views could be indexed one past the last
 row and column

---
 crates/compounds/src/matrix/refs.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/compounds/src/matrix/refs.rs b/crates/compounds/src/matrix/refs.rs
index 5855d1d..618e271 100644
--- a/crates/compounds/src/matrix/refs.rs
+++ b/crates/compounds/src/matrix/refs.rs
@@ -9,7 +9,7 @@ macro_rules! ref_common {
             type Output = T;
 
             fn index(&self, index: (usize, usize)) -> &Self::Output {
-                if index.0 > self.rows || index.1 > self.cols {
+                if index.0 >= self.rows || index.1 >= self.cols {
                     panic!(
                         "Index out of range for matrix of size {}x{}: ({},{})",
                         self.rows, self.cols, index.0, index.1
-- 
2.43.0


From 5912431129d0c4aa020bbd731c6a902434d8d885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:44 +0000
Subject: [PATCH 51/59] fix: DynMatrix index accepted columns past the end of a
 row

---
 crates/compounds/src/matrix/dynamic.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/crates/compounds/src/matrix/dynamic.rs b/crates/compounds/src/matrix/dynamic.rs
index 9c1739c..c2c2cd0 100644
--- a/crates/compounds/src/matrix/dynamic.rs
+++ b/crates/compounds/src/matrix/dynamic.rs
@@ -69,12 +69,28 @@ impl<T> Index<(usize, usize)> for DynMatrix<T> {
     type Output = T;
 
     fn index(&self, index: (usize, usize)) -> &Self::Output {
+        assert!(
+            index.0 < self.rows && index.1 < self.cols,
+            "Index out of range for matrix of size {}x{}: ({},{})",
+            self.rows,
+            self.cols,
+            index.0,
+            index.1
+        );
         &self.data[index.0 * self.cols + index.1]
     }
 }
 
 impl<T> IndexMut<(usize, usize)> for DynMatrix<T> {
     fn index_mut(&mut self, index: (usize, usize)) -> &mut Self::Output {
+        assert!(
+            index.0 < self.rows && index.1 < self.cols,
+            "Index out of range for matrix of size {}x{}: ({},{})",
+            self.rows,
+            self.cols,
+            index.0,
+            index.1
+        );
         &mut self.data[index.0 * self.cols + index.1]
     }
 }
-- 
2.43.0


From 053fb320200b7cbf28e26e0b1cb036e8ff65d8fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:44 +0000
Subject: [PATCH 52/59] fix: DynMatrix::new accepted sizes whose product
 overflows

---
 crates/compounds/src/matrix/dynamic.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/crates/compounds/src/matrix/dynamic.rs b/crates/compounds/src/matrix/dynamic.rs
index c2c2cd0..7820449 100644
--- a/crates/compounds/src/matrix/dynamic.rs
+++ b/crates/compounds/src/matrix/dynamic.rs
@@ -13,10 +13,9 @@ pub struct DynMatrix<T> {
 impl<T> DynMatrix<T> {
     pub fn new(data: Vec<T>, rows: usize, cols: usize) -> DynMatrix<T> {
         assert_eq!(
-            data.len(),
-            rows * cols,
-            "Invalid data length for DynMatrix. Expected length {} ({} by {}), got {}",
-            rows * cols,
+            Some(data.len()),
+            rows.checked_mul(cols),
+            "Invalid data length for DynMatrix. Expected {} by {}, got length {}",
             rows,
             cols,
             data.len(),
-- 
2.43.0


From 6b8e048cbe4475fa78fef22213a0e241eb9f5b94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:20:43 +0000
Subject: [PATCH 53/59] fix: interner added a second live entry for a value
 behind a dead slot

---
 crates/utils/src/intern.rs | 28 +++++++++++++++++++++-------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/crates/utils/src/intern.rs b/crates/utils/src/intern.rs
index 4bf03c5..3556d65 100644
--- a/crates/utils/src/intern.rs
+++ b/crates/utils/src/intern.rs
@@ -99,7 +99,9 @@ where
         U: ?Sized + PartialEq,
         T: Borrow<U>,
     {
-        for (idx, i) in list.iter().enumerate() {
+        // The first dead slot, locked. The value may still be live in a later slot
+        let mut dead: Option<(&Interned<T>, (usize, usize))> = None;
+        'slots: for (idx, i) in list.iter().enumerate() {
             for (idx2, i) in i.iter().enumerate() {
                 // Take the slot before looking at its value, so that it can't change meanwhile:
                 // a reference if it's live, the lock if it's dead
@@ -131,19 +133,31 @@ where
 
                 // This intentionally allows reviving dead slots - saves work if you're rapidly
                 // dropping and creating references to a value
-                let same = i.val_opt().is_some_and(|cur_val| val == cur_val.borrow());
-                if same {
+                let cur_val = i.val_opt();
+                if cur_val.is_some_and(|cur_val| val == cur_val.borrow()) {
                     if count == 0 {
                         i.refs.store(1, Ordering::Release);
                     }
+                    if let Some((slot, _)) = dead {
+                        slot.refs.store(0, Ordering::Release);
+                    }
                     return Find::Exists((idx, idx2));
-                } else if count == 0 {
-                    return Find::Dead((idx, idx2));
                 }
-                Self::decr_inner(i);
+                // Slots are filled in order: nothing follows one that never had a value
+                let unused = cur_val.is_none();
+                if count != 0 {
+                    Self::decr_inner(i);
+                } else if dead.is_none() {
+                    dead = Some((i, (idx, idx2)));
+                } else {
+                    i.refs.store(0, Ordering::Release);
+                }
+                if unused {
+                    break 'slots;
+                }
             }
         }
-        Find::None
+        dead.map_or(Find::None, |(_, loc)| Find::Dead(loc))
     }
 
     #[inline]
-- 
2.43.0


From 7066be7e42fed517d4410333f286c23bb08a955d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:20:38 +0000
Subject: [PATCH 54/59] fix: BigInt::approx_float ignored the sign and returned
 NaN for some large values

---
 crates/ints/src/big_int.rs | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/crates/ints/src/big_int.rs b/crates/ints/src/big_int.rs
index 5bba0f8..b94dd9f 100644
--- a/crates/ints/src/big_int.rs
+++ b/crates/ints/src/big_int.rs
@@ -8,7 +8,7 @@ use core::borrow::Borrow;
 use core::cmp::Ordering;
 use core::fmt::{Binary, Debug, Display, LowerHex, UpperHex, Write};
 use core::hint::unreachable_unchecked;
-use core::{fmt, mem, num, ops};
+use core::{fmt, mem, ops};
 use numeric_bits::algos::{
     BitwiseDiv, ElementAdd, ElementBitand, ElementBitor, ElementBitxor, ElementMul, ElementNot,
     ElementShl, ElementShr, ElementSub,
@@ -247,17 +247,16 @@ impl BigInt {
     /// If the value is large, this may return [`f64::INFINITY`] or [`f64::NEG_INFINITY`].
     pub fn approx_float(&self) -> f64 {
         const USIZE_MAX: f64 = usize::MAX as f64;
-        self.with_slice(|vals| {
+        let abs = self.with_slice(|vals| {
             vals.iter()
-                .copied()
-                .enumerate()
-                .try_fold(0., |acc, (idx, val)| {
-                    let val = val as f64;
-                    let idx = i32::try_from(idx)?;
-                    Ok::<_, num::TryFromIntError>(val.mul_add(USIZE_MAX.powi(idx), acc))
-                })
-                .unwrap_or(f64::INFINITY)
-        })
+                .rev()
+                .fold(0., |acc: f64, &val| acc * USIZE_MAX + val as f64)
+        });
+        if self.is_negative() {
+            -abs
+        } else {
+            abs
+        }
     }
 }
 
-- 
2.43.0


From 82a03cd53250228bb6bb911cd3ce11b04b13b4ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:49 +0000
Subject: [PATCH 55/59] fix: row reduction of float matrices left rounding
 errors below the pivots

---
 crates/compounds/src/matrix/macros.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/compounds/src/matrix/macros.rs b/crates/compounds/src/matrix/macros.rs
index a01d1be..e51c31b 100644
--- a/crates/compounds/src/matrix/macros.rs
+++ b/crates/compounds/src/matrix/macros.rs
@@ -34,7 +34,9 @@ macro_rules! gauss_elim {
                 let top = $self[(row, col)].clone();
                 for r in row+1..$rows {
                     let factor = $self[(r, col)].clone() / top.clone();
-                    for c in col..$cols {
+                    // Exactly zero, while a subtraction may leave a rounding error
+                    $self[(r, col)] = T::zero();
+                    for c in col+1..$cols {
                         $self[(r, c)] = $self[(r, c)].clone() - $self[(row, c)].clone() * factor.clone();
                     }
                 }
-- 
2.43.0


From 12394731cb6c1d3d4860607acdfc35202e00ffe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:35:03 +0000
Subject: [PATCH 56/59] hook: expose the list and bivector components under
 cfg(verif_hooks)

---
 crates/compounds/src/bivec.rs | 14 ++++++++++++++
 crates/compounds/src/lib.rs   |  2 ++
 crates/utils/src/lib.rs       |  6 +++++-
 3 files changed, 21 insertions(+), 1 deletion(-)

diff --git a/crates/compounds/src/bivec.rs b/crates/compounds/src/bivec.rs
index 4f5e33c..f35a8be 100644
--- a/crates/compounds/src/bivec.rs
+++ b/crates/compounds/src/bivec.rs
@@ -63,6 +63,20 @@ impl<T: RealSigned, const DIM: usize> BiVector<T, DIM> {
     }
 }
 
+#[cfg(verif_hooks)]
+impl<T, const DIM: usize> BiVector<T, DIM> {
+    /// The components, for external checkers
+    pub fn verif_components(&self) -> &[T] {
+        &self.0
+    }
+}
+
+/// `choose_n`, for external checkers
+#[cfg(verif_hooks)]
+pub fn verif_choose_n(n: usize, r: usize) -> usize {
+    choose_n(n, r)
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
diff --git a/crates/compounds/src/lib.rs b/crates/compounds/src/lib.rs
index 11228a2..1f96a90 100644
--- a/crates/compounds/src/lib.rs
+++ b/crates/compounds/src/lib.rs
@@ -1,6 +1,8 @@
 //! Various mathematical compound type implementations - complex numbers, matrices, etc
 
 #![no_std]
+// `verif_hooks` makes internals visible to external checkers
+#![allow(unexpected_cfgs)]
 
 #[cfg(feature = "std")]
 extern crate alloc;
diff --git a/crates/utils/src/lib.rs b/crates/utils/src/lib.rs
index fcc2e55..3cb887e 100644
--- a/crates/utils/src/lib.rs
+++ b/crates/utils/src/lib.rs
@@ -1,12 +1,16 @@
 #![cfg_attr(not(test), no_std)]
+// `verif_hooks` makes internals visible to external checkers
+#![allow(unexpected_cfgs)]
 
 #[cfg(feature = "std")]
 extern crate alloc;
 
 #[cfg(feature = "std")]
 pub mod intern;
-#[cfg(feature = "std")]
+#[cfg(all(feature = "std", not(verif_hooks)))]
 mod linked;
+#[cfg(all(feature = "std", verif_hooks))]
+pub mod linked;
 mod macros;
 
 #[cfg(feature = "std")]
-- 
2.43.0


From 86bded6986635466ac6789bd8b0aac23659ddbe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:35:03 +0000
Subject: [PATCH 57/59] fix: reading a list's length raced with the first push

---
 crates/utils/src/linked.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/utils/src/linked.rs b/crates/utils/src/linked.rs
index 2c85d18..74d4482 100644
--- a/crates/utils/src/linked.rs
+++ b/crates/utils/src/linked.rs
@@ -62,7 +62,7 @@ impl<T> UnsyncLinked<T> {
     }
 
     fn tail(&self) -> (*mut Node<T>, usize) {
-        let mut cur_node = self.head.load(Ordering::Relaxed);
+        let mut cur_node = self.head.load(Ordering::Acquire);
 
         if cur_node.is_null() {
             return (cur_node, 0);
-- 
2.43.0


From 6fc1996182e0541e767509a41fa755a8ce54a374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:35:03 +0000
Subject: [PATCH 58/59] fix: binary text of fixed-point numbers denoted another
 value

---
 crates/reals/src/fixed.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/crates/reals/src/fixed.rs b/crates/reals/src/fixed.rs
index c59fd08..6f789ce 100644
--- a/crates/reals/src/fixed.rs
+++ b/crates/reals/src/fixed.rs
@@ -91,9 +91,10 @@ where
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
         write!(
             f,
-            "{:b}.{:b}",
-            self.clone().trunc().0,
-            self.clone().fract().0
+            "{:b}.{:0width$b}",
+            self.0.clone() >> N,
+            self.0.clone() & mask::<T, N>(),
+            width = N
         )
     }
 }
-- 
2.43.0


From 9227c5881c31a6fbed6739ed91682749632dd8d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:35:03 +0000
Subject: [PATCH 59/59] fix: Debug of fixed-point numbers overflowed for most
 formats

---
 crates/reals/src/fixed.rs | 28 +++++++++++++---------------
 1 file changed, 13 insertions(+), 15 deletions(-)

diff --git a/crates/reals/src/fixed.rs b/crates/reals/src/fixed.rs
index 6f789ce..228c863 100644
--- a/crates/reals/src/fixed.rs
+++ b/crates/reals/src/fixed.rs
@@ -51,33 +51,31 @@ where
         extern crate alloc;
         use alloc::string::String;
 
-        let two = T::truncate_from(2);
         let ten = T::truncate_from(10);
-        // TODO: This can overflow. Find a non-overflowing method
-        //       Maybe shift, print upper, then do this to the fractional part
-        let mut whole =
-            self.0.clone() * ten.clone().pow(T::truncate_from(N)) / two.pow(T::truncate_from(N));
-        let mut idx = 0;
+        let one = T::one() << N;
+        let mut whole = self.0.clone() / one.clone();
+        let mut fract = self.0.clone() % one.clone();
 
-        if whole < T::zero() {
+        if self.0 < T::zero() {
             f.write_str("-")?;
             whole = T::zero() - whole;
+            fract = T::zero() - fract;
         }
 
         let mut buf = String::new();
-        while whole > T::zero() || idx < N {
+        while whole > T::zero() {
             let digit = whole.clone() % ten.clone();
-            if idx == N {
-                write!(buf, ".")?;
-            }
             write!(buf, "{digit:?}")?;
             whole = whole / ten.clone();
-            idx += 1;
-        }
-        if idx == N {
-            write!(buf, ".")?;
         }
         buf = buf.chars().rev().collect::<String>();
+        // N binary digits have exactly N decimal digits
+        buf.push('.');
+        for _ in 0..N {
+            fract = fract * ten.clone();
+            write!(buf, "{:?}", fract.clone() / one.clone())?;
+            fract = fract % one.clone();
+        }
         f.write_str(&buf)?;
 
         Ok(())
-- 
2.43.0

