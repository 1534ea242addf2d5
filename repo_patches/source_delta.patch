From 7c0f4324b4bc876a23963e9c4198a3913b0bdad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:49:17 +0000
Subject: [PATCH 01/50] fix: compare bit slices from the most significant
 element

---
 crates/bits/src/algos/element/cmp.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/bits/src/algos/element/cmp.rs b/crates/bits/src/algos/element/cmp.rs
index 057b19e..9679552 100644
--- a/crates/bits/src/algos/element/cmp.rs
+++ b/crates/bits/src/algos/element/cmp.rs
@@ -10,7 +10,8 @@ pub trait ElementCmp: BitSliceExt {
         let zero = Self::Bit::zero();
         let len = usize::max(left.len(), right.len());
         // let iter = Iterator::zip(left.iter(), right.iter());
-        for idx in 0..len {
+        // Elements are little-endian, so the most significant element is the last one
+        for idx in (0..len).rev() {
             match Ord::cmp(
                 &left.get_opt(idx).unwrap_or(zero),
                 &right.get_opt(idx).unwrap_or(zero),
-- 
2.43.0


From 966968d5b6f6e7088065379064138d91758c7cde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:49:17 +0000
Subject: [PATCH 02/50] fix: report overflow when adding a longer slice in
 place

---
 crates/bits/src/algos/element/add.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/crates/bits/src/algos/element/add.rs b/crates/bits/src/algos/element/add.rs
index d592ff8..dfa488b 100644
--- a/crates/bits/src/algos/element/add.rs
+++ b/crates/bits/src/algos/element/add.rs
@@ -47,6 +47,7 @@ pub trait ElementAdd: BitSliceExt {
         let one = Self::Bit::one();
 
         let mut carry = false;
+        let mut overflow = false;
 
         for idx in 0..len {
             let l = left.get_opt(idx).unwrap_or(zero);
@@ -61,10 +62,13 @@ pub trait ElementAdd: BitSliceExt {
                 carry = true;
             }
 
-            left.set_ignore(idx, res);
+            // An element past the end of the output can't be stored, so must count as overflow
+            if left.set_opt(idx, res).is_none() && res != zero {
+                overflow = true;
+            }
         }
 
-        (left, carry)
+        (left, carry || overflow)
     }
 
     /// Add two slices, implemented as checked element-wise add and carry
-- 
2.43.0


From f92abe657203afe97cea4c19568996f044e5ca47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:49:17 +0000
Subject: [PATCH 03/50] fix: negate borrowed subtraction results with two's
 complement

---
 crates/bits/src/algos/bitwise/sub.rs | 7 ++++---
 crates/bits/src/algos/element/sub.rs | 5 +++--
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/crates/bits/src/algos/bitwise/sub.rs b/crates/bits/src/algos/bitwise/sub.rs
index cd701fd..45c27c2 100644
--- a/crates/bits/src/algos/bitwise/sub.rs
+++ b/crates/bits/src/algos/bitwise/sub.rs
@@ -1,8 +1,8 @@
-use crate::algos::ElementNot;
+use crate::algos::{ElementAdd, ElementNot};
 use crate::bit_slice::BitSliceExt;
 #[cfg(feature = "std")]
 use alloc::{vec, vec::Vec};
-use numeric_traits::identity::Zero;
+use numeric_traits::identity::{One, Zero};
 
 pub trait BitwiseSub: BitSliceExt {
     #[cfg(feature = "std")]
@@ -44,8 +44,9 @@ pub trait BitwiseSub: BitSliceExt {
         }
 
         if carry {
-            out.set_bit(0, !out.get_bit(0));
+            // Two's complement negate, to get the magnitude of the result
             ElementNot::not(&mut out);
+            ElementAdd::add_wrapping(&mut out, &[Self::Bit::one()]);
         }
 
         (out, carry)
diff --git a/crates/bits/src/algos/element/sub.rs b/crates/bits/src/algos/element/sub.rs
index db2448c..05a4bf2 100644
--- a/crates/bits/src/algos/element/sub.rs
+++ b/crates/bits/src/algos/element/sub.rs
@@ -1,4 +1,4 @@
-use crate::algos::element::ElementNot;
+use crate::algos::element::{ElementAdd, ElementNot};
 use crate::bit_slice::BitSliceExt;
 use crate::utils::IntSlice;
 #[cfg(feature = "std")]
@@ -44,8 +44,9 @@ pub trait ElementSub: BitSliceExt {
         }
 
         if carry {
-            out.set_bit(0, !out.get_bit(0));
+            // Two's complement negate, to get the magnitude of the result
             ElementNot::not(&mut out);
+            ElementAdd::add_wrapping(&mut out, &[one]);
         }
 
         (IntSlice::shrink(out), carry)
-- 
2.43.0


From b858b3062cd2f70280da3c974daf92f7e68b886f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:49:17 +0000
Subject: [PATCH 04/50] fix: report overflow for products past the end of the
 output

---
 crates/bits/src/algos/element/mul.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/bits/src/algos/element/mul.rs b/crates/bits/src/algos/element/mul.rs
index 242f165..577f2cd 100644
--- a/crates/bits/src/algos/element/mul.rs
+++ b/crates/bits/src/algos/element/mul.rs
@@ -35,7 +35,8 @@ pub trait ElementMul: BitSliceExt {
 
     fn add_item(&mut self, mut idx: usize, mut val: Self::Bit) -> bool {
         let slice = self.slice_mut();
-        let mut carry = false;
+        // If the location is out of range, any non-zero value is carried out
+        let mut carry = val != Self::Bit::zero();
 
         while let Some(loc) = slice.get_mut(idx) {
             let (new, new_carry) = loc.overflowing_add(val);
-- 
2.43.0


From 307f0cd8276bd698bc519abad144d16308811827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:49:17 +0000
Subject: [PATCH 05/50] fix: growing shift right by one element or more

---
 crates/bits/src/algos/element/shr.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/crates/bits/src/algos/element/shr.rs b/crates/bits/src/algos/element/shr.rs
index e055d45..ceb8ae0 100644
--- a/crates/bits/src/algos/element/shr.rs
+++ b/crates/bits/src/algos/element/shr.rs
@@ -20,17 +20,17 @@ pub trait ElementShr: BitSliceExt {
             let high = val << inverse_elem_shift;
             let low = val >> elem_shift;
 
-            if idx != 0 {
-                let high = (out.get_opt(idx - arr_shift).unwrap_or(zero) & !elem_mask)
-                    | (high & elem_mask);
+            if let Some(idx) = usize::checked_sub(idx, arr_shift) {
+                let high = (out.get_opt(idx).unwrap_or(zero) & !elem_mask) | (high & elem_mask);
 
-                out.set_ignore(idx - arr_shift, high);
+                out.set_ignore(idx, high);
             }
 
-            let low =
-                (out.get_opt(idx + 1 - arr_shift).unwrap_or(zero) & elem_mask) | (low & !elem_mask);
+            if let Some(idx) = usize::checked_sub(idx + 1, arr_shift) {
+                let low = (out.get_opt(idx).unwrap_or(zero) & elem_mask) | (low & !elem_mask);
 
-            out.set_ignore(idx + 1 - arr_shift, low);
+                out.set_ignore(idx, low);
+            }
         });
 
         IntSlice::shrink(out)
-- 
2.43.0


From f01f56ee0da328950f227df1f7a3f9ad9f593699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:49:17 +0000
Subject: [PATCH 06/50] fix: in-place shifts keep no stale bits and allow
 shifting out everything

---
 crates/bits/src/algos/element/shl.rs | 3 ++-
 crates/bits/src/algos/element/shr.rs | 5 +++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/crates/bits/src/algos/element/shl.rs b/crates/bits/src/algos/element/shl.rs
index 2a58669..23243fc 100644
--- a/crates/bits/src/algos/element/shl.rs
+++ b/crates/bits/src/algos/element/shl.rs
@@ -63,7 +63,8 @@ pub trait ElementShl: BitSliceExt {
 
             left.set_ignore(idx + arr_shift - 1, low);
         });
-        left.slice_mut()[..arr_shift - 1].fill(zero);
+        let empty = usize::min(arr_shift - 1, left.len());
+        left.slice_mut()[..empty].fill(zero);
 
         left
     }
diff --git a/crates/bits/src/algos/element/shr.rs b/crates/bits/src/algos/element/shr.rs
index ceb8ae0..cbb1f64 100644
--- a/crates/bits/src/algos/element/shr.rs
+++ b/crates/bits/src/algos/element/shr.rs
@@ -58,12 +58,13 @@ pub trait ElementShr: BitSliceExt {
             }
 
             if let Some(idx) = usize::checked_sub(idx + 1, arr_shift) {
-                let low = (left.get_opt(idx).unwrap_or(zero) & elem_mask) | (low & !elem_mask);
+                // The existing value is the unshifted input, the next element provides the rest
+                let low = low & !elem_mask;
 
                 left.set_ignore(idx, low);
             }
         });
-        let empty = left.len() - arr_shift + 1;
+        let empty = (left.len() + 1).saturating_sub(arr_shift);
         left.slice_mut()[empty..].fill(zero);
 
         left
-- 
2.43.0


From 55c4480369b4b6f1a26c08c6d61672608f2e8b5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:49:17 +0000
Subject: [PATCH 07/50] fix: wrapping shifts for lengths that aren't a power of
 two

---
 crates/bits/src/algos/element/shl.rs | 4 +---
 crates/bits/src/algos/element/shr.rs | 3 +--
 2 files changed, 2 insertions(+), 5 deletions(-)

diff --git a/crates/bits/src/algos/element/shl.rs b/crates/bits/src/algos/element/shl.rs
index 23243fc..ba8ecc8 100644
--- a/crates/bits/src/algos/element/shl.rs
+++ b/crates/bits/src/algos/element/shl.rs
@@ -1,6 +1,5 @@
 #[cfg(feature = "std")]
 use alloc::{vec, vec::Vec};
-use numeric_traits::cast::FromTruncating;
 use numeric_traits::class::Bounded;
 use numeric_traits::identity::Zero;
 
@@ -83,8 +82,7 @@ pub trait ElementShl: BitSliceExt {
     /// the shift value if it is greater than the number of bits in the left-hand side.
     fn shl_wrapping(left: &mut Self, right: usize) -> &mut Self {
         let bit_len = left.bit_len();
-        let num_zeroes = usize::truncate_from(bit_len.leading_zeros()) + 1;
-        Self::inner_shl_wrap_and_mask(left, right & usize::MAX >> num_zeroes)
+        Self::inner_shl_wrap_and_mask(left, right % bit_len)
     }
 }
 
diff --git a/crates/bits/src/algos/element/shr.rs b/crates/bits/src/algos/element/shr.rs
index cbb1f64..0a1793a 100644
--- a/crates/bits/src/algos/element/shr.rs
+++ b/crates/bits/src/algos/element/shr.rs
@@ -84,8 +84,7 @@ pub trait ElementShr: BitSliceExt {
     /// the shift value if it is greater than the number of bits in the left-hand side.
     fn shr_wrapping(left: &mut Self, right: usize) -> &mut Self {
         let bit_len = left.bit_len();
-        let num_zeroes = (bit_len.leading_zeros() as usize) + 1;
-        Self::inner_shr_wrap_and_mask(left, right & usize::MAX >> num_zeroes)
+        Self::inner_shr_wrap_and_mask(left, right % bit_len)
     }
 }
 
-- 
2.43.0


From 497534eec9e2bf6da3601918c6a43200e614790b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:49:17 +0000
Subject: [PATCH 08/50] fix: in-place bitwise add stays within the output

---
 crates/bits/src/algos/bitwise/add.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/crates/bits/src/algos/bitwise/add.rs b/crates/bits/src/algos/bitwise/add.rs
index 69ec20d..5a8e58b 100644
--- a/crates/bits/src/algos/bitwise/add.rs
+++ b/crates/bits/src/algos/bitwise/add.rs
@@ -56,12 +56,10 @@ pub trait BitwiseAdd: BitSliceExt {
     where
         T: BitSliceExt<Bit = Self::Bit>,
     {
-        let bit_len = usize::max(left.bit_len(), right.bit_len());
-
         let mut carry = false;
-        for idx in 0..=bit_len {
+        for idx in 0..left.bit_len() {
             let l = u8::from(left.get_bit(idx));
-            let r = u8::from(right.get_bit(idx));
+            let r = u8::from(right.get_bit_opt(idx).unwrap_or(false));
 
             let c = if carry {
                 carry = false;
-- 
2.43.0


From 94b2bf86da8fbbb6b346240aa3c413e836e81899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:49:17 +0000
Subject: [PATCH 09/50] fix: set_push extends far enough to hold the new value

---
 crates/bits/src/bit_slice.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/bits/src/bit_slice.rs b/crates/bits/src/bit_slice.rs
index 63f3d97..92c8dcb 100644
--- a/crates/bits/src/bit_slice.rs
+++ b/crates/bits/src/bit_slice.rs
@@ -208,7 +208,7 @@ pub trait BitVecExt: BitSliceExt {
 
     /// Set a single value by index on this slice, extending it if the index is out of range
     fn set_push(&mut self, idx: usize, val: Self::Bit) {
-        self.extend(idx, Self::Bit::zero());
+        self.extend(idx + 1, Self::Bit::zero());
         self.set_ignore(idx, val);
     }
 
-- 
2.43.0


From bbed9ac2fdea0c9d03cca370cd6530fea6fb0bd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:49:17 +0000
Subject: [PATCH 10/50] fix: BitIter length after the first element

---
 crates/bits/src/bit_slice/iter.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/bits/src/bit_slice/iter.rs b/crates/bits/src/bit_slice/iter.rs
index aa3bac8..08bcb42 100644
--- a/crates/bits/src/bit_slice/iter.rs
+++ b/crates/bits/src/bit_slice/iter.rs
@@ -54,7 +54,7 @@ where
         let remaining = self.iter.len();
         I::BIT_LEN * remaining
             + if self.cur.is_some() {
-                I::BIT_LEN - self.idx
+                I::BIT_LEN - self.idx % I::BIT_LEN
             } else {
                 0
             }
-- 
2.43.0


From 2eef78dc480e9b36e1228f813078cab6797f06ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:50:15 +0000
Subject: [PATCH 11/50] fix: division by a slice longer than the dividend

---
 crates/bits/src/algos/bitwise/div.rs | 6 +++---
 crates/bits/src/algos/element/div.rs | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/crates/bits/src/algos/bitwise/div.rs b/crates/bits/src/algos/bitwise/div.rs
index 99f98ec..5a76456 100644
--- a/crates/bits/src/algos/bitwise/div.rs
+++ b/crates/bits/src/algos/bitwise/div.rs
@@ -12,7 +12,7 @@ pub trait BitwiseDiv: BitSliceExt {
         T: ?Sized + BitSliceExt<Bit = Self::Bit>,
     {
         let len = usize::max(num.len(), div.len());
-        let bit_len = usize::max(num.bit_len(), div.bit_len());
+        let bit_len = num.bit_len();
 
         let mut quotient = vec![Self::Bit::zero(); len];
         let mut remainder = vec![Self::Bit::zero(); len];
@@ -39,7 +39,7 @@ pub trait BitwiseDiv: BitSliceExt {
     where
         T: ?Sized + BitSliceExt<Bit = Self::Bit>,
     {
-        let bit_len = usize::max(num.bit_len(), div.bit_len());
+        let bit_len = num.bit_len();
         for idx in (0..bit_len).rev() {
             ElementShl::shl_wrapping(remainder, 1);
             remainder.set_bit(0, num.get_bit(idx));
@@ -93,7 +93,7 @@ pub trait BitwiseDiv: BitSliceExt {
     where
         T: ?Sized + BitSliceExt<Bit = Self::Bit>,
     {
-        let bit_len = usize::max(num.bit_len(), div.bit_len());
+        let bit_len = num.bit_len();
 
         for idx in (0..bit_len).rev() {
             ElementShl::shl_wrapping(remainder, 1);
diff --git a/crates/bits/src/algos/element/div.rs b/crates/bits/src/algos/element/div.rs
index cddce40..52952de 100644
--- a/crates/bits/src/algos/element/div.rs
+++ b/crates/bits/src/algos/element/div.rs
@@ -28,7 +28,7 @@ pub trait ElementDiv: BitSliceExt {
             // Shift left by 1 element
             ElementShl::shl_wrapping(&mut remainder, Self::Bit::BIT_LEN);
             // Set new element to left[idx]
-            remainder.set(0, left.get(idx));
+            remainder.set(0, left.get_opt(idx).unwrap_or(Self::Bit::zero()));
 
             // Mathy stuff:
             //   The remainder will *always* be no more than one digit greater than the divisor
-- 
2.43.0


From f73ae096e55fbfdf2fa907e2bbd2e5d89a3a5348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:50:15 +0000
Subject: [PATCH 12/50] fix: division by zero panics or returns None instead of
 garbage

---
 crates/bits/src/algos/bitwise/div.rs | 13 +++++++++++++
 crates/bits/src/algos/element/div.rs |  4 ++++
 2 files changed, 17 insertions(+)

diff --git a/crates/bits/src/algos/bitwise/div.rs b/crates/bits/src/algos/bitwise/div.rs
index 5a76456..bf9260c 100644
--- a/crates/bits/src/algos/bitwise/div.rs
+++ b/crates/bits/src/algos/bitwise/div.rs
@@ -4,6 +4,10 @@ use crate::bit_slice::BitSliceExt;
 use alloc::{vec, vec::Vec};
 use numeric_traits::identity::Zero;
 
+fn is_zero<T: ?Sized + BitSliceExt>(val: &T) -> bool {
+    val.slice().iter().all(Zero::is_zero)
+}
+
 pub trait BitwiseDiv: BitSliceExt {
     #[cfg(feature = "std")]
     /// Divide two slices, implemented as bitwise long division
@@ -11,6 +15,7 @@ pub trait BitwiseDiv: BitSliceExt {
     where
         T: ?Sized + BitSliceExt<Bit = Self::Bit>,
     {
+        assert!(!is_zero(div), "attempt to divide by zero");
         let len = usize::max(num.len(), div.len());
         let bit_len = num.bit_len();
 
@@ -39,6 +44,7 @@ pub trait BitwiseDiv: BitSliceExt {
     where
         T: ?Sized + BitSliceExt<Bit = Self::Bit>,
     {
+        assert!(!is_zero(div), "attempt to divide by zero");
         let bit_len = num.bit_len();
         for idx in (0..bit_len).rev() {
             ElementShl::shl_wrapping(remainder, 1);
@@ -64,6 +70,9 @@ pub trait BitwiseDiv: BitSliceExt {
     where
         T: ?Sized + BitSliceExt<Bit = Self::Bit>,
     {
+        if is_zero(right) {
+            return None;
+        }
         let (out, carry) = BitwiseDiv::div_long_overflowing(left, right, scratch);
         if carry {
             None
@@ -93,6 +102,7 @@ pub trait BitwiseDiv: BitSliceExt {
     where
         T: ?Sized + BitSliceExt<Bit = Self::Bit>,
     {
+        assert!(!is_zero(div), "attempt to divide by zero");
         let bit_len = num.bit_len();
 
         for idx in (0..bit_len).rev() {
@@ -117,6 +127,9 @@ pub trait BitwiseDiv: BitSliceExt {
     where
         T: ?Sized + BitSliceExt<Bit = Self::Bit>,
     {
+        if is_zero(right) {
+            return None;
+        }
         let (out, carry) = BitwiseDiv::rem_long_overflowing(left, right, scratch);
         if carry {
             None
diff --git a/crates/bits/src/algos/element/div.rs b/crates/bits/src/algos/element/div.rs
index 52952de..9feac0a 100644
--- a/crates/bits/src/algos/element/div.rs
+++ b/crates/bits/src/algos/element/div.rs
@@ -17,6 +17,10 @@ pub trait ElementDiv: BitSliceExt {
     where
         T: ?Sized + BitSliceExt<Bit = Self::Bit>,
     {
+        assert!(
+            !right.slice().iter().all(Zero::is_zero),
+            "attempt to divide by zero"
+        );
         let len = usize::max(left.len(), right.len());
 
         let mut quotient = vec![Self::Bit::zero(); len];
-- 
2.43.0


From 6c79b16212cbdaa6f93d4ada02c3784bbd1093de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:50:15 +0000
Subject: [PATCH 13/50] fix: arr_to_int ignores leading zeros and detects lost
 bits

---
 crates/bits/src/utils.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/crates/bits/src/utils.rs b/crates/bits/src/utils.rs
index 6aca128..26dc765 100644
--- a/crates/bits/src/utils.rs
+++ b/crates/bits/src/utils.rs
@@ -70,8 +70,17 @@ pub fn arr_to_int<
     let bit_len = size_of::<T>() * 8;
     let mut out = U::zero();
     for (idx, &i) in arr.iter().enumerate() {
+        // Zero digits never contribute to the output, even if they're out of its range
+        if i == T::zero() {
+            continue;
+        }
         let t = U::from_checked(i)?;
-        out += t.checked_shl(idx * bit_len)?;
+        let shifted = t.checked_shl(idx * bit_len)?;
+        // Shifting must not lose any bits, or move them into the sign
+        if shifted >> (idx * bit_len) != t {
+            return None;
+        }
+        out += shifted;
     }
     Some(out)
 }
-- 
2.43.0


From f43ad82912855c1183d2f8e87a1ff94896a782ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:51:11 +0000
Subject: [PATCH 14/50] fix: U conversions to and from primitives of a
 different width

---
 crates/ints/src/u.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/crates/ints/src/u.rs b/crates/ints/src/u.rs
index 75baea3..05c7535 100644
--- a/crates/ints/src/u.rs
+++ b/crates/ints/src/u.rs
@@ -574,7 +574,7 @@ macro_rules! impl_unsign_cast {
                     Some(<$num>::from_le_bytes(arr))
                 } else {
                     for i in 0..N {
-                        if i <= SIZE {
+                        if i < SIZE {
                             arr[i] = val.0[i];
                         } else {
                             if val.0[i] != 0 {
@@ -597,7 +597,7 @@ macro_rules! impl_unsign_cast {
             fn truncate_from(val: U<N>) -> Self {
                 const SIZE: usize = size_of::<$num>();
                 let mut arr = [0; SIZE];
-                for i in 0..N {
+                for i in 0..usize::min(N, SIZE) {
                     arr[i] = val.0[i];
                 }
                 <$num>::from_le_bytes(arr)
@@ -610,13 +610,13 @@ macro_rules! impl_unsign_cast {
                 let bytes = val.to_le_bytes();
                 let mut arr = [0; N];
                 if N >= SIZE {
-                    for i in 0..N {
+                    for i in 0..SIZE {
                         arr[i] = bytes[i];
                     }
                     Some(U::from_le_bytes(arr))
                 } else {
-                    for i in 0..N {
-                        if i <= N {
+                    for i in 0..SIZE {
+                        if i < N {
                             arr[i] = bytes[i];
                         } else {
                             if bytes[i] != 0 {
-- 
2.43.0


From 997a62d08db3cfd84c953f244122d9181f9e0f6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:51:11 +0000
Subject: [PATCH 15/50] fix: U zero to the power of zero is one

---
 crates/ints/src/u.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/ints/src/u.rs b/crates/ints/src/u.rs
index 05c7535..c36a40b 100644
--- a/crates/ints/src/u.rs
+++ b/crates/ints/src/u.rs
@@ -430,10 +430,10 @@ impl<const N: usize> Pow for U<N> {
     type Output = Self;
 
     fn pow(self, rhs: Self) -> Self::Output {
-        if self.is_zero() || self.is_one() {
-            self
-        } else if rhs.is_zero() {
+        if rhs.is_zero() {
             Self::one()
+        } else if self.is_zero() || self.is_one() {
+            self
         } else {
             // Any value greater than N will definitely overflow, and N is capped by usize
             let val: usize = usize::from_checked(rhs).unwrap();
-- 
2.43.0


From 2f71483c1e1d69e2359b1f5e196b4b3c18e3f15a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:51:11 +0000
Subject: [PATCH 16/50] fix: I::abs of negative values

---
 crates/ints/src/i.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/crates/ints/src/i.rs b/crates/ints/src/i.rs
index c9c2aa2..bd80f64 100644
--- a/crates/ints/src/i.rs
+++ b/crates/ints/src/i.rs
@@ -309,10 +309,12 @@ impl<const N: usize> Pow for I<N> {
 impl<const N: usize> Numeric for I<N> {}
 
 impl<const N: usize> Signed for I<N> {
-    fn abs(mut self) -> Self {
-        let last = self.0.last_mut().unwrap();
-        *last &= 0x7F;
-        self
+    fn abs(self) -> Self {
+        if self.is_negative() {
+            -self
+        } else {
+            self
+        }
     }
 
     fn is_positive(&self) -> bool {
-- 
2.43.0


From 6219b48bd3b582961a782c8bd051aac1268c0dc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:51:11 +0000
Subject: [PATCH 17/50] fix: order I from its most significant byte

---
 crates/ints/src/i.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/ints/src/i.rs b/crates/ints/src/i.rs
index bd80f64..a22760d 100644
--- a/crates/ints/src/i.rs
+++ b/crates/ints/src/i.rs
@@ -5,7 +5,7 @@
 use core::array;
 use core::cmp::Ordering;
 use core::ops::{Add, BitAnd, BitOr, BitXor, Div, Mul, Neg, Not, Rem, Shl, Shr, Sub};
-use numeric_bits::algos::{BitwiseDiv, ElementAdd, ElementMul, ElementSub};
+use numeric_bits::algos::{BitwiseDiv, ElementAdd, ElementCmp, ElementMul, ElementSub};
 use numeric_static_iter::{IntoStaticIter, StaticIter};
 use numeric_traits::class::{Bounded, BoundedSigned, Integral, Numeric, Signed};
 use numeric_traits::identity::{One, Zero};
@@ -216,7 +216,7 @@ impl<const N: usize> PartialOrd for I<N> {
 impl<const N: usize> Ord for I<N> {
     fn cmp(&self, other: &Self) -> Ordering {
         match self.is_negative().cmp(&other.is_negative()) {
-            Ordering::Equal => self.0.cmp(&other.0),
+            Ordering::Equal => ElementCmp::cmp(&self.0, &other.0),
             ord => ord.reverse(),
         }
     }
-- 
2.43.0


From 901d38f1927db1228f35f6bba61dbf0298352492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:51:11 +0000
Subject: [PATCH 18/50] fix: sign of the remainder of I

---
 crates/ints/src/i.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/ints/src/i.rs b/crates/ints/src/i.rs
index a22760d..2da0015 100644
--- a/crates/ints/src/i.rs
+++ b/crates/ints/src/i.rs
@@ -75,7 +75,8 @@ impl<const N: usize> Rem for I<N> {
     type Output = Self;
 
     fn rem(mut self, mut rhs: Self) -> Self::Output {
-        let neg = self.is_negative() != rhs.is_negative();
+        // Remainder takes the sign of the dividend
+        let neg = self.is_negative();
         self = self.abs();
         rhs = rhs.abs();
         BitwiseDiv::rem_long_wrapping(&mut self.0, &rhs.0, &mut [0; N]);
-- 
2.43.0


From 563c3c2ce490e7d69363546689d87865b3200a48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:51:11 +0000
Subject: [PATCH 19/50] fix: order BigInt from its most significant word

---
 crates/ints/src/big_int.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/ints/src/big_int.rs b/crates/ints/src/big_int.rs
index 15baf24..04f05ee 100644
--- a/crates/ints/src/big_int.rs
+++ b/crates/ints/src/big_int.rs
@@ -380,8 +380,10 @@ impl Ord for BigInt {
             if this.len() != other.len() {
                 usize::cmp(&this.len(), &other.len())
             } else {
+                // Slices are little-endian, compare from the most significant item
                 this.iter()
-                    .zip(other.iter())
+                    .rev()
+                    .zip(other.iter().rev())
                     .find_map(|(l, r)| match l.cmp(r) {
                         Ordering::Equal => None,
                         other => Some(other),
-- 
2.43.0


From 6ffbd64ed708e1eafc107f19138e592ca605a6f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:51:11 +0000
Subject: [PATCH 20/50] fix: sign of the remainder of BigInt

---
 crates/ints/src/big_int.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/ints/src/big_int.rs b/crates/ints/src/big_int.rs
index 04f05ee..daf9871 100644
--- a/crates/ints/src/big_int.rs
+++ b/crates/ints/src/big_int.rs
@@ -492,7 +492,8 @@ impl_op!(rem(self, rhs) => {
     let out = BigInt::with_slices(self, rhs, |this, other| {
         BitwiseDiv::div_long(this, other).1
     });
-    BigInt::new_slice(out, self.is_negative() != rhs.is_negative())
+    // Remainder takes the sign of the dividend
+    BigInt::new_slice(out, self.is_negative())
 });
 
 impl_op!(shl(self, rhs) => {
-- 
2.43.0


From 71a8e34612384e5887317a77854a98eccb2dca3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:51:11 +0000
Subject: [PATCH 21/50] fix: negating a zero BigInt is still zero

---
 crates/ints/src/big_int.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/crates/ints/src/big_int.rs b/crates/ints/src/big_int.rs
index daf9871..852870f 100644
--- a/crates/ints/src/big_int.rs
+++ b/crates/ints/src/big_int.rs
@@ -548,7 +548,10 @@ impl ops::Neg for BigInt {
     type Output = BigInt;
 
     fn neg(mut self) -> Self::Output {
-        self.0 = self.0.invert_neg();
+        // Zero has no negative
+        if !self.is_zero() {
+            self.0 = self.0.invert_neg();
+        }
         self
     }
 }
@@ -557,9 +560,7 @@ impl ops::Neg for &BigInt {
     type Output = BigInt;
 
     fn neg(self) -> Self::Output {
-        let mut out = self.clone();
-        out.0 = out.0.invert_neg();
-        out
+        -self.clone()
     }
 }
 
-- 
2.43.0


From 461deb706b1181838690d9f3f6d2523c94e0e121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:51:11 +0000
Subject: [PATCH 22/50] fix: BigInt equality with negative and minimum
 primitives

---
 crates/ints/src/big_int/macros.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/crates/ints/src/big_int/macros.rs b/crates/ints/src/big_int/macros.rs
index f258fe9..8e81b36 100644
--- a/crates/ints/src/big_int/macros.rs
+++ b/crates/ints/src/big_int/macros.rs
@@ -164,10 +164,10 @@ macro_rules! impl_for_int {
                 if self.is_negative() != other.is_negative() {
                     return false;
                 }
-                let other = other.abs();
+                let other = other.unsigned_abs();
 
                 self.with_slice(|this| {
-                    let arr = int_to_arr::<_, _, { arr_size::<$unsigned>() }>(other as $unsigned);
+                    let arr = int_to_arr::<_, _, { arr_size::<$unsigned>() }>(other);
                     this == IntSlice::shrink(&arr as &[_])
                 })
             }
@@ -175,6 +175,10 @@ macro_rules! impl_for_int {
 
         impl PartialEq<$unsigned> for BigInt {
             fn eq(&self, other: &$unsigned) -> bool {
+                if self.is_negative() {
+                    return false;
+                }
+
                 self.with_slice(|this| {
                     let arr = int_to_arr::<_, _, { arr_size::<$unsigned>() }>(*other);
                     this == IntSlice::shrink(&arr as &[_])
-- 
2.43.0


From 10d61206f385b4fab5954753e06a556fd11737fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:51:39 +0000
Subject: [PATCH 23/50] fix: BigInt conversion to signed primitives keeps the
 sign

---
 crates/ints/src/big_int/macros.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/crates/ints/src/big_int/macros.rs b/crates/ints/src/big_int/macros.rs
index 8e81b36..e4b657a 100644
--- a/crates/ints/src/big_int/macros.rs
+++ b/crates/ints/src/big_int/macros.rs
@@ -88,8 +88,15 @@ macro_rules! impl_for_int {
                 } else if bi < &BigInt::from(Self::MIN) {
                     Err(OutOfRangeError::below())
                 } else {
-                    bi.with_slice(|s| arr_to_int(s))
-                        .ok_or_else(|| OutOfRangeError::above())
+                    let mag: $unsigned = bi
+                        .with_slice(|s| arr_to_int(s))
+                        .ok_or_else(|| OutOfRangeError::above())?;
+                    // The value is in range, so this can only wrap for `MIN`
+                    Ok(if bi.is_negative() {
+                        (mag as $signed).wrapping_neg()
+                    } else {
+                        mag as $signed
+                    })
                 }
             }
         }
-- 
2.43.0


From 42d31e84f33bd727ee274d400d64eac30d13069b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:51:39 +0000
Subject: [PATCH 24/50] fix: truncating BigInt conversions keep the low bits

---
 crates/ints/src/big_int/macros.rs | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/crates/ints/src/big_int/macros.rs b/crates/ints/src/big_int/macros.rs
index e4b657a..060a728 100644
--- a/crates/ints/src/big_int/macros.rs
+++ b/crates/ints/src/big_int/macros.rs
@@ -120,15 +120,24 @@ macro_rules! impl_for_int {
 
         impl numeric_traits::cast::FromTruncating<BigInt> for $unsigned {
             fn truncate_from(val: BigInt) -> Self {
-                val.with_slice(|s| arr_to_int(s))
-                    .unwrap_or(<$unsigned>::MAX)
+                let mag = val.with_slice(|s| {
+                    s.iter().enumerate().fold(0, |acc, (idx, &i)| {
+                        let shift = u32::try_from(idx * usize::BITS as usize).unwrap_or(u32::MAX);
+                        acc | (i as $unsigned).checked_shl(shift).unwrap_or(0)
+                    })
+                });
+                if val.is_negative() {
+                    <$unsigned>::wrapping_neg(mag)
+                } else {
+                    mag
+                }
             }
         }
 
         impl numeric_traits::cast::FromTruncating<BigInt> for $signed {
             fn truncate_from(val: BigInt) -> Self {
-                val.with_slice(|s| arr_to_int(s)).unwrap_or(<$signed>::MAX)
-                    * if val.is_negative() { -1 } else { 1 }
+                <$unsigned as numeric_traits::cast::FromTruncating<BigInt>>::truncate_from(val)
+                    as $signed
             }
         }
 
-- 
2.43.0


From 7d9c4f3d21c77878f966bed1bdd89835df2a158b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:51:39 +0000
Subject: [PATCH 25/50] fix: print the digits of negative BigInts

---
 crates/ints/src/big_int.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/ints/src/big_int.rs b/crates/ints/src/big_int.rs
index 852870f..bd1fd6a 100644
--- a/crates/ints/src/big_int.rs
+++ b/crates/ints/src/big_int.rs
@@ -209,7 +209,7 @@ impl BigInt {
         // This is the simplest way - mod base for digit, div base for next digit
         // It isn't super fast though, so there are probably optimization improvements
         let mut digits = Vec::new();
-        let mut scratch = self.clone();
+        let mut scratch = self.clone().abs();
 
         while scratch > 0 {
             let digit = u8::from_checked(scratch.clone() % base)
-- 
2.43.0


From 32fd0d9a26a5e791d7c04583cc9face3df40a71b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:51:39 +0000
Subject: [PATCH 26/50] fix: parse negative BigInts

---
 crates/ints/src/big_int.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/ints/src/big_int.rs b/crates/ints/src/big_int.rs
index bd1fd6a..b5e37af 100644
--- a/crates/ints/src/big_int.rs
+++ b/crates/ints/src/big_int.rs
@@ -664,11 +664,15 @@ impl FromStrRadix for BigInt {
 
     fn from_str_radix(str: &str, radix: u32) -> Result<Self, Self::Error> {
         let mut out = BigInt::zero();
+        let (str, neg) = match str.strip_prefix('-') {
+            Some(str) => (str, true),
+            None => (str, false),
+        };
         for digit in str.chars() {
             let new_val = RadixChars::val_from_char(digit, radix)?;
             out = (out * radix) + new_val;
         }
-        Ok(out)
+        Ok(if neg { -out } else { out })
     }
 }
 
-- 
2.43.0


From c75a56fc735bd385b8e56143ee3ecf8c9a4ddc4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:51:39 +0000
Subject: [PATCH 27/50] fix: approx_float of negative and very large BigInts

---
 crates/ints/src/big_int.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/crates/ints/src/big_int.rs b/crates/ints/src/big_int.rs
index b5e37af..c4a5a24 100644
--- a/crates/ints/src/big_int.rs
+++ b/crates/ints/src/big_int.rs
@@ -247,17 +247,24 @@ impl BigInt {
     /// If the value is large, this may return [`f64::INFINITY`] or [`f64::NEG_INFINITY`].
     pub fn approx_float(&self) -> f64 {
         const USIZE_MAX: f64 = usize::MAX as f64;
-        self.with_slice(|vals| {
+        let abs = self.with_slice(|vals| {
             vals.iter()
                 .copied()
                 .enumerate()
+                // A zero word would otherwise become NaN past the range of a float
+                .filter(|&(_, val)| val != 0)
                 .try_fold(0., |acc, (idx, val)| {
                     let val = val as f64;
                     let idx = i32::try_from(idx)?;
                     Ok::<_, num::TryFromIntError>(val.mul_add(USIZE_MAX.powi(idx), acc))
                 })
                 .unwrap_or(f64::INFINITY)
-        })
+        });
+        if self.is_negative() {
+            -abs
+        } else {
+            abs
+        }
     }
 }
 
-- 
2.43.0


From 0dabd4813de026f6362f3ff21ed21cb460b097a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:51:39 +0000
Subject: [PATCH 28/50] fix: two's complement bitwise operations on negative
 BigInts

---
 crates/ints/src/big_int.rs | 63 +++++++++++++++++++++++++++++---------
 1 file changed, 48 insertions(+), 15 deletions(-)

diff --git a/crates/ints/src/big_int.rs b/crates/ints/src/big_int.rs
index c4a5a24..71963fd 100644
--- a/crates/ints/src/big_int.rs
+++ b/crates/ints/src/big_int.rs
@@ -158,6 +158,42 @@ impl BigInt {
         left.with_slice(|left| right.with_slice(|right| f(left, right)))
     }
 
+    /// Apply a bitwise operation to two values, as if both were in two's complement form with an
+    /// infinitely repeated sign bit
+    fn with_twos_complement(
+        left: &BigInt,
+        right: &BigInt,
+        f: impl FnOnce(&[usize], &[usize]) -> Vec<usize>,
+    ) -> BigInt {
+        fn negate(val: &mut [usize]) {
+            ElementNot::not(val);
+            ElementAdd::add_wrapping(val, &[1]);
+        }
+
+        let mut out = Self::with_slices(left, right, |l, r| {
+            // An extra item, so there's always room for the sign bit
+            let len = usize::max(l.len(), r.len()) + 1;
+            let extend = |val: &[usize], neg| {
+                let mut out = val.to_vec();
+                out.resize(len, 0);
+                if neg {
+                    negate(&mut out);
+                }
+                out
+            };
+            f(
+                &extend(l, left.is_negative()),
+                &extend(r, right.is_negative()),
+            )
+        });
+
+        let neg = out.get_bit(out.bit_len() - 1);
+        if neg {
+            negate(&mut out);
+        }
+        BigInt::new_slice(out, neg)
+    }
+
     /// Create a new `BigInt` with the default value of zero
     #[must_use]
     #[inline]
@@ -511,6 +547,10 @@ impl_op!(shl(self, rhs) => {
 });
 
 impl_op!(shr(self, rhs) => {
+    if self.is_negative() {
+        // As with two's complement, the sign bit is shifted in
+        return !(!self.clone() >> rhs);
+    }
     let out = BigInt::with_slices(self, rhs, |this, _| {
         ElementShr::shr(this, usize::try_from(rhs).expect("Shifts larger than a usize are not yet supported"))
     });
@@ -518,36 +558,29 @@ impl_op!(shr(self, rhs) => {
 });
 
 impl_op!(bitand(self, rhs) => {
-    let out = BigInt::with_slices(self, rhs, |this, other| {
+    BigInt::with_twos_complement(self, rhs, |this, other| {
         ElementBitand::bitand(this, other)
-    });
-    BigInt::new_slice(out, self.is_negative())
+    })
 });
 
 impl_op!(bitor(self, rhs) => {
-    let out = BigInt::with_slices(self, rhs, |this, other| {
+    BigInt::with_twos_complement(self, rhs, |this, other| {
         ElementBitor::bitor(this, other)
-    });
-    BigInt::new_slice(out, self.is_negative())
+    })
 });
 
 impl_op!(bitxor(self, rhs) => {
-    let out = BigInt::with_slices(self, rhs, |this, other| {
+    BigInt::with_twos_complement(self, rhs, |this, other| {
         ElementBitxor::bitxor(this, other)
-    });
-    BigInt::new_slice(out, self.is_negative())
+    })
 });
 
 impl ops::Not for BigInt {
     type Output = BigInt;
 
     fn not(self) -> Self::Output {
-        let out = BigInt::with_slice(&self, |slice| {
-            let mut out = slice.to_vec();
-            ElementNot::not(&mut out);
-            out
-        });
-        BigInt::new_slice(out, self.is_negative())
+        // Inverting all the bits of a two's complement value
+        -self - 1
     }
 }
 
-- 
2.43.0


From 9a849d71b3e1adee56cf804b9c3cd3ff372565fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:53:07 +0000
Subject: [PATCH 29/50] fix: scale the results of Fixed multiplication and
 division

---
 crates/reals/src/fixed.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/crates/reals/src/fixed.rs b/crates/reals/src/fixed.rs
index d190148..eb7387a 100644
--- a/crates/reals/src/fixed.rs
+++ b/crates/reals/src/fixed.rs
@@ -133,7 +133,8 @@ impl<T: Integral, const N: usize> Mul for Fixed<T, N> {
     type Output = Fixed<T, N>;
 
     fn mul(self, rhs: Self) -> Self::Output {
-        Fixed(self.0 * rhs.0)
+        // The product has twice as many fractional bits
+        Fixed((self.0 * rhs.0) >> N)
     }
 }
 
@@ -141,7 +142,8 @@ impl<T: Integral, const N: usize> Div for Fixed<T, N> {
     type Output = Fixed<T, N>;
 
     fn div(self, rhs: Self) -> Self::Output {
-        Fixed(self.0 / rhs.0)
+        // The fractional bits cancel out, so add them back first
+        Fixed((self.0 << N) / rhs.0)
     }
 }
 
-- 
2.43.0


From 81fedad43fea19e0cf8bde40ef03aaacc39b823e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:53:07 +0000
Subject: [PATCH 30/50] fix: round Fixed to the nearest whole value

---
 crates/reals/src/fixed.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/reals/src/fixed.rs b/crates/reals/src/fixed.rs
index eb7387a..bddff61 100644
--- a/crates/reals/src/fixed.rs
+++ b/crates/reals/src/fixed.rs
@@ -244,14 +244,14 @@ impl<T: Integral, const N: usize> Real for Fixed<T, N> {
     }
 
     fn round(self) -> Self {
-        let half = Self::one() / (Self::one() + Self::one());
         let f = self.clone().fract();
         let f = if f >= Self::zero() {
             f
         } else {
-            Self::one() - f
+            Self::one() + f
         };
-        if f > half {
+        // Whether we're closer to the whole value above than to the one below
+        if f.clone() > Self::one() - f {
             self.ceil()
         } else {
             self.floor()
-- 
2.43.0


From cf7280ed15c6833cd94992dfb742b05aa2db0d46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:53:07 +0000
Subject: [PATCH 31/50] fix: always reduce Rat to lowest terms with a positive
 denominator

---
 crates/reals/src/rat.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/crates/reals/src/rat.rs b/crates/reals/src/rat.rs
index 597b3e9..e1bf8d6 100644
--- a/crates/reals/src/rat.rs
+++ b/crates/reals/src/rat.rs
@@ -54,13 +54,14 @@ impl<T: Integral> Rat<T> {
     {
         if num == T::zero() {
             Rat::zero()
-        } else if (num == T::one() && denom == T::one())
-            || num.clone() % denom.clone() == T::zero()
-            || denom.clone() % num.clone() == T::zero()
-        {
-            unsafe { Rat::new_unchecked(num, denom) }
         } else {
             let gcd = num.clone().gcd(denom.clone());
+            // The sign is kept in the numerator, so the divisor takes the sign of the denominator
+            let gcd = if (gcd < T::zero()) != (denom < T::zero()) {
+                T::zero() - gcd
+            } else {
+                gcd
+            };
             unsafe { Rat::new_unchecked(num / gcd.clone(), denom / gcd) }
         }
     }
-- 
2.43.0


From 22683a8fc5a3b50167563131f041c9f80f7a5ec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:53:07 +0000
Subject: [PATCH 32/50] fix: Rat::ceil of whole and negative values

---
 crates/reals/src/rat.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/crates/reals/src/rat.rs b/crates/reals/src/rat.rs
index e1bf8d6..95859f0 100644
--- a/crates/reals/src/rat.rs
+++ b/crates/reals/src/rat.rs
@@ -237,8 +237,14 @@ impl<T: Integral + Gcd<Output = T>> Real for Rat<T> {
     }
 
     fn ceil(self) -> Self {
-        let diff = self.denom.clone() - (self.num.clone() % self.denom.clone());
-        Rat::new((self.num + diff) / self.denom, T::one()).unwrap()
+        let diff = self.num.clone() % self.denom.clone();
+        // Integer division rounds towards zero, so only positive fractions need adjusting
+        let add = if diff > T::zero() {
+            T::one()
+        } else {
+            T::zero()
+        };
+        Rat::new(self.num / self.denom + add, T::one()).unwrap()
     }
 
     fn round(self) -> Self {
-- 
2.43.0


From 1cfb3f9d0a4273658183ffa3a3c46c71395e8896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:53:07 +0000
Subject: [PATCH 33/50] fix: Rat::round of negative values

---
 crates/reals/src/rat.rs | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/crates/reals/src/rat.rs b/crates/reals/src/rat.rs
index 95859f0..0b16e31 100644
--- a/crates/reals/src/rat.rs
+++ b/crates/reals/src/rat.rs
@@ -248,19 +248,23 @@ impl<T: Integral + Gcd<Output = T>> Real for Rat<T> {
     }
 
     fn round(self) -> Self {
-        let two = T::one() + T::one();
         let diff = self.num.clone() % self.denom.clone();
+        // Integer division is round-to-zero division
+        let div = self.num / self.denom.clone();
+        // The remainder has the sign of the numerator, so we may need to round up or down.
         // Check if remainder is more or less than half denom
-        let add = if diff > (self.denom.clone() / two) {
-            T::one()
+        let rounded = if diff < T::zero() {
+            if self.denom.clone() + diff.clone() < T::zero() - diff {
+                div - T::one()
+            } else {
+                div
+            }
+        } else if diff > self.denom - diff.clone() {
+            div + T::one()
         } else {
-            T::zero()
+            div
         };
-        // Integer division should be round-to-zero division
-        // TODO: This may be wrong for negatives? We probably want floor-division
-        let div = self.num / self.denom;
-        // Floor div, add one if we should round up
-        Rat::new(div + add, T::one()).unwrap()
+        Rat::new(rounded, T::one()).unwrap()
     }
 
     fn trunc(self) -> Self {
-- 
2.43.0


From 7b7d193ee50899c2a91b89865f5163851b1e6201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:53:49 +0000
Subject: [PATCH 34/50] fix: wrapping_add through the trait adds

---
 crates/traits/src/__impl.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/traits/src/__impl.rs b/crates/traits/src/__impl.rs
index 741e976..8f0e30b 100644
--- a/crates/traits/src/__impl.rs
+++ b/crates/traits/src/__impl.rs
@@ -170,7 +170,7 @@ macro_rules! impl_int {
             type Output = $ty;
 
             fn wrapping_add(self, rhs: Self) -> Self::Output {
-                <$ty>::wrapping_sub(self, rhs)
+                <$ty>::wrapping_add(self, rhs)
             }
         }
 
-- 
2.43.0


From 2952ee5f9d0b6042da1cc13372dde4e7886e9f76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:53:49 +0000
Subject: [PATCH 35/50] fix: checked shifts by distances past u32

---
 crates/traits/src/__impl.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/crates/traits/src/__impl.rs b/crates/traits/src/__impl.rs
index 8f0e30b..fdb05ee 100644
--- a/crates/traits/src/__impl.rs
+++ b/crates/traits/src/__impl.rs
@@ -76,7 +76,7 @@ macro_rules! checked_shift {
             type Output = $ty;
 
             fn checked_shl(self, rhs: usize) -> Option<Self> {
-                <$ty>::checked_shl(self, rhs as u32)
+                <$ty>::checked_shl(self, u32::try_from(rhs).ok()?)
             }
         }
 
@@ -84,7 +84,7 @@ macro_rules! checked_shift {
             type Output = $ty;
 
             fn checked_shr(self, rhs: usize) -> Option<Self> {
-                <$ty>::checked_shr(self, rhs as u32)
+                <$ty>::checked_shr(self, u32::try_from(rhs).ok()?)
             }
         }
     };
@@ -266,7 +266,7 @@ macro_rules! impl_int {
             type Output = $ty;
 
             fn checked_shl(self, rhs: Self) -> Option<Self> {
-                <$ty>::checked_shl(self, rhs as u32)
+                <$ty>::checked_shl(self, u32::try_from(rhs).ok()?)
             }
         }
 
@@ -274,7 +274,7 @@ macro_rules! impl_int {
             type Output = $ty;
 
             fn checked_shr(self, rhs: Self) -> Option<Self> {
-                <$ty>::checked_shr(self, rhs as u32)
+                <$ty>::checked_shr(self, u32::try_from(rhs).ok()?)
             }
         }
 
-- 
2.43.0


From d312fa09d891b608505b65d79340ca837a483c34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:53:49 +0000
Subject: [PATCH 36/50] fix: integer pow with exponents past u32

---
 crates/traits/src/__impl.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/traits/src/__impl.rs b/crates/traits/src/__impl.rs
index fdb05ee..8a4d590 100644
--- a/crates/traits/src/__impl.rs
+++ b/crates/traits/src/__impl.rs
@@ -146,7 +146,10 @@ macro_rules! impl_int {
             type Output = $ty;
 
             fn pow(self, rhs: Self) -> Self::Output {
-                <$ty>::pow(self, rhs as u32)
+                // For larger exponents everything but -1, 0 and 1 overflows, and for those only the
+                // parity of the exponent matters
+                let exp = u32::try_from(rhs).unwrap_or(u32::MAX - u32::from(rhs & 1 == 0));
+                <$ty>::pow(self, exp)
             }
         }
 
-- 
2.43.0


From fc4df616200c4274b10cdf45dea257dfcfd1b025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:53:49 +0000
Subject: [PATCH 37/50] fix: gcd of negative integers is positive

---
 crates/traits/src/__impl.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/crates/traits/src/__impl.rs b/crates/traits/src/__impl.rs
index 8a4d590..a197c2b 100644
--- a/crates/traits/src/__impl.rs
+++ b/crates/traits/src/__impl.rs
@@ -163,9 +163,14 @@ macro_rules! impl_int {
 
                 let [mut min, mut max] = minmax(self, rhs);
                 while min != 0 {
-                    (min, max) = (max % min, min);
+                    (min, max) = (max.wrapping_rem(min), min);
+                }
+                #[allow(unused_comparisons)]
+                if max < 0 {
+                    0 - max
+                } else {
+                    max
                 }
-                max
             }
         }
 
-- 
2.43.0


From 3f3e80424951d2950603df1d08f7757868f4f7e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:53:49 +0000
Subject: [PATCH 38/50] fix: Signed::is_positive includes zero for integers

---
 crates/traits/src/__impl.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/traits/src/__impl.rs b/crates/traits/src/__impl.rs
index a197c2b..63a81b7 100644
--- a/crates/traits/src/__impl.rs
+++ b/crates/traits/src/__impl.rs
@@ -333,7 +333,7 @@ macro_rules! impl_sint {
 
             #[inline]
             fn is_positive(&self) -> bool {
-                <$ty>::is_positive(*self)
+                *self >= 0
             }
 
             #[inline]
-- 
2.43.0


From ccbe56769d7d334bf399f901562ddd64129bef23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:53:49 +0000
Subject: [PATCH 39/50] fix: saturate isize into narrower signed integers

---
 crates/traits/src/__impl.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/crates/traits/src/__impl.rs b/crates/traits/src/__impl.rs
index 63a81b7..5e4149a 100644
--- a/crates/traits/src/__impl.rs
+++ b/crates/traits/src/__impl.rs
@@ -868,8 +868,8 @@ mod _isize {
         i16,
         u_less = [],
         u_greater_eq = [usize],
-        s_less_eq = [isize],
-        s_greater = [],
+        s_less_eq = [],
+        s_greater = [isize],
     );
     saturate_sint_impl!(
         i32,
@@ -901,15 +901,15 @@ mod _isize {
         i16,
         u_less = [],
         u_greater_eq = [usize],
-        s_less_eq = [isize],
-        s_greater = [],
+        s_less_eq = [],
+        s_greater = [isize],
     );
     saturate_sint_impl!(
         i32,
         u_less = [],
         u_greater_eq = [usize],
-        s_less_eq = [isize],
-        s_greater = [],
+        s_less_eq = [],
+        s_greater = [isize],
     );
     saturate_sint_impl!(
         i64,
-- 
2.43.0


From b0678d8aa4026f0510acee1213980a3d0691aa97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:53:49 +0000
Subject: [PATCH 40/50] fix: NonZero is_one compares with one

---
 crates/traits/src/__impl/nz.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/traits/src/__impl/nz.rs b/crates/traits/src/__impl/nz.rs
index 36fce39..17238a4 100644
--- a/crates/traits/src/__impl/nz.rs
+++ b/crates/traits/src/__impl/nz.rs
@@ -13,7 +13,7 @@ macro_rules! impl_nz {
             }
 
             fn is_one(&self) -> bool {
-                self.get() != 0
+                self.get() == 1
             }
         }
 
-- 
2.43.0


From 83323c2ec94d1d302d6e84ea97fc27f2d9dba609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:55:08 +0000
Subject: [PATCH 41/50] fix: row reduction of non-square matrices

---
 crates/compounds/src/matrix/dynamic.rs | 2 +-
 crates/compounds/src/matrix/static.rs  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/compounds/src/matrix/dynamic.rs b/crates/compounds/src/matrix/dynamic.rs
index 9c1739c..0e0cadd 100644
--- a/crates/compounds/src/matrix/dynamic.rs
+++ b/crates/compounds/src/matrix/dynamic.rs
@@ -55,7 +55,7 @@ impl<T> DynMatrix<T> {
 }
 
 impl<T: RealSigned> DynMatrix<T> {
-    gauss_elim!(self, self.rows, self.cols, self.data);
+    gauss_elim!(self, self.cols, self.rows, self.data);
     row_reduce!();
 }
 
diff --git a/crates/compounds/src/matrix/static.rs b/crates/compounds/src/matrix/static.rs
index 534564a..e7f855c 100644
--- a/crates/compounds/src/matrix/static.rs
+++ b/crates/compounds/src/matrix/static.rs
@@ -46,7 +46,7 @@ impl<T, const ROW: usize, const COL: usize> Matrix<T, ROW, COL> {
 }
 
 impl<T: RealSigned, const ROW: usize, const COL: usize> Matrix<T, ROW, COL> {
-    gauss_elim!(self, ROW, COL, self.0);
+    gauss_elim!(self, COL, ROW, self.0);
     row_reduce!();
 }
 
-- 
2.43.0


From a19db76a7a7154690a3f298ecec252e412909d1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:55:08 +0000
Subject: [PATCH 42/50] fix: matrix views reject indices one past the end

---
 crates/compounds/src/matrix/refs.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/compounds/src/matrix/refs.rs b/crates/compounds/src/matrix/refs.rs
index 5855d1d..618e271 100644
--- a/crates/compounds/src/matrix/refs.rs
+++ b/crates/compounds/src/matrix/refs.rs
@@ -9,7 +9,7 @@ macro_rules! ref_common {
             type Output = T;
 
             fn index(&self, index: (usize, usize)) -> &Self::Output {
-                if index.0 > self.rows || index.1 > self.cols {
+                if index.0 >= self.rows || index.1 >= self.cols {
                     panic!(
                         "Index out of range for matrix of size {}x{}: ({},{})",
                         self.rows, self.cols, index.0, index.1
-- 
2.43.0


From 4edb6c6338f748aa1cb2ab19be9c8d70abe4ed81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:55:08 +0000
Subject: [PATCH 43/50] fix: DynMatrix rejects indices outside of its shape

---
 crates/compounds/src/matrix/dynamic.rs | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/crates/compounds/src/matrix/dynamic.rs b/crates/compounds/src/matrix/dynamic.rs
index 0e0cadd..85e5aec 100644
--- a/crates/compounds/src/matrix/dynamic.rs
+++ b/crates/compounds/src/matrix/dynamic.rs
@@ -25,6 +25,19 @@ impl<T> DynMatrix<T> {
         DynMatrix { data, rows, cols }
     }
 
+    /// Get the position of an index in the backing data, panicking if it's out of range
+    fn data_idx(&self, index: (usize, usize)) -> usize {
+        assert!(
+            index.0 < self.rows && index.1 < self.cols,
+            "Index out of range for matrix of size {}x{}: ({},{})",
+            self.rows,
+            self.cols,
+            index.0,
+            index.1
+        );
+        index.0 * self.cols + index.1
+    }
+
     pub(crate) fn as_ptr(&self) -> NonNull<T> {
         NonNull::new(self.data.as_ptr().cast_mut()).unwrap()
     }
@@ -69,13 +82,14 @@ impl<T> Index<(usize, usize)> for DynMatrix<T> {
     type Output = T;
 
     fn index(&self, index: (usize, usize)) -> &Self::Output {
-        &self.data[index.0 * self.cols + index.1]
+        &self.data[self.data_idx(index)]
     }
 }
 
 impl<T> IndexMut<(usize, usize)> for DynMatrix<T> {
     fn index_mut(&mut self, index: (usize, usize)) -> &mut Self::Output {
-        &mut self.data[index.0 * self.cols + index.1]
+        let idx = self.data_idx(index);
+        &mut self.data[idx]
     }
 }
 
-- 
2.43.0


From 2acc36f130fb93faca9bd7fe61ad3dd4c44286e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:55:08 +0000
Subject: [PATCH 44/50] fix: DynMatrix rejects shapes with an overflowing
 length

---
 crates/compounds/src/matrix/dynamic.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/crates/compounds/src/matrix/dynamic.rs b/crates/compounds/src/matrix/dynamic.rs
index 85e5aec..7e5d2f0 100644
--- a/crates/compounds/src/matrix/dynamic.rs
+++ b/crates/compounds/src/matrix/dynamic.rs
@@ -12,11 +12,14 @@ pub struct DynMatrix<T> {
 
 impl<T> DynMatrix<T> {
     pub fn new(data: Vec<T>, rows: usize, cols: usize) -> DynMatrix<T> {
+        let len = rows
+            .checked_mul(cols)
+            .expect("Shape of DynMatrix is too large");
         assert_eq!(
             data.len(),
-            rows * cols,
+            len,
             "Invalid data length for DynMatrix. Expected length {} ({} by {}), got {}",
-            rows * cols,
+            len,
             rows,
             cols,
             data.len(),
-- 
2.43.0


From 9b36697f0eb2e329ff05eaea4efe4fcb3027e12b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:55:08 +0000
Subject: [PATCH 45/50] fix: UnsyncLinked::push returns the right length when
 it loses a race

---
 crates/utils/src/linked.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/utils/src/linked.rs b/crates/utils/src/linked.rs
index 2313d8e..74d4482 100644
--- a/crates/utils/src/linked.rs
+++ b/crates/utils/src/linked.rs
@@ -62,7 +62,7 @@ impl<T> UnsyncLinked<T> {
     }
 
     fn tail(&self) -> (*mut Node<T>, usize) {
-        let mut cur_node = self.head.load(Ordering::Relaxed);
+        let mut cur_node = self.head.load(Ordering::Acquire);
 
         if cur_node.is_null() {
             return (cur_node, 0);
@@ -97,10 +97,11 @@ impl<T> UnsyncLinked<T> {
         {
             Ok(_) => 1,
             Err(_) => {
-                let (mut tail, len) = self.tail();
+                let (mut tail, mut len) = self.tail();
                 while !Node::set_next(tail, new) {
                     if let Some(next) = Node::get_next_opt(tail) {
                         tail = next.load(Ordering::Relaxed);
+                        len += 1;
                     }
                 }
                 len + 1
-- 
2.43.0


From b1ece06b8dd759d2da60c70a8b2ffe5fbfa5fccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:55:08 +0000
Subject: [PATCH 46/50] fix: the interner finds live values stored after a dead
 slot

---
 crates/utils/src/intern.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/crates/utils/src/intern.rs b/crates/utils/src/intern.rs
index 3b02b53..63627fa 100644
--- a/crates/utils/src/intern.rs
+++ b/crates/utils/src/intern.rs
@@ -94,6 +94,7 @@ where
         U: ?Sized + PartialEq,
         T: Borrow<U>,
     {
+        let mut dead = Find::None;
         for (idx, i) in list.iter().enumerate() {
             for (idx2, i) in i.iter().enumerate() {
                 // This intentionally allows reviving dead slots - saves work if you're rapidly
@@ -101,12 +102,13 @@ where
                 let count = i.refs.load(Ordering::Acquire);
                 if i.val_opt().is_some_and(|cur_val| val == cur_val.borrow()) {
                     return Find::Exists((idx, idx2));
-                } else if count == 0 {
-                    return Find::Dead((idx, idx2));
+                } else if count == 0 && matches!(dead, Find::None) {
+                    // The value may still exist in a later slot
+                    dead = Find::Dead((idx, idx2));
                 }
             }
         }
-        Find::None
+        dead
     }
 
     #[inline]
-- 
2.43.0


From 80695bc2f10de271a43b3ff2f038a0c7c9e62bfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:55:08 +0000
Subject: [PATCH 47/50] fix: adding to an interner from several threads at once

---
 crates/utils/src/intern.rs | 47 ++++++++++++++++++++++++++++----------
 1 file changed, 35 insertions(+), 12 deletions(-)

diff --git a/crates/utils/src/intern.rs b/crates/utils/src/intern.rs
index 63627fa..8a50d59 100644
--- a/crates/utils/src/intern.rs
+++ b/crates/utils/src/intern.rs
@@ -1,7 +1,8 @@
 use core::borrow::Borrow;
 use core::cell::UnsafeCell;
+use core::hint;
 use core::mem;
-use core::sync::atomic::{AtomicUsize, Ordering};
+use core::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
 
 use crate::linked::UnsyncLinked;
 use crate::static_assert;
@@ -68,6 +69,28 @@ impl InternId {
 /// An optimized container that supports cross-thread, lock-free-ish
 pub struct Interner<T> {
     inner: UnsyncLinked<[Interned<T>; CHUNK_SIZE]>,
+    adding: AtomicBool,
+}
+
+/// Held while looking up and claiming slots, released on drop
+struct AddGuard<'a>(&'a AtomicBool);
+
+impl<'a> AddGuard<'a> {
+    fn new(adding: &'a AtomicBool) -> AddGuard<'a> {
+        while adding
+            .compare_exchange(false, true, Ordering::Acquire, Ordering::Relaxed)
+            .is_err()
+        {
+            hint::spin_loop();
+        }
+        AddGuard(adding)
+    }
+}
+
+impl Drop for AddGuard<'_> {
+    fn drop(&mut self) {
+        self.0.store(false, Ordering::Release);
+    }
 }
 
 impl<T> Interner<T>
@@ -78,6 +101,7 @@ where
     pub const fn new() -> Interner<T> {
         Interner {
             inner: UnsyncLinked::new(),
+            adding: AtomicBool::new(false),
         }
     }
 
@@ -86,7 +110,10 @@ where
         for _ in 0..((capacity + CHUNK_SIZE - 1) / 32) {
             list.push([(); CHUNK_SIZE].map(|_| Interned::new_uninit()));
         }
-        Interner { inner: list }
+        Interner {
+            inner: list,
+            adding: AtomicBool::new(false),
+        }
     }
 
     fn find<U>(list: &UnsyncLinked<[Interned<T>; CHUNK_SIZE]>, val: &U) -> Find<(usize, usize)>
@@ -139,32 +166,28 @@ where
         T: Borrow<V>,
         V: ?Sized + PartialEq,
     {
+        // Only one thread at a time may look for and claim a slot, otherwise the same slot could be
+        // claimed twice, or read while its value is being set. Values are only ever set in here.
+        let _guard = AddGuard::new(&self.adding);
         let find = Self::find(&self.inner, val.borrow());
         InternId::from_usize(match find {
             Find::Exists((loc1, loc2)) => {
                 Self::incr_inner(&self.inner[loc1][loc2]);
                 loc1 * 32 + loc2
             }
-            // This can't race with below because they're guaranteed to act on different memory
-            // locations. But maybe... it could race with itself?
             Find::Dead((loc1, loc2)) => {
-                Self::incr_inner(&self.inner[loc1][loc2]);
-                // TODO: This isn't actually sound - in multi-threaded environments this can
-                //       race with `find`.
-                //       We want to implement a scheme where `set` only occurs when inner is set
-                //       to 1, not before or after, and find doesn't get a ref till after set is
-                //       done.
                 // SAFETY: Slot is dead, we're making it live, we are the only ones with access
                 unsafe { self.inner[loc1][loc2].set_val(val.into()) };
+                Self::incr_inner(&self.inner[loc1][loc2]);
                 loc1 * 32 + loc2
             }
             Find::None => {
                 let len = self
                     .inner
                     .push([(); CHUNK_SIZE].map(|_| Interned::new_uninit()));
-                Self::incr_inner(&self.inner[len - 1][0]);
                 // SAFETY: Slot is empty, we're making it live, we are the only ones with access
                 unsafe { self.inner[len - 1][0].set_val(val.into()) };
+                Self::incr_inner(&self.inner[len - 1][0]);
                 (len - 1) * 32
             }
         })
@@ -173,7 +196,7 @@ where
     pub fn try_get(&self, offset: InternId) -> Option<&T> {
         let (idx1, idx2) = Self::offset_to_idx(offset);
         let slot = &self.inner[idx1][idx2];
-        if slot.refs.load(Ordering::Relaxed) == 0 {
+        if slot.refs.load(Ordering::Acquire) == 0 {
             None
         } else {
             Some(slot.val())
-- 
2.43.0


From ee08fb786d2b30d71c03b7b5b34af2b35dc44dc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:57:52 +0000
Subject: [PATCH 48/50] hook: route the interner's synchronization through a
 module that --cfg numeric_mc can replace

---
 crates/ints/src/big_int.rs |   7 +
 crates/ints/src/lib.rs     |   3 +
 crates/utils/src/intern.rs |   8 +-
 crates/utils/src/lib.rs    |   7 +-
 crates/utils/src/linked.rs |   3 +-
 crates/utils/src/sync.rs   | 271 +++++++++++++++++++++++++++++++++++++
 6 files changed, 295 insertions(+), 4 deletions(-)
 create mode 100644 crates/utils/src/sync.rs

diff --git a/crates/ints/src/big_int.rs b/crates/ints/src/big_int.rs
index 71963fd..91bed64 100644
--- a/crates/ints/src/big_int.rs
+++ b/crates/ints/src/big_int.rs
@@ -27,6 +27,13 @@ mod macros;
 
 static INT_STORE: Interner<Box<[usize]>> = Interner::new();
 
+/// The global interner, for use by a model checker
+#[cfg(numeric_mc)]
+#[doc(hidden)]
+pub fn __mc_store() -> &'static Interner<Box<[usize]>> {
+    &INT_STORE
+}
+
 /// The tag associated with a `TaggedOffset`
 #[derive(Copy, Clone, Debug, PartialEq, Eq)]
 enum Tag {
diff --git a/crates/ints/src/lib.rs b/crates/ints/src/lib.rs
index fa6d03d..0dfd173 100644
--- a/crates/ints/src/lib.rs
+++ b/crates/ints/src/lib.rs
@@ -4,6 +4,7 @@
 //! Unbounded, or 'big' integers, are only available on crate feature `alloc`.
 
 #![no_std]
+#![allow(unexpected_cfgs)]
 #[cfg(feature = "std")]
 extern crate alloc;
 
@@ -14,6 +15,8 @@ mod u;
 // #[cfg(test)]
 // mod tests;
 
+#[cfg(all(feature = "std", numeric_mc))]
+pub use big_int::__mc_store;
 #[cfg(feature = "std")]
 pub use big_int::BigInt;
 pub use i::I;
diff --git a/crates/utils/src/intern.rs b/crates/utils/src/intern.rs
index 8a50d59..6cf6e02 100644
--- a/crates/utils/src/intern.rs
+++ b/crates/utils/src/intern.rs
@@ -1,11 +1,11 @@
 use core::borrow::Borrow;
 use core::cell::UnsafeCell;
-use core::hint;
 use core::mem;
-use core::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
 
 use crate::linked::UnsyncLinked;
 use crate::static_assert;
+use crate::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
+use crate::sync::hint;
 
 const CHUNK_SIZE: usize = 32;
 
@@ -31,6 +31,8 @@ impl<T> Interned<T> {
 
     #[inline]
     fn val_opt(&self) -> Option<&T> {
+        #[cfg(numeric_mc)]
+        crate::sync::cell_read(self.val.get());
         // SAFETY: Only access val immutably except in `set_val` which is unsafe
         unsafe { (*self.val.get()).as_ref() }
     }
@@ -46,6 +48,8 @@ impl<T> Interned<T> {
     /// Caller must be the only one accessing the slot to call this method
     #[inline]
     unsafe fn set_val(&self, val: T) {
+        #[cfg(numeric_mc)]
+        crate::sync::cell_write(self.val.get());
         *self.val.get() = Some(val);
     }
 }
diff --git a/crates/utils/src/lib.rs b/crates/utils/src/lib.rs
index fcc2e55..2b6c154 100644
--- a/crates/utils/src/lib.rs
+++ b/crates/utils/src/lib.rs
@@ -1,13 +1,18 @@
 #![cfg_attr(not(test), no_std)]
+#![allow(unexpected_cfgs)]
 
 #[cfg(feature = "std")]
 extern crate alloc;
 
 #[cfg(feature = "std")]
 pub mod intern;
-#[cfg(feature = "std")]
+#[cfg(all(feature = "std", not(numeric_mc)))]
 mod linked;
+#[cfg(all(feature = "std", numeric_mc))]
+pub mod linked;
 mod macros;
+#[cfg(feature = "std")]
+mod sync;
 
 #[cfg(feature = "std")]
 pub use intern::Interner;
diff --git a/crates/utils/src/linked.rs b/crates/utils/src/linked.rs
index 74d4482..957d6a5 100644
--- a/crates/utils/src/linked.rs
+++ b/crates/utils/src/linked.rs
@@ -2,7 +2,8 @@ use alloc::boxed::Box;
 use core::marker::PhantomData;
 use core::ops::Index;
 use core::ptr;
-use core::sync::atomic::{AtomicPtr, Ordering};
+
+use crate::sync::atomic::{AtomicPtr, Ordering};
 
 pub struct Node<T> {
     next: AtomicPtr<Node<T>>,
diff --git a/crates/utils/src/sync.rs b/crates/utils/src/sync.rs
new file mode 100644
index 0000000..2e43c27
--- /dev/null
+++ b/crates/utils/src/sync.rs
@@ -0,0 +1,271 @@
+//! The synchronization primitives used by this crate. Normally these are exactly those of `core`.
+//!
+//! When built with `--cfg numeric_mc`, every operation is instead announced to an external model
+//! checker, which decides on the interleaving and on the values seen by each thread.
+
+#[cfg(not(numeric_mc))]
+pub(crate) use core::{hint, sync::atomic};
+
+#[cfg(numeric_mc)]
+pub use mc::atomic;
+#[cfg(numeric_mc)]
+pub(crate) use mc::{cell_read, cell_write, hint};
+
+#[cfg(numeric_mc)]
+#[allow(dead_code, unused_imports)]
+mod mc {
+    /// An operation on an atomic
+    #[derive(Copy, Clone, Debug, PartialEq, Eq)]
+    #[repr(u8)]
+    pub enum Op {
+        Load,
+        Store,
+        Swap,
+        CompareExchange,
+        CompareExchangeWeak,
+        Add,
+        Sub,
+        And,
+        Or,
+        Xor,
+        Nand,
+        Max,
+        Min,
+        /// Exclusive access to the value, with no synchronization
+        Exclusive,
+    }
+
+    extern "Rust" {
+        /// Perform an operation on an atomic of `bits` bits at `addr`, with real initial value
+        /// `init`. Returns the old value, and whether an exchange succeeded. Values are zero
+        /// extended.
+        fn __numeric_mc_atomic(
+            addr: usize,
+            bits: u32,
+            signed: bool,
+            init: u64,
+            op: u8,
+            arg: u64,
+            expect: u64,
+            success: core::sync::atomic::Ordering,
+            failure: core::sync::atomic::Ordering,
+        ) -> (u64, bool);
+        fn __numeric_mc_fence(order: core::sync::atomic::Ordering);
+        fn __numeric_mc_cell(addr: usize, write: bool);
+        fn __numeric_mc_spin();
+    }
+
+    pub(crate) fn cell_read<T>(ptr: *const T) {
+        // SAFETY: Only provided by the model checker
+        unsafe { __numeric_mc_cell(ptr as usize, false) }
+    }
+
+    pub(crate) fn cell_write<T>(ptr: *const T) {
+        // SAFETY: Only provided by the model checker
+        unsafe { __numeric_mc_cell(ptr as usize, true) }
+    }
+
+    pub mod hint {
+        pub use core::hint::*;
+
+        pub fn spin_loop() {
+            // SAFETY: Only provided by the model checker
+            unsafe { super::__numeric_mc_spin() }
+        }
+    }
+
+    pub mod atomic {
+        use super::Op;
+        use core::fmt;
+        pub use core::sync::atomic::{compiler_fence, Ordering};
+
+        pub fn fence(order: Ordering) {
+            // SAFETY: Only provided by the model checker
+            unsafe { super::__numeric_mc_fence(order) }
+        }
+
+        fn failure(order: Ordering) -> Ordering {
+            match order {
+                Ordering::AcqRel => Ordering::Acquire,
+                Ordering::Release => Ordering::Relaxed,
+                order => order,
+            }
+        }
+
+        macro_rules! common {
+            ([$($gen:tt)*] $name:ty, $inner:ty, $ty:ty, $bits:expr, $signed:expr, |$v:ident| $to:expr, |$u:ident| $from:expr) => {
+                impl<$($gen)*> $name {
+                    pub const fn new(val: $ty) -> Self {
+                        Self { real: <$inner>::new(val) }
+                    }
+
+                    fn op(&self, op: Op, $v: $ty, expect: $ty, success: Ordering, failure: Ordering) -> ($ty, bool) {
+                        let arg = $to;
+                        let expect = { let $v = expect; $to };
+                        let init = { let $v = self.real.load(Ordering::Relaxed); $to };
+                        // SAFETY: Only provided by the model checker
+                        let ($u, ok) = unsafe {
+                            super::__numeric_mc_atomic(
+                                core::ptr::from_ref(&self.real) as usize,
+                                $bits, $signed, init, op as u8, arg, expect, success, failure,
+                            )
+                        };
+                        ($from, ok)
+                    }
+
+                    fn nil() -> $ty { let $u = 0u64; $from }
+
+                    pub fn load(&self, order: Ordering) -> $ty {
+                        self.op(Op::Load, Self::nil(), Self::nil(), order, order).0
+                    }
+
+                    pub fn store(&self, val: $ty, order: Ordering) {
+                        self.op(Op::Store, val, Self::nil(), order, order);
+                    }
+
+                    pub fn swap(&self, val: $ty, order: Ordering) -> $ty {
+                        self.op(Op::Swap, val, Self::nil(), order, order).0
+                    }
+
+                    pub fn compare_exchange(&self, cur: $ty, new: $ty, success: Ordering, failure: Ordering) -> Result<$ty, $ty> {
+                        match self.op(Op::CompareExchange, new, cur, success, failure) {
+                            (val, true) => Ok(val),
+                            (val, false) => Err(val),
+                        }
+                    }
+
+                    pub fn compare_exchange_weak(&self, cur: $ty, new: $ty, success: Ordering, failure: Ordering) -> Result<$ty, $ty> {
+                        match self.op(Op::CompareExchangeWeak, new, cur, success, failure) {
+                            (val, true) => Ok(val),
+                            (val, false) => Err(val),
+                        }
+                    }
+
+                    pub fn fetch_update<F>(&self, set: Ordering, fetch: Ordering, mut f: F) -> Result<$ty, $ty>
+                    where
+                        F: FnMut($ty) -> Option<$ty>,
+                    {
+                        let mut prev = self.load(fetch);
+                        while let Some(next) = f(prev) {
+                            match self.compare_exchange(prev, next, set, fetch) {
+                                Ok(val) => return Ok(val),
+                                Err(val) => prev = val,
+                            }
+                        }
+                        Err(prev)
+                    }
+
+                    pub fn try_update<F>(&self, set: Ordering, fetch: Ordering, f: F) -> Result<$ty, $ty>
+                    where
+                        F: FnMut($ty) -> Option<$ty>,
+                    {
+                        self.fetch_update(set, fetch, f)
+                    }
+
+                    pub fn update<F>(&self, set: Ordering, fetch: Ordering, mut f: F) -> $ty
+                    where
+                        F: FnMut($ty) -> $ty,
+                    {
+                        match self.fetch_update(set, fetch, |val| Some(f(val))) {
+                            Ok(val) | Err(val) => val,
+                        }
+                    }
+
+                    pub fn into_inner(self) -> $ty {
+                        self.op(Op::Exclusive, Self::nil(), Self::nil(), Ordering::Relaxed, Ordering::Relaxed).0
+                    }
+
+                    pub fn get_mut(&mut self) -> &mut $ty {
+                        let val = self.op(Op::Exclusive, Self::nil(), Self::nil(), Ordering::Relaxed, Ordering::Relaxed).0;
+                        *self.real.get_mut() = val;
+                        self.real.get_mut()
+                    }
+                }
+
+                impl<$($gen)*> From<$ty> for $name {
+                    fn from(val: $ty) -> Self {
+                        Self::new(val)
+                    }
+                }
+
+                impl<$($gen)*> fmt::Debug for $name {
+                    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
+                        fmt::Debug::fmt(&self.load(Ordering::Relaxed), f)
+                    }
+                }
+            };
+        }
+
+        macro_rules! int {
+            ($($name:ident, $ty:ty, $uty:ty;)*) => {$(
+                #[derive(Default)]
+                pub struct $name { real: core::sync::atomic::$name }
+
+                common!([] $name, core::sync::atomic::$name, $ty, <$ty>::BITS, <$ty>::MIN != 0, |v| (v as $uty) as u64, |u| u as $ty);
+
+                impl $name {
+                    int!(@ $ty, fetch_add Add, fetch_sub Sub, fetch_and And, fetch_or Or, fetch_xor Xor, fetch_nand Nand, fetch_max Max, fetch_min Min);
+                }
+            )*};
+            (@ $ty:ty, $($meth:ident $op:ident),*) => {$(
+                pub fn $meth(&self, val: $ty, order: Ordering) -> $ty {
+                    self.op(Op::$op, val, 0, order, failure(order)).0
+                }
+            )*};
+        }
+
+        int! {
+            AtomicUsize, usize, usize;
+            AtomicIsize, isize, usize;
+            AtomicU8, u8, u8;
+            AtomicI8, i8, u8;
+            AtomicU16, u16, u16;
+            AtomicI16, i16, u16;
+            AtomicU32, u32, u32;
+            AtomicI32, i32, u32;
+            AtomicU64, u64, u64;
+            AtomicI64, i64, u64;
+        }
+
+        #[derive(Default)]
+        pub struct AtomicBool {
+            real: core::sync::atomic::AtomicBool,
+        }
+
+        common!([] AtomicBool, core::sync::atomic::AtomicBool, bool, 1, false, |v| u64::from(v), |u| u != 0);
+
+        impl AtomicBool {
+            pub fn fetch_and(&self, val: bool, order: Ordering) -> bool {
+                self.op(Op::And, val, false, order, failure(order)).0
+            }
+
+            pub fn fetch_or(&self, val: bool, order: Ordering) -> bool {
+                self.op(Op::Or, val, false, order, failure(order)).0
+            }
+
+            pub fn fetch_xor(&self, val: bool, order: Ordering) -> bool {
+                self.op(Op::Xor, val, false, order, failure(order)).0
+            }
+
+            pub fn fetch_nand(&self, val: bool, order: Ordering) -> bool {
+                self.op(Op::Nand, val, false, order, failure(order)).0
+            }
+
+            pub fn fetch_not(&self, order: Ordering) -> bool {
+                self.op(Op::Xor, true, false, order, failure(order)).0
+            }
+        }
+
+        pub struct AtomicPtr<T> {
+            real: core::sync::atomic::AtomicPtr<T>,
+        }
+
+        common!([T] AtomicPtr<T>, core::sync::atomic::AtomicPtr<T>, *mut T, usize::BITS, false, |v| v as usize as u64, |u| u as usize as *mut T);
+
+        impl<T> Default for AtomicPtr<T> {
+            fn default() -> Self {
+                AtomicPtr::new(core::ptr::null_mut())
+            }
+        }
+    }
+}
-- 
2.43.0


From 71a6571b037e7580e3dec0116c3e0f8436e2a112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:03:17 +0000
Subject: [PATCH 49/50] fix: the cube root of a negative float

---
 crates/traits/src/__impl.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/traits/src/__impl.rs b/crates/traits/src/__impl.rs
index 5e4149a..6e5096e 100644
--- a/crates/traits/src/__impl.rs
+++ b/crates/traits/src/__impl.rs
@@ -422,6 +422,10 @@ macro_rules! impl_float {
             fn sqrt(self) -> Self {
                 <$ty>::sqrt(self)
             }
+
+            fn cbrt(self) -> Self {
+                <$ty>::cbrt(self)
+            }
         }
 
         impl crate::class::RealSigned for $ty {}
-- 
2.43.0


From f36f36185e3c55587195041422fab9a8b8fde9a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:08 +0000
Subject: [PATCH 50/50] fix: wrap U<N> shift distances beyond usize without
 debug assertions

Shifting by a U<N> too large for a usize panicked in every build, while any other distance
beyond the width only panics with debug assertions and wraps without.
---
 crates/ints/src/u.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/crates/ints/src/u.rs b/crates/ints/src/u.rs
index c36a40b..f9cb05b 100644
--- a/crates/ints/src/u.rs
+++ b/crates/ints/src/u.rs
@@ -346,11 +346,23 @@ impl<const N: usize> BitXor for U<N> {
     }
 }
 
+impl<const N: usize> U<N> {
+    /// Get this value as a distance to shift by. Distances that don't fit are handled like any
+    /// other that's beyond the width: panic with debug assertions, wrap without
+    fn shift_distance(self) -> usize {
+        match usize::from_checked(self) {
+            Some(val) => val,
+            None if cfg!(debug_assertions) => panic!("Shift distance is too large"),
+            None => usize::truncate_from(self % Self::from_checked(N * 8).unwrap()),
+        }
+    }
+}
+
 impl<const N: usize> Shl for U<N> {
     type Output = Self;
 
     fn shl(mut self, rhs: Self) -> Self::Output {
-        let val: usize = usize::from_checked(rhs).unwrap();
+        let val: usize = rhs.shift_distance();
         #[cfg(debug_assertions)]
         ElementShl::shl_checked(&mut self.0, val).unwrap();
         #[cfg(not(debug_assertions))]
@@ -363,7 +375,7 @@ impl<const N: usize> Shr for U<N> {
     type Output = Self;
 
     fn shr(mut self, rhs: Self) -> Self::Output {
-        let val: usize = usize::from_checked(rhs).unwrap();
+        let val: usize = rhs.shift_distance();
         #[cfg(debug_assertions)]
         ElementShr::shr_checked(&mut self.0, val).unwrap();
         #[cfg(not(debug_assertions))]
-- 
2.43.0

