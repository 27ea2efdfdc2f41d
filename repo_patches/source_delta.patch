From ca754c559bc86ece83dc8f4bbcf7d560517df854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:41 +0000
Subject: [PATCH 01/44] fix: negation of a field element by reference recursed
 forever

---
 zkstd/src/macros/field/group.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zkstd/src/macros/field/group.rs b/zkstd/src/macros/field/group.rs
index f183321..6510f24 100644
--- a/zkstd/src/macros/field/group.rs
+++ b/zkstd/src/macros/field/group.rs
@@ -128,7 +128,7 @@ macro_rules! group_operation {
             type Output = $field;
 
             fn neg(self) -> $field {
-                -self
+                -*self
             }
         }
 
-- 
2.43.0


From 77b8f136df6cdc83316e74bdb3c9795c86a43a0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:30 +0000
Subject: [PATCH 02/44] fix: 256-bit squaring dropped a carry out of the fifth
 limb

---
 zkstd/src/arithmetic/limbs/bits_256/normal.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/zkstd/src/arithmetic/limbs/bits_256/normal.rs b/zkstd/src/arithmetic/limbs/bits_256/normal.rs
index cdfafad..f5dd3ae 100644
--- a/zkstd/src/arithmetic/limbs/bits_256/normal.rs
+++ b/zkstd/src/arithmetic/limbs/bits_256/normal.rs
@@ -136,7 +136,9 @@ pub const fn square(a: [u64; 4], p: [u64; 4], inv: u64) -> [u64; 4] {
     let (l3, c) = (s as u64, (s >> 64) as u64);
     let s = l4 as u128 + c as u128;
     let (l4, c) = (s as u64, (s >> 64) as u64);
-    let l5 = l5.wrapping_add(c);
+    let s = l5 as u128 + c as u128;
+    let (l5, c) = (s as u64, (s >> 64) as u64);
+    let l6 = l6.wrapping_add(c);
 
     let l7 = l6 >> 63;
     let l6 = (l6 << 1) | (l5 >> 63);
-- 
2.43.0


From ce34d6b52677e87e193b3280d2a47a0c443f5f64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:17 +0000
Subject: [PATCH 03/44] fix: additive identity constant of prime fields was
 one, not zero

---
 zkstd/src/macros/field/group.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zkstd/src/macros/field/group.rs b/zkstd/src/macros/field/group.rs
index 6510f24..3ac21e4 100644
--- a/zkstd/src/macros/field/group.rs
+++ b/zkstd/src/macros/field/group.rs
@@ -4,7 +4,7 @@ macro_rules! group_operation {
     ($field:ident, $p:ident, $g:ident, $r:ident, $r2:ident, $r3:ident, $inv:ident) => {
         impl Group for $field {
             const ADDITIVE_GENERATOR: Self = $field($g);
-            const ADDITIVE_IDENTITY: Self = $field($r);
+            const ADDITIVE_IDENTITY: Self = $field(zero());
 
             fn invert(self) -> Option<Self> {
                 match invert(self.0, little_fermat($p), $r, $p, $inv) {
-- 
2.43.0


From 2f86cf12b2d82128696c07961a9eb011da83c908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:17 +0000
Subject: [PATCH 04/44] fix: ff inversion of zero returned a value instead of
 none

---
 bn254/src/ff_compat.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/bn254/src/ff_compat.rs b/bn254/src/ff_compat.rs
index aad5d99..ba39ce1 100644
--- a/bn254/src/ff_compat.rs
+++ b/bn254/src/ff_compat.rs
@@ -64,8 +64,11 @@ mod fr {
         }
 
         fn invert(&self) -> CtOption<Self> {
-            let tmp = <Self as zkstd::common::Group>::invert(*self).unwrap_or_default();
-            CtOption::new(tmp, !tmp.ct_eq(&Self::zero()))
+            let inv = <Self as zkstd::common::Group>::invert(*self);
+            CtOption::new(
+                inv.unwrap_or_default(),
+                Choice::from(inv.is_some() as u8),
+            )
         }
 
         fn sqrt_ratio(num: &Self, div: &Self) -> (Choice, Self) {
@@ -231,8 +234,11 @@ mod fq {
         }
 
         fn invert(&self) -> CtOption<Self> {
-            let tmp = <Self as zkstd::common::Group>::invert(*self).unwrap_or_default();
-            CtOption::new(tmp, !tmp.ct_eq(&Self::zero()))
+            let inv = <Self as zkstd::common::Group>::invert(*self);
+            CtOption::new(
+                inv.unwrap_or_default(),
+                Choice::from(inv.is_some() as u8),
+            )
         }
 
         fn sqrt_ratio(num: &Self, div: &Self) -> (Choice, Self) {
-- 
2.43.0


From 50115abfa93634cf848470b852cc157b179ccf7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:17 +0000
Subject: [PATCH 05/44] fix: ff square root and square-root-of-ratio recursed
 forever

---
 bn254/src/ff_compat.rs | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/bn254/src/ff_compat.rs b/bn254/src/ff_compat.rs
index ba39ce1..45d13e4 100644
--- a/bn254/src/ff_compat.rs
+++ b/bn254/src/ff_compat.rs
@@ -74,6 +74,15 @@ mod fr {
         fn sqrt_ratio(num: &Self, div: &Self) -> (Choice, Self) {
             ff::helpers::sqrt_ratio_generic(num, div)
         }
+
+        fn sqrt(&self) -> CtOption<Self> {
+            // the default goes through `sqrt_ratio`, which needs `sqrt` itself
+            let root = Self::sqrt(self);
+            CtOption::new(
+                root.unwrap_or_default(),
+                Choice::from(root.is_some() as u8),
+            )
+        }
     }
 
     impl ff::PrimeField for Fr {
@@ -244,6 +253,15 @@ mod fq {
         fn sqrt_ratio(num: &Self, div: &Self) -> (Choice, Self) {
             ff::helpers::sqrt_ratio_generic(num, div)
         }
+
+        fn sqrt(&self) -> CtOption<Self> {
+            // the default goes through `sqrt_ratio`, which needs `sqrt` itself
+            let root = Self::sqrt(self);
+            CtOption::new(
+                root.unwrap_or_default(),
+                Choice::from(root.is_some() as u8),
+            )
+        }
     }
 
     impl ff::PrimeField for Fq {
-- 
2.43.0


From 1b3ed2d85b96608293ae81a8977e6ae78f5b3177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:45 +0000
Subject: [PATCH 06/44] fix: ff constants of the base field (2-adicity,
 multiplicative generator)

---
 bn254/src/ff_compat.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bn254/src/ff_compat.rs b/bn254/src/ff_compat.rs
index 45d13e4..e4e709b 100644
--- a/bn254/src/ff_compat.rs
+++ b/bn254/src/ff_compat.rs
@@ -301,8 +301,8 @@ mod fq {
         const NUM_BITS: u32 = 254;
         const CAPACITY: u32 = 253;
         const TWO_INV: Self = TWO_INV;
-        const MULTIPLICATIVE_GENERATOR: Self = Fq(GENERATOR);
-        const S: u32 = 0;
+        const MULTIPLICATIVE_GENERATOR: Self = Fq::to_mont_form(GENERATOR);
+        const S: u32 = 1;
         const ROOT_OF_UNITY: Self = ROOT_OF_UNITY;
         const ROOT_OF_UNITY_INV: Self = ROOT_OF_UNITY_INV;
         const DELTA: Self = DELTA;
-- 
2.43.0


From 54a25198eb6d38659044166d3a7641f4a4eb9c2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:45 +0000
Subject: [PATCH 07/44] fix: exported 2-adicity of the scalar field was 32
 instead of 28

---
 bn254/src/fr.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bn254/src/fr.rs b/bn254/src/fr.rs
index ca2c17b..387bf91 100644
--- a/bn254/src/fr.rs
+++ b/bn254/src/fr.rs
@@ -64,7 +64,7 @@ pub const ROOT_OF_UNITY: Fr = Fr::to_mont_form([
     0x03ddb9f5166d18b7,
 ]);
 
-pub const TWO_ADACITY: u32 = 32;
+pub const TWO_ADACITY: u32 = S as u32;
 
 /// Bn254 curve scalar field
 #[derive(Clone, Copy, Decode, Encode, Serialize, Deserialize)]
-- 
2.43.0


From bea4430fa558f3537cdd800d7e1c41621f9c1ad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:12 +0000
Subject: [PATCH 08/44] fix: ff from_repr accepted representations of integers
 above the modulus

---
 bn254/src/ff_compat.rs | 52 ++++++++++--------------------------------
 1 file changed, 12 insertions(+), 40 deletions(-)

diff --git a/bn254/src/ff_compat.rs b/bn254/src/ff_compat.rs
index e4e709b..bf83195 100644
--- a/bn254/src/ff_compat.rs
+++ b/bn254/src/ff_compat.rs
@@ -1,9 +1,8 @@
 mod fr {
-    use crate::fr::{INV, MODULUS, R2, S};
+    use crate::fr::{MODULUS, S};
     use crate::{Fr, MULTIPLICATIVE_GENERATOR, ROOT_OF_UNITY};
     use ff::derive::subtle::{Choice, ConditionallySelectable, ConstantTimeEq, CtOption};
     use ff::PrimeField;
-    use zkstd::arithmetic::bits_256::*;
     use zkstd::common::*;
 
     const ROOT_OF_UNITY_INV: Fr = Fr::to_mont_form([
@@ -65,10 +64,7 @@ mod fr {
 
         fn invert(&self) -> CtOption<Self> {
             let inv = <Self as zkstd::common::Group>::invert(*self);
-            CtOption::new(
-                inv.unwrap_or_default(),
-                Choice::from(inv.is_some() as u8),
-            )
+            CtOption::new(inv.unwrap_or_default(), Choice::from(inv.is_some() as u8))
         }
 
         fn sqrt_ratio(num: &Self, div: &Self) -> (Choice, Self) {
@@ -78,10 +74,7 @@ mod fr {
         fn sqrt(&self) -> CtOption<Self> {
             // the default goes through `sqrt_ratio`, which needs `sqrt` itself
             let root = Self::sqrt(self);
-            CtOption::new(
-                root.unwrap_or_default(),
-                Choice::from(root.is_some() as u8),
-            )
+            CtOption::new(root.unwrap_or_default(), Choice::from(root.is_some() as u8))
         }
     }
 
@@ -89,16 +82,9 @@ mod fr {
         type Repr = [u8; 32];
 
         fn from_repr(repr: Self::Repr) -> CtOption<Self> {
-            let mut tmp = Fr([0, 0, 0, 0]);
-
-            tmp.0[0] = u64::from_le_bytes(repr[0..8].try_into().unwrap());
-            tmp.0[1] = u64::from_le_bytes(repr[8..16].try_into().unwrap());
-            tmp.0[2] = u64::from_le_bytes(repr[16..24].try_into().unwrap());
-            tmp.0[3] = u64::from_le_bytes(repr[24..32].try_into().unwrap());
-
-            tmp = Fr(to_mont_form(tmp.0, R2, MODULUS, INV));
-
-            CtOption::new(tmp, Choice::from(1))
+            // only encodings of integers below the modulus are representations
+            let val = Self::from_bytes(repr);
+            CtOption::new(val.unwrap_or_default(), Choice::from(val.is_some() as u8))
         }
 
         fn to_repr(&self) -> Self::Repr {
@@ -173,11 +159,10 @@ mod fr {
 }
 
 mod fq {
-    use crate::fq::{GENERATOR, INV, MODULUS, R2};
+    use crate::fq::{GENERATOR, MODULUS};
     use crate::Fq;
     use ff::derive::subtle::{Choice, ConditionallySelectable, ConstantTimeEq, CtOption};
     use ff::PrimeField;
-    use zkstd::arithmetic::bits_256::*;
     use zkstd::common::*;
 
     const TWO_INV: Fq = Fq::to_mont_form([
@@ -244,10 +229,7 @@ mod fq {
 
         fn invert(&self) -> CtOption<Self> {
             let inv = <Self as zkstd::common::Group>::invert(*self);
-            CtOption::new(
-                inv.unwrap_or_default(),
-                Choice::from(inv.is_some() as u8),
-            )
+            CtOption::new(inv.unwrap_or_default(), Choice::from(inv.is_some() as u8))
         }
 
         fn sqrt_ratio(num: &Self, div: &Self) -> (Choice, Self) {
@@ -257,10 +239,7 @@ mod fq {
         fn sqrt(&self) -> CtOption<Self> {
             // the default goes through `sqrt_ratio`, which needs `sqrt` itself
             let root = Self::sqrt(self);
-            CtOption::new(
-                root.unwrap_or_default(),
-                Choice::from(root.is_some() as u8),
-            )
+            CtOption::new(root.unwrap_or_default(), Choice::from(root.is_some() as u8))
         }
     }
 
@@ -268,16 +247,9 @@ mod fq {
         type Repr = [u8; 32];
 
         fn from_repr(repr: Self::Repr) -> CtOption<Self> {
-            let mut tmp = Fq([0, 0, 0, 0]);
-
-            tmp.0[0] = u64::from_le_bytes(repr[0..8].try_into().unwrap());
-            tmp.0[1] = u64::from_le_bytes(repr[8..16].try_into().unwrap());
-            tmp.0[2] = u64::from_le_bytes(repr[16..24].try_into().unwrap());
-            tmp.0[3] = u64::from_le_bytes(repr[24..32].try_into().unwrap());
-
-            tmp = Fq(to_mont_form(tmp.0, R2, MODULUS, INV));
-
-            CtOption::new(tmp, Choice::from(1))
+            // only encodings of integers below the modulus are representations
+            let val = Self::from_bytes(repr);
+            CtOption::new(val.unwrap_or_default(), Choice::from(val.is_some() as u8))
         }
 
         fn to_repr(&self) -> Self::Repr {
-- 
2.43.0


From f603b215971ebd0843b877a72addf02409ba0f54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:58 +0000
Subject: [PATCH 09/44] verification hook: tower operations (cfg
 kogarashi_verif)

---
 bn254/src/fqn.rs | 35 +++++++++++++++++++++++++++++++++++
 1 file changed, 35 insertions(+)

diff --git a/bn254/src/fqn.rs b/bn254/src/fqn.rs
index cccdb6a..15f37a2 100644
--- a/bn254/src/fqn.rs
+++ b/bn254/src/fqn.rs
@@ -586,6 +586,41 @@ impl Fq12 {
     }
 }
 
+/// Access to crate-private tower operations for the external verification harness.
+#[cfg(kogarashi_verif)]
+mod verif {
+    use super::*;
+
+    macro_rules! verif_tower {
+        ($t:ident) => {
+            impl $t {
+                pub fn verif_mul_by_nonres(self) -> Self {
+                    self.mul_by_nonres()
+                }
+
+                pub fn verif_frobenius_maps(self, power: usize) -> Self {
+                    self.frobenius_maps(power)
+                }
+            }
+        };
+    }
+
+    verif_tower!(Fq2);
+    verif_tower!(Fq6);
+
+    impl Fq2 {
+        pub fn verif_conjugate(&self) -> Self {
+            self.conjugate()
+        }
+    }
+
+    impl Fq12 {
+        pub fn verif_frobenius_maps(self, power: usize) -> Self {
+            self.frobenius_maps(power)
+        }
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
-- 
2.43.0


From 0a93fb3e4b83c0882b0e7ebfda7264adda946e3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:21 +0000
Subject: [PATCH 10/44] fix: by-reference operators of extension fields
 computed the wrong operation

Subtraction by reference multiplied, multiplication by reference added, and
addition of a reference recursed forever.
---
 zkstd/src/macros/extension_field/group.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/zkstd/src/macros/extension_field/group.rs b/zkstd/src/macros/extension_field/group.rs
index 41d2aaf..2187dd5 100644
--- a/zkstd/src/macros/extension_field/group.rs
+++ b/zkstd/src/macros/extension_field/group.rs
@@ -82,7 +82,7 @@ macro_rules! ext_field_group_operation {
 
         impl<'b> AddAssign<&'b $extension_field> for $extension_field {
             fn add_assign(&mut self, rhs: &'b $extension_field) {
-                *self = *self + rhs;
+                *self = *self + *rhs;
             }
         }
 
@@ -90,7 +90,7 @@ macro_rules! ext_field_group_operation {
             type Output = $extension_field;
 
             fn add(self, rhs: &'b $extension_field) -> Self {
-                self + rhs
+                self + *rhs
             }
         }
 
@@ -136,7 +136,7 @@ macro_rules! ext_field_group_operation {
             type Output = $extension_field;
 
             fn sub(self, rhs: &'b $extension_field) -> $extension_field {
-                *self * *rhs
+                *self - *rhs
             }
         }
 
@@ -144,7 +144,7 @@ macro_rules! ext_field_group_operation {
             type Output = $extension_field;
 
             fn sub(self, rhs: &'b $extension_field) -> $extension_field {
-                self * *rhs
+                self - *rhs
             }
         }
 
@@ -152,7 +152,7 @@ macro_rules! ext_field_group_operation {
             type Output = $extension_field;
 
             fn sub(self, rhs: $extension_field) -> $extension_field {
-                *self * rhs
+                *self - rhs
             }
         }
 
@@ -181,7 +181,7 @@ macro_rules! ext_field_group_operation {
             type Output = $extension_field;
 
             fn mul(self, rhs: &'b $extension_field) -> $extension_field {
-                *self + *rhs
+                *self * *rhs
             }
         }
 
@@ -189,7 +189,7 @@ macro_rules! ext_field_group_operation {
             type Output = $extension_field;
 
             fn mul(self, rhs: &'b $extension_field) -> $extension_field {
-                self + *rhs
+                self * *rhs
             }
         }
 
-- 
2.43.0


From 5494f090a724e3193bce65abbb4b2f1db936bbc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:21 +0000
Subject: [PATCH 11/44] fix: affine minus projective by reference computed the
 sum

---
 zkstd/src/macros/curve.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/zkstd/src/macros/curve.rs b/zkstd/src/macros/curve.rs
index 236bad1..5f55d83 100644
--- a/zkstd/src/macros/curve.rs
+++ b/zkstd/src/macros/curve.rs
@@ -159,7 +159,7 @@ macro_rules! mixed_curve_operations {
             type Output = $extended;
 
             fn sub(self, rhs: &'b $extended) -> $extended {
-                *self + *rhs
+                *self - *rhs
             }
         }
 
@@ -175,7 +175,7 @@ macro_rules! mixed_curve_operations {
             type Output = $extended;
 
             fn sub(self, rhs: $extended) -> $extended {
-                self + &rhs
+                self - &rhs
             }
         }
 
-- 
2.43.0


From e06201123a3114994f6c93e8530e3bd65977f93c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:21 +0000
Subject: [PATCH 12/44] fix: doubling the affine identity returned a point off
 the curve

---
 zkstd/src/arithmetic/points/weierstrass.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/zkstd/src/arithmetic/points/weierstrass.rs b/zkstd/src/arithmetic/points/weierstrass.rs
index 356f6d6..73a07c3 100644
--- a/zkstd/src/arithmetic/points/weierstrass.rs
+++ b/zkstd/src/arithmetic/points/weierstrass.rs
@@ -37,6 +37,10 @@ pub fn add_affine_point<A: BNAffine>(lhs: A, rhs: A) -> A::Extended {
 /// weierstrass affine coordinate doubling
 #[inline(always)]
 pub fn double_affine_point<A: BNAffine>(point: A) -> A::Extended {
+    if point.is_identity() {
+        return A::Extended::ADDITIVE_IDENTITY;
+    }
+
     // Algorithm 9, https://eprint.iacr.org/2015/1060.pdf
     let b3 = <A as BNCurve>::PARAM_3B;
     let (x, y) = (point.get_x(), point.get_y());
-- 
2.43.0


From 7e88541917ec628709c5af988203da4d904e360a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:38 +0000
Subject: [PATCH 13/44] fix: affine minus referenced projective computed the
 sum

---
 zkstd/src/macros/curve.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zkstd/src/macros/curve.rs b/zkstd/src/macros/curve.rs
index 5f55d83..a0224f1 100644
--- a/zkstd/src/macros/curve.rs
+++ b/zkstd/src/macros/curve.rs
@@ -167,7 +167,7 @@ macro_rules! mixed_curve_operations {
             type Output = $extended;
 
             fn sub(self, rhs: &'b $extended) -> $extended {
-                &self + rhs
+                &self - rhs
             }
         }
 
-- 
2.43.0


From 5c7dabe4f7a4eb8e3ae266c4254ffcb38a5895a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:11 +0000
Subject: [PATCH 14/44] fix: subgroup test of G1 rejected valid points

The test used constants of another curve family. The cofactor of G1 is one, so
the subgroup test is the curve equation.
---
 bn254/src/g1.rs | 50 ++++---------------------------------------------
 1 file changed, 4 insertions(+), 46 deletions(-)

diff --git a/bn254/src/g1.rs b/bn254/src/g1.rs
index 3974d1d..5b9a67b 100644
--- a/bn254/src/g1.rs
+++ b/bn254/src/g1.rs
@@ -1,4 +1,4 @@
-use crate::params::{BN_X, BN_X_IS_NEGATIVE, G1_GENERATOR_X, G1_GENERATOR_Y, G1_PARAM_B, PARAM_B3};
+use crate::params::{G1_GENERATOR_X, G1_GENERATOR_Y, G1_PARAM_B, PARAM_B3};
 use crate::{Fq, Fr};
 use core::borrow::Borrow;
 use core::iter::Sum;
@@ -6,13 +6,6 @@ use zkstd::arithmetic::weierstrass::*;
 use zkstd::common::*;
 use zkstd::macros::curve::weierstrass::*;
 
-pub const BETA: Fq = Fq([
-    0x30f1361b798a64e8,
-    0xf3b8ddab7ece5a2a,
-    0x16a8ca3ac61577f7,
-    0xc26a2ff874fd029b,
-]);
-
 /// The projective form of coordinate
 #[derive(Debug, Clone, Copy, Decode, Encode)]
 pub struct G1Affine {
@@ -21,15 +14,6 @@ pub struct G1Affine {
     is_infinity: bool,
 }
 
-fn endomorphism(p: &G1Affine) -> G1Affine {
-    // Endomorphism of the points on the curve.
-    // endomorphism_p(x,y) = (BETA * x, y)
-    // where BETA is a non-trivial cubic root of unity in Fq.
-    let mut res = *p;
-    res.x *= BETA;
-    res
-}
-
 impl G1Affine {
     pub const RAW_SIZE: usize = 97;
 
@@ -58,15 +42,10 @@ impl G1Affine {
         Self { x, y, is_infinity }
     }
 
+    /// Returns true if this point is in the prime order subgroup. The cofactor of G1 is one, hence
+    /// every point of the curve is.
     pub fn is_torsion_free(&self) -> bool {
-        // Algorithm from Section 6 of https://eprint.iacr.org/2021/1130
-        // Updated proof of correctness in https://eprint.iacr.org/2022/352
-        //
-        // Check that endomorphism_p(P) == -[x^2] P
-
-        let minus_x_squared_times_p = G1Projective::from(*self).mul_by_x().mul_by_x().neg();
-        let endomorphism_p = endomorphism(self);
-        minus_x_squared_times_p == G1Projective::from(endomorphism_p)
+        self.is_on_curve()
     }
 }
 
@@ -123,27 +102,6 @@ pub struct G1Projective {
 }
 
 impl G1Projective {
-    /// Multiply `self` by `crate::BN_X`, using double and add.
-    fn mul_by_x(&self) -> G1Projective {
-        let mut xself = G1Projective::ADDITIVE_IDENTITY;
-        // NOTE: in BN254 we can just skip the first bit.
-        let mut x = BN_X >> 1;
-        let mut tmp = *self;
-        while x != 0 {
-            tmp = tmp.double();
-
-            if x % 2 == 1 {
-                xself += tmp;
-            }
-            x >>= 1;
-        }
-        // finally, flip the sign
-        if BN_X_IS_NEGATIVE {
-            xself = -xself;
-        }
-        xself
-    }
-
     /// Converts a batch of `G1Projective` elements into `G1Affine` elements. This
     /// function will panic if `p.len() != q.len()`.
     pub fn batch_normalize(p: &[Self], q: &mut [G1Affine]) {
-- 
2.43.0


From bef63f0460ff446517690e82cdac74bc76cdecd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:11 +0000
Subject: [PATCH 15/44] fix: subgroup test of G2 rejected valid points

The sign and the lowest bit of the curve parameter, the twist constants of psi
and the eigenvalue were those of another curve family.
---
 bn254/src/g2.rs     | 49 +++++++++------------------------------------
 bn254/src/params.rs |  2 +-
 2 files changed, 11 insertions(+), 40 deletions(-)

diff --git a/bn254/src/g2.rs b/bn254/src/g2.rs
index fb7c64f..33372a3 100644
--- a/bn254/src/g2.rs
+++ b/bn254/src/g2.rs
@@ -1,4 +1,3 @@
-use crate::fq::Fq;
 use crate::fqn::Fq2;
 use crate::fr::Fr;
 use crate::pairing::{SIX_U_PLUS_2_NAF, XI_TO_Q_MINUS_1_OVER_2};
@@ -24,12 +23,11 @@ impl G2Affine {
     /// exists within the $q$-order subgroup $\mathbb{G}_2$. This should always return true
     /// unless an "unchecked" API was used.
     pub fn is_torsion_free(&self) -> bool {
-        // Algorithm from Section 4 of https://eprint.iacr.org/2021/1130
-        // Updated proof of correctness in https://eprint.iacr.org/2022/352
-        //
-        // Check that psi(P) == [x] P
+        // psi satisfies psi^2 - t * psi + q = 0, hence psi(P) = [t - 1] P = [6x^2] P implies
+        // [q + 1 - t] P = [r] P = 0, and psi acts as multiplication by q = t - 1 (mod r) on G2.
         let p = G2Projective::from(*self);
-        p.psi() == p.mul_by_x()
+        let x_squared = p.mul_by_x().mul_by_x();
+        p.psi() == (x_squared.double() + x_squared).double()
     }
 }
 
@@ -89,15 +87,14 @@ impl G2Projective {
     /// Multiply `self` by `crate::BN_X`, using double and add.
     fn mul_by_x(&self) -> G2Projective {
         let mut xself = G2Projective::ADDITIVE_IDENTITY;
-        // NOTE: in BLS12-381 we can just skip the first bit.
         // TODO: need to test conversion to bytes and back
-        let mut x = BN_X >> 1;
+        let mut x = BN_X;
         let mut acc = *self;
         while x != 0 {
-            acc = acc.double();
             if x % 2 == 1 {
                 xself += acc;
             }
+            acc = acc.double();
             x >>= 1;
         }
         // finally, flip the sign
@@ -108,37 +105,11 @@ impl G2Projective {
     }
 
     fn psi(&self) -> G2Projective {
-        // 1 / ((u+1) ^ ((q-1)/3))
-        let psi_coeff_x = Fq2([
-            Fq::zero(),
-            Fq([
-                0x890dc9e4867545c3,
-                0x2af322533285a5d5,
-                0x50880866309b7e2c,
-                0xa20d1b8c7e881024,
-            ]),
-        ]);
-        // 1 / ((u+1) ^ (p-1)/2)
-        let psi_coeff_y = Fq2([
-            Fq([
-                0x3e2f585da55c9ad1,
-                0x4294213d86c18183,
-                0x382844c88b623732,
-                0x92ad2afd19103e18,
-            ]),
-            Fq([
-                0x7bcfa7a25aa30fda,
-                0xdc17dec12a927e7c,
-                0x2f088dd86b4ebef1,
-                0xd1ca2087da74d4a7,
-            ]),
-        ]);
-
         G2Projective {
-            // x = frobenius(x)/((u+1)^((p-1)/3))
-            x: self.x.frobenius_map() * psi_coeff_x,
-            // y = frobenius(y)/(u+1)^((p-1)/2)
-            y: self.y.frobenius_map() * psi_coeff_y,
+            // x = frobenius(x) * (u+9)^((q-1)/3)
+            x: self.x.frobenius_map() * FROBENIUS_COEFF_FQ6_C1[1],
+            // y = frobenius(y) * (u+9)^((q-1)/2)
+            y: self.y.frobenius_map() * XI_TO_Q_MINUS_1_OVER_2,
             // z = frobenius(z)
             z: self.z.frobenius_map(),
         }
diff --git a/bn254/src/params.rs b/bn254/src/params.rs
index af39aab..6fca371 100644
--- a/bn254/src/params.rs
+++ b/bn254/src/params.rs
@@ -2,7 +2,7 @@
 use crate::{Fq, Fq2};
 
 pub const BN_X: u64 = 4965661367192848881;
-pub const BN_X_IS_NEGATIVE: bool = true;
+pub const BN_X_IS_NEGATIVE: bool = false;
 
 // g1 curve parameters
 pub(crate) const G1_GENERATOR_X: Fq = Fq::one();
-- 
2.43.0


From f69f5657bee4a76f12f2ab393ae39c5fa8e3b81e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:59 +0000
Subject: [PATCH 16/44] fix: 384-bit squaring dropped carries out of the
 seventh and ninth limbs

---
 zkstd/src/arithmetic/limbs/bits_384/normal.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/zkstd/src/arithmetic/limbs/bits_384/normal.rs b/zkstd/src/arithmetic/limbs/bits_384/normal.rs
index 61801ae..1b9b70b 100644
--- a/zkstd/src/arithmetic/limbs/bits_384/normal.rs
+++ b/zkstd/src/arithmetic/limbs/bits_384/normal.rs
@@ -225,13 +225,21 @@ pub const fn square(a: [u64; 6], p: [u64; 6], inv: u64) -> [u64; 6] {
     let (l7, c) = (s as u64, (s >> 64) as u64);
     let s = l8 as u128 + c as u128;
     let (l8, c) = (s as u64, (s >> 64) as u64);
-    let l9 = l9.wrapping_add(c);
+    let s = l9 as u128 + c as u128;
+    let (l9, c) = (s as u64, (s >> 64) as u64);
+    let l10 = l10.wrapping_add(c);
 
     let s = a[2] as u128 * a[3] as u128 + l5 as u128;
     let (l5, c) = (s as u64, (s >> 64) as u64);
     let s = l6 as u128 + c as u128;
     let (l6, c) = (s as u64, (s >> 64) as u64);
-    let l7 = l7.wrapping_add(c);
+    let s = l7 as u128 + c as u128;
+    let (l7, c) = (s as u64, (s >> 64) as u64);
+    let s = l8 as u128 + c as u128;
+    let (l8, c) = (s as u64, (s >> 64) as u64);
+    let s = l9 as u128 + c as u128;
+    let (l9, c) = (s as u64, (s >> 64) as u64);
+    let l10 = l10.wrapping_add(c);
 
     let l11 = l10 >> 63;
     let l10 = (l10 << 1) | (l9 >> 63);
-- 
2.43.0


From b8be7b89957be35f5514386f82f29291a5a73764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:59 +0000
Subject: [PATCH 17/44] fix: 384-bit NAF expansion was in the opposite digit
 order of the 256-bit one

---
 zkstd/src/arithmetic/limbs/bits_384/represent.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/zkstd/src/arithmetic/limbs/bits_384/represent.rs b/zkstd/src/arithmetic/limbs/bits_384/represent.rs
index 0b12d34..b7d369a 100644
--- a/zkstd/src/arithmetic/limbs/bits_384/represent.rs
+++ b/zkstd/src/arithmetic/limbs/bits_384/represent.rs
@@ -83,7 +83,6 @@ pub fn to_nafs(val: [u64; 6]) -> Nafs {
         .skip_while(|x| x == &Naf::Zero)
         .collect::<Vec<_>>();
     nafs.pop();
-    nafs.reverse();
     nafs
 }
 
-- 
2.43.0


From 9cebbd192d85c07a7f0832ca9f1984938d32088d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:59 +0000
Subject: [PATCH 18/44] fix: Edwards membership test accepted points off the
 curve

---
 zkstd/src/macros/curve/edwards/group.rs | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/zkstd/src/macros/curve/edwards/group.rs b/zkstd/src/macros/curve/edwards/group.rs
index 8948ae1..86c5e83 100644
--- a/zkstd/src/macros/curve/edwards/group.rs
+++ b/zkstd/src/macros/curve/edwards/group.rs
@@ -43,13 +43,9 @@ macro_rules! twisted_edwards_affine_group_operation {
             }
 
             fn is_on_curve(self) -> bool {
-                if self.x.is_zero() {
-                    true
-                } else {
-                    let xx = self.x.square();
-                    let yy = self.y.square();
-                    yy == $range::one() + Self::PARAM_D * xx * yy + xx
-                }
+                let xx = self.x.square();
+                let yy = self.y.square();
+                yy == $range::one() + Self::PARAM_D * xx * yy + xx
             }
 
             fn get_x(&self) -> Self::Base {
@@ -128,8 +124,8 @@ macro_rules! twisted_edwards_extend_group_operation {
             }
 
             fn is_on_curve(self) -> bool {
-                if self.z.is_zero() {
-                    true
+                if self.z.is_zero() || self.x * self.y != self.t * self.z {
+                    false
                 } else {
                     let affine = $affine::from(self);
                     affine.is_on_curve()
-- 
2.43.0


From 90219814cbd96ca61861b0ccd136655ed6fb62f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:59 +0000
Subject: [PATCH 19/44] fix: zero of the pairing target group was not its
 identity

---
 bn254/src/gt.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bn254/src/gt.rs b/bn254/src/gt.rs
index 838b806..c9462ee 100644
--- a/bn254/src/gt.rs
+++ b/bn254/src/gt.rs
@@ -22,7 +22,7 @@ impl Group for Gt {
 
 impl IntGroup for Gt {
     fn zero() -> Self {
-        Self(Fq12::zero())
+        Self(Fq12::one())
     }
 }
 
-- 
2.43.0


From ba965f0ca1d6c8464b9f18805aa5978bff4fbcf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:59 +0000
Subject: [PATCH 20/44] fix: inversion in the pairing target group was
 unimplemented

---
 bn254/src/gt.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bn254/src/gt.rs b/bn254/src/gt.rs
index c9462ee..c9d9e2d 100644
--- a/bn254/src/gt.rs
+++ b/bn254/src/gt.rs
@@ -12,7 +12,7 @@ impl Group for Gt {
     const ADDITIVE_IDENTITY: Self = Self(Fq12::one());
 
     fn invert(self) -> Option<Self> {
-        unimplemented!()
+        Some(-self)
     }
 
     fn random<R: RngCore>(rand: &mut R) -> Self {
-- 
2.43.0


From 7bd12c248b868bdc017d275bf2d09041d5461a79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:59 +0000
Subject: [PATCH 21/44] fix: random elements of the pairing target group lay
 outside the group

---
 bn254/src/gt.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bn254/src/gt.rs b/bn254/src/gt.rs
index c9d9e2d..9919309 100644
--- a/bn254/src/gt.rs
+++ b/bn254/src/gt.rs
@@ -16,7 +16,7 @@ impl Group for Gt {
     }
 
     fn random<R: RngCore>(rand: &mut R) -> Self {
-        Self(Fq12::random(rand))
+        Fq12::random(rand).final_exp()
     }
 }
 
-- 
2.43.0


From 82eaecbf4111ab1d636ca858ab37ff9a7329619a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:05 +0000
Subject: [PATCH 22/44] verification hook: name constraint-system wires (cfg
 kogarashi_verif)

---
 zkstd/src/r1cs.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/zkstd/src/r1cs.rs b/zkstd/src/r1cs.rs
index d83ebdb..57e0faf 100644
--- a/zkstd/src/r1cs.rs
+++ b/zkstd/src/r1cs.rs
@@ -8,6 +8,11 @@ use crate::matrix::{DenseVectors, SparseMatrix, SparseRow};
 use sp_std::ops::Index;
 pub(crate) use wire::Wire;
 
+#[cfg(kogarashi_verif)]
+pub mod verif {
+    pub use super::wire::Wire;
+}
+
 #[derive(Clone, Debug)]
 pub struct R1cs<C: CircuitDriver> {
     // 1. Structure S
-- 
2.43.0


From e8a73fe6edf1277dd7e4d6756dc85be946ada865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:44 +0000
Subject: [PATCH 23/44] fix: adding linear combinations lost terms of a
 repeated wire

---
 zkstd/src/matrix/row.rs | 26 ++++++--------------------
 1 file changed, 6 insertions(+), 20 deletions(-)

diff --git a/zkstd/src/matrix/row.rs b/zkstd/src/matrix/row.rs
index 023326e..0922fcd 100644
--- a/zkstd/src/matrix/row.rs
+++ b/zkstd/src/matrix/row.rs
@@ -34,7 +34,7 @@ impl<F: PrimeField> SparseRow<F> {
     /// Return Some(c) if this is a constant c, otherwise None.
     pub fn as_constant(&self) -> Option<F> {
         if self.num_terms() == 1 {
-            get_value_from_wire(Wire::ONE, &self.0)
+            self.0.iter().find(|(w, _)| *w == Wire::ONE).map(|(_, c)| *c)
         } else {
             None
         }
@@ -97,16 +97,11 @@ impl<F: PrimeField> Add<&SparseRow<F>> for &SparseRow<F> {
     type Output = SparseRow<F>;
 
     fn add(self, rhs: &SparseRow<F>) -> Self::Output {
-        let mut res = self
-            .0
-            .clone()
-            .into_iter()
-            .filter(|(w, _)| get_value_from_wire(*w, &rhs.0).is_none())
-            .collect::<Vec<_>>();
-        for (wire, coeff_b) in rhs.0.clone() {
-            match get_value_from_wire(wire, &self.0) {
-                Some(coeff_a) => res.push((wire, coeff_a + coeff_b)),
-                None => res.push((wire, coeff_b)),
+        let mut res = self.0.clone();
+        for (wire, coeff_b) in rhs.iter() {
+            match res.iter_mut().find(|(w, _)| w == wire) {
+                Some((_, coeff_a)) => *coeff_a += coeff_b,
+                None => res.push((*wire, *coeff_b)),
             }
         }
         SparseRow::new(res)
@@ -192,12 +187,3 @@ impl<F: PrimeField> Mul<&F> for &SparseRow<F> {
         SparseRow::new(self.0.iter().map(|(k, v)| (*k, *v * *rhs)).collect())
     }
 }
-
-fn get_value_from_wire<F: PrimeField>(index: Wire, vectors: &[(Wire, F)]) -> Option<F> {
-    for vector in vectors {
-        if index == vector.0 {
-            return Some(vector.1);
-        }
-    }
-    None
-}
-- 
2.43.0


From 39be8368781bf04a10612589377c386af4035c68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:44 +0000
Subject: [PATCH 24/44] fix: constant detection missed the zero combination and
 repeated constant terms

---
 zkstd/src/matrix/row.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/zkstd/src/matrix/row.rs b/zkstd/src/matrix/row.rs
index 0922fcd..ba7f1f6 100644
--- a/zkstd/src/matrix/row.rs
+++ b/zkstd/src/matrix/row.rs
@@ -33,8 +33,8 @@ impl<F: PrimeField> SparseRow<F> {
 
     /// Return Some(c) if this is a constant c, otherwise None.
     pub fn as_constant(&self) -> Option<F> {
-        if self.num_terms() == 1 {
-            self.0.iter().find(|(w, _)| *w == Wire::ONE).map(|(_, c)| *c)
+        if self.0.iter().all(|(wire, _)| *wire == Wire::ONE) {
+            Some(self.0.iter().fold(F::zero(), |sum, (_, c)| sum + *c))
         } else {
             None
         }
-- 
2.43.0


From 1fe9fe2490b9b6f781540f520cd5bf59be442207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:33 +0000
Subject: [PATCH 25/44] fix: range check against zero panicked

---
 zkstd/src/circuit/gadget/field.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/zkstd/src/circuit/gadget/field.rs b/zkstd/src/circuit/gadget/field.rs
index 131d9db..f58c23a 100644
--- a/zkstd/src/circuit/gadget/field.rs
+++ b/zkstd/src/circuit/gadget/field.rs
@@ -103,6 +103,10 @@ impl<F: PrimeField> FieldAssignment<F> {
             FieldAssignment::enforce_eq_constant(cs, &FieldAssignment::from(bit), &F::zero());
         }
 
+        if c_bits.is_empty() {
+            return;
+        }
+
         let a_bits = a_bits
             .iter()
             .skip(a_bits.len() - c_bits.len())
-- 
2.43.0


From fb475d28c0ed5f9b9bb716bac0dcf3beaa63a550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:33 +0000
Subject: [PATCH 26/44] fix: width check of 254 bits and more compared with a
 wrapped bound

---
 zkstd/src/circuit/gadget/field.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/zkstd/src/circuit/gadget/field.rs b/zkstd/src/circuit/gadget/field.rs
index f58c23a..60b16ce 100644
--- a/zkstd/src/circuit/gadget/field.rs
+++ b/zkstd/src/circuit/gadget/field.rs
@@ -80,7 +80,20 @@ impl<F: PrimeField> FieldAssignment<F> {
         a_bits: &[BinaryAssignment],
         num_bits: u64,
     ) {
-        Self::range_check(cs, a_bits, F::pow_of_2(num_bits) - F::one());
+        // 2^num_bits may exceed the field order, so bits are checked directly
+        let num_high_bits = a_bits.len().saturating_sub(num_bits as usize);
+        for (i, bit) in a_bits.iter().enumerate() {
+            let bit = SparseRow::from(bit.inner());
+            if i < num_high_bits {
+                cs.equal_gate(&bit, &SparseRow::from(F::zero()));
+            } else {
+                cs.mul_gate(
+                    &bit,
+                    &(&bit - &SparseRow::one()),
+                    &SparseRow::from(F::zero()),
+                );
+            }
+        }
     }
 
     pub fn range_check<C: CircuitDriver<Scalar = F>>(
-- 
2.43.0


From cfc8cb502022e531c560346e81c2974d1f92532e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:33 +0000
Subject: [PATCH 27/44] fix: bit decomposition was not constrained to the
 decomposed value

---
 zkstd/src/circuit/gadget/field.rs | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/zkstd/src/circuit/gadget/field.rs b/zkstd/src/circuit/gadget/field.rs
index 60b16ce..be59fa7 100644
--- a/zkstd/src/circuit/gadget/field.rs
+++ b/zkstd/src/circuit/gadget/field.rs
@@ -186,15 +186,13 @@ impl<F: PrimeField> FieldAssignment<F> {
             .to_bits()
             .iter()
             .map(|b| BinaryAssignment::witness(cs, *b))
-            .skip(256 - num_bits) // TODO: Decide on how to store bits. LE or BE
             .collect();
-        if num_bits < C::NUM_BITS as usize {
-            FieldAssignment::range_check_bits(cs, &bit_repr, num_bits as u64);
-        } else {
-            FieldAssignment::range_check(cs, &bit_repr, bound);
-        }
+        // The bits are the canonical representation of x
+        FieldAssignment::range_check(cs, &bit_repr, bound);
+        FieldAssignment::enforce_eq_bits(cs, x, &bit_repr);
 
-        bit_repr
+        // TODO: Decide on how to store bits. LE or BE
+        bit_repr.into_iter().skip(256 - num_bits).collect()
     }
 
     pub fn enforce_eq<C: CircuitDriver<Scalar = F>>(cs: &mut R1cs<C>, x: &Self, y: &Self) {
-- 
2.43.0


From 8f01df26af9763092d3b393c703883a6609965f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:33 +0000
Subject: [PATCH 28/44] fix: inputize did not constrain the public wire to the
 value

---
 zkstd/src/circuit/gadget/field.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/zkstd/src/circuit/gadget/field.rs b/zkstd/src/circuit/gadget/field.rs
index be59fa7..591257e 100644
--- a/zkstd/src/circuit/gadget/field.rs
+++ b/zkstd/src/circuit/gadget/field.rs
@@ -30,7 +30,9 @@ impl<F: PrimeField> FieldAssignment<F> {
         let value = witness.inner().evaluate(&cs.x, &cs.w);
         cs.x.push(value);
 
-        Self(SparseRow::from(wire))
+        let instance = Self(SparseRow::from(wire));
+        FieldAssignment::enforce_eq(cs, &witness, &instance);
+        instance
     }
 
     pub fn value<C: CircuitDriver<Scalar = F>>(&self, cs: &R1cs<C>) -> F {
-- 
2.43.0


From 69985fc02a4c30db80bfb6f6131bb3692d9dd9df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:33 +0000
Subject: [PATCH 29/44] fix: negation and conjunction of bits were
 unconstrained

---
 zkstd/src/circuit/gadget/binary.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/zkstd/src/circuit/gadget/binary.rs b/zkstd/src/circuit/gadget/binary.rs
index bcb86a8..8cdf84e 100644
--- a/zkstd/src/circuit/gadget/binary.rs
+++ b/zkstd/src/circuit/gadget/binary.rs
@@ -1,6 +1,7 @@
 use crate::circuit::prelude::FieldAssignment;
 use crate::circuit::CircuitDriver;
 use crate::common::{IntGroup, Ring};
+use crate::matrix::SparseRow;
 use crate::r1cs::{R1cs, Wire};
 
 #[derive(Clone, Debug)]
@@ -45,6 +46,11 @@ impl BinaryAssignment {
         };
 
         cs.w.push(new_val);
+        cs.sub_gate(
+            &SparseRow::one(),
+            &SparseRow::from(b.0),
+            &SparseRow::from(wire),
+        );
 
         Self(wire)
     }
@@ -60,6 +66,11 @@ impl BinaryAssignment {
         };
 
         cs.w.push(a_and_b);
+        cs.mul_gate(
+            &SparseRow::from(a.0),
+            &SparseRow::from(b.0),
+            &SparseRow::from(wire),
+        );
 
         Self(wire)
     }
-- 
2.43.0


From 85ae8b6b50d2bf6311aebc1e99cbca253d72ffa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:53 +0000
Subject: [PATCH 30/44] fix: point normalisation did not constrain the inverse
 of z

---
 zkstd/src/circuit/gadget/curve.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/zkstd/src/circuit/gadget/curve.rs b/zkstd/src/circuit/gadget/curve.rs
index d6d61a4..79c963d 100644
--- a/zkstd/src/circuit/gadget/curve.rs
+++ b/zkstd/src/circuit/gadget/curve.rs
@@ -35,6 +35,9 @@ impl<F: PrimeField> PointAssignment<F> {
         let take_value =
             FieldAssignment::is_neq(cs, &self.z, &FieldAssignment::constant(&F::zero()));
         let inv = FieldAssignment::witness(cs, self.z.value(cs).invert().unwrap_or_else(F::zero));
+        // inv is the inverse of z unless z is zero
+        let z_inv = FieldAssignment::mul(cs, &self.z, &inv);
+        FieldAssignment::enforce_eq(cs, &z_inv, &FieldAssignment::from(&take_value));
 
         let p = Self {
             x: FieldAssignment::mul(cs, &self.x, &inv),
-- 
2.43.0


From c2d7f66753c48f5794b0fd1fbe99caabf2231c8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:08 +0000
Subject: [PATCH 31/44] verification hook: reach the proof system's internals
 (cfg kogarashi_verif)

---
 groth16/src/lib.rs   |  3 +++
 groth16/src/verif.rs | 48 ++++++++++++++++++++++++++++++++++++++++++++
 2 files changed, 51 insertions(+)
 create mode 100644 groth16/src/verif.rs

diff --git a/groth16/src/lib.rs b/groth16/src/lib.rs
index 897fbc4..0750d08 100644
--- a/groth16/src/lib.rs
+++ b/groth16/src/lib.rs
@@ -11,6 +11,9 @@ mod prover;
 mod verifier;
 mod zksnark;
 
+#[cfg(kogarashi_verif)]
+pub mod verif;
+
 pub use circuit::{Bn254Driver, Circuit};
 pub use error::Error;
 pub use proof::Proof;
diff --git a/groth16/src/verif.rs b/groth16/src/verif.rs
new file mode 100644
index 0000000..4f174ef
--- /dev/null
+++ b/groth16/src/verif.rs
@@ -0,0 +1,48 @@
+//! Access to crate-private items for the verification harness (only with `--cfg kogarashi_verif`).
+pub use crate::fft::Fft;
+pub use crate::msm::msm_curve_addition;
+pub use crate::params::Parameters;
+pub use crate::poly::{Coefficients, PointsValue};
+pub use crate::verifier::VerifyingKey;
+
+use crate::{Proof, Verifier};
+use bn_254::{G1Affine, G2Affine};
+use zkstd::common::FftField;
+
+pub fn fft<F: FftField>(k: usize) -> Fft<F> {
+    Fft::new(k)
+}
+pub fn dft<F: FftField>(fft: &Fft<F>, coeffs: Coefficients<F>) -> PointsValue<F> {
+    fft.dft(coeffs)
+}
+pub fn idft<F: FftField>(fft: &Fft<F>, points: PointsValue<F>) -> Coefficients<F> {
+    fft.idft(points)
+}
+pub fn coset_dft<F: FftField>(fft: &Fft<F>, coeffs: Coefficients<F>) -> PointsValue<F> {
+    fft.coset_dft(coeffs)
+}
+pub fn coset_idft<F: FftField>(fft: &Fft<F>, points: PointsValue<F>) -> Coefficients<F> {
+    fft.coset_idft(points)
+}
+pub fn z<F: FftField>(fft: &Fft<F>, tau: &F) -> F {
+    fft.z(tau)
+}
+pub fn z_on_coset<F: FftField>(fft: &Fft<F>) -> F {
+    fft.z_on_coset()
+}
+pub fn divide_by_z_on_coset<F: FftField>(fft: &Fft<F>, points: PointsValue<F>) -> PointsValue<F> {
+    fft.divide_by_z_on_coset(points)
+}
+pub fn is_zero<F: FftField>(coeffs: &Coefficients<F>) -> bool {
+    coeffs.is_zero()
+}
+
+pub fn proof(a: G1Affine, b: G2Affine, c: G1Affine) -> Proof {
+    Proof { a, b, c }
+}
+pub fn elements(proof: &Proof) -> (G1Affine, G2Affine, G1Affine) {
+    (proof.a, proof.b, proof.c)
+}
+pub fn verifier(vk: &VerifyingKey) -> Verifier {
+    Verifier { vk: vk.prepare() }
+}
-- 
2.43.0


From 8cda93b27e773c845ca89689f5db2f257337ede2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:02 +0000
Subject: [PATCH 32/44] fix: polynomial subtraction returned the opposite
 unless the left operand was longer

---
 groth16/src/poly.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/groth16/src/poly.rs b/groth16/src/poly.rs
index e7d8f11..a50e463 100644
--- a/groth16/src/poly.rs
+++ b/groth16/src/poly.rs
@@ -213,12 +213,10 @@ impl<F: FftField> Sub for Coefficients<F> {
 
     fn sub(self, rhs: Self) -> Self::Output {
         let zero = F::zero();
-        let (left, right) = if self.0.len() > rhs.0.len() {
-            (self.0.iter(), rhs.0.iter().chain(iter::repeat(&zero)))
-        } else {
-            (rhs.0.iter(), self.0.iter().chain(iter::repeat(&zero)))
-        };
-        Self::new(left.zip(right).map(|(a, b)| *a - *b).collect())
+        let n = self.0.len().max(rhs.0.len());
+        let left = self.0.iter().chain(iter::repeat(&zero));
+        let right = rhs.0.iter().chain(iter::repeat(&zero));
+        Self::new(left.zip(right).take(n).map(|(a, b)| *a - *b).collect())
     }
 }
 
-- 
2.43.0


From b1102122c0696ba5e2ec6b54725244b63b54f8d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:01 +0000
Subject: [PATCH 33/44] verification hook: reach the recursion's internals (cfg
 kogarashi_verif)

---
 nova/src/circuit.rs      |   6 +
 nova/src/gadget.rs       |   7 +
 nova/src/lib.rs          |   3 +
 nova/src/relaxed_r1cs.rs |   6 +
 nova/src/verif.rs        | 363 +++++++++++++++++++++++++++++++++++++++
 5 files changed, 385 insertions(+)
 create mode 100644 nova/src/verif.rs

diff --git a/nova/src/circuit.rs b/nova/src/circuit.rs
index 505814e..4be80b4 100644
--- a/nova/src/circuit.rs
+++ b/nova/src/circuit.rs
@@ -2,5 +2,11 @@ mod augmented;
 mod nifs;
 mod transcript;
 
+#[cfg(kogarashi_verif)]
+pub mod verif {
+    pub use super::augmented::AugmentedFCircuit;
+    pub(crate) use super::nifs::NifsCircuit;
+}
+
 pub(crate) use augmented::AugmentedFCircuit;
 pub(crate) use transcript::MimcROCircuit;
diff --git a/nova/src/gadget.rs b/nova/src/gadget.rs
index 532804a..86e17d6 100644
--- a/nova/src/gadget.rs
+++ b/nova/src/gadget.rs
@@ -3,6 +3,13 @@ mod instance;
 mod mimc;
 mod relaxed_instance;
 
+#[cfg(kogarashi_verif)]
+pub mod verif {
+    pub use super::big_nat::{
+        f_to_nat, limbs_to_nat, nat_to_f, nat_to_limbs, BigNatAssignment, BigNatParams, Polynomial,
+    };
+}
+
 pub(crate) use big_nat::{f_to_nat, nat_to_limbs, BigNatAssignment, BN_LIMB_WIDTH, BN_N_LIMBS};
 pub(crate) use instance::R1csInstanceAssignment;
 pub(crate) use mimc::MimcAssignment;
diff --git a/nova/src/lib.rs b/nova/src/lib.rs
index 280a236..378cb5a 100644
--- a/nova/src/lib.rs
+++ b/nova/src/lib.rs
@@ -16,6 +16,9 @@ mod driver;
 #[cfg(test)]
 mod test;
 
+#[cfg(kogarashi_verif)]
+pub mod verif;
+
 pub use driver::{Bn254Driver, GrumpkinDriver};
 pub use function::FunctionCircuit;
 pub use ivc::{Ivc, PublicParams};
diff --git a/nova/src/relaxed_r1cs.rs b/nova/src/relaxed_r1cs.rs
index 476e318..aea347f 100644
--- a/nova/src/relaxed_r1cs.rs
+++ b/nova/src/relaxed_r1cs.rs
@@ -1,6 +1,12 @@
 mod instance;
 mod witness;
 
+#[cfg(kogarashi_verif)]
+pub mod verif {
+    pub use super::instance::{R1csInstance, RelaxedR1csInstance};
+    pub use super::witness::{R1csWitness, RelaxedR1csWitness};
+}
+
 use crate::PedersenCommitment;
 pub(crate) use instance::{R1csInstance, RelaxedR1csInstance};
 pub(crate) use witness::{R1csWitness, RelaxedR1csWitness};
diff --git a/nova/src/verif.rs b/nova/src/verif.rs
new file mode 100644
index 0000000..0c2304f
--- /dev/null
+++ b/nova/src/verif.rs
@@ -0,0 +1,363 @@
+//! Access to crate-private items for the verification harness (only with `--cfg kogarashi_verif`).
+use crate::circuit::verif::NifsCircuit;
+use crate::circuit::{AugmentedFCircuit, MimcROCircuit};
+use crate::gadget::{MimcAssignment, R1csInstanceAssignment, RelaxedR1csInstanceAssignment};
+use crate::hash::{Mimc, MimcRO};
+use crate::relaxed_r1cs::{self, R1csShape};
+use crate::{FunctionCircuit, PedersenCommitment, Prover, RecursiveProof};
+use zkstd::circuit::prelude::{CircuitDriver, FieldAssignment, PointAssignment, R1cs};
+use zkstd::common::{BNAffine, CurveGroup, PrimeField};
+use zkstd::matrix::DenseVectors;
+
+pub use crate::circuit::verif::AugmentedFCircuit as StepCircuit;
+pub use crate::driver::{base_as_scalar, scalar_as_base};
+pub use crate::gadget::verif::*;
+pub use crate::relaxed_r1cs::verif::*;
+
+pub const MIMC_ROUNDS: usize = crate::hash::MIMC_ROUNDS;
+pub const CHALLENGE_BITS: usize = crate::hash::CHALLENGE_BITS;
+pub const HASH_BITS: usize = crate::hash::HASH_BITS;
+
+pub fn commit<C: BNAffine>(ck: &PedersenCommitment<C>, m: &[C::Scalar]) -> C {
+    ck.commit(&DenseVectors::new(m.to_vec()))
+}
+
+pub fn mimc<F: PrimeField>(xl: F, xr: F) -> F {
+    Mimc::<MIMC_ROUNDS, F>::default().hash(xl, xr)
+}
+
+pub fn mimc_circuit<C: CircuitDriver>(
+    cs: &mut R1cs<C>,
+    xl: FieldAssignment<C::Scalar>,
+    xr: FieldAssignment<C::Scalar>,
+) -> FieldAssignment<C::Scalar> {
+    MimcAssignment::<MIMC_ROUNDS, C::Scalar>::default().hash(cs, xl, xr)
+}
+
+/// The random oracle.
+pub struct Oracle<C: CircuitDriver>(MimcRO<MIMC_ROUNDS, C>);
+
+impl<C: CircuitDriver> Default for Oracle<C> {
+    fn default() -> Self {
+        Self(MimcRO::default())
+    }
+}
+
+impl<C: CircuitDriver> Oracle<C> {
+    pub fn append(&mut self, x: C::Base) {
+        self.0.append(x)
+    }
+    pub fn append_vec(&mut self, x: Vec<C::Base>) {
+        self.0.append_vec(x)
+    }
+    pub fn append_point(&mut self, p: impl BNAffine<Base = C::Base>) {
+        self.0.append_point(p)
+    }
+    pub fn append_relaxed(&mut self, u: &RelaxedR1csInstance<C>) {
+        u.absorb_by_transcript(&mut self.0)
+    }
+    pub fn squeeze(&self, num_bits: usize) -> C::Scalar {
+        self.0.squeeze(num_bits)
+    }
+}
+
+/// The random oracle in a circuit over `C::Base`.
+pub struct OracleCircuit<C: CircuitDriver>(MimcROCircuit<MIMC_ROUNDS, C>);
+
+impl<C: CircuitDriver> Default for OracleCircuit<C> {
+    fn default() -> Self {
+        Self(MimcROCircuit::default())
+    }
+}
+
+impl<C: CircuitDriver> OracleCircuit<C> {
+    pub fn append(&mut self, x: FieldAssignment<C::Base>) {
+        self.0.append(x)
+    }
+    pub fn append_vec(&mut self, x: Vec<FieldAssignment<C::Base>>) {
+        self.0.append_vec(x)
+    }
+    pub fn append_point(&mut self, p: PointAssignment<C::Base>) {
+        self.0.append_point(p)
+    }
+    pub fn squeeze<CS: CircuitDriver<Scalar = C::Base>>(
+        &self,
+        cs: &mut R1cs<CS>,
+        num_bits: usize,
+    ) -> FieldAssignment<C::Base> {
+        self.0.squeeze(cs, num_bits)
+    }
+}
+
+pub fn instance_and_witness<C: CircuitDriver>(
+    cs: &R1cs<C>,
+    shape: &R1csShape<C>,
+    ck: &PedersenCommitment<C::Affine>,
+) -> (R1csInstance<C>, R1csWitness<C>) {
+    relaxed_r1cs::r1cs_instance_and_witness(cs, shape, ck)
+}
+
+pub fn instance<C: CircuitDriver>(commit_w: C::Affine, x: Vec<C::Scalar>) -> R1csInstance<C> {
+    let x = DenseVectors::new(x);
+    R1csInstance { commit_w, x }
+}
+
+pub fn instance_parts<C: CircuitDriver>(u: &R1csInstance<C>) -> (C::Affine, Vec<C::Scalar>) {
+    (u.commit_w, u.x.get())
+}
+
+pub fn witness<C: CircuitDriver>(w: Vec<C::Scalar>) -> R1csWitness<C> {
+    R1csWitness {
+        w: DenseVectors::new(w),
+    }
+}
+
+pub fn relaxed_instance<C: CircuitDriver>(
+    commit_w: C::Affine,
+    commit_e: C::Affine,
+    u: C::Scalar,
+    x: Vec<C::Scalar>,
+) -> RelaxedR1csInstance<C> {
+    RelaxedR1csInstance {
+        commit_w,
+        commit_e,
+        u,
+        x: DenseVectors::new(x),
+    }
+}
+
+#[allow(clippy::type_complexity)]
+pub fn relaxed_instance_parts<C: CircuitDriver>(
+    u: &RelaxedR1csInstance<C>,
+) -> (C::Affine, C::Affine, C::Scalar, Vec<C::Scalar>) {
+    (u.commit_w, u.commit_e, u.u, u.x.get())
+}
+
+pub fn relaxed_witness<C: CircuitDriver>(
+    w: Vec<C::Scalar>,
+    e: Vec<C::Scalar>,
+) -> RelaxedR1csWitness<C> {
+    RelaxedR1csWitness {
+        w: DenseVectors::new(w),
+        e: DenseVectors::new(e),
+    }
+}
+
+pub fn relaxed_witness_parts<C: CircuitDriver>(
+    w: &RelaxedR1csWitness<C>,
+) -> (Vec<C::Scalar>, Vec<C::Scalar>) {
+    (w.w.get(), w.e.get())
+}
+
+pub fn relaxed_dummy<C: CircuitDriver>(
+    shape: &R1csShape<C>,
+) -> (RelaxedR1csInstance<C>, RelaxedR1csWitness<C>) {
+    (
+        RelaxedR1csInstance::dummy(shape.l() as usize),
+        RelaxedR1csWitness::dummy(shape.m_l_1() as usize, shape.m() as usize),
+    )
+}
+
+pub fn fold_instance<C: CircuitDriver>(
+    running: &RelaxedR1csInstance<C>,
+    single: &R1csInstance<C>,
+    r: C::Scalar,
+    commit_t: C::Affine,
+) -> RelaxedR1csInstance<C> {
+    running.fold(single, r, commit_t)
+}
+
+pub fn fold_witness<C: CircuitDriver>(
+    running: &RelaxedR1csWitness<C>,
+    single: &R1csWitness<C>,
+    r: C::Scalar,
+    t: Vec<C::Scalar>,
+) -> RelaxedR1csWitness<C> {
+    running.fold(single, r, DenseVectors::new(t))
+}
+
+pub fn cross_term<C: CircuitDriver>(
+    prover: &Prover<C>,
+    instance1: &RelaxedR1csInstance<C>,
+    witness1: &RelaxedR1csWitness<C>,
+    instance2: &R1csInstance<C>,
+    witness2: &R1csWitness<C>,
+) -> Vec<C::Scalar> {
+    prover
+        .compute_cross_term(instance1, witness1, instance2, witness2)
+        .get()
+}
+
+/// A relaxed instance over `C` in a circuit over `C::Base`.
+pub struct RelaxedWires<C: CircuitDriver> {
+    pub commit_w: PointAssignment<C::Base>,
+    pub commit_e: PointAssignment<C::Base>,
+    pub u: FieldAssignment<C::Base>,
+    pub x0: BigNatAssignment<C::Base>,
+    pub x1: BigNatAssignment<C::Base>,
+}
+
+impl<C: CircuitDriver> From<RelaxedR1csInstanceAssignment<C>> for RelaxedWires<C> {
+    fn from(a: RelaxedR1csInstanceAssignment<C>) -> Self {
+        Self {
+            commit_w: a.commit_w,
+            commit_e: a.commit_e,
+            u: a.u,
+            x0: a.x0,
+            x1: a.x1,
+        }
+    }
+}
+
+impl<C: CircuitDriver> From<RelaxedWires<C>> for RelaxedR1csInstanceAssignment<C> {
+    fn from(a: RelaxedWires<C>) -> Self {
+        Self {
+            commit_w: a.commit_w,
+            commit_e: a.commit_e,
+            u: a.u,
+            x0: a.x0,
+            x1: a.x1,
+        }
+    }
+}
+
+impl<C: CircuitDriver> Clone for RelaxedWires<C> {
+    fn clone(&self) -> Self {
+        RelaxedR1csInstanceAssignment::from(Self {
+            commit_w: self.commit_w.clone(),
+            commit_e: self.commit_e.clone(),
+            u: self.u.clone(),
+            x0: self.x0.clone(),
+            x1: self.x1.clone(),
+        })
+        .into()
+    }
+}
+
+impl<C: CircuitDriver> RelaxedWires<C> {
+    pub fn witness<CS: CircuitDriver<Scalar = C::Base>>(
+        cs: &mut R1cs<CS>,
+        u: &RelaxedR1csInstance<C>,
+    ) -> Self {
+        RelaxedR1csInstanceAssignment::witness(cs, u).into()
+    }
+    pub fn hash<CS: CircuitDriver<Scalar = C::Base>>(
+        &self,
+        cs: &mut R1cs<CS>,
+        i: FieldAssignment<C::Base>,
+        z_0: Vec<FieldAssignment<C::Base>>,
+        z_i: Vec<FieldAssignment<C::Base>>,
+    ) -> FieldAssignment<C::Base> {
+        RelaxedR1csInstanceAssignment::from(self.clone()).hash(cs, i, z_0, z_i)
+    }
+}
+
+/// The in-circuit folding verifier: the wires of its inputs, the challenge and the folded instance.
+pub struct NifsWires<C: CircuitDriver> {
+    pub running: RelaxedWires<C>,
+    pub commit_w: PointAssignment<C::Base>,
+    pub x0: FieldAssignment<C::Base>,
+    pub x1: FieldAssignment<C::Base>,
+    pub commit_t: PointAssignment<C::Base>,
+    pub r: FieldAssignment<C::Base>,
+    pub folded: RelaxedWires<C>,
+}
+
+pub fn nifs_circuit<C: CircuitDriver, CS: CircuitDriver<Scalar = C::Base>, FC>(
+    cs: &mut R1cs<CS>,
+    running: &RelaxedR1csInstance<C>,
+    single: &R1csInstance<C>,
+    commit_t: C::Affine,
+) -> NifsWires<C>
+where
+    FC: FunctionCircuit<C::Base>,
+{
+    let u_range = RelaxedR1csInstanceAssignment::witness(cs, running);
+    let u_single = R1csInstanceAssignment::witness(cs, single);
+    let commit_t = PointAssignment::witness(
+        cs,
+        commit_t.get_x(),
+        commit_t.get_y(),
+        commit_t.is_identity(),
+    );
+    let r = AugmentedFCircuit::<C, FC>::get_challenge(cs, &u_range, commit_t.clone());
+    let folded = NifsCircuit::verify(
+        cs,
+        r.clone(),
+        u_range.clone(),
+        u_single.clone(),
+        commit_t.clone(),
+    );
+    NifsWires {
+        running: u_range.into(),
+        commit_w: u_single.commit_w,
+        x0: u_single.x0,
+        x1: u_single.x1,
+        commit_t,
+        r,
+        folded: folded.into(),
+    }
+}
+
+pub fn step_circuit<C, CS, FC>(
+    circuit: &AugmentedFCircuit<C, FC>,
+    cs: &mut R1cs<CS>,
+) -> Vec<FieldAssignment<C::Base>>
+where
+    C: CircuitDriver,
+    CS: CircuitDriver<Scalar = C::Base>,
+    FC: FunctionCircuit<C::Base>,
+{
+    circuit.generate(cs)
+}
+
+/// The parts of a recursive proof.
+#[allow(clippy::type_complexity)]
+pub struct ProofParts<E1: CircuitDriver, E2: CircuitDriver> {
+    pub i: u64,
+    pub z0_primary: Vec<E1::Scalar>,
+    pub z0_secondary: Vec<E2::Scalar>,
+    pub zi_primary: Vec<E1::Scalar>,
+    pub zi_secondary: Vec<E2::Scalar>,
+    pub single_secondary: (R1csInstance<E2>, R1csWitness<E2>),
+    pub range_primary: (RelaxedR1csInstance<E1>, RelaxedR1csWitness<E1>),
+    pub range_secondary: (RelaxedR1csInstance<E2>, RelaxedR1csWitness<E2>),
+}
+
+pub fn proof_parts<E1, E2, FC1, FC2>(p: &RecursiveProof<E1, E2, FC1, FC2>) -> ProofParts<E1, E2>
+where
+    E1: CircuitDriver<Base = <E2 as CircuitDriver>::Scalar>,
+    E2: CircuitDriver<Base = <E1 as CircuitDriver>::Scalar>,
+    FC1: FunctionCircuit<E1::Scalar>,
+    FC2: FunctionCircuit<E2::Scalar>,
+{
+    let (single_secondary, range_primary, range_secondary) = p.instances.clone();
+    ProofParts {
+        i: p.i,
+        z0_primary: p.z0_primary.get(),
+        z0_secondary: p.z0_secondary.get(),
+        zi_primary: p.zi_primary.get(),
+        zi_secondary: p.zi_secondary.get(),
+        single_secondary,
+        range_primary,
+        range_secondary,
+    }
+}
+
+pub fn proof<E1, E2, FC1, FC2>(p: ProofParts<E1, E2>) -> RecursiveProof<E1, E2, FC1, FC2>
+where
+    E1: CircuitDriver<Base = <E2 as CircuitDriver>::Scalar>,
+    E2: CircuitDriver<Base = <E1 as CircuitDriver>::Scalar>,
+    FC1: FunctionCircuit<E1::Scalar>,
+    FC2: FunctionCircuit<E2::Scalar>,
+{
+    RecursiveProof {
+        i: p.i,
+        z0_primary: DenseVectors::new(p.z0_primary),
+        z0_secondary: DenseVectors::new(p.z0_secondary),
+        zi_primary: DenseVectors::new(p.zi_primary),
+        zi_secondary: DenseVectors::new(p.zi_secondary),
+        instances: (p.single_secondary, p.range_primary, p.range_secondary),
+        marker: Default::default(),
+    }
+}
-- 
2.43.0


From 96e0c3e8df837a86bc90fe9441eb8fefe6937d93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:00 +0000
Subject: [PATCH 34/44] fix: setup truncated the powers of tau at the number of
 constraints

---
 groth16/src/zksnark.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/groth16/src/zksnark.rs b/groth16/src/zksnark.rs
index f20d93a..a5d1cee 100644
--- a/groth16/src/zksnark.rs
+++ b/groth16/src/zksnark.rs
@@ -37,10 +37,10 @@ impl ZkSnark {
         let gamma_inverse = gamma.invert().ok_or(Error::ProverInversionFailed)?;
         let delta_inverse = delta.invert().ok_or(Error::ProverInversionFailed)?;
 
-        let mut h = vec![G1Affine::ADDITIVE_IDENTITY; (cs.m() - 1) as usize];
+        let mut h = vec![G1Affine::ADDITIVE_IDENTITY; (size - 1) as usize];
 
         // Compute (1, tau, tau^2, ...)
-        let mut powers_of_tau = PointsValue(vec![Fr::zero(); cs.m() as usize]);
+        let mut powers_of_tau = PointsValue(vec![Fr::zero(); size as usize]);
         let mut current_pow_of_tau = Fr::one();
         for x in powers_of_tau.0.iter_mut() {
             *x = current_pow_of_tau;
-- 
2.43.0


From 9242cda416ac3ddbabf4ea5ecec1f3d5b40f7f77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:00 +0000
Subject: [PATCH 35/44] fix: circuits with less than two constraints could not
 be set up

---
 groth16/src/prover.rs  | 2 +-
 groth16/src/zksnark.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/groth16/src/prover.rs b/groth16/src/prover.rs
index 678ff26..27c6f9b 100644
--- a/groth16/src/prover.rs
+++ b/groth16/src/prover.rs
@@ -25,7 +25,7 @@ impl Prover {
         let mut cs = R1cs::default();
         circuit.synthesize(&mut cs)?;
 
-        let size = cs.m().next_power_of_two();
+        let size = cs.m().next_power_of_two().max(2);
         let k = size.trailing_zeros();
         let vk = self.params.vk.clone();
 
diff --git a/groth16/src/zksnark.rs b/groth16/src/zksnark.rs
index a5d1cee..18d30b7 100644
--- a/groth16/src/zksnark.rs
+++ b/groth16/src/zksnark.rs
@@ -20,7 +20,7 @@ impl ZkSnark {
 
         circuit.synthesize(&mut cs)?;
 
-        let size = cs.m().next_power_of_two();
+        let size = cs.m().next_power_of_two().max(2);
         let k = size.trailing_zeros();
         let fft = Fft::<Fr>::new(k as usize);
 
-- 
2.43.0


From ae8e814b952a25c419d2384bbaad92f0d9aca62f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:07 +0000
Subject: [PATCH 36/44] fix: constants of the carried equality were free
 witnesses

---
 nova/src/gadget/big_nat.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/nova/src/gadget/big_nat.rs b/nova/src/gadget/big_nat.rs
index 51f486c..b92758c 100644
--- a/nova/src/gadget/big_nat.rs
+++ b/nova/src/gadget/big_nat.rs
@@ -250,12 +250,12 @@ impl<F: PrimeField> BigNatAssignment<F> {
             );
             accumulated_extra += max_word;
 
-            let target_base_ass = FieldAssignment::witness(cs, nat_to_f::<F>(&target_base));
+            let target_base_ass = FieldAssignment::constant(&nat_to_f::<F>(&target_base));
             let target = FieldAssignment::mul(cs, &target_base_ass, &carry);
             let carry_sum = &(&carry_in + &self.limbs[i]) - &other.limbs[i];
             let accumulated =
-                FieldAssignment::witness(cs, nat_to_f::<F>(&(&accumulated_extra % &target_base)));
-            let max_word = FieldAssignment::witness(cs, nat_to_f::<F>(max_word));
+                FieldAssignment::constant(&nat_to_f::<F>(&(&accumulated_extra % &target_base)));
+            let max_word = FieldAssignment::constant(&nat_to_f::<F>(max_word));
 
             FieldAssignment::enforce_eq_constant(
                 cs,
@@ -269,7 +269,7 @@ impl<F: PrimeField> BigNatAssignment<F> {
                 FieldAssignment::range_check_bits(cs, &carry_decomposition, carry_bits as u64);
             } else {
                 let accumulated_extra_ass =
-                    FieldAssignment::witness(cs, nat_to_f(&accumulated_extra));
+                    FieldAssignment::constant(&nat_to_f(&accumulated_extra));
                 FieldAssignment::enforce_eq_constant(
                     cs,
                     &(&carry - &accumulated_extra_ass),
@@ -417,7 +417,7 @@ impl<F: PrimeField> BigNatAssignment<F> {
         let n_groups = (self.limbs.len() - 1) / limbs_per_group + 1;
         let mut limbs = vec![FieldAssignment::constant(&F::zero()); n_groups];
         let mut shift = FieldAssignment::constant(&F::one());
-        let limb_block = FieldAssignment::witness(cs, F::pow_of_2(self.params.limb_width as u64));
+        let limb_block = FieldAssignment::constant(&F::pow_of_2(self.params.limb_width as u64));
         for (i, limb) in self.limbs.iter().enumerate() {
             if i % limbs_per_group == 0 {
                 shift = FieldAssignment::constant(&F::one());
-- 
2.43.0


From dfc403f38c9c192ad98dfd0a0aeee2ed0792dfc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:03 +0000
Subject: [PATCH 37/44] fix: limbs of a decomposed natural could exceed their
 width

---
 nova/src/gadget/big_nat.rs | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/nova/src/gadget/big_nat.rs b/nova/src/gadget/big_nat.rs
index b92758c..89c7071 100644
--- a/nova/src/gadget/big_nat.rs
+++ b/nova/src/gadget/big_nat.rs
@@ -165,17 +165,16 @@ impl<F: PrimeField> BigNatAssignment<F> {
         &self,
         cs: &mut R1cs<C>,
     ) -> Vec<BinaryAssignment> {
-        let limb_values_split = self.limbs.iter().map(|limb| limb.value(cs));
-        let bitvectors: Vec<Vec<BinaryAssignment>> = self
-            .limbs
-            .iter()
-            .rev()
-            .map(|limb| FieldAssignment::to_bits::<C>(cs, limb, self.params.limb_width))
-            .collect();
         let mut bits = Vec::new();
 
-        for bv in bitvectors {
-            bits.extend(bv);
+        for limb in self.limbs.iter().rev() {
+            let mut limb_bits = FieldAssignment::to_bits::<C>(cs, limb, 256);
+            let low_bits = limb_bits.split_off(256 - self.params.limb_width);
+            // the limb fits in its width
+            for bit in &limb_bits {
+                FieldAssignment::enforce_eq_constant(cs, &FieldAssignment::from(bit), &F::zero());
+            }
+            bits.extend(low_bits);
         }
         bits
     }
-- 
2.43.0


From 75c62388b90705cb7c873d66598ceb828b3380c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:59 +0000
Subject: [PATCH 38/44] fix: natural of a field element could be the element
 plus the modulus

---
 nova/src/gadget/big_nat.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nova/src/gadget/big_nat.rs b/nova/src/gadget/big_nat.rs
index 89c7071..156ac84 100644
--- a/nova/src/gadget/big_nat.rs
+++ b/nova/src/gadget/big_nat.rs
@@ -126,6 +126,8 @@ impl<F: PrimeField> BigNatAssignment<F> {
         let bv = big_nat.decompose(cs);
         // (2) recompose bits and check if it equals n
         FieldAssignment::enforce_eq_bits(cs, f, &bv);
+        // (3) the bits are the canonical representation of n
+        FieldAssignment::range_check(cs, &bv, F::MODULUS - F::one());
 
         big_nat
     }
-- 
2.43.0


From 60fc63c2cf66df05c365d31441b54b55c5863128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:04 +0000
Subject: [PATCH 39/44] fix: vectors of a wrong length crashed the satisfaction
 checks

---
 nova/src/relaxed_r1cs.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/nova/src/relaxed_r1cs.rs b/nova/src/relaxed_r1cs.rs
index aea347f..fd5229c 100644
--- a/nova/src/relaxed_r1cs.rs
+++ b/nova/src/relaxed_r1cs.rs
@@ -83,6 +83,11 @@ impl<C: CircuitDriver> R1csShape<C> {
         self.witness_length
     }
 
+    /// whether the instance and witness vectors have the lengths of this shape
+    fn is_sized(&self, x: &DenseVectors<C::Scalar>, w: &DenseVectors<C::Scalar>) -> bool {
+        x.len() == self.instance_length as usize && w.len() == self.witness_length as usize
+    }
+
     ///  check (A · Z) ◦ (B · Z) = u · (C · Z) + E
     pub fn is_sat_relaxed(
         &self,
@@ -99,6 +104,10 @@ impl<C: CircuitDriver> R1csShape<C> {
         } = instance;
         let RelaxedR1csWitness { w, e } = witness;
 
+        if !self.is_sized(x, w) || e.len() != *m as usize {
+            return false;
+        }
+
         let l = x.len() + 1;
         let z = DenseVectors::new(vec![vec![*u], x.get(), w.get()].concat());
         // A · Z
@@ -131,6 +140,10 @@ impl<C: CircuitDriver> R1csShape<C> {
         let R1csInstance { commit_w, x } = instance;
         let R1csWitness { w } = witness;
 
+        if !self.is_sized(x, w) {
+            return false;
+        }
+
         let l = x.len() + 1;
         let z = DenseVectors::new(vec![vec![C::Scalar::one()], x.get(), w.get()].concat());
         // A · Z
-- 
2.43.0


From 3ed08aeff7157de8840972a2ffc0e5438ef4c02a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:24 +0000
Subject: [PATCH 40/44] fix: commitments of the relaxed pairs of a recursive
 proof were never opened

---
 nova/src/proof.rs        | 23 +++++++++++++----------
 nova/src/relaxed_r1cs.rs | 12 ++++++++++++
 2 files changed, 25 insertions(+), 10 deletions(-)

diff --git a/nova/src/proof.rs b/nova/src/proof.rs
index 5bf15cf..20db519 100644
--- a/nova/src/proof.rs
+++ b/nova/src/proof.rs
@@ -67,15 +67,18 @@ where
             return false;
         }
 
-        pp.r1cs_shape_primary
-            .is_sat_relaxed(&u_range_primary, &w_range_primary)
-            && pp
-                .r1cs_shape_secondary
-                .is_sat_relaxed(&u_range_secondary, &w_range_secondary)
-            && pp.r1cs_shape_secondary.is_sat(
-                &pp.ck_secondary,
-                &u_single_secondary,
-                &w_single_secondary,
-            )
+        pp.r1cs_shape_primary.is_sat_relaxed_opened(
+            &pp.ck_primary,
+            &u_range_primary,
+            &w_range_primary,
+        ) && pp.r1cs_shape_secondary.is_sat_relaxed_opened(
+            &pp.ck_secondary,
+            &u_range_secondary,
+            &w_range_secondary,
+        ) && pp.r1cs_shape_secondary.is_sat(
+            &pp.ck_secondary,
+            &u_single_secondary,
+            &w_single_secondary,
+        )
     }
 }
diff --git a/nova/src/relaxed_r1cs.rs b/nova/src/relaxed_r1cs.rs
index fd5229c..3859cfd 100644
--- a/nova/src/relaxed_r1cs.rs
+++ b/nova/src/relaxed_r1cs.rs
@@ -128,6 +128,18 @@ impl<C: CircuitDriver> R1csShape<C> {
             .all(|(left, right)| left == right)
     }
 
+    ///  check (A · Z) ◦ (B · Z) = u · (C · Z) + E and that the commitments open to W and E
+    pub fn is_sat_relaxed_opened(
+        &self,
+        ck: &PedersenCommitment<C::Affine>,
+        instance: &RelaxedR1csInstance<C>,
+        witness: &RelaxedR1csWitness<C>,
+    ) -> bool {
+        self.is_sat_relaxed(instance, witness)
+            && instance.commit_w == ck.commit(&witness.w)
+            && instance.commit_e == ck.commit(&witness.e)
+    }
+
     ///  check (A · Z) ◦ (B · Z) = (C · Z)
     pub fn is_sat(
         &self,
-- 
2.43.0


From 777e022ffa744ee0e9fb6fb3c892de3c0f971010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:13 +0000
Subject: [PATCH 41/44] fix: commitment keys could be shorter than the witness

---
 nova/src/ivc.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/nova/src/ivc.rs b/nova/src/ivc.rs
index 2772809..76e58d7 100644
--- a/nova/src/ivc.rs
+++ b/nova/src/ivc.rs
@@ -300,11 +300,16 @@ where
         circuit_secondary.generate(&mut cs);
         let r1cs_shape_secondary = R1csShape::from(cs);
 
-        let k = r1cs_shape_primary.m().next_power_of_two().trailing_zeros();
+        let k = r1cs_shape_primary
+            .m()
+            .max(r1cs_shape_primary.m_l_1())
+            .next_power_of_two()
+            .trailing_zeros();
         let ck_primary = PedersenCommitment::<E1::Affine>::new(k.into(), rng);
 
         let k = r1cs_shape_secondary
             .m()
+            .max(r1cs_shape_secondary.m_l_1())
             .next_power_of_two()
             .trailing_zeros();
         let ck_secondary = PedersenCommitment::<E2::Affine>::new(k.into(), rng);
-- 
2.43.0


From a6a131e9578a55cec7e72ff56ae5aa9864a8d197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:02 +0000
Subject: [PATCH 42/44] fix: state of the base case was not tied to the initial
 state

---
 nova/src/circuit/augmented.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/nova/src/circuit/augmented.rs b/nova/src/circuit/augmented.rs
index c79892e..e5643b5 100644
--- a/nova/src/circuit/augmented.rs
+++ b/nova/src/circuit/augmented.rs
@@ -109,6 +109,12 @@ impl<C: CircuitDriver, FC: FunctionCircuit<C::Base>> AugmentedFCircuit<C, FC> {
             &base_case,
         );
 
+        // in the base case the current state is the initial one
+        let z_i = z_0
+            .iter()
+            .zip(z_i.iter())
+            .map(|(z_0, z_i)| FieldAssignment::conditional_select(cs, z_0, z_i, &base_case))
+            .collect::<Vec<_>>();
         let z_next = FC::invoke_cs(cs, z_i);
 
         let u_next_x = u_range_next.hash(
-- 
2.43.0


From 74f7d8a0ac8db6f48e5dca17dcd235fbd69bad28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:43 +0000
Subject: [PATCH 43/44] fix: folded public inputs and modulus of the step
 circuit were free witnesses

---
 nova/src/circuit/nifs.rs   | 13 ++++++-------
 nova/src/gadget/big_nat.rs | 10 ++++++++++
 2 files changed, 16 insertions(+), 7 deletions(-)

diff --git a/nova/src/circuit/nifs.rs b/nova/src/circuit/nifs.rs
index 2dd7888..392d835 100644
--- a/nova/src/circuit/nifs.rs
+++ b/nova/src/circuit/nifs.rs
@@ -2,7 +2,7 @@ use core::marker::PhantomData;
 use num_bigint::BigInt;
 use num_traits::Num;
 
-use crate::gadget::{f_to_nat, BigNatAssignment, BN_LIMB_WIDTH, BN_N_LIMBS};
+use crate::gadget::{BigNatAssignment, BN_LIMB_WIDTH, BN_N_LIMBS};
 use crate::gadget::{R1csInstanceAssignment, RelaxedR1csInstanceAssignment};
 use zkstd::circuit::prelude::{CircuitDriver, FieldAssignment, PointAssignment, R1cs};
 use zkstd::common::{Group, IntGroup};
@@ -32,20 +32,19 @@ impl<C: CircuitDriver> NifsCircuit<C> {
         let r_t = commit_t.scalar_point(cs, &r);
         let e_fold = u_range.commit_e.add(&r_t, cs);
 
-        let r_bn = f_to_nat(&r.value(cs));
         let m_bn = BigInt::from_str_radix(C::ORDER_STR, 16).unwrap();
         let r_bn_ass =
             BigNatAssignment::witness_from_field_assignment(cs, &r, BN_LIMB_WIDTH, BN_N_LIMBS);
-        let m_bn_ass = BigNatAssignment::witness_from_big_int(cs, m_bn, BN_LIMB_WIDTH, BN_N_LIMBS);
+        let m_bn_ass = BigNatAssignment::constant(m_bn, BN_LIMB_WIDTH, BN_N_LIMBS);
 
         // u_fold = U.u + r
         let u_fold = FieldAssignment::witness(cs, u_range.u.value(cs) + r.value(cs));
         FieldAssignment::enforce_eq_constant(cs, &(&(&u_fold - &u_range.u) - &r), &C::Base::zero());
 
         // Fold U.x0 + r * x0
-        let x0_single_bn = BigNatAssignment::witness_from_big_int(
+        let x0_single_bn = BigNatAssignment::witness_from_field_assignment(
             cs,
-            f_to_nat(&u_single.x0.value(cs)),
+            &u_single.x0,
             BN_LIMB_WIDTH,
             BN_N_LIMBS,
         );
@@ -53,9 +52,9 @@ impl<C: CircuitDriver> NifsCircuit<C> {
         let x0_fold = u_range.x0.add(&r_x0).red_mod(cs, &m_bn_ass);
 
         // Fold U.x1 + r * x1
-        let x1_single_bn = BigNatAssignment::witness_from_big_int(
+        let x1_single_bn = BigNatAssignment::witness_from_field_assignment(
             cs,
-            f_to_nat(&u_single.x1.value(cs)),
+            &u_single.x1,
             BN_LIMB_WIDTH,
             BN_N_LIMBS,
         );
diff --git a/nova/src/gadget/big_nat.rs b/nova/src/gadget/big_nat.rs
index 156ac84..a5b556f 100644
--- a/nova/src/gadget/big_nat.rs
+++ b/nova/src/gadget/big_nat.rs
@@ -92,6 +92,16 @@ impl BigNatParams {
 }
 
 impl<F: PrimeField> BigNatAssignment<F> {
+    pub fn constant(num: BigInt, limb_width: usize, n_limbs: usize) -> Self {
+        let limbs = nat_to_limbs::<F>(&num, limb_width, n_limbs);
+        let limbs = limbs.iter().map(FieldAssignment::constant).collect();
+
+        Self {
+            limbs,
+            params: BigNatParams::new(limb_width, n_limbs),
+        }
+    }
+
     pub fn witness_from_big_int<C: CircuitDriver<Scalar = F>>(
         cs: &mut R1cs<C>,
         num: BigInt,
-- 
2.43.0


From 51044bd6f765a5ae052c91e9ae366ff17d476caa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:11:40 +0000
Subject: [PATCH 44/44] fix: instance of the base case was a free witness

---
 nova/src/circuit/augmented.rs       |  2 +-
 nova/src/gadget/relaxed_instance.rs | 15 ++++++++++++++-
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/nova/src/circuit/augmented.rs b/nova/src/circuit/augmented.rs
index e5643b5..6e49442 100644
--- a/nova/src/circuit/augmented.rs
+++ b/nova/src/circuit/augmented.rs
@@ -59,7 +59,7 @@ impl<C: CircuitDriver, FC: FunctionCircuit<C::Base>> AugmentedFCircuit<C, FC> {
             .collect::<Vec<_>>();
 
         let u_dummy_native = RelaxedR1csInstance::<C>::dummy(2);
-        let u_dummy = RelaxedR1csInstanceAssignment::witness(cs, &u_dummy_native);
+        let u_dummy = RelaxedR1csInstanceAssignment::dummy();
         let u_single = R1csInstanceAssignment::witness(
             cs,
             &self
diff --git a/nova/src/gadget/relaxed_instance.rs b/nova/src/gadget/relaxed_instance.rs
index 2f9385f..dc8bde2 100644
--- a/nova/src/gadget/relaxed_instance.rs
+++ b/nova/src/gadget/relaxed_instance.rs
@@ -5,10 +5,11 @@ use crate::driver::scalar_as_base;
 use crate::gadget::big_nat::{BigNatAssignment, BN_LIMB_WIDTH, BN_N_LIMBS};
 use crate::gadget::{f_to_nat, R1csInstanceAssignment};
 use crate::hash::{HASH_BITS, MIMC_ROUNDS};
+use num_bigint::BigInt;
 use zkstd::circuit::prelude::{
     BinaryAssignment, CircuitDriver, FieldAssignment, PointAssignment, R1cs,
 };
-use zkstd::common::{CurveGroup, Ring};
+use zkstd::common::{CurveGroup, IntGroup, Ring};
 
 #[derive(Clone)]
 pub(crate) struct RelaxedR1csInstanceAssignment<C: CircuitDriver> {
@@ -58,6 +59,18 @@ impl<C: CircuitDriver> RelaxedR1csInstanceAssignment<C> {
         }
     }
 
+    /// the instance no step has been folded into
+    pub(crate) fn dummy() -> Self {
+        let zero = BigNatAssignment::constant(BigInt::from(0), BN_LIMB_WIDTH, BN_N_LIMBS);
+        Self {
+            commit_w: PointAssignment::identity(),
+            commit_e: PointAssignment::identity(),
+            u: FieldAssignment::constant(&C::Base::zero()),
+            x0: zero.clone(),
+            x1: zero,
+        }
+    }
+
     /// E = 0, u = 1
     pub fn from_r1cs_instance<CS: CircuitDriver<Scalar = C::Base>>(
         cs: &mut R1cs<CS>,
-- 
2.43.0

