From 95e50058336244ac866831d5517b6354f822f194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:20 +0000
Subject: [PATCH 01/20] fix: propagate every carry of the cross products in
 limb squaring

bits_256::square dropped the carry out of the sixth limb and bits_384::square
those out of the eighth and tenth, so squaring returned a wrong value for
operands whose cross-product sum has an all-ones limb there.
---
 zkstd/src/arithmetic/limbs/bits_256/normal.rs |  4 +++-
 zkstd/src/arithmetic/limbs/bits_384/normal.rs | 12 ++++++++++--
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/zkstd/src/arithmetic/limbs/bits_256/normal.rs b/zkstd/src/arithmetic/limbs/bits_256/normal.rs
index cdfafad..f5dd3ae 100644
--- a/zkstd/src/arithmetic/limbs/bits_256/normal.rs
+++ b/zkstd/src/arithmetic/limbs/bits_256/normal.rs
@@ -136,7 +136,9 @@ pub const fn square(a: [u64; 4], p: [u64; 4], inv: u64) -> [u64; 4] {
     let (l3, c) = (s as u64, (s >> 64) as u64);
     let s = l4 as u128 + c as u128;
     let (l4, c) = (s as u64, (s >> 64) as u64);
-    let l5 = l5.wrapping_add(c);
+    let s = l5 as u128 + c as u128;
+    let (l5, c) = (s as u64, (s >> 64) as u64);
+    let l6 = l6.wrapping_add(c);
 
     let l7 = l6 >> 63;
     let l6 = (l6 << 1) | (l5 >> 63);
diff --git a/zkstd/src/arithmetic/limbs/bits_384/normal.rs b/zkstd/src/arithmetic/limbs/bits_384/normal.rs
index 61801ae..1b9b70b 100644
--- a/zkstd/src/arithmetic/limbs/bits_384/normal.rs
+++ b/zkstd/src/arithmetic/limbs/bits_384/normal.rs
@@ -225,13 +225,21 @@ pub const fn square(a: [u64; 6], p: [u64; 6], inv: u64) -> [u64; 6] {
     let (l7, c) = (s as u64, (s >> 64) as u64);
     let s = l8 as u128 + c as u128;
     let (l8, c) = (s as u64, (s >> 64) as u64);
-    let l9 = l9.wrapping_add(c);
+    let s = l9 as u128 + c as u128;
+    let (l9, c) = (s as u64, (s >> 64) as u64);
+    let l10 = l10.wrapping_add(c);
 
     let s = a[2] as u128 * a[3] as u128 + l5 as u128;
     let (l5, c) = (s as u64, (s >> 64) as u64);
     let s = l6 as u128 + c as u128;
     let (l6, c) = (s as u64, (s >> 64) as u64);
-    let l7 = l7.wrapping_add(c);
+    let s = l7 as u128 + c as u128;
+    let (l7, c) = (s as u64, (s >> 64) as u64);
+    let s = l8 as u128 + c as u128;
+    let (l8, c) = (s as u64, (s >> 64) as u64);
+    let s = l9 as u128 + c as u128;
+    let (l9, c) = (s as u64, (s >> 64) as u64);
+    let l10 = l10.wrapping_add(c);
 
     let l11 = l10 >> 63;
     let l10 = (l10 << 1) | (l9 >> 63);
-- 
2.43.0


From 96e01b50e38293eefc44647f3747d964d55c148a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:15 +0000
Subject: [PATCH 02/20] fix: negating a field element by reference recursed
 without end

---
 zkstd/src/macros/field/group.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zkstd/src/macros/field/group.rs b/zkstd/src/macros/field/group.rs
index f183321..d308d73 100644
--- a/zkstd/src/macros/field/group.rs
+++ b/zkstd/src/macros/field/group.rs
@@ -128,7 +128,7 @@ macro_rules! group_operation {
             type Output = $field;
 
             fn neg(self) -> $field {
-                -self
+                $field(neg(self.0, $p))
             }
         }
 
-- 
2.43.0


From 60acfda48813af79d006a6d0980b3ee01161c963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:15 +0000
Subject: [PATCH 03/20] fix: the additive identity of a prime field is zero,
 not one

---
 zkstd/src/macros/field/group.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zkstd/src/macros/field/group.rs b/zkstd/src/macros/field/group.rs
index d308d73..d29a180 100644
--- a/zkstd/src/macros/field/group.rs
+++ b/zkstd/src/macros/field/group.rs
@@ -4,7 +4,7 @@ macro_rules! group_operation {
     ($field:ident, $p:ident, $g:ident, $r:ident, $r2:ident, $r3:ident, $inv:ident) => {
         impl Group for $field {
             const ADDITIVE_GENERATOR: Self = $field($g);
-            const ADDITIVE_IDENTITY: Self = $field($r);
+            const ADDITIVE_IDENTITY: Self = $field(zero());
 
             fn invert(self) -> Option<Self> {
                 match invert(self.0, little_fermat($p), $r, $p, $inv) {
-- 
2.43.0


From 730f2171f4dfa70d3a4002791c66395b382713c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:15 +0000
Subject: [PATCH 04/20] fix: ff::Field::invert of zero is none, not one

---
 bn254/src/ff_compat.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bn254/src/ff_compat.rs b/bn254/src/ff_compat.rs
index aad5d99..f0ecc8e 100644
--- a/bn254/src/ff_compat.rs
+++ b/bn254/src/ff_compat.rs
@@ -64,7 +64,7 @@ mod fr {
         }
 
         fn invert(&self) -> CtOption<Self> {
-            let tmp = <Self as zkstd::common::Group>::invert(*self).unwrap_or_default();
+            let tmp = <Self as zkstd::common::Group>::invert(*self).unwrap_or(Self::zero());
             CtOption::new(tmp, !tmp.ct_eq(&Self::zero()))
         }
 
@@ -231,7 +231,7 @@ mod fq {
         }
 
         fn invert(&self) -> CtOption<Self> {
-            let tmp = <Self as zkstd::common::Group>::invert(*self).unwrap_or_default();
+            let tmp = <Self as zkstd::common::Group>::invert(*self).unwrap_or(Self::zero());
             CtOption::new(tmp, !tmp.ct_eq(&Self::zero()))
         }
 
-- 
2.43.0


From 01a7f7b3732508e78dabd8e343c2afc3b2ea1689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:50 +0000
Subject: [PATCH 05/20] fix: ff::PrimeField::from_repr accepted non-canonical
 representations

---
 bn254/src/ff_compat.rs | 34 ++++++++++++----------------------
 1 file changed, 12 insertions(+), 22 deletions(-)

diff --git a/bn254/src/ff_compat.rs b/bn254/src/ff_compat.rs
index f0ecc8e..2b9a71e 100644
--- a/bn254/src/ff_compat.rs
+++ b/bn254/src/ff_compat.rs
@@ -1,9 +1,8 @@
 mod fr {
-    use crate::fr::{INV, MODULUS, R2, S};
+    use crate::fr::{MODULUS, S};
     use crate::{Fr, MULTIPLICATIVE_GENERATOR, ROOT_OF_UNITY};
     use ff::derive::subtle::{Choice, ConditionallySelectable, ConstantTimeEq, CtOption};
     use ff::PrimeField;
-    use zkstd::arithmetic::bits_256::*;
     use zkstd::common::*;
 
     const ROOT_OF_UNITY_INV: Fr = Fr::to_mont_form([
@@ -77,16 +76,12 @@ mod fr {
         type Repr = [u8; 32];
 
         fn from_repr(repr: Self::Repr) -> CtOption<Self> {
-            let mut tmp = Fr([0, 0, 0, 0]);
+            let tmp = <Self as SigUtils<32>>::from_bytes(repr);
 
-            tmp.0[0] = u64::from_le_bytes(repr[0..8].try_into().unwrap());
-            tmp.0[1] = u64::from_le_bytes(repr[8..16].try_into().unwrap());
-            tmp.0[2] = u64::from_le_bytes(repr[16..24].try_into().unwrap());
-            tmp.0[3] = u64::from_le_bytes(repr[24..32].try_into().unwrap());
-
-            tmp = Fr(to_mont_form(tmp.0, R2, MODULUS, INV));
-
-            CtOption::new(tmp, Choice::from(1))
+            CtOption::new(
+                tmp.unwrap_or(Self::zero()),
+                Choice::from(tmp.is_some() as u8),
+            )
         }
 
         fn to_repr(&self) -> Self::Repr {
@@ -161,11 +156,10 @@ mod fr {
 }
 
 mod fq {
-    use crate::fq::{GENERATOR, INV, MODULUS, R2};
+    use crate::fq::{GENERATOR, MODULUS};
     use crate::Fq;
     use ff::derive::subtle::{Choice, ConditionallySelectable, ConstantTimeEq, CtOption};
     use ff::PrimeField;
-    use zkstd::arithmetic::bits_256::*;
     use zkstd::common::*;
 
     const TWO_INV: Fq = Fq::to_mont_form([
@@ -244,16 +238,12 @@ mod fq {
         type Repr = [u8; 32];
 
         fn from_repr(repr: Self::Repr) -> CtOption<Self> {
-            let mut tmp = Fq([0, 0, 0, 0]);
-
-            tmp.0[0] = u64::from_le_bytes(repr[0..8].try_into().unwrap());
-            tmp.0[1] = u64::from_le_bytes(repr[8..16].try_into().unwrap());
-            tmp.0[2] = u64::from_le_bytes(repr[16..24].try_into().unwrap());
-            tmp.0[3] = u64::from_le_bytes(repr[24..32].try_into().unwrap());
-
-            tmp = Fq(to_mont_form(tmp.0, R2, MODULUS, INV));
+            let tmp = <Self as SigUtils<32>>::from_bytes(repr);
 
-            CtOption::new(tmp, Choice::from(1))
+            CtOption::new(
+                tmp.unwrap_or(Self::zero()),
+                Choice::from(tmp.is_some() as u8),
+            )
         }
 
         fn to_repr(&self) -> Self::Repr {
-- 
2.43.0


From d55a204fae79dcffb5607409c35e45d718afaed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:31 +0000
Subject: [PATCH 06/20] fix: SCALE decoding of a field element accepted
 non-canonical limbs

---
 bn254/src/fq.rs | 14 +++++++++++++-
 bn254/src/fr.rs | 14 +++++++++++++-
 2 files changed, 26 insertions(+), 2 deletions(-)

diff --git a/bn254/src/fq.rs b/bn254/src/fq.rs
index ed73055..f2af8c7 100644
--- a/bn254/src/fq.rs
+++ b/bn254/src/fq.rs
@@ -1,6 +1,7 @@
 use crate::Fr;
 use core::borrow::Borrow;
 use core::iter::{Product, Sum};
+use parity_scale_codec::{Error, Input};
 use zkstd::arithmetic::bits_256::*;
 use zkstd::common::*;
 use zkstd::macros::field::*;
@@ -44,9 +45,20 @@ pub(crate) const R3: [u64; 4] = [
 pub(crate) const INV: u64 = 0x87d20782e4866389;
 
 /// bn254 curve base field
-#[derive(Clone, Copy, Decode, Encode, Serialize, Deserialize)]
+#[derive(Clone, Copy, Encode, Serialize, Deserialize)]
 pub struct Fq(pub(crate) [u64; 4]);
 
+impl Decode for Fq {
+    fn decode<I: Input>(input: &mut I) -> Result<Self, Error> {
+        let limbs = <[u64; 4]>::decode(input)?;
+        if limbs.iter().rev().lt(MODULUS.iter().rev()) {
+            Ok(Self(limbs))
+        } else {
+            Err("field element is not canonical".into())
+        }
+    }
+}
+
 impl SigUtils<32> for Fq {
     fn to_bytes(self) -> [u8; Self::LENGTH] {
         let tmp = self.montgomery_reduce();
diff --git a/bn254/src/fr.rs b/bn254/src/fr.rs
index ca2c17b..5235ca4 100644
--- a/bn254/src/fr.rs
+++ b/bn254/src/fr.rs
@@ -3,6 +3,7 @@ use crate::fqn::Fq2;
 
 use core::borrow::Borrow;
 use core::iter::{Product, Sum};
+use parity_scale_codec::{Error, Input};
 use zkstd::arithmetic::bits_256::*;
 use zkstd::common::*;
 use zkstd::macros::field::*;
@@ -67,9 +68,20 @@ pub const ROOT_OF_UNITY: Fr = Fr::to_mont_form([
 pub const TWO_ADACITY: u32 = 32;
 
 /// Bn254 curve scalar field
-#[derive(Clone, Copy, Decode, Encode, Serialize, Deserialize)]
+#[derive(Clone, Copy, Encode, Serialize, Deserialize)]
 pub struct Fr(pub [u64; 4]);
 
+impl Decode for Fr {
+    fn decode<I: Input>(input: &mut I) -> Result<Self, Error> {
+        let limbs = <[u64; 4]>::decode(input)?;
+        if limbs.iter().rev().lt(MODULUS.iter().rev()) {
+            Ok(Self(limbs))
+        } else {
+            Err("field element is not canonical".into())
+        }
+    }
+}
+
 impl SigUtils<32> for Fr {
     fn to_bytes(self) -> [u8; Self::LENGTH] {
         let tmp = self.montgomery_reduce();
-- 
2.43.0


From 03f530acb606269a07748ce1a22280aba9bc9354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:40 +0000
Subject: [PATCH 07/20] fix: reference forms of the extension-field operators
 computed another operation or recursed without end

---
 zkstd/src/macros/extension_field/group.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/zkstd/src/macros/extension_field/group.rs b/zkstd/src/macros/extension_field/group.rs
index 41d2aaf..4645e14 100644
--- a/zkstd/src/macros/extension_field/group.rs
+++ b/zkstd/src/macros/extension_field/group.rs
@@ -82,7 +82,7 @@ macro_rules! ext_field_group_operation {
 
         impl<'b> AddAssign<&'b $extension_field> for $extension_field {
             fn add_assign(&mut self, rhs: &'b $extension_field) {
-                *self = *self + rhs;
+                *self = *self + *rhs;
             }
         }
 
@@ -90,7 +90,7 @@ macro_rules! ext_field_group_operation {
             type Output = $extension_field;
 
             fn add(self, rhs: &'b $extension_field) -> Self {
-                self + rhs
+                self + *rhs
             }
         }
 
@@ -136,7 +136,7 @@ macro_rules! ext_field_group_operation {
             type Output = $extension_field;
 
             fn sub(self, rhs: &'b $extension_field) -> $extension_field {
-                *self * *rhs
+                *self - *rhs
             }
         }
 
@@ -144,7 +144,7 @@ macro_rules! ext_field_group_operation {
             type Output = $extension_field;
 
             fn sub(self, rhs: &'b $extension_field) -> $extension_field {
-                self * *rhs
+                self - *rhs
             }
         }
 
@@ -152,7 +152,7 @@ macro_rules! ext_field_group_operation {
             type Output = $extension_field;
 
             fn sub(self, rhs: $extension_field) -> $extension_field {
-                *self * rhs
+                *self - rhs
             }
         }
 
@@ -173,7 +173,7 @@ macro_rules! ext_field_group_operation {
 
         impl<'b> MulAssign<&'b $extension_field> for $extension_field {
             fn mul_assign(&mut self, rhs: &'b $extension_field) {
-                *self = &*self * rhs;
+                *self = *self * *rhs;
             }
         }
 
@@ -181,7 +181,7 @@ macro_rules! ext_field_group_operation {
             type Output = $extension_field;
 
             fn mul(self, rhs: &'b $extension_field) -> $extension_field {
-                *self + *rhs
+                *self * *rhs
             }
         }
 
@@ -189,7 +189,7 @@ macro_rules! ext_field_group_operation {
             type Output = $extension_field;
 
             fn mul(self, rhs: &'b $extension_field) -> $extension_field {
-                self + *rhs
+                self * *rhs
             }
         }
 
-- 
2.43.0


From ad511e0d3a8e0e7a8a76b94c3c8c30f43e13f72d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:40 +0000
Subject: [PATCH 08/20] fix: subtracting an extended point from an affine point
 by reference added it

---
 zkstd/src/macros/curve.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/zkstd/src/macros/curve.rs b/zkstd/src/macros/curve.rs
index 236bad1..a0224f1 100644
--- a/zkstd/src/macros/curve.rs
+++ b/zkstd/src/macros/curve.rs
@@ -159,7 +159,7 @@ macro_rules! mixed_curve_operations {
             type Output = $extended;
 
             fn sub(self, rhs: &'b $extended) -> $extended {
-                *self + *rhs
+                *self - *rhs
             }
         }
 
@@ -167,7 +167,7 @@ macro_rules! mixed_curve_operations {
             type Output = $extended;
 
             fn sub(self, rhs: &'b $extended) -> $extended {
-                &self + rhs
+                &self - rhs
             }
         }
 
@@ -175,7 +175,7 @@ macro_rules! mixed_curve_operations {
             type Output = $extended;
 
             fn sub(self, rhs: $extended) -> $extended {
-                self + &rhs
+                self - &rhs
             }
         }
 
-- 
2.43.0


From aeecb8350e2ffd785d69568fdcfa9b2653314b87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:40 +0000
Subject: [PATCH 09/20] fix: doubling the affine identity gave a finite point

---
 zkstd/src/arithmetic/points/weierstrass.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/zkstd/src/arithmetic/points/weierstrass.rs b/zkstd/src/arithmetic/points/weierstrass.rs
index 356f6d6..73a07c3 100644
--- a/zkstd/src/arithmetic/points/weierstrass.rs
+++ b/zkstd/src/arithmetic/points/weierstrass.rs
@@ -37,6 +37,10 @@ pub fn add_affine_point<A: BNAffine>(lhs: A, rhs: A) -> A::Extended {
 /// weierstrass affine coordinate doubling
 #[inline(always)]
 pub fn double_affine_point<A: BNAffine>(point: A) -> A::Extended {
+    if point.is_identity() {
+        return A::Extended::ADDITIVE_IDENTITY;
+    }
+
     // Algorithm 9, https://eprint.iacr.org/2015/1060.pdf
     let b3 = <A as BNCurve>::PARAM_3B;
     let (x, y) = (point.get_x(), point.get_y());
-- 
2.43.0


From cbb2e7cab8f9a0908eed2488a4031a3e0b3ad2e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:29 +0000
Subject: [PATCH 10/20] fix: Edwards is_on_curve accepted x = 0 off the curve
 and extended points with z = 0

---
 zkstd/src/macros/curve/edwards/group.rs | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/zkstd/src/macros/curve/edwards/group.rs b/zkstd/src/macros/curve/edwards/group.rs
index 8948ae1..df3ff3b 100644
--- a/zkstd/src/macros/curve/edwards/group.rs
+++ b/zkstd/src/macros/curve/edwards/group.rs
@@ -43,13 +43,9 @@ macro_rules! twisted_edwards_affine_group_operation {
             }
 
             fn is_on_curve(self) -> bool {
-                if self.x.is_zero() {
-                    true
-                } else {
-                    let xx = self.x.square();
-                    let yy = self.y.square();
-                    yy == $range::one() + Self::PARAM_D * xx * yy + xx
-                }
+                let xx = self.x.square();
+                let yy = self.y.square();
+                yy == $range::one() + Self::PARAM_D * xx * yy + xx
             }
 
             fn get_x(&self) -> Self::Base {
@@ -129,7 +125,7 @@ macro_rules! twisted_edwards_extend_group_operation {
 
             fn is_on_curve(self) -> bool {
                 if self.z.is_zero() {
-                    true
+                    false
                 } else {
                     let affine = $affine::from(self);
                     affine.is_on_curve()
-- 
2.43.0


From 380afada3db326dd18d2741fd692f685906d51de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:26 +0000
Subject: [PATCH 11/20] fix: constrain the outputs of BinaryAssignment::not and
 BinaryAssignment::and

---
 zkstd/src/circuit/gadget/binary.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/zkstd/src/circuit/gadget/binary.rs b/zkstd/src/circuit/gadget/binary.rs
index bcb86a8..8cdf84e 100644
--- a/zkstd/src/circuit/gadget/binary.rs
+++ b/zkstd/src/circuit/gadget/binary.rs
@@ -1,6 +1,7 @@
 use crate::circuit::prelude::FieldAssignment;
 use crate::circuit::CircuitDriver;
 use crate::common::{IntGroup, Ring};
+use crate::matrix::SparseRow;
 use crate::r1cs::{R1cs, Wire};
 
 #[derive(Clone, Debug)]
@@ -45,6 +46,11 @@ impl BinaryAssignment {
         };
 
         cs.w.push(new_val);
+        cs.sub_gate(
+            &SparseRow::one(),
+            &SparseRow::from(b.0),
+            &SparseRow::from(wire),
+        );
 
         Self(wire)
     }
@@ -60,6 +66,11 @@ impl BinaryAssignment {
         };
 
         cs.w.push(a_and_b);
+        cs.mul_gate(
+            &SparseRow::from(a.0),
+            &SparseRow::from(b.0),
+            &SparseRow::from(wire),
+        );
 
         Self(wire)
     }
-- 
2.43.0


From b8062b43e13bc11998dc177d835ab98c3b3cc55b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:26 +0000
Subject: [PATCH 12/20] fix: constrain the inverse witnessed by
 PointAssignment::descale

---
 zkstd/src/circuit/gadget/curve.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/zkstd/src/circuit/gadget/curve.rs b/zkstd/src/circuit/gadget/curve.rs
index d6d61a4..014398b 100644
--- a/zkstd/src/circuit/gadget/curve.rs
+++ b/zkstd/src/circuit/gadget/curve.rs
@@ -35,6 +35,8 @@ impl<F: PrimeField> PointAssignment<F> {
         let take_value =
             FieldAssignment::is_neq(cs, &self.z, &FieldAssignment::constant(&F::zero()));
         let inv = FieldAssignment::witness(cs, self.z.value(cs).invert().unwrap_or_else(F::zero));
+        let z_inv = FieldAssignment::mul(cs, &self.z, &inv);
+        FieldAssignment::enforce_eq(cs, &z_inv, &FieldAssignment::from(&take_value));
 
         let p = Self {
             x: FieldAssignment::mul(cs, &self.x, &inv),
-- 
2.43.0


From 5f40908c4c00896568cf2218602170ccf1087640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:26 +0000
Subject: [PATCH 13/20] fix: FieldAssignment::to_bits constrains the bits to
 the value

---
 zkstd/src/circuit/gadget/field.rs | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/zkstd/src/circuit/gadget/field.rs b/zkstd/src/circuit/gadget/field.rs
index 131d9db..0b019fd 100644
--- a/zkstd/src/circuit/gadget/field.rs
+++ b/zkstd/src/circuit/gadget/field.rs
@@ -169,15 +169,13 @@ impl<F: PrimeField> FieldAssignment<F> {
             .to_bits()
             .iter()
             .map(|b| BinaryAssignment::witness(cs, *b))
-            .skip(256 - num_bits) // TODO: Decide on how to store bits. LE or BE
             .collect();
-        if num_bits < C::NUM_BITS as usize {
-            FieldAssignment::range_check_bits(cs, &bit_repr, num_bits as u64);
-        } else {
-            FieldAssignment::range_check(cs, &bit_repr, bound);
-        }
+        // the bits are boolean, canonical and sum to the value
+        FieldAssignment::range_check(cs, &bit_repr, bound);
+        FieldAssignment::enforce_eq_bits(cs, x, &bit_repr);
 
-        bit_repr
+        // TODO: Decide on how to store bits. LE or BE
+        bit_repr.into_iter().skip(256 - num_bits).collect()
     }
 
     pub fn enforce_eq<C: CircuitDriver<Scalar = F>>(cs: &mut R1cs<C>, x: &Self, y: &Self) {
-- 
2.43.0


From 02a9bc68a9859b8c91901486c462689d9c92e24e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:26 +0000
Subject: [PATCH 14/20] fix: FieldAssignment::range_check with bound zero no
 longer panics

---
 zkstd/src/circuit/gadget/field.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/zkstd/src/circuit/gadget/field.rs b/zkstd/src/circuit/gadget/field.rs
index 0b019fd..1cd20b6 100644
--- a/zkstd/src/circuit/gadget/field.rs
+++ b/zkstd/src/circuit/gadget/field.rs
@@ -103,6 +103,10 @@ impl<F: PrimeField> FieldAssignment<F> {
             FieldAssignment::enforce_eq_constant(cs, &FieldAssignment::from(bit), &F::zero());
         }
 
+        if c_bits.is_empty() {
+            return;
+        }
+
         let a_bits = a_bits
             .iter()
             .skip(a_bits.len() - c_bits.len())
-- 
2.43.0


From fd23a90d1d2ea9a2f85629f97d86e7c60a700243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:05:33 +0000
Subject: [PATCH 15/20] fix: constrain the public wire of
 FieldAssignment::inputize to the witnessed value

---
 zkstd/src/circuit/gadget/field.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/zkstd/src/circuit/gadget/field.rs b/zkstd/src/circuit/gadget/field.rs
index 1cd20b6..7dad1aa 100644
--- a/zkstd/src/circuit/gadget/field.rs
+++ b/zkstd/src/circuit/gadget/field.rs
@@ -30,7 +30,9 @@ impl<F: PrimeField> FieldAssignment<F> {
         let value = witness.inner().evaluate(&cs.x, &cs.w);
         cs.x.push(value);
 
-        Self(SparseRow::from(wire))
+        let instance = Self(SparseRow::from(wire));
+        Self::enforce_eq(cs, &witness, &instance);
+        instance
     }
 
     pub fn value<C: CircuitDriver<Scalar = F>>(&self, cs: &R1cs<C>) -> F {
-- 
2.43.0


From febc82858f0de068e19c32f972ccad9bae482067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:10 +0000
Subject: [PATCH 16/20] fix: subtract polynomials in the right order when the
 subtrahend is not shorter

---
 groth16/src/poly.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/groth16/src/poly.rs b/groth16/src/poly.rs
index e7d8f11..45c5129 100644
--- a/groth16/src/poly.rs
+++ b/groth16/src/poly.rs
@@ -213,12 +213,13 @@ impl<F: FftField> Sub for Coefficients<F> {
 
     fn sub(self, rhs: Self) -> Self::Output {
         let zero = F::zero();
-        let (left, right) = if self.0.len() > rhs.0.len() {
-            (self.0.iter(), rhs.0.iter().chain(iter::repeat(&zero)))
+        Self::new(if self.0.len() > rhs.0.len() {
+            let (left, right) = (self.0.iter(), rhs.0.iter().chain(iter::repeat(&zero)));
+            left.zip(right).map(|(a, b)| *a - *b).collect()
         } else {
-            (rhs.0.iter(), self.0.iter().chain(iter::repeat(&zero)))
-        };
-        Self::new(left.zip(right).map(|(a, b)| *a - *b).collect())
+            let (left, right) = (self.0.iter().chain(iter::repeat(&zero)), rhs.0.iter());
+            left.zip(right).map(|(a, b)| *a - *b).collect()
+        })
     }
 }
 
-- 
2.43.0


From 209c16d9a10473d4cbce4d4d34790e390abb61ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:10 +0000
Subject: [PATCH 17/20] fix: size the Groth16 parameters by the padded
 evaluation domain

---
 groth16/src/prover.rs  | 2 +-
 groth16/src/zksnark.rs | 7 ++++---
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/groth16/src/prover.rs b/groth16/src/prover.rs
index 678ff26..91ea8c6 100644
--- a/groth16/src/prover.rs
+++ b/groth16/src/prover.rs
@@ -25,7 +25,7 @@ impl Prover {
         let mut cs = R1cs::default();
         circuit.synthesize(&mut cs)?;
 
-        let size = cs.m().next_power_of_two();
+        let size = cs.m().max(2).next_power_of_two();
         let k = size.trailing_zeros();
         let vk = self.params.vk.clone();
 
diff --git a/groth16/src/zksnark.rs b/groth16/src/zksnark.rs
index f20d93a..8437b3f 100644
--- a/groth16/src/zksnark.rs
+++ b/groth16/src/zksnark.rs
@@ -20,7 +20,8 @@ impl ZkSnark {
 
         circuit.synthesize(&mut cs)?;
 
-        let size = cs.m().next_power_of_two();
+        // evaluation domain size, the fft needs at least two elements
+        let size = cs.m().max(2).next_power_of_two();
         let k = size.trailing_zeros();
         let fft = Fft::<Fr>::new(k as usize);
 
@@ -37,10 +38,10 @@ impl ZkSnark {
         let gamma_inverse = gamma.invert().ok_or(Error::ProverInversionFailed)?;
         let delta_inverse = delta.invert().ok_or(Error::ProverInversionFailed)?;
 
-        let mut h = vec![G1Affine::ADDITIVE_IDENTITY; (cs.m() - 1) as usize];
+        let mut h = vec![G1Affine::ADDITIVE_IDENTITY; (size - 1) as usize];
 
         // Compute (1, tau, tau^2, ...)
-        let mut powers_of_tau = PointsValue(vec![Fr::zero(); cs.m() as usize]);
+        let mut powers_of_tau = PointsValue(vec![Fr::zero(); size as usize]);
         let mut current_pow_of_tau = Fr::one();
         for x in powers_of_tau.0.iter_mut() {
             *x = current_pow_of_tau;
-- 
2.43.0


From 988eb00c7e896993a123ef041de2999ad2d31dba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:14:37 +0000
Subject: [PATCH 18/20] fix: reject relaxed witnesses whose vectors do not have
 the length of the structure

---
 nova/src/relaxed_r1cs.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/nova/src/relaxed_r1cs.rs b/nova/src/relaxed_r1cs.rs
index 476e318..27e2e72 100644
--- a/nova/src/relaxed_r1cs.rs
+++ b/nova/src/relaxed_r1cs.rs
@@ -77,6 +77,11 @@ impl<C: CircuitDriver> R1csShape<C> {
         self.witness_length
     }
 
+    /// instance and witness vectors are as long as the structure demands
+    fn has_lengths_of(&self, x: &DenseVectors<C::Scalar>, w: &DenseVectors<C::Scalar>) -> bool {
+        x.len() as u64 == self.instance_length && w.len() as u64 == self.witness_length
+    }
+
     ///  check (A · Z) ◦ (B · Z) = u · (C · Z) + E
     pub fn is_sat_relaxed(
         &self,
@@ -93,6 +98,10 @@ impl<C: CircuitDriver> R1csShape<C> {
         } = instance;
         let RelaxedR1csWitness { w, e } = witness;
 
+        if !self.has_lengths_of(x, w) || e.len() != *m as usize {
+            return false;
+        }
+
         let l = x.len() + 1;
         let z = DenseVectors::new(vec![vec![*u], x.get(), w.get()].concat());
         // A · Z
@@ -125,6 +134,10 @@ impl<C: CircuitDriver> R1csShape<C> {
         let R1csInstance { commit_w, x } = instance;
         let R1csWitness { w } = witness;
 
+        if !self.has_lengths_of(x, w) {
+            return false;
+        }
+
         let l = x.len() + 1;
         let z = DenseVectors::new(vec![vec![C::Scalar::one()], x.get(), w.get()].concat());
         // A · Z
-- 
2.43.0


From f2cc3e21a9271279da51f1ee30a7efa915f34ffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:14:37 +0000
Subject: [PATCH 19/20] fix: recursive verifier accepted a proof whose states
 are split at another place

---
 nova/src/proof.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/nova/src/proof.rs b/nova/src/proof.rs
index 5bf15cf..dfa005f 100644
--- a/nova/src/proof.rs
+++ b/nova/src/proof.rs
@@ -54,6 +54,12 @@ where
         {
             return false;
         }
+        // the hash absorbs both states one after the other
+        if self.z0_primary.len() != self.zi_primary.len()
+            || self.z0_secondary.len() != self.zi_secondary.len()
+        {
+            return false;
+        }
         let (hash_primary, hash_secondary) = {
             (
                 u_range_secondary.hash::<E1>(self.i, &self.z0_primary, &self.zi_primary),
-- 
2.43.0


From 3c7b97bfd771a819c2ba6e9bbc33100816ef7070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:15:50 +0000
Subject: [PATCH 20/20] fix: recursive verifier did not open the commitments of
 the running instances

---
 nova/src/proof.rs                 |  7 +++++--
 nova/src/relaxed_r1cs/instance.rs | 10 ++++++++++
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/nova/src/proof.rs b/nova/src/proof.rs
index dfa005f..556654b 100644
--- a/nova/src/proof.rs
+++ b/nova/src/proof.rs
@@ -73,8 +73,11 @@ where
             return false;
         }
 
-        pp.r1cs_shape_primary
-            .is_sat_relaxed(&u_range_primary, &w_range_primary)
+        u_range_primary.is_opened_by(&pp.ck_primary, &w_range_primary)
+            && u_range_secondary.is_opened_by(&pp.ck_secondary, &w_range_secondary)
+            && pp
+                .r1cs_shape_primary
+                .is_sat_relaxed(&u_range_primary, &w_range_primary)
             && pp
                 .r1cs_shape_secondary
                 .is_sat_relaxed(&u_range_secondary, &w_range_secondary)
diff --git a/nova/src/relaxed_r1cs/instance.rs b/nova/src/relaxed_r1cs/instance.rs
index a0d5bc7..5a4c62d 100644
--- a/nova/src/relaxed_r1cs/instance.rs
+++ b/nova/src/relaxed_r1cs/instance.rs
@@ -1,6 +1,7 @@
 use crate::driver::scalar_as_base;
 use crate::gadget::{f_to_nat, nat_to_limbs, BN_LIMB_WIDTH, BN_N_LIMBS};
 use crate::hash::{MimcRO, HASH_BITS, MIMC_ROUNDS};
+use crate::relaxed_r1cs::RelaxedR1csWitness;
 use crate::{PedersenCommitment, R1csShape};
 use zkstd::circuit::prelude::CircuitDriver;
 use zkstd::common::{Decode, Encode, Group, IntGroup, Ring};
@@ -100,6 +101,15 @@ impl<C: CircuitDriver> RelaxedR1csInstance<C> {
         }
     }
 
+    /// check that the commitments open to the witness and the error vectors
+    pub(crate) fn is_opened_by(
+        &self,
+        ck: &PedersenCommitment<C::Affine>,
+        witness: &RelaxedR1csWitness<C>,
+    ) -> bool {
+        self.commit_w == ck.commit(&witness.w) && self.commit_e == ck.commit(&witness.e)
+    }
+
     pub(crate) fn absorb_by_transcript<const ROUNDS: usize>(
         &self,
         transcript: &mut MimcRO<ROUNDS, C>,
-- 
2.43.0

