From e213d1cf571237ec03792b6e62bc7c0efc73aec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:47 +0000
Subject: [PATCH 1/3] fix: sample the centered binomial distribution without
 secret-indexed table

Polynomial::sample_cbd looked the sampled integers up in a precomputed table,
so the addresses it read depended on the secret and error vectors of key
generation and on the randomness of encapsulation.  Compute the difference of
the two bit counts instead.
---
 ml-kem/src/algebra.rs | 17 ++++++++++++++++-
 ml-kem/src/param.rs   | 43 ++-----------------------------------------
 2 files changed, 18 insertions(+), 42 deletions(-)

diff --git a/ml-kem/src/algebra.rs b/ml-kem/src/algebra.rs
index dad1de0..3762712 100644
--- a/ml-kem/src/algebra.rs
+++ b/ml-kem/src/algebra.rs
@@ -134,6 +134,21 @@ impl Mul<&Polynomial> for FieldElement {
     }
 }
 
+// Map an integer of `2 * eta` bits to the number of ones in its low half, minus the number of ones
+// in its high half, mod q.
+//
+// The sampled integers are secret, so this must not be a table lookup: the address it reads would
+// depend on the secret.
+fn cbd_sample<Eta>(val: Integer) -> FieldElement
+where
+    Eta: CbdSamplingSize,
+{
+    let mask = (1 << Eta::USIZE) - 1;
+    let x: Integer = (val & mask).count_ones().truncate();
+    let y: Integer = (val >> Eta::USIZE).count_ones().truncate();
+    FieldElement(x) - FieldElement(y)
+}
+
 impl Polynomial {
     // Algorithm 7. SamplePolyCBD_eta(B)
     //
@@ -145,7 +160,7 @@ impl Polynomial {
         Eta: CbdSamplingSize,
     {
         let vals: Polynomial = Encode::<Eta::SampleSize>::decode(B);
-        Self(vals.0.iter().map(|val| Eta::ONES[val.0 as usize]).collect())
+        Self(vals.0.iter().map(|val| cbd_sample::<Eta>(val.0)).collect())
     }
 }
 
diff --git a/ml-kem/src/param.rs b/ml-kem/src/param.rs
index 2a9497c..7fa57ff 100644
--- a/ml-kem/src/param.rs
+++ b/ml-kem/src/param.rs
@@ -17,12 +17,12 @@ use hybrid_array::{
     typenum::{
         operator_aliases::{Gcf, Prod, Quot, Sum},
         type_operators::Gcd,
-        Const, ToUInt, U0, U12, U16, U2, U3, U32, U384, U4, U6, U64, U8,
+        U0, U12, U2, U3, U32, U384, U4, U6, U8,
     },
     Array,
 };
 
-use crate::algebra::{FieldElement, NttVector};
+use crate::algebra::NttVector;
 use crate::encode::Encode;
 use crate::util::{Flatten, Unflatten, B32};
 
@@ -94,53 +94,14 @@ where
 /// An integer that describes a bit length to be used in CBD sampling
 pub trait CbdSamplingSize: ArraySize {
     type SampleSize: EncodingSize;
-    type OnesSize: ArraySize;
-    const ONES: Array<FieldElement, Self::OnesSize>;
-}
-
-// To speed up CBD sampling, we pre-compute all the bit-manipulations:
-//
-// * Splitting a sampled integer into two parts
-// * Counting the ones in each part
-// * Taking the difference between the two counts mod q
-//
-// We have to allow the use of `as` here because we can't use our nice Truncate trait, because
-// const functions don't support traits.
-#[allow(clippy::cast_possible_truncation)]
-const fn ones_array<const B: usize, const N: usize, U>() -> Array<FieldElement, U>
-where
-    U: ArraySize<ArrayType<FieldElement> = [FieldElement; N]>,
-    Const<N>: ToUInt<Output = U>,
-{
-    let max = 1 << B;
-    let mut out = [FieldElement(0); N];
-    let mut x = 0usize;
-    while x < max {
-        let mut y = 0usize;
-        #[allow(clippy::integer_division_remainder_used)]
-        while y < max {
-            let x_ones = x.count_ones() as u16;
-            let y_ones = y.count_ones() as u16;
-            let i = x + (y << B);
-            out[i] = FieldElement((x_ones + FieldElement::Q - y_ones) % FieldElement::Q);
-
-            y += 1;
-        }
-        x += 1;
-    }
-    Array(out)
 }
 
 impl CbdSamplingSize for U2 {
     type SampleSize = U4;
-    type OnesSize = U16;
-    const ONES: Array<FieldElement, U16> = ones_array::<2, 16, U16>();
 }
 
 impl CbdSamplingSize for U3 {
     type SampleSize = U6;
-    type OnesSize = U64;
-    const ONES: Array<FieldElement, U64> = ones_array::<3, 64, U64>();
 }
 
 /// A `ParameterSet` captures the parameters that describe a particular instance of ML-KEM.  There
-- 
2.43.0


From f92b9b28d7651451b47c334e1a72808d4578e75c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:59 +0000
Subject: [PATCH 2/3] Add a monitor hook that marks rho as public, guarded by
 --cfg kem_monitor

---
 ml-kem/src/lib.rs     |  5 +++++
 ml-kem/src/monitor.rs | 18 ++++++++++++++++++
 ml-kem/src/pke.rs     |  4 ++++
 3 files changed, 27 insertions(+)
 create mode 100644 ml-kem/src/monitor.rs

diff --git a/ml-kem/src/lib.rs b/ml-kem/src/lib.rs
index 51b98d0..5bded28 100644
--- a/ml-kem/src/lib.rs
+++ b/ml-kem/src/lib.rs
@@ -9,6 +9,7 @@
 #![warn(clippy::integer_division_remainder_used)] // Be judicious about using `/` and `%`
 #![allow(non_snake_case)] // Allow notation matching the spec
 #![allow(clippy::clone_on_copy)] // Be explicit about moving data
+#![allow(unexpected_cfgs)] // Allow `cfg(kem_monitor)`
 #![deny(missing_docs)] // Require all public interfaces to be documented
 
 //! # Usage
@@ -42,6 +43,10 @@
 /// The inevitable utility module
 mod util;
 
+/// Hook for runtime monitors, compiled in only with `--cfg kem_monitor`
+#[cfg(kem_monitor)]
+mod monitor;
+
 /// Section 2.4. Interpreting the Pseudocode
 /// Section 4.2.2. Sampling algorithms
 /// Section 4.3. The Number-Theoretic Transform
diff --git a/ml-kem/src/monitor.rs b/ml-kem/src/monitor.rs
new file mode 100644
index 0000000..33b3e89
--- /dev/null
+++ b/ml-kem/src/monitor.rs
@@ -0,0 +1,18 @@
+//! A hook for runtime monitors.  It exists only in builds with `--cfg kem_monitor`, which are made
+//! by verification tooling; the program that links this crate then has to provide
+//! `kem_monitor_declassify`.
+
+use crate::util::B32;
+
+extern "C" {
+    fn kem_monitor_declassify(ptr: *mut u8, len: usize);
+}
+
+/// Returns its argument unchanged, after telling the monitor that the value is public, although
+/// it was derived from a secret.
+#[allow(unsafe_code)]
+pub(crate) fn declassified(mut value: B32) -> B32 {
+    // Safety: the pointer and length describe `value`, which is exclusively borrowed.
+    unsafe { kem_monitor_declassify(value.as_mut_ptr(), value.len()) };
+    value
+}
diff --git a/ml-kem/src/pke.rs b/ml-kem/src/pke.rs
index 571a1d6..f0869b2 100644
--- a/ml-kem/src/pke.rs
+++ b/ml-kem/src/pke.rs
@@ -41,6 +41,10 @@ where
         let k = P::K::U8;
         let (rho, sigma) = G(&[&d[..], &[k]]);
 
+        // Tell an attached monitor that rho is public from here on.
+        #[cfg(kem_monitor)]
+        let rho = crate::monitor::declassified(rho);
+
         // Sample pseudo-random matrix and vectors
         let A_hat: NttMatrix<P::K> = NttMatrix::sample_uniform(&rho, false);
         let s: PolynomialVector<P::K> = PolynomialVector::sample_cbd::<P::Eta1>(&sigma, 0);
-- 
2.43.0


From 7d522c5df62099fa57b4d0332867cc6123690fd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:57 +0000
Subject: [PATCH 3/3] fix: X-Wing encapsulation keys with different encodings
 must not compare equal

---
 x-wing/src/lib.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/x-wing/src/lib.rs b/x-wing/src/lib.rs
index cd24274..c92fa11 100644
--- a/x-wing/src/lib.rs
+++ b/x-wing/src/lib.rs
@@ -68,12 +68,20 @@ pub type SharedSecret = [u8; 32];
 // _x -> x25519 related key
 
 /// X-Wing encapsulation or public key.
-#[derive(Clone, PartialEq)]
+#[derive(Clone)]
 pub struct EncapsulationKey {
     pk_m: MlKem768EncapsulationKey,
     pk_x: x25519_dalek::PublicKey,
 }
 
+// `x25519_dalek::PublicKey` compares points, but the combiner hashes the encoding: keys that differ
+// only in the encoding of the point lead to different shared secrets, so they must not be equal.
+impl PartialEq for EncapsulationKey {
+    fn eq(&self, other: &Self) -> bool {
+        self.pk_m == other.pk_m && self.pk_x.as_bytes() == other.pk_x.as_bytes()
+    }
+}
+
 impl Encapsulate<Ciphertext, SharedSecret> for EncapsulationKey {
     type Error = Infallible;
 
-- 
2.43.0

