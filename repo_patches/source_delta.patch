From e6afb53e2e67a401afdf6887c1e70ef67afc6d7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:24 +0000
Subject: [PATCH 01/42] fix: nat_to_f refuses numbers that do not fit in the
 field

---
 src/util/convert.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/util/convert.rs b/src/util/convert.rs
index c398734..d791db4 100644
--- a/src/util/convert.rs
+++ b/src/util/convert.rs
@@ -21,7 +21,13 @@ pub fn f_to_nat<Scalar: PrimeField>(f: &Scalar) -> BigInt {
 /// Convert a natural number to a field element.
 /// Returns `None` if the number is too big for the field.
 pub fn nat_to_f<Scalar: PrimeField>(n: &BigInt) -> Option<Scalar> {
-    Scalar::from_str_vartime(&format!("{}", n))
+    let f = Scalar::from_str_vartime(&format!("{}", n))?;
+    // `from_str_vartime` reduces modulo the characteristic
+    if f_to_nat(&f) == *n {
+        Some(f)
+    } else {
+        None
+    }
 }
 
 /// Convert a `usize` to a field element.
-- 
2.43.0


From f40d05f7374fee2ac84cc1cbc6fb8b11670b5545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:24 +0000
Subject: [PATCH 02/42] fix: f_to_usize converts every element that fits in a
 usize

---
 src/util/convert.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/util/convert.rs b/src/util/convert.rs
index d791db4..15cd671 100644
--- a/src/util/convert.rs
+++ b/src/util/convert.rs
@@ -37,12 +37,10 @@ pub fn usize_to_f<Scalar: PrimeField>(n: usize) -> Scalar {
     Scalar::from(n as u64)
 }
 
-/// Convert a `usize` to a field element.
-/// Panics if the field is too small.
+/// Convert a field element to a `usize`.
+/// Panics if the element is too large.
 pub fn f_to_usize<Scalar: PrimeField>(n: &Scalar) -> usize {
-    let s = n.to_repr();
-    assert!(s.as_ref().iter().skip(1).all(|v| *v == 0));
-    s.as_ref()[0] as usize
+    usize::try_from(f_to_nat(n)).expect("field element does not fit in a usize")
 }
 
 #[cfg(test)]
-- 
2.43.0


From d804b21966dea4a1fba79b681f38e2dad1be6739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:24 +0000
Subject: [PATCH 03/42] fix: Num::is_equal compares with the current bits of
 the vector

---
 src/util/num.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/util/num.rs b/src/util/num.rs
index 0c102b9..65e493b 100644
--- a/src/util/num.rs
+++ b/src/util/num.rs
@@ -106,12 +106,12 @@ impl<Scalar: PrimeField> Num<Scalar> {
         mut cs: CS,
         other: &Bitvector<Scalar>,
     ) -> Result<(), SynthesisError> {
-        let allocations = other.allocations.clone();
         let mut f = Scalar::ONE;
-        let sum = allocations
+        let sum = other
+            .bits
             .iter()
             .fold(LinearCombination::zero(), |lc, bit| {
-                let l = lc + (f, &bit.bit);
+                let l = lc + (f, bit);
                 f = f.double();
                 l
             });
-- 
2.43.0


From 7d34805a51f0124bd6c6d1c7ceb8e613a447a294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:24 +0000
Subject: [PATCH 04/42] fix: fits_in_bits(0) only admits zero

---
 src/util/num.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/util/num.rs b/src/util/num.rs
index 65e493b..58bd212 100644
--- a/src/util/num.rs
+++ b/src/util/num.rs
@@ -46,6 +46,12 @@ impl<Scalar: PrimeField> Num<Scalar> {
     ) -> Result<(), SynthesisError> {
         let v = self.value.map(|v| v);
 
+        // Only zero fits in no bits at all.
+        if n_bits == 0 {
+            cs.enforce(|| "is zero", |lc| lc, |lc| lc, |lc| lc + &self.num);
+            return Ok(());
+        }
+
         // Allocate all but the first bit.
         let bits: Vec<Variable> = (1..n_bits)
             .map(|i| {
-- 
2.43.0


From b8907e9fe66879ced9c418e9ab75cc970288ae5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:24 +0000
Subject: [PATCH 05/42] fix: a bit vector extended by unknown bits has unknown
 values

---
 src/util/bit.rs | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/src/util/bit.rs b/src/util/bit.rs
index 2bea764..ae3e7ef 100644
--- a/src/util/bit.rs
+++ b/src/util/bit.rs
@@ -77,25 +77,34 @@ impl<Scalar: PrimeField> Bitvector<Scalar> {
     }
 
     pub fn push(&mut self, mut b: Bit<Scalar>) {
-        self.values
-            .as_mut()
-            .map(|vs| b.value.take().map(|v| vs.push(v)));
+        self.values = self.values.take().and_then(|mut vs| {
+            b.value.take().map(|v| {
+                vs.push(v);
+                vs
+            })
+        });
         self.bits.push(b.bit);
     }
 
     pub fn insert(&mut self, i: usize, mut b: Bit<Scalar>) {
-        self.values
-            .as_mut()
-            .map(|vs| b.value.take().map(|v| vs.insert(i, v)));
+        self.values = self.values.take().and_then(|mut vs| {
+            b.value.take().map(|v| {
+                vs.insert(i, v);
+                vs
+            })
+        });
         self.bits.insert(i, b.bit);
     }
 
     pub fn append(&mut self, mut other: Self) {
         let ovs = other.values.take();
         self.bits.extend(other.bits.into_iter());
-        self.values
-            .as_mut()
-            .map(|vs| ovs.map(|ovs| vs.extend(ovs.into_iter())));
+        self.values = self.values.take().and_then(|mut vs| {
+            ovs.map(|ovs| {
+                vs.extend(ovs.into_iter());
+                vs
+            })
+        });
     }
 
     pub fn into_bits(mut self) -> Vec<Bit<Scalar>> {
-- 
2.43.0


From d41411d8da1b9a7dd484f11038a755785d468c79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:24 +0000
Subject: [PATCH 06/42] fix: a forced LazyCell can be borrowed while another
 borrow lives

---
 src/util/lazy.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/util/lazy.rs b/src/util/lazy.rs
index 62180e0..25def62 100644
--- a/src/util/lazy.rs
+++ b/src/util/lazy.rs
@@ -22,6 +22,9 @@ impl<T, F: FnOnce() -> T> LazyCell<T, F> {
     }
     fn force(&self) {
         use self::LazyCellInner::*;
+        if let Forced(_) = *self.cell.borrow() {
+            return;
+        }
         let mut cell_ref = self.cell.borrow_mut();
         let val = match std::mem::replace(&mut *cell_ref, Empty) {
             Forced(t) => t,
-- 
2.43.0


From 49900169192649d2ce7188807a12c4875dd34f62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:55 +0000
Subject: [PATCH 07/42] fix: nat_to_limbs refuses numbers the limbs cannot
 represent

---
 src/mp/bignat.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/mp/bignat.rs b/src/mp/bignat.rs
index 18105c6..4a5a01b 100644
--- a/src/mp/bignat.rs
+++ b/src/mp/bignat.rs
@@ -3,7 +3,7 @@ use bellpepper::gadgets::boolean::Boolean;
 use bellpepper::gadgets::num::AllocatedNum;
 use bellpepper_core::{ConstraintSystem, LinearCombination, SynthesisError};
 use ff::PrimeField;
-use num_bigint::BigInt;
+use num_bigint::{BigInt, Sign};
 use num_integer::Integer;
 use num_traits::cast::ToPrimitive;
 
@@ -51,14 +51,14 @@ pub fn nat_to_limbs<'a, Scalar: PrimeField>(
 ) -> Result<Vec<Scalar>, SynthesisError> {
     let mask = int_with_n_ones(limb_width);
     let mut nat = nat.clone();
-    if nat.bits() as usize <= n_limbs * limb_width {
-        Ok((0..n_limbs)
+    if nat.sign() != Sign::Minus && nat.bits() as usize <= n_limbs * limb_width {
+        (0..n_limbs)
             .map(|_| {
                 let r = BigInt::from(&nat & &mask);
                 nat >>= limb_width as u32;
-                nat_to_f(&r).unwrap()
+                nat_to_f(&r).ok_or(SynthesisError::Unsatisfiable)
             })
-            .collect())
+            .collect()
     } else {
         eprintln!(
             "nat {} does not fit in {} limbs of width {}",
-- 
2.43.0


From 029cf4de9e69b03897705f28c9f86b60b228035f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:55 +0000
Subject: [PATCH 08/42] fix: equal_when_carried carries into the limbs only one
 side has

---
 src/mp/bignat.rs | 28 +++++++---------------------
 1 file changed, 7 insertions(+), 21 deletions(-)

diff --git a/src/mp/bignat.rs b/src/mp/bignat.rs
index 4a5a01b..acabcf2 100644
--- a/src/mp/bignat.rs
+++ b/src/mp/bignat.rs
@@ -716,8 +716,11 @@ impl<Scalar: PrimeField> BigNat<Scalar> {
     ) -> Result<(), SynthesisError> {
         self.enforce_limb_width_agreement(other, "equal_when_carried")?;
 
-        // We'll propegate carries over the first `n` limbs.
-        let n = min(self.limbs.len(), other.limbs.len());
+        // We'll propegate carries over all limbs: the shorter number's missing limbs are zero, but
+        // carries may reach them.
+        let n = max(self.limbs.len(), other.limbs.len());
+        let this = self.with_n_limbs::<CS>(n);
+        let other = &other.with_n_limbs::<CS>(n);
         let target_base = BigInt::from(1u8) << self.params.limb_width as u32;
         let mut accumulated_extra = BigInt::from(0usize);
         let max_word = std::cmp::max(&self.params.max_word, &other.params.max_word);
@@ -729,7 +732,7 @@ impl<Scalar: PrimeField> BigNat<Scalar> {
         for i in 0..n {
             let carry = Num::alloc(cs.namespace(|| format!("carry value {}", i)), || {
                 Ok(nat_to_f(
-                    &((f_to_nat(&self.limb_values.grab()?[i])
+                    &((f_to_nat(&this.limb_values.grab()?[i])
                         + f_to_nat(&carry_in.value.unwrap())
                         + max_word
                         - f_to_nat(&other.limb_values.grab()?[i]))
@@ -744,7 +747,7 @@ impl<Scalar: PrimeField> BigNat<Scalar> {
                 |lc| lc,
                 |lc| lc,
                 |lc| {
-                    lc + &carry_in.num + &self.limbs[i] - &other.limbs[i]
+                    lc + &carry_in.num + &this.limbs[i] - &other.limbs[i]
                         + (nat_to_f(&max_word).unwrap(), CS::one())
                         - (nat_to_f(&target_base).unwrap(), &carry.num)
                         - (
@@ -768,23 +771,6 @@ impl<Scalar: PrimeField> BigNat<Scalar> {
             }
             carry_in = Num::from(carry);
         }
-
-        for (i, zero_limb) in self.limbs.iter().enumerate().skip(n) {
-            cs.enforce(
-                || format!("zero self {}", i),
-                |lc| lc,
-                |lc| lc,
-                |lc| lc + zero_limb,
-            );
-        }
-        for (i, zero_limb) in other.limbs.iter().enumerate().skip(n) {
-            cs.enforce(
-                || format!("zero other {}", i),
-                |lc| lc,
-                |lc| lc,
-                |lc| lc + zero_limb,
-            );
-        }
         Ok(())
     }
 
-- 
2.43.0


From f1b66d3e3eba1cdefea0c93d8024772be86a24f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:55 +0000
Subject: [PATCH 09/42] fix: carries have as many bits as they need

---
 src/mp/bignat.rs | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/mp/bignat.rs b/src/mp/bignat.rs
index acabcf2..099d3aa 100644
--- a/src/mp/bignat.rs
+++ b/src/mp/bignat.rs
@@ -5,7 +5,6 @@ use bellpepper_core::{ConstraintSystem, LinearCombination, SynthesisError};
 use ff::PrimeField;
 use num_bigint::{BigInt, Sign};
 use num_integer::Integer;
-use num_traits::cast::ToPrimitive;
 
 use std::borrow::Borrow;
 use std::cmp::{max, min, Ordering};
@@ -68,6 +67,17 @@ pub fn nat_to_limbs<'a, Scalar: PrimeField>(
     }
 }
 
+/// The number of bits the carries need when two numbers with words up to `max_word` are compared.
+/// A carry is less than `2 * max_word / (2^limb_width - 1)`.
+fn carry_bits(max_word: &BigInt, limb_width: usize) -> usize {
+    let bound = Integer::div_ceil(&(max_word * 2u8), &int_with_n_ones(limb_width));
+    if bound > BigInt::from(1) {
+        BigInt::from(bound - 1).bits() as usize
+    } else {
+        0
+    }
+}
+
 #[derive(Clone, PartialEq, Eq)]
 pub struct BigNatParams {
     pub min_bits: usize,
@@ -724,9 +734,7 @@ impl<Scalar: PrimeField> BigNat<Scalar> {
         let target_base = BigInt::from(1u8) << self.params.limb_width as u32;
         let mut accumulated_extra = BigInt::from(0usize);
         let max_word = std::cmp::max(&self.params.max_word, &other.params.max_word);
-        let carry_bits =
-            (((max_word.to_f64().unwrap() * 2.0).log2() - self.params.limb_width as f64).ceil()
-                + 0.1) as usize;
+        let carry_bits = carry_bits(max_word, self.params.limb_width);
         let mut carry_in = Num::new(Some(Scalar::ZERO), LinearCombination::zero());
 
         for i in 0..n {
@@ -784,9 +792,7 @@ impl<Scalar: PrimeField> BigNat<Scalar> {
     ) -> Result<(), SynthesisError> {
         self.enforce_limb_width_agreement(other, "equal_when_carried_regroup")?;
         let max_word = std::cmp::max(&self.params.max_word, &other.params.max_word);
-        let carry_bits =
-            (((max_word.to_f64().unwrap() * 2.0).log2() - self.params.limb_width as f64).ceil()
-                + 0.1) as usize;
+        let carry_bits = carry_bits(max_word, self.params.limb_width);
         let limbs_per_group = (Scalar::CAPACITY as usize - carry_bits) / self.params.limb_width;
         let self_grouped = self.group_limbs(limbs_per_group);
         let other_grouped = other.group_limbs(limbs_per_group);
-- 
2.43.0


From 6ccbdb3ef420efd053b13a6dd4fe6ca9c7422288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:55 +0000
Subject: [PATCH 10/42] fix: a truncated number has no known lower bound

---
 src/mp/bignat.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/mp/bignat.rs b/src/mp/bignat.rs
index 099d3aa..158bb32 100644
--- a/src/mp/bignat.rs
+++ b/src/mp/bignat.rs
@@ -694,9 +694,8 @@ impl<Scalar: PrimeField> BigNat<Scalar> {
                 }
             }
             new.params.n_limbs = n_limbs;
-            if new.params.min_bits > new.params.n_limbs * new.params.limb_width {
-                new.params.min_bits = 0;
-            }
+            // the bits which made the number large may be gone
+            new.params.min_bits = 0;
         }
         new
     }
-- 
2.43.0


From ea2a453b01f44ba4cb7f2736fa4e7faf47501de7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:55 +0000
Subject: [PATCH 11/42] fix: a number scaled by zero has no known lower bound

---
 src/mp/bignat.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mp/bignat.rs b/src/mp/bignat.rs
index 158bb32..1cf2154 100644
--- a/src/mp/bignat.rs
+++ b/src/mp/bignat.rs
@@ -856,6 +856,9 @@ impl<Scalar: PrimeField> BigNat<Scalar> {
             *v *= f_to_nat(&constant);
         }
         new.params.max_word *= f_to_nat(&constant);
+        if constant.is_zero().into() {
+            new.params.min_bits = 0;
+        }
         assert!(new.params.max_word <= (BigInt::from(1) << Scalar::CAPACITY));
         new
     }
-- 
2.43.0


From f82854b5ec6f3e0a793c14231b0fc38f5fd7cfed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:55 +0000
Subject: [PATCH 12/42] fix: n_bits bounds numbers whose words are wider than a
 limb

---
 src/mp/bignat.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/mp/bignat.rs b/src/mp/bignat.rs
index 1cf2154..96768ac 100644
--- a/src/mp/bignat.rs
+++ b/src/mp/bignat.rs
@@ -1268,7 +1268,11 @@ impl<Scalar: PrimeField> BigNat<Scalar> {
 
     pub fn n_bits(&self) -> usize {
         assert!(self.params.n_limbs > 0);
-        self.params.limb_width * (self.params.n_limbs - 1) + self.params.max_word.bits() as usize
+        // words wider than a limb overlap
+        let max_value = (0..self.params.n_limbs).fold(BigInt::from(0), |acc, _| {
+            (acc << self.params.limb_width as u32) + &self.params.max_word
+        });
+        max_value.bits() as usize
     }
 }
 
-- 
2.43.0


From 1d561a41f7f384001b15cb57cb1847c556e2df83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:55 +0000
Subject: [PATCH 13/42] fix: sub constrains the difference to be a natural
 number

---
 src/mp/bignat.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mp/bignat.rs b/src/mp/bignat.rs
index 96768ac..a0b4159 100644
--- a/src/mp/bignat.rs
+++ b/src/mp/bignat.rs
@@ -876,8 +876,10 @@ impl<Scalar: PrimeField> BigNat<Scalar> {
                 Ok(s)
             },
             self.params.limb_width,
-            self.params.n_limbs,
+            self.n_bits().saturating_sub(1) / self.params.limb_width + 1,
         )?;
+        // the difference is a natural number
+        diff.assert_well_formed(cs.namespace(|| "rangecheck"))?;
         let sum = other.add::<CS>(&diff)?;
         self.equal_when_carried_regroup(cs.namespace(|| "eq"), &sum)?;
         Ok(diff)
-- 
2.43.0


From a8033464522570a1513bc9fe7cca57a3730b8ab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:55 +0000
Subject: [PATCH 14/42] fix: min compares the two numbers it switched

---
 src/mp/bignat.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mp/bignat.rs b/src/mp/bignat.rs
index a0b4159..52a8942 100644
--- a/src/mp/bignat.rs
+++ b/src/mp/bignat.rs
@@ -973,7 +973,7 @@ impl<Scalar: PrimeField> BigNat<Scalar> {
                 .and_then(|s| other.value.as_ref().map(|o| o < s)),
         )?;
         let (lesser, greater) = Gadget::switch(cs.namespace(|| "switch"), &select, self, other)?;
-        let _diff = greater.sub(cs.namespace(|| "difference"), other)?;
+        let _diff = greater.sub(cs.namespace(|| "difference"), &lesser)?;
         Ok(lesser)
     }
 
-- 
2.43.0


From a8f3fd87a51cbcfd511dadfdbf0cb1d5327278bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:55 +0000
Subject: [PATCH 15/42] fix: mux of numbers whose words are wider than a limb

---
 src/mp/bignat.rs | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/src/mp/bignat.rs b/src/mp/bignat.rs
index 52a8942..53416b8 100644
--- a/src/mp/bignat.rs
+++ b/src/mp/bignat.rs
@@ -1328,20 +1328,18 @@ impl<Scalar: PrimeField> Gadget for BigNat<Scalar> {
             eprintln!("Wire mis-match in BigNat mux");
             return Err(SynthesisError::Unsatisfiable);
         }
-        let value: Option<&Self::Value> = s
-            .value
-            .and_then(|b| if b { i1.value() } else { i0.value() });
-        let out: Self = Self::alloc(
+        // The words of the inputs may be wider than a limb: take them as they are.
+        let mut out: Self = Self::alloc_from_limbs(
             cs.namespace(|| "out"),
-            value,
-            (),
-            &BigNatParams {
-                min_bits: min(i0.params.min_bits, i1.params.min_bits),
-                max_word: max(i0.params.max_word.clone(), i1.params.max_word.clone()),
-                limb_width: i0.params.limb_width,
-                n_limbs: i0.params.n_limbs,
+            || {
+                let selected = if *s.value.grab()? { &i1 } else { &i0 };
+                Ok(selected.limb_values.grab()?.clone())
             },
+            Some(max(i0.params.max_word.clone(), i1.params.max_word.clone())),
+            i0.params.limb_width,
+            n_limbs,
         )?;
+        out.params.min_bits = min(i0.params.min_bits, i1.params.min_bits);
         let out_wires = out.wires();
         for (i, ((i0w, i1w), out_w)) in i0_wires
             .into_iter()
-- 
2.43.0


From 9ce130a6c59e4345f2d1980679cd2d78022346a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:55 +0000
Subject: [PATCH 16/42] fix: the quotient by a modulus of min_bits bits may
 need one more bit

---
 src/mp/bignat.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/mp/bignat.rs b/src/mp/bignat.rs
index 53416b8..c82a512 100644
--- a/src/mp/bignat.rs
+++ b/src/mp/bignat.rs
@@ -1069,7 +1069,7 @@ impl<Scalar: PrimeField> BigNat<Scalar> {
         self.enforce_limb_width_agreement(other, "mult_mod")?;
         let limb_width = self.params.limb_width;
         let quotient_bits =
-            (self.n_bits() + other.n_bits()).saturating_sub(modulus.params.min_bits);
+            (self.n_bits() + other.n_bits()).saturating_sub(modulus.params.min_bits.saturating_sub(1));
         let quotient_limbs = quotient_bits.saturating_sub(1) / limb_width + 1;
         let quotient = BigNat::alloc_from_nat(
             cs.namespace(|| "quotient"),
@@ -1139,7 +1139,9 @@ impl<Scalar: PrimeField> BigNat<Scalar> {
     ) -> Result<BigNat<Scalar>, SynthesisError> {
         self.enforce_limb_width_agreement(modulus, "red_mod")?;
         let limb_width = self.params.limb_width;
-        let quotient_bits = self.n_bits().saturating_sub(modulus.params.min_bits);
+        let quotient_bits = self
+            .n_bits()
+            .saturating_sub(modulus.params.min_bits.saturating_sub(1));
         let quotient_limbs = quotient_bits.saturating_sub(1) / limb_width + 1;
         let quotient = BigNat::alloc_from_nat(
             cs.namespace(|| "quotient"),
-- 
2.43.0


From 3575677d2695488e6cdb0d043e13c5649022a6d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:55 +0000
Subject: [PATCH 17/42] fix: mult_mod and red_mod constrain the remainder to be
 less than the modulus

---
 src/mp/bignat.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/mp/bignat.rs b/src/mp/bignat.rs
index c82a512..c6448ef 100644
--- a/src/mp/bignat.rs
+++ b/src/mp/bignat.rs
@@ -1128,6 +1128,11 @@ impl<Scalar: PrimeField> BigNat<Scalar> {
         let left_int = BigNat::from_poly(Polynomial::from(left), limb_width, left_max_word);
         let right_int = BigNat::from_poly(Polynomial::from(right), limb_width, right_max_word);
         left_int.equal_when_carried_regroup(cs.namespace(|| "carry"), &right_int)?;
+        // the remainder is less than the modulus
+        modulus.sub(
+            cs.namespace(|| "remainder bound"),
+            &remainder.shift::<CS>(Scalar::ONE),
+        )?;
         Ok((quotient, remainder))
     }
 
@@ -1175,6 +1180,11 @@ impl<Scalar: PrimeField> BigNat<Scalar> {
 
         let right_int = BigNat::from_poly(Polynomial::from(right), limb_width, right_max_word);
         self.equal_when_carried_regroup(cs.namespace(|| "carry"), &right_int)?;
+        // the remainder is less than the modulus
+        modulus.sub(
+            cs.namespace(|| "remainder bound"),
+            &remainder.shift::<CS>(Scalar::ONE),
+        )?;
         Ok(remainder)
     }
 
-- 
2.43.0


From 410944ddb58f320985238eab0f7af799cc79bca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:16 +0000
Subject: [PATCH 18/42] fix: calculate_difficulty_update uses one limb width
 throughout

---
 src/btc_validation/difficulty_update.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/btc_validation/difficulty_update.rs b/src/btc_validation/difficulty_update.rs
index 0980200..33974f4 100644
--- a/src/btc_validation/difficulty_update.rs
+++ b/src/btc_validation/difficulty_update.rs
@@ -89,7 +89,7 @@ CS: ConstraintSystem<Scalar>,
     assert!(res_lower & res_upper);
 
     let t_ideal_sum = num::Num::alloc(cs.namespace(|| "2016 * 10 * 60 or 2 weeks"), || Ok(Scalar::from(2016 * 10 * 60 as u64))).unwrap();
-    let t_2016_10_60 = BigNat::from_num(cs.namespace(|| "BigNat t ideal sum"), t_ideal_sum, 128usize, 1usize).unwrap();
+    let t_2016_10_60 = BigNat::from_num(cs.namespace(|| "BigNat t ideal sum"), t_ideal_sum, 64usize, 1usize).unwrap();
     
     let (t_new, _t) =  prev_targ.mult_mod(cs.namespace(|| "T new compute"), &t_sum, &t_2016_10_60).unwrap();
     // let target_num = Polynomial::from(t_new);
-- 
2.43.0


From feaed192867c1de6ca70adc01d8475c6c92c0d7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:30 +0000
Subject: [PATCH 19/42] fix: comparisons of more than 126 bits shift zero by
 the right power of two

2 << (n_bits - 126) times 2 << 126 is 2^(n_bits + 2), one bit more than the
check that follows allows for, so less_than and leq were always false.
---
 src/btc_validation/median.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/btc_validation/median.rs b/src/btc_validation/median.rs
index 9144cb8..80d0c0f 100644
--- a/src/btc_validation/median.rs
+++ b/src/btc_validation/median.rs
@@ -123,7 +123,7 @@ where
             Scalar::from_u128(2 << n_bits) 
         } 
         else { 
-            let shift1 = Scalar::from_u128(2 << (n_bits - 126));
+            let shift1 = Scalar::from_u128(1 << (n_bits - 126));
             let mut shift2 = Scalar::from_u128(2 << 126);
             shift2.mul_assign(&shift1);
             shift2
@@ -189,7 +189,7 @@ where
             Scalar::from_u128(2 << n_bits) 
         } 
         else { 
-            let shift1 = Scalar::from_u128(2 << (n_bits - 126));
+            let shift1 = Scalar::from_u128(1 << (n_bits - 126));
             let mut shift2 = Scalar::from_u128(2 << 126);
             shift2.mul_assign(&shift1);
             shift2
-- 
2.43.0


From d251bfce02c0c21dca252bf23c5c351c132a7204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:06 +0000
Subject: [PATCH 20/42] fix: less_than and leq constrain the result

The shifted difference and its low bits were free variables, so a prover
could obtain either answer for any two numbers.
---
 src/btc_validation/median.rs | 41 ++++++++++++++++++++++++++++++++++++
 1 file changed, 41 insertions(+)

diff --git a/src/btc_validation/median.rs b/src/btc_validation/median.rs
index 80d0c0f..9abc016 100644
--- a/src/btc_validation/median.rs
+++ b/src/btc_validation/median.rs
@@ -6,6 +6,7 @@ use ff::PrimeField;
 use crate::BitAccess;
 use crate::OptionExt;
 use crate::mp::bignat::BigNat;
+use crate::util::num;
 
 pub fn compute_median_timestamp (prev_timestamps: &mut Vec<u32>) -> u32
 {
@@ -155,6 +156,26 @@ where
         Ok(summ)
     }).unwrap();
 
+    // Constrain:
+    // zero_shifted_cmp = a + 2^(n_bits + 1) - b
+    let zero_shift = (0..=n_bits).fold(Scalar::ONE, |power, _| power.double());
+    cs.enforce(
+        || "zero_shifted_cmp = a + 2^(n_bits + 1) - b",
+        |lc| lc + a.get_variable() + (zero_shift, CS::one()) - b.get_variable(),
+        |lc| lc + CS::one(),
+        |lc| lc + zero_shifted_cmp.get_variable(),
+    );
+
+    // Constrain:
+    // n_bit_zero_cmp has n_bits + 1 bits, and is zero_shifted_cmp without its bit of weight 2^(n_bits + 1)
+    num::Num::from(n_bit_zero_cmp.clone()).fits_in_bits(cs.namespace(|| "n_bit_zero_cmp fits"), n_bits + 1)?;
+    cs.enforce(
+        || "zero_shifted_cmp - n_bit_zero_cmp is 0 or 2^(n_bits + 1)",
+        |lc| lc + zero_shifted_cmp.get_variable() - n_bit_zero_cmp.get_variable(),
+        |lc| lc + zero_shifted_cmp.get_variable() - n_bit_zero_cmp.get_variable() - (zero_shift, CS::one()),
+        |lc| lc,
+    );
+
     BigNat::equals(cs.namespace(|| "check fits in n_bits"), &zero_shifted_cmp, &n_bit_zero_cmp)
 
     // let _ = zero_shifted_cmp.fits_in_bits(cs.namespace(|| "check if fits"), n_bits + 1);
@@ -221,6 +242,26 @@ where
         Ok(summ)
     }).unwrap();
 
+    // Constrain:
+    // zero_shifted_cmp = a + 2^(n_bits + 1) - b - 1
+    let zero_shift = (0..=n_bits).fold(Scalar::ONE, |power, _| power.double());
+    cs.enforce(
+        || "zero_shifted_cmp = a + 2^(n_bits + 1) - b - 1",
+        |lc| lc + a.get_variable() + (zero_shift, CS::one()) - b.get_variable() - CS::one(),
+        |lc| lc + CS::one(),
+        |lc| lc + zero_shifted_cmp.get_variable(),
+    );
+
+    // Constrain:
+    // n_bit_zero_cmp has n_bits + 1 bits, and is zero_shifted_cmp without its bit of weight 2^(n_bits + 1)
+    num::Num::from(n_bit_zero_cmp.clone()).fits_in_bits(cs.namespace(|| "n_bit_zero_cmp fits"), n_bits + 1)?;
+    cs.enforce(
+        || "zero_shifted_cmp - n_bit_zero_cmp is 0 or 2^(n_bits + 1)",
+        |lc| lc + zero_shifted_cmp.get_variable() - n_bit_zero_cmp.get_variable(),
+        |lc| lc + zero_shifted_cmp.get_variable() - n_bit_zero_cmp.get_variable() - (zero_shift, CS::one()),
+        |lc| lc,
+    );
+
     BigNat::equals(cs.namespace(|| "check fits in n_bits leq"), &zero_shifted_cmp, &n_bit_zero_cmp)
 }
 
-- 
2.43.0


From 2917e79cb7f3405ef76aa65aa87153c92bf5f8a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:07 +0000
Subject: [PATCH 21/42] fix: verify_median_timestamp takes the absolute value
 of negative differences only

sign_diff < 12 always holds, so the difference was always negated and every
value above the median with enough occurrences was accepted.
---
 src/btc_validation/median.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/btc_validation/median.rs b/src/btc_validation/median.rs
index 9abc016..404b484 100644
--- a/src/btc_validation/median.rs
+++ b/src/btc_validation/median.rs
@@ -70,8 +70,9 @@ CS: ConstraintSystem<Scalar>,
         sign_diff = sign_diff.add(cs.namespace(|| format!("sign_diff increment {}", i)), &delta_sign).unwrap();
     }
     // absolute value of sign_diff needs to be obtained
-    let const_12 = AllocatedNum::alloc(cs.namespace(|| "max positive sign_diff"), || Ok(Scalar::from(12u64))).unwrap();
-    let is_positive = less_than(cs.namespace(|| "is_pos"), &sign_diff, &const_12, 32usize).unwrap();
+    let const_0 = AllocatedNum::alloc(cs.namespace(|| "least non-negative sign_diff"), || Ok(Scalar::ZERO)).unwrap();
+    cs.enforce(|| "const_0 == 0", |lc| lc, |lc| lc, |lc| lc + const_0.get_variable());
+    let is_negative = less_than(cs.namespace(|| "is_neg"), &sign_diff, &const_0, 32usize).unwrap();
     let neg_sign_diff = AllocatedNum::alloc(cs.namespace(|| "Negative of sign_diff"), || {
         let sign_val = sign_diff.get_value().unwrap();
         let mut zero_val = Scalar::ZERO;
@@ -87,7 +88,7 @@ CS: ConstraintSystem<Scalar>,
         |lc| lc,
     );
 
-    let (abs_sign_diff, _dummy) = AllocatedNum::conditionally_reverse(cs.namespace(|| "absolute value"), &sign_diff, &neg_sign_diff, &is_positive).unwrap();
+    let (abs_sign_diff, _dummy) = AllocatedNum::conditionally_reverse(cs.namespace(|| "absolute value"), &sign_diff, &neg_sign_diff, &is_negative).unwrap();
 
     let const_1 = AllocatedNum::alloc(cs.namespace(|| "increment by 1"), || Ok(Scalar::ONE)).unwrap();
     let lhs = abs_sign_diff.add(cs.namespace(|| "LHS of inequality"), &const_1).unwrap();
-- 
2.43.0


From 9661641e3caa1584f43ffa472f8f50fa45c4eadf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:57 +0000
Subject: [PATCH 22/42] fix: verify_median_timestamp constrains what it
 computes with

The comparison bits, the constants and the number of occurrences were free
copies, so a prover could have any median accepted or refused.
---
 src/btc_validation/median.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/btc_validation/median.rs b/src/btc_validation/median.rs
index 404b484..9eb2d01 100644
--- a/src/btc_validation/median.rs
+++ b/src/btc_validation/median.rs
@@ -1,4 +1,3 @@
-use bellpepper::gadgets::boolean::AllocatedBit;
 use bellpepper::gadgets::boolean::Boolean;
 use bellpepper_core::{ConstraintSystem, SynthesisError};
 use bellpepper::gadgets::num::{AllocatedNum, Num};
@@ -30,6 +29,7 @@ CS: ConstraintSystem<Scalar>,
 
     let mut n_median_occurrences = Num::zero();
     let mut sign_diff = AllocatedNum::alloc(cs.namespace(|| "sign_diff"), || Ok(Scalar::from(0u64))).unwrap();
+    cs.enforce(|| "sign_diff starts at 0", |lc| lc, |lc| lc, |lc| lc + sign_diff.get_variable());
 
     for (i, fe_time) in fe_timestamps.iter().enumerate() {
         // n_median_occurrences += 1 if median == timestamp else no change
@@ -55,14 +55,12 @@ CS: ConstraintSystem<Scalar>,
             // Ok(Scalar::from(signum))
         }).unwrap();
         
-        let eq_bit = AllocatedBit::alloc(cs.namespace(|| format!("equality {}", i)), Some(res_eq.get_value().unwrap())).unwrap();
-        let lt_bit_mul2 = AllocatedNum::alloc(cs.namespace(|| format!("less than {}", i)), || Ok(Scalar::from(2*(res_lt.get_value().unwrap() as u64)))).unwrap();
         // Constrain:
         // (1 - res_eq) * (1 - 2 * res_lt) == delta_sign
         cs.enforce(
             || format!("(1 - res_eq) * (1 - 2 * res_lt) == delta_sign {}", i),
-            |lc| lc + CS::one() - eq_bit.get_variable(),
-            |lc| lc + CS::one() - lt_bit_mul2.get_variable(),
+            |lc| lc + CS::one() - &res_eq.lc(CS::one(), Scalar::ONE),
+            |lc| lc + CS::one() - &res_lt.lc(CS::one(), Scalar::from(2u64)),
             |lc| lc + delta_sign.get_variable(),
         );
 
@@ -91,10 +89,17 @@ CS: ConstraintSystem<Scalar>,
     let (abs_sign_diff, _dummy) = AllocatedNum::conditionally_reverse(cs.namespace(|| "absolute value"), &sign_diff, &neg_sign_diff, &is_negative).unwrap();
 
     let const_1 = AllocatedNum::alloc(cs.namespace(|| "increment by 1"), || Ok(Scalar::ONE)).unwrap();
+    cs.enforce(|| "const_1 == 1", |lc| lc, |lc| lc, |lc| lc + const_1.get_variable() - CS::one());
     let lhs = abs_sign_diff.add(cs.namespace(|| "LHS of inequality"), &const_1).unwrap();
     // lhs = abs(sign_diff) + 1
 
     let fe_median_occ = AllocatedNum::alloc(cs.namespace(|| "fe_median"), || Ok(n_median_occurrences.get_value().unwrap())).unwrap();
+    cs.enforce(
+        || "fe_median_occ == n_median_occurrences",
+        |lc| lc,
+        |lc| lc,
+        |lc| lc + fe_median_occ.get_variable() - &n_median_occurrences.lc(Scalar::ONE),
+    );
 
     // let r_eq = BigNat::equals(cs.namespace(|| "verify median"), &lhs, &fe_median_occ).unwrap();
     // let r_lt = less_than(cs.namespace(|| "lt"), &lhs, &fe_median_occ, 5).unwrap();
-- 
2.43.0


From 964a5edf59920538b497d90de870b29d1f582ca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:45 +0000
Subject: [PATCH 23/42] fix: let the median be verified about timestamps
 already in the circuit

verify_median_timestamp allocates its own copies of the timestamps and of the
median, which nothing ties to the ones its caller means.
---
 src/btc_validation/median.rs | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/btc_validation/median.rs b/src/btc_validation/median.rs
index 9eb2d01..ee68d71 100644
--- a/src/btc_validation/median.rs
+++ b/src/btc_validation/median.rs
@@ -27,16 +27,30 @@ CS: ConstraintSystem<Scalar>,
         fe_timestamps.push(fe_temp);
     }
 
+    verify_allocated_median(cs.namespace(|| "allocated median"), &fe_timestamps, &fe_median)
+}
+
+/// As `verify_median_timestamp`, about timestamps and a median (of 32 bits each) that
+/// are already part of the constraint system.
+pub fn verify_allocated_median<Scalar, CS> (
+    mut cs: CS,
+    fe_timestamps: &[AllocatedNum<Scalar>],
+    fe_median: &AllocatedNum<Scalar>,
+) -> Result<Boolean, SynthesisError>
+where
+Scalar: PrimeField,
+CS: ConstraintSystem<Scalar>,
+{
     let mut n_median_occurrences = Num::zero();
     let mut sign_diff = AllocatedNum::alloc(cs.namespace(|| "sign_diff"), || Ok(Scalar::from(0u64))).unwrap();
     cs.enforce(|| "sign_diff starts at 0", |lc| lc, |lc| lc, |lc| lc + sign_diff.get_variable());
 
     for (i, fe_time) in fe_timestamps.iter().enumerate() {
         // n_median_occurrences += 1 if median == timestamp else no change
-        let res_eq = BigNat::equals(cs.namespace(|| format!("check equal for time {}", i)), &fe_median, fe_time).unwrap();
+        let res_eq = BigNat::equals(cs.namespace(|| format!("check equal for time {}", i)), fe_median, fe_time).unwrap();
         n_median_occurrences = n_median_occurrences.add_bool_with_coeff(CS::one(), &res_eq, Scalar::ONE);
 
-        let res_lt = less_than(cs.namespace(|| format!("res_lt {}", i)), &fe_median, fe_time, 32).unwrap();
+        let res_lt = less_than(cs.namespace(|| format!("res_lt {}", i)), fe_median, fe_time, 32).unwrap();
 
         // delta_sign is the signum of (median - timestamp)
         let delta_sign = AllocatedNum::alloc(cs.namespace(|| format!("signum {}", i)), || {
-- 
2.43.0


From 0aed64b831a0beb394f55a2e8c73025776a9f513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:54 +0000
Subject: [PATCH 24/42] fix: the limits on the time of an epoch are constraints

They were only asserted about the witness, which a prover need not do, and
which made the circuit impossible to synthesize without one.
---
 src/btc_validation/difficulty_update.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/btc_validation/difficulty_update.rs b/src/btc_validation/difficulty_update.rs
index 33974f4..dce4375 100644
--- a/src/btc_validation/difficulty_update.rs
+++ b/src/btc_validation/difficulty_update.rs
@@ -1,4 +1,5 @@
 use bellpepper_core::{ConstraintSystem, SynthesisError};
+use bellpepper::gadgets::boolean::Boolean;
 use bellpepper::gadgets::num::AllocatedNum;
 use ff::PrimeField;
 use crate::btc_validation::median;
@@ -42,9 +43,10 @@ CS: ConstraintSystem<Scalar>,
     let t_sum_lower = AllocatedNum::alloc(cs.namespace(|| "Lower acceptable t_sum"), || Ok(Scalar::from(2016 * 10 * 60 / 4 as u64))).unwrap();
     let t_sum_upper = AllocatedNum::alloc(cs.namespace(|| "Upper acceptable t_sum"), || Ok(Scalar::from(2016 * 10 * 60 * 4 as u64))).unwrap();
 
-    let res_lower = median::less_than(cs.namespace(|| "res_lower"), &t_sum_lower, &fe_t_sum, 32).unwrap().get_value().unwrap();
-    let res_upper = median::less_than(cs.namespace(|| "res_upper"), &fe_t_sum, &t_sum_upper, 32).unwrap().get_value().unwrap();
-    assert!(res_lower & res_upper);
+    let res_lower = median::less_than(cs.namespace(|| "res_lower"), &t_sum_lower, &fe_t_sum, 32).unwrap();
+    let res_upper = median::less_than(cs.namespace(|| "res_upper"), &fe_t_sum, &t_sum_upper, 32).unwrap();
+    Boolean::enforce_equal(cs.namespace(|| "t_sum above lower limit"), &res_lower, &Boolean::constant(true)).unwrap();
+    Boolean::enforce_equal(cs.namespace(|| "t_sum below upper limit"), &res_upper, &Boolean::constant(true)).unwrap();
     
     // // To verify if T_new * 2016 * 10 * 60 == t_sum * T_old
     // let t_ideal_sum = num::Num::alloc(cs.namespace(|| "2016 * 10 * 60"), || Ok(Scalar::from(2016 * 10 * 60 as u64))).unwrap();
@@ -84,9 +86,10 @@ CS: ConstraintSystem<Scalar>,
     let t_sum_lower = AllocatedNum::alloc(cs.namespace(|| "Lower acceptable t sum"), || Ok(Scalar::from(2016 * 10 * 60 / 4 as u64))).unwrap();
     let t_sum_upper = AllocatedNum::alloc(cs.namespace(|| "Upper acceptable t sum"), || Ok(Scalar::from(2016 * 10 * 60 * 4 as u64))).unwrap();
 
-    let res_lower = median::less_than(cs.namespace(|| "res lower"), &t_sum_lower, sum_timestamps, 32).unwrap().get_value().unwrap();
-    let res_upper = median::less_than(cs.namespace(|| "res upper"), sum_timestamps, &t_sum_upper, 32).unwrap().get_value().unwrap();
-    assert!(res_lower & res_upper);
+    let res_lower = median::less_than(cs.namespace(|| "res lower"), &t_sum_lower, sum_timestamps, 32)?;
+    let res_upper = median::less_than(cs.namespace(|| "res upper"), sum_timestamps, &t_sum_upper, 32)?;
+    Boolean::enforce_equal(cs.namespace(|| "t sum above lower limit"), &res_lower, &Boolean::constant(true))?;
+    Boolean::enforce_equal(cs.namespace(|| "t sum below upper limit"), &res_upper, &Boolean::constant(true))?;
 
     let t_ideal_sum = num::Num::alloc(cs.namespace(|| "2016 * 10 * 60 or 2 weeks"), || Ok(Scalar::from(2016 * 10 * 60 as u64))).unwrap();
     let t_2016_10_60 = BigNat::from_num(cs.namespace(|| "BigNat t ideal sum"), t_ideal_sum, 64usize, 1usize).unwrap();
-- 
2.43.0


From 41306804699b560d9f96e73f849db470fe9019e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:35 +0000
Subject: [PATCH 25/42] fix: the constants of the difficulty update are
 constrained

A prover could choose the limits on the time of an epoch, and the time it is
meant to take.
---
 src/btc_validation/difficulty_update.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/btc_validation/difficulty_update.rs b/src/btc_validation/difficulty_update.rs
index dce4375..3467cff 100644
--- a/src/btc_validation/difficulty_update.rs
+++ b/src/btc_validation/difficulty_update.rs
@@ -41,7 +41,9 @@ CS: ConstraintSystem<Scalar>,
     let fe_t_sum = AllocatedNum::alloc(cs.namespace(|| "Timestamps sum"), || Ok(Scalar::from(sum_timestamps as u64))).unwrap();
 
     let t_sum_lower = AllocatedNum::alloc(cs.namespace(|| "Lower acceptable t_sum"), || Ok(Scalar::from(2016 * 10 * 60 / 4 as u64))).unwrap();
+    cs.enforce(|| "lower t_sum constant", |lc| lc, |lc| lc, |lc| lc + t_sum_lower.get_variable() - (Scalar::from(2016 * 10 * 60 / 4 as u64), CS::one()));
     let t_sum_upper = AllocatedNum::alloc(cs.namespace(|| "Upper acceptable t_sum"), || Ok(Scalar::from(2016 * 10 * 60 * 4 as u64))).unwrap();
+    cs.enforce(|| "upper t_sum constant", |lc| lc, |lc| lc, |lc| lc + t_sum_upper.get_variable() - (Scalar::from(2016 * 10 * 60 * 4 as u64), CS::one()));
 
     let res_lower = median::less_than(cs.namespace(|| "res_lower"), &t_sum_lower, &fe_t_sum, 32).unwrap();
     let res_upper = median::less_than(cs.namespace(|| "res_upper"), &fe_t_sum, &t_sum_upper, 32).unwrap();
@@ -57,6 +59,7 @@ CS: ConstraintSystem<Scalar>,
 
     // lhs.equal(cs.namespace(|| "difficulty update verified"), &rhs).unwrap()
     let t_ideal_sum = num::Num::alloc(cs.namespace(|| "2016 * 10 * 60"), || Ok(Scalar::from(2016 * 10 * 60 as u64))).unwrap();
+    cs.enforce(|| "t_ideal_sum constant", |lc| lc, |lc| lc, |lc| lc + &t_ideal_sum.num - (Scalar::from(2016 * 10 * 60 as u64), CS::one()));
     let t_2016_10_60 = BigNat::from_num(cs.namespace(|| "BigNat t_ideal_sum"), t_ideal_sum, 64usize, 2usize).unwrap();
     
     let (t_new, _t) =  prev_target.mult_mod(cs.namespace(|| "T_new compute"), &t_sum, &t_2016_10_60).unwrap();
@@ -84,7 +87,9 @@ CS: ConstraintSystem<Scalar>,
     // To verify if T_old / 4 < T_new < 4 * T_old
     // is the same as verifying 2016 * 10 * 60 / 4 < t_sum < 2016 * 10 * 60 * 4
     let t_sum_lower = AllocatedNum::alloc(cs.namespace(|| "Lower acceptable t sum"), || Ok(Scalar::from(2016 * 10 * 60 / 4 as u64))).unwrap();
+    cs.enforce(|| "lower t sum constant", |lc| lc, |lc| lc, |lc| lc + t_sum_lower.get_variable() - (Scalar::from(2016 * 10 * 60 / 4 as u64), CS::one()));
     let t_sum_upper = AllocatedNum::alloc(cs.namespace(|| "Upper acceptable t sum"), || Ok(Scalar::from(2016 * 10 * 60 * 4 as u64))).unwrap();
+    cs.enforce(|| "upper t sum constant", |lc| lc, |lc| lc, |lc| lc + t_sum_upper.get_variable() - (Scalar::from(2016 * 10 * 60 * 4 as u64), CS::one()));
 
     let res_lower = median::less_than(cs.namespace(|| "res lower"), &t_sum_lower, sum_timestamps, 32)?;
     let res_upper = median::less_than(cs.namespace(|| "res upper"), sum_timestamps, &t_sum_upper, 32)?;
@@ -92,6 +97,7 @@ CS: ConstraintSystem<Scalar>,
     Boolean::enforce_equal(cs.namespace(|| "t sum below upper limit"), &res_upper, &Boolean::constant(true))?;
 
     let t_ideal_sum = num::Num::alloc(cs.namespace(|| "2016 * 10 * 60 or 2 weeks"), || Ok(Scalar::from(2016 * 10 * 60 as u64))).unwrap();
+    cs.enforce(|| "t_ideal_sum constant", |lc| lc, |lc| lc, |lc| lc + &t_ideal_sum.num - (Scalar::from(2016 * 10 * 60 as u64), CS::one()));
     let t_2016_10_60 = BigNat::from_num(cs.namespace(|| "BigNat t ideal sum"), t_ideal_sum, 64usize, 1usize).unwrap();
     
     let (t_new, _t) =  prev_targ.mult_mod(cs.namespace(|| "T new compute"), &t_sum, &t_2016_10_60).unwrap();
-- 
2.43.0


From 4a25516e52cb75c0ce72d52734a2bd729354a386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:44 +0000
Subject: [PATCH 26/42] fix: verify_difficulty_update checks the limits of the
 time it computes with

The limits were checked about a second, independent variable.
---
 src/btc_validation/difficulty_update.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/btc_validation/difficulty_update.rs b/src/btc_validation/difficulty_update.rs
index 3467cff..b00ba2a 100644
--- a/src/btc_validation/difficulty_update.rs
+++ b/src/btc_validation/difficulty_update.rs
@@ -19,7 +19,8 @@ where
 Scalar: PrimeField,
 CS: ConstraintSystem<Scalar>,
 {
-    let t_sum_num = num::Num::alloc(cs.namespace(|| "Sum of 2016 blocks timestamps"), || Ok(Scalar::from(sum_timestamps as u64))).unwrap();
+    let fe_t_sum = AllocatedNum::alloc(cs.namespace(|| "Timestamps sum"), || Ok(Scalar::from(sum_timestamps as u64))).unwrap();
+    let t_sum_num = num::Num::from(fe_t_sum.clone());
     let t_sum = BigNat::from_num(cs.namespace(|| "BigNat t_sum"), t_sum_num, 64usize, 2usize).unwrap();
 
     let target_upper = num::Num::alloc(cs.namespace(|| "Most significant 128 bits of target"), || Ok(Scalar::from_u128(current_target_u))).unwrap();
@@ -38,8 +39,6 @@ CS: ConstraintSystem<Scalar>,
 
     // To verify if T_old / 4 < T_new < 4 * T_old
     // is the same as verifying 2016 * 10 * 60 / 4 < t_sum < 2016 * 10 * 60 * 4
-    let fe_t_sum = AllocatedNum::alloc(cs.namespace(|| "Timestamps sum"), || Ok(Scalar::from(sum_timestamps as u64))).unwrap();
-
     let t_sum_lower = AllocatedNum::alloc(cs.namespace(|| "Lower acceptable t_sum"), || Ok(Scalar::from(2016 * 10 * 60 / 4 as u64))).unwrap();
     cs.enforce(|| "lower t_sum constant", |lc| lc, |lc| lc, |lc| lc + t_sum_lower.get_variable() - (Scalar::from(2016 * 10 * 60 / 4 as u64), CS::one()));
     let t_sum_upper = AllocatedNum::alloc(cs.namespace(|| "Upper acceptable t_sum"), || Ok(Scalar::from(2016 * 10 * 60 * 4 as u64))).unwrap();
-- 
2.43.0


From 558a8a3204e763565ce36e29e14411cc3578ab9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:55 +0000
Subject: [PATCH 27/42] fix: the previous target is the least number of its
 field element

256 bits hold more than one representative of a field element, so a prover
could update a target larger than the previous one by the field's modulus.
---
 src/btc_validation/difficulty_update.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/btc_validation/difficulty_update.rs b/src/btc_validation/difficulty_update.rs
index b00ba2a..b79335f 100644
--- a/src/btc_validation/difficulty_update.rs
+++ b/src/btc_validation/difficulty_update.rs
@@ -79,6 +79,9 @@ CS: ConstraintSystem<Scalar>,
 
     let prev_tar = num::Num::from((*prev_target).clone());
     let prev_targ = BigNat::from_num(cs.namespace(|| "BigNat previous target"), prev_tar, 64usize, 4usize).unwrap();
+    // A target has at most 224 bits. The limbs have 256, enough for several numbers
+    // that are the same field element.
+    prev_targ.as_limbs::<CS>()[3].fits_in_bits(cs.namespace(|| "top limb of previous target"), 32)?;
 
     // let target = num::Num::from(*curr_target);
     // let _bignat_tar = BigNat::from_num(cs.namespace(|| "BigNat curr_target"), target, 64usize, 2usize).unwrap();
-- 
2.43.0


From 01e5a473fe5975c7b03f0d827270d8d71a3272d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:32 +0000
Subject: [PATCH 28/42] fix: the header step builds its output vector

It indexed an empty vector, so every call panicked.
---
 src/btc_validation/header_step.rs | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/btc_validation/header_step.rs b/src/btc_validation/header_step.rs
index eaf1bef..ea8ed91 100644
--- a/src/btc_validation/header_step.rs
+++ b/src/btc_validation/header_step.rs
@@ -407,7 +407,7 @@ where
         //
         // If the counter i.e z_i[14] == 2015, then z_out[14] = 0. Else, z_out[14] = z_i[14] + 1.
         let mut z_out: Vec<AllocatedNum<F>> = Vec::new();
-        z_out[0] = curr_hash.clone();
+        z_out.push(curr_hash.clone());
         cs.enforce(
             || "current SHA256d hash out", 
             |lc| lc,
@@ -417,7 +417,7 @@ where
 
         
         for i in 1..=10 {
-            z_out[i] = z_i[i+1].clone();
+            z_out.push(z_i[i+1].clone());
 
             cs.enforce(
                 || format!("timestamp out {}", i), 
@@ -427,7 +427,7 @@ where
             );
         }
 
-        z_out[11] = curr_timestamp.clone();
+        z_out.push(curr_timestamp.clone());
         cs.enforce(
             || "current timestamp out", 
             |lc| lc,
@@ -435,7 +435,7 @@ where
             |lc| lc + z_out[11].get_variable() - curr_timestamp.get_variable(),
         );
 
-        z_out[12] = target.clone();
+        z_out.push(target.clone());
         cs.enforce(
             || "current target out", 
             |lc| lc,
@@ -443,7 +443,7 @@ where
             |lc| lc + z_out[12].get_variable() - target.get_variable(),
         );
 
-        z_out[13] = start_time_epoch.clone();
+        z_out.push(start_time_epoch.clone());
         cs.enforce(
             || "current start time epoch out", 
             |lc| lc,
@@ -451,12 +451,12 @@ where
             |lc| lc + z_out[13].get_variable() - start_time_epoch.get_variable(),
         );
 
-        z_out[14] = AllocatedNum::alloc(cs.namespace(|| "target counter"), || {
+        z_out.push(AllocatedNum::alloc(cs.namespace(|| "target counter"), || {
             let mut prev_ctr = z_i[14].get_value().unwrap();
 
             prev_ctr.add_assign(F::ONE);
             Ok(prev_ctr)
-        }).unwrap();
+        }).unwrap());
 
         cs.enforce(
             || "z_out[14] = z_i[14] + 1", 
@@ -466,13 +466,13 @@ where
         );
 
         // total work
-        z_out[15] = AllocatedNum::alloc(cs.namespace(|| "total work"), || {
+        z_out.push(AllocatedNum::alloc(cs.namespace(|| "total work"), || {
             let prev_total = z_i[15].get_value().unwrap();
             let mut curr_work = block_work.get_value().unwrap();
 
             curr_work.add_assign(&prev_total);
             Ok(curr_work)
-        }).unwrap();
+        }).unwrap());
 
         cs.enforce(
             || "z_out[15] = z_i[15] + block_work", 
-- 
2.43.0


From 38eb6b9b18495843feaad37c44c319fd30e9f8ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:40 +0000
Subject: [PATCH 29/42] fix: the byte order of a header's nBits and time fields

+ and - bind tighter than << and >>, and the lowest byte of the time was
replaced by another one.
---
 src/btc_validation/header_step.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/btc_validation/header_step.rs b/src/btc_validation/header_step.rs
index ea8ed91..83d2fbf 100644
--- a/src/btc_validation/header_step.rs
+++ b/src/btc_validation/header_step.rs
@@ -190,11 +190,11 @@ where
         let n_bits = header[9] >> 32;
         let b0 = n_bits % 256u64;
         let b3 = n_bits >> 24;
-        let b2 = n_bits >> 16 - b3 << 24;
-        let b1 = n_bits >> 8 - b3 << 24 - b2 << 16;
+        let b2 = (n_bits >> 16) % 256u64;
+        let b1 = (n_bits >> 8) % 256u64;
         
         let target = AllocatedNum::alloc(cs.namespace(|| "Block target"), || {
-            let thresh_mantissa = b1 << 16 + b2 << 8 + b3;
+            let thresh_mantissa = (b1 << 16) + (b2 << 8) + b3;
             let exponent = (b0 - 3) as usize;
 
             let targ: F = if exponent >= 13 {
@@ -269,9 +269,9 @@ where
         let n_time = header[8] % (1 << 32);
         let b_t0 = n_time % 256u64; // 4d
         let b_t3 = n_time >> 24;  // a6
-        let b_t2 = n_time >> 16 - b_t3 << 24; // c8
-        let b_t1 = n_time >> 8 - b_t3 << 24 - b_t2 << 16; // cb
-        let n_time_endian = b_t0 << 24 + b_t1 << 16 + b_t2 << 8 + b_t1;
+        let b_t2 = (n_time >> 16) % 256u64; // c8
+        let b_t1 = (n_time >> 8) % 256u64; // cb
+        let n_time_endian = (b_t0 << 24) + (b_t1 << 16) + (b_t2 << 8) + b_t3;
 
         let median_fe = AllocatedNum::alloc(cs.namespace(|| "median"), || Ok(F::from(median as u64))).unwrap();
         let curr_timestamp = AllocatedNum::alloc(cs.namespace(|| "current timestamp"), || Ok(F::from(n_time_endian))).unwrap();
-- 
2.43.0


From 3ccfaaed5980de64ec5e788bf6078f5e387901a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:10 +0000
Subject: [PATCH 30/42] fix: the header step constrains what it checks

The linkage, the proof of work, the median and the time were only asserted
about the witness, which a prover need not do.
---
 src/btc_validation/header_step.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/btc_validation/header_step.rs b/src/btc_validation/header_step.rs
index 83d2fbf..3a4c5a5 100644
--- a/src/btc_validation/header_step.rs
+++ b/src/btc_validation/header_step.rs
@@ -179,7 +179,7 @@ where
 
         // equality check
         let r_prev_hash = BigNat::equals(cs.namespace(|| {"Is prev. hash from current block equal to the last block hash?"}), &z_i[0], &prev_hash).unwrap();
-        assert!(r_prev_hash.get_value().unwrap());
+        boolean::Boolean::enforce_equal(cs.namespace(|| "prev. hash is the last block hash"), &r_prev_hash, &boolean::Boolean::constant(true))?;
         
         // 2. Check if current hash <= target
         //
@@ -244,7 +244,7 @@ where
 
         // less than check
         let r_curr_hash_targ = median::less_than(cs.namespace(|| "Is PoW consensus achieved?"), &curr_hash, &target, 224usize).unwrap();
-        assert!(r_curr_hash_targ.get_value().unwrap());
+        boolean::Boolean::enforce_equal(cs.namespace(|| "PoW consensus is achieved"), &r_curr_hash_targ, &boolean::Boolean::constant(true))?;
 
         // 3. Check if timestamp of the current block is greater than the median of previous 11 timestamps
         //
@@ -260,7 +260,7 @@ where
 
         // verify median
         let r_median = median::verify_median_timestamp(cs.namespace(|| "median verify"), &mut times_vec, median).unwrap();
-        assert!(r_median.get_value().unwrap());
+        boolean::Boolean::enforce_equal(cs.namespace(|| "median is verified"), &r_median, &boolean::Boolean::constant(true))?;
 
         // check if median < current timestamp
         // Taking the example of block no. 123456
@@ -276,7 +276,7 @@ where
         let median_fe = AllocatedNum::alloc(cs.namespace(|| "median"), || Ok(F::from(median as u64))).unwrap();
         let curr_timestamp = AllocatedNum::alloc(cs.namespace(|| "current timestamp"), || Ok(F::from(n_time_endian))).unwrap();
         let r_time = median::less_than(cs.namespace(|| "valid timestamp"), &median_fe, &curr_timestamp, 32usize).unwrap();
-        assert!(r_time.get_value().unwrap());
+        boolean::Boolean::enforce_equal(cs.namespace(|| "timestamp is valid"), &r_time, &boolean::Boolean::constant(true))?;
 
         // 4. Total work addition
         //
-- 
2.43.0


From 992343b4a827411a56c641be2d5f1407b8a2e6ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:19 +0000
Subject: [PATCH 31/42] fix: the header step's median is that of its input
 timestamps

The median was verified about copies of the timestamps and of the median that
nothing tied to the inputs, and timestamps of zero made it panic.
---
 src/btc_validation/header_step.rs | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/src/btc_validation/header_step.rs b/src/btc_validation/header_step.rs
index 3a4c5a5..6c53759 100644
--- a/src/btc_validation/header_step.rs
+++ b/src/btc_validation/header_step.rs
@@ -13,6 +13,7 @@ use crate::mp::bignat::BigNat;
 use crate::util::convert::f_to_nat;
 // use bellpepper::gadgets::num::{AllocatedNum, Num};
 use nova_snark::traits::circuit::StepCircuit;
+use num_traits::ToPrimitive;
 
 #[derive(Clone, Debug)]
 pub struct BlockHeader <F>
@@ -248,18 +249,19 @@ where
 
         // 3. Check if timestamp of the current block is greater than the median of previous 11 timestamps
         //
-        let mut times_vec: Vec<u32> = Vec::new(); 
-        for i in 1..=11 {
-            let timestamp = z_i[i].get_value().unwrap();
-            let (_s, time32) = f_to_nat(&timestamp).to_u32_digits();
-            times_vec.push(time32[0]);
-        }
-
         // compute median
-        let median = median::compute_median_timestamp(&mut times_vec);
+        let median_fe = AllocatedNum::alloc(cs.namespace(|| "median"), || {
+            let mut times_vec: Vec<u32> = Vec::new(); 
+            for i in 1..=11 {
+                let timestamp = z_i[i].get_value().unwrap();
+                times_vec.push(f_to_nat(&timestamp).to_u32().unwrap());
+            }
+
+            Ok(F::from(median::compute_median_timestamp(&mut times_vec) as u64))
+        })?;
 
         // verify median
-        let r_median = median::verify_median_timestamp(cs.namespace(|| "median verify"), &mut times_vec, median).unwrap();
+        let r_median = median::verify_allocated_median(cs.namespace(|| "median verify"), &z_i[1..=11], &median_fe)?;
         boolean::Boolean::enforce_equal(cs.namespace(|| "median is verified"), &r_median, &boolean::Boolean::constant(true))?;
 
         // check if median < current timestamp
@@ -273,7 +275,6 @@ where
         let b_t1 = (n_time >> 8) % 256u64; // cb
         let n_time_endian = (b_t0 << 24) + (b_t1 << 16) + (b_t2 << 8) + b_t3;
 
-        let median_fe = AllocatedNum::alloc(cs.namespace(|| "median"), || Ok(F::from(median as u64))).unwrap();
         let curr_timestamp = AllocatedNum::alloc(cs.namespace(|| "current timestamp"), || Ok(F::from(n_time_endian))).unwrap();
         let r_time = median::less_than(cs.namespace(|| "valid timestamp"), &median_fe, &curr_timestamp, 32usize).unwrap();
         boolean::Boolean::enforce_equal(cs.namespace(|| "timestamp is valid"), &r_time, &boolean::Boolean::constant(true))?;
-- 
2.43.0


From b78b61ff972ecae3f288fec69da6ce818b4207a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:09 +0000
Subject: [PATCH 32/42] fix: the previous hash is read from the header that is
 hashed

The previous hash came from a second copy of part of the header's bits, and the
number compared was not tied to that copy either, so any header could follow
any other. Being 256 bits, it had several values for each field element.
---
 src/btc_validation/header_step.rs | 59 ++++++++++++++++++++-----------
 1 file changed, 39 insertions(+), 20 deletions(-)

diff --git a/src/btc_validation/header_step.rs b/src/btc_validation/header_step.rs
index 6c53759..3ad5927 100644
--- a/src/btc_validation/header_step.rs
+++ b/src/btc_validation/header_step.rs
@@ -5,7 +5,7 @@ use crate::btc_validation::{difficulty_update, median};
 use bellpepper_core::{
     boolean,
     num::AllocatedNum,
-    ConstraintSystem, SynthesisError,
+    ConstraintSystem, LinearCombination, SynthesisError,
 };
 use ff::{PrimeField, PrimeFieldBits};
 use bellpepper::gadgets::sha256;
@@ -112,6 +112,23 @@ where
     }
 }
 
+/// The number whose little endian bytes, each with its most significant bit first, are `bits`
+fn le_bytes_lc<F, CS>(bits: &[boolean::Boolean]) -> LinearCombination<F>
+where
+    F: PrimeField,
+    CS: ConstraintSystem<F>,
+{
+    let mut power = F::ONE;
+    let mut lc = LinearCombination::zero();
+    for byte in bits.chunks(8) {
+        for b in byte.iter().rev() {
+            lc = lc + &b.lc(CS::one(), power);
+            power = power.double();
+        }
+    }
+    lc
+}
+
 impl<F> StepCircuit<F> for BlockHeader <F>
 where
     F: PrimeField + PrimeFieldBits,
@@ -139,24 +156,21 @@ where
         // }
         
 
+        // The bits of the header
+        let mut preimage_vec: Vec<boolean::Boolean> = Vec::new();
+        for (i, preimage64) in header.iter().enumerate() {
+            let mut dummy2 = boolean::u64_into_boolean_vec_le(cs.namespace(|| format!("dummy2 {}", i)), Some(*preimage64)).unwrap();
+            dummy2.reverse();
+            preimage_vec.append(&mut dummy2);
+        }
+
         // 1. Check if prevHash from z and prev_hash_from_curr_block are equal 
         //
         // Taking the example of block no. 123456
         // 0x010000009500c43a 25c624520b5100ad f82cb9f9da72fd24 47a496bc600b0000 000000006cd86237 0395dedf1da2841c cda0fc489e3039de 5f1ccddef0e83499 1a65600ea6c8cb4d b3936a1ae3143991
         // here 0x9500c43a25c624520b5100adf82cb9f9da72fd2447a496bc600b000000000000 is the prevhash (0000000000000b60bc96a44724fd72daf9b92cf8ad00510b5224c6253ac40095)
 
-        let mut prev_hash_from_curr_block_vec: Vec<u64> = Vec::new();
-        for i in 0..4 {
-            let hash_vec = (header[i] % (1 << 32 as u64)) * (1<<32 as u64) + header[i+1] / (1 << 32 as u64);
-            prev_hash_from_curr_block_vec.push(hash_vec);
-        }
-
-        let mut prev_hash_from_curr_block: Vec<boolean::Boolean> = Vec::new();
-        for (i, hash64) in prev_hash_from_curr_block_vec.iter().enumerate() {
-            let mut dummy = boolean::u64_into_boolean_vec_le(cs.namespace(|| format!("dummy {}", i)), Some(*hash64)).unwrap();
-            dummy.reverse();
-            prev_hash_from_curr_block.append(&mut dummy);
-        }
+        let prev_hash_from_curr_block: Vec<boolean::Boolean> = preimage_vec[32..288].to_vec();
 
         let prev_hash = AllocatedNum::alloc(cs.namespace(|| {"last block hash"}), || {
             let mut sum: F = F::ZERO;
@@ -178,6 +192,18 @@ where
             Ok(sum)
         }).unwrap();
 
+        // Constrain allocation:
+        // prev_hash is the number in the header, of at most 224 bits
+        let prev_hash_lc = le_bytes_lc::<F, CS>(&prev_hash_from_curr_block);
+        cs.enforce(
+            || "prev_hash = previous hash bits",
+            |lc| lc,
+            |lc| lc,
+            |lc| lc + prev_hash.get_variable() - &prev_hash_lc,
+        );
+        let prev_hash_top_lc = le_bytes_lc::<F, CS>(&prev_hash_from_curr_block[224..]);
+        cs.enforce(|| "top 32 bits of previous hash are 0", |lc| lc, |lc| lc, |lc| lc + &prev_hash_top_lc);
+
         // equality check
         let r_prev_hash = BigNat::equals(cs.namespace(|| {"Is prev. hash from current block equal to the last block hash?"}), &z_i[0], &prev_hash).unwrap();
         boolean::Boolean::enforce_equal(cs.namespace(|| "prev. hash is the last block hash"), &r_prev_hash, &boolean::Boolean::constant(true))?;
@@ -213,13 +239,6 @@ where
         }).unwrap();
 
         // Current block hash computation
-        let mut preimage_vec: Vec<boolean::Boolean> = Vec::new();
-        for (i, preimage64) in header.iter().enumerate() {
-            let mut dummy2 = boolean::u64_into_boolean_vec_le(cs.namespace(|| format!("dummy2 {}", i)), Some(*preimage64)).unwrap();
-            dummy2.reverse();
-            preimage_vec.append(&mut dummy2);
-        }
-
         let out_sha256 = sha256::sha256(cs.namespace(|| "SHA 256"), &preimage_vec).unwrap();
         let out = sha256::sha256(cs.namespace(|| "SHA 256d"), &out_sha256).unwrap();
         
-- 
2.43.0


From 759f89522e2e9b2fff646d198a6d660b3ba96d75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:18 +0000
Subject: [PATCH 33/42] fix: the current hash is that of the header

The number compared with the target and put out was not tied to the hash. A
hash also met the target when the field's modulus or a multiple of it did not
exceed it by more than the target.
---
 src/btc_validation/header_step.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/btc_validation/header_step.rs b/src/btc_validation/header_step.rs
index 3ad5927..2e96744 100644
--- a/src/btc_validation/header_step.rs
+++ b/src/btc_validation/header_step.rs
@@ -262,6 +262,18 @@ where
             Ok(sum)
         }).unwrap();
 
+        // Constrain allocation:
+        // curr_hash is the hash of the header, of at most 224 bits
+        let curr_hash_lc = le_bytes_lc::<F, CS>(&out);
+        cs.enforce(
+            || "curr_hash = SHA 256d bits",
+            |lc| lc,
+            |lc| lc,
+            |lc| lc + curr_hash.get_variable() - &curr_hash_lc,
+        );
+        let curr_hash_top_lc = le_bytes_lc::<F, CS>(&out[224..]);
+        cs.enforce(|| "top 32 bits of current hash are 0", |lc| lc, |lc| lc, |lc| lc + &curr_hash_top_lc);
+
         // less than check
         let r_curr_hash_targ = median::less_than(cs.namespace(|| "Is PoW consensus achieved?"), &curr_hash, &target, 224usize).unwrap();
         boolean::Boolean::enforce_equal(cs.namespace(|| "PoW consensus is achieved"), &r_curr_hash_targ, &boolean::Boolean::constant(true))?;
-- 
2.43.0


From 51cc12e8efdaa2e8f48642035bff15a464e8f05c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:27 +0000
Subject: [PATCH 34/42] fix: the current timestamp is that of the header

It was a free variable.
---
 src/btc_validation/header_step.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/btc_validation/header_step.rs b/src/btc_validation/header_step.rs
index 2e96744..71ffbfc 100644
--- a/src/btc_validation/header_step.rs
+++ b/src/btc_validation/header_step.rs
@@ -307,6 +307,13 @@ where
         let n_time_endian = (b_t0 << 24) + (b_t1 << 16) + (b_t2 << 8) + b_t3;
 
         let curr_timestamp = AllocatedNum::alloc(cs.namespace(|| "current timestamp"), || Ok(F::from(n_time_endian))).unwrap();
+        let curr_timestamp_lc = le_bytes_lc::<F, CS>(&preimage_vec[544..576]);
+        cs.enforce(
+            || "curr_timestamp = time bits",
+            |lc| lc,
+            |lc| lc,
+            |lc| lc + curr_timestamp.get_variable() - &curr_timestamp_lc,
+        );
         let r_time = median::less_than(cs.namespace(|| "valid timestamp"), &median_fe, &curr_timestamp, 32usize).unwrap();
         boolean::Boolean::enforce_equal(cs.namespace(|| "timestamp is valid"), &r_time, &boolean::Boolean::constant(true))?;
 
-- 
2.43.0


From 922d0559ad1667293a01e818b4d88dcfe000da1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:38 +0000
Subject: [PATCH 35/42] fix: the current target is that of the header

It was a free variable, so a prover could choose the difficulty.
---
 src/btc_validation/header_step.rs | 38 +++++++++++++++++++++++++++++++
 1 file changed, 38 insertions(+)

diff --git a/src/btc_validation/header_step.rs b/src/btc_validation/header_step.rs
index 71ffbfc..39af1d7 100644
--- a/src/btc_validation/header_step.rs
+++ b/src/btc_validation/header_step.rs
@@ -238,6 +238,44 @@ where
             Ok(targ)
         }).unwrap();
 
+        // Constrain allocation:
+        // target_unit = 256^(b0 - 3), that is, target_unit * 2^24 = 256^b0, where b0 has 5 bits
+        let b0_top_lc = le_bytes_lc::<F, CS>(&preimage_vec[600..603]);
+        cs.enforce(|| "top 3 bits of the exponent are 0", |lc| lc, |lc| lc, |lc| lc + &b0_top_lc);
+        let mut target_unit = AllocatedNum::alloc(cs.namespace(|| "256^-3"), || Ok(F::from(1u64 << 24).invert().unwrap()))?;
+        cs.enforce(|| "256^-3 * 2^24 = 1", |lc| lc, |lc| lc, |lc| lc + (F::from(1u64 << 24), target_unit.get_variable()) - CS::one());
+        let mut power = F::from(256u64);
+        for (i, b) in preimage_vec[603..608].iter().rev().enumerate() {
+            // target_unit = target_unit * 256^(2^i) if the bit is set
+            let prev_unit = target_unit;
+            target_unit = AllocatedNum::alloc(cs.namespace(|| format!("target unit {}", i)), || {
+                let mut unit = prev_unit.get_value().unwrap();
+                if b.get_value().unwrap() {
+                    unit.mul_assign(&power);
+                }
+                Ok(unit)
+            })?;
+            let factor_lc = b.lc(CS::one(), power - F::ONE) + CS::one();
+            cs.enforce(
+                || format!("target unit {} product", i),
+                |lc| lc + prev_unit.get_variable(),
+                |lc| lc + &factor_lc,
+                |lc| lc + target_unit.get_variable(),
+            );
+            power = power.square();
+        }
+
+        // Constrain allocation:
+        // target = thresh_mantissa * target_unit, and its sign bit is not set
+        let thresh_mantissa_lc = le_bytes_lc::<F, CS>(&preimage_vec[576..600]);
+        cs.enforce(
+            || "target = thresh_mantissa * target_unit",
+            |lc| lc + &thresh_mantissa_lc,
+            |lc| lc + target_unit.get_variable(),
+            |lc| lc + target.get_variable(),
+        );
+        cs.enforce(|| "target is positive", |lc| lc, |lc| lc, |lc| lc + &preimage_vec[592].lc(CS::one(), F::ONE));
+
         // Current block hash computation
         let out_sha256 = sha256::sha256(cs.namespace(|| "SHA 256"), &preimage_vec).unwrap();
         let out = sha256::sha256(cs.namespace(|| "SHA 256d"), &out_sha256).unwrap();
-- 
2.43.0


From 76b7a2af0d33bde32b84f3dabad422a64b5c1e2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:14 +0000
Subject: [PATCH 36/42] fix: the work of a block is the integer quotient of the
 targets

max_target = target * block_work only has the right solution if the target
divides the maximum, and max_target was a free variable.
---
 src/btc_validation/header_step.rs | 54 ++++++++++++++++++++++---------
 1 file changed, 38 insertions(+), 16 deletions(-)

diff --git a/src/btc_validation/header_step.rs b/src/btc_validation/header_step.rs
index 39af1d7..486bbbd 100644
--- a/src/btc_validation/header_step.rs
+++ b/src/btc_validation/header_step.rs
@@ -10,7 +10,8 @@ use bellpepper_core::{
 use ff::{PrimeField, PrimeFieldBits};
 use bellpepper::gadgets::sha256;
 use crate::mp::bignat::BigNat;
-use crate::util::convert::f_to_nat;
+use crate::util::convert::{f_to_nat, nat_to_f};
+use crate::util::num::Num;
 // use bellpepper::gadgets::num::{AllocatedNum, Num};
 use nova_snark::traits::circuit::StepCircuit;
 use num_traits::ToPrimitive;
@@ -129,6 +130,18 @@ where
     lc
 }
 
+/// The value of `nat`, as a field element
+fn nat_lc<F: PrimeField>(nat: &BigNat<F>) -> LinearCombination<F> {
+    let base = (0..nat.params.limb_width).fold(F::ONE, |power, _| power.double());
+    let mut power = F::ONE;
+    let mut lc = LinearCombination::zero();
+    for limb in nat.limbs.iter() {
+        lc = lc + (power, limb);
+        power.mul_assign(&base);
+    }
+    lc
+}
+
 impl<F> StepCircuit<F> for BlockHeader <F>
 where
     F: PrimeField + PrimeFieldBits,
@@ -365,26 +378,35 @@ where
             Ok(max_thresh)
         }).unwrap();
 
-        let block_work = AllocatedNum::alloc(cs.namespace(|| "work or difficulty"), || {
-            let diff = max_target.get_value().unwrap();
-            let targ = target.get_value().unwrap();
-
-            let diff_big = f_to_nat(&diff);
-            let tar_big = f_to_nat(&targ);
-            let work = diff_big / tar_big;
+        // Constrain allocation:
+        // max_target = 0xFFFF * 2^208
+        let max_target_const = (0..208).fold(F::from(0xFFFFu64), |power, _| power.double());
+        cs.enforce(
+            || "max_target = 0xFFFF * 2^208",
+            |lc| lc,
+            |lc| lc,
+            |lc| lc + max_target.get_variable() - (max_target_const, CS::one()),
+        );
 
-            let (_s2, work_u64) = work.to_u64_digits();
+        // max_target = target * block_work + remainder, of natural numbers (targets have at most 224 bits)
+        let max_target_nat = BigNat::from_num(cs.namespace(|| "BigNat maximum target"), Num::from(max_target), 64usize, 4usize)?;
+        max_target_nat.as_limbs::<CS>()[3].fits_in_bits(cs.namespace(|| "top limb of maximum target"), 32)?;
+        let target_nat = BigNat::from_num(cs.namespace(|| "BigNat target"), Num::from(target.clone()), 64usize, 4usize)?;
+        target_nat.as_limbs::<CS>()[3].fits_in_bits(cs.namespace(|| "top limb of target"), 32)?;
+        let (work_nat, _remainder) = max_target_nat.mult_mod(cs.namespace(|| "maximum target / target"), &BigNat::one::<CS>(64usize), &target_nat)?;
 
-            Ok(F::from(work_u64[0] as u64))
-        }).unwrap();
+        let block_work = AllocatedNum::alloc(cs.namespace(|| "work or difficulty"), || {
+            Ok(nat_to_f(work_nat.value.as_ref().unwrap()).unwrap())
+        })?;
 
         // Constrain allocation:
-        // max_target = target * block_work
+        // block_work is the quotient
+        let work_lc = nat_lc(&work_nat);
         cs.enforce(
-            || "max_target = target * block_work",
-            |lc| lc + target.get_variable(),
-            |lc| lc + block_work.get_variable(),
-            |lc| lc + max_target.get_variable(),
+            || "block_work = maximum target / target",
+            |lc| lc,
+            |lc| lc,
+            |lc| lc + block_work.get_variable() - &work_lc,
         );
 
         // 5. Target update
-- 
2.43.0


From 0b1659bf708c5a8f58e533cc9552ec61113d2390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:09 +0000
Subject: [PATCH 37/42] fix: the target is updated from the time the last epoch
 took

The update used the time the epoch started instead of the time it took, and so
failed for every block; its result was not constrained, and the rounding to the
precision of nBits overflowed.
---
 src/btc_validation/header_step.rs | 67 ++++++++++++++++++++++---------
 1 file changed, 47 insertions(+), 20 deletions(-)

diff --git a/src/btc_validation/header_step.rs b/src/btc_validation/header_step.rs
index 486bbbd..66a1832 100644
--- a/src/btc_validation/header_step.rs
+++ b/src/btc_validation/header_step.rs
@@ -423,26 +423,6 @@ where
             |lc| lc,
         );
 
-        let start_time_epoch = z_i[13].clone();
-        let target_calc = difficulty_update::calculate_difficulty_update(cs.namespace(|| "target calculated"), &z_i[12], &z_i[13]).unwrap();
-        let bigint_tar = target_calc.value.unwrap();
-        let (_s2_calc, target_u64_calc) = bigint_tar.to_u64_digits();
-
-        let calculated_target = AllocatedNum::alloc(cs.namespace(|| "target updated"), || {
-            let exponent = 8 * (b0 - 3) as usize;
-            let ls_tar = F::from_u128(((target_u64_calc[0] as u128) + (target_u64_calc[1] as u128) << 64) >> exponent);
-            let ms64b = F::from_u128((target_u64_calc[2] as u128) << 64);
-            let mut pow_2 = F::from_u128((1 << 64)>>exponent);
-
-            pow_2.mul_assign(&ms64b);
-            pow_2.add_assign(&ls_tar);
-
-            let exp_2 = F::from_u128(1u128 << exponent);
-            pow_2.mul_assign(&exp_2);
-
-            Ok(pow_2)
-        }).unwrap();
-
         // let _r = BigNat::equals(cs.namespace(|| "verify target update"), &target, &calculated_target).unwrap();
         
         // Either the counter z_i[14] is non-zero or curr_target = calc_target = z_i[12] * t_sum / (2016*10*60)
@@ -487,6 +467,53 @@ where
             |lc| lc,
         );
 
+        // The time the last epoch took if `t` is 0, and otherwise 2016*10*60, which changes nothing
+        let start_time_epoch = z_i[13].clone();
+        let two_weeks = F::from(2016 * 10 * 60u64);
+        let t_sum = AllocatedNum::alloc(cs.namespace(|| "time of the last epoch"), || {
+            let mut elapsed = z_i[11].get_value().unwrap();
+            elapsed.sub_assign(&start_time_epoch.get_value().unwrap());
+
+            Ok(if t.get_value().unwrap().is_zero().unwrap_u8() == 1 { elapsed } else { two_weeks })
+        })?;
+
+        // Constrain allocation:
+        // t_sum - 2016*10*60 = (1 - t) * (z_i[11] - z_i[13] - 2016*10*60)
+        cs.enforce(
+            || "t_sum - 2016*10*60 = (1 - t) * (z_i[11] - z_i[13] - 2016*10*60)",
+            |lc| lc + CS::one() - t.get_variable(),
+            |lc| lc + z_i[11].get_variable() - start_time_epoch.get_variable() - (two_weeks, CS::one()),
+            |lc| lc + t_sum.get_variable() - (two_weeks, CS::one()),
+        );
+
+        let target_calc = difficulty_update::calculate_difficulty_update(cs.namespace(|| "target calculated"), &z_i[12], &t_sum)?;
+
+        let calculated_target = AllocatedNum::alloc(cs.namespace(|| "target updated"), || {
+            let exponent = 8 * (b0 - 3) as usize;
+            let bigint_tar = target_calc.value.as_ref().unwrap();
+
+            Ok(nat_to_f(&((bigint_tar >> exponent) << exponent)).unwrap())
+        })?;
+
+        // The update has the precision of the current target:
+        // 0 <= target_calc - calculated_target < target_unit, a power of 256 that the current target is a multiple of
+        let rounding = AllocatedNum::alloc(cs.namespace(|| "rounding of the update"), || {
+            let mut diff: F = nat_to_f(target_calc.value.as_ref().unwrap()).unwrap();
+            diff.sub_assign(&calculated_target.get_value().unwrap());
+
+            Ok(diff)
+        })?;
+        let target_calc_lc = nat_lc(&target_calc);
+        cs.enforce(
+            || "target_calc = calculated_target + rounding",
+            |lc| lc,
+            |lc| lc,
+            |lc| lc + &target_calc_lc - calculated_target.get_variable() - rounding.get_variable(),
+        );
+        Num::from(rounding.clone()).fits_in_bits(cs.namespace(|| "rounding fits"), 224)?;
+        let r_rounding = median::less_than(cs.namespace(|| "rounding less than target unit"), &rounding, &target_unit, 225usize)?;
+        boolean::Boolean::enforce_equal(cs.namespace(|| "update is rounded"), &r_rounding, &boolean::Boolean::constant(true))?;
+
         // Constrain:
         // (curr_target - calc_target) * (t - 1) == 0
         // This enforces that correct `delta_inv` was provided,
-- 
2.43.0


From dd94a2d1fb32d789f58b34fb32aa15ec65667bd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:19 +0000
Subject: [PATCH 38/42] fix: the first block of an epoch sets the epoch's start
 time

---
 src/btc_validation/header_step.rs | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/btc_validation/header_step.rs b/src/btc_validation/header_step.rs
index 66a1832..7577b4a 100644
--- a/src/btc_validation/header_step.rs
+++ b/src/btc_validation/header_step.rs
@@ -526,8 +526,21 @@ where
         );
 
         
-        // Either the counter z_i[14] is not equal to 2015 or start_time_epoch = z_i[13]
+        // Either the counter z_i[14] is non-zero and start_time_epoch = z_i[13], or the current block starts an epoch
+        let new_start_time_epoch = AllocatedNum::alloc(cs.namespace(|| "start time of the epoch"), || {
+            let start = if t.get_value().unwrap().is_zero().unwrap_u8() == 1 { &curr_timestamp } else { &start_time_epoch };
 
+            Ok(start.get_value().unwrap())
+        })?;
+
+        // Constrain allocation:
+        // new_start_time_epoch - z_i[13] = (1 - t) * (curr_timestamp - z_i[13])
+        cs.enforce(
+            || "new_start_time_epoch - z_i[13] = (1 - t) * (curr_timestamp - z_i[13])",
+            |lc| lc + CS::one() - t.get_variable(),
+            |lc| lc + curr_timestamp.get_variable() - start_time_epoch.get_variable(),
+            |lc| lc + new_start_time_epoch.get_variable() - start_time_epoch.get_variable(),
+        );
 
         // 6. z_out
         //
@@ -569,12 +582,12 @@ where
             |lc| lc + z_out[12].get_variable() - target.get_variable(),
         );
 
-        z_out.push(start_time_epoch.clone());
+        z_out.push(new_start_time_epoch.clone());
         cs.enforce(
             || "current start time epoch out", 
             |lc| lc,
             |lc| lc,
-            |lc| lc + z_out[13].get_variable() - start_time_epoch.get_variable(),
+            |lc| lc + z_out[13].get_variable() - new_start_time_epoch.get_variable(),
         );
 
         z_out.push(AllocatedNum::alloc(cs.namespace(|| "target counter"), || {
-- 
2.43.0


From c3f220c90e654b103f4a46402328bd8185e5f198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:28 +0000
Subject: [PATCH 39/42] fix: the counter of blocks in an epoch wraps at 2016

It grew for ever, so that the target was never updated.
---
 src/btc_validation/header_step.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/btc_validation/header_step.rs b/src/btc_validation/header_step.rs
index 7577b4a..c45bdfd 100644
--- a/src/btc_validation/header_step.rs
+++ b/src/btc_validation/header_step.rs
@@ -590,17 +590,23 @@ where
             |lc| lc + z_out[13].get_variable() - new_start_time_epoch.get_variable(),
         );
 
+        let last_counter = AllocatedNum::alloc(cs.namespace(|| "last counter of an epoch"), || Ok(F::from(2015u64)))?;
+        cs.enforce(|| "last counter is 2015", |lc| lc, |lc| lc, |lc| lc + last_counter.get_variable() - (F::from(2015u64), CS::one()));
+        let last_of_epoch = BigNat::equals(cs.namespace(|| "last block of an epoch"), &z_i[14], &last_counter)?;
         z_out.push(AllocatedNum::alloc(cs.namespace(|| "target counter"), || {
             let mut prev_ctr = z_i[14].get_value().unwrap();
+            if last_of_epoch.get_value().unwrap() {
+                return Ok(F::ZERO);
+            }
 
             prev_ctr.add_assign(F::ONE);
             Ok(prev_ctr)
         }).unwrap());
 
         cs.enforce(
-            || "z_out[14] = z_i[14] + 1", 
+            || "z_out[14] = (z_i[14] + 1) * (1 - last_of_epoch)", 
             |lc| lc + CS::one() + z_i[14].get_variable(),
-            |lc| lc + CS::one(),
+            |lc| lc + CS::one() - &last_of_epoch.lc(CS::one(), F::ONE),
             |lc| lc + z_out[14].get_variable(),
         );
 
-- 
2.43.0


From 1425a1f6d4da4700152aca5206ec4a60e6d4cbfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:24 +0000
Subject: [PATCH 40/42] fix: names in the header step without the separator of
 namespaces

---
 src/btc_validation/header_step.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/btc_validation/header_step.rs b/src/btc_validation/header_step.rs
index c45bdfd..1368b19 100644
--- a/src/btc_validation/header_step.rs
+++ b/src/btc_validation/header_step.rs
@@ -393,7 +393,7 @@ where
         max_target_nat.as_limbs::<CS>()[3].fits_in_bits(cs.namespace(|| "top limb of maximum target"), 32)?;
         let target_nat = BigNat::from_num(cs.namespace(|| "BigNat target"), Num::from(target.clone()), 64usize, 4usize)?;
         target_nat.as_limbs::<CS>()[3].fits_in_bits(cs.namespace(|| "top limb of target"), 32)?;
-        let (work_nat, _remainder) = max_target_nat.mult_mod(cs.namespace(|| "maximum target / target"), &BigNat::one::<CS>(64usize), &target_nat)?;
+        let (work_nat, _remainder) = max_target_nat.mult_mod(cs.namespace(|| "maximum target by target"), &BigNat::one::<CS>(64usize), &target_nat)?;
 
         let block_work = AllocatedNum::alloc(cs.namespace(|| "work or difficulty"), || {
             Ok(nat_to_f(work_nat.value.as_ref().unwrap()).unwrap())
@@ -403,7 +403,7 @@ where
         // block_work is the quotient
         let work_lc = nat_lc(&work_nat);
         cs.enforce(
-            || "block_work = maximum target / target",
+            || "block_work = maximum target by target",
             |lc| lc,
             |lc| lc,
             |lc| lc + block_work.get_variable() - &work_lc,
-- 
2.43.0


From e7c8fecd1825f1b8a401143bf5ac7840d8b5fb56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:49 +0000
Subject: [PATCH 41/42] fix: a number joined from parts not all known claims no
 limb values

---
 src/mp/bignat.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/mp/bignat.rs b/src/mp/bignat.rs
index c6448ef..703d09a 100644
--- a/src/mp/bignat.rs
+++ b/src/mp/bignat.rs
@@ -657,11 +657,10 @@ impl<Scalar: PrimeField> BigNat<Scalar> {
         };
         let mut limbs = other.limbs.clone();
         limbs.extend(self.limbs.iter().cloned());
-        let mut limb_values = other.limb_values.clone();
-        limb_values.as_mut().map(|x| {
+        let limb_values = other.limb_values.as_ref().and_then(|x| {
             self.limb_values
                 .as_ref()
-                .map(|y| x.extend(y.iter().cloned()))
+                .map(|y| x.iter().chain(y.iter()).cloned().collect())
         });
         let value = self.value.clone().and_then(|sv| {
             other
-- 
2.43.0


From 4eac17b57c3bb6add390d84085a1781f0f609e65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:44 +0000
Subject: [PATCH 42/42] fix: refuse to assert numbers of different limb widths
 equal limb by limb

---
 src/mp/bignat.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/mp/bignat.rs b/src/mp/bignat.rs
index 703d09a..315bc6b 100644
--- a/src/mp/bignat.rs
+++ b/src/mp/bignat.rs
@@ -1324,6 +1324,14 @@ impl<Scalar: PrimeField> Gadget for BigNat<Scalar> {
     fn access(&self) -> &() {
         &()
     }
+    /// Limbs of different widths do not compare one by one
+    fn assert_equal<CS: ConstraintSystem<Scalar>>(
+        cs: CS,
+        i0: &Self,
+        i1: &Self,
+    ) -> Result<(), SynthesisError> {
+        i0.equal(cs, i1)
+    }
     fn mux<CS: ConstraintSystem<Scalar>>(
         mut cs: CS,
         s: &Bit<Scalar>,
-- 
2.43.0

