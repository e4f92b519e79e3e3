From b215b3a065fe58495ef55006405aaa36e6c425c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:30 +0000
Subject: [PATCH 01/32] fix: GCM must not hash a padding block when data is
 block-aligned

---
 crylib/src/aead/gcm.rs | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/crylib/src/aead/gcm.rs b/crylib/src/aead/gcm.rs
index 02f1734..5463492 100644
--- a/crylib/src/aead/gcm.rs
+++ b/crylib/src/aead/gcm.rs
@@ -159,13 +159,11 @@ impl<C: aes::AesCipher> Gcm<C> {
             add_block(&mut tag, block.try_into().unwrap(), self.h);
         }
 
-        let last_block = {
+        if !remainder.is_empty() {
             let mut last_block = [0; aes::BLOCK_SIZE];
             last_block[..remainder.len()].copy_from_slice(remainder);
-            last_block
-        };
-
-        add_block(&mut tag, last_block, self.h);
+            add_block(&mut tag, last_block, self.h);
+        }
 
         // TODO: use `array_chunks` once stabilized
         let blocks = cipher_text.chunks_exact(aes::BLOCK_SIZE);
@@ -175,13 +173,11 @@ impl<C: aes::AesCipher> Gcm<C> {
             add_block(&mut tag, block.try_into().unwrap(), self.h);
         }
 
-        let last_block = {
+        if !remainder.is_empty() {
             let mut last_block = [0; aes::BLOCK_SIZE];
             last_block[..remainder.len()].copy_from_slice(remainder);
-            last_block
-        };
-
-        add_block(&mut tag, last_block, self.h);
+            add_block(&mut tag, last_block, self.h);
+        }
 
         tag ^= ((add_data.len() as u128 * 8) << 64) | cipher_text.len() as u128 * 8;
         tag = gf_2to128_mul(tag, self.h);
-- 
2.43.0


From 0ff2200492c6471785004624712aaaf4193fec5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:45 +0000
Subject: [PATCH 02/32] fix: HMAC must hash keys longer than the hash block

---
 crylib/src/hmac.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/crylib/src/hmac.rs b/crylib/src/hmac.rs
index 1042448..5932b74 100644
--- a/crylib/src/hmac.rs
+++ b/crylib/src/hmac.rs
@@ -16,6 +16,14 @@ where
     H: BlockHasher<H_LEN, B_LEN>,
 {
     pub fn new(key: &[u8]) -> Self {
+        // keys longer than a block are hashed first
+        let hashed_key;
+        let key = if key.len() > B_LEN {
+            hashed_key = H::hash(key);
+            &hashed_key[..]
+        } else {
+            key
+        };
         let mut ipad = [0x36; B_LEN];
         let mut opad = [0x5c; B_LEN];
         for ((ipad_byte, opad_byte), key_byte) in ipad.iter_mut().zip(opad.iter_mut()).zip(key) {
-- 
2.43.0


From d2029829727ec7f85d401001ea5ee214463d5ddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:47 +0000
Subject: [PATCH 03/32] fix: chacha20::encrypt must leave the buffer past the
 message alone

---
 crylib/src/aead/chacha/chacha20.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crylib/src/aead/chacha/chacha20.rs b/crylib/src/aead/chacha/chacha20.rs
index 591a09f..fdf3e58 100644
--- a/crylib/src/aead/chacha/chacha20.rs
+++ b/crylib/src/aead/chacha/chacha20.rs
@@ -124,7 +124,7 @@ pub fn encrypt_inline(msg: &mut [u8], key: &[u8; 32], nonce: &[u8; 12], start_c:
 /// more than once with the same key
 pub fn encrypt(msg: &[u8], key: &[u8; 32], nonce: &[u8; 12], counter: u32, buf: &mut [u8]) {
     buf[..msg.len()].copy_from_slice(msg);
-    encrypt_inline(buf, key, nonce, counter);
+    encrypt_inline(&mut buf[..msg.len()], key, nonce, counter);
 }
 
 #[cfg(test)]
-- 
2.43.0


From 791c61530bce7137441c226a0fb79d7af0cc49a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:49 +0000
Subject: [PATCH 04/32] fix: borrow an array as a UBigInt instead of panicking

---
 crylib/src/big_int/unsigned.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crylib/src/big_int/unsigned.rs b/crylib/src/big_int/unsigned.rs
index 15af54a..2b29e78 100644
--- a/crylib/src/big_int/unsigned.rs
+++ b/crylib/src/big_int/unsigned.rs
@@ -944,7 +944,7 @@ impl<const N: usize> AsMut<[u64; N]> for UBigInt<N> {
 
 impl<const N: usize> AsRef<UBigInt<N>> for [u64; N] {
     fn as_ref(&self) -> &UBigInt<N> {
-        todo!()
+        UBigInt::from_ref(self)
     }
 }
 
-- 
2.43.0


From 1cf6a25dabfb85f9ed169f8576cd3c3c5ae5ef3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:52 +0000
Subject: [PATCH 05/32] fix: FieldElement::mul_digit put the carry in the wrong
 digit for width 3

---
 crylib/src/finite_field/field_element.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crylib/src/finite_field/field_element.rs b/crylib/src/finite_field/field_element.rs
index cac90f4..a7e0024 100644
--- a/crylib/src/finite_field/field_element.rs
+++ b/crylib/src/finite_field/field_element.rs
@@ -208,7 +208,7 @@ macro_rules! impl_field_element {
                 for i in 0..$n {
                     (buf.0[i], carry) = crate::big_int::carry_mul(self.0 .0[i], digit, carry);
                 }
-                buf.0[buf.len() - 1] = carry;
+                buf.0[$n] = carry;
                 unsafe { Self::new_unchecked(buf.div(&F::MODULUS.resize()).1.resize()) }
             }
 
-- 
2.43.0


From f45af3b37ec4e7f9e8e588d32cce0db713cd4ae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:53 +0000
Subject: [PATCH 06/32] fix: BigInt ordering was reversed in cmp and wrong on
 overflow

---
 crylib/src/big_int/signed.rs | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/crylib/src/big_int/signed.rs b/crylib/src/big_int/signed.rs
index 417568f..da9142c 100644
--- a/crylib/src/big_int/signed.rs
+++ b/crylib/src/big_int/signed.rs
@@ -275,7 +275,9 @@ impl_big_int!(8);
 
 impl<const N: usize> PartialOrd for BigInt<N> {
     fn lt(&self, other: &Self) -> bool {
-        self.sub(other).is_negative
+        // the subtraction only overflows if the signs differ
+        let signs_differ = self.is_negative ^ other.is_negative;
+        (signs_differ & self.is_negative) | (!signs_differ & self.sub(other).is_negative)
     }
 
     fn le(&self, other: &Self) -> bool {
@@ -283,7 +285,7 @@ impl<const N: usize> PartialOrd for BigInt<N> {
     }
 
     fn gt(&self, other: &Self) -> bool {
-        other.sub(self).is_negative
+        other.lt(self)
     }
 
     fn ge(&self, other: &Self) -> bool {
@@ -297,11 +299,10 @@ impl<const N: usize> PartialOrd for BigInt<N> {
 
 impl<const N: usize> Ord for BigInt<N> {
     fn cmp(&self, other: &Self) -> core::cmp::Ordering {
-        let cmped = self.sub(other);
-        match cmped.is_negative {
-            true => core::cmp::Ordering::Greater,
-            false if self.digits == other.digits => core::cmp::Ordering::Equal,
-            false => core::cmp::Ordering::Less,
+        match self.lt(other) {
+            true => core::cmp::Ordering::Less,
+            false if self == other => core::cmp::Ordering::Equal,
+            false => core::cmp::Ordering::Greater,
         }
     }
 }
-- 
2.43.0


From fd2cdedf528de02e436a22ee8248fea48fbd83b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:55 +0000
Subject: [PATCH 07/32] fix: BigInt::abs returned neither the value nor its
 negation

---
 crylib/src/big_int/signed.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/crylib/src/big_int/signed.rs b/crylib/src/big_int/signed.rs
index da9142c..15fdfa4 100644
--- a/crylib/src/big_int/signed.rs
+++ b/crylib/src/big_int/signed.rs
@@ -200,9 +200,14 @@ impl<const N: usize> BigInt<N> {
     /// # Constant-timedness
     /// This is a constant-time operation.
     pub fn abs_assign(&mut self) {
-        let temp = *self;
-        self.neg_assign();
-        self.xor_assign(&temp);
+        // `-1` if `self` is negative, otherwise `0`
+        let mask = Self {
+            digits: UBigInt::MAX.and_bool(self.is_negative),
+            is_negative: self.is_negative,
+        };
+        self.add_assign(&mask);
+        self.xor_assign(&mask);
+        self.is_negative = false;
     }
 
     /// Returns the absolute value of `self`.
@@ -212,7 +217,9 @@ impl<const N: usize> BigInt<N> {
     /// # Constant-timedness
     /// This is a constant-time operation.
     pub fn abs(&self) -> Self {
-        self.xor(&self.neg())
+        let mut buf = *self;
+        buf.abs_assign();
+        buf
     }
 
     pub fn resize<const O: usize>(self) -> BigInt<O> {
-- 
2.43.0


From b3e8f4e53786b57aba66f99b5f34fee4a5a1a03b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:57 +0000
Subject: [PATCH 08/32] fix: BigInt multiplication, division and widening
 resize of negative numbers

---
 crylib/src/big_int/signed.rs | 60 ++++++++++++++++++++++++++----------
 1 file changed, 43 insertions(+), 17 deletions(-)

diff --git a/crylib/src/big_int/signed.rs b/crylib/src/big_int/signed.rs
index 15fdfa4..a469266 100644
--- a/crylib/src/big_int/signed.rs
+++ b/crylib/src/big_int/signed.rs
@@ -223,8 +223,13 @@ impl<const N: usize> BigInt<N> {
     }
 
     pub fn resize<const O: usize>(self) -> BigInt<O> {
+        let mut digits: UBigInt<O> = self.digits.resize();
+        if O > N && self.is_negative {
+            // the two's compliment of a negative number is extended with ones
+            digits.0[N..].fill(u64::MAX);
+        }
         BigInt {
-            digits: self.digits.resize(),
+            digits,
             is_negative: self.is_negative,
         }
     }
@@ -241,17 +246,35 @@ macro_rules! impl_big_int {
             /// # Constant-timedness
             /// TODO: document constant-timedness
             pub fn div(&self, rhs: &Self) -> (Self, Self) {
-                let (quotient, remainder) = self.digits.div(&rhs.digits);
-                let quotient = Self {
-                    digits: quotient,
-                    is_negative: (self.is_negative() ^ rhs.is_negative())
-                        & (self != &Self::ZERO)
-                        & (rhs != &Self::ZERO),
-                };
-                let remainder = Self {
-                    digits: remainder,
-                    is_negative: self.is_negative,
+                // the absolute value of `Self::MIN` doesn't fit in `digits`
+                if rhs == &Self::MIN {
+                    return match self == rhs {
+                        true => (Self::ONE, Self::ZERO),
+                        false => (Self::ZERO, *self),
+                    };
+                }
+                let divisor = rhs.abs().digits;
+                let dividend = match self == &Self::MIN {
+                    true => UBigInt::MAX,
+                    false => self.abs().digits,
                 };
+                let (quotient, remainder) = dividend.div(&divisor);
+                let mut quotient: Self = quotient.into();
+                let mut remainder: Self = remainder.into();
+                if self == &Self::MIN {
+                    remainder.add_assign(&Self::ONE);
+                    if remainder.digits == divisor {
+                        remainder = Self::ZERO;
+                        quotient.add_assign(&Self::ONE);
+                    }
+                }
+
+                if self.is_negative() ^ rhs.is_negative() {
+                    quotient.neg_assign();
+                }
+                if self.is_negative() {
+                    remainder.neg_assign();
+                }
                 (quotient, remainder)
             }
 
@@ -264,13 +287,16 @@ macro_rules! impl_big_int {
             ///
             /// The product is twice the width of the input, so overflow cannot occur.
             pub fn widening_mul(&self, rhs: &Self) -> BigInt<{ $n * 2 }> {
-                let product = self.digits.widening_mul(&rhs.digits);
-                BigInt::<{ $n * 2 }> {
-                    digits: product,
-                    is_negative: (self.is_negative() ^ rhs.is_negative())
-                        & (self != &Self::ZERO)
-                        & (rhs != &Self::ZERO),
+                let mut product = BigInt::from(self.digits.widening_mul(&rhs.digits));
+                // a negative number's digits are too big by `2^(64 * n)`
+                for (number, other) in [(self, rhs), (rhs, self)] {
+                    let mut excess = BigInt::<{ $n * 2 }>::ZERO;
+                    excess.digits.0[$n..]
+                        .copy_from_slice(&other.digits.and_bool(number.is_negative).0);
+                    product.sub_assign(&excess);
                 }
+                product.is_negative ^= self.is_negative & rhs.is_negative;
+                product
             }
         }
     };
-- 
2.43.0


From 1c3cfe73d9afcf90da8ce990418e8e349488f6a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:38 +0000
Subject: [PATCH 09/32] fix: projective addition of equal points and doubling
 of infinity

---
 crylib/src/ec/point/projective.rs | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/crylib/src/ec/point/projective.rs b/crylib/src/ec/point/projective.rs
index 1ab66e3..129f5d1 100644
--- a/crylib/src/ec/point/projective.rs
+++ b/crylib/src/ec/point/projective.rs
@@ -70,7 +70,12 @@ impl<C: EllipticCurve> ProjectivePoint<C> {
         if rhs.is_infinity() {
             return *self;
         }
-        Self::add_fast(self, rhs)
+        let sum = Self::add_fast(self, rhs);
+        if sum.is_infinity() && sum.y == FieldElement::ZERO {
+            // the addition formula doesn't work if both points are equal
+            return self.double();
+        }
+        sum
     }
 
     /// Adds `self` and `rhs`, returning [`POINT_AT_INF`] if either point is infinity.
@@ -124,17 +129,13 @@ impl<C: EllipticCurve> ProjectivePoint<C> {
     }
 
     pub fn add_assign(&mut self, rhs: &Self) {
-        if self.is_infinity() {
-            *self = *rhs;
-            return;
-        }
-        if rhs.is_infinity() {
-            return;
-        }
-        self.add_assign_fast(rhs);
+        *self = self.add(rhs);
     }
 
     pub fn double(&self) -> Self {
+        if self.is_infinity() {
+            return Self::POINT_AT_INF;
+        }
         let w = {
             let mut three_x_sqr = self.x.sqr();
             three_x_sqr.mul_digit_assign(3);
-- 
2.43.0


From 079196e6343ede01c10dd3e35501760cf17edb5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:40 +0000
Subject: [PATCH 10/32] fix: ECDSA signing with an unusable nonce must just try
 the next one

---
 crylib/src/ec/ecdsa.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/crylib/src/ec/ecdsa.rs b/crylib/src/ec/ecdsa.rs
index 4e15925..0f35282 100644
--- a/crylib/src/ec/ecdsa.rs
+++ b/crylib/src/ec/ecdsa.rs
@@ -51,11 +51,14 @@ pub fn sign<C: EllipticCurve>(
     hash_func: impl FnOnce(&[u8]) -> [u8; 32],
     random_num_gen: impl Fn() -> FieldElement<4, C::Order>,
 ) -> Signature<C::Order> {
-    let mut hash: FieldElement<4, C::Order> =
+    let hash: FieldElement<4, C::Order> =
         FieldElement::<4, _>::new(UBigInt::<4>::from_be_bytes(hash_func(msg)));
 
     loop {
         let secret_num = random_num_gen();
+        if secret_num == FieldElement::ZERO {
+            continue;
+        }
         let mut inverse = secret_num.inverse();
 
         let Some(new_point) = C::BASE_POINT.mul_scalar(&secret_num).as_affine() else {
@@ -64,8 +67,7 @@ pub fn sign<C: EllipticCurve>(
 
         let r = new_point.x_ref().convert();
 
-        hash.add_assign(&r.mul(priv_key));
-        inverse.mul_assign(&hash);
+        inverse.mul_assign(&hash.add(&r.mul(priv_key)));
 
         if r != FieldElement::ZERO && inverse != FieldElement::ZERO {
             return Signature::new(r, inverse);
-- 
2.43.0


From 6c6d1da0d170224421615b405673670db33285e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:42 +0000
Subject: [PATCH 11/32] fix: ECDSA verification must reject signatures with a
 zero

---
 crylib/src/ec/ecdsa.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crylib/src/ec/ecdsa.rs b/crylib/src/ec/ecdsa.rs
index 0f35282..edfeb6a 100644
--- a/crylib/src/ec/ecdsa.rs
+++ b/crylib/src/ec/ecdsa.rs
@@ -82,6 +82,9 @@ pub fn verify_signature<C: EllipticCurve>(
     hash_func: impl FnOnce(&[u8]) -> [u8; 32],
     sig: &Signature<C::Order>,
 ) -> Result<ValidSig, InvalidSig> {
+    if sig.r == FieldElement::ZERO || sig.s == FieldElement::ZERO {
+        return Err(InvalidSig);
+    }
     let hash: FieldElement<4, C::Order> =
         FieldElement::<4, _>::new(UBigInt::<4>::from_be_bytes(hash_func(msg)));
     let inverse = sig.s.inverse();
-- 
2.43.0


From 4de955adaf9993d638faef26d40f0af0ef553e0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:54 +0000
Subject: [PATCH 12/32] fix: and_bool must not be compiled into a branch on its
 operand

---
 crylib/src/big_int/unsigned.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crylib/src/big_int/unsigned.rs b/crylib/src/big_int/unsigned.rs
index 2b29e78..d78ae5f 100644
--- a/crylib/src/big_int/unsigned.rs
+++ b/crylib/src/big_int/unsigned.rs
@@ -360,7 +360,8 @@ impl<const N: usize> UBigInt<N> {
     /// # Constant-timedness
     /// This is a constant-time operation.
     pub fn and_bool_assign(&mut self, rhs: bool) {
-        let mask = (rhs as u64).wrapping_neg();
+        // the barrier keeps the compiler from branching on `rhs`
+        let mask = core::hint::black_box(rhs as u64).wrapping_neg();
         for digit in self.0.iter_mut() {
             *digit &= mask
         }
-- 
2.43.0


From 29e3cb1044408e42ef7cfcfeb3acc7d50365eefb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:56 +0000
Subject: [PATCH 13/32] fix: BigInt::is_positive must not compare digits with
 early exit

---
 crylib/src/big_int/signed.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crylib/src/big_int/signed.rs b/crylib/src/big_int/signed.rs
index a469266..0f1b634 100644
--- a/crylib/src/big_int/signed.rs
+++ b/crylib/src/big_int/signed.rs
@@ -152,7 +152,7 @@ impl<const N: usize> BigInt<N> {
     /// This is a constant-time operation.
     #[inline]
     pub fn is_positive(&self) -> bool {
-        !self.is_negative & (self.digits != UBigInt::ZERO)
+        !self.is_negative & (self.digits.count_digits() != 0)
     }
 
     /// Converts `self` into its one's compliment
-- 
2.43.0


From d2164bb2590e0b87aa6d9a1f34dbe76f52401f61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:23 +0000
Subject: [PATCH 14/32] fix: shifts must not be compiled into a branch on the
 shift amount

---
 crylib/src/big_int/unsigned.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crylib/src/big_int/unsigned.rs b/crylib/src/big_int/unsigned.rs
index d78ae5f..f658a47 100644
--- a/crylib/src/big_int/unsigned.rs
+++ b/crylib/src/big_int/unsigned.rs
@@ -389,7 +389,7 @@ impl<const N: usize> UBigInt<N> {
     pub fn shift_right_assign(&mut self, mut rhs: u64) {
         rhs %= 64;
         let left_shift = (64 - rhs) % 64;
-        let mask = ((rhs != 0) as u64).wrapping_neg();
+        let mask = core::hint::black_box((rhs != 0) as u64).wrapping_neg();
 
         for i in 0..N - 1 {
             self.0[i] >>= rhs;
@@ -415,7 +415,7 @@ impl<const N: usize> UBigInt<N> {
     pub fn shift_left_assign(&mut self, mut rhs: u64) {
         rhs %= 64;
         let right_shift = (64 - rhs) % 64;
-        let mask = ((rhs != 0) as u64).wrapping_neg();
+        let mask = core::hint::black_box((rhs != 0) as u64).wrapping_neg();
 
         for i in (1..N).rev() {
             self.0[i] <<= rhs;
@@ -697,7 +697,7 @@ macro_rules! impl_non_generic {
                 rhs %= 64;
                 let mut expanded = [0u64; $n + 1];
                 let right_shift = (64 - rhs) % 64;
-                let mask = ((rhs != 0) as u64).wrapping_neg();
+                let mask = core::hint::black_box((rhs != 0) as u64).wrapping_neg();
 
                 expanded[$n] = self.0[$n - 1] >> right_shift & mask;
                 for i in (1..$n).rev() {
-- 
2.43.0


From b3fc028d20d4d26f128c432c03f27cad8cd22db8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:08 +0000
Subject: [PATCH 15/32] fix: accept protected records up to 2^14 + 256 bytes,
 and no larger content

---
 src/record/read.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/record/read.rs b/src/record/read.rs
index 190c016..a38a3c1 100644
--- a/src/record/read.rs
+++ b/src/record/read.rs
@@ -69,7 +69,13 @@ impl RecordLayer {
                             .try_into()
                             .unwrap(),
                     ) as usize;
-                    if self.rbuf.len > Self::MAX_LEN {
+                    // Protection adds the content type, padding and a tag.
+                    let max_len = if self.msg_type() == ContentType::ApplicationData.to_byte() {
+                        Self::MAX_LEN + Self::SUFFIX_SIZE
+                    } else {
+                        Self::MAX_LEN
+                    };
+                    if self.rbuf.len > max_len {
                         return Err(FullError::sending_alert(TurtlsAlert::RecordOverflow));
                     }
                     self.rbuf.status = ReadStatus::NeedsData(0);
@@ -140,6 +146,9 @@ impl RecordLayer {
         self.rbuf.len -= padding;
         self.rbuf.buf[0] = self.rbuf.buf[Self::HEADER_SIZE + self.rbuf.len - 1];
         self.rbuf.len -= 1;
+        if self.rbuf.len > Self::MAX_LEN {
+            return Err(TurtlsAlert::RecordOverflow);
+        }
         Ok(())
     }
 
-- 
2.43.0


From d2f5369a6f63d9323199b88617deda743df3f335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:10 +0000
Subject: [PATCH 16/32] fix: do not act on unprotected or silently skip empty
 records after key agreement

---
 src/record/read.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/record/read.rs b/src/record/read.rs
index a38a3c1..2ed19a3 100644
--- a/src/record/read.rs
+++ b/src/record/read.rs
@@ -30,6 +30,8 @@ pub(super) struct ReadBuf {
     ///
     /// This does not include the header.
     len: usize,
+    /// Whether the current record is still as it was received, i.e. has not been deprotected.
+    is_raw: bool,
     status: ReadStatus,
 }
 
@@ -38,6 +40,7 @@ impl ReadBuf {
         Self {
             buf: [0; RecordLayer::BUF_SIZE],
             len: 0,
+            is_raw: true,
             status: ReadStatus::new(),
         }
     }
@@ -90,7 +93,10 @@ impl RecordLayer {
                         };
                         *bytes_read += new_bytes;
                     }
+                    self.rbuf.is_raw = true;
                     self.rbuf.status = ReadStatus::Moving(0);
+                    // Even an empty record must be seen by the caller.
+                    return Ok(());
                 },
                 ReadStatus::Moving(bytes_moved) => {
                     if bytes_moved == self.rbuf.len {
@@ -116,9 +122,12 @@ impl RecordLayer {
     /// Decrypts the current record and remove any padding.
     fn deprotect(&mut self, aead: &mut TlsAead) -> Result<(), TurtlsAlert> {
         // Only deprotect the record if it's already protected.
-        if self.msg_type() != ContentType::ApplicationData.to_byte() {
+        if !self.rbuf.is_raw || self.msg_type() == ContentType::ChangeCipherSpec.to_byte() {
             return Ok(());
         }
+        if self.msg_type() != ContentType::ApplicationData.to_byte() {
+            return Err(TurtlsAlert::UnexpectedMessage);
+        }
 
         if self.rbuf.len < Self::MIN_PROT_LEN {
             return Err(TurtlsAlert::DecodeError);
@@ -146,6 +155,10 @@ impl RecordLayer {
         self.rbuf.len -= padding;
         self.rbuf.buf[0] = self.rbuf.buf[Self::HEADER_SIZE + self.rbuf.len - 1];
         self.rbuf.len -= 1;
+        self.rbuf.is_raw = false;
+        if self.msg_type() == ContentType::ChangeCipherSpec.to_byte() {
+            return Err(TurtlsAlert::UnexpectedMessage);
+        }
         if self.rbuf.len > Self::MAX_LEN {
             return Err(TurtlsAlert::RecordOverflow);
         }
-- 
2.43.0


From fb0c230b470bb2ce00d69d57e826f40e774f0e4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:41 +0000
Subject: [PATCH 17/32] fix: check the type of every record a handshake message
 spans

---
 src/handshake.rs   | 27 +++++++++++++++------------
 src/record/read.rs | 19 ++++++++++++++++---
 2 files changed, 31 insertions(+), 15 deletions(-)

diff --git a/src/handshake.rs b/src/handshake.rs
index f6f3f8b..1d6e408 100644
--- a/src/handshake.rs
+++ b/src/handshake.rs
@@ -213,21 +213,24 @@ impl ShakeBuf {
         mut get_fn: impl FnMut(&mut RecordLayer) -> Result<(), FullError>,
         transcript: &mut TranscriptHasher,
     ) -> Result<(), FullError> {
+        // Gets the next record that belongs to a handshake message.
+        let mut get_fn = |rl: &mut RecordLayer| {
+            get_fn(rl)?;
+            while rl.msg_type() == ContentType::ChangeCipherSpec.to_byte() {
+                rl.check_change_cipher_spec()
+                    .map_err(|alert| FullError::sending_alert(alert))?;
+                rl.discard();
+                get_fn(rl)?;
+            }
+            rl.check_alert()?;
+            if rl.msg_type() != ContentType::Handshake.to_byte() {
+                return Err(FullError::sending_alert(TurtlsAlert::UnexpectedMessage));
+            }
+            Ok(())
+        };
         loop {
             match self.status {
                 ReadStatus::NeedsHeader(ref mut amt) => {
-                    if *amt == 0 {
-                        get_fn(rl)?;
-                        if rl.msg_type() == ContentType::ChangeCipherSpec.to_byte() {
-                            rl.discard();
-                            get_fn(rl)?;
-                        }
-                        rl.check_alert()
-                            .map_err(|alert| FullError::recving_alert(alert))?;
-                        if rl.msg_type() != ContentType::Handshake.to_byte() {
-                            return Err(FullError::sending_alert(TurtlsAlert::UnexpectedMessage));
-                        }
-                    }
                     while *amt < Self::HEADER_SIZE {
                         get_fn(rl)?;
                         let new_bytes = rl.read_remaining(&mut self.buf[*amt..Self::HEADER_SIZE]);
diff --git a/src/record/read.rs b/src/record/read.rs
index 2ed19a3..7714d14 100644
--- a/src/record/read.rs
+++ b/src/record/read.rs
@@ -1,6 +1,6 @@
 use super::{ContentType, RecordLayer};
 use crate::aead::TlsAead;
-use crate::alert::TurtlsAlert;
+use crate::alert::{AlertMsg, TurtlsAlert};
 use crate::error::FullError;
 use crate::TurtlsError;
 
@@ -198,9 +198,22 @@ impl RecordLayer {
         self.rbuf.status = ReadStatus::new();
     }
 
-    pub(crate) fn check_alert(&self) -> Result<(), TurtlsAlert> {
+    /// Checks that the current record is a valid compatibility change_cipher_spec.
+    pub(crate) fn check_change_cipher_spec(&self) -> Result<(), TurtlsAlert> {
+        if self.rbuf.buf[Self::HEADER_SIZE..][..self.rbuf.len] != [1] {
+            return Err(TurtlsAlert::UnexpectedMessage);
+        }
+        Ok(())
+    }
+
+    pub(crate) fn check_alert(&self) -> Result<(), FullError> {
         if self.msg_type() == ContentType::Alert.to_byte() {
-            Err(TurtlsAlert::from_byte(self.rbuf.buf[Self::HEADER_SIZE + 1]))
+            if self.rbuf.len != AlertMsg::SIZE {
+                return Err(FullError::sending_alert(TurtlsAlert::DecodeError));
+            }
+            Err(FullError::recving_alert(TurtlsAlert::from_byte(
+                self.rbuf.buf[Self::HEADER_SIZE + 1],
+            )))
         } else {
             Ok(())
         }
-- 
2.43.0


From 7bbb95b4e24febeed84a603ba0aa482c59ec3b60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:42 +0000
Subject: [PATCH 18/32] fix: reject data after the ServerHello in its record

---
 src/handshake.rs   | 7 +++++++
 src/record/read.rs | 5 +++++
 2 files changed, 12 insertions(+)

diff --git a/src/handshake.rs b/src/handshake.rs
index 1d6e408..0e82a32 100644
--- a/src/handshake.rs
+++ b/src/handshake.rs
@@ -49,6 +49,13 @@ pub(crate) fn handshake_client(
                             }
                             global_state.error = err
                         })?;
+                    // The keys change after this message so it must end its record.
+                    if global_state.rl.has_remaining() {
+                        let alert = TurtlsAlert::UnexpectedMessage;
+                        global_state.rl.close_raw(alert);
+                        global_state.error = FullError::sending_alert(alert);
+                        return Err(());
+                    }
                     let aead =
                         server_hello_client(shake_state.buf.data(), unprot_state, global_state)
                             .map_err(|alert| {
diff --git a/src/record/read.rs b/src/record/read.rs
index 7714d14..c1dcd3b 100644
--- a/src/record/read.rs
+++ b/src/record/read.rs
@@ -180,6 +180,11 @@ impl RecordLayer {
         new_bytes
     }
 
+    /// Whether a part of the current record has not yet been moved.
+    pub(crate) fn has_remaining(&self) -> bool {
+        matches!(self.rbuf.status, ReadStatus::Moving(bytes_moved) if bytes_moved < self.rbuf.len)
+    }
+
     /// Reads data into `buf` until either the entire record has been read or `buf` is full.
     ///
     /// Returns the number of bytes read.
-- 
2.43.0


From a1b86ac48213df98e6a7d8282480f86f2b1ae922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:44 +0000
Subject: [PATCH 19/32] fix: grow the handshake buffer instead of panicking

---
 src/handshake.rs | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/handshake.rs b/src/handshake.rs
index 0e82a32..0095a40 100644
--- a/src/handshake.rs
+++ b/src/handshake.rs
@@ -191,9 +191,16 @@ impl ShakeBuf {
         self.buf[1..][..Self::LEN_SIZE].copy_from_slice(&[0; Self::LEN_SIZE]);
     }
 
+    /// Grows the buffer to hold at least `size` bytes.
+    fn grow(&mut self, size: usize) {
+        let mut buf = std::mem::take(&mut self.buf).into_vec();
+        buf.resize(size.next_power_of_two(), 0);
+        self.buf = buf.into_boxed_slice();
+    }
+
     pub(crate) fn push(&mut self, value: u8) {
         if self.len + Self::HEADER_SIZE + 1 > self.buf.len() {
-            todo!("grow handshake buffer");
+            self.grow(self.len + Self::HEADER_SIZE + 1);
         }
         self.buf[self.len + Self::HEADER_SIZE] = value;
         self.len += 1;
@@ -201,7 +208,7 @@ impl ShakeBuf {
 
     pub(crate) fn extend_from_slice(&mut self, slice: &[u8]) {
         if self.len + Self::HEADER_SIZE + slice.len() > self.buf.len() {
-            todo!("grow handshake buffer");
+            self.grow(self.len + Self::HEADER_SIZE + slice.len());
         }
         self.buf[Self::HEADER_SIZE + self.len..][..slice.len()].copy_from_slice(slice);
         self.len += slice.len();
@@ -248,8 +255,11 @@ impl ShakeBuf {
                     }
                     self.len =
                         u32::from_be_bytes([0, self.buf[1], self.buf[2], self.buf[3]]) as usize;
-                    if self.len > self.buf.len() {
-                        todo!("grow handshake buffer");
+                    if self.len + Self::HEADER_SIZE > self.max_size {
+                        return Err(FullError::sending_alert(TurtlsAlert::IllegalParam));
+                    }
+                    if self.len + Self::HEADER_SIZE > self.buf.len() {
+                        self.grow(self.len + Self::HEADER_SIZE);
                     }
                     self.status = ReadStatus::NeedsData(0);
                 },
-- 
2.43.0


From af6385b2fb840af011a2940819c48a0da1b231c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:27 +0000
Subject: [PATCH 20/32] fix: resume an interrupted ClientHello where it stopped

---
 src/handshake.rs    | 20 +++++++++++---------
 src/record/write.rs |  6 ++++--
 src/state.rs        |  1 +
 3 files changed, 16 insertions(+), 11 deletions(-)

diff --git a/src/handshake.rs b/src/handshake.rs
index 0095a40..e8d9fb0 100644
--- a/src/handshake.rs
+++ b/src/handshake.rs
@@ -32,9 +32,13 @@ pub(crate) fn handshake_client(
                     client_hello_client(unprot_state, &mut shake_state.buf, config)
                         .map_err(|err| global_state.error.turtls_error = err)?;
 
+                    shake_state.buf.finish(&mut global_state.transcript);
+                    *next = UnprotShakeMsg::SendClientHello;
+                },
+                UnprotShakeMsg::SendClientHello => {
                     shake_state
                         .buf
-                        .write_raw(&mut global_state.rl, &mut global_state.transcript)
+                        .write_raw(&mut global_state.rl)
                         .map_err(|err| global_state.error.turtls_error = err)?;
 
                     *next = UnprotShakeMsg::ServerHello;
@@ -302,14 +306,15 @@ impl ShakeBuf {
         self.read_inner(rl, get_fn, transcript)
     }
 
-    pub(crate) fn write_raw(
-        &mut self,
-        rl: &mut RecordLayer,
-        transcript: &mut TranscriptHasher,
-    ) -> Result<(), TurtlsError> {
+    /// Completes a message to be written by [`ShakeBuf::write_raw`] or [`ShakeBuf::write`].
+    pub(crate) fn finish(&mut self, transcript: &mut TranscriptHasher) {
         self.encode_len();
 
         transcript.update_with(&self.buf[..Self::HEADER_SIZE + self.len]);
+    }
+
+    /// Writes a finished message. If it fails, it can be called again to write the rest.
+    pub(crate) fn write_raw(&mut self, rl: &mut RecordLayer) -> Result<(), TurtlsError> {
         rl.write_raw(
             &self.buf[..Self::HEADER_SIZE + self.len],
             ContentType::Handshake,
@@ -319,11 +324,8 @@ impl ShakeBuf {
     pub(crate) fn write(
         &mut self,
         rl: &mut RecordLayer,
-        transcript: &mut TranscriptHasher,
         aead: &mut TlsAead,
     ) -> Result<(), TurtlsError> {
-        self.encode_len();
-        transcript.update_with(&self.buf);
         rl.write(
             &self.buf[..Self::HEADER_SIZE + self.len],
             ContentType::Handshake,
diff --git a/src/record/write.rs b/src/record/write.rs
index 9fd3e89..cfb43fd 100644
--- a/src/record/write.rs
+++ b/src/record/write.rs
@@ -14,7 +14,7 @@ pub(super) struct WriteBuf {
     /// This does not include the header.
     len: usize,
     record_bytes: usize,
-    /// The total number of bytes written to IO.
+    /// The number of bytes of the current message written to IO in complete records.
     total_bytes: usize,
 }
 
@@ -48,6 +48,7 @@ impl RecordLayer {
                 .copy_from_slice(&buf[self.wbuf.total_bytes..][..record_size]);
             self.wbuf.len = record_size;
             self.finish_raw()?;
+            self.wbuf.total_bytes += record_size;
         }
         self.wbuf.total_bytes = 0;
         Ok(())
@@ -64,7 +65,9 @@ impl RecordLayer {
             self.wbuf.buf[Self::HEADER_SIZE..][..record.len()].copy_from_slice(record);
             self.wbuf.len = record.len();
             self.finish(msg_type, aead)?;
+            self.wbuf.total_bytes += record.len();
         }
+        self.wbuf.total_bytes = 0;
         Ok(())
     }
 
@@ -95,7 +98,6 @@ impl RecordLayer {
                 .ok_or(TurtlsError::WantWrite)?;
             self.wbuf.record_bytes += bytes_written as usize;
         }
-        self.wbuf.total_bytes += self.wbuf.record_bytes;
         self.wbuf.record_bytes = 0;
         Ok(())
     }
diff --git a/src/state.rs b/src/state.rs
index 2c8ed6a..954ac0a 100644
--- a/src/state.rs
+++ b/src/state.rs
@@ -72,6 +72,7 @@ pub(crate) enum MaybeProt {
 #[derive(PartialEq, Eq)]
 pub(crate) enum UnprotShakeMsg {
     ClientHello,
+    SendClientHello,
     ServerHello,
 }
 
-- 
2.43.0


From a3d9934cce434e85538d97f08d6459f68d91138e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:29 +0000
Subject: [PATCH 21/32] fix: end the handshake on a fatal error and start the
 next one afresh

---
 src/lib.rs          | 10 ++++++++++
 src/record.rs       |  6 ++++++
 src/record/read.rs  |  6 ++++++
 src/record/write.rs | 11 +++++++++++
 src/state.rs        | 10 ++++++++++
 5 files changed, 43 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 3545854..bb3a078 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -78,6 +78,7 @@ pub unsafe extern "C" fn turtls_connect(tls_conn: *mut TurtlsConn) -> c_int {
     loop {
         match tls_conn.state {
             TlsStatus::None => {
+                tls_conn.gloabl_state.reset();
                 match ShakeState::new(&tls_conn.config) {
                     Ok(state) => tls_conn.state = TlsStatus::Shake(state),
                     Err(err) => {
@@ -95,6 +96,15 @@ pub unsafe extern "C" fn turtls_connect(tls_conn: *mut TurtlsConn) -> c_int {
                 if let Err(()) =
                     handshake_client(shake_state, &mut tls_conn.gloabl_state, &tls_conn.config)
                 {
+                    match tls_conn.gloabl_state.error.turtls_error {
+                        // These errors are resumable.
+                        TurtlsError::WantRead | TurtlsError::WantWrite => (),
+                        TurtlsError::TlsPeer => {
+                            tls_conn.gloabl_state.rl.hang_up();
+                            tls_conn.state = TlsStatus::None;
+                        },
+                        _ => tls_conn.state = TlsStatus::None,
+                    }
                     return -1;
                 }
                 todo!()
diff --git a/src/record.rs b/src/record.rs
index 41ed28a..27c634b 100644
--- a/src/record.rs
+++ b/src/record.rs
@@ -108,4 +108,10 @@ impl RecordLayer {
             io,
         }
     }
+
+    /// Forgets all records of the previous connection.
+    pub(crate) fn reset(&mut self) {
+        self.rbuf.reset();
+        self.wbuf.reset();
+    }
 }
diff --git a/src/record/read.rs b/src/record/read.rs
index c1dcd3b..068009e 100644
--- a/src/record/read.rs
+++ b/src/record/read.rs
@@ -44,6 +44,12 @@ impl ReadBuf {
             status: ReadStatus::new(),
         }
     }
+
+    pub(super) fn reset(&mut self) {
+        self.len = 0;
+        self.is_raw = true;
+        self.status = ReadStatus::new();
+    }
 }
 
 impl RecordLayer {
diff --git a/src/record/write.rs b/src/record/write.rs
index cfb43fd..19968ff 100644
--- a/src/record/write.rs
+++ b/src/record/write.rs
@@ -29,6 +29,12 @@ impl WriteBuf {
         [buf.buf[1], buf.buf[2]] = LEGACY_PROTO_VERS.to_be_bytes();
         buf
     }
+
+    pub(super) fn reset(&mut self) {
+        self.len = 0;
+        self.record_bytes = 0;
+        self.total_bytes = 0;
+    }
 }
 
 impl RecordLayer {
@@ -115,6 +121,11 @@ impl RecordLayer {
         self.io.close();
     }
 
+    /// Closes the connection without alerting the peer.
+    pub(crate) fn hang_up(&mut self) {
+        self.io.close();
+    }
+
     pub(crate) fn close(&mut self, alert: TurtlsAlert, aead: &mut TlsAead) {
         let _ = self.write(
             &AlertMsg::new(alert).to_be_bytes(),
diff --git a/src/state.rs b/src/state.rs
index 954ac0a..ccf4397 100644
--- a/src/state.rs
+++ b/src/state.rs
@@ -41,6 +41,16 @@ pub(crate) struct GlobalState {
     pub(crate) app_proto: [u8; 256],
 }
 
+impl GlobalState {
+    /// Forgets everything about the previous connection.
+    pub(crate) fn reset(&mut self) {
+        self.error = FullError::default();
+        self.rl.reset();
+        self.transcript = TranscriptHasher::new();
+        self.app_proto = [0; 256];
+    }
+}
+
 pub(crate) enum TlsStatus {
     None,
     Shake(ShakeState),
-- 
2.43.0


From 1ca9815832e6f718e3e48b5c23377139ea16d926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:30 +0000
Subject: [PATCH 22/32] fix: protect the closing alert and never send it inside
 another record

---
 src/lib.rs          | 14 ++++++++++----
 src/record/write.rs | 23 +++++++++++++++++------
 2 files changed, 27 insertions(+), 10 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index bb3a078..8306cb8 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -23,6 +23,7 @@ use crylib::hash::Sha256;
 use crylib::hkdf;
 
 use handshake::handshake_client;
+use state::MaybeProt;
 use state::ShakeState;
 use state::TlsStatus;
 
@@ -128,10 +129,15 @@ pub unsafe extern "C" fn turtls_close(tls_conn: *mut TurtlsConn) {
     // SAFETY: the caller guarantees that the pointer is valid.
     let tls_conn = unsafe { &mut *tls_conn };
 
-    if let TlsStatus::None = tls_conn.state {
-        return;
+    let rl = &mut tls_conn.gloabl_state.rl;
+    match tls_conn.state {
+        TlsStatus::None => return,
+        TlsStatus::Shake(ShakeState {
+            state: MaybeProt::Prot { ref mut aead, .. },
+            ..
+        })
+        | TlsStatus::App { ref mut aead } => rl.close(TurtlsAlert::CloseNotify, aead),
+        TlsStatus::Shake(_) => rl.close_raw(TurtlsAlert::CloseNotify),
     }
-
-    tls_conn.gloabl_state.rl.close_raw(TurtlsAlert::CloseNotify);
     tls_conn.state = TlsStatus::None;
 }
diff --git a/src/record/write.rs b/src/record/write.rs
index 19968ff..4e2d720 100644
--- a/src/record/write.rs
+++ b/src/record/write.rs
@@ -116,8 +116,17 @@ impl RecordLayer {
         *tag = aead.encrypt_inline(msg, header);
     }
 
+    /// Abandons the current message. Returns whether an alert can follow, which it can't if a
+    /// record has been partially written.
+    fn start_alert(&mut self) -> bool {
+        self.wbuf.total_bytes = 0;
+        self.wbuf.record_bytes == 0
+    }
+
     pub(crate) fn close_raw(&mut self, alert: TurtlsAlert) {
-        let _ = self.write_raw(&AlertMsg::new(alert).to_be_bytes(), ContentType::Alert);
+        if self.start_alert() {
+            let _ = self.write_raw(&AlertMsg::new(alert).to_be_bytes(), ContentType::Alert);
+        }
         self.io.close();
     }
 
@@ -127,11 +136,13 @@ impl RecordLayer {
     }
 
     pub(crate) fn close(&mut self, alert: TurtlsAlert, aead: &mut TlsAead) {
-        let _ = self.write(
-            &AlertMsg::new(alert).to_be_bytes(),
-            ContentType::Alert,
-            aead,
-        );
+        if self.start_alert() {
+            let _ = self.write(
+                &AlertMsg::new(alert).to_be_bytes(),
+                ContentType::Alert,
+                aead,
+            );
+        }
         self.io.close();
     }
 }
-- 
2.43.0


From fd61598ccbe381be1e36f4f3839d2552668d157e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:21:06 +0000
Subject: [PATCH 23/32] fix: unknown configuration bits must not corrupt the
 ClientHello

---
 src/cipher_suites.rs        | 4 +++-
 src/extensions/key_share.rs | 5 +++--
 src/extensions/sig_algs.rs  | 8 ++++++--
 3 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/cipher_suites.rs b/src/cipher_suites.rs
index 2951cf1..22a8bf6 100644
--- a/src/cipher_suites.rs
+++ b/src/cipher_suites.rs
@@ -23,7 +23,9 @@ impl TurtlsCipherList {
     pub(crate) const LEN_SIZE: usize = 2;
 
     pub(crate) const fn len(&self) -> usize {
-        self.suites.count_ones() as usize * size_of::<CipherSuite>()
+        let suites = self.suites
+            & (Self::TURTLS_CHA_CHA_POLY1305_SHA256 | Self::TURTLS_AES_128_GCM_SHA256);
+        suites.count_ones() as usize * size_of::<CipherSuite>()
     }
 
     pub(crate) fn write_to(&self, buf: &mut ShakeBuf) {
diff --git a/src/extensions/key_share.rs b/src/extensions/key_share.rs
index 8275f9a..5fd7f89 100644
--- a/src/extensions/key_share.rs
+++ b/src/extensions/key_share.rs
@@ -58,7 +58,7 @@ pub(crate) struct GroupKeys {
 
 impl GroupKeys {
     pub(crate) fn generate(groups: u16) -> Result<Self, TurtlsError> {
-        if groups == 0 {
+        if groups & TURTLS_SECP256R1 == 0 {
             return Err(TurtlsError::MissingExtensions);
         }
         let mut buf = [0; 32];
@@ -120,7 +120,8 @@ impl TurtlsExts {
     }
 
     pub(super) const fn sup_groups_len(&self) -> usize {
-        Self::LEN_SIZE + self.sup_groups.count_ones() as usize * size_of::<NamedGroup>()
+        let groups = self.sup_groups & TURTLS_SECP256R1;
+        Self::LEN_SIZE + groups.count_ones() as usize * size_of::<NamedGroup>()
     }
 
     pub(super) fn write_sup_groups(&self, shake_buf: &mut ShakeBuf) {
diff --git a/src/extensions/sig_algs.rs b/src/extensions/sig_algs.rs
index 415d498..d33e06f 100644
--- a/src/extensions/sig_algs.rs
+++ b/src/extensions/sig_algs.rs
@@ -57,11 +57,15 @@ pub const TURTLS_ECDSA_SECP256R1: u16 = 0b0000000000000001;
 
 impl TurtlsExts {
     pub(super) const fn sig_algs_len(&self) -> usize {
-        self.sig_algs.count_ones() as usize * size_of::<SignatureScheme>() + Self::LEN_SIZE
+        let algs = self.sig_algs & TURTLS_ECDSA_SECP256R1;
+        if algs == 0 {
+            return 0;
+        }
+        algs.count_ones() as usize * size_of::<SignatureScheme>() + Self::LEN_SIZE
     }
 
     pub(super) fn write_sig_algs(&self, shake_buf: &mut ShakeBuf) {
-        if self.sig_algs == 0 {
+        if self.sig_algs_len() == 0 {
             return;
         }
         shake_buf.extend_from_slice(&ExtensionType::SignatureAlgorithms.to_be_bytes());
-- 
2.43.0


From 422c70fc9f4519d03fc8d5c9f0f2cda16f43c148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:21:08 +0000
Subject: [PATCH 24/32] fix: refuse a private key that is a multiple of the
 curve's order

---
 src/extensions/key_share.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/extensions/key_share.rs b/src/extensions/key_share.rs
index 5fd7f89..ee69b80 100644
--- a/src/extensions/key_share.rs
+++ b/src/extensions/key_share.rs
@@ -70,9 +70,11 @@ impl GroupKeys {
 
         // SAFETY: `[u64; 4]` and `[u8; 32]` have the same memory layout.
         let as_u64s: [u64; 4] = unsafe { std::mem::transmute(buf) };
-        return Ok(Self {
-            secp256r1: FieldElement::<4, _>::new(UBigInt(as_u64s)),
-        });
+        let secp256r1 = FieldElement::<4, _>::new(UBigInt(as_u64s));
+        if secp256r1.into_inner() == UBigInt::ZERO {
+            return Err(TurtlsError::PrivKeyIsZero);
+        }
+        return Ok(Self { secp256r1 });
     }
 }
 
-- 
2.43.0


From e8231fc26ad8be41f46a08aa60c68ea0ebba79b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:10 +0000
Subject: [PATCH 25/32] fix: check the type, session id, compression and retry
 value of the ServerHello

---
 src/handshake.rs    | 24 ++++++++++++++++++------
 src/server_hello.rs | 21 ++++++++++++++++++++-
 2 files changed, 38 insertions(+), 7 deletions(-)

diff --git a/src/handshake.rs b/src/handshake.rs
index e8d9fb0..ce48eb6 100644
--- a/src/handshake.rs
+++ b/src/handshake.rs
@@ -60,12 +60,16 @@ pub(crate) fn handshake_client(
                         global_state.error = FullError::sending_alert(alert);
                         return Err(());
                     }
-                    let aead =
-                        server_hello_client(shake_state.buf.data(), unprot_state, global_state)
-                            .map_err(|alert| {
-                                global_state.rl.close_raw(alert);
-                                global_state.error = FullError::sending_alert(alert);
-                            })?;
+                    let aead = shake_state
+                        .buf
+                        .check_type(ShakeType::ServerHello)
+                        .and_then(|()| {
+                            server_hello_client(shake_state.buf.data(), unprot_state, global_state)
+                        })
+                        .map_err(|alert| {
+                            global_state.rl.close_raw(alert);
+                            global_state.error = FullError::sending_alert(alert);
+                        })?;
                     shake_state.state = MaybeProt::Prot {
                         next: ProtShakeMsg::EncryptedExtensions,
                         aead,
@@ -341,6 +345,14 @@ impl ShakeBuf {
         self.buf[0]
     }
 
+    /// Checks that the message is the type of message that is due.
+    pub(crate) fn check_type(&self, msg_type: ShakeType) -> Result<(), TurtlsAlert> {
+        if self.msg_type() != msg_type.to_byte() {
+            return Err(TurtlsAlert::UnexpectedMessage);
+        }
+        Ok(())
+    }
+
     pub(crate) fn encode_len(&mut self) {
         let len = (self.len as u32).to_be_bytes();
         self.buf[1..][..Self::LEN_SIZE].copy_from_slice(&len[1..]);
diff --git a/src/server_hello.rs b/src/server_hello.rs
index a285584..11d48cc 100644
--- a/src/server_hello.rs
+++ b/src/server_hello.rs
@@ -1,6 +1,6 @@
 use crate::aead::TlsAead;
 use crate::cipher_suites::{CipherSuite, TurtlsCipherList};
-use crate::client_hello::RANDOM_BYTES_LEN;
+use crate::client_hello::{LEGACY_SESSION_ID, RANDOM_BYTES_LEN};
 use crate::extensions::versions::ProtocolVersion;
 use crate::extensions::{self, TurtlsExts};
 use crate::state::{GlobalState, UnprotShakeState};
@@ -13,6 +13,12 @@ pub(crate) const MIN_LEN: usize = size_of::<ProtocolVersion>()
     + 1
     + TurtlsExts::LEN_SIZE;
 
+/// The random bytes that make a ServerHello a HelloRetryRequest.
+const RETRY_REQUEST_RANDOM: [u8; RANDOM_BYTES_LEN] = [
+    0xcf, 0x21, 0xad, 0x74, 0xe5, 0x9a, 0x61, 0x11, 0xbe, 0x1d, 0x8c, 0x02, 0x1e, 0x65, 0xb8, 0x91,
+    0xc2, 0xa2, 0x11, 0x16, 0x7a, 0xbb, 0x8c, 0x5e, 0x07, 0x9e, 0x09, 0xe2, 0xc8, 0xa8, 0x33, 0x9c,
+];
+
 pub(crate) fn server_hello_client(
     ser_hel: &[u8],
     unprot_state: &mut UnprotShakeState,
@@ -24,11 +30,20 @@ pub(crate) fn server_hello_client(
 
     let mut pos = size_of::<ProtocolVersion>() + RANDOM_BYTES_LEN;
 
+    // Retrying isn't supported.
+    if ser_hel[size_of::<ProtocolVersion>()..pos] == RETRY_REQUEST_RANDOM {
+        return Err(TurtlsAlert::HandshakeFailure);
+    }
+
     let leg_session_id_len = ser_hel[pos];
 
     if leg_session_id_len > 32 {
         return Err(TurtlsAlert::DecodeError);
     }
+    // The server must echo the session ID.
+    if leg_session_id_len != LEGACY_SESSION_ID {
+        return Err(TurtlsAlert::IllegalParam);
+    }
     pos += size_of_val(&leg_session_id_len) + leg_session_id_len as usize;
 
     unprot_state.ciphers.suites &= TurtlsCipherList::parse_singular(
@@ -39,6 +54,10 @@ pub(crate) fn server_hello_client(
     .suites;
     pos += size_of::<CipherSuite>();
 
+    // The only compression method offered.
+    if ser_hel[pos] != 0 {
+        return Err(TurtlsAlert::IllegalParam);
+    }
     pos += 1;
 
     extensions::parse_ser_hel_exts(&ser_hel[pos..], unprot_state, global_state)
-- 
2.43.0


From 52e83087d0ecf2dda3036c2c7f26ea54765cd034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:35 +0000
Subject: [PATCH 26/32] fix: check the lengths and the form of the server's key
 share

---
 src/extensions/key_share.rs | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/extensions/key_share.rs b/src/extensions/key_share.rs
index ee69b80..321ae95 100644
--- a/src/extensions/key_share.rs
+++ b/src/extensions/key_share.rs
@@ -147,6 +147,10 @@ pub(crate) fn secp256r1_shared_secret(
     key_share: &[u8],
     group_keys: &GroupKeys,
 ) -> Option<[u8; 32]> {
+    // the form and the two coordinates
+    if key_share.len() != 65 || key_share[0] != KEY_SHARE_LEGACY_FORM {
+        return None;
+    }
     let raw_x = UBigInt::<4>::from_be_bytes(key_share[1..][..32].try_into().unwrap());
     let x: FieldElement<4, Secp256r1> = FieldElement::try_from(raw_x).ok()?;
 
@@ -164,10 +168,22 @@ pub(super) fn parse_ser(
     shake_crypto: &mut UnprotShakeState,
     state: &mut GlobalState,
 ) -> Result<TlsAead, TurtlsAlert> {
-    match &key_share[..size_of::<NamedGroup>()] {
+    const HEADER_SIZE: usize = size_of::<NamedGroup>() + TurtlsExts::LEN_SIZE;
+
+    if key_share.len() < HEADER_SIZE {
+        return Err(TurtlsAlert::DecodeError);
+    }
+    let (header, key) = key_share.split_at(HEADER_SIZE);
+    let (group, len) = header.split_at(size_of::<NamedGroup>());
+    let len = u16::from_be_bytes(len.try_into().unwrap()) as usize;
+
+    if len != key.len() {
+        return Err(TurtlsAlert::DecodeError);
+    }
+    match group {
         x if x == NamedGroup::Secp256r1.to_be_bytes() && shake_crypto.sup_groups != 0 => {
             let dh_secret = secp256r1_shared_secret(
-                &key_share[size_of::<NamedGroup>() + TurtlsExts::LEN_SIZE..],
+                key,
                 &shake_crypto.priv_keys,
             )
             .ok_or(TurtlsAlert::IllegalParam)?;
-- 
2.43.0


From cd4bf9b2ec346147b7653f2319212a9d75b2e0d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:37 +0000
Subject: [PATCH 27/32] fix: reject malformed extension lists instead of
 panicking or ignoring the rest

---
 src/extensions.rs | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/extensions.rs b/src/extensions.rs
index b019eea..e49f8a3 100644
--- a/src/extensions.rs
+++ b/src/extensions.rs
@@ -166,25 +166,29 @@ impl<'a> ExtIter<'a> {
 }
 
 impl<'a> Iterator for ExtIter<'a> {
-    type Item = ExtRef<'a>;
+    /// Anything left that isn't an extension is an error.
+    type Item = Result<ExtRef<'a>, TurtlsAlert>;
     fn next(&mut self) -> Option<Self::Item> {
-        if self.exts.len() < TurtlsExts::HEADER_SIZE {
+        if self.exts.is_empty() {
             return None;
         }
+        if self.exts.len() < TurtlsExts::HEADER_SIZE {
+            return Some(Err(TurtlsAlert::DecodeError));
+        }
         let len = u16::from_be_bytes([
             self.exts[TurtlsExts::HEADER_SIZE - 2],
             self.exts[TurtlsExts::HEADER_SIZE - 1],
         ]) as usize;
-        if len > self.exts.len() {
-            return None;
+        if len > self.exts.len() - TurtlsExts::HEADER_SIZE {
+            return Some(Err(TurtlsAlert::DecodeError));
         }
         let ext;
         (ext, self.exts) = self.exts.split_at(len + TurtlsExts::HEADER_SIZE);
         let ext_type = [ext[0], ext[1]];
-        Some(ExtRef {
+        Some(Ok(ExtRef {
             ext_type,
             data: &ext[TurtlsExts::HEADER_SIZE..],
-        })
+        }))
     }
 }
 
@@ -203,6 +207,7 @@ pub(crate) fn parse_ser_hel_exts(
     }
 
     for ext in ExtIter::new(exts) {
+        let ext = ext?;
         match ext.ext_type {
             x if x == ExtensionType::SupportedVersions.to_be_bytes() => {
                 versions::parse_ser(ext.data)?;
@@ -228,6 +233,7 @@ pub(crate) fn parse_encrypted_extensions(
     }
 
     for ext in ExtIter::new(exts) {
+        let ext = ext?;
         match ext.ext_type {
             // ServerName from server is ignored
             x if x == ExtensionType::ServerName.to_be_bytes() => (),
-- 
2.43.0


From fd72582413f8cbdf8ca8dc49d0820a91b31ed1ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:39 +0000
Subject: [PATCH 28/32] fix: require supported_versions and refuse repeated
 extensions in the ServerHello

---
 src/extensions.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/extensions.rs b/src/extensions.rs
index e49f8a3..1894140 100644
--- a/src/extensions.rs
+++ b/src/extensions.rs
@@ -198,6 +198,8 @@ pub(crate) fn parse_ser_hel_exts(
     global_state: &mut GlobalState,
 ) -> Result<TlsAead, TurtlsAlert> {
     let mut maybe_aead = Err(TurtlsAlert::MissingExtension);
+    let mut has_version = false;
+    let mut has_key_share = false;
 
     let (len, exts) = exts.split_at(TurtlsExts::LEN_SIZE);
     let len = u16::from_be_bytes(len.try_into().unwrap()) as usize;
@@ -210,14 +212,25 @@ pub(crate) fn parse_ser_hel_exts(
         let ext = ext?;
         match ext.ext_type {
             x if x == ExtensionType::SupportedVersions.to_be_bytes() => {
+                if has_version {
+                    return Err(TurtlsAlert::IllegalParam);
+                }
+                has_version = true;
                 versions::parse_ser(ext.data)?;
             },
             x if x == ExtensionType::KeyShare.to_be_bytes() => {
+                if has_key_share {
+                    return Err(TurtlsAlert::IllegalParam);
+                }
+                has_key_share = true;
                 maybe_aead = key_share::parse_ser(ext.data, shake_crypto, global_state);
             },
             _ => return Err(TurtlsAlert::UnsupportedExtension),
         }
     }
+    if !has_version {
+        return Err(TurtlsAlert::MissingExtension);
+    }
     maybe_aead
 }
 
-- 
2.43.0


From 1fdf37b22121c45c36cc741db86ff8a5be092189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:16 +0000
Subject: [PATCH 29/32] fix: accept in EncryptedExtensions only what was
 offered, once

---
 src/extensions.rs           | 49 +++++++++++++++++++++++++++++++++----
 src/extensions/app_proto.rs | 32 ++++++++++++++++++++----
 src/handshake.rs            | 17 ++++++++++---
 src/state.rs                |  4 +++
 4 files changed, 88 insertions(+), 14 deletions(-)

diff --git a/src/extensions.rs b/src/extensions.rs
index 1894140..a9af35f 100644
--- a/src/extensions.rs
+++ b/src/extensions.rs
@@ -149,6 +149,25 @@ impl TurtlsExts {
     }
 }
 
+/// A copy of the extensions that were sent and that the server may answer in
+/// EncryptedExtensions.
+///
+/// The strings in the configuration need not outlive the ClientHello.
+#[derive(Default)]
+pub(crate) struct OfferedExts {
+    server_name: bool,
+    app_protos: Box<[u8]>,
+}
+
+impl TurtlsExts {
+    pub(crate) fn offered(&self) -> OfferedExts {
+        OfferedExts {
+            server_name: !self.server_name.is_null(),
+            app_protos: self.app_protos().into(),
+        }
+    }
+}
+
 pub(crate) struct ExtRef<'a> {
     ext_type: [u8; 2],
     data: &'a [u8],
@@ -236,8 +255,16 @@ pub(crate) fn parse_ser_hel_exts(
 
 pub(crate) fn parse_encrypted_extensions(
     exts: &[u8],
+    offered: &OfferedExts,
     global_state: &mut GlobalState,
 ) -> Result<(), TurtlsAlert> {
+    let mut has_server_name = false;
+    let mut has_sup_groups = false;
+    let mut has_app_proto = false;
+
+    if exts.len() < TurtlsExts::LEN_SIZE {
+        return Err(TurtlsAlert::DecodeError);
+    }
     let (len, exts) = exts.split_at(TurtlsExts::LEN_SIZE);
     let len = u16::from_be_bytes(len.try_into().unwrap()) as usize;
 
@@ -247,15 +274,27 @@ pub(crate) fn parse_encrypted_extensions(
 
     for ext in ExtIter::new(exts) {
         let ext = ext?;
-        match ext.ext_type {
+        let seen = match ext.ext_type {
             // ServerName from server is ignored
-            x if x == ExtensionType::ServerName.to_be_bytes() => (),
+            x if x == ExtensionType::ServerName.to_be_bytes() && offered.server_name => {
+                &mut has_server_name
+            },
             // SupportedGroups from server is ignored
-            x if x == ExtensionType::SupportedGroups.to_be_bytes() => (),
-            x if x == ExtensionType::AppLayerProtoNeg.to_be_bytes() => {
-                parse_app_proto_client(ext.data, &mut global_state.app_proto)?
+            x if x == ExtensionType::SupportedGroups.to_be_bytes() => &mut has_sup_groups,
+            x if x == ExtensionType::AppLayerProtoNeg.to_be_bytes()
+                && !offered.app_protos.is_empty() =>
+            {
+                parse_app_proto_client(
+                    ext.data,
+                    &offered.app_protos,
+                    &mut global_state.app_proto,
+                )?;
+                &mut has_app_proto
             },
             _ => return Err(TurtlsAlert::UnsupportedExtension),
+        };
+        if std::mem::replace(seen, true) {
+            return Err(TurtlsAlert::IllegalParam);
         }
     }
     Ok(())
diff --git a/src/extensions/app_proto.rs b/src/extensions/app_proto.rs
index 498af62..e5ccb9f 100644
--- a/src/extensions/app_proto.rs
+++ b/src/extensions/app_proto.rs
@@ -13,6 +13,16 @@ impl TurtlsExts {
         }
         size_of::<u16>() + self.app_protos_len
     }
+
+    /// The protocol names to offer, each with its length.
+    pub(super) fn app_protos(&self) -> &[u8] {
+        if self.app_protos_len() == 0 {
+            return &[];
+        }
+        // SAFETY: We just checked for null and the caller guarantees the length is valid.
+        unsafe { std::slice::from_raw_parts(self.app_protos as *const u8, self.app_protos_len) }
+    }
+
     pub(super) fn write_app_protos_client(&self, shake_buf: &mut ShakeBuf) {
         // TODO: properly handle the error
         let len: u16 = self.app_protos_len().try_into().unwrap();
@@ -20,11 +30,7 @@ impl TurtlsExts {
         if len == 0 {
             return;
         }
-        // SAFETY: We just checked for null and the caller guarantees the string is
-        // nul-terminated.
-        let as_slice = unsafe {
-            std::slice::from_raw_parts(self.app_protos as *const u8, self.app_protos_len)
-        };
+        let as_slice = self.app_protos();
 
         shake_buf.extend_from_slice(&ExtensionType::AppLayerProtoNeg.to_be_bytes());
 
@@ -36,6 +42,7 @@ impl TurtlsExts {
 
 pub(crate) fn parse_app_proto_client(
     alpn: &[u8],
+    offered: &[u8],
     alpn_state: &mut [u8; 256],
 ) -> Result<(), TurtlsAlert> {
     if alpn.len() < 4 {
@@ -53,6 +60,21 @@ pub(crate) fn parse_app_proto_client(
         return Err(TurtlsAlert::DecodeError);
     }
 
+    // The server must choose one of the offered protocols.
+    let mut offered = offered;
+    loop {
+        let Some((&len, rest)) = offered.split_first() else {
+            return Err(TurtlsAlert::IllegalParam);
+        };
+        let (name, rest) = rest
+            .split_at_checked(len as usize)
+            .ok_or(TurtlsAlert::IllegalParam)?;
+        if !name.is_empty() && name == alpn {
+            break;
+        }
+        offered = rest;
+    }
+
     // `alpn.len` is guaranteed to be less than or equal to `256` because the length is encoded as
     // a single byte
     alpn_state[..alpn.len()].copy_from_slice(alpn);
diff --git a/src/handshake.rs b/src/handshake.rs
index ce48eb6..95cd533 100644
--- a/src/handshake.rs
+++ b/src/handshake.rs
@@ -31,6 +31,7 @@ pub(crate) fn handshake_client(
                     // Don't send alert because handshake hasn't started.
                     client_hello_client(unprot_state, &mut shake_state.buf, config)
                         .map_err(|err| global_state.error.turtls_error = err)?;
+                    shake_state.offered = config.extensions.offered();
 
                     shake_state.buf.finish(&mut global_state.transcript);
                     *next = UnprotShakeMsg::SendClientHello;
@@ -90,12 +91,20 @@ pub(crate) fn handshake_client(
                             }
                             global_state.error = err
                         })?;
-                    parse_encrypted_extensions(shake_state.buf.data(), global_state).map_err(
-                        |alert| {
+                    shake_state
+                        .buf
+                        .check_type(ShakeType::EncryptedExtensions)
+                        .and_then(|()| {
+                            parse_encrypted_extensions(
+                                shake_state.buf.data(),
+                                &shake_state.offered,
+                                global_state,
+                            )
+                        })
+                        .map_err(|alert| {
                             global_state.rl.close(alert, aead);
                             global_state.error = FullError::sending_alert(alert);
-                        },
-                    )?;
+                        })?;
                     *next = ProtShakeMsg::Certificate;
                 },
                 ProtShakeMsg::Certificate => {
diff --git a/src/state.rs b/src/state.rs
index ccf4397..439f661 100644
--- a/src/state.rs
+++ b/src/state.rs
@@ -5,6 +5,7 @@ use crate::cipher_suites::TurtlsCipherList;
 use crate::config::TurtlsConfig;
 use crate::error::FullError;
 use crate::extensions::key_share::GroupKeys;
+use crate::extensions::OfferedExts;
 use crate::handshake::ShakeBuf;
 use crate::record::{RecordLayer, TurtlsIo};
 use crate::TurtlsError;
@@ -102,6 +103,8 @@ pub(crate) enum ProtShakeMsg {
 pub(crate) struct ShakeState {
     pub(crate) state: MaybeProt,
     pub(crate) buf: ShakeBuf,
+    /// What the ClientHello contained that the server may answer.
+    pub(crate) offered: OfferedExts,
 }
 
 impl ShakeState {
@@ -117,6 +120,7 @@ impl ShakeState {
                 },
             },
             buf: ShakeBuf::new(0x20000),
+            offered: OfferedExts::default(),
         })
     }
 }
-- 
2.43.0


From 645c50ad0d7739036fae70ccfbbb8c005ebb16ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:14 +0000
Subject: [PATCH 30/32] fix: answer the Certificate message with an alert
 instead of a panic

---
 src/certificates.rs      | 33 +++++++++++++++++++++++++++++++++
 src/certificates/x509.rs | 11 +++++++++++
 src/handshake.rs         | 23 +++++++++++++----------
 3 files changed, 57 insertions(+), 10 deletions(-)

diff --git a/src/certificates.rs b/src/certificates.rs
index 5f3b120..d8e6524 100644
--- a/src/certificates.rs
+++ b/src/certificates.rs
@@ -3,6 +3,39 @@ use std::iter::Iterator;
 pub(crate) mod der;
 pub(crate) mod x509;
 
+use crate::alert::TurtlsAlert;
+
+/// Parses the Certificate message sent by the server.
+pub(crate) fn parse_certificate(cert_msg: &[u8]) -> Result<(), TurtlsAlert> {
+    const CONTEXT_LEN_SIZE: usize = 1;
+    const LIST_LEN_SIZE: usize = 3;
+
+    if cert_msg.len() < CONTEXT_LEN_SIZE + LIST_LEN_SIZE {
+        return Err(TurtlsAlert::DecodeError);
+    }
+    // The context is only used when the certificate was requested.
+    if cert_msg[0] != 0 {
+        return Err(TurtlsAlert::IllegalParam);
+    }
+    let certs = &cert_msg[CONTEXT_LEN_SIZE..];
+
+    let data_len = u32::from_be_bytes([0, certs[0], certs[1], certs[2]]) as usize;
+    let certs = &certs[LIST_LEN_SIZE..];
+    // The server must send at least one certificate.
+    if data_len != certs.len() || certs.is_empty() {
+        return Err(TurtlsAlert::DecodeError);
+    }
+
+    let mut iter = CertIter::new(certs);
+    for cert in &mut iter {
+        x509::validate_cert(cert.data)?;
+    }
+    if !iter.cert_list.is_empty() {
+        return Err(TurtlsAlert::DecodeError);
+    }
+    Ok(())
+}
+
 enum CertType {
     X509 = 0,
     RawPublicKey = 2,
diff --git a/src/certificates/x509.rs b/src/certificates/x509.rs
index 7084a2f..18ff6e4 100644
--- a/src/certificates/x509.rs
+++ b/src/certificates/x509.rs
@@ -1,5 +1,6 @@
 use super::der::{DerClass, DerIter, DerObj, DerTag, DerPrimCon, der_gen_tag};
 
+use crate::alert::TurtlsAlert;
 use crylib::ec::ecdsa::Signature;
 use crylib::ec::Secp256r1;
 use crylib::big_int::UBigInt;
@@ -149,6 +150,16 @@ pub(crate) enum CertError {
     UnsupportedSigAlg,
 }
 
+impl From<CertError> for TurtlsAlert {
+    fn from(value: CertError) -> Self {
+        match value {
+            CertError::ParseError | CertError::CertInvalid => Self::BadCert,
+            CertError::CertExpired => Self::CertExpired,
+            CertError::UnsupportedVersion | CertError::UnsupportedSigAlg => Self::UnsupportedCert,
+        }
+    }
+}
+
 fn validate_time(validity: DerObj) -> Result<(), CertError> {
     if validity.tag != DerTag::Sequence as u8 {
         return Err(CertError::ParseError);
diff --git a/src/handshake.rs b/src/handshake.rs
index 95cd533..3786749 100644
--- a/src/handshake.rs
+++ b/src/handshake.rs
@@ -4,6 +4,7 @@ use crate::aead::TlsAead;
 use crate::client_hello::client_hello_client;
 use crate::config::TurtlsConfig;
 use crate::error::{FullError, TurtlsError};
+use crate::certificates::parse_certificate;
 use crate::extensions::parse_encrypted_extensions;
 use crate::record::{ContentType, RecordLayer};
 use crate::server_hello::server_hello_client;
@@ -117,16 +118,18 @@ pub(crate) fn handshake_client(
                             }
                             global_state.error = err
                         })?;
-                    let cert_msg = shake_state.buf.data();
-
-                    let context_len = cert_msg[0] as usize;
-                    let certs = &cert_msg[1 + context_len as usize..];
-
-                    let data_len = u32::from_be_bytes([0, certs[0], certs[1], certs[2]]) as usize;
-                    for cert in crate::certificates::CertIter::new(&certs[3..][..data_len]) {
-                        crate::certificates::x509::validate_cert(cert.data).unwrap();
-                    }
-                    todo!("validate certificates");
+                    let alert = match shake_state
+                        .buf
+                        .check_type(ShakeType::Certificate)
+                        .and_then(|()| parse_certificate(shake_state.buf.data()))
+                    {
+                        Err(alert) => alert,
+                        // TODO: validate certificates
+                        Ok(()) => TurtlsAlert::CertUnknown,
+                    };
+                    global_state.rl.close(alert, aead);
+                    global_state.error = FullError::sending_alert(alert);
+                    return Err(());
                 },
                 _ => todo!("Finish handshake"),
             },
-- 
2.43.0


From ef80adfb78f44e33b8134e3afb5c4d3c4e430d0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:16 +0000
Subject: [PATCH 31/32] fix: parse certificates as strict DER, with nothing
 left over

---
 src/certificates/der.rs  |  9 ++++++++
 src/certificates/x509.rs | 49 ++++++++++++++++++++++++++++++++--------
 2 files changed, 49 insertions(+), 9 deletions(-)

diff --git a/src/certificates/der.rs b/src/certificates/der.rs
index 4cc3b1b..a8eaa90 100644
--- a/src/certificates/der.rs
+++ b/src/certificates/der.rs
@@ -85,6 +85,11 @@ impl<'a> DerIter<'a> {
     pub(crate) fn new(der_objs: &'a [u8]) -> Self {
         Self { der_objs }
     }
+
+    /// Whether every object has been read.
+    pub(crate) fn is_finished(&self) -> bool {
+        self.der_objs.is_empty()
+    }
 }
 
 impl<'a> Iterator for DerIter<'a> {
@@ -115,6 +120,10 @@ impl<'a> Iterator for DerIter<'a> {
             for i in 0..num_len_bytes {
                 len |= (self.der_objs[2 + i] as usize) << 8 * (num_len_bytes - i - 1);
             }
+            // The length must be definite and use as few bytes as possible.
+            if len < 128 || self.der_objs[2] == 0 {
+                return None;
+            }
 
             pos += num_len_bytes;
         } else {
diff --git a/src/certificates/x509.rs b/src/certificates/x509.rs
index 18ff6e4..3334e43 100644
--- a/src/certificates/x509.rs
+++ b/src/certificates/x509.rs
@@ -8,7 +8,9 @@ use crylib::finite_field::FieldElement;
 
 
 pub(crate) fn validate_cert(cert_buf: &[u8]) -> Result<(), CertError> {
-    let cert = DerIter::new(cert_buf).next().ok_or(CertError::ParseError)?;
+    let mut cert_buf_iter = DerIter::new(cert_buf);
+    let cert = cert_buf_iter.next().ok_or(CertError::ParseError)?;
+    check_finished(cert_buf_iter)?;
     if cert.tag != DerTag::Sequence as u8 {
         return Err(CertError::ParseError);
     }
@@ -21,6 +23,21 @@ pub(crate) fn validate_cert(cert_buf: &[u8]) -> Result<(), CertError> {
 
     let sig_value = cert_iter.next().ok_or(CertError::ParseError)?;
     parse_signature(sig_value)?;
+    check_finished(cert_iter)
+}
+
+/// Everything in a DER object must be part of it.
+fn check_finished(der_iter: DerIter) -> Result<(), CertError> {
+    if !der_iter.is_finished() {
+        return Err(CertError::ParseError);
+    }
+    Ok(())
+}
+
+fn check_tag(obj: &DerObj, tag: DerTag) -> Result<(), CertError> {
+    if obj.tag != tag as u8 {
+        return Err(CertError::ParseError);
+    }
     Ok(())
 }
 
@@ -28,11 +45,13 @@ fn parse_signature(signature: DerObj) -> Result<Signature<Secp256r1>, CertError>
     if signature.tag != DerTag::BitString as u8 {
         return Err(CertError::ParseError);
     }
-    if signature.data[0] != 0 {
+    if signature.data.first() != Some(&0) {
         // there should never be unused bits
         return Err(CertError::ParseError);
     }
-    let sig_obj = DerIter::new(&signature.data[1..]).next().ok_or(CertError::ParseError)?;
+    let mut sig_obj_iter = DerIter::new(&signature.data[1..]);
+    let sig_obj = sig_obj_iter.next().ok_or(CertError::ParseError)?;
+    check_finished(sig_obj_iter)?;
     if sig_obj.tag != DerTag::Sequence as u8 {
         return Err(CertError::ParseError);
     }
@@ -58,6 +77,7 @@ fn parse_signature(signature: DerObj) -> Result<Signature<Secp256r1>, CertError>
     let s = UBigInt::<4>::from_be_bytes(s_obj.data[leading_bytes..].try_into().unwrap());
     let s = FieldElement::<4, Secp256r1>::try_new(s).ok_or(CertError::CertInvalid)?;
 
+    check_finished(sig_iter)?;
     Ok(Signature::new(r, s))
 }
 
@@ -72,11 +92,13 @@ fn parse_tbs_cert(tbs_cert: DerObj) -> Result<(), CertError> {
     let version: u8;
     // version is an optional field
     if next.tag == der_gen_tag(DerClass::ContextSpecific, DerPrimCon::Constructed, 0) {
-        let vers = DerIter::new(next.data).next().ok_or(CertError::ParseError)?;
+        let mut vers_iter = DerIter::new(next.data);
+        let vers = vers_iter.next().ok_or(CertError::ParseError)?;
+        check_finished(vers_iter)?;
         if vers.tag != DerTag::Integer as u8 || vers.data.len() != 1 {
         return Err(CertError::ParseError);
         }
-        version = vers.data[0] + 1;
+        version = vers.data[0].saturating_add(1);
         next = tbs_iter.next().ok_or(CertError::ParseError)?;
     } else {
         version = 1;
@@ -86,16 +108,25 @@ fn parse_tbs_cert(tbs_cert: DerObj) -> Result<(), CertError> {
         return Err(CertError::UnsupportedVersion);
     }
     let serial_num_obj = next;
+    check_tag(&serial_num_obj, DerTag::Integer)?;
+    if serial_num_obj.data.is_empty() {
+        return Err(CertError::ParseError);
+    }
     let signature_obj = tbs_iter.next().ok_or(CertError::ParseError)?;
+    check_tag(&signature_obj, DerTag::Sequence)?;
     let issuer_obj = tbs_iter.next().ok_or(CertError::ParseError)?;
+    check_tag(&issuer_obj, DerTag::Sequence)?;
     let validity = tbs_iter.next().ok_or(CertError::ParseError)?;
 
     validate_time(validity)?;
 
     let subject_obj = tbs_iter.next().ok_or(CertError::ParseError)?;
+    check_tag(&subject_obj, DerTag::Sequence)?;
     let subject_pub_key_info_obj = tbs_iter.next().ok_or(CertError::ParseError)?;
+    check_tag(&subject_pub_key_info_obj, DerTag::Sequence)?;
 
-    next = tbs_iter.next().ok_or(CertError::ParseError)?;
+    // the rest is optional
+    while let Some(_) = tbs_iter.next() {}
 
     // if get_der_num(next.tag) == 0x01 {
     //     let issuer_unique_id = next;
@@ -112,7 +143,7 @@ fn parse_tbs_cert(tbs_cert: DerObj) -> Result<(), CertError> {
     // if get_der_num(next.tag) == 0x03 {
     //     let extensions = next;
     // }
-    Ok(())
+    check_finished(tbs_iter)
 }
 
 const ECDSA_SHA256_OID: [u8; 8] = [0x2a, 0x86, 0x48, 0xce, 0x3d, 0x04, 0x03, 0x02,];
@@ -138,7 +169,7 @@ fn parse_sig_alg(sig_alg: DerObj) -> Result<(), CertError> {
     }
 
     let parameters = seq.next();
-    Ok(())
+    check_finished(seq)
 }
 
 #[derive(Debug)]
@@ -184,5 +215,5 @@ fn validate_time(validity: DerObj) -> Result<(), CertError> {
     } else {
         return Err(CertError::ParseError);
     }
-    Ok(())
+    check_finished(valid_iter)
 }
-- 
2.43.0


From ae523c15e2791010044fba94bdff0953562cf62f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:43 +0000
Subject: [PATCH 32/32] fix: accept every valid signature in a certificate,
 whatever the length of its integers

---
 src/certificates/x509.rs | 38 ++++++++++++++++++++++++++++----------
 1 file changed, 28 insertions(+), 10 deletions(-)

diff --git a/src/certificates/x509.rs b/src/certificates/x509.rs
index 3334e43..d9dc27a 100644
--- a/src/certificates/x509.rs
+++ b/src/certificates/x509.rs
@@ -2,7 +2,7 @@ use super::der::{DerClass, DerIter, DerObj, DerTag, DerPrimCon, der_gen_tag};
 
 use crate::alert::TurtlsAlert;
 use crylib::ec::ecdsa::Signature;
-use crylib::ec::Secp256r1;
+use crylib::ec::{EllipticCurve, Secp256r1};
 use crylib::big_int::UBigInt;
 use crylib::finite_field::FieldElement;
 
@@ -41,7 +41,31 @@ fn check_tag(obj: &DerObj, tag: DerTag) -> Result<(), CertError> {
     Ok(())
 }
 
-fn parse_signature(signature: DerObj) -> Result<Signature<Secp256r1>, CertError> {
+type SigInt = FieldElement<4, <Secp256r1 as EllipticCurve>::Order>;
+
+/// Parses either half of a signature, which is a positive integer less than the curve's order.
+fn parse_sig_int(int: &[u8]) -> Result<SigInt, CertError> {
+    let mut bytes = [0; 32];
+
+    // remove the leading zero
+    let int = match int {
+        [] | [0x80..=0xff, ..] | [0, 0..=0x7f, ..] => return Err(CertError::ParseError),
+        [0, int @ ..] => int,
+        int => int,
+    };
+    let leading_bytes = bytes.len().checked_sub(int.len()).ok_or(CertError::CertInvalid)?;
+    bytes[leading_bytes..].copy_from_slice(int);
+
+    let int = SigInt::try_new(UBigInt::<4>::from_be_bytes(bytes)).ok_or(CertError::CertInvalid)?;
+    if int == SigInt::ZERO {
+        return Err(CertError::CertInvalid);
+    }
+    Ok(int)
+}
+
+fn parse_signature(
+    signature: DerObj,
+) -> Result<Signature<<Secp256r1 as EllipticCurve>::Order>, CertError> {
     if signature.tag != DerTag::BitString as u8 {
         return Err(CertError::ParseError);
     }
@@ -62,20 +86,14 @@ fn parse_signature(signature: DerObj) -> Result<Signature<Secp256r1>, CertError>
         return Err(CertError::ParseError);
     }
 
-    // remove leading zeros
-    let leading_bytes = r_obj.data.len().checked_sub(32).ok_or(CertError::ParseError)?;
-    let r = UBigInt::<4>::from_be_bytes(r_obj.data[leading_bytes..].try_into().unwrap());
-    let r = FieldElement::<4, Secp256r1>::try_new(r).ok_or(CertError::CertInvalid)?;
+    let r = parse_sig_int(r_obj.data)?;
 
     let s_obj = sig_iter.next().ok_or(CertError::ParseError)?;
     if s_obj.tag != DerTag::Integer as u8 {
         return Err(CertError::ParseError);
     }
 
-    // remove leading zeros
-    let leading_bytes = s_obj.data.len().checked_sub(32).ok_or(CertError::ParseError)?;
-    let s = UBigInt::<4>::from_be_bytes(s_obj.data[leading_bytes..].try_into().unwrap());
-    let s = FieldElement::<4, Secp256r1>::try_new(s).ok_or(CertError::CertInvalid)?;
+    let s = parse_sig_int(s_obj.data)?;
 
     check_finished(sig_iter)?;
     Ok(Signature::new(r, s))
-- 
2.43.0

