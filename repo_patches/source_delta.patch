From 6b12eec996e228061b36ce5810f07fffc3c7083d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:43 +0000
Subject: [PATCH 01/11] hook: cfg(safecurves_vp) accessor for the projective
 coordinates of EdwardsExtended

---
 src/curve/edwards.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/curve/edwards.rs b/src/curve/edwards.rs
index 7168500..ac96eb6 100644
--- a/src/curve/edwards.rs
+++ b/src/curve/edwards.rs
@@ -84,6 +84,15 @@ impl<C: EdwardsCurve> EdwardsExtended<C> {
     }
 }
 
+/// Monitoring hook, compiled only with --cfg safecurves_vp: lets an
+/// external observer read the projective coordinates (X : Y : Z).
+#[cfg(safecurves_vp)]
+impl<C: EdwardsCurve> EdwardsExtended<C> {
+    pub fn vp_coords(&self) -> (C::Scalar, C::Scalar, C::Scalar) {
+        (self.x, self.y, self.z)
+    }
+}
+
 impl<C: EdwardsCurve> Point for EdwardsExtended<C> {
     type Scalar = C::Scalar;
 
-- 
2.43.0


From 27bd3549acc9c9215632a7a83a353906633ab512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:31 +0000
Subject: [PATCH 02/11] fix: negation returned its operand instead of the
 additive inverse

---
 src/field/mod_e221_3.rs   | 4 ++--
 src/field/mod_e222_117.rs | 4 ++--
 src/field/mod_e251_9.rs   | 4 ++--
 src/field/mod_e255_19.rs  | 4 ++--
 src/field/mod_e382_105.rs | 4 ++--
 src/field/mod_e383_187.rs | 4 ++--
 src/field/mod_e414_17.rs  | 4 ++--
 src/field/mod_e511_187.rs | 4 ++--
 src/field/mod_e521_1.rs   | 4 ++--
 9 files changed, 18 insertions(+), 18 deletions(-)

diff --git a/src/field/mod_e221_3.rs b/src/field/mod_e221_3.rs
index 240f852..12a7c9c 100644
--- a/src/field/mod_e221_3.rs
+++ b/src/field/mod_e221_3.rs
@@ -155,9 +155,9 @@ impl Neg for Mod_e221_3 {
     type Output = Mod_e221_3;
 
     fn neg(self) -> Mod_e221_3 {
-        let mut out = self;
+        let mut out = MODULUS;
 
-        out += &MODULUS;
+        out -= &self;
         out
     }
 }
diff --git a/src/field/mod_e222_117.rs b/src/field/mod_e222_117.rs
index 20b568d..1dae49f 100644
--- a/src/field/mod_e222_117.rs
+++ b/src/field/mod_e222_117.rs
@@ -134,9 +134,9 @@ impl Neg for Mod_e222_117 {
     type Output = Mod_e222_117;
 
     fn neg(self) -> Mod_e222_117 {
-        let mut out = self;
+        let mut out = MODULUS;
 
-        out += &MODULUS;
+        out -= &self;
         out
     }
 }
diff --git a/src/field/mod_e251_9.rs b/src/field/mod_e251_9.rs
index 1fef865..c7f5ac4 100644
--- a/src/field/mod_e251_9.rs
+++ b/src/field/mod_e251_9.rs
@@ -146,9 +146,9 @@ impl Neg for Mod_e251_9 {
     type Output = Mod_e251_9;
 
     fn neg(self) -> Mod_e251_9 {
-        let mut out = self;
+        let mut out = MODULUS;
 
-        out += &MODULUS;
+        out -= &self;
         out
     }
 }
diff --git a/src/field/mod_e255_19.rs b/src/field/mod_e255_19.rs
index 9859fef..4441758 100644
--- a/src/field/mod_e255_19.rs
+++ b/src/field/mod_e255_19.rs
@@ -166,9 +166,9 @@ impl Neg for Mod_e255_19 {
     type Output = Mod_e255_19;
 
     fn neg(self) -> Mod_e255_19 {
-        let mut out = self;
+        let mut out = MODULUS;
 
-        out += &MODULUS;
+        out -= &self;
         out
     }
 }
diff --git a/src/field/mod_e382_105.rs b/src/field/mod_e382_105.rs
index f962198..5f86022 100644
--- a/src/field/mod_e382_105.rs
+++ b/src/field/mod_e382_105.rs
@@ -146,9 +146,9 @@ impl Neg for Mod_e382_105 {
     type Output = Mod_e382_105;
 
     fn neg(self) -> Mod_e382_105 {
-        let mut out = self;
+        let mut out = MODULUS;
 
-        out += &MODULUS;
+        out -= &self;
         out
     }
 }
diff --git a/src/field/mod_e383_187.rs b/src/field/mod_e383_187.rs
index 1cb9823..d25e030 100644
--- a/src/field/mod_e383_187.rs
+++ b/src/field/mod_e383_187.rs
@@ -195,9 +195,9 @@ impl Neg for Mod_e383_187 {
     type Output = Mod_e383_187;
 
     fn neg(self) -> Mod_e383_187 {
-        let mut out = self;
+        let mut out = MODULUS;
 
-        out += &MODULUS;
+        out -= &self;
         out
     }
 }
diff --git a/src/field/mod_e414_17.rs b/src/field/mod_e414_17.rs
index 038c529..a17d976 100644
--- a/src/field/mod_e414_17.rs
+++ b/src/field/mod_e414_17.rs
@@ -145,9 +145,9 @@ impl Neg for Mod_e414_17 {
     type Output = Mod_e414_17;
 
     fn neg(self) -> Mod_e414_17 {
-        let mut out = self;
+        let mut out = MODULUS;
 
-        out += &MODULUS;
+        out -= &self;
         out
     }
 }
diff --git a/src/field/mod_e511_187.rs b/src/field/mod_e511_187.rs
index e434408..1e62729 100644
--- a/src/field/mod_e511_187.rs
+++ b/src/field/mod_e511_187.rs
@@ -183,9 +183,9 @@ impl Neg for Mod_e511_187 {
     type Output = Mod_e511_187;
 
     fn neg(self) -> Mod_e511_187 {
-        let mut out = self;
+        let mut out = MODULUS;
 
-        out += &MODULUS;
+        out -= &self;
         out
     }
 }
diff --git a/src/field/mod_e521_1.rs b/src/field/mod_e521_1.rs
index 146eeee..5b1b3a8 100644
--- a/src/field/mod_e521_1.rs
+++ b/src/field/mod_e521_1.rs
@@ -152,9 +152,9 @@ impl Neg for Mod_e521_1 {
     type Output = Mod_e521_1;
 
     fn neg(self) -> Mod_e521_1 {
-        let mut out = self;
+        let mut out = MODULUS;
 
-        out += &MODULUS;
+        out -= &self;
         out
     }
 }
-- 
2.43.0


From 4c271be0c38d3453e7380115cae4986b0c7815cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:31 +0000
Subject: [PATCH 03/11] fix: subtraction added the right operand's pending
 carry instead of subtracting it

---
 src/field/mod_e221_3.rs   | 2 +-
 src/field/mod_e222_117.rs | 2 +-
 src/field/mod_e251_9.rs   | 2 +-
 src/field/mod_e255_19.rs  | 2 +-
 src/field/mod_e382_105.rs | 2 +-
 src/field/mod_e383_187.rs | 2 +-
 src/field/mod_e414_17.rs  | 2 +-
 src/field/mod_e511_187.rs | 2 +-
 src/field/mod_e521_1.rs   | 2 +-
 9 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/field/mod_e221_3.rs b/src/field/mod_e221_3.rs
index 12a7c9c..b1a25ce 100644
--- a/src/field/mod_e221_3.rs
+++ b/src/field/mod_e221_3.rs
@@ -364,7 +364,7 @@ impl<'b> SubAssign<&'b Mod_e221_3> for Mod_e221_3 {
         let b2 = rhs.0[2];
         let b3 = rhs.0[3] & 0x00007fffffffffff;
 
-        let cin = self.carry_out() + rhs.carry_out();
+        let cin = self.carry_out() - rhs.carry_out();
         let s0 = a0 - b0 + (cin * C_VAL);
         let c0 = s0 >> 58;
         let s1 = a1 - b1 + c0;
diff --git a/src/field/mod_e222_117.rs b/src/field/mod_e222_117.rs
index 1dae49f..80a2b35 100644
--- a/src/field/mod_e222_117.rs
+++ b/src/field/mod_e222_117.rs
@@ -325,7 +325,7 @@ impl<'b> SubAssign<&'b Mod_e222_117> for Mod_e222_117 {
         let b2 = rhs.0[2];
         let b3 = rhs.0[3] & 0x0000ffffffffffff;
 
-        let cin = self.carry_out() + rhs.carry_out();
+        let cin = self.carry_out() - rhs.carry_out();
         let s0 = a0 - b0 + (cin * C_VAL);
         let c0 = s0 >> 58;
         let s1 = a1 - b1 + c0;
diff --git a/src/field/mod_e251_9.rs b/src/field/mod_e251_9.rs
index c7f5ac4..9ec897e 100644
--- a/src/field/mod_e251_9.rs
+++ b/src/field/mod_e251_9.rs
@@ -344,7 +344,7 @@ impl<'b> SubAssign<&'b Mod_e251_9> for Mod_e251_9 {
         let b3 = rhs.0[3];
         let b4 = rhs.0[4] & 0x0000000007ffffff;
 
-        let cin = self.carry_out() + rhs.carry_out();
+        let cin = self.carry_out() - rhs.carry_out();
         let s0 = a0 - b0 + (cin * C_VAL);
         let c0 = s0 >> 56;
         let s1 = a1 - b1 + c0;
diff --git a/src/field/mod_e255_19.rs b/src/field/mod_e255_19.rs
index 4441758..c52e6f3 100644
--- a/src/field/mod_e255_19.rs
+++ b/src/field/mod_e255_19.rs
@@ -364,7 +364,7 @@ impl<'b> SubAssign<&'b Mod_e255_19> for Mod_e255_19 {
         let b3 = rhs.0[3];
         let b4 = rhs.0[4] & 0x000000007fffffff;
 
-        let cin = self.carry_out() + rhs.carry_out();
+        let cin = self.carry_out() - rhs.carry_out();
         let s0 = a0 - b0 + (cin * C_VAL);
         let c0 = s0 >> 56;
         let s1 = a1 - b1 + c0;
diff --git a/src/field/mod_e382_105.rs b/src/field/mod_e382_105.rs
index 5f86022..b04ce03 100644
--- a/src/field/mod_e382_105.rs
+++ b/src/field/mod_e382_105.rs
@@ -358,7 +358,7 @@ impl<'b> SubAssign<&'b Mod_e382_105> for Mod_e382_105 {
         let b5 = rhs.0[5];
         let b6 = rhs.0[6] & 0x00003fffffffffff;
 
-        let cin = self.carry_out() + rhs.carry_out();
+        let cin = self.carry_out() - rhs.carry_out();
         let s0 = a0 - b0 + (cin * C_VAL);
         let c0 = s0 >> 56;
         let s1 = a1 - b1 + c0;
diff --git a/src/field/mod_e383_187.rs b/src/field/mod_e383_187.rs
index d25e030..6c3b524 100644
--- a/src/field/mod_e383_187.rs
+++ b/src/field/mod_e383_187.rs
@@ -407,7 +407,7 @@ impl<'b> SubAssign<&'b Mod_e383_187> for Mod_e383_187 {
         let b5 = rhs.0[5];
         let b6 = rhs.0[6] & 0x00007fffffffffff;
 
-        let cin = self.carry_out() + rhs.carry_out();
+        let cin = self.carry_out() - rhs.carry_out();
         let s0 = a0 - b0 + (cin * C_VAL);
         let c0 = s0 >> 56;
         let s1 = a1 - b1 + c0;
diff --git a/src/field/mod_e414_17.rs b/src/field/mod_e414_17.rs
index a17d976..a0f42f2 100644
--- a/src/field/mod_e414_17.rs
+++ b/src/field/mod_e414_17.rs
@@ -364,7 +364,7 @@ impl<'b> SubAssign<&'b Mod_e414_17> for Mod_e414_17 {
         let b6 = rhs.0[6];
         let b7 = rhs.0[7] & 0x00000000003fffff;
 
-        let cin = self.carry_out() + rhs.carry_out();
+        let cin = self.carry_out() - rhs.carry_out();
         let s0 = a0 - b0 + (cin * C_VAL);
         let c0 = s0 >> 56;
         let s1 = a1 - b1 + c0;
diff --git a/src/field/mod_e511_187.rs b/src/field/mod_e511_187.rs
index 1e62729..b4246ba 100644
--- a/src/field/mod_e511_187.rs
+++ b/src/field/mod_e511_187.rs
@@ -416,7 +416,7 @@ impl<'b> SubAssign<&'b Mod_e511_187> for Mod_e511_187 {
         let b8 = rhs.0[8];
         let b9 = rhs.0[9] & 0x0000000001ffffff;
 
-        let cin = self.carry_out() + rhs.carry_out();
+        let cin = self.carry_out() - rhs.carry_out();
         let s0 = a0 - b0 + (cin * C_VAL);
         let c0 = s0 >> 54;
         let s1 = a1 - b1 + c0;
diff --git a/src/field/mod_e521_1.rs b/src/field/mod_e521_1.rs
index 5b1b3a8..e6155e5 100644
--- a/src/field/mod_e521_1.rs
+++ b/src/field/mod_e521_1.rs
@@ -385,7 +385,7 @@ impl<'b> SubAssign<&'b Mod_e521_1> for Mod_e521_1 {
         let b8 = rhs.0[8];
         let b9 = rhs.0[9] & 0x00000007ffffffff;
 
-        let cin = self.carry_out() + rhs.carry_out();
+        let cin = self.carry_out() - rhs.carry_out();
         let s0 = a0 - b0 + (cin * C_VAL);
         let c0 = s0 >> 54;
         let s1 = a1 - b1 + c0;
-- 
2.43.0


From 2781fdd902438bc570542779b33d3c3f5e8e516d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:52 +0000
Subject: [PATCH 04/11] fix: 2^521-1 small_mul propagated the wrong carries
 into the top three words

---
 src/field/mod_e521_1.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/field/mod_e521_1.rs b/src/field/mod_e521_1.rs
index e6155e5..64743db 100644
--- a/src/field/mod_e521_1.rs
+++ b/src/field/mod_e521_1.rs
@@ -2719,11 +2719,11 @@ impl PrimeField for Mod_e521_1 {
         let d5 = (m9 >> 27) + m10 + ((m11 & 0x07ffffff) << 27) + c4;
         let c5 = d5 >> 54;
         let d6 = (m11 >> 27) + m12 + ((m13 & 0x07ffffff) << 27) + c5;
-        let c6 = d5 >> 54;
+        let c6 = d6 >> 54;
         let d7 = (m13 >> 27) + m14 + ((m15 & 0x07ffffff) << 27) + c6;
-        let c7 = d6 >> 54;
+        let c7 = d7 >> 54;
         let d8 = (m15 >> 27) + m16 + ((m17 & 0x07ffffff) << 27) + c7;
-        let c8 = d7 >> 54;
+        let c8 = d8 >> 54;
         let d9 = (m17 >> 27) + m18 + (m19 << 27) + c8;
 
         self.0[0] = d0 & 0x003fffffffffffff;
-- 
2.43.0


From 940ab164f05d27b0fe94c257e46dfe8f56c80792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:52 +0000
Subject: [PATCH 05/11] fix: small_mul counted the pending carry twice and lost
 the high bits of large products

---
 src/field/mod_e221_3.rs   | 27 ++++++++++++++------
 src/field/mod_e222_117.rs | 27 ++++++++++++++------
 src/field/mod_e251_9.rs   | 26 +++++++++++++------
 src/field/mod_e255_19.rs  | 31 +++++++++++++++++------
 src/field/mod_e382_105.rs | 41 ++++++++++++++++++++++--------
 src/field/mod_e383_187.rs | 41 ++++++++++++++++++++++--------
 src/field/mod_e414_17.rs  | 38 ++++++++++++++++++++--------
 src/field/mod_e511_187.rs | 46 ++++++++++++++++++++++++---------
 src/field/mod_e521_1.rs   | 53 ++++++++++++++++++++++++++++-----------
 9 files changed, 243 insertions(+), 87 deletions(-)

diff --git a/src/field/mod_e221_3.rs b/src/field/mod_e221_3.rs
index b1a25ce..fa5b45a 100644
--- a/src/field/mod_e221_3.rs
+++ b/src/field/mod_e221_3.rs
@@ -1321,19 +1321,32 @@ impl PrimeField for Mod_e221_3 {
         let m6 = a6 * b;
         let m7 = a7 * b;
 
-        let cin = self.carry_out();
-        let d0 = m0 + ((m1 & 0x1fffffff) << 29) + (cin * C_VAL);
+        let d0 = m0 + ((m1 & 0x1fffffff) << 29);
         let c0 = d0 >> 58;
         let d1 = (m1 >> 29) + m2 + ((m3 & 0x1fffffff) << 29) + c0;
         let c1 = d1 >> 58;
         let d2 = (m3 >> 29) + m4 + ((m5 & 0x1fffffff) << 29) + c1;
         let c2 = d2 >> 58;
-        let d3 = (m5 >> 29) + m6 + (m7 << 29) + c2;
+        let d3 = (m5 >> 29) + m6 + ((m7 & 0x1fffffff) << 29) +
+                 c2;
+        let c3 = d3 >> 58;
+        let d4 = (m7 >> 29) + c3;
+
+        // Fold everything above the top digit back in, so that only a
+        // carry of at most one is left there.
+        let kin = ((d3 & 0x03ffffffffffffff) >> 47) + (d4 << 11);
+        let s0 = (d0 & 0x03ffffffffffffff) + (kin * C_VAL);
+        let k0 = s0 >> 58;
+        let s1 = (d1 & 0x03ffffffffffffff) + k0;
+        let k1 = s1 >> 58;
+        let s2 = (d2 & 0x03ffffffffffffff) + k1;
+        let k2 = s2 >> 58;
+        let s3 = (d3 & 0x00007fffffffffff) + k2;
 
-        self.0[0] = d0 & 0x03ffffffffffffff;
-        self.0[1] = d1 & 0x03ffffffffffffff;
-        self.0[2] = d2 & 0x03ffffffffffffff;
-        self.0[3] = d3;
+        self.0[0] = s0 & 0x03ffffffffffffff;
+        self.0[1] = s1 & 0x03ffffffffffffff;
+        self.0[2] = s2 & 0x03ffffffffffffff;
+        self.0[3] = s3;
     }
 
     fn small_mul(&self, b: i32) -> Self {
diff --git a/src/field/mod_e222_117.rs b/src/field/mod_e222_117.rs
index 80a2b35..d763b16 100644
--- a/src/field/mod_e222_117.rs
+++ b/src/field/mod_e222_117.rs
@@ -1354,19 +1354,32 @@ impl PrimeField for Mod_e222_117 {
         let m6 = a6 * b;
         let m7 = a7 * b;
 
-        let cin = self.carry_out();
-        let d0 = m0 + ((m1 & 0x1fffffff) << 29) + (cin * C_VAL);
+        let d0 = m0 + ((m1 & 0x1fffffff) << 29);
         let c0 = d0 >> 58;
         let d1 = (m1 >> 29) + m2 + ((m3 & 0x1fffffff) << 29) + c0;
         let c1 = d1 >> 58;
         let d2 = (m3 >> 29) + m4 + ((m5 & 0x1fffffff) << 29) + c1;
         let c2 = d2 >> 58;
-        let d3 = (m5 >> 29) + m6 + (m7 << 29) + c2;
+        let d3 = (m5 >> 29) + m6 + ((m7 & 0x1fffffff) << 29) +
+                 c2;
+        let c3 = d3 >> 58;
+        let d4 = (m7 >> 29) + c3;
+
+        // Fold everything above the top digit back in, so that only a
+        // carry of at most one is left there.
+        let kin = ((d3 & 0x03ffffffffffffff) >> 48) + (d4 << 10);
+        let s0 = (d0 & 0x03ffffffffffffff) + (kin * C_VAL);
+        let k0 = s0 >> 58;
+        let s1 = (d1 & 0x03ffffffffffffff) + k0;
+        let k1 = s1 >> 58;
+        let s2 = (d2 & 0x03ffffffffffffff) + k1;
+        let k2 = s2 >> 58;
+        let s3 = (d3 & 0x0000ffffffffffff) + k2;
 
-        self.0[0] = d0 & 0x03ffffffffffffff;
-        self.0[1] = d1 & 0x03ffffffffffffff;
-        self.0[2] = d2 & 0x03ffffffffffffff;
-        self.0[3] = d3;
+        self.0[0] = s0 & 0x03ffffffffffffff;
+        self.0[1] = s1 & 0x03ffffffffffffff;
+        self.0[2] = s2 & 0x03ffffffffffffff;
+        self.0[3] = s3;
     }
 
     fn small_mul(&self, b: i32) -> Mod_e222_117 {
diff --git a/src/field/mod_e251_9.rs b/src/field/mod_e251_9.rs
index 9ec897e..b07929a 100644
--- a/src/field/mod_e251_9.rs
+++ b/src/field/mod_e251_9.rs
@@ -1409,8 +1409,7 @@ impl PrimeField for Mod_e251_9 {
         let m7 = a7 * b;
         let m8 = a8 * b;
 
-        let cin = self.carry_out();
-        let d0 = m0 + ((m1 & 0x0fffffff) << 28) + (cin * C_VAL);
+        let d0 = m0 + ((m1 & 0x0fffffff) << 28);
         let c0 = d0 >> 56;
         let d1 = (m1 >> 28) + m2 + ((m3 & 0x0fffffff) << 28) + c0;
         let c1 = d1 >> 56;
@@ -1420,11 +1419,24 @@ impl PrimeField for Mod_e251_9 {
         let c3 = d3 >> 56;
         let d4 = (m7 >> 28) + m8 + c3;
 
-        self.0[0] = d0 & 0x00ffffffffffffff;
-        self.0[1] = d1 & 0x00ffffffffffffff;
-        self.0[2] = d2 & 0x00ffffffffffffff;
-        self.0[3] = d3 & 0x00ffffffffffffff;
-        self.0[4] = d4;
+        // Fold everything above the top digit back in, so that only a
+        // carry of at most one is left there.
+        let kin = d4 >> 27;
+        let s0 = (d0 & 0x00ffffffffffffff) + (kin * C_VAL);
+        let k0 = s0 >> 56;
+        let s1 = (d1 & 0x00ffffffffffffff) + k0;
+        let k1 = s1 >> 56;
+        let s2 = (d2 & 0x00ffffffffffffff) + k1;
+        let k2 = s2 >> 56;
+        let s3 = (d3 & 0x00ffffffffffffff) + k2;
+        let k3 = s3 >> 56;
+        let s4 = (d4 & 0x0000000007ffffff) + k3;
+
+        self.0[0] = s0 & 0x00ffffffffffffff;
+        self.0[1] = s1 & 0x00ffffffffffffff;
+        self.0[2] = s2 & 0x00ffffffffffffff;
+        self.0[3] = s3 & 0x00ffffffffffffff;
+        self.0[4] = s4;
     }
 
     fn small_mul(&self, b: i32) -> Self {
diff --git a/src/field/mod_e255_19.rs b/src/field/mod_e255_19.rs
index c52e6f3..78e9111 100644
--- a/src/field/mod_e255_19.rs
+++ b/src/field/mod_e255_19.rs
@@ -1506,8 +1506,7 @@ impl PrimeField for Mod_e255_19 {
         let m8 = a8 * b;
         let m9 = a9 * b;
 
-        let cin = self.carry_out();
-        let d0 = m0 + ((m1 & 0x0fffffff) << 28) + (cin * C_VAL);
+        let d0 = m0 + ((m1 & 0x0fffffff) << 28);
         let c0 = d0 >> 56;
         let d1 = (m1 >> 28) + m2 + ((m3 & 0x0fffffff) << 28) + c0;
         let c1 = d1 >> 56;
@@ -1515,13 +1514,29 @@ impl PrimeField for Mod_e255_19 {
         let c2 = d2 >> 56;
         let d3 = (m5 >> 28) + m6 + ((m7 & 0x0fffffff) << 28) + c2;
         let c3 = d3 >> 56;
-        let d4 = (m7 >> 28) + m8 + (m9 << 28) + c3;
+        let d4 = (m7 >> 28) + m8 + ((m9 & 0x0fffffff) << 28) +
+                 c3;
+        let c4 = d4 >> 56;
+        let d5 = (m9 >> 28) + c4;
+
+        // Fold everything above the top digit back in, so that only a
+        // carry of at most one is left there.
+        let kin = ((d4 & 0x00ffffffffffffff) >> 31) + (d5 << 25);
+        let s0 = (d0 & 0x00ffffffffffffff) + (kin * C_VAL);
+        let k0 = s0 >> 56;
+        let s1 = (d1 & 0x00ffffffffffffff) + k0;
+        let k1 = s1 >> 56;
+        let s2 = (d2 & 0x00ffffffffffffff) + k1;
+        let k2 = s2 >> 56;
+        let s3 = (d3 & 0x00ffffffffffffff) + k2;
+        let k3 = s3 >> 56;
+        let s4 = (d4 & 0x000000007fffffff) + k3;
 
-        self.0[0] = d0 & 0x00ffffffffffffff;
-        self.0[1] = d1 & 0x00ffffffffffffff;
-        self.0[2] = d2 & 0x00ffffffffffffff;
-        self.0[3] = d3 & 0x00ffffffffffffff;
-        self.0[4] = d4;
+        self.0[0] = s0 & 0x00ffffffffffffff;
+        self.0[1] = s1 & 0x00ffffffffffffff;
+        self.0[2] = s2 & 0x00ffffffffffffff;
+        self.0[3] = s3 & 0x00ffffffffffffff;
+        self.0[4] = s4;
     }
 
     fn small_mul(&self, b: i32) -> Self {
diff --git a/src/field/mod_e382_105.rs b/src/field/mod_e382_105.rs
index b04ce03..26ed92a 100644
--- a/src/field/mod_e382_105.rs
+++ b/src/field/mod_e382_105.rs
@@ -1939,8 +1939,7 @@ impl PrimeField for Mod_e382_105 {
         let m12 = a12 * b;
         let m13 = a13 * b;
 
-        let cin = self.carry_out();
-        let d0 = m0 + ((m1 & 0x0fffffff) << 28) + (cin * C_VAL);
+        let d0 = m0 + ((m1 & 0x0fffffff) << 28);
         let c0 = d0 >> 56;
         let d1 = (m1 >> 28) + m2 + ((m3 & 0x0fffffff) << 28) + c0;
         let c1 = d1 >> 56;
@@ -1952,15 +1951,35 @@ impl PrimeField for Mod_e382_105 {
         let c4 = d4 >> 56;
         let d5 = (m9 >> 28) + m10 + ((m11 & 0x0fffffff) << 28) + c4;
         let c5 = d5 >> 56;
-        let d6 = (m11 >> 28) + m12 + (m13 << 28) + c5;
-
-        self.0[0] = d0 & 0x00ffffffffffffff;
-        self.0[1] = d1 & 0x00ffffffffffffff;
-        self.0[2] = d2 & 0x00ffffffffffffff;
-        self.0[3] = d3 & 0x00ffffffffffffff;
-        self.0[4] = d4 & 0x00ffffffffffffff;
-        self.0[5] = d5 & 0x00ffffffffffffff;
-        self.0[6] = d6;
+        let d6 = (m11 >> 28) + m12 + ((m13 & 0x0fffffff) << 28) +
+                 c5;
+        let c6 = d6 >> 56;
+        let d7 = (m13 >> 28) + c6;
+
+        // Fold everything above the top digit back in, so that only a
+        // carry of at most one is left there.
+        let kin = ((d6 & 0x00ffffffffffffff) >> 46) + (d7 << 10);
+        let s0 = (d0 & 0x00ffffffffffffff) + (kin * C_VAL);
+        let k0 = s0 >> 56;
+        let s1 = (d1 & 0x00ffffffffffffff) + k0;
+        let k1 = s1 >> 56;
+        let s2 = (d2 & 0x00ffffffffffffff) + k1;
+        let k2 = s2 >> 56;
+        let s3 = (d3 & 0x00ffffffffffffff) + k2;
+        let k3 = s3 >> 56;
+        let s4 = (d4 & 0x00ffffffffffffff) + k3;
+        let k4 = s4 >> 56;
+        let s5 = (d5 & 0x00ffffffffffffff) + k4;
+        let k5 = s5 >> 56;
+        let s6 = (d6 & 0x00003fffffffffff) + k5;
+
+        self.0[0] = s0 & 0x00ffffffffffffff;
+        self.0[1] = s1 & 0x00ffffffffffffff;
+        self.0[2] = s2 & 0x00ffffffffffffff;
+        self.0[3] = s3 & 0x00ffffffffffffff;
+        self.0[4] = s4 & 0x00ffffffffffffff;
+        self.0[5] = s5 & 0x00ffffffffffffff;
+        self.0[6] = s6;
     }
 
     fn small_mul(&self, b: i32) -> Mod_e382_105 {
diff --git a/src/field/mod_e383_187.rs b/src/field/mod_e383_187.rs
index 6c3b524..3a2be04 100644
--- a/src/field/mod_e383_187.rs
+++ b/src/field/mod_e383_187.rs
@@ -2061,8 +2061,7 @@ impl PrimeField for Mod_e383_187 {
         let m12 = a12 * b;
         let m13 = a13 * b;
 
-        let cin = self.carry_out();
-        let d0 = m0 + ((m1 & 0x0fffffff) << 28) + (cin * C_VAL);
+        let d0 = m0 + ((m1 & 0x0fffffff) << 28);
         let c0 = d0 >> 56;
         let d1 = (m1 >> 28) + m2 + ((m3 & 0x0fffffff) << 28) + c0;
         let c1 = d1 >> 56;
@@ -2074,15 +2073,35 @@ impl PrimeField for Mod_e383_187 {
         let c4 = d4 >> 56;
         let d5 = (m9 >> 28) + m10 + ((m11 & 0x0fffffff) << 28) + c4;
         let c5 = d5 >> 56;
-        let d6 = (m11 >> 28) + m12 + (m13 << 28) + c5;
-
-        self.0[0] = d0 & 0x00ffffffffffffff;
-        self.0[1] = d1 & 0x00ffffffffffffff;
-        self.0[2] = d2 & 0x00ffffffffffffff;
-        self.0[3] = d3 & 0x00ffffffffffffff;
-        self.0[4] = d4 & 0x00ffffffffffffff;
-        self.0[5] = d5 & 0x00ffffffffffffff;
-        self.0[6] = d6;
+        let d6 = (m11 >> 28) + m12 + ((m13 & 0x0fffffff) << 28) +
+                 c5;
+        let c6 = d6 >> 56;
+        let d7 = (m13 >> 28) + c6;
+
+        // Fold everything above the top digit back in, so that only a
+        // carry of at most one is left there.
+        let kin = ((d6 & 0x00ffffffffffffff) >> 47) + (d7 << 9);
+        let s0 = (d0 & 0x00ffffffffffffff) + (kin * C_VAL);
+        let k0 = s0 >> 56;
+        let s1 = (d1 & 0x00ffffffffffffff) + k0;
+        let k1 = s1 >> 56;
+        let s2 = (d2 & 0x00ffffffffffffff) + k1;
+        let k2 = s2 >> 56;
+        let s3 = (d3 & 0x00ffffffffffffff) + k2;
+        let k3 = s3 >> 56;
+        let s4 = (d4 & 0x00ffffffffffffff) + k3;
+        let k4 = s4 >> 56;
+        let s5 = (d5 & 0x00ffffffffffffff) + k4;
+        let k5 = s5 >> 56;
+        let s6 = (d6 & 0x00007fffffffffff) + k5;
+
+        self.0[0] = s0 & 0x00ffffffffffffff;
+        self.0[1] = s1 & 0x00ffffffffffffff;
+        self.0[2] = s2 & 0x00ffffffffffffff;
+        self.0[3] = s3 & 0x00ffffffffffffff;
+        self.0[4] = s4 & 0x00ffffffffffffff;
+        self.0[5] = s5 & 0x00ffffffffffffff;
+        self.0[6] = s6;
     }
 
     fn small_mul(&self, b: i32) -> Mod_e383_187 {
diff --git a/src/field/mod_e414_17.rs b/src/field/mod_e414_17.rs
index a0f42f2..7ab260e 100644
--- a/src/field/mod_e414_17.rs
+++ b/src/field/mod_e414_17.rs
@@ -2046,8 +2046,7 @@ impl PrimeField for Mod_e414_17 {
         let m13 = a13 * b;
         let m14 = a14 * b;
 
-        let cin = self.carry_out();
-        let d0 = m0 + ((m1 & 0x0fffffff) << 28) + (cin * C_VAL);
+        let d0 = m0 + ((m1 & 0x0fffffff) << 28);
         let c0 = d0 >> 56;
         let d1 = (m1 >> 28) + m2 + ((m3 & 0x0fffffff) << 28) + c0;
         let c1 = d1 >> 56;
@@ -2063,14 +2062,33 @@ impl PrimeField for Mod_e414_17 {
         let c6 = d6 >> 56;
         let d7 = (m13 >> 28) + m14 + c6;
 
-        self.0[0] = d0 & 0x00ffffffffffffff;
-        self.0[1] = d1 & 0x00ffffffffffffff;
-        self.0[2] = d2 & 0x00ffffffffffffff;
-        self.0[3] = d3 & 0x00ffffffffffffff;
-        self.0[4] = d4 & 0x00ffffffffffffff;
-        self.0[5] = d5 & 0x00ffffffffffffff;
-        self.0[6] = d6 & 0x00ffffffffffffff;
-        self.0[7] = d7;
+        // Fold everything above the top digit back in, so that only a
+        // carry of at most one is left there.
+        let kin = d7 >> 22;
+        let s0 = (d0 & 0x00ffffffffffffff) + (kin * C_VAL);
+        let k0 = s0 >> 56;
+        let s1 = (d1 & 0x00ffffffffffffff) + k0;
+        let k1 = s1 >> 56;
+        let s2 = (d2 & 0x00ffffffffffffff) + k1;
+        let k2 = s2 >> 56;
+        let s3 = (d3 & 0x00ffffffffffffff) + k2;
+        let k3 = s3 >> 56;
+        let s4 = (d4 & 0x00ffffffffffffff) + k3;
+        let k4 = s4 >> 56;
+        let s5 = (d5 & 0x00ffffffffffffff) + k4;
+        let k5 = s5 >> 56;
+        let s6 = (d6 & 0x00ffffffffffffff) + k5;
+        let k6 = s6 >> 56;
+        let s7 = (d7 & 0x00000000003fffff) + k6;
+
+        self.0[0] = s0 & 0x00ffffffffffffff;
+        self.0[1] = s1 & 0x00ffffffffffffff;
+        self.0[2] = s2 & 0x00ffffffffffffff;
+        self.0[3] = s3 & 0x00ffffffffffffff;
+        self.0[4] = s4 & 0x00ffffffffffffff;
+        self.0[5] = s5 & 0x00ffffffffffffff;
+        self.0[6] = s6 & 0x00ffffffffffffff;
+        self.0[7] = s7;
     }
 
     fn small_mul(&self, b: i32) -> Mod_e414_17 {
diff --git a/src/field/mod_e511_187.rs b/src/field/mod_e511_187.rs
index b4246ba..11f42f9 100644
--- a/src/field/mod_e511_187.rs
+++ b/src/field/mod_e511_187.rs
@@ -2669,8 +2669,7 @@ impl PrimeField for Mod_e511_187 {
         let m17 = a17 * b;
         let m18 = a18 * b;
 
-        let cin = self.carry_out();
-        let d0 = m0 + ((m1 & 0x07ffffff) << 27) + (cin * C_VAL);
+        let d0 = m0 + ((m1 & 0x07ffffff) << 27);
         let c0 = d0 >> 54;
         let d1 = (m1 >> 27) + m2 + ((m3 & 0x07ffffff) << 27) + c0;
         let c1 = d1 >> 54;
@@ -2690,16 +2689,39 @@ impl PrimeField for Mod_e511_187 {
         let c8 = d8 >> 54;
         let d9 = (m17 >> 27) + m18 + c8;
 
-        self.0[0] = d0 & 0x003fffffffffffff;
-        self.0[1] = d1 & 0x003fffffffffffff;
-        self.0[2] = d2 & 0x003fffffffffffff;
-        self.0[3] = d3 & 0x003fffffffffffff;
-        self.0[4] = d4 & 0x003fffffffffffff;
-        self.0[5] = d5 & 0x003fffffffffffff;
-        self.0[6] = d6 & 0x003fffffffffffff;
-        self.0[7] = d7 & 0x003fffffffffffff;
-        self.0[8] = d8 & 0x003fffffffffffff;
-        self.0[9] = d9;
+        // Fold everything above the top digit back in, so that only a
+        // carry of at most one is left there.
+        let kin = d9 >> 25;
+        let s0 = (d0 & 0x003fffffffffffff) + (kin * C_VAL);
+        let k0 = s0 >> 54;
+        let s1 = (d1 & 0x003fffffffffffff) + k0;
+        let k1 = s1 >> 54;
+        let s2 = (d2 & 0x003fffffffffffff) + k1;
+        let k2 = s2 >> 54;
+        let s3 = (d3 & 0x003fffffffffffff) + k2;
+        let k3 = s3 >> 54;
+        let s4 = (d4 & 0x003fffffffffffff) + k3;
+        let k4 = s4 >> 54;
+        let s5 = (d5 & 0x003fffffffffffff) + k4;
+        let k5 = s5 >> 54;
+        let s6 = (d6 & 0x003fffffffffffff) + k5;
+        let k6 = s6 >> 54;
+        let s7 = (d7 & 0x003fffffffffffff) + k6;
+        let k7 = s7 >> 54;
+        let s8 = (d8 & 0x003fffffffffffff) + k7;
+        let k8 = s8 >> 54;
+        let s9 = (d9 & 0x0000000001ffffff) + k8;
+
+        self.0[0] = s0 & 0x003fffffffffffff;
+        self.0[1] = s1 & 0x003fffffffffffff;
+        self.0[2] = s2 & 0x003fffffffffffff;
+        self.0[3] = s3 & 0x003fffffffffffff;
+        self.0[4] = s4 & 0x003fffffffffffff;
+        self.0[5] = s5 & 0x003fffffffffffff;
+        self.0[6] = s6 & 0x003fffffffffffff;
+        self.0[7] = s7 & 0x003fffffffffffff;
+        self.0[8] = s8 & 0x003fffffffffffff;
+        self.0[9] = s9;
     }
 
     fn small_mul(&self, b: i32) -> Mod_e511_187 {
diff --git a/src/field/mod_e521_1.rs b/src/field/mod_e521_1.rs
index 64743db..4bdf9df 100644
--- a/src/field/mod_e521_1.rs
+++ b/src/field/mod_e521_1.rs
@@ -2705,8 +2705,7 @@ impl PrimeField for Mod_e521_1 {
         let m18 = a18 * b;
         let m19 = a19 * b;
 
-        let cin = self.carry_out();
-        let d0 = m0 + ((m1 & 0x07ffffff) << 27) + (cin * C_VAL);
+        let d0 = m0 + ((m1 & 0x07ffffff) << 27);
         let c0 = d0 >> 54;
         let d1 = (m1 >> 27) + m2 + ((m3 & 0x07ffffff) << 27) + c0;
         let c1 = d1 >> 54;
@@ -2724,18 +2723,44 @@ impl PrimeField for Mod_e521_1 {
         let c7 = d7 >> 54;
         let d8 = (m15 >> 27) + m16 + ((m17 & 0x07ffffff) << 27) + c7;
         let c8 = d8 >> 54;
-        let d9 = (m17 >> 27) + m18 + (m19 << 27) + c8;
-
-        self.0[0] = d0 & 0x003fffffffffffff;
-        self.0[1] = d1 & 0x003fffffffffffff;
-        self.0[2] = d2 & 0x003fffffffffffff;
-        self.0[3] = d3 & 0x003fffffffffffff;
-        self.0[4] = d4 & 0x003fffffffffffff;
-        self.0[5] = d5 & 0x003fffffffffffff;
-        self.0[6] = d6 & 0x003fffffffffffff;
-        self.0[7] = d7 & 0x003fffffffffffff;
-        self.0[8] = d8 & 0x003fffffffffffff;
-        self.0[9] = d9;
+        let d9 = (m17 >> 27) + m18 + ((m19 & 0x07ffffff) << 27) +
+                 c8;
+        let c9 = d9 >> 54;
+        let d10 = (m19 >> 27) + c9;
+
+        // Fold everything above the top digit back in, so that only a
+        // carry of at most one is left there.
+        let kin = ((d9 & 0x003fffffffffffff) >> 35) + (d10 << 19);
+        let s0 = (d0 & 0x003fffffffffffff) + (kin * C_VAL);
+        let k0 = s0 >> 54;
+        let s1 = (d1 & 0x003fffffffffffff) + k0;
+        let k1 = s1 >> 54;
+        let s2 = (d2 & 0x003fffffffffffff) + k1;
+        let k2 = s2 >> 54;
+        let s3 = (d3 & 0x003fffffffffffff) + k2;
+        let k3 = s3 >> 54;
+        let s4 = (d4 & 0x003fffffffffffff) + k3;
+        let k4 = s4 >> 54;
+        let s5 = (d5 & 0x003fffffffffffff) + k4;
+        let k5 = s5 >> 54;
+        let s6 = (d6 & 0x003fffffffffffff) + k5;
+        let k6 = s6 >> 54;
+        let s7 = (d7 & 0x003fffffffffffff) + k6;
+        let k7 = s7 >> 54;
+        let s8 = (d8 & 0x003fffffffffffff) + k7;
+        let k8 = s8 >> 54;
+        let s9 = (d9 & 0x00000007ffffffff) + k8;
+
+        self.0[0] = s0 & 0x003fffffffffffff;
+        self.0[1] = s1 & 0x003fffffffffffff;
+        self.0[2] = s2 & 0x003fffffffffffff;
+        self.0[3] = s3 & 0x003fffffffffffff;
+        self.0[4] = s4 & 0x003fffffffffffff;
+        self.0[5] = s5 & 0x003fffffffffffff;
+        self.0[6] = s6 & 0x003fffffffffffff;
+        self.0[7] = s7 & 0x003fffffffffffff;
+        self.0[8] = s8 & 0x003fffffffffffff;
+        self.0[9] = s9;
     }
 
     fn small_mul(&self, b: i32) -> Mod_e521_1 {
-- 
2.43.0


From 3e2944f3b245304762df877c53486dd767d1d180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:52 +0000
Subject: [PATCH 06/11] fix: normalize mishandled values whose pending carry
 does not cancel in one step

---
 src/field/mod_e221_3.rs   | 6 ++++++
 src/field/mod_e222_117.rs | 6 ++++++
 src/field/mod_e251_9.rs   | 6 ++++++
 src/field/mod_e255_19.rs  | 6 ++++++
 src/field/mod_e382_105.rs | 6 ++++++
 src/field/mod_e383_187.rs | 6 ++++++
 src/field/mod_e414_17.rs  | 6 ++++++
 src/field/mod_e511_187.rs | 6 ++++++
 src/field/mod_e521_1.rs   | 6 ++++++
 9 files changed, 54 insertions(+)

diff --git a/src/field/mod_e221_3.rs b/src/field/mod_e221_3.rs
index fa5b45a..f2f7acc 100644
--- a/src/field/mod_e221_3.rs
+++ b/src/field/mod_e221_3.rs
@@ -846,6 +846,12 @@ impl Pack for Mod_e221_3 {
 
 impl Normalize for Mod_e221_3 {
     fn normalize(&mut self) {
+        // Fold the carry in the top digit back into the low-order digits.
+        // The first pass can leave behind a carry or borrow of one, which
+        // the second pass absorbs; the value is then in [0, 2^n).
+        self.small_add_assign(0);
+        self.small_add_assign(0);
+
         let plusc = &*self + (C_VAL as i32);
         let offset = &MODULUS * (plusc.carry_out() as i32);
         *self -= &offset;
diff --git a/src/field/mod_e222_117.rs b/src/field/mod_e222_117.rs
index d763b16..41329b5 100644
--- a/src/field/mod_e222_117.rs
+++ b/src/field/mod_e222_117.rs
@@ -843,6 +843,12 @@ impl Pack for Mod_e222_117 {
 
 impl Normalize for Mod_e222_117 {
     fn normalize(&mut self) {
+        // Fold the carry in the top digit back into the low-order digits.
+        // The first pass can leave behind a carry or borrow of one, which
+        // the second pass absorbs; the value is then in [0, 2^n).
+        self.small_add_assign(0);
+        self.small_add_assign(0);
+
         let plusc = &*self + (C_VAL as i32);
         let offset = &MODULUS * (plusc.carry_out() as i32);
         *self -= &offset;
diff --git a/src/field/mod_e251_9.rs b/src/field/mod_e251_9.rs
index b07929a..9990756 100644
--- a/src/field/mod_e251_9.rs
+++ b/src/field/mod_e251_9.rs
@@ -883,6 +883,12 @@ impl Pack for Mod_e251_9 {
 
 impl Normalize for Mod_e251_9 {
     fn normalize(&mut self) {
+        // Fold the carry in the top digit back into the low-order digits.
+        // The first pass can leave behind a carry or borrow of one, which
+        // the second pass absorbs; the value is then in [0, 2^n).
+        self.small_add_assign(0);
+        self.small_add_assign(0);
+
         let plusc = &*self + (C_VAL as i32);
         let offset = &MODULUS * (plusc.carry_out() as i32);
         *self -= &offset;
diff --git a/src/field/mod_e255_19.rs b/src/field/mod_e255_19.rs
index 78e9111..0bcf505 100644
--- a/src/field/mod_e255_19.rs
+++ b/src/field/mod_e255_19.rs
@@ -935,6 +935,12 @@ impl Pack for Mod_e255_19 {
 
 impl Normalize for Mod_e255_19 {
     fn normalize(&mut self) {
+        // Fold the carry in the top digit back into the low-order digits.
+        // The first pass can leave behind a carry or borrow of one, which
+        // the second pass absorbs; the value is then in [0, 2^n).
+        self.small_add_assign(0);
+        self.small_add_assign(0);
+
         let plusc = &*self + (C_VAL as i32);
         let offset = &MODULUS * (plusc.carry_out() as i32);
         *self -= &offset;
diff --git a/src/field/mod_e382_105.rs b/src/field/mod_e382_105.rs
index 26ed92a..4e04ef4 100644
--- a/src/field/mod_e382_105.rs
+++ b/src/field/mod_e382_105.rs
@@ -1146,6 +1146,12 @@ impl Pack for Mod_e382_105 {
 
 impl Normalize for Mod_e382_105 {
     fn normalize(&mut self) {
+        // Fold the carry in the top digit back into the low-order digits.
+        // The first pass can leave behind a carry or borrow of one, which
+        // the second pass absorbs; the value is then in [0, 2^n).
+        self.small_add_assign(0);
+        self.small_add_assign(0);
+
         let plusc = &*self + (C_VAL as i32);
         let offset = &MODULUS * (plusc.carry_out() as i32);
         *self -= &offset;
diff --git a/src/field/mod_e383_187.rs b/src/field/mod_e383_187.rs
index 3a2be04..efe96fe 100644
--- a/src/field/mod_e383_187.rs
+++ b/src/field/mod_e383_187.rs
@@ -1229,6 +1229,12 @@ impl Pack for Mod_e383_187 {
 
 impl Normalize for Mod_e383_187 {
     fn normalize(&mut self) {
+        // Fold the carry in the top digit back into the low-order digits.
+        // The first pass can leave behind a carry or borrow of one, which
+        // the second pass absorbs; the value is then in [0, 2^n).
+        self.small_add_assign(0);
+        self.small_add_assign(0);
+
         let plusc = &*self + (C_VAL as i32);
         let offset = &MODULUS * (plusc.carry_out() as i32);
         *self -= &offset;
diff --git a/src/field/mod_e414_17.rs b/src/field/mod_e414_17.rs
index 7ab260e..f83cfcb 100644
--- a/src/field/mod_e414_17.rs
+++ b/src/field/mod_e414_17.rs
@@ -1211,6 +1211,12 @@ impl Pack for Mod_e414_17 {
 
 impl Normalize for Mod_e414_17 {
     fn normalize(&mut self) {
+        // Fold the carry in the top digit back into the low-order digits.
+        // The first pass can leave behind a carry or borrow of one, which
+        // the second pass absorbs; the value is then in [0, 2^n).
+        self.small_add_assign(0);
+        self.small_add_assign(0);
+
         let plusc = &*self + (C_VAL as i32);
         let offset = &MODULUS * (plusc.carry_out() as i32);
         *self -= &offset;
diff --git a/src/field/mod_e511_187.rs b/src/field/mod_e511_187.rs
index 11f42f9..3fbada4 100644
--- a/src/field/mod_e511_187.rs
+++ b/src/field/mod_e511_187.rs
@@ -1543,6 +1543,12 @@ impl Pack for Mod_e511_187 {
 
 impl Normalize for Mod_e511_187 {
     fn normalize(&mut self) {
+        // Fold the carry in the top digit back into the low-order digits.
+        // The first pass can leave behind a carry or borrow of one, which
+        // the second pass absorbs; the value is then in [0, 2^n).
+        self.small_add_assign(0);
+        self.small_add_assign(0);
+
         let plusc = &*self + (C_VAL as i32);
         let offset = &MODULUS * (plusc.carry_out() as i32);
         *self -= &offset;
diff --git a/src/field/mod_e521_1.rs b/src/field/mod_e521_1.rs
index 4bdf9df..12aa86f 100644
--- a/src/field/mod_e521_1.rs
+++ b/src/field/mod_e521_1.rs
@@ -1573,6 +1573,12 @@ impl Pack for Mod_e521_1 {
 
 impl Normalize for Mod_e521_1 {
     fn normalize(&mut self) {
+        // Fold the carry in the top digit back into the low-order digits.
+        // The first pass can leave behind a carry or borrow of one, which
+        // the second pass absorbs; the value is then in [0, 2^n).
+        self.small_add_assign(0);
+        self.small_add_assign(0);
+
         let plusone = &*self + (C_VAL as i32);
         let offset = &MODULUS * (plusone.carry_out() as i32);
         *self -= &offset;
-- 
2.43.0


From 80617264f2a7e668e116a659195d57e81ec90c06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:52 +0000
Subject: [PATCH 07/11] fix: 2^251-9 multiplication dropped the sign of a
 product of lazily normalised operands

---
 src/field/mod_e251_9.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/field/mod_e251_9.rs b/src/field/mod_e251_9.rs
index 9990756..c736a3a 100644
--- a/src/field/mod_e251_9.rs
+++ b/src/field/mod_e251_9.rs
@@ -657,7 +657,7 @@ impl<'b> MulAssign<&'b Mod_e251_9> for Mod_e251_9 {
                    ((d7 & 0x0000000007ffffff) << 29);
         let h3_0 = ((d7 & 0x00ffffffffffffff) >> 27) |
                    ((d8 & 0x0000000007ffffff) << 29);
-        let h4_0 = (d8 & 0x00ffffffffffffff) >> 27;
+        let h4_0 = d8 >> 27;
 
         // Multiply by C
         let hc0_0 = h0_0 * C_VAL;
-- 
2.43.0


From cd0b9a0ace0c38bacbea78ab650805a14a579540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:52 +0000
Subject: [PATCH 08/11] fix: 2^222-117 product and square lost the bits above
 the top half-word of the folded carry

---
 src/field/mod_e222_117.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/field/mod_e222_117.rs b/src/field/mod_e222_117.rs
index 41329b5..303e6aa 100644
--- a/src/field/mod_e222_117.rs
+++ b/src/field/mod_e222_117.rs
@@ -629,7 +629,7 @@ impl<'b> MulAssign<&'b Mod_e222_117> for Mod_e222_117 {
                     ((hc5_0 & 0x1fffffff) << 29) + hmk1_0;
         let hmk2_0 = hm2_0 >> 58;
         let hm3_0 = (hc5_0 >> 29) + hc6_0 +
-                    ((hc7_0 & 0x1fffffff) << 29) + hmk2_0;
+                    (hc7_0 << 29) + hmk2_0;
 
         // Add h and l.
         let kin_0 = hm3_0 >> 48;
@@ -1170,7 +1170,7 @@ impl PrimeField for Mod_e222_117 {
                     ((hc5_0 & 0x1fffffff) << 29) + hmk1_0;
         let hmk2_0 = hm2_0 >> 58;
         let hm3_0 = (hc5_0 >> 29) + hc6_0 +
-                    ((hc7_0 & 0x1fffffff) << 29) + hmk2_0;
+                    (hc7_0 << 29) + hmk2_0;
 
         // Add h and l.
         let kin_0 = hm3_0 >> 48;
-- 
2.43.0


From 5ee8d2846c0bbadeb5d7d68f354feae997836843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:52 +0000
Subject: [PATCH 09/11] fix: zero() and init() set an extended coordinate T
 that is not XY/Z

---
 src/curve/edwards.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/curve/edwards.rs b/src/curve/edwards.rs
index ac96eb6..9c83d1a 100644
--- a/src/curve/edwards.rs
+++ b/src/curve/edwards.rs
@@ -101,7 +101,7 @@ impl<C: EdwardsCurve> Point for EdwardsExtended<C> {
             x: C::Scalar::zero(),
             y: C::Scalar::one(),
             z: C::Scalar::one(),
-            t: C::Scalar::one()
+            t: C::Scalar::zero()
         }
     }
 
@@ -109,7 +109,7 @@ impl<C: EdwardsCurve> Point for EdwardsExtended<C> {
         self.x = x;
         self.y = y;
         self.z = C::Scalar::one();
-        self.t = C::Scalar::one();
+        self.t = x * y;
     }
 
     fn scalar_mult(&mut self, rhs: &mut Self::Scalar) {
-- 
2.43.0


From 0435c485220f5982e856ca96806eb9877038bd70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:52 +0000
Subject: [PATCH 10/11] fix: point tripling subtracted where the formula adds,
 leaving the curve

---
 src/curve/edwards.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/curve/edwards.rs b/src/curve/edwards.rs
index 9c83d1a..e7004ad 100644
--- a/src/curve/edwards.rs
+++ b/src/curve/edwards.rs
@@ -202,7 +202,7 @@ impl<C: EdwardsCurve> Point for EdwardsExtended<C> {
         let yb = yy * b;
         let aa = ap * (yy - xx);
         let f = aa - yb;
-        let g = aa - xb;
+        let g = aa + xb;
         let xe = self.x * (yb + aa);
         let yh = self.y * (xb - aa);
         let zf = self.z * f;
-- 
2.43.0


From 278b24b359299c492bc20fd57e095b739010604c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:52 +0000
Subject: [PATCH 11/11] fix: scalar multiplication ladder used each bit of the
 scalar inverted

---
 src/curve/edwards.rs | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/curve/edwards.rs b/src/curve/edwards.rs
index e7004ad..4d4a8a7 100644
--- a/src/curve/edwards.rs
+++ b/src/curve/edwards.rs
@@ -139,9 +139,9 @@ impl<C: EdwardsCurve> Point for EdwardsExtended<C> {
             r0 += r1;
             r1 = r0;
 
-            // d0 = bit ? r0 : r1
-            d0.normalized_bitand(&tmask);
-            d1.normalized_bitand(&fmask);
+            // d0 = bit ? r1 : r0
+            d0.normalized_bitand(&fmask);
+            d1.normalized_bitand(&tmask);
             d0.normalized_bitor(&d1);
 
             // d0 *= 2
@@ -150,14 +150,14 @@ impl<C: EdwardsCurve> Point for EdwardsExtended<C> {
             // d1 = d0
             d1 = d0;
 
-            // r0 = bit ? d0 : r0
-            r0.normalized_bitand(&fmask);
-            d0.normalized_bitand(&tmask);
+            // r0 = bit ? r0 : d0
+            r0.normalized_bitand(&tmask);
+            d0.normalized_bitand(&fmask);
             r0.normalized_bitor(&d0);
 
-            // r1 = bit ? r1 : d1
-            r1.normalized_bitand(&tmask);
-            d1.normalized_bitand(&fmask);
+            // r1 = bit ? d1 : r1
+            r1.normalized_bitand(&fmask);
+            d1.normalized_bitand(&tmask);
             r1.normalized_bitor(&d1);
         }
 
-- 
2.43.0

