From 11fb41115aac7769dd57550e81db6bb3a935d1ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:06 +0000
Subject: [PATCH 01/12] fix: subtract the right-hand carry in SubAssign instead
 of adding it

---
 src/field/mod_e221_3.rs   | 2 +-
 src/field/mod_e222_117.rs | 2 +-
 src/field/mod_e251_9.rs   | 2 +-
 src/field/mod_e255_19.rs  | 2 +-
 src/field/mod_e382_105.rs | 2 +-
 src/field/mod_e383_187.rs | 2 +-
 src/field/mod_e414_17.rs  | 2 +-
 src/field/mod_e511_187.rs | 2 +-
 src/field/mod_e521_1.rs   | 2 +-
 9 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/field/mod_e221_3.rs b/src/field/mod_e221_3.rs
index 240f852..47c47a1 100644
--- a/src/field/mod_e221_3.rs
+++ b/src/field/mod_e221_3.rs
@@ -364,7 +364,7 @@ impl<'b> SubAssign<&'b Mod_e221_3> for Mod_e221_3 {
         let b2 = rhs.0[2];
         let b3 = rhs.0[3] & 0x00007fffffffffff;
 
-        let cin = self.carry_out() + rhs.carry_out();
+        let cin = self.carry_out() - rhs.carry_out();
         let s0 = a0 - b0 + (cin * C_VAL);
         let c0 = s0 >> 58;
         let s1 = a1 - b1 + c0;
diff --git a/src/field/mod_e222_117.rs b/src/field/mod_e222_117.rs
index 20b568d..9eed087 100644
--- a/src/field/mod_e222_117.rs
+++ b/src/field/mod_e222_117.rs
@@ -325,7 +325,7 @@ impl<'b> SubAssign<&'b Mod_e222_117> for Mod_e222_117 {
         let b2 = rhs.0[2];
         let b3 = rhs.0[3] & 0x0000ffffffffffff;
 
-        let cin = self.carry_out() + rhs.carry_out();
+        let cin = self.carry_out() - rhs.carry_out();
         let s0 = a0 - b0 + (cin * C_VAL);
         let c0 = s0 >> 58;
         let s1 = a1 - b1 + c0;
diff --git a/src/field/mod_e251_9.rs b/src/field/mod_e251_9.rs
index 1fef865..e1d7c60 100644
--- a/src/field/mod_e251_9.rs
+++ b/src/field/mod_e251_9.rs
@@ -344,7 +344,7 @@ impl<'b> SubAssign<&'b Mod_e251_9> for Mod_e251_9 {
         let b3 = rhs.0[3];
         let b4 = rhs.0[4] & 0x0000000007ffffff;
 
-        let cin = self.carry_out() + rhs.carry_out();
+        let cin = self.carry_out() - rhs.carry_out();
         let s0 = a0 - b0 + (cin * C_VAL);
         let c0 = s0 >> 56;
         let s1 = a1 - b1 + c0;
diff --git a/src/field/mod_e255_19.rs b/src/field/mod_e255_19.rs
index 9859fef..c974685 100644
--- a/src/field/mod_e255_19.rs
+++ b/src/field/mod_e255_19.rs
@@ -364,7 +364,7 @@ impl<'b> SubAssign<&'b Mod_e255_19> for Mod_e255_19 {
         let b3 = rhs.0[3];
         let b4 = rhs.0[4] & 0x000000007fffffff;
 
-        let cin = self.carry_out() + rhs.carry_out();
+        let cin = self.carry_out() - rhs.carry_out();
         let s0 = a0 - b0 + (cin * C_VAL);
         let c0 = s0 >> 56;
         let s1 = a1 - b1 + c0;
diff --git a/src/field/mod_e382_105.rs b/src/field/mod_e382_105.rs
index f962198..b91433a 100644
--- a/src/field/mod_e382_105.rs
+++ b/src/field/mod_e382_105.rs
@@ -358,7 +358,7 @@ impl<'b> SubAssign<&'b Mod_e382_105> for Mod_e382_105 {
         let b5 = rhs.0[5];
         let b6 = rhs.0[6] & 0x00003fffffffffff;
 
-        let cin = self.carry_out() + rhs.carry_out();
+        let cin = self.carry_out() - rhs.carry_out();
         let s0 = a0 - b0 + (cin * C_VAL);
         let c0 = s0 >> 56;
         let s1 = a1 - b1 + c0;
diff --git a/src/field/mod_e383_187.rs b/src/field/mod_e383_187.rs
index 1cb9823..2a1df8c 100644
--- a/src/field/mod_e383_187.rs
+++ b/src/field/mod_e383_187.rs
@@ -407,7 +407,7 @@ impl<'b> SubAssign<&'b Mod_e383_187> for Mod_e383_187 {
         let b5 = rhs.0[5];
         let b6 = rhs.0[6] & 0x00007fffffffffff;
 
-        let cin = self.carry_out() + rhs.carry_out();
+        let cin = self.carry_out() - rhs.carry_out();
         let s0 = a0 - b0 + (cin * C_VAL);
         let c0 = s0 >> 56;
         let s1 = a1 - b1 + c0;
diff --git a/src/field/mod_e414_17.rs b/src/field/mod_e414_17.rs
index 038c529..ead33fe 100644
--- a/src/field/mod_e414_17.rs
+++ b/src/field/mod_e414_17.rs
@@ -364,7 +364,7 @@ impl<'b> SubAssign<&'b Mod_e414_17> for Mod_e414_17 {
         let b6 = rhs.0[6];
         let b7 = rhs.0[7] & 0x00000000003fffff;
 
-        let cin = self.carry_out() + rhs.carry_out();
+        let cin = self.carry_out() - rhs.carry_out();
         let s0 = a0 - b0 + (cin * C_VAL);
         let c0 = s0 >> 56;
         let s1 = a1 - b1 + c0;
diff --git a/src/field/mod_e511_187.rs b/src/field/mod_e511_187.rs
index e434408..3e19760 100644
--- a/src/field/mod_e511_187.rs
+++ b/src/field/mod_e511_187.rs
@@ -416,7 +416,7 @@ impl<'b> SubAssign<&'b Mod_e511_187> for Mod_e511_187 {
         let b8 = rhs.0[8];
         let b9 = rhs.0[9] & 0x0000000001ffffff;
 
-        let cin = self.carry_out() + rhs.carry_out();
+        let cin = self.carry_out() - rhs.carry_out();
         let s0 = a0 - b0 + (cin * C_VAL);
         let c0 = s0 >> 54;
         let s1 = a1 - b1 + c0;
diff --git a/src/field/mod_e521_1.rs b/src/field/mod_e521_1.rs
index 146eeee..3c20e5d 100644
--- a/src/field/mod_e521_1.rs
+++ b/src/field/mod_e521_1.rs
@@ -385,7 +385,7 @@ impl<'b> SubAssign<&'b Mod_e521_1> for Mod_e521_1 {
         let b8 = rhs.0[8];
         let b9 = rhs.0[9] & 0x00000007ffffffff;
 
-        let cin = self.carry_out() + rhs.carry_out();
+        let cin = self.carry_out() - rhs.carry_out();
         let s0 = a0 - b0 + (cin * C_VAL);
         let c0 = s0 >> 54;
         let s1 = a1 - b1 + c0;
-- 
2.43.0


From ae5c574db9d95467f6cac436cf00d7af34a7aa23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:08 +0000
Subject: [PATCH 02/12] fix: Neg returns MODULUS - self rather than self +
 MODULUS

---
 src/field/mod_e221_3.rs   | 4 ++--
 src/field/mod_e222_117.rs | 4 ++--
 src/field/mod_e251_9.rs   | 4 ++--
 src/field/mod_e255_19.rs  | 4 ++--
 src/field/mod_e382_105.rs | 4 ++--
 src/field/mod_e383_187.rs | 4 ++--
 src/field/mod_e414_17.rs  | 4 ++--
 src/field/mod_e511_187.rs | 4 ++--
 src/field/mod_e521_1.rs   | 4 ++--
 9 files changed, 18 insertions(+), 18 deletions(-)

diff --git a/src/field/mod_e221_3.rs b/src/field/mod_e221_3.rs
index 47c47a1..b1a25ce 100644
--- a/src/field/mod_e221_3.rs
+++ b/src/field/mod_e221_3.rs
@@ -155,9 +155,9 @@ impl Neg for Mod_e221_3 {
     type Output = Mod_e221_3;
 
     fn neg(self) -> Mod_e221_3 {
-        let mut out = self;
+        let mut out = MODULUS;
 
-        out += &MODULUS;
+        out -= &self;
         out
     }
 }
diff --git a/src/field/mod_e222_117.rs b/src/field/mod_e222_117.rs
index 9eed087..80a2b35 100644
--- a/src/field/mod_e222_117.rs
+++ b/src/field/mod_e222_117.rs
@@ -134,9 +134,9 @@ impl Neg for Mod_e222_117 {
     type Output = Mod_e222_117;
 
     fn neg(self) -> Mod_e222_117 {
-        let mut out = self;
+        let mut out = MODULUS;
 
-        out += &MODULUS;
+        out -= &self;
         out
     }
 }
diff --git a/src/field/mod_e251_9.rs b/src/field/mod_e251_9.rs
index e1d7c60..9ec897e 100644
--- a/src/field/mod_e251_9.rs
+++ b/src/field/mod_e251_9.rs
@@ -146,9 +146,9 @@ impl Neg for Mod_e251_9 {
     type Output = Mod_e251_9;
 
     fn neg(self) -> Mod_e251_9 {
-        let mut out = self;
+        let mut out = MODULUS;
 
-        out += &MODULUS;
+        out -= &self;
         out
     }
 }
diff --git a/src/field/mod_e255_19.rs b/src/field/mod_e255_19.rs
index c974685..c52e6f3 100644
--- a/src/field/mod_e255_19.rs
+++ b/src/field/mod_e255_19.rs
@@ -166,9 +166,9 @@ impl Neg for Mod_e255_19 {
     type Output = Mod_e255_19;
 
     fn neg(self) -> Mod_e255_19 {
-        let mut out = self;
+        let mut out = MODULUS;
 
-        out += &MODULUS;
+        out -= &self;
         out
     }
 }
diff --git a/src/field/mod_e382_105.rs b/src/field/mod_e382_105.rs
index b91433a..b04ce03 100644
--- a/src/field/mod_e382_105.rs
+++ b/src/field/mod_e382_105.rs
@@ -146,9 +146,9 @@ impl Neg for Mod_e382_105 {
     type Output = Mod_e382_105;
 
     fn neg(self) -> Mod_e382_105 {
-        let mut out = self;
+        let mut out = MODULUS;
 
-        out += &MODULUS;
+        out -= &self;
         out
     }
 }
diff --git a/src/field/mod_e383_187.rs b/src/field/mod_e383_187.rs
index 2a1df8c..6c3b524 100644
--- a/src/field/mod_e383_187.rs
+++ b/src/field/mod_e383_187.rs
@@ -195,9 +195,9 @@ impl Neg for Mod_e383_187 {
     type Output = Mod_e383_187;
 
     fn neg(self) -> Mod_e383_187 {
-        let mut out = self;
+        let mut out = MODULUS;
 
-        out += &MODULUS;
+        out -= &self;
         out
     }
 }
diff --git a/src/field/mod_e414_17.rs b/src/field/mod_e414_17.rs
index ead33fe..a0f42f2 100644
--- a/src/field/mod_e414_17.rs
+++ b/src/field/mod_e414_17.rs
@@ -145,9 +145,9 @@ impl Neg for Mod_e414_17 {
     type Output = Mod_e414_17;
 
     fn neg(self) -> Mod_e414_17 {
-        let mut out = self;
+        let mut out = MODULUS;
 
-        out += &MODULUS;
+        out -= &self;
         out
     }
 }
diff --git a/src/field/mod_e511_187.rs b/src/field/mod_e511_187.rs
index 3e19760..b4246ba 100644
--- a/src/field/mod_e511_187.rs
+++ b/src/field/mod_e511_187.rs
@@ -183,9 +183,9 @@ impl Neg for Mod_e511_187 {
     type Output = Mod_e511_187;
 
     fn neg(self) -> Mod_e511_187 {
-        let mut out = self;
+        let mut out = MODULUS;
 
-        out += &MODULUS;
+        out -= &self;
         out
     }
 }
diff --git a/src/field/mod_e521_1.rs b/src/field/mod_e521_1.rs
index 3c20e5d..e6155e5 100644
--- a/src/field/mod_e521_1.rs
+++ b/src/field/mod_e521_1.rs
@@ -152,9 +152,9 @@ impl Neg for Mod_e521_1 {
     type Output = Mod_e521_1;
 
     fn neg(self) -> Mod_e521_1 {
-        let mut out = self;
+        let mut out = MODULUS;
 
-        out += &MODULUS;
+        out -= &self;
         out
     }
 }
-- 
2.43.0


From 005280a1b75afd40c86771194f30fbb973224718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:09 +0000
Subject: [PATCH 03/12] fix: Mod_e521_1 small_mul_assign uses the preceding
 limb's carry

---
 src/field/mod_e521_1.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/field/mod_e521_1.rs b/src/field/mod_e521_1.rs
index e6155e5..64743db 100644
--- a/src/field/mod_e521_1.rs
+++ b/src/field/mod_e521_1.rs
@@ -2719,11 +2719,11 @@ impl PrimeField for Mod_e521_1 {
         let d5 = (m9 >> 27) + m10 + ((m11 & 0x07ffffff) << 27) + c4;
         let c5 = d5 >> 54;
         let d6 = (m11 >> 27) + m12 + ((m13 & 0x07ffffff) << 27) + c5;
-        let c6 = d5 >> 54;
+        let c6 = d6 >> 54;
         let d7 = (m13 >> 27) + m14 + ((m15 & 0x07ffffff) << 27) + c6;
-        let c7 = d6 >> 54;
+        let c7 = d7 >> 54;
         let d8 = (m15 >> 27) + m16 + ((m17 & 0x07ffffff) << 27) + c7;
-        let c8 = d7 >> 54;
+        let c8 = d8 >> 54;
         let d9 = (m17 >> 27) + m18 + (m19 << 27) + c8;
 
         self.0[0] = d0 & 0x003fffffffffffff;
-- 
2.43.0


From e105565227729564d36a4994776fce17130484cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:13 +0000
Subject: [PATCH 04/12] fix: small_mul_assign folds the carry exactly once and
 cannot overflow the top limb

---
 src/field/mod_e221_3.rs   | 9 +++++++--
 src/field/mod_e222_117.rs | 9 +++++++--
 src/field/mod_e251_9.rs   | 6 ++++--
 src/field/mod_e255_19.rs  | 9 +++++++--
 src/field/mod_e382_105.rs | 9 +++++++--
 src/field/mod_e383_187.rs | 9 +++++++--
 src/field/mod_e414_17.rs  | 6 ++++--
 src/field/mod_e511_187.rs | 6 ++++--
 src/field/mod_e521_1.rs   | 9 +++++++--
 9 files changed, 54 insertions(+), 18 deletions(-)

diff --git a/src/field/mod_e221_3.rs b/src/field/mod_e221_3.rs
index b1a25ce..e0601fa 100644
--- a/src/field/mod_e221_3.rs
+++ b/src/field/mod_e221_3.rs
@@ -1321,19 +1321,24 @@ impl PrimeField for Mod_e221_3 {
         let m6 = a6 * b;
         let m7 = a7 * b;
 
-        let cin = self.carry_out();
+        // Fold the part of the top digit's product above the modulus size.
+        let cin = m7 >> 18;
         let d0 = m0 + ((m1 & 0x1fffffff) << 29) + (cin * C_VAL);
         let c0 = d0 >> 58;
         let d1 = (m1 >> 29) + m2 + ((m3 & 0x1fffffff) << 29) + c0;
         let c1 = d1 >> 58;
         let d2 = (m3 >> 29) + m4 + ((m5 & 0x1fffffff) << 29) + c1;
         let c2 = d2 >> 58;
-        let d3 = (m5 >> 29) + m6 + (m7 << 29) + c2;
+        let d3 = (m5 >> 29) + m6 +
+                 ((m7 & 0x0003ffff) << 29) + c2;
 
         self.0[0] = d0 & 0x03ffffffffffffff;
         self.0[1] = d1 & 0x03ffffffffffffff;
         self.0[2] = d2 & 0x03ffffffffffffff;
         self.0[3] = d3;
+
+        // Fold the carry, to keep the top limb small.
+        self.small_add_assign(0);
     }
 
     fn small_mul(&self, b: i32) -> Self {
diff --git a/src/field/mod_e222_117.rs b/src/field/mod_e222_117.rs
index 80a2b35..edffc1f 100644
--- a/src/field/mod_e222_117.rs
+++ b/src/field/mod_e222_117.rs
@@ -1354,19 +1354,24 @@ impl PrimeField for Mod_e222_117 {
         let m6 = a6 * b;
         let m7 = a7 * b;
 
-        let cin = self.carry_out();
+        // Fold the part of the top digit's product above the modulus size.
+        let cin = m7 >> 19;
         let d0 = m0 + ((m1 & 0x1fffffff) << 29) + (cin * C_VAL);
         let c0 = d0 >> 58;
         let d1 = (m1 >> 29) + m2 + ((m3 & 0x1fffffff) << 29) + c0;
         let c1 = d1 >> 58;
         let d2 = (m3 >> 29) + m4 + ((m5 & 0x1fffffff) << 29) + c1;
         let c2 = d2 >> 58;
-        let d3 = (m5 >> 29) + m6 + (m7 << 29) + c2;
+        let d3 = (m5 >> 29) + m6 +
+                 ((m7 & 0x0007ffff) << 29) + c2;
 
         self.0[0] = d0 & 0x03ffffffffffffff;
         self.0[1] = d1 & 0x03ffffffffffffff;
         self.0[2] = d2 & 0x03ffffffffffffff;
         self.0[3] = d3;
+
+        // Fold the carry, to keep the top limb small.
+        self.small_add_assign(0);
     }
 
     fn small_mul(&self, b: i32) -> Mod_e222_117 {
diff --git a/src/field/mod_e251_9.rs b/src/field/mod_e251_9.rs
index 9ec897e..85a8731 100644
--- a/src/field/mod_e251_9.rs
+++ b/src/field/mod_e251_9.rs
@@ -1409,8 +1409,7 @@ impl PrimeField for Mod_e251_9 {
         let m7 = a7 * b;
         let m8 = a8 * b;
 
-        let cin = self.carry_out();
-        let d0 = m0 + ((m1 & 0x0fffffff) << 28) + (cin * C_VAL);
+        let d0 = m0 + ((m1 & 0x0fffffff) << 28);
         let c0 = d0 >> 56;
         let d1 = (m1 >> 28) + m2 + ((m3 & 0x0fffffff) << 28) + c0;
         let c1 = d1 >> 56;
@@ -1425,6 +1424,9 @@ impl PrimeField for Mod_e251_9 {
         self.0[2] = d2 & 0x00ffffffffffffff;
         self.0[3] = d3 & 0x00ffffffffffffff;
         self.0[4] = d4;
+
+        // Fold the carry, to keep the top limb small.
+        self.small_add_assign(0);
     }
 
     fn small_mul(&self, b: i32) -> Self {
diff --git a/src/field/mod_e255_19.rs b/src/field/mod_e255_19.rs
index c52e6f3..31d4b0d 100644
--- a/src/field/mod_e255_19.rs
+++ b/src/field/mod_e255_19.rs
@@ -1506,7 +1506,8 @@ impl PrimeField for Mod_e255_19 {
         let m8 = a8 * b;
         let m9 = a9 * b;
 
-        let cin = self.carry_out();
+        // Fold the part of the top digit's product above the modulus size.
+        let cin = m9 >> 3;
         let d0 = m0 + ((m1 & 0x0fffffff) << 28) + (cin * C_VAL);
         let c0 = d0 >> 56;
         let d1 = (m1 >> 28) + m2 + ((m3 & 0x0fffffff) << 28) + c0;
@@ -1515,13 +1516,17 @@ impl PrimeField for Mod_e255_19 {
         let c2 = d2 >> 56;
         let d3 = (m5 >> 28) + m6 + ((m7 & 0x0fffffff) << 28) + c2;
         let c3 = d3 >> 56;
-        let d4 = (m7 >> 28) + m8 + (m9 << 28) + c3;
+        let d4 = (m7 >> 28) + m8 +
+                 ((m9 & 0x00000007) << 28) + c3;
 
         self.0[0] = d0 & 0x00ffffffffffffff;
         self.0[1] = d1 & 0x00ffffffffffffff;
         self.0[2] = d2 & 0x00ffffffffffffff;
         self.0[3] = d3 & 0x00ffffffffffffff;
         self.0[4] = d4;
+
+        // Fold the carry, to keep the top limb small.
+        self.small_add_assign(0);
     }
 
     fn small_mul(&self, b: i32) -> Self {
diff --git a/src/field/mod_e382_105.rs b/src/field/mod_e382_105.rs
index b04ce03..6318b3f 100644
--- a/src/field/mod_e382_105.rs
+++ b/src/field/mod_e382_105.rs
@@ -1939,7 +1939,8 @@ impl PrimeField for Mod_e382_105 {
         let m12 = a12 * b;
         let m13 = a13 * b;
 
-        let cin = self.carry_out();
+        // Fold the part of the top digit's product above the modulus size.
+        let cin = m13 >> 18;
         let d0 = m0 + ((m1 & 0x0fffffff) << 28) + (cin * C_VAL);
         let c0 = d0 >> 56;
         let d1 = (m1 >> 28) + m2 + ((m3 & 0x0fffffff) << 28) + c0;
@@ -1952,7 +1953,8 @@ impl PrimeField for Mod_e382_105 {
         let c4 = d4 >> 56;
         let d5 = (m9 >> 28) + m10 + ((m11 & 0x0fffffff) << 28) + c4;
         let c5 = d5 >> 56;
-        let d6 = (m11 >> 28) + m12 + (m13 << 28) + c5;
+        let d6 = (m11 >> 28) + m12 +
+                 ((m13 & 0x0003ffff) << 28) + c5;
 
         self.0[0] = d0 & 0x00ffffffffffffff;
         self.0[1] = d1 & 0x00ffffffffffffff;
@@ -1961,6 +1963,9 @@ impl PrimeField for Mod_e382_105 {
         self.0[4] = d4 & 0x00ffffffffffffff;
         self.0[5] = d5 & 0x00ffffffffffffff;
         self.0[6] = d6;
+
+        // Fold the carry, to keep the top limb small.
+        self.small_add_assign(0);
     }
 
     fn small_mul(&self, b: i32) -> Mod_e382_105 {
diff --git a/src/field/mod_e383_187.rs b/src/field/mod_e383_187.rs
index 6c3b524..d85daa6 100644
--- a/src/field/mod_e383_187.rs
+++ b/src/field/mod_e383_187.rs
@@ -2061,7 +2061,8 @@ impl PrimeField for Mod_e383_187 {
         let m12 = a12 * b;
         let m13 = a13 * b;
 
-        let cin = self.carry_out();
+        // Fold the part of the top digit's product above the modulus size.
+        let cin = m13 >> 19;
         let d0 = m0 + ((m1 & 0x0fffffff) << 28) + (cin * C_VAL);
         let c0 = d0 >> 56;
         let d1 = (m1 >> 28) + m2 + ((m3 & 0x0fffffff) << 28) + c0;
@@ -2074,7 +2075,8 @@ impl PrimeField for Mod_e383_187 {
         let c4 = d4 >> 56;
         let d5 = (m9 >> 28) + m10 + ((m11 & 0x0fffffff) << 28) + c4;
         let c5 = d5 >> 56;
-        let d6 = (m11 >> 28) + m12 + (m13 << 28) + c5;
+        let d6 = (m11 >> 28) + m12 +
+                 ((m13 & 0x0007ffff) << 28) + c5;
 
         self.0[0] = d0 & 0x00ffffffffffffff;
         self.0[1] = d1 & 0x00ffffffffffffff;
@@ -2083,6 +2085,9 @@ impl PrimeField for Mod_e383_187 {
         self.0[4] = d4 & 0x00ffffffffffffff;
         self.0[5] = d5 & 0x00ffffffffffffff;
         self.0[6] = d6;
+
+        // Fold the carry, to keep the top limb small.
+        self.small_add_assign(0);
     }
 
     fn small_mul(&self, b: i32) -> Mod_e383_187 {
diff --git a/src/field/mod_e414_17.rs b/src/field/mod_e414_17.rs
index a0f42f2..5b2f8f1 100644
--- a/src/field/mod_e414_17.rs
+++ b/src/field/mod_e414_17.rs
@@ -2046,8 +2046,7 @@ impl PrimeField for Mod_e414_17 {
         let m13 = a13 * b;
         let m14 = a14 * b;
 
-        let cin = self.carry_out();
-        let d0 = m0 + ((m1 & 0x0fffffff) << 28) + (cin * C_VAL);
+        let d0 = m0 + ((m1 & 0x0fffffff) << 28);
         let c0 = d0 >> 56;
         let d1 = (m1 >> 28) + m2 + ((m3 & 0x0fffffff) << 28) + c0;
         let c1 = d1 >> 56;
@@ -2071,6 +2070,9 @@ impl PrimeField for Mod_e414_17 {
         self.0[5] = d5 & 0x00ffffffffffffff;
         self.0[6] = d6 & 0x00ffffffffffffff;
         self.0[7] = d7;
+
+        // Fold the carry, to keep the top limb small.
+        self.small_add_assign(0);
     }
 
     fn small_mul(&self, b: i32) -> Mod_e414_17 {
diff --git a/src/field/mod_e511_187.rs b/src/field/mod_e511_187.rs
index b4246ba..9c78a2a 100644
--- a/src/field/mod_e511_187.rs
+++ b/src/field/mod_e511_187.rs
@@ -2669,8 +2669,7 @@ impl PrimeField for Mod_e511_187 {
         let m17 = a17 * b;
         let m18 = a18 * b;
 
-        let cin = self.carry_out();
-        let d0 = m0 + ((m1 & 0x07ffffff) << 27) + (cin * C_VAL);
+        let d0 = m0 + ((m1 & 0x07ffffff) << 27);
         let c0 = d0 >> 54;
         let d1 = (m1 >> 27) + m2 + ((m3 & 0x07ffffff) << 27) + c0;
         let c1 = d1 >> 54;
@@ -2700,6 +2699,9 @@ impl PrimeField for Mod_e511_187 {
         self.0[7] = d7 & 0x003fffffffffffff;
         self.0[8] = d8 & 0x003fffffffffffff;
         self.0[9] = d9;
+
+        // Fold the carry, to keep the top limb small.
+        self.small_add_assign(0);
     }
 
     fn small_mul(&self, b: i32) -> Mod_e511_187 {
diff --git a/src/field/mod_e521_1.rs b/src/field/mod_e521_1.rs
index 64743db..a8aea91 100644
--- a/src/field/mod_e521_1.rs
+++ b/src/field/mod_e521_1.rs
@@ -2705,7 +2705,8 @@ impl PrimeField for Mod_e521_1 {
         let m18 = a18 * b;
         let m19 = a19 * b;
 
-        let cin = self.carry_out();
+        // Fold the part of the top digit's product above the modulus size.
+        let cin = m19 >> 8;
         let d0 = m0 + ((m1 & 0x07ffffff) << 27) + (cin * C_VAL);
         let c0 = d0 >> 54;
         let d1 = (m1 >> 27) + m2 + ((m3 & 0x07ffffff) << 27) + c0;
@@ -2724,7 +2725,8 @@ impl PrimeField for Mod_e521_1 {
         let c7 = d7 >> 54;
         let d8 = (m15 >> 27) + m16 + ((m17 & 0x07ffffff) << 27) + c7;
         let c8 = d8 >> 54;
-        let d9 = (m17 >> 27) + m18 + (m19 << 27) + c8;
+        let d9 = (m17 >> 27) + m18 +
+                 ((m19 & 0x000000ff) << 27) + c8;
 
         self.0[0] = d0 & 0x003fffffffffffff;
         self.0[1] = d1 & 0x003fffffffffffff;
@@ -2736,6 +2738,9 @@ impl PrimeField for Mod_e521_1 {
         self.0[7] = d7 & 0x003fffffffffffff;
         self.0[8] = d8 & 0x003fffffffffffff;
         self.0[9] = d9;
+
+        // Fold the carry, to keep the top limb small.
+        self.small_add_assign(0);
     }
 
     fn small_mul(&self, b: i32) -> Mod_e521_1 {
-- 
2.43.0


From 94258f21ccf8c97249e2ce9cd20d8cff06a506d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:14 +0000
Subject: [PATCH 05/12] fix: keep the sign of the top word in
 Mod_e251_9/Mod_e222_117 products

---
 src/field/mod_e222_117.rs | 4 ++--
 src/field/mod_e251_9.rs   | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/field/mod_e222_117.rs b/src/field/mod_e222_117.rs
index edffc1f..8ba3eed 100644
--- a/src/field/mod_e222_117.rs
+++ b/src/field/mod_e222_117.rs
@@ -629,7 +629,7 @@ impl<'b> MulAssign<&'b Mod_e222_117> for Mod_e222_117 {
                     ((hc5_0 & 0x1fffffff) << 29) + hmk1_0;
         let hmk2_0 = hm2_0 >> 58;
         let hm3_0 = (hc5_0 >> 29) + hc6_0 +
-                    ((hc7_0 & 0x1fffffff) << 29) + hmk2_0;
+                    (hc7_0 << 29) + hmk2_0;
 
         // Add h and l.
         let kin_0 = hm3_0 >> 48;
@@ -1164,7 +1164,7 @@ impl PrimeField for Mod_e222_117 {
                     ((hc5_0 & 0x1fffffff) << 29) + hmk1_0;
         let hmk2_0 = hm2_0 >> 58;
         let hm3_0 = (hc5_0 >> 29) + hc6_0 +
-                    ((hc7_0 & 0x1fffffff) << 29) + hmk2_0;
+                    (hc7_0 << 29) + hmk2_0;
 
         // Add h and l.
         let kin_0 = hm3_0 >> 48;
diff --git a/src/field/mod_e251_9.rs b/src/field/mod_e251_9.rs
index 85a8731..61c3c4d 100644
--- a/src/field/mod_e251_9.rs
+++ b/src/field/mod_e251_9.rs
@@ -657,7 +657,7 @@ impl<'b> MulAssign<&'b Mod_e251_9> for Mod_e251_9 {
                    ((d7 & 0x0000000007ffffff) << 29);
         let h3_0 = ((d7 & 0x00ffffffffffffff) >> 27) |
                    ((d8 & 0x0000000007ffffff) << 29);
-        let h4_0 = (d8 & 0x00ffffffffffffff) >> 27;
+        let h4_0 = d8 >> 27;
 
         // Multiply by C
         let hc0_0 = h0_0 * C_VAL;
-- 
2.43.0


From 287922da027a1d21f32e1a1ce7d6fdd1688fac8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:52 +0000
Subject: [PATCH 06/12] fix: normalize reduces negative and multiply-carried
 values to canonical form

---
 src/field/mod_e221_3.rs   | 4 ++++
 src/field/mod_e222_117.rs | 4 ++++
 src/field/mod_e251_9.rs   | 4 ++++
 src/field/mod_e255_19.rs  | 4 ++++
 src/field/mod_e382_105.rs | 4 ++++
 src/field/mod_e383_187.rs | 4 ++++
 src/field/mod_e414_17.rs  | 4 ++++
 src/field/mod_e511_187.rs | 4 ++++
 src/field/mod_e521_1.rs   | 4 ++++
 9 files changed, 36 insertions(+)

diff --git a/src/field/mod_e221_3.rs b/src/field/mod_e221_3.rs
index e0601fa..5099890 100644
--- a/src/field/mod_e221_3.rs
+++ b/src/field/mod_e221_3.rs
@@ -846,6 +846,10 @@ impl Pack for Mod_e221_3 {
 
 impl Normalize for Mod_e221_3 {
     fn normalize(&mut self) {
+        // Fold the carry until the value is in the range 0..2^n.
+        self.small_add_assign(0);
+        self.small_add_assign(0);
+
         let plusc = &*self + (C_VAL as i32);
         let offset = &MODULUS * (plusc.carry_out() as i32);
         *self -= &offset;
diff --git a/src/field/mod_e222_117.rs b/src/field/mod_e222_117.rs
index 8ba3eed..6458932 100644
--- a/src/field/mod_e222_117.rs
+++ b/src/field/mod_e222_117.rs
@@ -843,6 +843,10 @@ impl Pack for Mod_e222_117 {
 
 impl Normalize for Mod_e222_117 {
     fn normalize(&mut self) {
+        // Fold the carry until the value is in the range 0..2^n.
+        self.small_add_assign(0);
+        self.small_add_assign(0);
+
         let plusc = &*self + (C_VAL as i32);
         let offset = &MODULUS * (plusc.carry_out() as i32);
         *self -= &offset;
diff --git a/src/field/mod_e251_9.rs b/src/field/mod_e251_9.rs
index 61c3c4d..56111ca 100644
--- a/src/field/mod_e251_9.rs
+++ b/src/field/mod_e251_9.rs
@@ -883,6 +883,10 @@ impl Pack for Mod_e251_9 {
 
 impl Normalize for Mod_e251_9 {
     fn normalize(&mut self) {
+        // Fold the carry until the value is in the range 0..2^n.
+        self.small_add_assign(0);
+        self.small_add_assign(0);
+
         let plusc = &*self + (C_VAL as i32);
         let offset = &MODULUS * (plusc.carry_out() as i32);
         *self -= &offset;
diff --git a/src/field/mod_e255_19.rs b/src/field/mod_e255_19.rs
index 31d4b0d..767c108 100644
--- a/src/field/mod_e255_19.rs
+++ b/src/field/mod_e255_19.rs
@@ -935,6 +935,10 @@ impl Pack for Mod_e255_19 {
 
 impl Normalize for Mod_e255_19 {
     fn normalize(&mut self) {
+        // Fold the carry until the value is in the range 0..2^n.
+        self.small_add_assign(0);
+        self.small_add_assign(0);
+
         let plusc = &*self + (C_VAL as i32);
         let offset = &MODULUS * (plusc.carry_out() as i32);
         *self -= &offset;
diff --git a/src/field/mod_e382_105.rs b/src/field/mod_e382_105.rs
index 6318b3f..27c6e55 100644
--- a/src/field/mod_e382_105.rs
+++ b/src/field/mod_e382_105.rs
@@ -1146,6 +1146,10 @@ impl Pack for Mod_e382_105 {
 
 impl Normalize for Mod_e382_105 {
     fn normalize(&mut self) {
+        // Fold the carry until the value is in the range 0..2^n.
+        self.small_add_assign(0);
+        self.small_add_assign(0);
+
         let plusc = &*self + (C_VAL as i32);
         let offset = &MODULUS * (plusc.carry_out() as i32);
         *self -= &offset;
diff --git a/src/field/mod_e383_187.rs b/src/field/mod_e383_187.rs
index d85daa6..7641885 100644
--- a/src/field/mod_e383_187.rs
+++ b/src/field/mod_e383_187.rs
@@ -1229,6 +1229,10 @@ impl Pack for Mod_e383_187 {
 
 impl Normalize for Mod_e383_187 {
     fn normalize(&mut self) {
+        // Fold the carry until the value is in the range 0..2^n.
+        self.small_add_assign(0);
+        self.small_add_assign(0);
+
         let plusc = &*self + (C_VAL as i32);
         let offset = &MODULUS * (plusc.carry_out() as i32);
         *self -= &offset;
diff --git a/src/field/mod_e414_17.rs b/src/field/mod_e414_17.rs
index 5b2f8f1..129659d 100644
--- a/src/field/mod_e414_17.rs
+++ b/src/field/mod_e414_17.rs
@@ -1211,6 +1211,10 @@ impl Pack for Mod_e414_17 {
 
 impl Normalize for Mod_e414_17 {
     fn normalize(&mut self) {
+        // Fold the carry until the value is in the range 0..2^n.
+        self.small_add_assign(0);
+        self.small_add_assign(0);
+
         let plusc = &*self + (C_VAL as i32);
         let offset = &MODULUS * (plusc.carry_out() as i32);
         *self -= &offset;
diff --git a/src/field/mod_e511_187.rs b/src/field/mod_e511_187.rs
index 9c78a2a..b03a5b8 100644
--- a/src/field/mod_e511_187.rs
+++ b/src/field/mod_e511_187.rs
@@ -1543,6 +1543,10 @@ impl Pack for Mod_e511_187 {
 
 impl Normalize for Mod_e511_187 {
     fn normalize(&mut self) {
+        // Fold the carry until the value is in the range 0..2^n.
+        self.small_add_assign(0);
+        self.small_add_assign(0);
+
         let plusc = &*self + (C_VAL as i32);
         let offset = &MODULUS * (plusc.carry_out() as i32);
         *self -= &offset;
diff --git a/src/field/mod_e521_1.rs b/src/field/mod_e521_1.rs
index a8aea91..eb3ecd5 100644
--- a/src/field/mod_e521_1.rs
+++ b/src/field/mod_e521_1.rs
@@ -1573,6 +1573,10 @@ impl Pack for Mod_e521_1 {
 
 impl Normalize for Mod_e521_1 {
     fn normalize(&mut self) {
+        // Fold the carry until the value is in the range 0..2^n.
+        self.small_add_assign(0);
+        self.small_add_assign(0);
+
         let plusone = &*self + (C_VAL as i32);
         let offset = &MODULUS * (plusone.carry_out() as i32);
         *self -= &offset;
-- 
2.43.0


From 108a2d8615bd885292cceaa5e8e3847f1fc3b2d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:56 +0000
Subject: [PATCH 07/12] fix: Rand can return every canonical field element

---
 src/field/mod_e221_3.rs   | 7 +++++--
 src/field/mod_e222_117.rs | 7 +++++--
 src/field/mod_e251_9.rs   | 7 +++++--
 src/field/mod_e255_19.rs  | 7 +++++--
 src/field/mod_e382_105.rs | 7 +++++--
 src/field/mod_e383_187.rs | 7 +++++--
 src/field/mod_e414_17.rs  | 7 +++++--
 src/field/mod_e511_187.rs | 7 +++++--
 src/field/mod_e521_1.rs   | 7 +++++--
 9 files changed, 45 insertions(+), 18 deletions(-)

diff --git a/src/field/mod_e221_3.rs b/src/field/mod_e221_3.rs
index 5099890..d3bd828 100644
--- a/src/field/mod_e221_3.rs
+++ b/src/field/mod_e221_3.rs
@@ -751,10 +751,13 @@ impl Rand for Mod_e221_3 {
     fn rand<R: Rng>(rng: &mut R) -> Self {
         let mut out = Mod_e221_3([0i64; 4]);
 
-        for i in 0..4 {
-            out.0[i] = rng.gen_range(0, MODULUS.0[i]);
+        for i in 0..3 {
+            out.0[i] = rng.gen_range(0, 1 << 58);
         }
 
+        out.0[3] = rng.gen_range(0, 1 << 47);
+        out.normalize();
+
         out
     }
 }
diff --git a/src/field/mod_e222_117.rs b/src/field/mod_e222_117.rs
index 6458932..ee7ffda 100644
--- a/src/field/mod_e222_117.rs
+++ b/src/field/mod_e222_117.rs
@@ -748,10 +748,13 @@ impl Rand for Mod_e222_117 {
     fn rand<R: Rng>(rng: &mut R) -> Self {
         let mut out = Mod_e222_117([0i64; 4]);
 
-        for i in 0..4 {
-            out.0[i] = rng.gen_range(0, MODULUS.0[i]);
+        for i in 0..3 {
+            out.0[i] = rng.gen_range(0, 1 << 58);
         }
 
+        out.0[3] = rng.gen_range(0, 1 << 48);
+        out.normalize();
+
         out
     }
 }
diff --git a/src/field/mod_e251_9.rs b/src/field/mod_e251_9.rs
index 56111ca..5cb31f5 100644
--- a/src/field/mod_e251_9.rs
+++ b/src/field/mod_e251_9.rs
@@ -786,10 +786,13 @@ impl Rand for Mod_e251_9 {
     fn rand<R: Rng>(rng: &mut R) -> Self {
         let mut out = Mod_e251_9([0i64; 5]);
 
-        for i in 0..5 {
-            out.0[i] = rng.gen_range(0, MODULUS.0[i]);
+        for i in 0..4 {
+            out.0[i] = rng.gen_range(0, 1 << 56);
         }
 
+        out.0[4] = rng.gen_range(0, 1 << 27);
+        out.normalize();
+
         out
     }
 }
diff --git a/src/field/mod_e255_19.rs b/src/field/mod_e255_19.rs
index 767c108..3b8364a 100644
--- a/src/field/mod_e255_19.rs
+++ b/src/field/mod_e255_19.rs
@@ -838,10 +838,13 @@ impl Rand for Mod_e255_19 {
     fn rand<R: Rng>(rng: &mut R) -> Self {
         let mut out = Mod_e255_19([0i64; 5]);
 
-        for i in 0..5 {
-            out.0[i] = rng.gen_range(0, MODULUS.0[i]);
+        for i in 0..4 {
+            out.0[i] = rng.gen_range(0, 1 << 56);
         }
 
+        out.0[4] = rng.gen_range(0, 1 << 31);
+        out.normalize();
+
         out
     }
 }
diff --git a/src/field/mod_e382_105.rs b/src/field/mod_e382_105.rs
index 27c6e55..fa7972d 100644
--- a/src/field/mod_e382_105.rs
+++ b/src/field/mod_e382_105.rs
@@ -1017,10 +1017,13 @@ impl Rand for Mod_e382_105 {
     fn rand<R: Rng>(rng: &mut R) -> Self {
         let mut out = Mod_e382_105([0i64; 7]);
 
-        for i in 0..7 {
-            out.0[i] = rng.gen_range(0, MODULUS.0[i]);
+        for i in 0..6 {
+            out.0[i] = rng.gen_range(0, 1 << 56);
         }
 
+        out.0[6] = rng.gen_range(0, 1 << 46);
+        out.normalize();
+
         out
     }
 }
diff --git a/src/field/mod_e383_187.rs b/src/field/mod_e383_187.rs
index 7641885..13d1535 100644
--- a/src/field/mod_e383_187.rs
+++ b/src/field/mod_e383_187.rs
@@ -1100,10 +1100,13 @@ impl Rand for Mod_e383_187 {
     fn rand<R: Rng>(rng: &mut R) -> Self {
         let mut out = Mod_e383_187([0i64; 7]);
 
-        for i in 0..7 {
-            out.0[i] = rng.gen_range(0, MODULUS.0[i]);
+        for i in 0..6 {
+            out.0[i] = rng.gen_range(0, 1 << 56);
         }
 
+        out.0[6] = rng.gen_range(0, 1 << 47);
+        out.normalize();
+
         out
     }
 }
diff --git a/src/field/mod_e414_17.rs b/src/field/mod_e414_17.rs
index 129659d..45a275e 100644
--- a/src/field/mod_e414_17.rs
+++ b/src/field/mod_e414_17.rs
@@ -1074,10 +1074,13 @@ impl Rand for Mod_e414_17 {
     fn rand<R: Rng>(rng: &mut R) -> Self {
         let mut out = Mod_e414_17([0i64; 8]);
 
-        for i in 0..8 {
-            out.0[i] = rng.gen_range(0, MODULUS.0[i]);
+        for i in 0..7 {
+            out.0[i] = rng.gen_range(0, 1 << 56);
         }
 
+        out.0[7] = rng.gen_range(0, 1 << 22);
+        out.normalize();
+
         out
     }
 }
diff --git a/src/field/mod_e511_187.rs b/src/field/mod_e511_187.rs
index b03a5b8..042b852 100644
--- a/src/field/mod_e511_187.rs
+++ b/src/field/mod_e511_187.rs
@@ -1368,10 +1368,13 @@ impl Rand for Mod_e511_187 {
     fn rand<R: Rng>(rng: &mut R) -> Self {
         let mut out = Mod_e511_187([0i64; 10]);
 
-        for i in 0..10 {
-            out.0[i] = rng.gen_range(0, MODULUS.0[i]);
+        for i in 0..9 {
+            out.0[i] = rng.gen_range(0, 1 << 54);
         }
 
+        out.0[9] = rng.gen_range(0, 1 << 25);
+        out.normalize();
+
         out
     }
 }
diff --git a/src/field/mod_e521_1.rs b/src/field/mod_e521_1.rs
index eb3ecd5..0ed541b 100644
--- a/src/field/mod_e521_1.rs
+++ b/src/field/mod_e521_1.rs
@@ -1394,10 +1394,13 @@ impl Rand for Mod_e521_1 {
     fn rand<R: Rng>(rng: &mut R) -> Self {
         let mut out = Mod_e521_1([0i64; 10]);
 
-        for i in 0..10 {
-            out.0[i] = rng.gen_range(0, MODULUS.0[i]);
+        for i in 0..9 {
+            out.0[i] = rng.gen_range(0, 1 << 54);
         }
 
+        out.0[9] = rng.gen_range(0, 1 << 35);
+        out.normalize();
+
         out
     }
 }
-- 
2.43.0


From ac8407c84b1e3e65f8d61c5fc3917af6cc42abfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:58 +0000
Subject: [PATCH 08/12] fix: the identity point has T = 0

---
 src/curve/edwards.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/curve/edwards.rs b/src/curve/edwards.rs
index 7168500..0faa6cd 100644
--- a/src/curve/edwards.rs
+++ b/src/curve/edwards.rs
@@ -92,7 +92,7 @@ impl<C: EdwardsCurve> Point for EdwardsExtended<C> {
             x: C::Scalar::zero(),
             y: C::Scalar::one(),
             z: C::Scalar::one(),
-            t: C::Scalar::one()
+            t: C::Scalar::zero()
         }
     }
 
-- 
2.43.0


From e0657ab101a2dc229b8b7444cd69aa888c03ff0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:59 +0000
Subject: [PATCH 09/12] fix: Point::init sets T to x * y

---
 src/curve/edwards.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/curve/edwards.rs b/src/curve/edwards.rs
index 0faa6cd..58d681c 100644
--- a/src/curve/edwards.rs
+++ b/src/curve/edwards.rs
@@ -100,7 +100,7 @@ impl<C: EdwardsCurve> Point for EdwardsExtended<C> {
         self.x = x;
         self.y = y;
         self.z = C::Scalar::one();
-        self.t = C::Scalar::one();
+        self.t = x * y;
     }
 
     fn scalar_mult(&mut self, rhs: &mut Self::Scalar) {
-- 
2.43.0


From 51979bb3f42bb7a92cb0255d09c6701f26ad8fa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:01 +0000
Subject: [PATCH 10/12] fix: sign of xB in the Edwards tripling formula

---
 src/curve/edwards.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/curve/edwards.rs b/src/curve/edwards.rs
index 58d681c..d93fcb0 100644
--- a/src/curve/edwards.rs
+++ b/src/curve/edwards.rs
@@ -193,7 +193,7 @@ impl<C: EdwardsCurve> Point for EdwardsExtended<C> {
         let yb = yy * b;
         let aa = ap * (yy - xx);
         let f = aa - yb;
-        let g = aa - xb;
+        let g = aa + xb;
         let xe = self.x * (yb + aa);
         let yh = self.y * (xb - aa);
         let zf = self.z * f;
-- 
2.43.0


From 128ad8c823ee300e7b7feaad7f602cb1fea1a58f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:03 +0000
Subject: [PATCH 11/12] fix: the scalar multiplication ladder selected the
 wrong branch for each bit

---
 src/curve/edwards.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/curve/edwards.rs b/src/curve/edwards.rs
index d93fcb0..7314fff 100644
--- a/src/curve/edwards.rs
+++ b/src/curve/edwards.rs
@@ -121,8 +121,8 @@ impl<C: EdwardsCurve> Point for EdwardsExtended<C> {
             let bit = rhs.bit_normalized(idx);
             // Note that we fill everything with 0s or 1s.  This
             // allows us to skip normalization.
-            let tmask = C::Scalar::filled(bit);
-            let fmask = C::Scalar::filled(!bit);
+            let tmask = C::Scalar::filled(!bit);
+            let fmask = C::Scalar::filled(bit);
             let mut d0 = r0;
             let mut d1 = r1;
 
-- 
2.43.0


From fc7fe114dc6c10a623af269be5978e1687755883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:51 +0000
Subject: [PATCH 12/12] fix: document E222_ORDER and M511_BASE_Y as what they
 are

---
 src/field/mod_e222_117.rs | 4 ++--
 src/field/mod_e511_187.rs | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/field/mod_e222_117.rs b/src/field/mod_e222_117.rs
index ee7ffda..da3354c 100644
--- a/src/field/mod_e222_117.rs
+++ b/src/field/mod_e222_117.rs
@@ -69,8 +69,8 @@ pub const E222_BASE_X: Mod_e222_117 =
 /// The y-coordinate of the base point of the curve E-222, 0x1c.
 pub const E222_BASE_Y: Mod_e222_117 = Mod_e222_117([ 0x1c, 0, 0, 0 ]);
 
-/// The prime subgroup order of the curve M-221,
-/// 2^218 + 438651314700378199859927091142747
+/// The prime subgroup order of the curve E-222,
+/// 2^220 - 181532584069648727485883454223169
 pub const E222_ORDER: Mod_e222_117 =
     Mod_e222_117([ 0x0002f31423598cbf, 0x03fdc32f257a4cbe,
                    0x03ffffffffffffff, 0x00003fffffffffff ]);
diff --git a/src/field/mod_e511_187.rs b/src/field/mod_e511_187.rs
index 042b852..25f9526 100644
--- a/src/field/mod_e511_187.rs
+++ b/src/field/mod_e511_187.rs
@@ -81,7 +81,7 @@ const COEFF: Mod_e511_187 =
 pub const M511_BASE_X: Mod_e511_187 =
     Mod_e511_187([ 0x5, 0, 0, 0, 0, 0, 0, 0, 0, 0 ]);
 
-/// The x-coordinate of the base point of the curve M-511,
+/// The y-coordinate of the base point of the curve M-511,
 /// 0x2fbdc0ad8530803d28fdbad354bb488d32399ac1cf8f6e01ee3f96389b90c809422b9429e8a43dbf49308ac4455940abe9f1dbca542093a895e30a64af056fa5.
 pub const M511_BASE_Y: Mod_e511_187 =
     Mod_e511_187([ 0x00230a64af056fa5, 0x002f2950824ea257,
-- 
2.43.0

