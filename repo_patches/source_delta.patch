From 330b5048632eaa775027b22acd88acd484de930d Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 23:20:47 +0000
Subject: [PATCH 1/5] fix: Scalar::is_high no longer reports (n-1)/2 as high

---
 core/src/scalar.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/src/scalar.rs b/core/src/scalar.rs
index 91615d2..79c86ac 100644
--- a/core/src/scalar.rs
+++ b/core/src/scalar.rs
@@ -282,7 +282,7 @@ impl Scalar {
         yes |= Choice::from((self.0[2] > SECP256K1_N_H_2) as u8) & !no;
         no |= Choice::from((self.0[1] < SECP256K1_N_H_1) as u8) & !yes;
         yes |= Choice::from((self.0[1] > SECP256K1_N_H_1) as u8) & !no;
-        yes |= Choice::from((self.0[0] >= SECP256K1_N_H_0) as u8) & !no;
+        yes |= Choice::from((self.0[0] > SECP256K1_N_H_0) as u8) & !no;
         yes.into()
     }
 
-- 
2.43.0


From e564470d33167b6dce1f4898f1136ab7d7129135 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 23:20:47 +0000
Subject: [PATCH 2/5] fix: LowerHex for Scalar prints the most significant word
 first

---
 core/src/scalar.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/src/scalar.rs b/core/src/scalar.rs
index 79c86ac..c35238a 100644
--- a/core/src/scalar.rs
+++ b/core/src/scalar.rs
@@ -1022,7 +1022,7 @@ impl<'a> Neg for &'a Scalar {
 
 impl core::fmt::LowerHex for Scalar {
     fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
-        for word in &self.0[..] {
+        for word in self.0.iter().rev() {
             for byte in word.to_be_bytes().iter() {
                 write!(f, "{:02x}", byte)?;
             }
-- 
2.43.0


From 5e47aef4d22f8ffdde82d8299b3f8457c8ebb605 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 23:20:47 +0000
Subject: [PATCH 3/5] fix: DER decoder accepts an empty slice or skip at the
 end of the input, so a trailing zero integer parses

---
 core/src/der.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/src/der.rs b/core/src/der.rs
index 7166a30..feb1971 100644
--- a/core/src/der.rs
+++ b/core/src/der.rs
@@ -64,7 +64,7 @@ impl<'a> Decoder<'a> {
     }
 
     pub fn peek_slice(&self, len: usize) -> Result<&[u8], Error> {
-        if (len == 0 && self.1 >= self.0.len()) || self.1 + len > self.0.len() {
+        if len > self.remaining_len() {
             Err(Error::InvalidSignature)
         } else {
             let v = &self.0[self.1..(self.1 + len)];
@@ -73,7 +73,7 @@ impl<'a> Decoder<'a> {
     }
 
     pub fn skip(&mut self, len: usize) -> Result<(), Error> {
-        if (len == 0 && self.1 >= self.0.len()) || self.1 + len > self.0.len() {
+        if len > self.remaining_len() {
             Err(Error::InvalidSignature)
         } else {
             self.1 += len;
-- 
2.43.0


From 798b5096505d1692991a94fe099dfbfd4be8b558 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 23:21:48 +0000
Subject: [PATCH 4/5] fix: DER decoder skips the contents of an oversized
 integer instead of parsing them as the next element

---
 core/src/der.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/core/src/der.rs b/core/src/der.rs
index feb1971..d9052b8 100644
--- a/core/src/der.rs
+++ b/core/src/der.rs
@@ -155,11 +155,13 @@ impl<'a> Decoder<'a> {
             return Err(Error::InvalidSignature);
         }
 
-        let mut overflow = false;
+        // Negative integers are never valid
         if self.peek(0)? & 0x80 == 0x80 {
-            overflow |= true;
+            return Err(Error::InvalidSignature);
         }
 
+        let mut overflow = false;
+
         // Skip leading zero bytes
         while rlen > 0 && self.peek(0)? == 0 {
             rlen -= 1;
@@ -175,10 +177,10 @@ impl<'a> Decoder<'a> {
         if !overflow {
             let mut b32 = [0u8; 32];
             b32[32 - rlen..].copy_from_slice(self.peek_slice(rlen)?);
-            self.skip(rlen)?;
 
             overflow |= bool::from(int.set_b32(&b32));
         }
+        self.skip(rlen)?;
 
         if overflow {
             int = Scalar::default();
@@ -254,10 +256,10 @@ impl<'a> Decoder<'a> {
         if !overflow {
             let mut b32 = [0u8; 32];
             b32[32 - len..].copy_from_slice(&self.peek_slice(len)?);
-            self.skip(len)?;
 
             overflow |= bool::from(int.set_b32(&b32));
         }
+        self.skip(len)?;
 
         if overflow {
             int = Scalar::default();
-- 
2.43.0


From b56475ef1196d49293986138760e1d90926922d3 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 23:21:48 +0000
Subject: [PATCH 5/5] fix: strict DER accepts a long-form length that exactly
 fills the input

---
 core/src/der.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/src/der.rs b/core/src/der.rs
index d9052b8..b2d67af 100644
--- a/core/src/der.rs
+++ b/core/src/der.rs
@@ -123,10 +123,10 @@ impl<'a> Decoder<'a> {
         let mut ret = 0;
         while lenleft > 0 {
             ret = (ret << 8) | (self.read()? as usize);
+            lenleft -= 1;
             if ret + lenleft > self.remaining_len() {
                 return Err(Error::InvalidSignature);
             }
-            lenleft -= 1;
         }
 
         if ret < 128 {
-- 
2.43.0

