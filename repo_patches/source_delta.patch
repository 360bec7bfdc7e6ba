From 0f28388058e21e6f26591b5d83f1e6be7dc0d08c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:34 +0000
Subject: [PATCH 1/5] fix: reject PKCS7 padding of length zero

A final block ending in 0x00 was returned whole, as if it were unpadded.
PKCS7 padding is always 1 to block-size bytes long.
---
 src/pkcs7.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pkcs7.rs b/src/pkcs7.rs
index eb50bb2..090af7a 100644
--- a/src/pkcs7.rs
+++ b/src/pkcs7.rs
@@ -125,7 +125,7 @@ impl Unpad {
         }
 
         let len = self.storage[self.storage.len() - 1];
-        if len > (self.block_size as u8) {
+        if len == 0 || len > (self.block_size as u8) {
             return Err(UnpadError::InvalidPadding);
         }
         let pad_off: usize = self.block_size - usize::from(len);
-- 
2.43.0


From 551f3b64df3d290bfe7e68080a4ee1e6d581644c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:34 +0000
Subject: [PATCH 2/5] fix: report trailing partial ciphertext block in
 Decipher::flush

Ciphertext bytes after the last complete block were silently ignored (and
prepended to the next message) instead of failing with UnfinishedBlock.
---
 src/aes_cbc.rs | 5 +++++
 src/pkcs7.rs   | 4 ++++
 2 files changed, 9 insertions(+)

diff --git a/src/aes_cbc.rs b/src/aes_cbc.rs
index 7cde4d3..3d8dc9e 100644
--- a/src/aes_cbc.rs
+++ b/src/aes_cbc.rs
@@ -215,6 +215,11 @@ impl Decipher {
 
     /// Decrypt and return final cleartext data
     pub fn flush(&mut self) -> Result<Vec<u8>, DecipherError> {
+        // Ciphertext must not end in the middle of a block
+        if !self.buffer.is_empty() {
+            return Err(DecipherError::PKCS7(pkcs7::UnpadError::UnfinishedBlock));
+        }
+
         match self.unpad.flush() {
             Err(err) => Err(DecipherError::PKCS7(err)),
             Ok(block) => Ok(block),
diff --git a/src/pkcs7.rs b/src/pkcs7.rs
index 090af7a..d6f5144 100644
--- a/src/pkcs7.rs
+++ b/src/pkcs7.rs
@@ -40,6 +40,10 @@ impl Pad {
         Some(head)
     }
 
+    pub fn is_empty(&self) -> bool {
+        self.storage.is_empty()
+    }
+
     pub fn flush(&mut self) -> Vec<u8> {
         let len = self.block_size - self.storage.len();
         while self.storage.len() < self.block_size {
-- 
2.43.0


From 41b83c2a44f346e3c79d37fba35afcf06290b63c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:34 +0000
Subject: [PATCH 3/5] fix: reject scrypt N = 1

N must be larger than 1, as the documentation and the error text say.
---
 src/scrypt.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/scrypt.rs b/src/scrypt.rs
index 3629c7e..a27a27e 100644
--- a/src/scrypt.rs
+++ b/src/scrypt.rs
@@ -231,7 +231,7 @@ impl Scrypt {
             return Err(ScryptError::RIsTooSmall);
         }
 
-        if self.n < 1 {
+        if self.n < 2 {
             return Err(ScryptError::NIsTooSmall);
         }
 
-- 
2.43.0


From 3c0e5f17e5d8c9408efd86b9792b165c2c0f34d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:34 +0000
Subject: [PATCH 4/5] fix: enforce the documented upper limits of scrypt
 parameters

Unchecked, p * 128 * r overflows: a panic with overflow checks on, and
without them a buffer of the wrong size, i.e. a wrong key (p = 2^57 + 1,
r = 1 derived the key of p = 1).
---
 src/scrypt.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/scrypt.rs b/src/scrypt.rs
index a27a27e..c5f969e 100644
--- a/src/scrypt.rs
+++ b/src/scrypt.rs
@@ -25,6 +25,8 @@ pub enum ScryptError {
     NIsTooSmall,
     NIsNotAPowerOfTwo,
     PIsTooSmall,
+    NIsTooLarge,
+    PIsTooLarge,
 }
 
 impl Display for ScryptError {
@@ -40,6 +42,8 @@ impl Error for ScryptError {
             ScryptError::NIsTooSmall => "`n` must be larger than 1",
             ScryptError::NIsNotAPowerOfTwo => "`n` must be a power of two",
             ScryptError::PIsTooSmall => "`p` must be larger than 1",
+            ScryptError::NIsTooLarge => "`n` must be less than 2 ^ (16 * r)",
+            ScryptError::PIsTooLarge => "`p` must be at most (2 ^ 32 - 1) / (4 * r)",
         }
     }
 }
@@ -243,6 +247,15 @@ impl Scrypt {
             return Err(ScryptError::PIsTooSmall);
         }
 
+        // NOTE: any 64-bit `n` is less than 2 ^ (16 * r) when `r` is 4 or more
+        if self.r < 4 && (self.n as u64) >> (16 * self.r) != 0 {
+            return Err(ScryptError::NIsTooLarge);
+        }
+
+        if self.p > (0xffff_ffff / 4) / self.r {
+            return Err(ScryptError::PIsTooLarge);
+        }
+
         //
         //   Algorithm scrypt
         //
-- 
2.43.0


From f70699f5880a64b2d32702b2e1772e7b4904be3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:46 +0000
Subject: [PATCH 5/5] fix: process every block of a multi-block salsa20 input

Input and output may be any multiple of BLOCK_SIZE long, but only the first
block was mixed and the rest of the output was left unwritten.
---
 src/salsa20.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/salsa20.rs b/src/salsa20.rs
index 1ccde8b..e89546a 100644
--- a/src/salsa20.rs
+++ b/src/salsa20.rs
@@ -162,6 +162,13 @@ fn littleendian_inv(x: u32, y: &mut [u8]) {
 /// ```
 ///
 pub fn salsa20(input: &[u8], rounds: usize, output: &mut [u8]) {
+    let blocks = input.chunks(BLOCK_SIZE);
+    for (input, output) in blocks.zip(output.chunks_mut(BLOCK_SIZE)) {
+        salsa20_block(input, rounds, output);
+    }
+}
+
+fn salsa20_block(input: &[u8], rounds: usize, output: &mut [u8]) {
     //
     // In short: Salsa20(x) = x + doubleround^10(x), where each 4-byte sequence is
     // viewed as a word in little-endian form.
-- 
2.43.0

