From 83ad0448e77ac93a09c9e6026b9b6a1ed9b7408a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:39 +0000
Subject: [PATCH 1/2] fix: keep the XOR key stream in step after short reads
 and writes

---
 src/xor.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/xor.rs b/src/xor.rs
index aff09f5..7580d00 100644
--- a/src/xor.rs
+++ b/src/xor.rs
@@ -39,7 +39,8 @@ impl<R: Read> Read for XorStream<R> {
     fn read(&mut self, buf: &mut [u8]) -> Result<usize> {
         let bytes_read = self.stream.read(buf)?;
 
-        for byte in buf {
+        // Only advance the key stream by the number of bytes that were actually read.
+        for byte in buf.iter_mut().take(bytes_read) {
             let key_byte = self.key.next().unwrap_or(0);
             *byte ^= key_byte;
         }
@@ -50,15 +51,23 @@ impl<R: Read> Read for XorStream<R> {
 
 impl<W: Write> Write for XorStream<W> {
     fn write(&mut self, buf: &[u8]) -> Result<usize> {
+        let mut key = self.key.clone();
         let encrypted_buffer: Vec<u8> = buf
             .iter()
             .map(|x| {
-                let key_byte = self.key.next().unwrap_or(0);
+                let key_byte = key.next().unwrap_or(0);
                 x ^ key_byte
             })
             .collect();
 
-        self.stream.write(&encrypted_buffer)
+        let bytes_written = self.stream.write(&encrypted_buffer)?;
+
+        // Only advance the key stream by the number of bytes that were actually written.
+        for _ in 0..bytes_written {
+            self.key.next();
+        }
+
+        Ok(bytes_written)
     }
 
     fn flush(&mut self) -> Result<()> {
-- 
2.43.0


From 72ba9b4195518dd8642e3e7eb5492aec5dcdd2a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:47 +0000
Subject: [PATCH 2/2] Add cfg(kani) access module for the verification
 harnesses

---
 src/lib.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index d050d34..ea5683a 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -8,6 +8,7 @@
 
 //! This library provides access to device libraries exported from Pioneer's Rekordbox DJ software.
 
+#![allow(unexpected_cfgs)]
 #![warn(unsafe_code)]
 #![warn(missing_docs)]
 #![cfg_attr(not(debug_assertions), deny(warnings))]
@@ -34,3 +35,11 @@ pub(crate) mod xor;
 pub use crate::device::DeviceExportLoader;
 pub use crate::util::RekordcrateError as Error;
 pub use crate::util::RekordcrateResult as Result;
+
+/// Access to crate-private items for the verification harnesses (only built by Kani).
+#[cfg(kani)]
+#[doc(hidden)]
+#[allow(missing_docs)]
+pub mod verif {
+    pub use crate::xor::XorStream;
+}
-- 
2.43.0

