From 60698cd401cb0d6c689a5ff7e9d6dd0c9e7c2f2e Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 17:02:26 +0000
Subject: [PATCH 1/4] fix: reject MATMUL_* parameter values that overflow usize

With the constconf feature, constparse::parse wrapped around silently, so that
for example MATMUL_SGEMM_MC=18446744073709551680 was accepted as 64. Overflow
is now a parse error and fails the build like any other malformed value.
---
 src/constparse.rs | 47 +++++++++++------------------------------------
 1 file changed, 11 insertions(+), 36 deletions(-)

diff --git a/src/constparse.rs b/src/constparse.rs
index f6de70a..2f53b1e 100644
--- a/src/constparse.rs
+++ b/src/constparse.rs
@@ -12,39 +12,19 @@
 #[derive(Clone, Copy)]
 pub(crate) enum ParseIntError {
     InvalidDigit,
+    PosOverflow,
 }
 
-const fn parse_byte(b: u8, pow10: usize) -> Result<usize, ParseIntError> {
+const fn parse_byte(b: u8) -> Result<usize, ParseIntError> {
     let r = b.wrapping_sub(48);
 
     if r > 9 {
         Err(ParseIntError::InvalidDigit)
     } else {
-        Ok((r as usize) * pow10)
+        Ok(r as usize)
     }
 }
 
-pub(crate) const POW10: [usize; 20] = {
-    let mut array = [0; 20];
-    let mut pow10 = 1usize;
-
-    let mut index = 20;
-
-    loop {
-        index -= 1;
-        array[index] = pow10;
-
-        if index == 0 { break }
-
-        let (new_power, overflow) = pow10.overflowing_mul(10);
-        pow10 = new_power;
-        if overflow { break; }
-    }
-
-    array
-
-};
-
 /// Parse the input to integer; or otherwise cause
 /// a const error, an "unwarp" in space and time.
 pub(crate) const fn parse_unwarp(b: &str) -> usize {
@@ -61,27 +41,22 @@ pub(crate) const fn parse(b: &str) -> Result<usize, ParseIntError> {
     let bytes = b.as_bytes();
 
     let mut result: usize = 0;
-
-    let len = bytes.len();
-
-    // Start at the correct index of the table,
-    // (skip the power's that are too large)
-    let mut index_const_table = POW10.len().wrapping_sub(len);
     let mut index = 0;
 
-    while index < b.len() {
-        let a = bytes[index];
-        let p = POW10[index_const_table];
-
-        let r = match parse_byte(a, p) {
+    while index < bytes.len() {
+        let r = match parse_byte(bytes[index]) {
             Err(e) => return Err(e),
             Ok(d) => d,
         };
 
-        result = result.wrapping_add(r);
+        let (scaled, mul_overflow) = result.overflowing_mul(10);
+        let (sum, add_overflow) = scaled.overflowing_add(r);
+        if mul_overflow || add_overflow {
+            return Err(ParseIntError::PosOverflow);
+        }
 
+        result = sum;
         index += 1;
-        index_const_table += 1;
     }
 
     Ok(result)
-- 
2.43.0


From ad91bc155fe568c9099166f872e81338f73df631 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 17:03:35 +0000
Subject: [PATCH 2/4] fix: dgemm NEON kernel uses its own blocking parameters

The aarch64 dgemm kernel was wired to the sgemm parameters, so that
MATMUL_DGEMM_{MC,KC,NC} had no effect there and MATMUL_SGEMM_* changed dgemm.
---
 src/dgemm_kernel.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/dgemm_kernel.rs b/src/dgemm_kernel.rs
index a5c3eb9..c38a7c9 100644
--- a/src/dgemm_kernel.rs
+++ b/src/dgemm_kernel.rs
@@ -247,11 +247,11 @@ impl GemmKernel for KernelNeon {
     fn always_masked() -> bool { false }
 
     #[inline(always)]
-    fn nc() -> usize { archparam::S_NC }
+    fn nc() -> usize { archparam::D_NC }
     #[inline(always)]
-    fn kc() -> usize { archparam::S_KC }
+    fn kc() -> usize { archparam::D_KC }
     #[inline(always)]
-    fn mc() -> usize { archparam::S_MC }
+    fn mc() -> usize { archparam::D_MC }
 
     #[inline(always)]
     unsafe fn kernel(
-- 
2.43.0


From ce8ce70128221eb4e248de70bf593852603c7af8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:32 +0000
Subject: [PATCH 3/4] fix: packing complex matrices ignores the stride of a
 length-one dimension

---
 src/cgemm_common.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/cgemm_common.rs b/src/cgemm_common.rs
index 59d37d5..bd3fb5a 100644
--- a/src/cgemm_common.rs
+++ b/src/cgemm_common.rs
@@ -150,6 +150,10 @@ pub(crate) unsafe fn pack_complex<MR, T, TReal>(kc: usize, mc: usize, pack: &mut
 
     assert_eq!(mem::size_of::<T>(), 2 * mem::size_of::<TReal>());
 
+    // a stride that only ever meets index 0 may hold any value, but 2 * stride must not overflow
+    let rsa = if mc <= 1 { 0 } else { rsa };
+    let csa = if kc <= 1 { 0 } else { csa };
+
     let mr = MR::VALUE;
     let mut p = 0; // offset into pack
 
-- 
2.43.0


From 1c6b97ab199d07609266eff382426949d6c40885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:32 +0000
Subject: [PATCH 4/4] fix: thread heuristic does not overflow for large
 matrices

---
 src/threading.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/threading.rs b/src/threading.rs
index 128c89c..28b30e9 100644
--- a/src/threading.rs
+++ b/src/threading.rs
@@ -123,7 +123,8 @@ impl LoopThreadConfig {
     #[cfg(feature="threading")]
     fn new_impl(m: usize, k: usize, n: usize, max_threads: usize, kmc: usize) -> Self {
         // use a heuristic to try not to use too many threads for smaller matrices
-        let size_factor = m * k + k * n;
+        // (saturating: on 32-bit targets the product of the dimensions can exceed usize)
+        let size_factor = m.saturating_mul(k).saturating_add(k.saturating_mul(n));
         let thread_factor = 1 << 14;
         // pure guesswork in terms of what the default should be
         let arch_factor = if cfg!(target_arch="arm") {
-- 
2.43.0

