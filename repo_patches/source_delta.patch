From 0b491d217c6627a81a19c9bbe0b60f5e57bb7d46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:09 +0000
Subject: [PATCH 1/3] Add simulation hooks guarded by cfg(blake2_sim)

---
 blake2b/src/blake2bp.rs | 11 +++++++++++
 blake2b/src/guts.rs     | 12 ++++++++++++
 blake2b/src/lib.rs      | 16 ++++++++++++++++
 blake2b/src/many.rs     | 10 ++++++++++
 blake2b/src/sim.rs      | 24 ++++++++++++++++++++++++
 blake2s/src/blake2sp.rs | 11 +++++++++++
 blake2s/src/guts.rs     | 12 ++++++++++++
 blake2s/src/lib.rs      | 16 ++++++++++++++++
 blake2s/src/many.rs     | 10 ++++++++++
 blake2s/src/sim.rs      | 24 ++++++++++++++++++++++++
 10 files changed, 146 insertions(+)
 create mode 100644 blake2b/src/sim.rs
 create mode 100644 blake2s/src/sim.rs

diff --git a/blake2b/src/blake2bp.rs b/blake2b/src/blake2bp.rs
index 3f5808a..bfbc417 100644
--- a/blake2b/src/blake2bp.rs
+++ b/blake2b/src/blake2bp.rs
@@ -411,6 +411,17 @@ impl State {
     }
 }
 
+#[cfg(blake2_sim)]
+impl State {
+    /// Simulation hook: pretend that `bytes` more input bytes, a multiple of
+    /// `DEGREE * BLOCKBYTES`, have been compressed without changing the state
+    /// words.
+    #[doc(hidden)]
+    pub fn sim_advance_count(&mut self, bytes: Count) {
+        self.count = self.count.wrapping_add(bytes / DEGREE as Count);
+    }
+}
+
 #[cfg(feature = "std")]
 impl std::io::Write for State {
     fn write(&mut self, buf: &[u8]) -> std::io::Result<usize> {
diff --git a/blake2b/src/guts.rs b/blake2b/src/guts.rs
index 5ee2904..69c415f 100644
--- a/blake2b/src/guts.rs
+++ b/blake2b/src/guts.rs
@@ -50,6 +50,12 @@ impl Implementation {
     #[cfg(any(target_arch = "x86", target_arch = "x86_64"))]
     #[allow(unreachable_code)]
     pub fn sse41_if_supported() -> Option<Self> {
+        #[cfg(blake2_sim)]
+        {
+            if sim::cpu_level() < sim::CPU_SSE41 {
+                return None;
+            }
+        }
         // Check whether SSE4.1 support is assumed by the build.
         #[cfg(target_feature = "sse4.1")]
         {
@@ -68,6 +74,12 @@ impl Implementation {
     #[cfg(any(target_arch = "x86", target_arch = "x86_64"))]
     #[allow(unreachable_code)]
     pub fn avx2_if_supported() -> Option<Self> {
+        #[cfg(blake2_sim)]
+        {
+            if sim::cpu_level() < sim::CPU_ALL {
+                return None;
+            }
+        }
         // Check whether AVX2 support is assumed by the build.
         #[cfg(target_feature = "avx2")]
         {
diff --git a/blake2b/src/lib.rs b/blake2b/src/lib.rs
index 6c4f92f..8669746 100644
--- a/blake2b/src/lib.rs
+++ b/blake2b/src/lib.rs
@@ -42,6 +42,8 @@
 //! ```
 
 #![cfg_attr(not(feature = "std"), no_std)]
+// The blake2_sim cfg only guards simulation hooks. See sim.rs.
+#![allow(unexpected_cfgs)]
 
 use arrayref::{array_refs, mut_array_refs};
 use core::cmp;
@@ -58,6 +60,10 @@ pub mod blake2bp;
 mod guts;
 pub mod many;
 
+#[cfg(blake2_sim)]
+#[doc(hidden)]
+pub mod sim;
+
 #[cfg(test)]
 mod test;
 
@@ -525,6 +531,16 @@ impl State {
     }
 }
 
+#[cfg(blake2_sim)]
+impl State {
+    /// Simulation hook: pretend that `bytes` more input bytes, a multiple of
+    /// `BLOCKBYTES`, have been compressed without changing the state words.
+    #[doc(hidden)]
+    pub fn sim_advance_count(&mut self, bytes: Count) {
+        self.count = self.count.wrapping_add(bytes);
+    }
+}
+
 #[inline(always)]
 fn state_words_to_bytes(state_words: &[Word; 8]) -> [u8; OUTBYTES] {
     let mut bytes = [0; OUTBYTES];
diff --git a/blake2b/src/many.rs b/blake2b/src/many.rs
index f880c01..d1141ca 100644
--- a/blake2b/src/many.rs
+++ b/blake2b/src/many.rs
@@ -332,6 +332,16 @@ impl<'a> HashManyJob<'a> {
     }
 }
 
+#[cfg(blake2_sim)]
+impl<'a> HashManyJob<'a> {
+    /// Simulation hook: pretend that `bytes` more input bytes, a multiple of
+    /// `BLOCKBYTES`, have been compressed without changing the state words.
+    #[doc(hidden)]
+    pub fn sim_advance_count(&mut self, bytes: Count) {
+        self.count = self.count.wrapping_add(bytes);
+    }
+}
+
 impl<'a> fmt::Debug for HashManyJob<'a> {
     fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
         // NB: Don't print the words. Leaking them would allow length extension.
diff --git a/blake2b/src/sim.rs b/blake2b/src/sim.rs
new file mode 100644
index 0000000..905745b
--- /dev/null
+++ b/blake2b/src/sim.rs
@@ -0,0 +1,24 @@
+//! Hooks for deterministic simulation. This module and its callers exist only
+//! in builds with `RUSTFLAGS="--cfg blake2_sim"`; shipped builds contain none
+//! of it.
+
+use core::sync::atomic::{AtomicU8, Ordering};
+
+/// `set_cpu_level`: pretend that the CPU has no SIMD extensions.
+pub const CPU_NONE: u8 = 0;
+/// `set_cpu_level`: pretend that the CPU supports SSE4.1 at most.
+pub const CPU_SSE41: u8 = 1;
+/// `set_cpu_level`: use everything the CPU supports.
+pub const CPU_ALL: u8 = 2;
+
+static CPU_LEVEL: AtomicU8 = AtomicU8::new(CPU_ALL);
+
+/// Limit the CPU features that later detections report.
+pub fn set_cpu_level(level: u8) {
+    CPU_LEVEL.store(level, Ordering::Relaxed);
+}
+
+#[allow(dead_code)]
+pub(crate) fn cpu_level() -> u8 {
+    CPU_LEVEL.load(Ordering::Relaxed)
+}
diff --git a/blake2s/src/blake2sp.rs b/blake2s/src/blake2sp.rs
index 3a68285..38dfd53 100644
--- a/blake2s/src/blake2sp.rs
+++ b/blake2s/src/blake2sp.rs
@@ -418,6 +418,17 @@ impl State {
     }
 }
 
+#[cfg(blake2_sim)]
+impl State {
+    /// Simulation hook: pretend that `bytes` more input bytes, a multiple of
+    /// `DEGREE * BLOCKBYTES`, have been compressed without changing the state
+    /// words.
+    #[doc(hidden)]
+    pub fn sim_advance_count(&mut self, bytes: Count) {
+        self.count = self.count.wrapping_add(bytes / DEGREE as Count);
+    }
+}
+
 #[cfg(feature = "std")]
 impl std::io::Write for State {
     fn write(&mut self, buf: &[u8]) -> std::io::Result<usize> {
diff --git a/blake2s/src/guts.rs b/blake2s/src/guts.rs
index 6584a9c..fbe28f4 100644
--- a/blake2s/src/guts.rs
+++ b/blake2s/src/guts.rs
@@ -50,6 +50,12 @@ impl Implementation {
     #[cfg(any(target_arch = "x86", target_arch = "x86_64"))]
     #[allow(unreachable_code)]
     pub fn sse41_if_supported() -> Option<Self> {
+        #[cfg(blake2_sim)]
+        {
+            if sim::cpu_level() < sim::CPU_SSE41 {
+                return None;
+            }
+        }
         // Check whether SSE4.1 support is assumed by the build.
         #[cfg(target_feature = "sse4.1")]
         {
@@ -68,6 +74,12 @@ impl Implementation {
     #[cfg(any(target_arch = "x86", target_arch = "x86_64"))]
     #[allow(unreachable_code)]
     pub fn avx2_if_supported() -> Option<Self> {
+        #[cfg(blake2_sim)]
+        {
+            if sim::cpu_level() < sim::CPU_ALL {
+                return None;
+            }
+        }
         // Check whether AVX2 support is assumed by the build.
         #[cfg(target_feature = "avx2")]
         {
diff --git a/blake2s/src/lib.rs b/blake2s/src/lib.rs
index f845e96..c9a41e5 100644
--- a/blake2s/src/lib.rs
+++ b/blake2s/src/lib.rs
@@ -41,6 +41,8 @@
 //! ```
 
 #![cfg_attr(not(feature = "std"), no_std)]
+// The blake2_sim cfg only guards simulation hooks. See sim.rs.
+#![allow(unexpected_cfgs)]
 
 use arrayref::{array_refs, mut_array_refs};
 use core::cmp;
@@ -57,6 +59,10 @@ pub mod blake2sp;
 mod guts;
 pub mod many;
 
+#[cfg(blake2_sim)]
+#[doc(hidden)]
+pub mod sim;
+
 #[cfg(test)]
 mod test;
 
@@ -517,6 +523,16 @@ impl State {
     }
 }
 
+#[cfg(blake2_sim)]
+impl State {
+    /// Simulation hook: pretend that `bytes` more input bytes, a multiple of
+    /// `BLOCKBYTES`, have been compressed without changing the state words.
+    #[doc(hidden)]
+    pub fn sim_advance_count(&mut self, bytes: Count) {
+        self.count = self.count.wrapping_add(bytes);
+    }
+}
+
 #[inline(always)]
 fn state_words_to_bytes(state_words: &[Word; 8]) -> [u8; OUTBYTES] {
     let mut bytes = [0; OUTBYTES];
diff --git a/blake2s/src/many.rs b/blake2s/src/many.rs
index e8be09b..b09179a 100644
--- a/blake2s/src/many.rs
+++ b/blake2s/src/many.rs
@@ -332,6 +332,16 @@ impl<'a> HashManyJob<'a> {
     }
 }
 
+#[cfg(blake2_sim)]
+impl<'a> HashManyJob<'a> {
+    /// Simulation hook: pretend that `bytes` more input bytes, a multiple of
+    /// `BLOCKBYTES`, have been compressed without changing the state words.
+    #[doc(hidden)]
+    pub fn sim_advance_count(&mut self, bytes: Count) {
+        self.count = self.count.wrapping_add(bytes);
+    }
+}
+
 impl<'a> fmt::Debug for HashManyJob<'a> {
     fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
         // NB: Don't print the words. Leaking them would allow length extension.
diff --git a/blake2s/src/sim.rs b/blake2s/src/sim.rs
new file mode 100644
index 0000000..905745b
--- /dev/null
+++ b/blake2s/src/sim.rs
@@ -0,0 +1,24 @@
+//! Hooks for deterministic simulation. This module and its callers exist only
+//! in builds with `RUSTFLAGS="--cfg blake2_sim"`; shipped builds contain none
+//! of it.
+
+use core::sync::atomic::{AtomicU8, Ordering};
+
+/// `set_cpu_level`: pretend that the CPU has no SIMD extensions.
+pub const CPU_NONE: u8 = 0;
+/// `set_cpu_level`: pretend that the CPU supports SSE4.1 at most.
+pub const CPU_SSE41: u8 = 1;
+/// `set_cpu_level`: use everything the CPU supports.
+pub const CPU_ALL: u8 = 2;
+
+static CPU_LEVEL: AtomicU8 = AtomicU8::new(CPU_ALL);
+
+/// Limit the CPU features that later detections report.
+pub fn set_cpu_level(level: u8) {
+    CPU_LEVEL.store(level, Ordering::Relaxed);
+}
+
+#[allow(dead_code)]
+pub(crate) fn cpu_level() -> u8 {
+    CPU_LEVEL.load(Ordering::Relaxed)
+}
-- 
2.43.0


From d5bb84f32c6c2812f79a1d38c241a000ecf62f9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:51 +0000
Subject: [PATCH 2/3] fix: finish the jobs in flight when the caller's iterator
 panics

update_many and hash_many count a job's input as compressed (or mark the job
as finished) when they take it from the iterator. If the iterator or an
AsRef implementation then panicked before the job was compressed, the State
or HashManyJob was left claiming input that never reached its words, and it
silently produced a wrong hash afterwards.
---
 blake2b/src/many.rs | 40 +++++++++++++++++++++++++++++++++++++---
 blake2s/src/many.rs | 40 +++++++++++++++++++++++++++++++++++++---
 2 files changed, 74 insertions(+), 6 deletions(-)

diff --git a/blake2b/src/many.rs b/blake2b/src/many.rs
index d1141ca..93654b6 100644
--- a/blake2b/src/many.rs
+++ b/blake2b/src/many.rs
@@ -131,6 +131,32 @@ fn evict_finished<'a, 'b>(vec: &mut JobsVec<'a, 'b>, num_jobs: usize) {
     }
 }
 
+// The jobs that have been taken from the iterator but aren't finished yet.
+// Whoever owns their words already counts their input as compressed, so they
+// have to be finished even if the iterator panics. That's why it happens here
+// in drop.
+struct JobsInFlight<'a, 'b> {
+    vec: JobsVec<'a, 'b>,
+    imp: Implementation,
+    finalize: Finalize,
+    stride: Stride,
+}
+
+impl<'a, 'b> Drop for JobsInFlight<'a, 'b> {
+    fn drop(&mut self) {
+        for job in self.vec.iter_mut() {
+            self.imp.compress1_loop(
+                job.input,
+                job.words,
+                job.count,
+                job.last_node,
+                self.finalize,
+                self.stride,
+            );
+        }
+    }
+}
+
 pub(crate) fn compress_many<'a, 'b, I>(
     jobs: I,
     imp: Implementation,
@@ -143,8 +169,14 @@ pub(crate) fn compress_many<'a, 'b, I>(
     // advance the iterator, even if a previous block emptied it.
     #[allow(unused_mut)]
     let mut jobs_iter = jobs.into_iter().fuse();
-    #[allow(unused_mut)]
-    let mut jobs_vec = JobsVec::new();
+    let mut in_flight = JobsInFlight {
+        vec: JobsVec::new(),
+        imp,
+        finalize,
+        stride,
+    };
+    #[allow(unused_mut, unused_variables)]
+    let mut jobs_vec = &mut in_flight.vec;
 
     #[cfg(any(target_arch = "x86", target_arch = "x86_64"))]
     if imp.degree() >= 4 {
@@ -172,7 +204,9 @@ pub(crate) fn compress_many<'a, 'b, I>(
         }
     }
 
-    for job in jobs_vec.into_iter().chain(jobs_iter) {
+    // Finish the leftover jobs, and then any that weren't taken above.
+    drop(in_flight);
+    for job in jobs_iter {
         let Job {
             input,
             words,
diff --git a/blake2s/src/many.rs b/blake2s/src/many.rs
index b09179a..5dcc8be 100644
--- a/blake2s/src/many.rs
+++ b/blake2s/src/many.rs
@@ -131,6 +131,32 @@ fn evict_finished<'a, 'b>(vec: &mut JobsVec<'a, 'b>, num_jobs: usize) {
     }
 }
 
+// The jobs that have been taken from the iterator but aren't finished yet.
+// Whoever owns their words already counts their input as compressed, so they
+// have to be finished even if the iterator panics. That's why it happens here
+// in drop.
+struct JobsInFlight<'a, 'b> {
+    vec: JobsVec<'a, 'b>,
+    imp: Implementation,
+    finalize: Finalize,
+    stride: Stride,
+}
+
+impl<'a, 'b> Drop for JobsInFlight<'a, 'b> {
+    fn drop(&mut self) {
+        for job in self.vec.iter_mut() {
+            self.imp.compress1_loop(
+                job.input,
+                job.words,
+                job.count,
+                job.last_node,
+                self.finalize,
+                self.stride,
+            );
+        }
+    }
+}
+
 pub(crate) fn compress_many<'a, 'b, I>(
     jobs: I,
     imp: Implementation,
@@ -143,8 +169,14 @@ pub(crate) fn compress_many<'a, 'b, I>(
     // advance the iterator, even if a previous block emptied it.
     #[allow(unused_mut)]
     let mut jobs_iter = jobs.into_iter().fuse();
-    #[allow(unused_mut)]
-    let mut jobs_vec = JobsVec::new();
+    let mut in_flight = JobsInFlight {
+        vec: JobsVec::new(),
+        imp,
+        finalize,
+        stride,
+    };
+    #[allow(unused_mut, unused_variables)]
+    let mut jobs_vec = &mut in_flight.vec;
 
     #[cfg(any(target_arch = "x86", target_arch = "x86_64"))]
     if imp.degree() >= 8 {
@@ -172,7 +204,9 @@ pub(crate) fn compress_many<'a, 'b, I>(
         }
     }
 
-    for job in jobs_vec.into_iter().chain(jobs_iter) {
+    // Finish the leftover jobs, and then any that weren't taken above.
+    drop(in_flight);
+    for job in jobs_iter {
         let Job {
             input,
             words,
-- 
2.43.0


From e17ca23ee6ddce1201ba69016ab00d02795a8a98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:13 +0000
Subject: [PATCH 3/3] fix: accept file names that are not valid UTF-8

Without parse(from_os_str), structopt converts the paths through &str and
panics before anything is hashed.
---
 blake2_bin/src/main.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/blake2_bin/src/main.rs b/blake2_bin/src/main.rs
index 2000321..63f2a01 100644
--- a/blake2_bin/src/main.rs
+++ b/blake2_bin/src/main.rs
@@ -9,6 +9,7 @@ use structopt::StructOpt;
 
 #[derive(Debug, StructOpt)]
 struct Opt {
+    #[structopt(parse(from_os_str))]
     /// Any number of filepaths, or empty for standard input.
     inputs: Vec<PathBuf>,
 
-- 
2.43.0

