From ac9c3381ae2b015301efc0adec0416d15ac9b57d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:29 +0000
Subject: [PATCH 1/3] fix: keyed BLAKE2sp hashed long inputs wrong

The key block sat in each leaf's own buffer, while update() compresses long
inputs straight into the leaf state words and assumes those buffers are
empty. Keyed hashes of long inputs therefore skipped the key block until the
end (wrong hash, or a debug assertion failure). Feed the key blocks through
the BLAKE2sp buffer like any other input instead.
---
 src/blake2sp.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/blake2sp.rs b/src/blake2sp.rs
index 441de2e..8490889 100644
--- a/src/blake2sp.rs
+++ b/src/blake2sp.rs
@@ -124,6 +124,10 @@ impl State {
             // Note that the regular hash_length parameter still contributes associated data to
             // these instances.
             state.hash_length = OUTBYTES as u8;
+            // Clear the key block from the leaf's own buffer. compress8 below assumes that the leaf
+            // buffers are always empty, so the key has to go through this state's buffer instead.
+            state.buflen = 0;
+            state.count = 0;
             state
         };
         let mut root_state = base_params
@@ -140,7 +144,7 @@ impl State {
         // corroborated by the official test vectors; see tests/vector_tests.rs.
         root_state.buflen = 0;
         root_state.count = 0;
-        Self {
+        let mut state = Self {
             leaf0: leaf_state(0),
             leaf1: leaf_state(1),
             leaf2: leaf_state(2),
@@ -153,7 +157,16 @@ impl State {
             buf: [0; 2 * 8 * BLOCKBYTES],
             buflen: 0,
             compress8_fn: crate::default_compress_impl().1,
+        };
+        // If there's a key, the first block of each leaf is the key block.
+        if params.key_length > 0 {
+            let mut key_block = [0; BLOCKBYTES];
+            key_block[..KEYBYTES].copy_from_slice(&params.key);
+            for _ in 0..8 {
+                state.update(&key_block);
+            }
         }
+        state
     }
 
     fn fill_buf(&mut self, input: &mut &[u8]) {
-- 
2.43.0


From aa4a52a73c6593c948af85da2a42b32e81f5c27e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:32 +0000
Subject: [PATCH 2/3] fix: hash4_exact and hash8_exact ignored the key on AVX2
 machines

The SIMD implementations put the key length into the parameter block but never
hashed the key block, so keyed hashes were wrong and independent of the key.
The portable implementations handle keys; use them when there is one.
---
 src/lib.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index c6fce16..be1898d 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -787,6 +787,10 @@ pub fn hash4_exact(
         "invalid hash8_exact inputs"
     );
 
+    // The SIMD implementations don't hash a key block.
+    if params.key_length > 0 {
+        return portable::hash4_exact(params, input0, input1, input2, input3);
+    }
     let hash4_exact_fn = default_compress_impl().3;
     unsafe { hash4_exact_fn(params, input0, input1, input2, input3) }
 }
@@ -819,6 +823,12 @@ pub fn hash8_exact(
         "invalid hash8_exact inputs"
     );
 
+    // The SIMD implementations don't hash a key block.
+    if params.key_length > 0 {
+        return portable::hash8_exact(
+            params, input0, input1, input2, input3, input4, input5, input6, input7,
+        );
+    }
     let hash8_exact_fn = default_compress_impl().2;
     unsafe {
         hash8_exact_fn(
-- 
2.43.0


From 7ba03d94bc09c2d2e152590948dbee82fff57b52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:34 +0000
Subject: [PATCH 3/3] fix: count() included the key block

count() is documented as the total number of bytes input so far, but keyed
states reported 64 more bytes (BLAKE2s) or 512 more bytes (BLAKE2sp) than the
caller had input.
---
 src/blake2sp.rs | 15 ++++++++++++---
 src/lib.rs      | 15 ++++++++++++---
 2 files changed, 24 insertions(+), 6 deletions(-)

diff --git a/src/blake2sp.rs b/src/blake2sp.rs
index 8490889..ced0c38 100644
--- a/src/blake2sp.rs
+++ b/src/blake2sp.rs
@@ -86,6 +86,7 @@ pub struct State {
     // have enough input when we compress to know we don't need to finalize any of the leaves.
     buf: [u8; 2 * 8 * BLOCKBYTES],
     buflen: u16,
+    is_keyed: bool,
     compress8_fn: Compress8Fn,
 }
 
@@ -128,6 +129,7 @@ impl State {
             // buffers are always empty, so the key has to go through this state's buffer instead.
             state.buflen = 0;
             state.count = 0;
+            state.is_keyed = false;
             state
         };
         let mut root_state = base_params
@@ -144,6 +146,7 @@ impl State {
         // corroborated by the official test vectors; see tests/vector_tests.rs.
         root_state.buflen = 0;
         root_state.count = 0;
+        root_state.is_keyed = false;
         let mut state = Self {
             leaf0: leaf_state(0),
             leaf1: leaf_state(1),
@@ -156,6 +159,7 @@ impl State {
             root: root_state,
             buf: [0; 2 * 8 * BLOCKBYTES],
             buflen: 0,
+            is_keyed: params.key_length > 0,
             compress8_fn: crate::default_compress_impl().1,
         };
         // If there's a key, the first block of each leaf is the key block.
@@ -400,9 +404,9 @@ impl State {
         root.finalize()
     }
 
-    /// Return the total number of bytes input so far.
+    /// Return the total number of bytes input so far. The key blocks, if any, aren't included.
     pub fn count(&self) -> u64 {
-        self.leaf0.count()
+        let total = self.leaf0.count()
             + self.leaf1.count()
             + self.leaf2.count()
             + self.leaf3.count()
@@ -410,7 +414,12 @@ impl State {
             + self.leaf5.count()
             + self.leaf6.count()
             + self.leaf7.count()
-            + self.buflen as u64
+            + self.buflen as u64;
+        if self.is_keyed {
+            total - 8 * BLOCKBYTES as u64
+        } else {
+            total
+        }
     }
 }
 
diff --git a/src/lib.rs b/src/lib.rs
index be1898d..8f03f38 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -311,6 +311,7 @@ pub struct State {
     compress_fn: CompressFn,
     last_node: bool,
     hash_length: u8,
+    is_keyed: bool,
 }
 
 impl State {
@@ -327,6 +328,7 @@ impl State {
             count: 0,
             last_node: params.last_node,
             hash_length: params.hash_length,
+            is_keyed: params.key_length > 0,
         };
         if params.key_length > 0 {
             let mut key_block = [0; BLOCKBYTES];
@@ -414,9 +416,13 @@ impl State {
         self
     }
 
-    /// Return the total number of bytes input so far.
+    /// Return the total number of bytes input so far. The key block, if any, isn't included.
     pub fn count(&self) -> u64 {
-        self.count
+        if self.is_keyed {
+            self.count - BLOCKBYTES as u64
+        } else {
+            self.count
+        }
     }
 }
 
@@ -454,7 +460,9 @@ impl fmt::Debug for State {
         write!(
             f,
             "State {{ count: {}, hash_length: {}, last_node: {} }}",
-            self.count, self.hash_length, self.last_node,
+            self.count(),
+            self.hash_length,
+            self.last_node,
         )
     }
 }
@@ -1012,6 +1020,7 @@ pub fn hash8(
             compress_fn: compress_fn,
             last_node: params.last_node,
             hash_length: params.hash_length,
+            is_keyed: false,
         };
         state.update(&input[count..]);
         state.finalize()
-- 
2.43.0

