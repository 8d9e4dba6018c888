From 6d3abb91d05982ffd38d82afe803fa43639c3606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:48 +0000
Subject: [PATCH 01/10] fix: reject non-negative discriminants in the verifier

A discriminant D >= 0 (for example 1 or 17) passed the size check and the
verifier then took a fourth root of -D, killing the process with SIGFPE.
---
 src/verifier.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/verifier.h b/src/verifier.h
index 97690c9..d380318 100644
--- a/src/verifier.h
+++ b/src/verifier.h
@@ -18,6 +18,9 @@ inline bool IsDiscSizeBitsInRange(const uint64_t disc_size_bits)
 
 inline bool IsDiscriminantInRange(const integer& D)
 {
+    // Only negative discriminants define the imaginary quadratic class groups used here.
+    if (mpz_sgn(D.impl) >= 0)
+        return false;
     const int d_bits = D.num_bits();
     return d_bits > 0 && static_cast<uint64_t>(d_bits) <= static_cast<uint64_t>(BQFC_MAX_D_BITS);
 }
-- 
2.43.0


From 6402a8c38117da940d0f6a7ae1350a67593a9b1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:12 +0000
Subject: [PATCH 02/10] fix: check the length of the starting form in the
 Python verifiers

verify_n_wesolowski and the other n-Wesolowski entry points passed x_s to the
verifier without its length; anything shorter than 100 bytes was read out of
bounds, and b"\x08" was accepted as if it had been padded.
---
 src/python_bindings/fastvdf.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/python_bindings/fastvdf.cpp b/src/python_bindings/fastvdf.cpp
index 9af6750..232897c 100644
--- a/src/python_bindings/fastvdf.cpp
+++ b/src/python_bindings/fastvdf.cpp
@@ -69,6 +69,9 @@ PYBIND11_MODULE(_chiavdf, m) {
                                    const string& proof_blob,
                                    const uint64_t num_iterations, const uint64_t disc_size_bits, const uint64_t recursion) {
         std::string discriminant_copy(discriminant);
+        if (x_s.size() != BQFC_FORM_SIZE) {
+            throw std::runtime_error("expected 100-byte form");
+        }
         std::string x_s_copy(x_s);
         std::string proof_blob_copy(proof_blob);
         uint8_t *proof_blob_ptr = reinterpret_cast<uint8_t *>(proof_blob_copy.data());
@@ -89,6 +92,9 @@ PYBIND11_MODULE(_chiavdf, m) {
                                    const uint64_t recursion) {
         std::string challenge_hash_str(challenge_hash);
         std::vector<uint8_t> challenge_hash_bits = std::vector<uint8_t>(challenge_hash_str.begin(), challenge_hash_str.end());
+        if (x_s.size() != BQFC_FORM_SIZE) {
+            throw std::runtime_error("expected 100-byte form");
+        }
         std::string x_s_copy(x_s);
         std::string proof_blob_copy(proof_blob);
         bool is_valid = false;
@@ -126,6 +132,9 @@ PYBIND11_MODULE(_chiavdf, m) {
                                    const uint64_t num_iterations, const uint64_t recursion) -> py::tuple {
         std::string discriminant_copy(discriminant);
         std::string B_copy(B);
+        if (x_s.size() != BQFC_FORM_SIZE) {
+            throw std::runtime_error("expected 100-byte form");
+        }
         std::string x_s_copy(x_s);
         std::string proof_blob_copy(proof_blob);
         std::pair<bool, std::vector<uint8_t>> result;
@@ -157,6 +166,9 @@ PYBIND11_MODULE(_chiavdf, m) {
                                    const string& proof_blob,
                                    const uint64_t num_iterations, const uint64_t recursion) {
         std::string discriminant_copy(discriminant);
+        if (x_s.size() != BQFC_FORM_SIZE) {
+            throw std::runtime_error("expected 100-byte form");
+        }
         std::string x_s_copy(x_s);
         std::string proof_blob_copy(proof_blob);
         integer B;
-- 
2.43.0


From 85decc69cdc000f555e3f97caed88afa7e23d0dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:12 +0000
Subject: [PATCH 03/10] fix: check the length of the starting form in the Rust
 verifier

The safe function verify_n_wesolowski passed x_s to C without its length, so a
slice shorter than 100 bytes was read out of bounds.
---
 rust_bindings/src/lib.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/rust_bindings/src/lib.rs b/rust_bindings/src/lib.rs
index fc4c91d..0a048fd 100644
--- a/rust_bindings/src/lib.rs
+++ b/rust_bindings/src/lib.rs
@@ -9,6 +9,9 @@ mod bindings {
     include!(concat!(env!("OUT_DIR"), "/bindings.rs"));
 }
 
+/// Length in bytes of a serialized form.
+const FORM_SIZE: usize = 100;
+
 pub fn create_discriminant(seed: &[u8], result: &mut [u8]) -> bool {
     // SAFETY: The length of each individual array is passed in as to prevent buffer overflows.
     // Exceptions are handled on the C++ side and None is returned if so.
@@ -29,6 +32,10 @@ pub fn verify_n_wesolowski(
     num_iterations: u64,
     recursion: u64,
 ) -> bool {
+    // The C interface takes no length for the starting form and always reads one whole form.
+    if x_s.len() != FORM_SIZE {
+        return false;
+    }
     // SAFETY: The length of each individual array is passed in as to prevent buffer overflows.
     // Exceptions are handled on the C++ side and false is returned if so.
     unsafe {
-- 
2.43.0


From 285987f034a57dd43c2de3af5cd6651710ae9abe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:12 +0000
Subject: [PATCH 04/10] fix: refuse to deserialize forms for a non-negative
 discriminant

Python bqfc_deserialize and verify_wesolowski pass any discriminant on; with
D = 1 or 17 the process died with SIGFPE in the reduction or in root(-D, 4).
---
 src/proof_common.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/proof_common.h b/src/proof_common.h
index 5cf32c8..4e459c4 100644
--- a/src/proof_common.h
+++ b/src/proof_common.h
@@ -54,6 +54,10 @@ std::vector<unsigned char> SerializeForm(form &y, int d_bits)
 form DeserializeForm(const integer &D, const uint8_t *bytes, size_t size,
                      bool strict = false)
 {
+    // Forms of other discriminants are not positive definite; reducing them divides by zero.
+    if (mpz_sgn(D.impl) >= 0) {
+        throw std::runtime_error("Discriminant must be negative");
+    }
     integer a, b;
     if (bqfc_deserialize(a.impl, b.impl, D.impl, bytes, size, D.num_bits(), strict)) {
         throw std::runtime_error("Deserializing compressed form failed");
-- 
2.43.0


From 48ec54c573aec4569ceeebe241a76cec47fb298d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:20:18 +0000
Subject: [PATCH 05/10] fix: refuse checkpoints beyond the store

---
 src/callback.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/callback.h b/src/callback.h
index f4764bb..2334f39 100644
--- a/src/callback.h
+++ b/src/callback.h
@@ -321,7 +321,11 @@ class FastAlgorithmCallback : public WesolowskiCallback {
         }
 
         if (iteration % (1 << 16) == 0) {
-            form* mulf = (&checkpoints[(iteration / (1 << 16))]);
+            const uint64_t pos = iteration / (1 << 16);
+            if (pos >= (1 << 18)) {
+                throw std::runtime_error("FastAlgorithmCallback::OnIteration out of bounds");
+            }
+            form* mulf = &checkpoints[pos];
             SetForm(type, data, mulf);
         }
     }
-- 
2.43.0


From fd79c196715dfae011b2228270a7427dc26219c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:45:53 +0000
Subject: [PATCH 06/10] fix: stop waiting for a proof that was interrupted

ProveOneWesolowski waited for the prover's completion only; a prover that
was interrupted never announces completion, so once the stop flag was
raised while the proof was computed the caller waited forever.
---
 src/vdf.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/vdf.h b/src/vdf.h
index 3cfe197..84152a0 100644
--- a/src/vdf.h
+++ b/src/vdf.h
@@ -329,9 +329,11 @@ Proof ProveOneWesolowski(uint64_t iters, integer& D, form f, OneWesolowskiCallba
     );
     OneWesolowskiProver prover(sg, D, weso->forms.get(), stopped);
     prover.start();
-    while (!prover.IsFinished()) {
+    while (!stopped && !prover.IsFinished()) {
         this_thread::sleep_for(1s);
     }
+    if (stopped)
+        return Proof();
     int d_bits = D.num_bits();
     std::vector<unsigned char> y_serialized;
     std::vector<unsigned char> proof_serialized;
-- 
2.43.0


From a6b3856a3e9479ffbc312e4998ac9a0c9830a9b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:10:03 +0000
Subject: [PATCH 07/10] fix: leave out segments that are not proved yet

ProverManager::Prove took whatever stood at a position of done_segments,
also the empty placeholder that stands before a longer segment that
finished out of order, and serialized its uninitialised forms.
---
 src/vdf.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/vdf.h b/src/vdf.h
index 84152a0..15daf22 100644
--- a/src/vdf.h
+++ b/src/vdf.h
@@ -545,7 +545,8 @@ class ProverManager {
             for (int i = segment_count - 1; i >= 0; i--) {
                 uint64_t segment_size = (1LL << (16 + 2 * i));
                 uint64_t position = proved_iters / segment_size;
-                while (position < done_segments[i].size() && proved_iters + segment_size <= iteration) {
+                while (position < done_segments[i].size() && !done_segments[i][position].is_empty &&
+                       proved_iters + segment_size <= iteration) {
                     proof_segments.emplace_back(done_segments[i][position]);
                     position++;
                     proved_iters += segment_size;
-- 
2.43.0


From babb3145ce7037ab951a18a7a4115a5171b7db07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:19:56 +0000
Subject: [PATCH 08/10] fix: give no proof when stopped while segments are
 missing

ProverManager::Prove left its waiting loop with no segments when it was
stopped, and went on to serialize the last of them.
---
 src/vdf.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/vdf.h b/src/vdf.h
index 15daf22..b6da988 100644
--- a/src/vdf.h
+++ b/src/vdf.h
@@ -568,6 +568,8 @@ class ProverManager {
                 valid_proof = true;
             }
         }
+        if (!valid_proof)
+            return Proof();
         if (!last_segment.is_empty) {
             proof_segments.emplace_back(last_segment);
         }
-- 
2.43.0


From c47e5821151e3d806a9cb85cc1a493b4e889b1ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:22:48 +0000
Subject: [PATCH 09/10] fix: compare two-level requests with the iteration
 limit

Requests beyond the limit were compared with the number of proving
threads, which an unsigned count never reaches; each of them kept a
prover waiting for iterations that never come.
---
 src/vdf_client.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vdf_client.cpp b/src/vdf_client.cpp
index 58dc0af..169a7b5 100644
--- a/src/vdf_client.cpp
+++ b/src/vdf_client.cpp
@@ -294,7 +294,7 @@ void SessionTwoWeso(tcp::socket& sock) {
                     PrintInfo("Duplicate iteration " + to_string(iters) + "... Ignoring.");
                     continue;
                 }
-                if (iters >= kMaxProcessesAllowed - 500000) {
+                if (iters >= kMaxItersAllowed - 500000) {
                     PrintInfo("Too big iter... ignoring");
                     continue;
                 }
-- 
2.43.0


From 2e6716d6a72e1bc06eb5a6aa1ffd7cdcd2af7b3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:29:42 +0000
Subject: [PATCH 10/10] fix: keep a stop flag for every two-level request

---
 src/vdf_client.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/vdf_client.cpp b/src/vdf_client.cpp
index 169a7b5..6d66721 100644
--- a/src/vdf_client.cpp
+++ b/src/vdf_client.cpp
@@ -3,6 +3,7 @@
 #include "version.hpp"
 #include "vdf_client_session.h"
 #include <atomic>
+#include <deque>
 
 using boost::asio::ip::tcp;
 
@@ -252,7 +253,7 @@ void SessionTwoWeso(tcp::socket& sock) {
         boost::asio::write(sock, boost::asio::buffer("OK", 2));
 
         std::atomic<bool> stopped(false);
-        std::atomic<bool> stop_vector[100];
+        std::deque<std::atomic<bool>> stop_vector;
         std::vector<std::thread> threads;
         // (iteration, thread_id)
         std::set<std::pair<uint64_t, uint64_t> > seen_iterations;
@@ -301,9 +302,9 @@ void SessionTwoWeso(tcp::socket& sock) {
                 if (threads.size() < kMaxProcessesAllowed || iters < min_iter) {
                     seen_iterations.insert({iters, threads.size()});
                     PrintInfo("Running proving for iter: " + to_string(iters));
-                    stop_vector[threads.size()] = false;
+                    stop_vector.emplace_back(false);
                     threads.push_back(std::thread(CreateAndWriteProofTwoWeso, std::ref(D), f, iters,
-                                      (TwoWesolowskiCallback*)weso, std::ref(stop_vector[threads.size()]),
+                                      (TwoWesolowskiCallback*)weso, std::ref(stop_vector.back()),
                                       std::ref(sock)));
                     if (threads.size() > kMaxProcessesAllowed) {
                         PrintInfo("Stopping proving for iter: " + to_string(max_iter));
-- 
2.43.0

