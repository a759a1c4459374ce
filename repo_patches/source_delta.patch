From b175f3da88f555c49341b4de0afa707fcb8aeef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:49:11 +0000
Subject: [PATCH 01/28] fix: Wrapper checks its buffer allocation and releases
 the buffer on every exit path

wrap() and unwrap() used the result of sodium_malloc() unchecked (crash when
the allocation fails) and leaked the buffer, which holds the serialized secret,
whenever they left with an exception (e.g. on an invalid tag).
---
 src/include/sse/crypto/wrapper.hpp | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/src/include/sse/crypto/wrapper.hpp b/src/include/sse/crypto/wrapper.hpp
index 576920b..5dbd017 100644
--- a/src/include/sse/crypto/wrapper.hpp
+++ b/src/include/sse/crypto/wrapper.hpp
@@ -27,6 +27,8 @@
 #include <algorithm>
 #include <array>
 #include <exception>
+#include <memory>
+#include <new>
 #include <vector>
 
 #include <sodium/crypto_stream_chacha20.h>
@@ -200,8 +202,14 @@ std::vector<uint8_t> Wrapper::wrap(const CryptoClass& c) const
     const size_t buffer_size     = kRandomIVSize + serialized_size
                                + CryptoClass::kPublicContextSize
                                + 1; // the +1 is for the mandatory type byte
-    uint8_t* buffer = static_cast<uint8_t*>(sodium_malloc(buffer_size));
-    // std::array<uint8_t, buffer_size> buffer;
+    // the buffer is erased and released on every exit path
+    std::unique_ptr<uint8_t, void (*)(void*)> buffer_owner(
+        static_cast<uint8_t*>(sodium_malloc(buffer_size)), sodium_free);
+    uint8_t* buffer = buffer_owner.get();
+
+    if (buffer == nullptr) {
+        throw std::bad_alloc(); /* LCOV_EXCL_LINE */
+    }
 
     // put the random IV at the beggining
     random_bytes(kRandomIVSize, buffer);
@@ -240,8 +248,6 @@ std::vector<uint8_t> Wrapper::wrap(const CryptoClass& c) const
                                     encryption_key_.unlock_get());
     encryption_key_.lock();
 
-    sodium_free(buffer);
-
     return out;
 }
 
@@ -257,8 +263,14 @@ CryptoClass Wrapper::unwrap(std::vector<uint8_t>& c_rep) const
     const size_t buffer_size = kRandomIVSize + data_size
                                + CryptoClass::kPublicContextSize
                                + 1; // the +1 is for the mandatory type byte
-    uint8_t* buffer = static_cast<uint8_t*>(sodium_malloc(buffer_size));
-    // std::array<uint8_t, buffer_size> buffer;
+    // the buffer is erased and released on every exit path
+    std::unique_ptr<uint8_t, void (*)(void*)> buffer_owner(
+        static_cast<uint8_t*>(sodium_malloc(buffer_size)), sodium_free);
+    uint8_t* buffer = buffer_owner.get();
+
+    if (buffer == nullptr) {
+        throw std::bad_alloc(); /* LCOV_EXCL_LINE */
+    }
 
     // copy the IV at the beggining of the buffer
     memcpy(buffer, c_rep.data(), kRandomIVSize);
@@ -319,8 +331,7 @@ CryptoClass Wrapper::unwrap(std::vector<uint8_t>& c_rep) const
         /* LCOV_EXCL_STOP */
     }
 
-    // free the buffer and zero the entry
-    sodium_free(buffer);
+    // zero the entry
     sodium_memzero(c_rep.data(), c_rep.size());
 
     return c;
-- 
2.43.0


From fd80b1be6d033075e7365307da1ad14c64e2f2e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:49:11 +0000
Subject: [PATCH 02/28] fix: TdpInverse::serialized_size() must not be noexcept

It exports the private key, which throws when an allocation fails; wrapping a
TdpInverse then terminated the process instead of reporting the failure.
---
 src/include/sse/crypto/tdp.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/sse/crypto/tdp.hpp b/src/include/sse/crypto/tdp.hpp
index a98b58f..fdb2f6b 100644
--- a/src/include/sse/crypto/tdp.hpp
+++ b/src/include/sse/crypto/tdp.hpp
@@ -584,7 +584,7 @@ private:
     ///
     /// @return The size in bytes of the buffer needed to serialize the object.
     ///
-    size_t serialized_size() const noexcept
+    size_t serialized_size() const
     {
         return private_key().size();
     }
-- 
2.43.0


From 777e44408b79041a58e387bda1ac6a6b329bbe72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:49:40 +0000
Subject: [PATCH 03/28] fix: random keys are random when memory locking is
 disabled

Key() filled the key with random bytes only when ENABLE_MEMORY_LOCK was
defined; otherwise every default-constructed key had the same constant value.
---
 src/include/sse/crypto/key.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/include/sse/crypto/key.hpp b/src/include/sse/crypto/key.hpp
index f284f91..689b103 100644
--- a/src/include/sse/crypto/key.hpp
+++ b/src/include/sse/crypto/key.hpp
@@ -111,9 +111,10 @@ public:
         if (content_ == nullptr) {
             throw std::bad_alloc(); /* LCOV_EXCL_LINE */
         }
-#ifdef ENABLE_MEMORY_LOCK
 
         random_bytes(N, content_);
+
+#ifdef ENABLE_MEMORY_LOCK
         int err = sodium_mprotect_noaccess(content_);
         if (err == -1 && errno != ENOSYS) {
             /* LCOV_EXCL_START */
-- 
2.43.0


From e399790d4bacd644dd5f6eff487b07c943a06ba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:58:32 +0000
Subject: [PATCH 04/28] fix: RCPrf refuses the leaves beyond the last one of
 its tree

---
 src/include/sse/crypto/rcprf.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/include/sse/crypto/rcprf.hpp b/src/include/sse/crypto/rcprf.hpp
index 0ccbcab..ca76ca3 100644
--- a/src/include/sse/crypto/rcprf.hpp
+++ b/src/include/sse/crypto/rcprf.hpp
@@ -1796,12 +1796,12 @@ public:
     ///
     ///
     /// @param leaf The index of the leaf to derive. Must be less or equal than
-    ///             2^height -1.
+    ///             2^(height-1) -1.
     ///
     /// @return     An std::array of NBYTES bytes containing the result of the
     ///             evaluation
     ///
-    /// @exception std::invalid_argument       leaf is larger than 2^height-1
+    /// @exception std::invalid_argument       leaf is larger than 2^(height-1)-1
     ///
     std::array<uint8_t, NBYTES> eval(uint64_t leaf) const;
 
@@ -1938,8 +1938,8 @@ private:
 template<uint16_t NBYTES>
 std::array<uint8_t, NBYTES> RCPrf<NBYTES>::eval(uint64_t leaf) const
 {
-    if (leaf >> this->tree_height() != 0) {
-        throw std::out_of_range("Invalid node index: leaf > 2^height -1.");
+    if (leaf > RCPrfParams::max_leaf_index(this->tree_height())) {
+        throw std::out_of_range("Invalid node index: leaf > 2^(height-1) -1.");
     }
 
     return static_cast<const RCPrf<NBYTES>*>(this)
@@ -1951,8 +1951,8 @@ void RCPrf<NBYTES>::eval_range(uint64_t             min,
                                uint64_t             max,
                                const callback_type& callback) const
 {
-    if (max >> this->tree_height() != 0) {
-        throw std::out_of_range("Invalid max index: max > 2^height -1.");
+    if (max > RCPrfParams::max_leaf_index(this->tree_height())) {
+        throw std::out_of_range("Invalid max index: max > 2^(height-1) -1.");
     }
     if (max < min) {
         throw std::invalid_argument(
-- 
2.43.0


From 0b02dd00dd8ba2ebd0307a84c07061241d0ca9fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:58:32 +0000
Subject: [PATCH 05/28] fix: ConstrainedRCPrf::constrain refuses inverted
 ranges

---
 src/include/sse/crypto/rcprf.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/include/sse/crypto/rcprf.hpp b/src/include/sse/crypto/rcprf.hpp
index ca76ca3..21d38e5 100644
--- a/src/include/sse/crypto/rcprf.hpp
+++ b/src/include/sse/crypto/rcprf.hpp
@@ -1437,6 +1437,12 @@ void ConstrainedRCPrf<NBYTES>::generate_constrained_subkeys(
     std::vector<std::unique_ptr<ConstrainedRCPrfElement<NBYTES>>>&
         constrained_elements) const
 {
+    if (min > max) {
+        throw std::invalid_argument(
+            "ConstrainedRCPrf::constrain: Invalid range: min is larger than "
+            "max: max="
+            + std::to_string(max) + ", min=" + std::to_string(min));
+    }
     if (min < this->min_leaf() || max > this->max_leaf()) {
         throw std::out_of_range(
             "ConstrainedRCPrf::generate_constrained_subkeys: the input range ("
-- 
2.43.0


From ec9505140655deef5efec3ee16733c8320d21008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:58:32 +0000
Subject: [PATCH 06/28] fix: RCPrf refuses trees of height 1, which it cannot
 evaluate

---
 src/include/sse/crypto/rcprf.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/include/sse/crypto/rcprf.hpp b/src/include/sse/crypto/rcprf.hpp
index 21d38e5..23ef606 100644
--- a/src/include/sse/crypto/rcprf.hpp
+++ b/src/include/sse/crypto/rcprf.hpp
@@ -1784,9 +1784,9 @@ public:
     RCPrf(Key<RCPrfParams::kKeySize>&& key, RCPrfParams::depth_type height)
         : RCPrfBase<NBYTES>(height), root_prg_(std::move(key))
     {
-        if (height == 0) {
+        if (height <= 1) {
             throw std::invalid_argument(
-                "Invalid height: height must be non-zero");
+                "Invalid height: height must be larger than 1");
         }
         if (height > 64) {
             throw std::invalid_argument(
@@ -1910,9 +1910,9 @@ private:
         // deserialize function, so the next checks should always fail. Yet, for
         // the sake of security, let's keep them here. However, they cannot be
         // tested properly, so remove them from the code coverage.
-        if (height == 0) {
+        if (height <= 1) {
             throw std::invalid_argument(
-                "Invalid height: height must be non-zero");
+                "Invalid height: height must be larger than 1");
         }
         if (height > 64) {
             throw std::invalid_argument(
-- 
2.43.0


From 508d70fc63b6c076695fca199f568ef4321ae255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:58:32 +0000
Subject: [PATCH 07/28] fix: an empty ConstrainedRCPrf that was wrapped can be
 unwrapped

---
 src/include/sse/crypto/rcprf.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/include/sse/crypto/rcprf.hpp b/src/include/sse/crypto/rcprf.hpp
index 23ef606..d01a4ba 100644
--- a/src/include/sse/crypto/rcprf.hpp
+++ b/src/include/sse/crypto/rcprf.hpp
@@ -1535,10 +1535,9 @@ ConstrainedRCPrf<NBYTES> ConstrainedRCPrf<NBYTES>::deserialize(
     size_t&      n_bytes_read)
 {
     constexpr size_t min_size
-        = sizeof(RCPrfParams::depth_type) + sizeof(uint32_t)
-          + ConstrainedRCPrfElement<NBYTES>::kSerializedElementInfoSize;
+        = sizeof(RCPrfParams::depth_type) + sizeof(uint32_t);
 
-    if (in_size <= min_size) {
+    if (in_size < min_size) {
         /* LCOV_EXCL_START */
         throw std::invalid_argument(
             "ConstrainedRCPrf::deserialize: invalid input buffer size. The "
-- 
2.43.0


From d200d1210f9b4dbda73191a91ebe6b735be966d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:02:40 +0000
Subject: [PATCH 08/28] fix: RCPrf and ConstrainedRCPrf have different type
 bytes in wrapped blobs

---
 src/include/sse/crypto/wrapper.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/sse/crypto/wrapper.hpp b/src/include/sse/crypto/wrapper.hpp
index 5dbd017..6777f2d 100644
--- a/src/include/sse/crypto/wrapper.hpp
+++ b/src/include/sse/crypto/wrapper.hpp
@@ -374,7 +374,7 @@ class RCPrf;
 template<uint16_t NBYTES>
 struct Wrapper::TypeByte<RCPrf<NBYTES>>
 {
-    static constexpr uint8_t value = 0x06;
+    static constexpr uint8_t value = 0x05;
 };
 
 template<uint16_t NBYTES>
-- 
2.43.0


From f17572ee3d42926896533ac7fad885f4ea551273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:13:11 +0000
Subject: [PATCH 09/28] fix: Prp::encrypt re-protects its key after use

---
 src/prp.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/prp.cpp b/src/prp.cpp
index 4bd0fb2..b1ce4ae 100644
--- a/src/prp.cpp
+++ b/src/prp.cpp
@@ -196,6 +196,8 @@ void Prp::encrypt(const uint8_t* in, const unsigned int len, uint8_t* out)
                 reinterpret_cast<const char*>(in),
                 len,
                 reinterpret_cast<char*>(out));
+
+    aez_ctx_.lock();
 }
 
 void Prp::encrypt(const std::string& in, std::string& out)
-- 
2.43.0


From 7828f259b5ef753deea7e71e24d139213f4b87a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:13:36 +0000
Subject: [PATCH 10/28] fix: Prg::derive does not leave its key unprotected
 when the output is NULL

---
 src/prg.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/prg.cpp b/src/prg.cpp
index b1ff2b4..78d12bf 100644
--- a/src/prg.cpp
+++ b/src/prg.cpp
@@ -134,6 +134,11 @@ void Prg::derive(const size_t   offset,
         return;
     }
 
+    if (out == nullptr) {
+        // do not unlock the key for an invalid call
+        throw std::invalid_argument("out is NULL");
+    }
+
     prg_derivation(key_.unlock_get(), offset, len, out);
     key_.lock();
 }
-- 
2.43.0


From 7bb885ef921d71b510d529481d8b43862c689977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:14:21 +0000
Subject: [PATCH 11/28] fix: Key constructors erase and release the key when
 they fail

---
 src/include/sse/crypto/key.hpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/include/sse/crypto/key.hpp b/src/include/sse/crypto/key.hpp
index 689b103..8ea61b5 100644
--- a/src/include/sse/crypto/key.hpp
+++ b/src/include/sse/crypto/key.hpp
@@ -118,6 +118,7 @@ public:
         int err = sodium_mprotect_noaccess(content_);
         if (err == -1 && errno != ENOSYS) {
             /* LCOV_EXCL_START */
+            erase(); // the destructor will not be called
             throw std::runtime_error("Error when locking memory: "
                                      + std::string(strerror(errno)));
             /* LCOV_EXCL_STOP */
@@ -157,6 +158,7 @@ public:
         int err = sodium_mprotect_noaccess(content_);
         if (err == -1 && errno != ENOSYS) {
             /* LCOV_EXCL_START */
+            erase(); // the destructor will not be called
             throw std::runtime_error("Error when locking memory: "
                                      + std::string(strerror(errno)));
             /* LCOV_EXCL_STOP */
@@ -261,12 +263,18 @@ private:
             throw std::bad_alloc(); /* LCOV_EXCL_LINE */
         }
 
-        init_callback(content_); // use the callback to fill the key
+        try {
+            init_callback(content_); // use the callback to fill the key
+        } catch (...) {
+            erase(); // the destructor will not be called
+            throw;
+        }
 
 #ifdef ENABLE_MEMORY_LOCK
         int err = sodium_mprotect_noaccess(content_);
         if (err == -1 && errno != ENOSYS) {
             /* LCOV_EXCL_START */
+            erase(); // the destructor will not be called
             throw std::runtime_error("Error when locking memory: "
                                      + std::string(strerror(errno)));
             /* LCOV_EXCL_STOP */
-- 
2.43.0


From 45df22418d45fc3436ea3da4e8120f97f69c83d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:14:21 +0000
Subject: [PATCH 12/28] fix: Prg::derive_keys checks its buffer allocation and
 releases the buffer on every exit path

---
 src/include/sse/crypto/prg.hpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/include/sse/crypto/prg.hpp b/src/include/sse/crypto/prg.hpp
index 2afa5ca..fd55739 100644
--- a/src/include/sse/crypto/prg.hpp
+++ b/src/include/sse/crypto/prg.hpp
@@ -462,6 +462,12 @@ std::vector<Key<K>> Prg::derive_keys(const uint16_t n_keys,
 
     uint8_t* key_buffer
         = reinterpret_cast<uint8_t*>(sodium_allocarray(n_keys, K));
+    if (key_buffer == nullptr) {
+        throw std::bad_alloc(); /* LCOV_EXCL_LINE */
+    }
+    // the buffer is erased and released on every exit path
+    std::unique_ptr<uint8_t, void (*)(void*)> buffer_owner(key_buffer,
+                                                           sodium_free);
 
     this->derive(key_offset * K, n_keys * K, key_buffer);
 
@@ -471,8 +477,6 @@ std::vector<Key<K>> Prg::derive_keys(const uint16_t n_keys,
         derived_keys.push_back(Key<K>(key_buffer + i * K));
     }
 
-    sodium_free(key_buffer);
-
     return derived_keys;
 }
 
@@ -506,6 +510,12 @@ std::vector<Key<K>> Prg::derive_keys(Key<kKeySize>&& k,
 
     uint8_t* key_buffer
         = reinterpret_cast<uint8_t*>(sodium_allocarray(n_keys, K));
+    if (key_buffer == nullptr) {
+        throw std::bad_alloc(); /* LCOV_EXCL_LINE */
+    }
+    // the buffer is erased and released on every exit path
+    std::unique_ptr<uint8_t, void (*)(void*)> buffer_owner(key_buffer,
+                                                           sodium_free);
 
     derive(std::move(k), key_offset * K, n_keys * K, key_buffer);
 
@@ -515,8 +525,6 @@ std::vector<Key<K>> Prg::derive_keys(Key<kKeySize>&& k,
         derived_keys.push_back(Key<K>(key_buffer + i * K));
     }
 
-    sodium_free(key_buffer);
-
     return derived_keys;
 }
 
-- 
2.43.0


From 5d4110ea07fac2833c0f3c93721625c48f2e1e73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:14:21 +0000
Subject: [PATCH 13/28] fix: a failed Prp construction leaves the caller's key
 protected

---
 src/prp.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/prp.cpp b/src/prp.cpp
index b1ce4ae..8c17ac8 100644
--- a/src/prp.cpp
+++ b/src/prp.cpp
@@ -92,6 +92,7 @@ Key<sizeof(aez_ctx_t)> Prp::init_aez_ctx(Key<kKeySize>&& k)
     auto callback = [&k](uint8_t* key_content) {
         aez_setup(
             k.unlock_get(), 48, reinterpret_cast<aez_ctx_t*>(key_content));
+        k.lock();
     };
 
     auto key = Key<Prp::kContextSize>(callback);
-- 
2.43.0


From bfa1327d82632143085cdf08d2bd84a8bbccbfd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:16:22 +0000
Subject: [PATCH 14/28] fix: temporary heap buffers are released when a call
 fails

---
 src/cipher.cpp                    | 4 ++--
 src/include/sse/crypto/hmac.hpp   | 3 ++-
 src/include/sse/crypto/prf.hpp    | 3 ++-
 src/include/sse/crypto/random.hpp | 3 ++-
 src/prg.cpp                       | 9 +++------
 src/prp.cpp                       | 5 +++--
 6 files changed, 14 insertions(+), 13 deletions(-)

diff --git a/src/cipher.cpp b/src/cipher.cpp
index 828e797..41fb15d 100644
--- a/src/cipher.cpp
+++ b/src/cipher.cpp
@@ -23,6 +23,7 @@
 #include "random.hpp"
 
 #include <exception>
+#include <memory>
 #include <vector>
 
 #include <sodium/crypto_aead_chacha20poly1305.h>
@@ -109,14 +110,13 @@ void Cipher::encrypt(const std::string& in, std::string& out)
     size_t         len   = in.size();
     size_t         c_len = ciphertext_length(len);
     unsigned char* data  = new unsigned char[c_len];
+    std::unique_ptr<unsigned char[]> data_owner(data); // released on every exit
 
     encrypt(reinterpret_cast<const unsigned char*>(in.data()), len, data);
     out = std::string(reinterpret_cast<char*>(data), c_len);
 
     // erase the buffer
     sodium_memzero(data, c_len);
-
-    delete[] data;
 }
 
 void Cipher::decrypt(const unsigned char* in,
diff --git a/src/include/sse/crypto/hmac.hpp b/src/include/sse/crypto/hmac.hpp
index 4a4200f..347b8a8 100644
--- a/src/include/sse/crypto/hmac.hpp
+++ b/src/include/sse/crypto/hmac.hpp
@@ -30,6 +30,7 @@
 #include <array>
 #include <iomanip>
 #include <iostream>
+#include <memory>
 #include <string>
 
 #include <sodium/utils.h>
@@ -200,6 +201,7 @@ void HMac<H, N>::hmac(const unsigned char* in,
     size_t           buffer_len = (i_len > kDigestSize) ? i_len : (kDigestSize);
 
     buffer = new uint8_t[buffer_len];
+    std::unique_ptr<uint8_t[]> buffer_owner(buffer); // released on every exit
     uint8_t tmp[tmp_len];
 
     key_.unlock();
@@ -241,7 +243,6 @@ void HMac<H, N>::hmac(const unsigned char* in,
     memcpy(out, buffer, out_len);
 
     sodium_memzero(buffer, buffer_len);
-    delete[] buffer;
 
     sodium_memzero(tmp, tmp_len);
 
diff --git a/src/include/sse/crypto/prf.hpp b/src/include/sse/crypto/prf.hpp
index b8bdbe3..c873ee4 100644
--- a/src/include/sse/crypto/prf.hpp
+++ b/src/include/sse/crypto/prf.hpp
@@ -30,6 +30,7 @@
 
 #include <algorithm>
 #include <array>
+#include <memory>
 #include <string>
 
 namespace sse {
@@ -273,6 +274,7 @@ std::array<uint8_t, NBYTES> Prf<NBYTES>::prf(const unsigned char* in,
 
     if (NBYTES > PrfBase::kDigestSize) {
         unsigned char* tmp = new unsigned char[length + 1];
+        std::unique_ptr<unsigned char[]> tmp_owner(tmp); // released on every exit
         memcpy(tmp, in, length);
 
         uint16_t pos = 0;
@@ -294,7 +296,6 @@ std::array<uint8_t, NBYTES> Prf<NBYTES>::prf(const unsigned char* in,
         }
 
         sodium_memzero(tmp, length + 1);
-        delete[] tmp;
     } else if (NBYTES <= Hash::kDigestSize) {
         // only need one output bloc of PrfBase.
         base_.hmac(in, length, result.data(), result.size());
diff --git a/src/include/sse/crypto/random.hpp b/src/include/sse/crypto/random.hpp
index e53aa88..015587c 100644
--- a/src/include/sse/crypto/random.hpp
+++ b/src/include/sse/crypto/random.hpp
@@ -27,6 +27,7 @@
 #pragma once
 
 #include <array>
+#include <memory>
 #include <string>
 
 namespace sse {
@@ -83,10 +84,10 @@ inline std::array<T, N> random_bytes() noexcept
 inline std::string random_string(const size_t length)
 {
     uint8_t* tmp = new uint8_t[length];
+    std::unique_ptr<uint8_t[]> tmp_owner(tmp); // released on every exit
     random_bytes(length, tmp);
 
     std::string out(reinterpret_cast<char*>(tmp), length);
-    delete[] tmp;
 
     return out;
 }
diff --git a/src/prg.cpp b/src/prg.cpp
index 78d12bf..18e923a 100644
--- a/src/prg.cpp
+++ b/src/prg.cpp
@@ -107,14 +107,13 @@ static void prg_derivation(const unsigned char* key,
 void Prg::derive(const size_t offset, const size_t len, std::string& out) const
 {
     unsigned char* data = new unsigned char[len];
+    std::unique_ptr<unsigned char[]> data_owner(data); // released on every exit
 
     derive(offset, len, data);
     out = std::string(reinterpret_cast<char*>(data), len);
 
     // erase the buffer
     sodium_memzero(data, len);
-
-    delete[] data;
 }
 
 std::string Prg::derive(const size_t offset, const size_t len) const
@@ -177,14 +176,13 @@ void Prg::derive(Key<kKeySize>&& k,
                  std::string&    out)
 {
     unsigned char* data = new unsigned char[len];
+    std::unique_ptr<unsigned char[]> data_owner(data); // released on every exit
 
     derive(std::move(k), offset, len, data);
     out = std::string(reinterpret_cast<char*>(data), len);
 
     // erase the buffer
     sodium_memzero(data, len);
-
-    delete[] data;
 }
 
 std::string Prg::derive(Key<kKeySize>&& k,
@@ -192,14 +190,13 @@ std::string Prg::derive(Key<kKeySize>&& k,
                         const size_t    len)
 {
     unsigned char* data = new unsigned char[len];
+    std::unique_ptr<unsigned char[]> data_owner(data); // released on every exit
 
     derive(std::move(k), offset, len, data);
     std::string out = std::string(reinterpret_cast<char*>(data), len);
 
     // erase the buffer
     sodium_memzero(data, len);
-
-    delete[] data;
     return out;
 }
 
diff --git a/src/prp.cpp b/src/prp.cpp
index 8c17ac8..5aa68ce 100644
--- a/src/prp.cpp
+++ b/src/prp.cpp
@@ -32,6 +32,7 @@
 #include <array>
 #include <exception>
 #include <iomanip>
+#include <memory>
 
 #include <sodium/runtime.h>
 
@@ -221,12 +222,12 @@ void Prp::encrypt(const std::string& in, std::string& out)
     }
 
     unsigned char* data = new unsigned char[len];
+    std::unique_ptr<unsigned char[]> data_owner(data); // released on every exit
 
     encrypt(reinterpret_cast<const unsigned char*>(in.data()),
             static_cast<unsigned int>(len),
             data);
     out = std::string(reinterpret_cast<char*>(data), len);
-    delete[] data;
 }
 
 void Prp::decrypt(const uint8_t* in, const unsigned int len, uint8_t* out)
@@ -285,13 +286,13 @@ void Prp::decrypt(const std::string& in, std::string& out)
     }
 
     unsigned char* data = new unsigned char[len];
+    std::unique_ptr<unsigned char[]> data_owner(data); // released on every exit
 
     decrypt(reinterpret_cast<const unsigned char*>(in.data()),
             static_cast<unsigned int>(len),
             data);
 
     out = std::string(reinterpret_cast<const char*>(data), len);
-    delete[] data;
 }
 
 void Prp::serialize(uint8_t* out) const
-- 
2.43.0


From 02006014b0e4cd5ec1b845c121bcd0b839e692dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:22:58 +0000
Subject: [PATCH 15/28] fix: temporary copies of keys are erased when a call
 fails

---
 src/cipher.cpp                 | 16 ++++++++++++++--
 src/include/sse/crypto/prf.hpp | 27 ++++++++++++++++++++++++---
 src/prg.cpp                    | 12 +++++++++---
 3 files changed, 47 insertions(+), 8 deletions(-)

diff --git a/src/cipher.cpp b/src/cipher.cpp
index 41fb15d..eb87756 100644
--- a/src/cipher.cpp
+++ b/src/cipher.cpp
@@ -83,7 +83,13 @@ void Cipher::encrypt(const unsigned char* in,
                                              g_hash_personal_);
 
     // re-lock the master key
-    key_.lock();
+    try {
+        key_.lock();
+    } catch (...) {
+        sodium_memzero(chacha_key.data(),
+                       crypto_aead_chacha20poly1305_KEYBYTES);
+        throw;
+    }
 
     // go for encryption with the derived key
     crypto_aead_chacha20poly1305_ietf_encrypt(out + NONCE_SIZE,
@@ -147,7 +153,13 @@ void Cipher::decrypt(const unsigned char* in,
                                              g_hash_personal_);
 
     // re-lock the master key
-    key_.lock();
+    try {
+        key_.lock();
+    } catch (...) {
+        sodium_memzero(chacha_key.data(),
+                       crypto_aead_chacha20poly1305_KEYBYTES);
+        throw;
+    }
 
     // go for decryption with the derived key
     int ret = crypto_aead_chacha20poly1305_ietf_decrypt(out,
diff --git a/src/include/sse/crypto/prf.hpp b/src/include/sse/crypto/prf.hpp
index c873ee4..1bf9b13 100644
--- a/src/include/sse/crypto/prf.hpp
+++ b/src/include/sse/crypto/prf.hpp
@@ -272,6 +272,18 @@ std::array<uint8_t, NBYTES> Prf<NBYTES>::prf(const unsigned char* in,
 
     std::array<uint8_t, NBYTES> result;
 
+    // erases what was already computed if the evaluation fails
+    struct Eraser
+    {
+        std::array<uint8_t, NBYTES>* buffer;
+        ~Eraser()
+        {
+            if (buffer != nullptr) {
+                sodium_memzero(buffer->data(), NBYTES);
+            }
+        }
+    } eraser{&result};
+
     if (NBYTES > PrfBase::kDigestSize) {
         unsigned char* tmp = new unsigned char[length + 1];
         std::unique_ptr<unsigned char[]> tmp_owner(tmp); // released on every exit
@@ -301,6 +313,7 @@ std::array<uint8_t, NBYTES> Prf<NBYTES>::prf(const unsigned char* in,
         base_.hmac(in, length, result.data(), result.size());
     }
 
+    eraser.buffer = nullptr;
 
     return result;
 }
@@ -326,20 +339,28 @@ template<uint16_t NBYTES>
 Key<NBYTES> Prf<NBYTES>::derive_key(const unsigned char* in,
                                     const size_t         length) const
 {
-    return Key<NBYTES>(prf(in, length).data());
+    std::array<uint8_t, NBYTES> buffer = prf(in, length);
+    try {
+        return Key<NBYTES>(buffer.data());
+    } catch (...) {
+        // the key was not created: do not leave its content behind
+        sodium_memzero(buffer.data(), NBYTES);
+        throw;
+    }
 }
 
 template<uint16_t NBYTES>
 Key<NBYTES> Prf<NBYTES>::derive_key(const std::string& s) const
 {
-    return Key<NBYTES>(prf(s).data());
+    return derive_key(reinterpret_cast<const unsigned char*>(s.data()),
+                      s.length());
 }
 
 template<uint16_t NBYTES>
 template<size_t L>
 Key<NBYTES> Prf<NBYTES>::derive_key(const std::array<uint8_t, L>& in) const
 {
-    return Key<NBYTES>(prf(in).data());
+    return derive_key(reinterpret_cast<const unsigned char*>(in.data()), L);
 }
 
 
diff --git a/src/prg.cpp b/src/prg.cpp
index 18e923a..d35074c 100644
--- a/src/prg.cpp
+++ b/src/prg.cpp
@@ -205,9 +205,15 @@ Prg Prg::duplicate() const
     std::array<uint8_t, kKeySize> buffer;
 
     memcpy(buffer.data(), key_.unlock_get(), kKeySize);
-    key_.lock();
-
-    return Prg(Key<kKeySize>(buffer.data()));
+    try {
+        key_.lock();
+
+        return Prg(Key<kKeySize>(buffer.data()));
+    } catch (...) {
+        // do not leave a copy of the key behind
+        sodium_memzero(buffer.data(), kKeySize);
+        throw;
+    }
 }
 
 void Prg::serialize(uint8_t* out) const
-- 
2.43.0


From adfa20c5f28a805c98cd9872d0dd5c3b764ca691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:41:22 +0000
Subject: [PATCH 16/28] fix: TdpMultPool of size 1 and pool evaluation of order
 0 stay within the key array

---
 src/tdp_impl/tdp_impl_mbedtls.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/tdp_impl/tdp_impl_mbedtls.cpp b/src/tdp_impl/tdp_impl_mbedtls.cpp
index bfca8af..3690c87 100644
--- a/src/tdp_impl/tdp_impl_mbedtls.cpp
+++ b/src/tdp_impl/tdp_impl_mbedtls.cpp
@@ -721,6 +721,12 @@ TdpMultPoolImpl_mbedTLS::TdpMultPoolImpl_mbedTLS(const std::string& sk,
             "Invalid Multiple TDP pool input size. Pool size should be > 0.");
     }
 
+    if (size == 1) {
+        // only the regular evaluation is supported: no additional key needed
+        keys_ = nullptr;
+        return;
+    }
+
     keys_ = new mbedtls_rsa_context[keys_count_];
 
     mbedtls_rsa_init(keys_, 0, 0);
@@ -818,7 +824,7 @@ TdpMultPoolImpl_mbedTLS::eval_pool(
         // regular eval
         key = &rsa_key_;
 
-    } else if (order <= maximum_order()) {
+    } else if (order > 0 && order <= maximum_order()) {
         // get the right RSA context, i.e. the one in keys_[order-1]
         key = &keys_[order - 2];
     } else {
-- 
2.43.0


From 8fb5be8ce0885950a748333b674018ecf1a8c3ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:42:04 +0000
Subject: [PATCH 17/28] fix: TdpMultPool computes its exponents from the
 exponent of its key

---
 src/tdp_impl/tdp_impl_mbedtls.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tdp_impl/tdp_impl_mbedtls.cpp b/src/tdp_impl/tdp_impl_mbedtls.cpp
index 3690c87..f2a6460 100644
--- a/src/tdp_impl/tdp_impl_mbedtls.cpp
+++ b/src/tdp_impl/tdp_impl_mbedtls.cpp
@@ -732,7 +732,7 @@ TdpMultPoolImpl_mbedTLS::TdpMultPoolImpl_mbedTLS(const std::string& sk,
     mbedtls_rsa_init(keys_, 0, 0);
     mbedtls_rsa_copy(keys_, &rsa_key_);
 
-    mbedtls_mpi_mul_int(&keys_[0].E, &keys_[0].E, RSA_PK);
+    mbedtls_mpi_mul_mpi(&keys_[0].E, &keys_[0].E, &rsa_key_.E);
 
     if (mbedtls_rsa_check_pubkey(&keys_[0]) != 0) {
         throw std::runtime_error("Invalid public key generated during the TDP "
@@ -743,7 +743,7 @@ TdpMultPoolImpl_mbedTLS::TdpMultPoolImpl_mbedTLS(const std::string& sk,
         mbedtls_rsa_init(&keys_[i], 0, 0);
         mbedtls_rsa_copy(&keys_[i], &keys_[i - 1]);
 
-        mbedtls_mpi_mul_int(&keys_[i].E, &keys_[i - 1].E, RSA_PK);
+        mbedtls_mpi_mul_mpi(&keys_[i].E, &keys_[i - 1].E, &rsa_key_.E);
 
         if (mbedtls_rsa_check_pubkey(&keys_[i]) != 0) {
             throw std::runtime_error(
-- 
2.43.0


From d1aeed2d4a96fb506831caa7b64a5782ce376bbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:42:46 +0000
Subject: [PATCH 18/28] fix: TdpInverse::invert_mult refuses strings of another
 size

---
 src/tdp_impl/tdp_impl_mbedtls.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/tdp_impl/tdp_impl_mbedtls.cpp b/src/tdp_impl/tdp_impl_mbedtls.cpp
index f2a6460..c974f74 100644
--- a/src/tdp_impl/tdp_impl_mbedtls.cpp
+++ b/src/tdp_impl/tdp_impl_mbedtls.cpp
@@ -700,6 +700,11 @@ void TdpInverseImpl_mbedTLS::invert_mult(const std::string& in,
                                          std::string&       out,
                                          uint32_t           order) const
 {
+    if (in.size() != kMessageSpaceSize) {
+        throw std::invalid_argument("Invalid TDP input size. Input size should "
+                                    "be kMessageSpaceSize bytes long.");
+    }
+
     std::array<uint8_t, kMessageSpaceSize> in_array;
 
     memcpy(in_array.data(), in.data(), kMessageSpaceSize);
-- 
2.43.0


From 1d92525f6d62b87003e01f8af45a1675db720eb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:43:28 +0000
Subject: [PATCH 19/28] fix: RSA blinding values are dropped when their update
 fails

---
 src/mbedtls/rsa.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/mbedtls/rsa.c b/src/mbedtls/rsa.c
index c14a661..49a0ab5 100644
--- a/src/mbedtls/rsa.c
+++ b/src/mbedtls/rsa.c
@@ -350,6 +350,12 @@ static int rsa_prepare_blinding( mbedtls_rsa_context *ctx,
 
 
 cleanup:
+    if( ret != 0 )
+    {
+        /* The blinding values do not match any more: generate new ones next time */
+        mbedtls_mpi_free( &ctx->Vi );
+        mbedtls_mpi_free( &ctx->Vf );
+    }
     return( ret );
 }
 
-- 
2.43.0


From 060288370d4a21b552528c74ff903cbab61e4465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:44:41 +0000
Subject: [PATCH 20/28] fix: TdpMultPool construction reports failures and
 releases its keys

---
 src/tdp_impl/tdp_impl_mbedtls.cpp | 65 +++++++++++++++++++------------
 src/tdp_impl/tdp_impl_mbedtls.hpp |  4 ++
 2 files changed, 44 insertions(+), 25 deletions(-)

diff --git a/src/tdp_impl/tdp_impl_mbedtls.cpp b/src/tdp_impl/tdp_impl_mbedtls.cpp
index c974f74..3294c70 100644
--- a/src/tdp_impl/tdp_impl_mbedtls.cpp
+++ b/src/tdp_impl/tdp_impl_mbedtls.cpp
@@ -717,38 +717,51 @@ void TdpInverseImpl_mbedTLS::invert_mult(const std::string& in,
 }
 
 
-TdpMultPoolImpl_mbedTLS::TdpMultPoolImpl_mbedTLS(const std::string& sk,
-                                                 const uint8_t      size)
-    : TdpImpl_mbedTLS(sk), keys_count_(size - 1)
+TdpMultPoolImpl_mbedTLS::TdpMultPoolImpl_mbedTLS(const TdpImpl_mbedTLS& tdp)
+    : TdpImpl_mbedTLS(tdp), keys_(nullptr), keys_count_(0)
 {
-    if (size == 0) {
-        throw std::invalid_argument(
-            "Invalid Multiple TDP pool input size. Pool size should be > 0.");
-    }
+}
 
-    if (size == 1) {
+void TdpMultPoolImpl_mbedTLS::allocate_keys(const uint8_t count)
+{
+    if (count == 0) {
         // only the regular evaluation is supported: no additional key needed
-        keys_ = nullptr;
         return;
     }
 
-    keys_ = new mbedtls_rsa_context[keys_count_];
+    keys_       = new mbedtls_rsa_context[count];
+    keys_count_ = count;
 
-    mbedtls_rsa_init(keys_, 0, 0);
-    mbedtls_rsa_copy(keys_, &rsa_key_);
+    for (uint8_t i = 0; i < keys_count_; i++) {
+        mbedtls_rsa_init(&keys_[i], 0, 0);
+    }
+}
 
-    mbedtls_mpi_mul_mpi(&keys_[0].E, &keys_[0].E, &rsa_key_.E);
+// Delegate the initialization, so that the destructor releases the keys if the
+// construction fails
 
-    if (mbedtls_rsa_check_pubkey(&keys_[0]) != 0) {
-        throw std::runtime_error("Invalid public key generated during the TDP "
-                                 "pool initialization"); /* LCOV_EXCL_LINE */
+TdpMultPoolImpl_mbedTLS::TdpMultPoolImpl_mbedTLS(const std::string& sk,
+                                                 const uint8_t      size)
+    : TdpMultPoolImpl_mbedTLS(TdpImpl_mbedTLS(sk))
+{
+    if (size == 0) {
+        throw std::invalid_argument(
+            "Invalid Multiple TDP pool input size. Pool size should be > 0.");
     }
 
-    for (uint8_t i = 1; i < keys_count_; i++) {
-        mbedtls_rsa_init(&keys_[i], 0, 0);
-        mbedtls_rsa_copy(&keys_[i], &keys_[i - 1]);
+    allocate_keys(size - 1);
+
+    for (uint8_t i = 0; i < keys_count_; i++) {
+        const mbedtls_rsa_context* previous
+            = (i == 0) ? &rsa_key_ : &keys_[i - 1];
 
-        mbedtls_mpi_mul_mpi(&keys_[i].E, &keys_[i - 1].E, &rsa_key_.E);
+        if (mbedtls_rsa_copy(&keys_[i], previous) != 0
+            || mbedtls_mpi_mul_mpi(&keys_[i].E, &previous->E, &rsa_key_.E)
+                   != 0) {
+            throw std::runtime_error(
+                "Error when computing the keys of the TDP "
+                "pool"); /* LCOV_EXCL_LINE */
+        }
 
         if (mbedtls_rsa_check_pubkey(&keys_[i]) != 0) {
             throw std::runtime_error(
@@ -760,14 +773,16 @@ TdpMultPoolImpl_mbedTLS::TdpMultPoolImpl_mbedTLS(const std::string& sk,
 
 TdpMultPoolImpl_mbedTLS::TdpMultPoolImpl_mbedTLS(
     const TdpMultPoolImpl_mbedTLS& pool_impl)
-    : TdpImpl_mbedTLS(pool_impl), keys_count_(pool_impl.keys_count_)
+    : TdpMultPoolImpl_mbedTLS(static_cast<const TdpImpl_mbedTLS&>(pool_impl))
 {
-    keys_ = new mbedtls_rsa_context[keys_count_];
+    allocate_keys(pool_impl.keys_count_);
 
     for (uint8_t i = 0; i < keys_count_; i++) {
-        mbedtls_rsa_init(&keys_[i], 0, 0);
-
-        mbedtls_rsa_copy(&keys_[i], &pool_impl.keys_[i]);
+        if (mbedtls_rsa_copy(&keys_[i], &pool_impl.keys_[i]) != 0) {
+            throw std::runtime_error(
+                "Error when copying the keys of a TDP pool"); /* LCOV_EXCL_LINE
+                                                               */
+        }
 
 
         if (mbedtls_rsa_check_pubkey(&keys_[i]) != 0) {
diff --git a/src/tdp_impl/tdp_impl_mbedtls.hpp b/src/tdp_impl/tdp_impl_mbedtls.hpp
index fb00270..fc1286a 100644
--- a/src/tdp_impl/tdp_impl_mbedtls.hpp
+++ b/src/tdp_impl/tdp_impl_mbedtls.hpp
@@ -132,6 +132,10 @@ public:
     std::unique_ptr<TdpMultPoolImpl> duplicate_pool() const override;
 
 private:
+    explicit TdpMultPoolImpl_mbedTLS(const TdpImpl_mbedTLS& tdp);
+
+    void allocate_keys(const uint8_t count);
+
     mbedtls_rsa_context* keys_;
 
     uint8_t keys_count_;
-- 
2.43.0


From b0fa8e43f540870a03067c0ac6b301f3b74da06b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:52:14 +0000
Subject: [PATCH 21/28] fix: copies of a private TDP key made for its export,
 import and wrapping are erased

---
 src/include/sse/crypto/tdp.hpp    |  7 ++++++-
 src/mbedtls/pem.c                 |  7 ++++++-
 src/mbedtls/rsa_io.c              | 23 +++++++++++++++--------
 src/tdp.cpp                       | 18 ++++++++++++++++--
 src/tdp_impl/tdp_impl_mbedtls.cpp | 11 +++++++++++
 5 files changed, 54 insertions(+), 12 deletions(-)

diff --git a/src/include/sse/crypto/tdp.hpp b/src/include/sse/crypto/tdp.hpp
index fdb2f6b..36de742 100644
--- a/src/include/sse/crypto/tdp.hpp
+++ b/src/include/sse/crypto/tdp.hpp
@@ -31,6 +31,8 @@
 #include <memory>
 #include <string>
 
+#include <sodium/utils.h>
+
 namespace sse {
 namespace crypto {
 
@@ -586,7 +588,10 @@ private:
     ///
     size_t serialized_size() const
     {
-        return private_key().size();
+        std::string  sk   = private_key();
+        const size_t size = sk.size();
+        sodium_memzero(&sk[0], size);
+        return size;
     }
 
     /// @brief Serialize the object in the given buffer
diff --git a/src/mbedtls/pem.c b/src/mbedtls/pem.c
index 69d0210..c2f833e 100644
--- a/src/mbedtls/pem.c
+++ b/src/mbedtls/pem.c
@@ -123,6 +123,8 @@ int mbedtls_pem_read_buffer( mbedtls_pem_context *ctx, const char *header, const
 
 void mbedtls_pem_free( mbedtls_pem_context *ctx )
 {
+    if( ctx->buf != NULL )
+        mbedtls_zeroize( ctx->buf, ctx->buflen );
     mbedtls_free( ctx->buf );
     mbedtls_free( ctx->info );
 
@@ -137,7 +139,7 @@ int mbedtls_pem_write_buffer( const char *header, const char *footer,
 {
     int ret;
     unsigned char *encode_buf, *c, *p = buf;
-    size_t len = 0, use_len, add_len = 0;
+    size_t len = 0, use_len, add_len = 0, encode_len;
 
     mbedtls_base64_encode( NULL, 0, &use_len, der_data, der_len );
     add_len = strlen( header ) + strlen( footer ) + ( use_len / 64 ) + 1;
@@ -151,6 +153,8 @@ int mbedtls_pem_write_buffer( const char *header, const char *footer,
     if( ( encode_buf = mbedtls_calloc( 1, use_len ) ) == NULL )
         return( MBEDTLS_ERR_PEM_ALLOC_FAILED ); /* LCOV_EXCL_LINE */
 
+    encode_len = use_len;
+
     if( ( ret = mbedtls_base64_encode( encode_buf, use_len, &use_len, der_data,
                                der_len ) ) != 0 )
     {
@@ -178,6 +182,7 @@ int mbedtls_pem_write_buffer( const char *header, const char *footer,
     *p++ = '\0';
     *olen = p - buf;
 
+    mbedtls_zeroize( encode_buf, encode_len );
     mbedtls_free( encode_buf );
     return( 0 );
 }
diff --git a/src/mbedtls/rsa_io.c b/src/mbedtls/rsa_io.c
index 43549db..a788561 100644
--- a/src/mbedtls/rsa_io.c
+++ b/src/mbedtls/rsa_io.c
@@ -34,6 +34,11 @@
 #pragma GCC diagnostic ignored "-Wsign-conversion"
 
 
+/* Implementation that should never be optimized out by the compiler */
+static void mbedtls_zeroize( void *v, size_t n ) {
+    volatile unsigned char *p = v; while( n-- ) *p++ = 0;
+}
+
 int mbedtls_rsa_parse_public_key( mbedtls_rsa_context *rsa_ctx,
                                  const unsigned char *key, size_t keylen )
 {
@@ -237,19 +242,21 @@ int mbedtls_rsa_write_key_pem( mbedtls_rsa_context *key, unsigned char *buf, siz
     size_t olen = 0;
     
     if( ( ret = mbedtls_rsa_write_key_der( key, output_buf, sizeof(output_buf) ) ) < 0 )
+    {
+        mbedtls_zeroize( output_buf, sizeof(output_buf) );
         return( ret );
+    }
     
     begin = PEM_BEGIN_PRIVATE_KEY_RSA;
     end = PEM_END_PRIVATE_KEY_RSA;
     
-    if( ( ret = mbedtls_pem_write_buffer( begin, end,
-                                         output_buf + sizeof(output_buf) - ret,
-                                         ret, buf, size, &olen ) ) != 0 )
-    {
-        return( ret );
-    }
-    
-    return( 0 );
+    ret = mbedtls_pem_write_buffer( begin, end,
+                                   output_buf + sizeof(output_buf) - ret,
+                                   ret, buf, size, &olen );
+
+    mbedtls_zeroize( output_buf, sizeof(output_buf) );
+
+    return( ret );
 }
 
 #pragma GCC diagnostic pop
diff --git a/src/tdp.cpp b/src/tdp.cpp
index 3fe408c..c64cb7b 100644
--- a/src/tdp.cpp
+++ b/src/tdp.cpp
@@ -31,6 +31,8 @@
 #include <iomanip>
 #include <iostream>
 
+#include <sodium/utils.h>
+
 #define SSE_CRYPTO_TDP_IMPL_MBEDTLS 1
 #define SSE_CRYPTO_TDP_IMPL_OPENSSL 2
 
@@ -285,9 +287,20 @@ std::array<uint8_t, TdpInverse::kMessageSize> TdpInverse::invert_mult(
 }
 
 
+// Erases a string holding a private key when going out of scope
+struct StringEraser
+{
+    std::string& s_;
+    ~StringEraser()
+    {
+        sodium_memzero(&s_[0], s_.size());
+    }
+};
+
 void TdpInverse::serialize(uint8_t* out) const
 {
-    std::string sk = private_key();
+    std::string  sk = private_key();
+    StringEraser eraser{sk};
     // NOLINTNEXTLINE(bugprone-not-null-terminated-result)
     memcpy(out, sk.data(), sk.size());
 }
@@ -318,7 +331,8 @@ TdpInverse TdpInverse::deserialize(uint8_t*     in,
     std::string sk(
         reinterpret_cast<const char*>(in),
         reinterpret_cast<const char*>(suffix_start + kKeySuffixSize));
-    TdpInverse result(sk);
+    StringEraser eraser{sk};
+    TdpInverse   result(sk);
 
     if ((n_bytes_read < in_size) && (in[n_bytes_read] == '\n')) {
         n_bytes_read++; // there might be a trailing \n character at the
diff --git a/src/tdp_impl/tdp_impl_mbedtls.cpp b/src/tdp_impl/tdp_impl_mbedtls.cpp
index 3294c70..5e41094 100644
--- a/src/tdp_impl/tdp_impl_mbedtls.cpp
+++ b/src/tdp_impl/tdp_impl_mbedtls.cpp
@@ -452,6 +452,17 @@ std::string TdpInverseImpl_mbedTLS::private_key() const
     int           ret;
     unsigned char buf[5000];
 
+    // erase the buffer, even if an exception is thrown
+    struct Eraser
+    {
+        unsigned char* buf_;
+        size_t         size_;
+        ~Eraser()
+        {
+            sodium_memzero(buf_, size_);
+        }
+    } eraser{buf, sizeof(buf)};
+
     ret = mbedtls_rsa_write_key_pem(&rsa_key_, buf, sizeof(buf));
 
     if (ret != 0) {
-- 
2.43.0


From 464d2a8a2bb905e473cf196e3754e8748a5920c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:00:19 +0000
Subject: [PATCH 22/28] fix: multi-precision temporaries of the TDP are
 released when a call fails

---
 src/tdp_impl/tdp_impl_mbedtls.cpp | 37 +++++++++++++++++++++++--------
 src/tdp_impl/tdp_impl_mbedtls.hpp |  5 +++++
 2 files changed, 33 insertions(+), 9 deletions(-)

diff --git a/src/tdp_impl/tdp_impl_mbedtls.cpp b/src/tdp_impl/tdp_impl_mbedtls.cpp
index 5e41094..29e530f 100644
--- a/src/tdp_impl/tdp_impl_mbedtls.cpp
+++ b/src/tdp_impl/tdp_impl_mbedtls.cpp
@@ -45,6 +45,17 @@ namespace crypto {
 #define RSA_PK 0x10001L // RSA_F4 for OpenSSL
 
 
+// Erases and releases an MPI when going out of scope, also when an exception is
+// thrown
+struct MpiReleaser
+{
+    mbedtls_mpi* x_;
+    ~MpiReleaser()
+    {
+        mbedtls_mpi_free(x_);
+    }
+};
+
 static void zeroize_rsa(mbedtls_rsa_context* rsa)
 {
     mbedtls_mpi_lset(&rsa->N, 0);
@@ -182,6 +193,7 @@ std::array<uint8_t, TdpImpl_mbedTLS::kMessageSpaceSize> TdpImpl_mbedTLS::eval(
     int         ret;
     mbedtls_mpi x;
     mbedtls_mpi_init(&x);
+    MpiReleaser x_releaser{&x};
 
     // deserialize the integer
     ret = mbedtls_mpi_read_binary(&x, in.data(), in.size());
@@ -246,6 +258,7 @@ std::array<uint8_t, TdpImpl_mbedTLS::kMessageSpaceSize> TdpImpl_mbedTLS::
 {
     mbedtls_mpi x;
     mbedtls_mpi_init(&x);
+    MpiReleaser x_releaser{&x};
     std::array<uint8_t, kMessageSpaceSize> out;
     std::fill(out.begin(), out.end(), 0);
 
@@ -294,6 +307,7 @@ std::array<uint8_t, TdpImpl_mbedTLS::kMessageSpaceSize> TdpImpl_mbedTLS::
 
     mbedtls_mpi x;
     mbedtls_mpi_init(&x);
+    MpiReleaser x_releaser{&x};
     std::array<uint8_t, kMessageSpaceSize> out;
     std::fill(out.begin(), out.end(), 0);
 
@@ -351,15 +365,21 @@ std::unique_ptr<TdpImpl> TdpImpl_mbedTLS::duplicate() const
     return std::unique_ptr<TdpImpl>(new TdpImpl_mbedTLS(*this));
 }
 
-TdpInverseImpl_mbedTLS::TdpInverseImpl_mbedTLS()
+// Delegate the initialization, so that the destructor releases the MPIs if the
+// construction fails
+TdpInverseImpl_mbedTLS::TdpInverseImpl_mbedTLS(EmptyKey /*unused*/)
 {
-    int ret;
-
     // initialize the key
     mbedtls_rsa_init(&rsa_key_, 0, 0);
     mbedtls_mpi_init(&phi_);
     mbedtls_mpi_init(&p_1_);
     mbedtls_mpi_init(&q_1_);
+}
+
+TdpInverseImpl_mbedTLS::TdpInverseImpl_mbedTLS()
+    : TdpInverseImpl_mbedTLS(EmptyKey())
+{
+    int ret;
 
     // generate a new random key
     ret = mbedtls_rsa_gen_key(
@@ -393,15 +413,10 @@ TdpInverseImpl_mbedTLS::TdpInverseImpl_mbedTLS()
 }
 
 TdpInverseImpl_mbedTLS::TdpInverseImpl_mbedTLS(const std::string& sk)
+    : TdpInverseImpl_mbedTLS(EmptyKey())
 {
     int ret;
 
-    // initialize the key
-    mbedtls_rsa_init(&rsa_key_, 0, 0);
-    mbedtls_mpi_init(&phi_);
-    mbedtls_mpi_init(&p_1_);
-    mbedtls_mpi_init(&q_1_);
-
     // do not forget the '\0' character
     ret = mbedtls_rsa_parse_key(
         &rsa_key_,
@@ -592,6 +607,9 @@ TdpInverseImpl_mbedTLS::invert_mult(
     mbedtls_mpi_init(&y_p);
     mbedtls_mpi_init(&y_q);
     mbedtls_mpi_init(&y);
+    MpiReleaser releasers[]
+        = {{&x}, {&mpi_order}, {&d_p}, {&d_q}, {&y_p}, {&y_q}, {&y}};
+    (void)releasers;
 
     // deserialize the integer
     ret = mbedtls_mpi_read_binary(&x, in.data(), in.size());
@@ -875,6 +893,7 @@ TdpMultPoolImpl_mbedTLS::eval_pool(
     int         ret;
     mbedtls_mpi x;
     mbedtls_mpi_init(&x);
+    MpiReleaser x_releaser{&x};
 
     // deserialize the integer
     ret = mbedtls_mpi_read_binary(&x, in.data(), in.size());
diff --git a/src/tdp_impl/tdp_impl_mbedtls.hpp b/src/tdp_impl/tdp_impl_mbedtls.hpp
index fc1286a..9e0018a 100644
--- a/src/tdp_impl/tdp_impl_mbedtls.hpp
+++ b/src/tdp_impl/tdp_impl_mbedtls.hpp
@@ -106,6 +106,11 @@ public:
                      uint32_t           order) const override;
 
 private:
+    struct EmptyKey
+    {
+    };
+    explicit TdpInverseImpl_mbedTLS(EmptyKey /*unused*/);
+
     mbedtls_mpi phi_, p_1_, q_1_;
 };
 
-- 
2.43.0


From 3a9f0e2ac3ed80594aea3932a8f00dd03d99be17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:26:55 +0000
Subject: [PATCH 23/28] fix: Prg::derive of zero bytes into a string is
 accepted by every overload

The buffer of an empty vector is NULL, which one of the static overloads refused.
---
 src/prg.cpp | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/src/prg.cpp b/src/prg.cpp
index d35074c..d4f1215 100644
--- a/src/prg.cpp
+++ b/src/prg.cpp
@@ -144,13 +144,7 @@ void Prg::derive(const size_t   offset,
 
 void Prg::derive(Key<kKeySize>&& k, const size_t len, std::string& out)
 {
-    std::vector<uint8_t> data(len);
-
-    derive(std::move(k), 0, len, data.data());
-    out = std::string(reinterpret_cast<const char*>(data.data()), len);
-
-    // erase the buffer
-    sodium_memzero(data.data(), len);
+    derive(std::move(k), 0, len, out);
 }
 
 void Prg::derive(Key<kKeySize>&& k,
-- 
2.43.0


From df0a81039d11d9acb71f752ca461ee839221c56b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:26:55 +0000
Subject: [PATCH 24/28] fix: Prg::derive_keys consumes its key also when no key
 is derived

---
 src/include/sse/crypto/prg.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/include/sse/crypto/prg.hpp b/src/include/sse/crypto/prg.hpp
index fd55739..2696c8c 100644
--- a/src/include/sse/crypto/prg.hpp
+++ b/src/include/sse/crypto/prg.hpp
@@ -490,6 +490,7 @@ std::vector<Key<K>> Prg::derive_keys(Key<kKeySize>&& k,
         throw std::invalid_argument("PRG input key is empty");
     }
     if (n_keys == 0) {
+        k.erase(); // the key is consumed by the call, as always
         return std::vector<Key<K>>(); // return empty vector
     }
     if (n_keys > static_cast<size_t>(0U)
-- 
2.43.0


From 5e88e11bc29655be919800f4bc3a8b68f34b4820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:26:55 +0000
Subject: [PATCH 25/28] fix: the content of an absent key cannot be read, also
 without memory locking

Without memory locking, objects whose key was moved away computed with a NULL key.
---
 src/include/sse/crypto/key.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/include/sse/crypto/key.hpp b/src/include/sse/crypto/key.hpp
index 8ea61b5..fc5689d 100644
--- a/src/include/sse/crypto/key.hpp
+++ b/src/include/sse/crypto/key.hpp
@@ -365,6 +365,9 @@ private:
     ///
     const uint8_t* data() const
     {
+        if (content_ == nullptr) {
+            throw std::runtime_error("Memory is absent");
+        }
         if (is_locked()) {
             throw std::runtime_error("Memory is locked");
         }
-- 
2.43.0


From 6b8effa4241bfb997a73cae29614c86de9a33b3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:29:53 +0000
Subject: [PATCH 26/28] fix: Prf outputs of more than 256 digests do not repeat

The one byte block counter wrapped around after 16384 bytes, and the 16 bits
position made the evaluation of the largest outputs loop forever.
---
 src/include/sse/crypto/prf.hpp | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/include/sse/crypto/prf.hpp b/src/include/sse/crypto/prf.hpp
index 1bf9b13..195d36e 100644
--- a/src/include/sse/crypto/prf.hpp
+++ b/src/include/sse/crypto/prf.hpp
@@ -285,29 +285,35 @@ std::array<uint8_t, NBYTES> Prf<NBYTES>::prf(const unsigned char* in,
     } eraser{&result};
 
     if (NBYTES > PrfBase::kDigestSize) {
-        unsigned char* tmp = new unsigned char[length + 1];
+        // a one byte counter is only enough for the first 256 blocks
+        constexpr size_t kCounterSize
+            = (NBYTES > 256 * PrfBase::kDigestSize) ? 2 : 1;
+        const size_t tmp_len = length + kCounterSize;
+
+        unsigned char* tmp = new unsigned char[tmp_len];
         std::unique_ptr<unsigned char[]> tmp_owner(tmp); // released on every exit
         memcpy(tmp, in, length);
 
-        uint16_t pos = 0;
-        uint8_t  i   = 0;
+        uint32_t pos = 0;
+        uint16_t i   = 0;
         for (; pos < NBYTES; pos += PrfBase::kDigestSize, i++) {
             // use a counter mode
-            tmp[length] = i;
+            tmp[tmp_len - 1] = static_cast<unsigned char>(i >> 8);
+            tmp[length]      = static_cast<unsigned char>(i & 0xFF);
 
             // fill res
             if (static_cast<size_t>(NBYTES - pos) >= PrfBase::kDigestSize) {
                 base_.hmac(
-                    tmp, length + 1, result.data() + pos, PrfBase::kDigestSize);
+                    tmp, tmp_len, result.data() + pos, PrfBase::kDigestSize);
             } else {
                 base_.hmac(tmp,
-                           length + 1,
+                           tmp_len,
                            result.data() + pos,
                            static_cast<size_t>(NBYTES - pos));
             }
         }
 
-        sodium_memzero(tmp, length + 1);
+        sodium_memzero(tmp, tmp_len);
     } else if (NBYTES <= Hash::kDigestSize) {
         // only need one output bloc of PrfBase.
         base_.hmac(in, length, result.data(), result.size());
-- 
2.43.0


From f43bbfce4e90e71d68d481a8ed58b15279f6dea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:17:55 +0000
Subject: [PATCH 27/28] fix: trapdoor keys whose modulus is not
 kMessageSpaceSize bytes long are refused

---
 src/tdp_impl/tdp_impl_mbedtls.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/tdp_impl/tdp_impl_mbedtls.cpp b/src/tdp_impl/tdp_impl_mbedtls.cpp
index 29e530f..ee0df0d 100644
--- a/src/tdp_impl/tdp_impl_mbedtls.cpp
+++ b/src/tdp_impl/tdp_impl_mbedtls.cpp
@@ -98,6 +98,11 @@ TdpImpl_mbedTLS::TdpImpl_mbedTLS(const std::string& pk)
                                  "initialization");
         /* LCOV_EXCL_STOP */
     }
+
+    if (rsa_size() != kMessageSpaceSize) {
+        throw std::runtime_error("Invalid RSA public key: the modulus must be "
+                                 "kMessageSpaceSize bytes long");
+    }
 }
 
 TdpImpl_mbedTLS::TdpImpl_mbedTLS(const TdpImpl_mbedTLS& tdp)
@@ -437,6 +442,11 @@ TdpInverseImpl_mbedTLS::TdpInverseImpl_mbedTLS(const std::string& sk)
             "initialization from existing secret key"); /* LCOV_EXCL_LINE */
     }
 
+    if (rsa_size() != kMessageSpaceSize) {
+        throw std::runtime_error("Invalid RSA private key: the modulus must be "
+                                 "kMessageSpaceSize bytes long");
+    }
+
     if (mbedtls_mpi_sub_int(&p_1_, &rsa_key_.P, 1) != 0) {
         throw std::runtime_error(
             "Failed MPI substraction"); /* LCOV_EXCL_LINE */
-- 
2.43.0


From 8100c8eafde31df172cdecdb0334caf891e29952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:29:01 +0000
Subject: [PATCH 28/28] fix: refuse inverted ranges when restricting an inner
 element of a range-constrained key

---
 src/include/sse/crypto/rcprf.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/include/sse/crypto/rcprf.hpp b/src/include/sse/crypto/rcprf.hpp
index d01a4ba..76db6c4 100644
--- a/src/include/sse/crypto/rcprf.hpp
+++ b/src/include/sse/crypto/rcprf.hpp
@@ -883,6 +883,12 @@ void ConstrainedRCPrfInnerElement<NBYTES>::generate_constrained_subkeys(
     std::vector<std::unique_ptr<ConstrainedRCPrfElement<NBYTES>>>&
         constrained_elements) const
 {
+    if (max < min) {
+        throw std::invalid_argument(
+            "ConstrainedRCPrfInnerElement::generate_constrained_subkeys: "
+            "Invalid range: min is larger than max: max="
+            + std::to_string(max) + ", min=" + std::to_string(min));
+    }
     if (min < this->min_leaf() || max > this->max_leaf()) {
         throw std::out_of_range("ConstrainedRCPrfInnerElement::generate_"
                                 "constrained_subkeys: the input range ("
-- 
2.43.0

