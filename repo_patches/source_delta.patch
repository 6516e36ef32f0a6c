From 54ac51a2109bb097119613fcb52e1e65387a3a71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:59 +0000
Subject: [PATCH 01/20] fix: draw Key() content at random when memory locking
 is disabled

---
 src/include/sse/crypto/key.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/include/sse/crypto/key.hpp b/src/include/sse/crypto/key.hpp
index f284f91..e89f8ed 100644
--- a/src/include/sse/crypto/key.hpp
+++ b/src/include/sse/crypto/key.hpp
@@ -111,9 +111,9 @@ public:
         if (content_ == nullptr) {
             throw std::bad_alloc(); /* LCOV_EXCL_LINE */
         }
-#ifdef ENABLE_MEMORY_LOCK
-
         random_bytes(N, content_);
+
+#ifdef ENABLE_MEMORY_LOCK
         int err = sodium_mprotect_noaccess(content_);
         if (err == -1 && errno != ENOSYS) {
             /* LCOV_EXCL_START */
-- 
2.43.0


From 4bc11b8d0b339b89d2048a212e080faae5510824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:49:07 +0000
Subject: [PATCH 02/20] fix: re-lock the AEZ context after Prp::encrypt

---
 src/prp.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/prp.cpp b/src/prp.cpp
index 4bd0fb2..510d358 100644
--- a/src/prp.cpp
+++ b/src/prp.cpp
@@ -196,6 +196,7 @@ void Prp::encrypt(const uint8_t* in, const unsigned int len, uint8_t* out)
                 reinterpret_cast<const char*>(in),
                 len,
                 reinterpret_cast<char*>(out));
+    aez_ctx_.lock();
 }
 
 void Prp::encrypt(const std::string& in, std::string& out)
-- 
2.43.0


From 112c54e0657de568983565a53c27cdba2090532f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:49:56 +0000
Subject: [PATCH 03/20] fix: do not leave the Prg key unlocked when derive is
 given a NULL buffer

---
 src/prg.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/prg.cpp b/src/prg.cpp
index b1ff2b4..ed78353 100644
--- a/src/prg.cpp
+++ b/src/prg.cpp
@@ -133,6 +133,10 @@ void Prg::derive(const size_t   offset,
     if (len == 0) {
         return;
     }
+    // do this check before unlocking the key
+    if (out == nullptr) {
+        throw std::invalid_argument("out is NULL");
+    }
 
     prg_derivation(key_.unlock_get(), offset, len, out);
     key_.lock();
-- 
2.43.0


From 6e91ab2c46d2055dad730b9a7c36ec1eb2673c2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:49:56 +0000
Subject: [PATCH 04/20] fix: accept empty outputs in Prg::derive(Key&&, len,
 std::string&)

---
 src/prg.cpp | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/src/prg.cpp b/src/prg.cpp
index ed78353..3bc4eae 100644
--- a/src/prg.cpp
+++ b/src/prg.cpp
@@ -144,13 +144,7 @@ void Prg::derive(const size_t   offset,
 
 void Prg::derive(Key<kKeySize>&& k, const size_t len, std::string& out)
 {
-    std::vector<uint8_t> data(len);
-
-    derive(std::move(k), 0, len, data.data());
-    out = std::string(reinterpret_cast<const char*>(data.data()), len);
-
-    // erase the buffer
-    sodium_memzero(data.data(), len);
+    derive(std::move(k), 0, len, out);
 }
 
 void Prg::derive(Key<kKeySize>&& k,
-- 
2.43.0


From a9757b061d0b157f3028b573c2ce8cdaf222e188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:49:56 +0000
Subject: [PATCH 05/20] fix: consume the seed in Prg::derive_keys when no key
 is requested

---
 src/include/sse/crypto/prg.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/include/sse/crypto/prg.hpp b/src/include/sse/crypto/prg.hpp
index 2afa5ca..a17b099 100644
--- a/src/include/sse/crypto/prg.hpp
+++ b/src/include/sse/crypto/prg.hpp
@@ -486,6 +486,7 @@ std::vector<Key<K>> Prg::derive_keys(Key<kKeySize>&& k,
         throw std::invalid_argument("PRG input key is empty");
     }
     if (n_keys == 0) {
+        k.erase();                    // the seed is consumed in any case
         return std::vector<Key<K>>(); // return empty vector
     }
     if (n_keys > static_cast<size_t>(0U)
-- 
2.43.0


From 281c743144f60a4f87ddc42cf7da71fe1c24efcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:49:56 +0000
Subject: [PATCH 06/20] fix: check and always release the secure buffer of
 Prg::derive_keys

---
 src/include/sse/crypto/prg.hpp | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/src/include/sse/crypto/prg.hpp b/src/include/sse/crypto/prg.hpp
index a17b099..e970ce6 100644
--- a/src/include/sse/crypto/prg.hpp
+++ b/src/include/sse/crypto/prg.hpp
@@ -460,19 +460,21 @@ std::vector<Key<K>> Prg::derive_keys(const uint16_t n_keys,
         return std::vector<Key<K>>(); // return empty vector
     }
 
-    uint8_t* key_buffer
-        = reinterpret_cast<uint8_t*>(sodium_allocarray(n_keys, K));
+    std::unique_ptr<uint8_t, decltype(&sodium_free)> key_buffer(
+        reinterpret_cast<uint8_t*>(sodium_allocarray(n_keys, K)), sodium_free);
 
-    this->derive(key_offset * K, n_keys * K, key_buffer);
+    if (key_buffer == nullptr) {
+        throw std::bad_alloc(); /* LCOV_EXCL_LINE */
+    }
+
+    this->derive(key_offset * K, n_keys * K, key_buffer.get());
 
     std::vector<Key<K>> derived_keys;
 
     for (uint16_t i = 0; i < n_keys; i++) {
-        derived_keys.push_back(Key<K>(key_buffer + i * K));
+        derived_keys.push_back(Key<K>(key_buffer.get() + i * K));
     }
 
-    sodium_free(key_buffer);
-
     return derived_keys;
 }
 
@@ -505,19 +507,21 @@ std::vector<Key<K>> Prg::derive_keys(Key<kKeySize>&& k,
     }
 
 
-    uint8_t* key_buffer
-        = reinterpret_cast<uint8_t*>(sodium_allocarray(n_keys, K));
+    std::unique_ptr<uint8_t, decltype(&sodium_free)> key_buffer(
+        reinterpret_cast<uint8_t*>(sodium_allocarray(n_keys, K)), sodium_free);
 
-    derive(std::move(k), key_offset * K, n_keys * K, key_buffer);
+    if (key_buffer == nullptr) {
+        throw std::bad_alloc(); /* LCOV_EXCL_LINE */
+    }
+
+    derive(std::move(k), key_offset * K, n_keys * K, key_buffer.get());
 
     std::vector<Key<K>> derived_keys;
 
     for (uint16_t i = 0; i < n_keys; i++) {
-        derived_keys.push_back(Key<K>(key_buffer + i * K));
+        derived_keys.push_back(Key<K>(key_buffer.get() + i * K));
     }
 
-    sodium_free(key_buffer);
-
     return derived_keys;
 }
 
-- 
2.43.0


From 1b39de3f7368d340d6bbf801e11032a38d86130c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:49:56 +0000
Subject: [PATCH 07/20] fix: check and always release the secure buffer of
 Wrapper::wrap and unwrap

---
 src/include/sse/crypto/wrapper.hpp | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/src/include/sse/crypto/wrapper.hpp b/src/include/sse/crypto/wrapper.hpp
index 576920b..d7ca5c8 100644
--- a/src/include/sse/crypto/wrapper.hpp
+++ b/src/include/sse/crypto/wrapper.hpp
@@ -27,6 +27,8 @@
 #include <algorithm>
 #include <array>
 #include <exception>
+#include <memory>
+#include <new>
 #include <vector>
 
 #include <sodium/crypto_stream_chacha20.h>
@@ -200,7 +202,13 @@ std::vector<uint8_t> Wrapper::wrap(const CryptoClass& c) const
     const size_t buffer_size     = kRandomIVSize + serialized_size
                                + CryptoClass::kPublicContextSize
                                + 1; // the +1 is for the mandatory type byte
-    uint8_t* buffer = static_cast<uint8_t*>(sodium_malloc(buffer_size));
+    std::unique_ptr<uint8_t, decltype(&sodium_free)> buffer_holder(
+        static_cast<uint8_t*>(sodium_malloc(buffer_size)), sodium_free);
+    uint8_t* buffer = buffer_holder.get();
+
+    if (buffer == nullptr) {
+        throw std::bad_alloc(); /* LCOV_EXCL_LINE */
+    }
     // std::array<uint8_t, buffer_size> buffer;
 
     // put the random IV at the beggining
@@ -240,8 +248,6 @@ std::vector<uint8_t> Wrapper::wrap(const CryptoClass& c) const
                                     encryption_key_.unlock_get());
     encryption_key_.lock();
 
-    sodium_free(buffer);
-
     return out;
 }
 
@@ -257,7 +263,13 @@ CryptoClass Wrapper::unwrap(std::vector<uint8_t>& c_rep) const
     const size_t buffer_size = kRandomIVSize + data_size
                                + CryptoClass::kPublicContextSize
                                + 1; // the +1 is for the mandatory type byte
-    uint8_t* buffer = static_cast<uint8_t*>(sodium_malloc(buffer_size));
+    std::unique_ptr<uint8_t, decltype(&sodium_free)> buffer_holder(
+        static_cast<uint8_t*>(sodium_malloc(buffer_size)), sodium_free);
+    uint8_t* buffer = buffer_holder.get();
+
+    if (buffer == nullptr) {
+        throw std::bad_alloc(); /* LCOV_EXCL_LINE */
+    }
     // std::array<uint8_t, buffer_size> buffer;
 
     // copy the IV at the beggining of the buffer
@@ -319,8 +331,7 @@ CryptoClass Wrapper::unwrap(std::vector<uint8_t>& c_rep) const
         /* LCOV_EXCL_STOP */
     }
 
-    // free the buffer and zero the entry
-    sodium_free(buffer);
+    // zero the entry
     sodium_memzero(c_rep.data(), c_rep.size());
 
     return c;
-- 
2.43.0


From 452abf676b436de11bd8005b7725b2309ad460d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:49:56 +0000
Subject: [PATCH 08/20] fix: give RCPrf and ConstrainedRCPrf different wrapping
 type bytes

---
 src/include/sse/crypto/wrapper.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/sse/crypto/wrapper.hpp b/src/include/sse/crypto/wrapper.hpp
index d7ca5c8..ed83ede 100644
--- a/src/include/sse/crypto/wrapper.hpp
+++ b/src/include/sse/crypto/wrapper.hpp
@@ -374,7 +374,7 @@ class RCPrf;
 template<uint16_t NBYTES>
 struct Wrapper::TypeByte<RCPrf<NBYTES>>
 {
-    static constexpr uint8_t value = 0x06;
+    static constexpr uint8_t value = 0x05;
 };
 
 template<uint16_t NBYTES>
-- 
2.43.0


From f16fcfe7de27f54234f2b0b8f0c17887d1fae03f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:49:56 +0000
Subject: [PATCH 09/20] fix: release the secure memory when the construction of
 a Key fails

---
 src/include/sse/crypto/key.hpp | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/include/sse/crypto/key.hpp b/src/include/sse/crypto/key.hpp
index e89f8ed..44d83a9 100644
--- a/src/include/sse/crypto/key.hpp
+++ b/src/include/sse/crypto/key.hpp
@@ -117,8 +117,10 @@ public:
         int err = sodium_mprotect_noaccess(content_);
         if (err == -1 && errno != ENOSYS) {
             /* LCOV_EXCL_START */
+            const int lock_errno = errno;
+            erase();
             throw std::runtime_error("Error when locking memory: "
-                                     + std::string(strerror(errno)));
+                                     + std::string(strerror(lock_errno)));
             /* LCOV_EXCL_STOP */
         }
         is_locked_ = true;
@@ -156,8 +158,10 @@ public:
         int err = sodium_mprotect_noaccess(content_);
         if (err == -1 && errno != ENOSYS) {
             /* LCOV_EXCL_START */
+            const int lock_errno = errno;
+            erase();
             throw std::runtime_error("Error when locking memory: "
-                                     + std::string(strerror(errno)));
+                                     + std::string(strerror(lock_errno)));
             /* LCOV_EXCL_STOP */
         }
         is_locked_ = true;
@@ -260,14 +264,21 @@ private:
             throw std::bad_alloc(); /* LCOV_EXCL_LINE */
         }
 
-        init_callback(content_); // use the callback to fill the key
+        try {
+            init_callback(content_); // use the callback to fill the key
+        } catch (...) {
+            erase();
+            throw;
+        }
 
 #ifdef ENABLE_MEMORY_LOCK
         int err = sodium_mprotect_noaccess(content_);
         if (err == -1 && errno != ENOSYS) {
             /* LCOV_EXCL_START */
+            const int lock_errno = errno;
+            erase();
             throw std::runtime_error("Error when locking memory: "
-                                     + std::string(strerror(errno)));
+                                     + std::string(strerror(lock_errno)));
             /* LCOV_EXCL_STOP */
         }
         is_locked_ = true;
-- 
2.43.0


From a8be698eb6471a9d8dc426d3e600ce9ba3b712fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:51:07 +0000
Subject: [PATCH 10/20] fix: reject the leaves outside of the tree in
 RCPrf::eval and eval_range

---
 src/include/sse/crypto/rcprf.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/include/sse/crypto/rcprf.hpp b/src/include/sse/crypto/rcprf.hpp
index 0ccbcab..759138e 100644
--- a/src/include/sse/crypto/rcprf.hpp
+++ b/src/include/sse/crypto/rcprf.hpp
@@ -1938,8 +1938,8 @@ private:
 template<uint16_t NBYTES>
 std::array<uint8_t, NBYTES> RCPrf<NBYTES>::eval(uint64_t leaf) const
 {
-    if (leaf >> this->tree_height() != 0) {
-        throw std::out_of_range("Invalid node index: leaf > 2^height -1.");
+    if (leaf > RCPrfParams::max_leaf_index(this->tree_height())) {
+        throw std::out_of_range("Invalid node index: leaf > 2^(height-1) -1.");
     }
 
     return static_cast<const RCPrf<NBYTES>*>(this)
@@ -1951,8 +1951,8 @@ void RCPrf<NBYTES>::eval_range(uint64_t             min,
                                uint64_t             max,
                                const callback_type& callback) const
 {
-    if (max >> this->tree_height() != 0) {
-        throw std::out_of_range("Invalid max index: max > 2^height -1.");
+    if (max > RCPrfParams::max_leaf_index(this->tree_height())) {
+        throw std::out_of_range("Invalid max index: max > 2^(height-1) -1.");
     }
     if (max < min) {
         throw std::invalid_argument(
-- 
2.43.0


From 3d8a24e11771285c5392ba225af56801beb431a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:51:07 +0000
Subject: [PATCH 11/20] fix: evaluate the RCPrf of height 1

---
 src/include/sse/crypto/rcprf.hpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/include/sse/crypto/rcprf.hpp b/src/include/sse/crypto/rcprf.hpp
index 759138e..643ad11 100644
--- a/src/include/sse/crypto/rcprf.hpp
+++ b/src/include/sse/crypto/rcprf.hpp
@@ -1942,6 +1942,13 @@ std::array<uint8_t, NBYTES> RCPrf<NBYTES>::eval(uint64_t leaf) const
         throw std::out_of_range("Invalid node index: leaf > 2^(height-1) -1.");
     }
 
+    if (this->tree_height() == 1) {
+        // the root is the only leaf
+        std::array<uint8_t, NBYTES> result;
+        root_prg_.derive(0, NBYTES, result.data());
+        return result;
+    }
+
     return static_cast<const RCPrf<NBYTES>*>(this)
         ->RCPrfBase<NBYTES>::derive_leaf(root_prg_, 0, leaf);
 }
@@ -1959,6 +1966,12 @@ void RCPrf<NBYTES>::eval_range(uint64_t             min,
             "Invalid range: min is larger than max: max=" + std::to_string(max)
             + ", min=" + std::to_string(min));
     }
+    if (this->tree_height() == 1) {
+        // the root is the only leaf
+        callback(0, eval(0));
+        return;
+    }
+
     return static_cast<const RCPrf<NBYTES>*>(this)
         ->RCPrfBase<NBYTES>::derive_leaf_range(
             root_prg_, 0, 0, min, max, callback);
-- 
2.43.0


From b9ca061c8f378111966b780c8bd931e8da7583dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:51:07 +0000
Subject: [PATCH 12/20] fix: throw when accessing the data of an empty Key
 without memory locking

---
 src/include/sse/crypto/key.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/include/sse/crypto/key.hpp b/src/include/sse/crypto/key.hpp
index 44d83a9..467896a 100644
--- a/src/include/sse/crypto/key.hpp
+++ b/src/include/sse/crypto/key.hpp
@@ -367,6 +367,9 @@ private:
     ///
     const uint8_t* data() const
     {
+        if (content_ == nullptr) {
+            throw std::runtime_error("Memory is absent");
+        }
         if (is_locked()) {
             throw std::runtime_error("Memory is locked");
         }
-- 
2.43.0


From 81765ce245b9c53084b2e04919c9b9eeaf919204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:51:07 +0000
Subject: [PATCH 13/20] fix: do not repeat the blocks of Prf outputs larger
 than 16384 bytes

---
 src/include/sse/crypto/prf.hpp | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/include/sse/crypto/prf.hpp b/src/include/sse/crypto/prf.hpp
index b8bdbe3..7da0abf 100644
--- a/src/include/sse/crypto/prf.hpp
+++ b/src/include/sse/crypto/prf.hpp
@@ -272,28 +272,34 @@ std::array<uint8_t, NBYTES> Prf<NBYTES>::prf(const unsigned char* in,
     std::array<uint8_t, NBYTES> result;
 
     if (NBYTES > PrfBase::kDigestSize) {
-        unsigned char* tmp = new unsigned char[length + 1];
+        // one byte is not enough to count more than 256 blocks
+        constexpr size_t kCounterSize
+            = (NBYTES > 256 * PrfBase::kDigestSize) ? 2 : 1;
+        const size_t   tmp_length = length + kCounterSize;
+        unsigned char* tmp        = new unsigned char[tmp_length];
         memcpy(tmp, in, length);
 
-        uint16_t pos = 0;
-        uint8_t  i   = 0;
+        size_t   pos = 0;
+        uint16_t i   = 0;
         for (; pos < NBYTES; pos += PrfBase::kDigestSize, i++) {
             // use a counter mode
-            tmp[length] = i;
+            tmp[length] = static_cast<unsigned char>(i & 0xFF);
+            tmp[tmp_length - 1]
+                = static_cast<unsigned char>(i >> (8 * (kCounterSize - 1)));
 
             // fill res
             if (static_cast<size_t>(NBYTES - pos) >= PrfBase::kDigestSize) {
                 base_.hmac(
-                    tmp, length + 1, result.data() + pos, PrfBase::kDigestSize);
+                    tmp, tmp_length, result.data() + pos, PrfBase::kDigestSize);
             } else {
                 base_.hmac(tmp,
-                           length + 1,
+                           tmp_length,
                            result.data() + pos,
                            static_cast<size_t>(NBYTES - pos));
             }
         }
 
-        sodium_memzero(tmp, length + 1);
+        sodium_memzero(tmp, tmp_length);
         delete[] tmp;
     } else if (NBYTES <= Hash::kDigestSize) {
         // only need one output bloc of PrfBase.
-- 
2.43.0


From be117b775777304c129d47f9c777f34ea189c009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:51:07 +0000
Subject: [PATCH 14/20] fix: check the TDP input size against the buffer it is
 copied to

---
 src/tdp_impl/tdp_impl_mbedtls.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tdp_impl/tdp_impl_mbedtls.cpp b/src/tdp_impl/tdp_impl_mbedtls.cpp
index bfca8af..61f7a3a 100644
--- a/src/tdp_impl/tdp_impl_mbedtls.cpp
+++ b/src/tdp_impl/tdp_impl_mbedtls.cpp
@@ -148,7 +148,7 @@ std::string TdpImpl_mbedTLS::public_key() const
 
 void TdpImpl_mbedTLS::eval(const std::string& in, std::string& out) const
 {
-    if (in.size() != rsa_size()) {
+    if (in.size() != rsa_size() || in.size() != kMessageSpaceSize) {
         throw std::invalid_argument("Invalid TDP input size. Input size should "
                                     "be kMessageSpaceSize bytes long.");
     }
@@ -890,7 +890,7 @@ void TdpMultPoolImpl_mbedTLS::eval_pool(const std::string& in,
                                         std::string&       out,
                                         const uint8_t      order) const
 {
-    if (in.size() != rsa_size()) {
+    if (in.size() != rsa_size() || in.size() != kMessageSpaceSize) {
         throw std::invalid_argument("Invalid TDP input size. Input size should "
                                     "be kMessageSpaceSize bytes long.");
     }
-- 
2.43.0


From 3b97bdca48fb82f0db2090add9777b24c67685c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:51:07 +0000
Subject: [PATCH 15/20] fix: check the input size in TdpInverse::invert_mult

---
 src/tdp_impl/tdp_impl_mbedtls.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/tdp_impl/tdp_impl_mbedtls.cpp b/src/tdp_impl/tdp_impl_mbedtls.cpp
index 61f7a3a..c619505 100644
--- a/src/tdp_impl/tdp_impl_mbedtls.cpp
+++ b/src/tdp_impl/tdp_impl_mbedtls.cpp
@@ -700,6 +700,11 @@ void TdpInverseImpl_mbedTLS::invert_mult(const std::string& in,
                                          std::string&       out,
                                          uint32_t           order) const
 {
+    if (in.size() != kMessageSpaceSize) {
+        throw std::invalid_argument("Invalid TDP input size. Input size should "
+                                    "be kMessageSpaceSize bytes long.");
+    }
+
     std::array<uint8_t, kMessageSpaceSize> in_array;
 
     memcpy(in_array.data(), in.data(), kMessageSpaceSize);
-- 
2.43.0


From f66c5eadf992561160f309d1622c8268f2601569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:51:07 +0000
Subject: [PATCH 16/20] fix: reject order 0 in TdpMultPool::eval

---
 src/tdp_impl/tdp_impl_mbedtls.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tdp_impl/tdp_impl_mbedtls.cpp b/src/tdp_impl/tdp_impl_mbedtls.cpp
index c619505..8b613d9 100644
--- a/src/tdp_impl/tdp_impl_mbedtls.cpp
+++ b/src/tdp_impl/tdp_impl_mbedtls.cpp
@@ -823,7 +823,7 @@ TdpMultPoolImpl_mbedTLS::eval_pool(
         // regular eval
         key = &rsa_key_;
 
-    } else if (order <= maximum_order()) {
+    } else if (order > 1 && order <= maximum_order()) {
         // get the right RSA context, i.e. the one in keys_[order-1]
         key = &keys_[order - 2];
     } else {
-- 
2.43.0


From 06bf8f9483485a94b44380dd09e4ab5d6cd90fd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:51:07 +0000
Subject: [PATCH 17/20] fix: heap overflow when creating a TdpMultPool of size
 1

---
 src/tdp_impl/tdp_impl_mbedtls.cpp | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/src/tdp_impl/tdp_impl_mbedtls.cpp b/src/tdp_impl/tdp_impl_mbedtls.cpp
index 8b613d9..7155063 100644
--- a/src/tdp_impl/tdp_impl_mbedtls.cpp
+++ b/src/tdp_impl/tdp_impl_mbedtls.cpp
@@ -728,21 +728,13 @@ TdpMultPoolImpl_mbedTLS::TdpMultPoolImpl_mbedTLS(const std::string& sk,
 
     keys_ = new mbedtls_rsa_context[keys_count_];
 
-    mbedtls_rsa_init(keys_, 0, 0);
-    mbedtls_rsa_copy(keys_, &rsa_key_);
-
-    mbedtls_mpi_mul_int(&keys_[0].E, &keys_[0].E, RSA_PK);
-
-    if (mbedtls_rsa_check_pubkey(&keys_[0]) != 0) {
-        throw std::runtime_error("Invalid public key generated during the TDP "
-                                 "pool initialization"); /* LCOV_EXCL_LINE */
-    }
+    for (uint8_t i = 0; i < keys_count_; i++) {
+        mbedtls_rsa_context* previous = (i == 0) ? &rsa_key_ : &keys_[i - 1];
 
-    for (uint8_t i = 1; i < keys_count_; i++) {
         mbedtls_rsa_init(&keys_[i], 0, 0);
-        mbedtls_rsa_copy(&keys_[i], &keys_[i - 1]);
+        mbedtls_rsa_copy(&keys_[i], previous);
 
-        mbedtls_mpi_mul_int(&keys_[i].E, &keys_[i - 1].E, RSA_PK);
+        mbedtls_mpi_mul_int(&keys_[i].E, &previous->E, RSA_PK);
 
         if (mbedtls_rsa_check_pubkey(&keys_[i]) != 0) {
             throw std::runtime_error(
-- 
2.43.0


From f726b1114803a549c326e1db15392573760c5f34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:51:07 +0000
Subject: [PATCH 18/20] fix: use the public exponent of the key in TdpMultPool

---
 src/tdp_impl/tdp_impl_mbedtls.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tdp_impl/tdp_impl_mbedtls.cpp b/src/tdp_impl/tdp_impl_mbedtls.cpp
index 7155063..137aad1 100644
--- a/src/tdp_impl/tdp_impl_mbedtls.cpp
+++ b/src/tdp_impl/tdp_impl_mbedtls.cpp
@@ -734,7 +734,7 @@ TdpMultPoolImpl_mbedTLS::TdpMultPoolImpl_mbedTLS(const std::string& sk,
         mbedtls_rsa_init(&keys_[i], 0, 0);
         mbedtls_rsa_copy(&keys_[i], previous);
 
-        mbedtls_mpi_mul_int(&keys_[i].E, &previous->E, RSA_PK);
+        mbedtls_mpi_mul_mpi(&keys_[i].E, &previous->E, &rsa_key_.E);
 
         if (mbedtls_rsa_check_pubkey(&keys_[i]) != 0) {
             throw std::runtime_error(
-- 
2.43.0


From 0ab5aa2cd560aff0f8b9ece2750b33164a071776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:51:17 +0000
Subject: [PATCH 19/20] fix: reject the empty ranges in
 ConstrainedRCPrf::constrain

---
 src/include/sse/crypto/rcprf.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/include/sse/crypto/rcprf.hpp b/src/include/sse/crypto/rcprf.hpp
index 643ad11..3d7517a 100644
--- a/src/include/sse/crypto/rcprf.hpp
+++ b/src/include/sse/crypto/rcprf.hpp
@@ -1437,6 +1437,12 @@ void ConstrainedRCPrf<NBYTES>::generate_constrained_subkeys(
     std::vector<std::unique_ptr<ConstrainedRCPrfElement<NBYTES>>>&
         constrained_elements) const
 {
+    if (min > max) {
+        throw std::invalid_argument("ConstrainedRCPrf::constrain: Invalid "
+                                    "range: min is larger than max: max="
+                                    + std::to_string(max)
+                                    + ", min=" + std::to_string(min));
+    }
     if (min < this->min_leaf() || max > this->max_leaf()) {
         throw std::out_of_range(
             "ConstrainedRCPrf::generate_constrained_subkeys: the input range ("
-- 
2.43.0


From 676769c3dc68e08b1513c4b71eeea2b25e353efd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:50:56 +0000
Subject: [PATCH 20/20] fix: inc_puncture rejects the reserved tag as
 documented

---
 src/ppke/GMPpke.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/ppke/GMPpke.cpp b/src/ppke/GMPpke.cpp
index 98b7798..5bdb4e9 100644
--- a/src/ppke/GMPpke.cpp
+++ b/src/ppke/GMPpke.cpp
@@ -283,11 +283,15 @@ GmppkePrivateKeyShare Gmppke::skShareGen(
     size_t                                      d,
     const tag_type&                             tag) const
 {
+    if (tag == NULLTAG) {
+        throw std::invalid_argument(
+            "Invalid tag: the NULLTAG is reserved and cannot be used.");
+    }
+
     const ZR              h = group.hashListToZR(tag);
     GmppkePrivateKeyShare share;
 
     assert(d > 0);
-    assert(tag != NULLTAG);
     std::string d_string = std::to_string(d);
 
     const ZR r1 = group.pseudoRandomZR(prf, ("param_r1_" + d_string));
-- 
2.43.0

