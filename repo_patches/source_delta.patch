From 9b0aa2eca0c217e9d41326301a61d7f050522713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:39 +0000
Subject: [PATCH 01/21] fix: sha256_shani kept per-call state in static memory

The two-block loop saved the intermediate states of both blocks in .data, so
two threads hashing at the same time corrupted each other's digests. Keep them
on the stack instead.
---
 ssz/sha256_shani.asm | 40 ++++++++++++++++++++++------------------
 1 file changed, 22 insertions(+), 18 deletions(-)

diff --git a/ssz/sha256_shani.asm b/ssz/sha256_shani.asm
index 43265de..e85aa8e 100644
--- a/ssz/sha256_shani.asm
+++ b/ssz/sha256_shani.asm
@@ -92,6 +92,18 @@ endstruc
 %define ABEF_SAVE	xmm9
 %define CDGH_SAVE	xmm10
 
+; The saved state of the two interleaved blocks lives on the stack, as it must not be
+; shared between concurrent calls.
+%define ABEF_SAVEa	rsp + 0*16
+%define CDGH_SAVEa	rsp + 1*16
+%define ABEF_SAVEb	rsp + 2*16
+%define CDGH_SAVEb	rsp + 3*16
+%ifdef WINABI
+%define SAVE_SIZE	4*16
+%else
+%define SAVE_SIZE	4*16 + 8	; rsp is 8 bytes off a 16 byte boundary on entry
+%endif
+
 %define STATE0b         xmm9
 %define STATE1b         xmm10
 %define MSGTMP0b	xmm11
@@ -124,6 +136,7 @@ sha256_shani:
 	movdqa		[rsp + frame.xmm_save + 3*16], xmm9
 	movdqa		[rsp + frame.xmm_save + 4*16], xmm10
 %endif
+	sub		rsp, SAVE_SIZE
 
 	movdqa		SHUF_MASK, [PSHUFFLE_BYTE_FLIP_MASK wrt rip]
 	lea		SHA256CONSTANTS,[K256 wrt rip]
@@ -477,10 +490,10 @@ sha256_shani:
         ;; Rounds with PADDING
         
 	;; Save hash values for addition after rounds
-	movdqa		[ABEF_SAVEa wrt rip], STATE0
-	movdqa		[CDGH_SAVEa wrt rip], STATE1
-	movdqa		[ABEF_SAVEb wrt rip], STATE0b
-	movdqa		[CDGH_SAVEb wrt rip], STATE1b
+	movdqa		[ABEF_SAVEa], STATE0
+	movdqa		[CDGH_SAVEa], STATE1
+	movdqa		[ABEF_SAVEb], STATE0b
+	movdqa		[CDGH_SAVEb], STATE1b
 
 	;; Rounds 0-3
 	movdqa		MSG, [SHA256PADDING + 0*16]
@@ -608,10 +621,10 @@ sha256_shani:
 		sha256rnds2	STATE0, STATE1
 		sha256rnds2	STATE0b, STATE1b
 
-	paddd		STATE0, [ABEF_SAVEa wrt rip]
-	paddd		STATE1, [CDGH_SAVEa wrt rip]
-	paddd           STATE0b, [ABEF_SAVEb wrt rip]
-	paddd		STATE1b, [CDGH_SAVEb wrt rip]
+	paddd		STATE0, [ABEF_SAVEa]
+	paddd		STATE1, [CDGH_SAVEa]
+	paddd           STATE0b, [ABEF_SAVEb]
+	paddd		STATE1b, [CDGH_SAVEb]
 
 
 	;; Write hash values back in the correct order
@@ -959,6 +972,7 @@ sha256_shani:
 	movdqu		[OUTPUT_PTR + 1*16], STATE1
 
 .done_hash:
+	add		rsp, SAVE_SIZE
 %ifdef WINABI
 	movdqa		xmm6,  [rsp + frame.xmm_save + 0*16]
 	movdqa		xmm7,  [rsp + frame.xmm_save + 1*16]
@@ -1013,13 +1027,3 @@ PADDING:
         dd      0x521afaca, 0x31338431, 0x6ed41a95, 0x6d437890
         dd      0xc39c91f2, 0x9eccabbd, 0xb5c9a0e6, 0x532fb63c
         dd      0xd2c741c6, 0x7237ea3, 0xa4954b68, 0x4c191d76
-
-section .data
-
-align 64
-
-ABEF_SAVEa:     dd      0x9b05688c, 0x510e527f, 0xbb67ae85, 0x6a09e667
-CDGH_SAVEa:     dd      0x5be0cd19, 0x1f83d9ab, 0xa54ff53a, 0x3c6ef372
-ABEF_SAVEb:     dd      0x9b05688c, 0x510e527f, 0xbb67ae85, 0x6a09e667
-CDGH_SAVEb:     dd      0x5be0cd19, 0x1f83d9ab, 0xa54ff53a, 0x3c6ef372
-
-- 
2.43.0


From 44efaec3a0306215d85c0d8c857d72dd2dc1762e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:52 +0000
Subject: [PATCH 02/21] fix: Hasher::implemented reported implementations the
 CPU cannot run

sha256_1_avx, the code behind IMPL::SSE, is VEX encoded, so it faults on CPUs
with SSE3 and no AVX (Denverton). And on CPUs without cpuid leaf 7 the SHA and
AVX2 bits were read from uninitialised memory.
---
 ssz/hasher.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ssz/hasher.cpp b/ssz/hasher.cpp
index e488227..ed82f24 100644
--- a/ssz/hasher.cpp
+++ b/ssz/hasher.cpp
@@ -42,14 +42,14 @@ void Hasher::sha256_sse(unsigned char* output, const unsigned char* input, std::
 
 const Hasher::IMPL Hasher::implemented() {
     IMPL ret = IMPL::NONE; 
-    std::uint32_t a, b, c, d;  // NOLINT
+    std::uint32_t a{}, b{}, c{}, d{};  // stay 0 if the leaf is not supported
     __get_cpuid_count(CPUID_LEAF, 0, &a, &b, &c, &d);
     if (b & bit_SHA) ret = ret | IMPL::SHA;
     if (b & bit_AVX2) ret = ret | IMPL::AVX2;
 
     __get_cpuid(1, &a, &b, &c, &d);
-    if (c & bit_AVX) ret = ret |  IMPL::AVX;
-    if (c & bit_SSE3) ret = ret | IMPL::SSE;
+    // The one block implementation behind IMPL::SSE is VEX encoded: it needs AVX
+    if (c & bit_AVX) ret = ret | IMPL::AVX | IMPL::SSE;
 
     return ret;
 }
-- 
2.43.0


From fcd80af23a97cbb4a699b80f31176c966098fb91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:37 +0000
Subject: [PATCH 03/21] fix: add the missing helpers/bytes_to_string.hpp

common/bytes.hpp and beacon-chain/main.cpp include it, so nothing but
test_sha256 could be compiled.
---
 helpers/bytes_to_string.hpp | 40 +++++++++++++++++++++++++++++++++++++
 1 file changed, 40 insertions(+)
 create mode 100644 helpers/bytes_to_string.hpp

diff --git a/helpers/bytes_to_string.hpp b/helpers/bytes_to_string.hpp
new file mode 100644
index 0000000..f9cb283
--- /dev/null
+++ b/helpers/bytes_to_string.hpp
@@ -0,0 +1,40 @@
+/*  bytes_to_string.hpp
+ *
+ *  This file is part of Mammon.
+ *  mammon is a greedy and selfish ETH consensus client.
+ *
+ *  Copyright (c) 2021 - Reimundo Heluani (potuz) potuz@potuz.net
+ *
+ *  This program is free software: you can redistribute it and/or modify
+ *  it under the terms of the GNU General Public License as published by
+ *  the Free Software Foundation, either version 3 of the License, or
+ *  (at your option) any later version.
+ *
+ *  This program is distributed in the hope that it will be useful,
+ *  but WITHOUT ANY WARRANTY; without even the implied warranty of
+ *  MERCHANTABILITY or FITNESS FOR A PARTICULAR PURPOSE.  See the
+ *  GNU General Public License for more details.
+ *
+ *  You should have received a copy of the GNU General Public License
+ *  along with this program.  If not, see <http://www.gnu.org/licenses/>.
+ */
+
+#pragma once
+#include <cstdint>
+#include <string>
+
+namespace helpers {
+
+// Lowercase hex string with a 0x prefix, two digits per byte
+template <typename Bytes>
+std::string bytes_to_string(const Bytes &bytes) {
+    constexpr auto digits = "0123456789abcdef";
+    std::string ret{"0x"};
+    for (std::uint8_t byte : bytes) {
+        ret += digits[byte >> 4];    // NOLINT
+        ret += digits[byte & 0x0f];  // NOLINT
+    }
+    return ret;
+}
+
+}  // namespace helpers
-- 
2.43.0


From f591f81f6d168a4e019d734037f059c5f4cfe401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:33 +0000
Subject: [PATCH 04/21] fix: define the slashings before the block body that
 holds them

BeaconBlockBody is instantiated with lists of incomplete types, which C++20's
constexpr vector does not accept: no file including beacon_block.hpp compiled.
---
 beacon-chain/beacon_block.hpp | 111 +++++++++++++++++-----------------
 1 file changed, 54 insertions(+), 57 deletions(-)

diff --git a/beacon-chain/beacon_block.hpp b/beacon-chain/beacon_block.hpp
index bdc4d32..c9e3de2 100644
--- a/beacon-chain/beacon_block.hpp
+++ b/beacon-chain/beacon_block.hpp
@@ -109,8 +109,60 @@ struct SignedVoluntaryExit : public ssz::Container {
     }
 };
 
-struct ProposerSlashing;
-struct AttesterSlashing;
+struct SignedBeaconBlockHeader : public ssz::Container {
+    BeaconBlockHeader message;
+    BLSSignature signature;
+
+    static constexpr std::size_t ssz_size = 208;
+    std::size_t get_ssz_size() const override { return ssz_size; }
+    std::vector<ssz::Chunk> hash_tree() const override { return hash_tree_({&message, &signature}); }
+    BytesVector serialize() const override { return serialize_({&message, &signature}); }
+    bool deserialize(ssz::SSZIterator it, ssz::SSZIterator end) override {
+        return deserialize_(it, end, {&message, &signature});
+    }
+
+    YAML::Node encode() const override { return encode_({{"message", &message}, {"signature", &signature}}); }
+
+    bool decode(const YAML::Node &node) override {
+        return decode_(node, {{"message", &message}, {"signature", &signature}});
+    }
+};
+
+struct ProposerSlashing : public ssz::Container {
+    SignedBeaconBlockHeader signed_header_1, signed_header_2;
+
+    static constexpr std::size_t ssz_size = 416;
+    std::size_t get_ssz_size() const override { return ssz_size; }
+    std::vector<ssz::Chunk> hash_tree() const override { return hash_tree_({&signed_header_1, &signed_header_2}); }
+    BytesVector serialize() const override { return serialize_({&signed_header_1, &signed_header_2}); }
+    bool deserialize(ssz::SSZIterator it, ssz::SSZIterator end) override {
+        return deserialize_(it, end, {&signed_header_1, &signed_header_2});
+    }
+
+    YAML::Node encode() const override {
+        return encode_({{"signed_header_1", &signed_header_1}, {"signed_header_2", &signed_header_2}});
+    }
+    bool decode(const YAML::Node &node) override {
+        return decode_(node, {{"signed_header_1", &signed_header_1}, {"signed_header_2", &signed_header_2}});
+    }
+};
+
+struct AttesterSlashing : public ssz::Container {
+    IndexedAttestation attestation_1, attestation_2;
+
+    std::vector<ssz::Chunk> hash_tree() const override { return hash_tree_({&attestation_1, &attestation_2}); }
+    BytesVector serialize() const override { return serialize_({&attestation_1, &attestation_2}); }
+    bool deserialize(ssz::SSZIterator it, ssz::SSZIterator end) override {
+        return deserialize_(it, end, {&attestation_1, &attestation_2});
+    }
+    YAML::Node encode() const override {
+        return encode_({{"attestation_1", &attestation_1}, {"attestation_2", &attestation_2}});
+    }
+
+    bool decode(const YAML::Node &node) override {
+        return decode_(node, {{"attestation_1", &attestation_1}, {"attestation_2", &attestation_2}});
+    }
+};
 
 class BeaconBlockBody : public ssz::Container {
    private:
@@ -229,61 +281,6 @@ class BeaconBlock : public ssz::Container {
     }
 };
 
-struct SignedBeaconBlockHeader : public ssz::Container {
-    BeaconBlockHeader message;
-    BLSSignature signature;
-
-    static constexpr std::size_t ssz_size = 208;
-    std::size_t get_ssz_size() const override { return ssz_size; }
-    std::vector<ssz::Chunk> hash_tree() const override { return hash_tree_({&message, &signature}); }
-    BytesVector serialize() const override { return serialize_({&message, &signature}); }
-    bool deserialize(ssz::SSZIterator it, ssz::SSZIterator end) override {
-        return deserialize_(it, end, {&message, &signature});
-    }
-
-    YAML::Node encode() const override { return encode_({{"message", &message}, {"signature", &signature}}); }
-
-    bool decode(const YAML::Node &node) override {
-        return decode_(node, {{"message", &message}, {"signature", &signature}});
-    }
-};
-
-struct ProposerSlashing : public ssz::Container {
-    SignedBeaconBlockHeader signed_header_1, signed_header_2;
-
-    static constexpr std::size_t ssz_size = 416;
-    std::size_t get_ssz_size() const override { return ssz_size; }
-    std::vector<ssz::Chunk> hash_tree() const override { return hash_tree_({&signed_header_1, &signed_header_2}); }
-    BytesVector serialize() const override { return serialize_({&signed_header_1, &signed_header_2}); }
-    bool deserialize(ssz::SSZIterator it, ssz::SSZIterator end) override {
-        return deserialize_(it, end, {&signed_header_1, &signed_header_2});
-    }
-
-    YAML::Node encode() const override {
-        return encode_({{"signed_header_1", &signed_header_1}, {"signed_header_2", &signed_header_2}});
-    }
-    bool decode(const YAML::Node &node) override {
-        return decode_(node, {{"signed_header_1", &signed_header_1}, {"signed_header_2", &signed_header_2}});
-    }
-};
-
-struct AttesterSlashing : public ssz::Container {
-    IndexedAttestation attestation_1, attestation_2;
-
-    std::vector<ssz::Chunk> hash_tree() const override { return hash_tree_({&attestation_1, &attestation_2}); }
-    BytesVector serialize() const override { return serialize_({&attestation_1, &attestation_2}); }
-    bool deserialize(ssz::SSZIterator it, ssz::SSZIterator end) override {
-        return deserialize_(it, end, {&attestation_1, &attestation_2});
-    }
-    YAML::Node encode() const override {
-        return encode_({{"attestation_1", &attestation_1}, {"attestation_2", &attestation_2}});
-    }
-
-    bool decode(const YAML::Node &node) override {
-        return decode_(node, {{"attestation_1", &attestation_1}, {"attestation_2", &attestation_2}});
-    }
-};
-
 struct SignedBeaconBlock : public ssz::Container {
     BeaconBlock message;
     BLSSignature signature;
-- 
2.43.0


From eacaf77b7ef8be82f55f2cbd2f0c26cf04724fe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:47 +0000
Subject: [PATCH 05/21] fix: bytes_to_int.hpp misses <cstdint>

---
 helpers/bytes_to_int.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/helpers/bytes_to_int.hpp b/helpers/bytes_to_int.hpp
index b3ed1d3..846b217 100644
--- a/helpers/bytes_to_int.hpp
+++ b/helpers/bytes_to_int.hpp
@@ -23,7 +23,9 @@
 #include <array>
 #include <concepts>
 #include <cstddef>
+#include <cstdint>
 #include <string>
+#include <string_view>
 
 namespace {
 struct Table {
-- 
2.43.0


From d8bcf4bb916b2bbbdb8f2d242f617bbeabe849c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:47 +0000
Subject: [PATCH 06/21] fix: integers were read through misaligned pointers

SSZ offsets and integers sit at any byte offset of the input: reading them
through a casted pointer is undefined behaviour.
---
 common/bytes.hpp         | 3 +--
 helpers/bytes_to_int.hpp | 6 ++++--
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/common/bytes.hpp b/common/bytes.hpp
index 182643b..0dfb39e 100644
--- a/common/bytes.hpp
+++ b/common/bytes.hpp
@@ -104,8 +104,7 @@ class Bytes : public ssz::Container {
     // clang-format off
     template <typename T> requires(std::unsigned_integral<T> && sizeof(T) == N)
     T to_integer_little_endian() const {
-    auto ptr = reinterpret_cast<const T *>(m_arr.data()); // NOLINT
-    return *ptr;
+    return helpers::to_integer_little_endian<T>(m_arr.data());
     }
     // clang-format on
     constexpr std::uint8_t &operator[](std::size_t index) { return m_arr[index]; }
diff --git a/helpers/bytes_to_int.hpp b/helpers/bytes_to_int.hpp
index 846b217..52ac403 100644
--- a/helpers/bytes_to_int.hpp
+++ b/helpers/bytes_to_int.hpp
@@ -24,6 +24,7 @@
 #include <concepts>
 #include <cstddef>
 #include <cstdint>
+#include <cstring>
 #include <string>
 #include <string_view>
 
@@ -62,8 +63,9 @@ namespace helpers {
 // The caller is responsible to check the bounds
 template <typename T>
 requires(std::unsigned_integral<T>) T to_integer_little_endian(const std::uint8_t *arr) {
-    auto ptr = reinterpret_cast<const T *>(arr);
-    return *ptr;
+    T ret;  // NOLINT
+    std::memcpy(&ret, arr, sizeof(T));
+    return ret;
 }
 
 constexpr int hextoint(char number) { return table[(std::size_t)number]; }
-- 
2.43.0


From aadb9018a976f67242bb43950a42f573dfc48f9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:47 +0000
Subject: [PATCH 07/21] fix: hextoint read out of bounds for chars outside
 ASCII

---
 helpers/bytes_to_int.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/helpers/bytes_to_int.hpp b/helpers/bytes_to_int.hpp
index 52ac403..f9b1b8c 100644
--- a/helpers/bytes_to_int.hpp
+++ b/helpers/bytes_to_int.hpp
@@ -30,7 +30,7 @@
 
 namespace {
 struct Table {
-    std::array<long long, 128> tab;
+    std::array<long long, 256> tab;
     constexpr Table() : tab{} {
         tab['1'] = 1;
         tab['2'] = 2;
@@ -54,7 +54,7 @@ struct Table {
         tab['f'] = 15;
         tab['F'] = 15;
     }
-    constexpr long long operator[](char const idx) const { return tab[(std::size_t)idx]; }
+    constexpr long long operator[](unsigned char const idx) const { return tab[idx]; }
 } constexpr table;
 }  // namespace
 
@@ -68,7 +68,7 @@ requires(std::unsigned_integral<T>) T to_integer_little_endian(const std::uint8_
     return ret;
 }
 
-constexpr int hextoint(char number) { return table[(std::size_t)number]; }
+constexpr int hextoint(char number) { return table[static_cast<unsigned char>(number)]; }
 
 constexpr int strhex2int(std::string_view const &str) {
     int ret = 0;
-- 
2.43.0


From 73a2f7458507358b2657cc008958b6d61bfd8019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:11 +0000
Subject: [PATCH 08/21] fix: HashTree overflowed its cache when given more
 chunks than the limit

The cache is sized for a tree of depth log2(limit), while merkleize hashes all
the chunks: a list holding more elements than its limit corrupted the heap.
---
 ssz/hashtree.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ssz/hashtree.cpp b/ssz/hashtree.cpp
index 8fa375d..c85bb0c 100644
--- a/ssz/hashtree.cpp
+++ b/ssz/hashtree.cpp
@@ -111,6 +111,7 @@ HashTree::HashTree(const std::vector<Chunk>& chunks, std::uint64_t limit) {
         hash_tree_ = chunks;
     else {
         if (chunks.empty()) throw std::out_of_range("empty chunks is not allowed");
+        if (limit && chunks.size() > limit) throw std::out_of_range("more chunks than the limit");
         auto effective_depth = helpers::log2ceil(chunks.size());
         auto depth = (limit == 0) ? effective_depth : helpers::log2ceil(limit);
         auto cache_size = depth - effective_depth + std::bit_ceil(chunks.size()) - 1;
-- 
2.43.0


From cd4775d0e68354e92b20f8f60aa4feb007f5f66e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:11 +0000
Subject: [PATCH 09/21] fix: zero hashes were read out of bounds for limits
 over 2^42

---
 ssz/hashtree.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ssz/hashtree.cpp b/ssz/hashtree.cpp
index c85bb0c..968d0cc 100644
--- a/ssz/hashtree.cpp
+++ b/ssz/hashtree.cpp
@@ -39,7 +39,7 @@ Chunk hash_2_chunks(const Chunk& first, const Chunk& second, const Hasher& hashe
     return ret;
 }
 // clang-format off
-const auto ZERO_HASH_DEPTH{42};
+const auto ZERO_HASH_DEPTH{64};
 constexpr Chunk zero_hash{};
 
 template <std::size_t N> requires(N > 0)
-- 
2.43.0


From e828e9d82860bd7d05f1f3ce4affc565b81eba5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:11 +0000
Subject: [PATCH 10/21] fix: Bitlist decoded empty input and input without its
 delimiting bit

Both were undefined behaviour: the byte before the input was read for the
former, and the latter counted bits past the last byte.
---
 common/bitlist.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/common/bitlist.cpp b/common/bitlist.cpp
index acc70d0..855a66d 100644
--- a/common/bitlist.cpp
+++ b/common/bitlist.cpp
@@ -50,8 +50,10 @@ std::vector<std::uint8_t> Bitlist::serialize() const {
     return ret;
 }
 bool Bitlist::deserialize(ssz::SSZIterator it, ssz::SSZIterator end) {
+    if (it == end) return false;
     auto last = end;
     --last;
+    if (*last == 0) return false;  // The delimiting bit is missing
     int msb = std::countl_zero(*last);
     m_arr.clear();
 
@@ -74,7 +76,7 @@ void Bitlist::from_hexstring(const std::string& str) {
         buffer = (helpers::hextoint(str[offset]) << 4) + helpers::hextoint(str[offset + 1]);
         hex.push_back(buffer);
     }
-    deserialize(hex.begin(), hex.end());
+    if (!deserialize(hex.begin(), hex.end())) throw std::invalid_argument("string is not a bitlist");
 }
 
 std::string Bitlist::to_string() const {
-- 
2.43.0


From 3eb78df9bafb4e18c78fd5264ce957cc2da874f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:39 +0000
Subject: [PATCH 11/21] fix: lists and bitlists were decoded past their limit

The SSZ limit of a list is part of its type: longer ones must be rejected.
---
 common/bitlist.cpp    |  2 ++
 common/containers.hpp | 12 ++++++++++--
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/common/bitlist.cpp b/common/bitlist.cpp
index 855a66d..2376a54 100644
--- a/common/bitlist.cpp
+++ b/common/bitlist.cpp
@@ -55,6 +55,8 @@ bool Bitlist::deserialize(ssz::SSZIterator it, ssz::SSZIterator end) {
     --last;
     if (*last == 0) return false;  // The delimiting bit is missing
     int msb = std::countl_zero(*last);
+    const std::size_t size = std::distance(it, last) * constants::BITS_PER_BYTE + constants::BITS_PER_BYTE - 1 - msb;
+    if (limit_ && size > limit_) return false;
     m_arr.clear();
 
     for (auto i = it; i != last; ++i)
diff --git a/common/containers.hpp b/common/containers.hpp
index e044eea..98a953e 100644
--- a/common/containers.hpp
+++ b/common/containers.hpp
@@ -145,6 +145,7 @@ class ListFixedSizedParts : public ssz::Container {
     bool deserialize(ssz::SSZIterator it, ssz::SSZIterator end) override {
         m_arr.clear();
         if (std::distance(it, end) % T::ssz_size) return false;
+        if (limit_ && std::distance(it, end) / T::ssz_size > limit_) return false;
 
         for (auto i = it; i != end; i += T::ssz_size) {
             T obj;
@@ -154,7 +155,10 @@ class ListFixedSizedParts : public ssz::Container {
         return true;
     }
     YAML::Node encode() const override { return YAML::convert<std::vector<T>>::encode(m_arr); }
-    bool decode(const YAML::Node &node) override { return YAML::convert<std::vector<T>>::decode(node, m_arr); }
+    bool decode(const YAML::Node &node) override {
+        if (limit_ && node.size() > limit_) return false;
+        return YAML::convert<std::vector<T>>::decode(node, m_arr);
+    }
 };
 
 template <class T>
@@ -207,6 +211,7 @@ class ListVariableSizedParts : public ssz::Container {
         auto first_offset = helpers::to_integer_little_endian<std::uint32_t>(&*it);
         if (first_offset < constants::BYTES_PER_LENGTH_OFFSET) return false;
         if (std::distance(start, end) < first_offset) return false;
+        if (limit_ && first_offset / constants::BYTES_PER_LENGTH_OFFSET > limit_) return false;
         auto last_offset = first_offset;
         it += constants::BYTES_PER_LENGTH_OFFSET;
 
@@ -229,7 +234,10 @@ class ListVariableSizedParts : public ssz::Container {
     }
 
     YAML::Node encode() const override { return YAML::convert<std::vector<T>>::encode(m_arr); }
-    bool decode(const YAML::Node &node) override { return YAML::convert<std::vector<T>>::decode(node, m_arr); }
+    bool decode(const YAML::Node &node) override {
+        if (limit_ && node.size() > limit_) return false;
+        return YAML::convert<std::vector<T>>::decode(node, m_arr);
+    }
 };
 
 struct Fork : public ssz::Container {
-- 
2.43.0


From a5f527d3167ba9746abaed252d428859778197d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:39 +0000
Subject: [PATCH 12/21] fix: containers of fixed size accepted trailing bytes

---
 ssz/ssz_container.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/ssz/ssz_container.cpp b/ssz/ssz_container.cpp
index 13207eb..45c3477 100644
--- a/ssz/ssz_container.cpp
+++ b/ssz/ssz_container.cpp
@@ -100,9 +100,8 @@ bool Container::deserialize_(SSZIterator it, SSZIterator end, const std::vector<
             it += constants::BYTES_PER_LENGTH_OFFSET;
         }
     }
-    if (last_offset)
-        if (!last_variable_part->deserialize(begin + last_offset, end)) return false;
-    return true;
+    if (last_offset) return last_variable_part->deserialize(begin + last_offset, end);
+    return it == end;  // No trailing bytes
 }
 
 std::vector<Chunk> Container::hash_tree() const {
-- 
2.43.0


From a4894082a59cd340eccee509fd02352dc3615ccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:39 +0000
Subject: [PATCH 13/21] fix: Bitvector accepted bits past its length

---
 common/bitvector.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/common/bitvector.hpp b/common/bitvector.hpp
index 276045f..583fab3 100644
--- a/common/bitvector.hpp
+++ b/common/bitvector.hpp
@@ -86,6 +86,8 @@ class Bitvector : public ssz::Container {
             for (int j = 0; j < constants::BITS_PER_BYTE && constants::BITS_PER_BYTE * std::distance(it, i) + j < N;
                  ++j)
                 m_arr[constants::BITS_PER_BYTE * std::distance(it, i) + j] = *i & (1 << j);
+        // The bits past the last one must not be set
+        if constexpr (N % constants::BITS_PER_BYTE != 0) return !(*std::prev(end) >> (N % constants::BITS_PER_BYTE));
         return true;
     }
     bool operator==(const Bitvector &) const = default;
-- 
2.43.0


From d0d2a9a5618520a3a5979da711eb5bfbd7bd308a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:39 +0000
Subject: [PATCH 14/21] fix: the bits of a default constructed Bitvector were
 uninitialised

---
 common/bitvector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/bitvector.hpp b/common/bitvector.hpp
index 583fab3..ad58463 100644
--- a/common/bitvector.hpp
+++ b/common/bitvector.hpp
@@ -41,7 +41,7 @@ class Bitvector : public ssz::Container {
     static constexpr std::size_t ssz_size = (N + constants::BITS_PER_BYTE - 1) / constants::BITS_PER_BYTE;
     std::size_t get_ssz_size() const override { return ssz_size; }
 
-    Bitvector() = default;
+    constexpr Bitvector() : m_arr{} {};
     explicit constexpr Bitvector(std::array<bool, N> vec) : m_arr{vec} {};
 
     void from_hexstring(const std::string &str) {
-- 
2.43.0


From 524ed367b0330b322f3a5df405687dcb224b0a89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:39 +0000
Subject: [PATCH 15/21] fix: bitfields were printed as raw characters

operator<< of an uint8_t prints a character: to_string() and the YAML encoding
of Bitlist and Bitvector held the bytes themselves and not their hex digits.
---
 common/bitlist.cpp   | 9 ++-------
 common/bitvector.hpp | 9 +--------
 2 files changed, 3 insertions(+), 15 deletions(-)

diff --git a/common/bitlist.cpp b/common/bitlist.cpp
index 2376a54..3853f15 100644
--- a/common/bitlist.cpp
+++ b/common/bitlist.cpp
@@ -29,6 +29,7 @@
 
 #include "config.hpp"
 #include "helpers/bytes_to_int.hpp"
+#include "helpers/bytes_to_string.hpp"
 #include "ssz/hashtree.hpp"
 
 namespace eth {
@@ -82,13 +83,7 @@ void Bitlist::from_hexstring(const std::string& str) {
 }
 
 std::string Bitlist::to_string() const {
-    std::stringstream os;
-    std::ios_base::fmtflags save = std::cout.flags();
-    auto serial = this->serialize();
-    os << "0x";
-    for (auto i = serial.cbegin(); i != serial.cend(); ++i) os << std::setfill('0') << std::setw(2) << std::hex << *i;
-    std::cout.flags(save);
-    return os.str();
+    return helpers::bytes_to_string(this->serialize());
 };
 
 YAML::Node Bitlist::encode() const {
diff --git a/common/bitvector.hpp b/common/bitvector.hpp
index ad58463..f0a046d 100644
--- a/common/bitvector.hpp
+++ b/common/bitvector.hpp
@@ -61,14 +61,7 @@ class Bitvector : public ssz::Container {
     }
 
     std::string to_string() const {
-        std::stringstream os;
-        std::ios_base::fmtflags save = std::cout.flags();
-        auto serial = this->serialize();
-        os << "0x";
-        for (auto i = serial.cbegin(); i != serial.cend(); ++i)
-            os << std::setfill('0') << std::setw(2) << std::hex << *i;
-        std::cout.flags(save);
-        return os.str();
+        return helpers::bytes_to_string(this->serialize());
     };
 
     friend std::ostream &operator<<(std::ostream &os, const Bitvector<N> &m_bits) {
-- 
2.43.0


From 14b89b4d275ac48a77de8e0cee7fb50a910ca483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:23 +0000
Subject: [PATCH 16/21] fix: most containers compared equal whatever their
 contents

Without an operator== of their own they used Container's, which is always true:
a double vote was never slashable, for example.
---
 beacon-chain/attestation.hpp  |  8 ++++++++
 beacon-chain/beacon_block.hpp | 12 ++++++++++++
 beacon-chain/deposits.hpp     |  6 ++++++
 beacon-chain/eth1data.hpp     |  2 ++
 beacon-chain/validator.hpp    |  2 ++
 common/containers.hpp         | 12 ++++++++++++
 6 files changed, 42 insertions(+)

diff --git a/beacon-chain/attestation.hpp b/beacon-chain/attestation.hpp
index b31950b..84e5861 100644
--- a/beacon-chain/attestation.hpp
+++ b/beacon-chain/attestation.hpp
@@ -44,6 +44,8 @@ struct AttestationData : public ssz::Container {
     bool deserialize(ssz::SSZIterator it, ssz::SSZIterator end) override;
     bool is_slashable(const AttestationData&) const;
 
+    bool operator==(const AttestationData &) const = default;
+
     YAML::Node encode() const override;
     bool decode(const YAML::Node &node) override;
 };
@@ -58,6 +60,8 @@ struct IndexedAttestation : public ssz::Container {
     bool deserialize(ssz::SSZIterator it, ssz::SSZIterator end) override;
     bool is_valid(const eth::BeaconState& state) const; 
 
+    bool operator==(const IndexedAttestation &) const = default;
+
     YAML::Node encode() const override;
     bool decode(const YAML::Node &node) override;
 };
@@ -72,6 +76,8 @@ struct PendingAttestation : public ssz::Container {
     BytesVector serialize() const override;
     bool deserialize(ssz::SSZIterator it, ssz::SSZIterator end) override;
 
+    bool operator==(const PendingAttestation &) const = default;
+
     YAML::Node encode() const override;
     bool decode(const YAML::Node &node) override;
 };
@@ -85,6 +91,8 @@ struct Attestation : public ssz::Container {
     BytesVector serialize() const override;
     bool deserialize(ssz::SSZIterator it, ssz::SSZIterator end) override;
     
+    bool operator==(const Attestation &) const = default;
+
     YAML::Node encode() const override;
     bool decode(const YAML::Node &node) override;
 };
diff --git a/beacon-chain/beacon_block.hpp b/beacon-chain/beacon_block.hpp
index c9e3de2..88d8c61 100644
--- a/beacon-chain/beacon_block.hpp
+++ b/beacon-chain/beacon_block.hpp
@@ -121,6 +121,8 @@ struct SignedBeaconBlockHeader : public ssz::Container {
         return deserialize_(it, end, {&message, &signature});
     }
 
+    bool operator==(const SignedBeaconBlockHeader &) const = default;
+
     YAML::Node encode() const override { return encode_({{"message", &message}, {"signature", &signature}}); }
 
     bool decode(const YAML::Node &node) override {
@@ -139,6 +141,8 @@ struct ProposerSlashing : public ssz::Container {
         return deserialize_(it, end, {&signed_header_1, &signed_header_2});
     }
 
+    bool operator==(const ProposerSlashing &) const = default;
+
     YAML::Node encode() const override {
         return encode_({{"signed_header_1", &signed_header_1}, {"signed_header_2", &signed_header_2}});
     }
@@ -155,6 +159,8 @@ struct AttesterSlashing : public ssz::Container {
     bool deserialize(ssz::SSZIterator it, ssz::SSZIterator end) override {
         return deserialize_(it, end, {&attestation_1, &attestation_2});
     }
+    bool operator==(const AttesterSlashing &) const = default;
+
     YAML::Node encode() const override {
         return encode_({{"attestation_1", &attestation_1}, {"attestation_2", &attestation_2}});
     }
@@ -211,6 +217,8 @@ class BeaconBlockBody : public ssz::Container {
                              &attestations_, &deposits_, &voluntary_exits_});
     }
 
+    bool operator==(const BeaconBlockBody &) const = default;
+
     YAML::Node encode() const override {
         return encode_({{"randao_reveal", &randao_reveal_},
                         {"eth1_data", &eth1_data_},
@@ -264,6 +272,8 @@ class BeaconBlock : public ssz::Container {
         return deserialize_(it, end, {&slot_, &proposer_index_, &parent_root_, &state_root_, &body_});
     }
 
+    bool operator==(const BeaconBlock &) const = default;
+
     YAML::Node encode() const override {
         return encode_({{"slot", &slot_},
                         {"proposer_index", &proposer_index_},
@@ -291,6 +301,8 @@ struct SignedBeaconBlock : public ssz::Container {
         return deserialize_(it, end, {&message, &signature});
     }
 
+    bool operator==(const SignedBeaconBlock &) const = default;
+
     YAML::Node encode() const override { return encode_({{"message", &message}, {"signature", &signature}}); }
 
     bool decode(const YAML::Node &node) override {
diff --git a/beacon-chain/deposits.hpp b/beacon-chain/deposits.hpp
index 5df397a..b68f124 100644
--- a/beacon-chain/deposits.hpp
+++ b/beacon-chain/deposits.hpp
@@ -43,6 +43,8 @@ struct DepositMessage : public ssz::Container {
     bool deserialize(ssz::SSZIterator it, ssz::SSZIterator end) override {
         return deserialize_(it, end, {&pubkey, &withdrawal_credentials, &amount});
     }
+    bool operator==(const DepositMessage &) const = default;
+
     YAML::Node encode() const override {
         return encode_({{"pubkey", &pubkey}, {"withdrawal_credentials", &withdrawal_credentials}, {"amount", &amount}});
     }
@@ -71,6 +73,8 @@ struct DepositData : public ssz::Container {
     bool deserialize(ssz::SSZIterator it, ssz::SSZIterator end) override {
         return deserialize_(it, end, {&pubkey, &withdrawal_credentials, &amount, &signature});
     }
+    bool operator==(const DepositData &) const = default;
+
     YAML::Node encode() const override {
         return encode_({{"pubkey", &pubkey},
                         {"withdrawal_credentials", &withdrawal_credentials},
@@ -98,6 +102,8 @@ struct Deposit : public ssz::Container {
         return deserialize_(it, end, {&proof, &data});
     }
 
+    bool operator==(const Deposit &) const = default;
+
     YAML::Node encode() const override { return encode_({{"proof", &proof}, {"data", &data}}); }
 
     bool decode(const YAML::Node &node) override { return decode_(node, {{"proof", &proof}, {"data", &data}}); }
diff --git a/beacon-chain/eth1data.hpp b/beacon-chain/eth1data.hpp
index 24503ae..eff7de4 100644
--- a/beacon-chain/eth1data.hpp
+++ b/beacon-chain/eth1data.hpp
@@ -38,6 +38,8 @@ struct Eth1Data : public ssz::Container {
     bool deserialize(ssz::SSZIterator it, ssz::SSZIterator end) override {
         return deserialize_(it, end, {&deposit_root, &deposit_count, &block_hash});
     }
+    bool operator==(const Eth1Data &) const = default;
+
     YAML::Node encode() const override {
         return encode_(
             {{"deposit_root", &deposit_root}, {"deposit_count", &deposit_count}, {"block_hash", &block_hash}});
diff --git a/beacon-chain/validator.hpp b/beacon-chain/validator.hpp
index 0b202f2..0267477 100644
--- a/beacon-chain/validator.hpp
+++ b/beacon-chain/validator.hpp
@@ -46,6 +46,8 @@ class Validator : public ssz::Container {
     bool is_eligible_for_activation_queue() const noexcept;
     bool is_slashable(const Epoch& epoch) const noexcept;
 
+    bool operator==(const Validator &) const = default;
+
     YAML::Node encode() const override; 
     bool decode(const YAML::Node &node) override;
 };
diff --git a/common/containers.hpp b/common/containers.hpp
index 98a953e..8ef1bf5 100644
--- a/common/containers.hpp
+++ b/common/containers.hpp
@@ -89,6 +89,8 @@ class VectorFixedSizedParts : public ssz::Container {
         return true;
     }
 
+    bool operator==(const VectorFixedSizedParts &) const = default;
+
     YAML::Node encode() const override { return YAML::convert<std::array<T, N>>::encode(m_arr); }
     bool decode(const YAML::Node &node) override { return YAML::convert<std::array<T, N>>::decode(node, m_arr); }
 };
@@ -154,6 +156,8 @@ class ListFixedSizedParts : public ssz::Container {
         }
         return true;
     }
+    bool operator==(const ListFixedSizedParts &) const = default;
+
     YAML::Node encode() const override { return YAML::convert<std::vector<T>>::encode(m_arr); }
     bool decode(const YAML::Node &node) override {
         if (limit_ && node.size() > limit_) return false;
@@ -233,6 +237,8 @@ class ListVariableSizedParts : public ssz::Container {
         return true;
     }
 
+    bool operator==(const ListVariableSizedParts &) const = default;
+
     YAML::Node encode() const override { return YAML::convert<std::vector<T>>::encode(m_arr); }
     bool decode(const YAML::Node &node) override {
         if (limit_ && node.size() > limit_) return false;
@@ -287,6 +293,8 @@ struct ForkData : public ssz::Container {
         return deserialize_(it, end, {&current_version, &genesis_validators_root});
     }
 
+    bool operator==(const ForkData &) const = default;
+
     YAML::Node encode() const override {
         return encode_({{"current_version", &current_version}, {"genesis_validators_root", &genesis_validators_root}});
     }
@@ -309,6 +317,8 @@ struct Checkpoint : public ssz::Container {
         return deserialize_(it, end, {&epoch, &root});
     }
 
+    bool operator==(const Checkpoint &) const = default;
+
     YAML::Node encode() const override { return encode_({{"epoch", &epoch}, {"root", &root}}); }
 
     bool decode(const YAML::Node &node) override { return decode_(node, {{"epoch", &epoch}, {"root", &root}}); }
@@ -327,6 +337,8 @@ struct SigningData : public ssz::Container {
         return deserialize_(it, end, {&object_root, &domain});
     }
 
+    bool operator==(const SigningData &) const = default;
+
     YAML::Node encode() const override { return encode_({{"object_root", &object_root}, {"domain", &domain}}); }
 
     bool decode(const YAML::Node &node) override {
-- 
2.43.0


From c78e24bbd7d915b65851430c3a7efdd28059abb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:25 +0000
Subject: [PATCH 17/21] fix: the minimal GENESIS_FORK_VERSION is 0x00000001

Integers are converted to little endian bytes: {0x00000001} was 0x01000000.
---
 config/minimal.hpp.in | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/config/minimal.hpp.in b/config/minimal.hpp.in
index 613fcdd..32abd76 100644
--- a/config/minimal.hpp.in
+++ b/config/minimal.hpp.in
@@ -30,7 +30,7 @@ namespace constants {
 
 constexpr std::uint64_t MIN_GENESIS_ACTIVE_VALIDATOR_COUNT = 64;
 constexpr std::uint64_t MIN_GENESIS_TIME = 1578009600;
-constexpr const eth::Version GENESIS_FORK_VERSION{0x00000001};
+constexpr const eth::Version GENESIS_FORK_VERSION{"0x00000001"};
 constexpr std::uint64_t GENESIS_DELAY = 300;
 
 // ALTAIR_FORK_VERSION: 0x01000001
-- 
2.43.0


From 9b369f06cb09380a0db998c16469480e05699610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:35 +0000
Subject: [PATCH 18/21] fix: lists and vectors of Boolean were not hashed as
 basic objects

SSZ packs booleans before merkleization, as any other basic type.
---
 common/containers.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/common/containers.hpp b/common/containers.hpp
index 8ef1bf5..18a141c 100644
--- a/common/containers.hpp
+++ b/common/containers.hpp
@@ -25,6 +25,7 @@
 #include <cstdint>
 #include <iterator>
 
+#include "common/boolean.hpp"
 #include "common/slot.hpp"
 #include "ssz/hashtree.hpp"
 #include "ssz/ssz.hpp"
@@ -35,7 +36,7 @@ namespace eth
 
 {
 template <class T>
-concept BasicObject = std::unsigned_integral<T> || std::is_same_v<T, Slot>;
+concept BasicObject = std::unsigned_integral<T> || std::is_same_v<T, Slot> || std::is_same_v<T, Boolean>;
 
 template <class T, std::size_t N>
 class VectorFixedSizedParts : public ssz::Container {
-- 
2.43.0


From ba3505a5dc80604003ea1c3789dd1904b57c36e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:36 +0000
Subject: [PATCH 19/21] fix: AVX was reported where the operating system does
 not enable it

The extensions were read off CPUID alone. With AVX present but OSXSAVE clear, or the
ymm state disabled in XCR0, every implementation behind IMPL::SSE, AVX and AVX2 was
reported and chosen by default, and died of an illegal instruction.
---
 ssz/hasher.cpp | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/ssz/hasher.cpp b/ssz/hasher.cpp
index ed82f24..a4dbaf2 100644
--- a/ssz/hasher.cpp
+++ b/ssz/hasher.cpp
@@ -28,6 +28,18 @@ extern "C" void sha256_1_avx(unsigned char* output, const unsigned char* input);
 
 namespace {
 constexpr auto CPUID_LEAF = 7;
+
+// AVX instructions fault unless the operating system saves the registers they use
+bool avx_usable() {
+    std::uint32_t a{}, b{}, c{}, d{};
+    __get_cpuid(1, &a, &b, &c, &d);
+    if (!(c & bit_AVX) || !(c & bit_OSXSAVE)) return false;
+
+    std::uint32_t low{}, high{};
+    asm volatile("xgetbv" : "=a"(low), "=d"(high) : "c"(0));
+    constexpr std::uint32_t XMM_AND_YMM = 6;
+    return (low & XMM_AND_YMM) == XMM_AND_YMM;
+}
 }
 
 namespace ssz {
@@ -45,11 +57,10 @@ const Hasher::IMPL Hasher::implemented() {
     std::uint32_t a{}, b{}, c{}, d{};  // stay 0 if the leaf is not supported
     __get_cpuid_count(CPUID_LEAF, 0, &a, &b, &c, &d);
     if (b & bit_SHA) ret = ret | IMPL::SHA;
-    if (b & bit_AVX2) ret = ret | IMPL::AVX2;
+    if ((b & bit_AVX2) && avx_usable()) ret = ret | IMPL::AVX2;
 
-    __get_cpuid(1, &a, &b, &c, &d);
     // The one block implementation behind IMPL::SSE is VEX encoded: it needs AVX
-    if (c & bit_AVX) ret = ret | IMPL::AVX | IMPL::SSE;
+    if (avx_usable()) ret = ret | IMPL::AVX | IMPL::SSE;
 
     return ret;
 }
-- 
2.43.0


From 989905c8502c82475445487a3d779b61ceb19dea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:03:11 +0000
Subject: [PATCH 20/21] fix: Bitlists of more than 2^31 bits are serialized
 without overflowing the index

The loops over the bits counted in int.
---
 common/bitlist.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/common/bitlist.cpp b/common/bitlist.cpp
index 3853f15..73fea2e 100644
--- a/common/bitlist.cpp
+++ b/common/bitlist.cpp
@@ -36,7 +36,7 @@ namespace eth {
 std::vector<ssz::Chunk> Bitlist::hash_tree() const {
     using namespace constants;
     std::vector<std::uint8_t> ret((m_arr.size() + BITS_PER_BYTE - 1) / BITS_PER_BYTE, 0);
-    for (int i = 0; i < m_arr.size(); ++i) ret[i / constants::BITS_PER_BYTE] |= m_arr[i] << (i % BITS_PER_BYTE);
+    for (std::size_t i = 0; i < m_arr.size(); ++i) ret[i / constants::BITS_PER_BYTE] |= m_arr[i] << (i % BITS_PER_BYTE);
     auto limit = (limit_ + BITS_PER_BYTE * BYTES_PER_CHUNK - 1) / (BITS_PER_BYTE * BYTES_PER_CHUNK);
     ssz::HashTree ht{ret, limit};
     ht.mix_in(m_arr.size());
@@ -45,7 +45,7 @@ std::vector<ssz::Chunk> Bitlist::hash_tree() const {
 
 std::vector<std::uint8_t> Bitlist::serialize() const {
     std::vector<std::uint8_t> ret(m_arr.size() / constants::BITS_PER_BYTE + 1, 0);
-    for (int i = 0; i < m_arr.size(); ++i)
+    for (std::size_t i = 0; i < m_arr.size(); ++i)
         ret[i / constants::BITS_PER_BYTE] |= m_arr[i] << (i % constants::BITS_PER_BYTE);
     ret.back() |= 1 << (m_arr.size() % constants::BITS_PER_BYTE);
     return ret;
-- 
2.43.0


From 81b422d8da2d23a676a0bdb861ac416781f0464f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:03:11 +0000
Subject: [PATCH 21/21] fix: hex strings of more than 2^31 characters are read
 without overflowing the index

Bitlist and Bitvector counted the characters in int.
---
 common/bitlist.cpp   | 2 +-
 common/bitvector.hpp | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/common/bitlist.cpp b/common/bitlist.cpp
index 73fea2e..9c3d260 100644
--- a/common/bitlist.cpp
+++ b/common/bitlist.cpp
@@ -75,7 +75,7 @@ void Bitlist::from_hexstring(const std::string& str) {
 
     std::uint8_t buffer = 0;
     std::vector<std::uint8_t> hex;
-    for (int offset = 2; offset < str.length(); offset += 2) {
+    for (std::size_t offset = 2; offset < str.length(); offset += 2) {
         buffer = (helpers::hextoint(str[offset]) << 4) + helpers::hextoint(str[offset + 1]);
         hex.push_back(buffer);
     }
diff --git a/common/bitvector.hpp b/common/bitvector.hpp
index f0a046d..6157486 100644
--- a/common/bitvector.hpp
+++ b/common/bitvector.hpp
@@ -50,12 +50,12 @@ class Bitvector : public ssz::Container {
 
         std::uint8_t buffer = 0;
         std::vector<std::uint8_t> hex;
-        for (int offset = 2; offset < str.length(); offset += 2) {
+        for (std::size_t offset = 2; offset < str.length(); offset += 2) {
             buffer = (helpers::hextoint(str[offset]) << 4) + helpers::hextoint(str[offset + 1]);
             hex.push_back(buffer);
         }
         m_arr.fill(0);
-        for (int i = 0; i < hex.size(); ++i)
+        for (std::size_t i = 0; i < hex.size(); ++i)
             for (int j = 0; j < constants::BITS_PER_BYTE && constants::BITS_PER_BYTE * i + j < N; ++j)
                 m_arr[constants::BITS_PER_BYTE * i + j] = ((hex[i] >> j) & 1);
     }
-- 
2.43.0

