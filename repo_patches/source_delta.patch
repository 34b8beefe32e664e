From a505c3cbe5124e08aff4d27f93c252ab9166cb74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:12 +0000
Subject: [PATCH 01/17] fix: base32 decode indexed its table with a signed char

Bytes >= 0x80 read before the start of the table.
---
 src/base32.c | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/src/base32.c b/src/base32.c
index 36d3e7f..cf6f0ab 100644
--- a/src/base32.c
+++ b/src/base32.c
@@ -210,14 +210,14 @@ static size_t _fingera_from_base32(const char *str, size_t str_len, void *buf,
   uint8_t *out = (uint8_t *)buf;
   const uint8_t *decode_string = is_raw ? BASE32_DECODE_RAW : BASE32_DECODE;
   for (size_t i = 0; i < blocks; i++) {
-    uint8_t byte1 = decode_string[str[i * 8 + 0]];
-    uint8_t byte2 = decode_string[str[i * 8 + 1]];
-    uint8_t byte3 = decode_string[str[i * 8 + 2]];
-    uint8_t byte4 = decode_string[str[i * 8 + 3]];
-    uint8_t byte5 = decode_string[str[i * 8 + 4]];
-    uint8_t byte6 = decode_string[str[i * 8 + 5]];
-    uint8_t byte7 = decode_string[str[i * 8 + 6]];
-    uint8_t byte8 = decode_string[str[i * 8 + 7]];
+    uint8_t byte1 = decode_string[(uint8_t)str[i * 8 + 0]];
+    uint8_t byte2 = decode_string[(uint8_t)str[i * 8 + 1]];
+    uint8_t byte3 = decode_string[(uint8_t)str[i * 8 + 2]];
+    uint8_t byte4 = decode_string[(uint8_t)str[i * 8 + 3]];
+    uint8_t byte5 = decode_string[(uint8_t)str[i * 8 + 4]];
+    uint8_t byte6 = decode_string[(uint8_t)str[i * 8 + 5]];
+    uint8_t byte7 = decode_string[(uint8_t)str[i * 8 + 6]];
+    uint8_t byte8 = decode_string[(uint8_t)str[i * 8 + 7]];
     if (byte1 == 0xFF || byte2 == 0xFF || byte3 == 0xFF || byte4 == 0xFF ||
         byte5 == 0xFF || byte6 == 0xFF || byte7 == 0xFF || byte8 == 0xFF)
       return out - (uint8_t *)buf;
@@ -232,19 +232,19 @@ static size_t _fingera_from_base32(const char *str, size_t str_len, void *buf,
   }
   uint8_t tail_bytes = TAIL_TO_BYTES[tail];
   if (tail_bytes > 0) {
-    uint8_t byte1 = decode_string[tail_str[0]];
-    uint8_t byte2 = decode_string[tail_str[1]];
+    uint8_t byte1 = decode_string[(uint8_t)tail_str[0]];
+    uint8_t byte2 = decode_string[(uint8_t)tail_str[1]];
     *out++ = (byte1 << 3) | (byte2 >> 2);
     if (tail_bytes > 1) {
-      uint8_t byte3 = decode_string[tail_str[2]];
-      uint8_t byte4 = decode_string[tail_str[3]];
+      uint8_t byte3 = decode_string[(uint8_t)tail_str[2]];
+      uint8_t byte4 = decode_string[(uint8_t)tail_str[3]];
       *out++ = (byte2 << 6) | (byte3 << 1) | (byte4 >> 4);
       if (tail_bytes > 2) {
-        uint8_t byte5 = decode_string[tail_str[4]];
+        uint8_t byte5 = decode_string[(uint8_t)tail_str[4]];
         *out++ = (byte4 << 4) | (byte5 >> 1);
         if (tail_bytes > 3) {
-          uint8_t byte6 = decode_string[tail_str[5]];
-          uint8_t byte7 = decode_string[tail_str[6]];
+          uint8_t byte6 = decode_string[(uint8_t)tail_str[5]];
+          uint8_t byte7 = decode_string[(uint8_t)tail_str[6]];
           *out++ = (byte5 << 7) | (byte6 << 2) | (byte7 >> 3);
         }
       }
-- 
2.43.0


From 519f201103f6a67dba758d5f28f29840b65808fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:12 +0000
Subject: [PATCH 02/17] fix: base32 decode looked for padding beyond str_len

strchr ignored str_len: it ran off unterminated buffers, stopped at a NUL
byte and let an = after the string decide its length. Raw mode has no
padding character at all.
---
 src/base32.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/base32.c b/src/base32.c
index cf6f0ab..1a060d8 100644
--- a/src/base32.c
+++ b/src/base32.c
@@ -185,7 +185,7 @@ size_t fingera_to_base32_raw(const void *buf, size_t buf_size, void *out) {
 }
 
 static inline size_t base32_strlen(const char *str, size_t str_len) {
-  const char *str_end = strchr(str, '=');
+  const char *str_end = (const char *)memchr(str, '=', str_len);
   if (!str_end) return str_len;
   return str_end - str;
 }
@@ -203,7 +203,7 @@ size_t fingera_from_base32_raw_length(size_t new_len) {
 
 static size_t _fingera_from_base32(const char *str, size_t str_len, void *buf,
                                    int is_raw) {
-  size_t new_len = base32_strlen(str, str_len);
+  size_t new_len = is_raw ? str_len : base32_strlen(str, str_len);
   size_t tail = new_len % 8;
   size_t blocks = new_len / 8;
   const char *tail_str = str + blocks * 8;
-- 
2.43.0


From 4786f344a9cc9f11a29f14296a910a4de3795345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:12 +0000
Subject: [PATCH 03/17] fix: base32 decode accepted illegal characters in the
 last partial block

---
 src/base32.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/base32.c b/src/base32.c
index 1a060d8..7d83233 100644
--- a/src/base32.c
+++ b/src/base32.c
@@ -231,6 +231,9 @@ static size_t _fingera_from_base32(const char *str, size_t str_len, void *buf,
     out += 5;
   }
   uint8_t tail_bytes = TAIL_TO_BYTES[tail];
+  for (size_t i = 0; i < tail; i++) {
+    if (decode_string[(uint8_t)tail_str[i]] == 0xFF) tail_bytes = 0;
+  }
   if (tail_bytes > 0) {
     uint8_t byte1 = decode_string[(uint8_t)tail_str[0]];
     uint8_t byte2 = decode_string[(uint8_t)tail_str[1]];
-- 
2.43.0


From 1da5f38f437541b75a02be5b76f4b744e124a1dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:12 +0000
Subject: [PATCH 04/17] fix: base64 standard decode took '=' inside the data
 for 'A'

---
 src/base64.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/base64.c b/src/base64.c
index 25f9780..978e652 100644
--- a/src/base64.c
+++ b/src/base64.c
@@ -12,7 +12,7 @@ static const unsigned char BASE64_STANDARD_DECODE[256] = {
     0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0x3E,
     0xFF, 0xFF, 0xFF, 0x3F,  // +/
     0x34, 0x35, 0x36, 0x37, 0x38, 0x39, 0x3A, 0x3B, 0x3C, 0x3D, 0xFF,
-    0xFF, 0xFF, 0x00, 0xFF, 0xFF,  // 0-9 =
+    0xFF, 0xFF, 0xFF, 0xFF, 0xFF,  // 0-9
     0xFF, 0x00, 0x01, 0x02, 0x03, 0x04, 0x05, 0x06, 0x07, 0x08, 0x09,
     0x0A, 0x0B, 0x0C, 0x0D, 0x0E,  // A-O
     0x0F, 0x10, 0x11, 0x12, 0x13, 0x14, 0x15, 0x16, 0x17, 0x18, 0x19,
-- 
2.43.0


From 871bc35440a6efad8fe3cb86e95e4c9abbbe8b3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:12 +0000
Subject: [PATCH 05/17] fix: base58 decoded length bound ignored leading '1's

Every leading '1' decodes to a whole zero byte, so strings of '1' overflowed
a buffer of fingera_from_base58_length bytes.
---
 include/fingera_libc/base58.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/fingera_libc/base58.h b/include/fingera_libc/base58.h
index df53f33..0602d00 100644
--- a/include/fingera_libc/base58.h
+++ b/include/fingera_libc/base58.h
@@ -33,7 +33,8 @@ static inline size_t fingera_to_base58_length(size_t buf_size) {
  * @return size_t 最大长度
  */
 static inline size_t fingera_from_base58_length(size_t str_len) {
-  return str_len * 733 / 1000 + 2;
+  // 前导的'1'每个字符解码为一个字节，所以不能按733/1000计算
+  return str_len;
 }
 
 /**
-- 
2.43.0


From 63acba0038e98f2c03fa3c992ce9088f023c7d3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:12 +0000
Subject: [PATCH 06/17] fix: base58 decode read past str_len up to a NUL byte

---
 src/base58.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/base58.c b/src/base58.c
index f056964..3f6995f 100644
--- a/src/base58.c
+++ b/src/base58.c
@@ -73,12 +73,12 @@ size_t fingera_to_base58(const void *buf, size_t buf_size, char *str) {
 size_t fingera_from_base58(const char *str, size_t str_len, void *buf) {
   const char *str_end = str + str_len;
   // Skip leading spaces.
-  while (*str && isspace(*str)) {
+  while (str != str_end && isspace((uint8_t)*str)) {
     str++;
   }
   int zeroes = 0;
   int length = 0;
-  while (*str == '1') {
+  while (str != str_end && *str == '1') {
     zeroes++;
     str++;
   }
@@ -87,7 +87,7 @@ size_t fingera_from_base58(const char *str, size_t str_len, void *buf) {
   DECLARE_BUFFER(uint8_t, b256, size);
   memset(b256, 0, size);
 
-  while (*str && !isspace(*str)) {
+  while (str != str_end && !isspace((uint8_t)*str)) {
     // Decode base58 character
     int carry = BASE58_DECODE[(uint8_t)*str];
     if (carry == -1) {
@@ -107,8 +107,8 @@ size_t fingera_from_base58(const char *str, size_t str_len, void *buf) {
     str++;
   }
   // Skip trailing spaces.
-  while (isspace(*str)) str++;
-  if (*str != 0) {
+  while (str != str_end && isspace((uint8_t)*str)) str++;
+  if (str != str_end) {
     fingera_cleanse(b256, size);
     FREE_BUFFER(b256);
     return 0;
-- 
2.43.0


From 403c59c8e0213f7fd00620fc4ccc307207b28e10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:12 +0000
Subject: [PATCH 07/17] fix: base58 decode scratch size overflowed int for
 strings over 2.9 MB

---
 src/base58.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/base58.c b/src/base58.c
index 3f6995f..9253c24 100644
--- a/src/base58.c
+++ b/src/base58.c
@@ -83,7 +83,7 @@ size_t fingera_from_base58(const char *str, size_t str_len, void *buf) {
     str++;
   }
 
-  int size = (int)(str_end - str) * 733 / 1000 + 1;
+  size_t size = (size_t)(str_end - str) * 733 / 1000 + 1;
   DECLARE_BUFFER(uint8_t, b256, size);
   memset(b256, 0, size);
 
@@ -96,7 +96,7 @@ size_t fingera_from_base58(const char *str, size_t str_len, void *buf) {
       return 0;
     }
     int i = 0;
-    for (int it = size - 1; (carry != 0 || i < length) && (it >= 0);
+    for (int it = (int)size - 1; (carry != 0 || i < length) && (it >= 0);
          --it, ++i) {
       carry += 58 * b256[it];
       b256[it] = carry % 256;
-- 
2.43.0


From 2dc306379cdae7a4158398d133b91724c5e0f5f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:32 +0000
Subject: [PATCH 08/17] fix: extended key string decode overflowed its stack
 buffer

Any string decoding to more than 82 bytes (checksum included) was written
past the buffer, and tripped the assert.
---
 src/btc/exkey.c | 43 ++++++++++++++++++++++++-------------------
 1 file changed, 24 insertions(+), 19 deletions(-)

diff --git a/src/btc/exkey.c b/src/btc/exkey.c
index 7e0475e..01fcd7d 100644
--- a/src/btc/exkey.c
+++ b/src/btc/exkey.c
@@ -5,6 +5,7 @@
 #include <fingera_libc/endian.h>
 #include <fingera_libc/hash/sha2.h>
 #include <fingera_libc/sl/buffer.h>
+#include <stdlib.h>
 #include <string.h>
 
 void fingera_exkey_init(fingera_ex_key *key, const void *seed, size_t len) {
@@ -101,18 +102,20 @@ size_t fingera_exkey_to_string(const fingera_ex_key *key, char *str,
 int fingera_exkey_from_string(const char *str, size_t str_len,
                               fingera_ex_key *key,
                               const chain_parameters *param) {
-  uint8_t extkey[BIP32_EXTKEY_SIZE + 8];
   assert(param->prefix_ext_secret_key_size <= 8);
+  size_t extkey_size = fingera_from_base58_check_length(str_len);
+  DECLARE_BUFFER(uint8_t, extkey, extkey_size);
   size_t size = fingera_from_base58_check(str, str_len, extkey);
-  assert(size <= sizeof(extkey));
-  if (size <= BIP32_EXTKEY_SIZE || size > sizeof(extkey))
-    return 0;  // no prefix or Overflow
-  size_t prefix_size = size - BIP32_EXTKEY_SIZE;
-  if (prefix_size != param->prefix_ext_secret_key_size) return 0;
-  if (memcmp(extkey, param->prefix_ext_secret_key, prefix_size) != 0) return 0;
-  fingera_exkey_decode(extkey + prefix_size, key);
-  fingera_cleanse(extkey, sizeof(extkey));
-  return 1;
+  size_t prefix_size = param->prefix_ext_secret_key_size;
+  int r = 0;
+  if (size == prefix_size + BIP32_EXTKEY_SIZE &&
+      memcmp(extkey, param->prefix_ext_secret_key, prefix_size) == 0) {
+    fingera_exkey_decode(extkey + prefix_size, key);
+    r = 1;
+  }
+  fingera_cleanse(extkey, extkey_size);
+  FREE_BUFFER(extkey);
+  return r;
 }
 
 void fingera_expubkey_encode(const fingera_ex_pubkey *pubkey, void *extkey74) {
@@ -139,15 +142,17 @@ size_t fingera_expubkey_to_string(const fingera_ex_pubkey *pubkey, char *str,
 int fingera_expubkey_from_string(const char *str, size_t str_len,
                                  fingera_ex_pubkey *pub,
                                  const chain_parameters *param) {
-  uint8_t extkey[BIP32_EXTKEY_SIZE + 8];
   assert(param->prefix_ext_public_key_size <= 8);
+  size_t extkey_size = fingera_from_base58_check_length(str_len);
+  DECLARE_BUFFER(uint8_t, extkey, extkey_size);
   size_t size = fingera_from_base58_check(str, str_len, extkey);
-  assert(size <= sizeof(extkey));
-  if (size <= BIP32_EXTKEY_SIZE || size > sizeof(extkey))
-    return 0;  // no prefix or Overflow
-  size_t prefix_size = size - BIP32_EXTKEY_SIZE;
-  if (prefix_size != param->prefix_ext_public_key_size) return 0;
-  if (memcmp(extkey, param->prefix_ext_public_key, prefix_size) != 0) return 0;
-  fingera_expubkey_decode(extkey + prefix_size, pub);
-  return 1;
+  size_t prefix_size = param->prefix_ext_public_key_size;
+  int r = 0;
+  if (size == prefix_size + BIP32_EXTKEY_SIZE &&
+      memcmp(extkey, param->prefix_ext_public_key, prefix_size) == 0) {
+    fingera_expubkey_decode(extkey + prefix_size, pub);
+    r = 1;
+  }
+  FREE_BUFFER(extkey);
+  return r;
 }
\ No newline at end of file
-- 
2.43.0


From 07782d845392c79b8c3a4a70abb114fad75c0502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:10 +0000
Subject: [PATCH 09/17] fix: private key string decode overflowed its stack
 buffer

Any string decoding to more than 40 bytes (checksum included) was written
past the buffer; the copy of the key was not wiped either.
---
 src/btc/key.c | 34 ++++++++++++++++------------------
 1 file changed, 16 insertions(+), 18 deletions(-)

diff --git a/src/btc/key.c b/src/btc/key.c
index 8f764c4..6ea3420 100644
--- a/src/btc/key.c
+++ b/src/btc/key.c
@@ -4,8 +4,10 @@
 #include <fingera_libc/cleanse.h>
 #include <fingera_libc/endian.h>
 #include <fingera_libc/random.h>
+#include <fingera_libc/sl/buffer.h>
 #include <secp256k1.h>
 #include <stdint.h>
+#include <stdlib.h>
 #include <string.h>
 
 /** This function is taken from the libsecp256k1 distribution and implements
@@ -376,26 +378,22 @@ size_t fingera_btc_key_to_string(const void* key32, char* key_str,
 int fingera_btc_key_from_string(const char* key_str, size_t str_len,
                                 void* key32, int* is_compressed,
                                 const chain_parameters* param) {
-  uint8_t buf[32 + 8];
   assert(param->prefix_secret_key_size <= 8);
+  size_t buf_size = fingera_from_base58_check_length(str_len);
+  DECLARE_BUFFER(uint8_t, buf, buf_size);
   size_t size = fingera_from_base58_check(key_str, str_len, buf);
-  if (size <= 32) return 0;
-  size_t pre_size = size - 32;
-  if (param->prefix_secret_key_size != pre_size) {
-    if (param->prefix_secret_key_size != pre_size - 1) {
-      return 0;
-    }
-    if (buf[size - 1] != 1) {
-      return 0;
-    }
-    *is_compressed = 1;
-  } else {
-    *is_compressed = 0;
-  }
-  if (memcmp(buf, param->prefix_secret_key, param->prefix_secret_key_size) != 0)
-    return 0;
-  memcpy(key32, buf + param->prefix_secret_key_size, 32);
-  return 1;
+  size_t pre_size = param->prefix_secret_key_size;
+  int compressed = (size == pre_size + 33 && buf[size - 1] == 1);
+  int r = 0;
+  if ((compressed || size == pre_size + 32) &&
+      memcmp(buf, param->prefix_secret_key, pre_size) == 0) {
+    *is_compressed = compressed;
+    memcpy(key32, buf + pre_size, 32);
+    r = 1;
+  }
+  fingera_cleanse(buf, buf_size);
+  FREE_BUFFER(buf);
+  return r;
 }
 
 int fingera_btc_key_derive(const void* key32, const void* chain32,
-- 
2.43.0


From daac784ed4731f0d9b68d113fe23c83ecfa9f06c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:10 +0000
Subject: [PATCH 10/17] fix: bech32 decode looked for the separator beyond
 str_len

---
 src/btc/bech32.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/btc/bech32.c b/src/btc/bech32.c
index 27272c0..ecc4131 100644
--- a/src/btc/bech32.c
+++ b/src/btc/bech32.c
@@ -112,7 +112,10 @@ int fingera_bech32_decode(const char *str, size_t str_len, char *hrp,
                           size_t *hrp_size, void *b32) {
   if (is_illegal(str, str_len)) return -1;
 
-  const char *pos = strrchr(str, '1');
+  const char *pos = NULL;
+  for (size_t i = 0; i < str_len; i++) {
+    if (str[i] == '1') pos = str + i;
+  }
   if (!pos || str_len > 90 || pos == str || pos + 7 > str + str_len ||
       str_len <= 7) {
     return -2;
-- 
2.43.0


From 1d57de0271ac3f09b0a8e2b797ac42eed388de14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:10 +0000
Subject: [PATCH 11/17] fix: address decode computed a buffer size of str_len -
 7 for shorter strings

---
 src/btc/address.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/btc/address.c b/src/btc/address.c
index 9cc02dc..a9b72f2 100644
--- a/src/btc/address.c
+++ b/src/btc/address.c
@@ -95,6 +95,7 @@ size_t fingera_to_address_witness_unknown(const void *version_and_program,
 static fingera_btc_address decode_bech32(const char *str, size_t str_len,
                                          void *out, size_t *out_size,
                                          const chain_parameters *param) {
+  if (str_len < 7) return BTC_BAD_ADDRESS;
   DECLARE_BUFFER(char, buffer, str_len - 7);
 
   char bech32_hrp[16];
-- 
2.43.0


From a4cf234f0319c1d104c72cc104519ba7353ba6ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:10 +0000
Subject: [PATCH 12/17] fix: address decode accepted segwit programs with
 invalid padding

BIP173 allows at most four padding bits, all zero; several strings decoded
to the same address otherwise.
---
 src/btc/address.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/btc/address.c b/src/btc/address.c
index a9b72f2..39128f4 100644
--- a/src/btc/address.c
+++ b/src/btc/address.c
@@ -92,6 +92,12 @@ size_t fingera_to_address_witness_unknown(const void *version_and_program,
   return result_size;
 }
 
+// BIP173: 编码时剩余的填充位不能超过4位，并且必须全部为0
+static int is_bad_padding(const char *b32, size_t b32_size) {
+  size_t bits = b32_size * 5 % 8;
+  return bits > 4 || (bits > 0 && (b32[b32_size - 1] & ((1 << bits) - 1)) != 0);
+}
+
 static fingera_btc_address decode_bech32(const char *str, size_t str_len,
                                          void *out, size_t *out_size,
                                          const chain_parameters *param) {
@@ -109,6 +115,11 @@ static fingera_btc_address decode_bech32(const char *str, size_t str_len,
     return BTC_BAD_ADDRESS;
   }
 
+  if (is_bad_padding(buffer + 1, bech32_size - 1)) {
+    FREE_BUFFER(buffer);
+    return BTC_BAD_ADDRESS;
+  }
+
   if (*out_size >= fingera_from_base32_raw_length(bech32_size - 1)) {
     int version = buffer[0];
     if (version == 0) {
-- 
2.43.0


From b36cecbcd065cc1f08f7bff20e84333ae56257a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:10 +0000
Subject: [PATCH 13/17] fix: zigzag did not round-trip INT64_MIN

llabs(INT64_MIN) is undefined and the value decoded to 0.
---
 src/compress_integer.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/compress_integer.c b/src/compress_integer.c
index 067d696..8096904 100644
--- a/src/compress_integer.c
+++ b/src/compress_integer.c
@@ -38,7 +38,7 @@ size_t fingera_decode_varint(const void *buf, size_t size, uint64_t *out) {
 }
 
 size_t fingera_encode_zigzag(int64_t value, void *buf) {
-  uint64_t uvalue = (uint64_t)llabs(value);
+  uint64_t uvalue = value < 0 ? 0 - (uint64_t)value : (uint64_t)value;
   uint64_t sign = value < 0 ? 1 : 0;
   uvalue <<= 1;
   uvalue |= sign;
@@ -52,7 +52,9 @@ size_t fingera_decode_zigzag(const void *buf, size_t size, int64_t *out) {
   if (len > 0) {
     sign = uvalue & 1;
     uvalue >>= 1;
-    if (sign) {
+    if (sign && uvalue == 0) {
+      *out = INT64_MIN;  // |INT64_MIN| << 1 溢出后为0
+    } else if (sign) {
       *out = -(int64_t)uvalue;
     } else {
       *out = (int64_t)uvalue;
-- 
2.43.0


From eb944215a71dbd70b65206cdd576b33482335357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:10 +0000
Subject: [PATCH 14/17] fix: varint decode wrapped around on encodings of more
 than 64 bits

---
 src/compress_integer.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/compress_integer.c b/src/compress_integer.c
index 8096904..ec609f1 100644
--- a/src/compress_integer.c
+++ b/src/compress_integer.c
@@ -27,8 +27,10 @@ size_t fingera_decode_varint(const void *buf, size_t size, uint64_t *out) {
   if (size > 10) size = 10;
   for (size_t i = 0; i < size; i++) {
     uint8_t byte = *in++;
+    if (*out > (UINT64_MAX >> 7)) return 0;  // 溢出
     *out = (*out << 7) | (byte & 0x7F);
     if (byte & 0x80) {
+      if (*out == UINT64_MAX) return 0;  // 溢出
       (*out)++;
     } else {
       return in - (uint8_t *)buf;
-- 
2.43.0


From ed9685e913023f0fca36a2bd016cba2afcf01f09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:10 +0000
Subject: [PATCH 15/17] fix: a short read from /dev/urandom left the end of the
 buffer unfilled

---
 src/random.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/random.c b/src/random.c
index f763266..3be86af 100644
--- a/src/random.c
+++ b/src/random.c
@@ -61,6 +61,7 @@ void fingera_os_rand_bytes(void *buf, size_t buf_size) {
     if (r <= 0) {
       FINGERA_FATAL("read /dev/urandom %d", r);
     }
+    buf = (char *)buf + r;
     buf_size -= (size_t)r;
   }
   close(fd);
-- 
2.43.0


From 6cca0fd80debf270a3dfaf5b42b5dba70d23a890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:10 +0000
Subject: [PATCH 16/17] fix: deriving from an extended key of depth 255 wrapped
 the depth to 0

---
 src/btc/exkey.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/btc/exkey.c b/src/btc/exkey.c
index 01fcd7d..9509133 100644
--- a/src/btc/exkey.c
+++ b/src/btc/exkey.c
@@ -24,6 +24,7 @@ void fingera_exkey_init(fingera_ex_key *key, const void *seed, size_t len) {
 
 int fingera_exkey_derive(const fingera_ex_key *key, fingera_ex_key *derived,
                          uint32_t child, uint32_t fingerprint) {
+  if (key->ext.depth == 255) return 0;
   int r = fingera_btc_key_derive(key->key, key->ext.chain_code, derived->key,
                                  derived->ext.chain_code, child);
   if (r) {
@@ -37,6 +38,7 @@ int fingera_exkey_derive(const fingera_ex_key *key, fingera_ex_key *derived,
 int fingera_expubkey_derive(const fingera_ex_pubkey *pubkey,
                             fingera_ex_pubkey *derived, uint32_t child,
                             uint32_t fingerprint) {
+  if (pubkey->ext.depth == 255) return 0;
   if (!fingera_btc_pubkey_derive(pubkey->c_pubkey, pubkey->ext.chain_code,
                                  derived->c_pubkey, derived->ext.chain_code,
                                  child))
-- 
2.43.0


From 630010c05751c03e1d76849dd97ecd96ab82c413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:28 +0000
Subject: [PATCH 17/17] fix: extended key strings with an illegal key prefix
 byte were accepted

BIP32 (test vector 5): the key field of a private key starts with 00, that
of a public key with 02 or 03. Several strings decoded to the same private
key, and a bad public key tripped an assert when it was derived from.
---
 src/btc/exkey.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/btc/exkey.c b/src/btc/exkey.c
index 9509133..5fe670d 100644
--- a/src/btc/exkey.c
+++ b/src/btc/exkey.c
@@ -111,7 +111,8 @@ int fingera_exkey_from_string(const char *str, size_t str_len,
   size_t prefix_size = param->prefix_ext_secret_key_size;
   int r = 0;
   if (size == prefix_size + BIP32_EXTKEY_SIZE &&
-      memcmp(extkey, param->prefix_ext_secret_key, prefix_size) == 0) {
+      memcmp(extkey, param->prefix_ext_secret_key, prefix_size) == 0 &&
+      extkey[prefix_size + 41] == 0) {
     fingera_exkey_decode(extkey + prefix_size, key);
     r = 1;
   }
@@ -151,7 +152,8 @@ int fingera_expubkey_from_string(const char *str, size_t str_len,
   size_t prefix_size = param->prefix_ext_public_key_size;
   int r = 0;
   if (size == prefix_size + BIP32_EXTKEY_SIZE &&
-      memcmp(extkey, param->prefix_ext_public_key, prefix_size) == 0) {
+      memcmp(extkey, param->prefix_ext_public_key, prefix_size) == 0 &&
+      (extkey[prefix_size + 41] == 2 || extkey[prefix_size + 41] == 3)) {
     fingera_expubkey_decode(extkey + prefix_size, pub);
     r = 1;
   }
-- 
2.43.0

