/* Names the length functions that the headers define inline, so that they have IR of their own.  Nothing else. */
#include <fingera_libc/base32.h>
#include <fingera_libc/base58.h>
#include <fingera_libc/base64.h>
#include <fingera_libc/btc/base58_check.h>
#include <fingera_libc/btc/bech32.h>
#include <fingera_libc/btc/exkey.h>
#include <fingera_libc/btc/key.h>
#include <fingera_libc/hex.h>

size_t vp_len_to_hex(size_t n) { return fingera_to_hex_length(n); }
size_t vp_len_from_hex(size_t n) { return fingera_from_hex_length(n); }
size_t vp_len_to_base32(size_t n) { return fingera_to_base32_length(n); }
size_t vp_len_to_base64(size_t n) { return fingera_to_base64_length(n); }
size_t vp_len_to_base64_urlsafe(size_t n) { return fingera_to_base64_urlsafe_length(n); }
size_t vp_len_from_base64(const char *s, size_t n) { return fingera_from_base64_length(s, n); }
size_t vp_len_from_base64_urlsafe(size_t n) { return fingera_from_base64_urlsafe_length(n); }
size_t vp_len_to_base58(size_t n) { return fingera_to_base58_length(n); }
size_t vp_len_from_base58(size_t n) { return fingera_from_base58_length(n); }
size_t vp_len_to_base58_check(size_t n, size_t p) { return fingera_to_base58_check_length(n, p); }
size_t vp_len_from_base58_check(size_t n) { return fingera_from_base58_check_length(n); }
size_t vp_len_bech32_encode(size_t h, size_t n) { return fingera_bech32_encode_length(h, n); }
size_t vp_len_key_string(void) { return fingera_key_string_max_length(); }
size_t vp_len_exkey_string(void) { return fingera_exkey_string_max_length(); }
