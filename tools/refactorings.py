"""rf.py [NAME...]: apply a behaviour-preserving edit to a copy and run the checks"""
import sys,subprocess,os,shutil,time,re
R={}
def rf(name,props,*edits): R[name]=(props.split(),edits)
rf('hex-while','C01',('src/hex.c','''  for (size_t i = 0; i < buf_size; i++) {
    byte = bytes[i];
    str[0] = hex_str[byte >> 4];
    str[1] = hex_str[byte & 0xF];
    str += 2;
  }''','''  const unsigned char *last = bytes + buf_size;
  while (bytes != last) {
    byte = *bytes++;
    *str++ = hex_str[byte >> 4];
    *str++ = hex_str[byte & 0xF];
  }'''),('src/hex.c','''  for (size_t i = 0; i < str_len; i += 2) {
    high = HEX_MAP[(unsigned char)str[i]];
    low = HEX_MAP[(unsigned char)str[i + 1]];
    if (high == 0xFF || low == 0xFF) break;
    *out++ = (high << 4) | low;
  }
  return out - (unsigned char *)buf;''','''  size_t n = 0;
  while (n < str_len / 2) {
    high = HEX_MAP[(unsigned char)str[2 * n]];
    low = HEX_MAP[(unsigned char)str[2 * n + 1]];
    if (high == 0xFF) break;
    if (low == 0xFF) break;
    out[n] = (unsigned char)(high * 16 + low);
    n++;
  }
  return n;'''))
rf('dump-helper','C26 C28',('src/hex.c','''      if (i % 4 == 0) WRITE_CACHE__(' ');
      if (i % 8 == 0) WRITE_CACHE__(' ');
      if (i % 16 == 0) WRITE_CACHE__(' ');
      if (i % 32 == 0) WRITE_CACHE__('\\n');''','''      if (!(i & 3)) {
        WRITE_CACHE__(' ');
        if (!(i & 7)) {
          WRITE_CACHE__(' ');
          if (!(i & 15)) WRITE_CACHE__(' ');
        }
      }
      if (i % 32 == 0) WRITE_CACHE__('\\n');'''))
rf('dump-flush','C26',('src/hex.c','void fingera_hex_dump(','static size_t flush_cache(const char *cache, size_t len) {\n  fwrite(cache, len, 1, stdout);\n  return 0;\n}\n\nvoid fingera_hex_dump('),
 ('src/hex.c','''      fwrite(str_cache, str_cache_len, 1, stdout);
      str_cache_len = 0;''','''      str_cache_len = flush_cache(str_cache, str_cache_len);'''))
rf('b32-helper','C02 C03',('src/base32.c','''  uint8_t tail_bytes = TAIL_TO_BYTES[tail];
  for (size_t i = 0; i < tail; i++) {
    if (decode_string[(uint8_t)tail_str[i]] == 0xFF) tail_bytes = 0;
  }''','''  uint8_t tail_bytes = (uint8_t)TAIL_TO_BYTES[tail];
  size_t left = tail;
  while (left > 0) {
    left--;
    if (decode_string[(uint8_t)tail_str[left]] == 0xFF) {
      tail_bytes = 0;
      break;
    }
  }'''),('src/base32.c','''  for (size_t i = 0; i < loop_size; i += 5) {
    byte1''','''  const uint8_t *stop = input + loop_size;
  for (; input < stop;) {
    byte1'''))
rf('b58-loops','C05 C25',('src/base58.c','''  while (begin != end && *begin == 0) {
    begin++;
    zeroes++;
  }''','''  for (; begin < end; begin++) {
    if (*begin != 0) break;
    zeroes++;
  }'''),('src/base58.c','''      carry += 256 * b58[it];
      b58[it] = carry % 58;
      carry /= 58;''','''      int value = carry + (b58[it] << 8);
      carry = value / 58;
      b58[it] = value - carry * 58;'''),('src/base58.c','''  while (iter != b58 + size && *iter == 0) iter++;''','''  const uint8_t *b58_end = b58 + size;
  for (; iter < b58_end; iter++)
    if (*iter) break;'''))
rf('b58-helper','C05 C06',('src/base58.c','size_t fingera_to_base58(const','static int add_byte(uint8_t *b58, size_t size, int length, int carry) {\n  int i = 0;\n  for (int it = (int)size - 1; (carry != 0 || i < length) && it >= 0;\n       it--, i++) {\n    carry += 256 * b58[it];\n    b58[it] = carry % 58;\n    carry /= 58;\n  }\n  assert(carry == 0 && "base58 overflow");\n  return i;\n}\n\nsize_t fingera_to_base58(const'),
 ('src/base58.c','''    int carry = *begin;
    int i = 0;
    for (int it = (int)size - 1; (carry != 0 || i < length) && it >= 0;
         it--, i++) {
      carry += 256 * b58[it];
      b58[it] = carry % 58;
      carry /= 58;
    }
    assert(carry == 0 && "base58 overflow");
    length = i;
''','''    length = add_byte(b58, size, length, *begin);
'''))
rf('b58-exit','C05 C25 C06',('src/base58.c','''    if (carry == -1) {
      fingera_cleanse(b256, size);
      FREE_BUFFER(b256);
      return 0;
    }
''','''    if (carry < 0) goto bad;
'''),('src/base58.c','''  if (str != str_end) {
    fingera_cleanse(b256, size);
    FREE_BUFFER(b256);
    return 0;
  }
''','''  if (str != str_end) goto bad;
'''),('src/base58.c','''  FREE_BUFFER(b256);
  return zeroes;
}
''','''  FREE_BUFFER(b256);
  return zeroes;

bad:
  fingera_cleanse(b256, size);
  FREE_BUFFER(b256);
  return 0;
}
'''))
rf('check-onepass','C06 C25',('src/btc/base58_check.c','''  memcpy(buffer, prefix, prefix_size);
  memcpy(buffer + prefix_size, buf, buf_size);
''','''  memcpy(buffer + prefix_size, buf, buf_size);
  memcpy(buffer, prefix, prefix_size);
'''),('src/btc/base58_check.c','''  if (memcmp(hash, (uint8_t *)buf + buf_size - 4, 4) != 0) return 0;
  return buf_size - 4;''','''  const uint8_t *sum = (const uint8_t *)buf + (buf_size - 4);
  for (int i = 0; i < 4; i++) {
    if (hash[i] != sum[i]) return 0;
  }
  return buf_size - 4;'''))
rf('bech32-shared','C07 C08',('src/btc/bech32.c','''static void create_checksum(const''','''static uint32_t mod_prefix(const char *hrp, size_t hrp_len, const uint8_t *b32,
                           size_t b32_size) {
  uint32_t mod = 1;
  for (size_t i = 0; i < hrp_len; i++) {
    mod = poly_mod((uint8_t)hrp[i] >> 5, mod);
  }
  mod = poly_mod(0, mod);
  for (size_t i = 0; i < hrp_len; i++) {
    mod = poly_mod((uint8_t)hrp[i] & 0x1F, mod);
  }
  for (size_t i = 0; i < b32_size; i++) {
    mod = poly_mod(b32[i], mod);
  }
  return mod;
}

static void create_checksum(const'''),*[('src/btc/bech32.c','''  uint32_t mod = 1;
  for (size_t i = 0; i < hrp_len; i++) {
    mod = poly_mod((uint8_t)hrp[i] >> 5, mod);
  }
  mod = poly_mod(0, mod);
  for (size_t i = 0; i < hrp_len; i++) {
    mod = poly_mod((uint8_t)hrp[i] & 0x1F, mod);
  }
  // values
  for (size_t i = 0; i < b32_size; i++) {
    mod = poly_mod(b32[i], mod);
  }
''','''  uint32_t mod = mod_prefix(hrp, hrp_len, b32, b32_size);
''')]*2)
rf('bech32-ptr','C07 C08 C09',('src/btc/bech32.c','''  for (size_t i = 0; i < *hrp_size; i++) {
    hrp[i] = isupper(str[i]) ? tolower(str[i]) : str[i];
  }''','''  for (size_t i = 0; i < *hrp_size; i++) {
    char c = str[i];
    if (c >= 'A' && c <= 'Z') c = (char)(c - 'A' + 'a');
    hrp[i] = c;
  }'''),('src/btc/bech32.c','''  int8_t *out = (int8_t *)b32;
  while (pos != (str + (str_len - 6))) {
    int8_t rev = BECH32_DECODE[(uint8_t)*pos++];
    if (rev == -1) return -4;
    *out++ = rev;
  }''','''  int8_t *out = (int8_t *)b32;
  const char *sum = str + str_len - 6;
  for (; pos < sum; pos++) {
    int8_t rev = BECH32_DECODE[(uint8_t)*pos];
    if (rev < 0) return -4;
    *out = rev;
    out++;
  }'''))
rf('bech32-illegal','C07 C08',('src/btc/bech32.c','''      if (c >= 'a' && c <= 'z') lower = 1;
      else if (c >= 'A' && c <= 'Z') upper = 1;
      else if (c < 33 || c > 126) return 1;
  }
  if (lower && upper) return 1;
  return 0;''','''      if (c < 33 || c > 126) return 1;
      lower |= c >= 'a' && c <= 'z';
      upper |= c >= 'A' && c <= 'Z';
  }
  return lower && upper;'''),('src/btc/bech32.c','''  for (size_t i = 0; i < str_len; i++) {
    if (str[i] == '1') pos = str + i;
  }''','''  for (size_t i = str_len; i > 0; i--) {
    if (str[i - 1] == '1') {
      pos = str + i - 1;
      break;
    }
  }'''))
rf('bech32-ill-a','C07 C08',('src/btc/bech32.c',"""      if (c >= 'a' && c <= 'z') lower = 1;
      else if (c >= 'A' && c <= 'Z') upper = 1;
      else if (c < 33 || c > 126) return 1;
  }
  if (lower && upper) return 1;
  return 0;""","""      if (c < 33 || c > 126) return 1;
      lower |= c >= 'a' && c <= 'z';
      upper |= c >= 'A' && c <= 'Z';
  }
  return lower && upper;"""))
rf('bech32-last','C07 C08',('src/btc/bech32.c',"""  for (size_t i = 0; i < str_len; i++) {
    if (str[i] == '1') pos = str + i;
  }""","""  for (size_t i = str_len; i > 0; i--) {
    if (str[i - 1] == '1') {
      pos = str + i - 1;
      break;
    }
  }"""))
rf('addr-free','C09 C28',('src/btc/address.c','''  if (*out_size >= fingera_from_base32_raw_length(bech32_size - 1)) {
    int version = buffer[0];
    if (version == 0) {
      *out_size = fingera_from_base32_raw(buffer + 1, bech32_size - 1, out);
      if (*out_size == BTC_WITNESSV0_KEYID_SIZE) {
        FREE_BUFFER(buffer);
        return BTC_WITNESSV0_KEYHASH_ADDRESS;
      } else if (*out_size == BTC_WITNESSV0_SCRIPTID_SIZE) {
        FREE_BUFFER(buffer);
        return BTC_WITNESSV0_SCRIPTHASH_ADDRESS;
      } else {
        FREE_BUFFER(buffer);
        return BTC_BAD_ADDRESS;
      }
    }
    *(int8_t *)out = version;
    *out_size =
        fingera_from_base32_raw(buffer + 1, bech32_size - 1, (char *)out + 1);
    (*out_size)++;
    if (version > 16 || *out_size < 3 || *out_size > 41) {
      FREE_BUFFER(buffer);
      return BTC_BAD_ADDRESS;
    }
    FREE_BUFFER(buffer);
    return BTC_WITNESS_UNKNOWN_ADDRESS;
  }

  FREE_BUFFER(buffer);
  return BTC_BAD_ADDRESS;''','''  fingera_btc_address kind = BTC_BAD_ADDRESS;
  size_t program_size = fingera_from_base32_raw_length(bech32_size - 1);
  if (*out_size >= program_size) {
    int version = buffer[0];
    if (version == 0) {
      *out_size = fingera_from_base32_raw(buffer + 1, bech32_size - 1, out);
      if (*out_size == BTC_WITNESSV0_KEYID_SIZE) {
        kind = BTC_WITNESSV0_KEYHASH_ADDRESS;
      } else if (*out_size == BTC_WITNESSV0_SCRIPTID_SIZE) {
        kind = BTC_WITNESSV0_SCRIPTHASH_ADDRESS;
      }
    } else {
      *(int8_t *)out = version;
      *out_size = 1 + fingera_from_base32_raw(buffer + 1, bech32_size - 1,
                                              (char *)out + 1);
      if (version <= 16 && *out_size >= 3 && *out_size <= 41) {
        kind = BTC_WITNESS_UNKNOWN_ADDRESS;
      }
    }
  }
  FREE_BUFFER(buffer);
  return kind;'''))
rf('addr-encode','C10 C09',('src/btc/address.c','''size_t fingera_to_address_witnessv0_keyhash(''','''static size_t encode_witness(uint8_t version, const void *program, size_t size,
                             char *out, size_t out_size,
                             const chain_parameters *param) {
  uint8_t buffer[128];
  buffer[0] = version;
  size_t buf_size = 1 + fingera_to_base32_raw(program, size, buffer + 1);
  size_t result_size =
      fingera_bech32_encode_length(param->bech32_hrp_size, buf_size);
  if (out_size < result_size) return 0;
  fingera_bech32_encode(param->bech32_hrp, param->bech32_hrp_size, buffer,
                        buf_size, out);
  return result_size;
}

size_t fingera_to_address_witnessv0_keyhash('''),('src/btc/address.c','''  uint8_t buffer[64];
  assert(key_hash_size == BTC_WITNESSV0_KEYID_SIZE);
  if (key_hash_size != BTC_WITNESSV0_KEYID_SIZE) return 0;
  buffer[0] = 0;
  size_t buf_size =
      fingera_to_base32_raw(key_hash, key_hash_size, buffer + 1) + 1;
  size_t result_size =
      fingera_bech32_encode_length(param->bech32_hrp_size, buf_size);
  if (out_size < result_size) return 0;

  fingera_bech32_encode(param->bech32_hrp, param->bech32_hrp_size, buffer,
                        buf_size, out);
  return result_size;''','''  assert(key_hash_size == BTC_WITNESSV0_KEYID_SIZE);
  if (key_hash_size != BTC_WITNESSV0_KEYID_SIZE) return 0;
  return encode_witness(0, key_hash, key_hash_size, out, out_size, param);'''))
rf('varint','C11 C12',('src/compress_integer.c','''  for (;;) {
    tmp[len] = (value & 0x7F) | (len ? 0x80 : 0x00);
    if (value <= 0x7F) break;
    value = (value >> 7) - 1;
    len++;
  }

  do {
    *out++ = tmp[len];
  } while (len--);

  return out - (uint8_t *)buf;''','''  tmp[0] = value & 0x7F;
  while (value > 0x7F) {
    value = (value >> 7) - 1;
    tmp[++len] = (value & 0x7F) | 0x80;
  }

  for (int i = len; i >= 0; i--) *out++ = tmp[i];

  return (size_t)len + 1;'''))
rf('sha-tail','C14 C15 C16',('src/hash/sha2.c','if (msg_len > 55) {','if (msg_len >= 56) {'))
rf('ripemd-loop','C13 C16',('src/hash/ripemd160.c','''  while (msg_len >= 64) {
    ripemd160_transform(digest, msg_buf);
    msg_len -= 64;
    msg_buf += 64;
  }''','''  size_t blocks = msg_len / 64;
  for (size_t i = 0; i < blocks; i++) {
    ripemd160_transform(digest, msg_buf + 64 * i);
  }
  msg_buf += 64 * blocks;
  msg_len %= 64;'''))
rf('d64-for','C16',('src/btc/hash.c','''  while (blocks--) {
    _hash256_d64_transform(_out, _in);
    _out += 32;
    _in += 64;
  }''','''  for (size_t i = 0; i < blocks; i++) {
    _hash256_d64_transform(_out + 32 * i, _in + 64 * i);
  }'''))
rf('key-lax-helper','C19 C28',('src/btc/key.c','''static int ecdsa_signature_parse_der_lax(const''','''static size_t strip_zeroes(const unsigned char* input, size_t* pos,
                           size_t len) {
  while (len > 0 && input[*pos] == 0) {
    len--;
    (*pos)++;
  }
  return len;
}

static int ecdsa_signature_parse_der_lax(const'''),('src/btc/key.c','''  while (rlen > 0 && input[rpos] == 0) {
    rlen--;
    rpos++;
  }''','''  rlen = strip_zeroes(input, &rpos, rlen);'''),('src/btc/key.c','''  while (slen > 0 && input[spos] == 0) {
    slen--;
    spos++;
  }''','''  slen = strip_zeroes(input, &spos, slen);'''))
rf('key-sign-loop','C20 C31',('src/btc/key.c','''  // Grind for low R
  while (ret && !SigHasLowR(sig)) {
    write_little_32(extra_entropy, ++counter);
    ret =''','''  // Grind for low R
  for (;;) {
    if (!ret || SigHasLowR(sig)) break;
    counter++;
    write_little_32(extra_entropy, counter);
    ret ='''))
rf('key-derive-order','C21 C22',('src/btc/key.c','''  if (ret) {
    memcpy(out_key32, key32, 32);
    memcpy(out_chain32, out + 32, 32);
    ret =''','''  if (ret != 0) {
    memcpy(out_chain32, out + 32, 32);
    memcpy(out_key32, key32, 32);
    ret ='''),('src/btc/key.c','if ((child >> 31) == 0) {\n    uint8_t','if (!(child & 0x80000000u)) {\n    uint8_t'))
rf('key-import','C18',('src/btc/key.c','''  /* sequence length */
  ptrdiff_t len = privkey[lenb - 1] | (lenb > 1 ? privkey[lenb - 2] << 8 : 0u);''','''  /* sequence length */
  ptrdiff_t len = privkey[lenb - 1];
  if (lenb > 1) len += 256 * (ptrdiff_t)privkey[lenb - 2];'''))
rf('wif-order','C17',('src/btc/key.c','''  int compressed = (size == pre_size + 33 && buf[size - 1] == 1);
  int r = 0;
  if ((compressed || size == pre_size + 32) &&
      memcmp(buf, param->prefix_secret_key, pre_size) == 0) {
    *is_compressed = compressed;
    memcpy(key32, buf + pre_size, 32);
    r = 1;
  }''','''  int r = 0, compressed = 0;
  if (size == pre_size + 33 && buf[size - 1] == 1) {
    compressed = 1;
    size--;
  }
  if (size == pre_size + 32 &&
      memcmp(buf, param->prefix_secret_key, pre_size) == 0) {
    memcpy(key32, buf + pre_size, 32);
    *is_compressed = compressed;
    r = 1;
  }'''))
rf('exkey-fields','C21 C22 C23',('src/btc/exkey.c','''  memcpy(&pubkey->ext, &key->ext, sizeof(key->ext));
  uint8_t pub[64];''','''  pubkey->ext = key->ext;
  uint8_t pub[64];'''),('src/btc/exkey.c','''  code[0] = ext->depth;
  write_little_32(code + 1, ext->fingerprint);
  write_big_32(code + 5, ext->child);
  memcpy(code + 9, ext->chain_code, 32);''','''  memcpy(code + 9, ext->chain_code, 32);
  write_big_32(code + 5, ext->child);
  write_little_32(code + 1, ext->fingerprint);
  *code = ext->depth;'''))
rf('rand-done','C24 C27',('src/random.c','''  while (buf_size != 0) {
    int r = read(fd, buf, buf_size);
    if (r <= 0) {
      FINGERA_FATAL("read /dev/urandom %d", r);
    }
    buf = (char *)buf + r;
    buf_size -= (size_t)r;
  }''','''  char *pos = (char *)buf;
  char *end = pos + buf_size;
  while (pos < end) {
    ssize_t r = read(fd, pos, (size_t)(end - pos));
    if (r <= 0) {
      FINGERA_FATAL("read /dev/urandom %d", (int)r);
    }
    pos += r;
  }'''))
rf('keyid-inline','C30',('src/btc/key.c','''  uint8_t pubkey[64];
  fingera_btc_key_get_pub(key32, pubkey);
  fingera_btc_pubkey_keyid(pubkey, compress, keyid20);''','''  secp256k1_pubkey pubkey;
  fingera_btc_key_get_pub(key32, &pubkey);
  fingera_btc_pubkey_keyid(&pubkey, compress, keyid20);'''))

rf('dump-func','C26 C28',('src/hex.c','void fingera_hex_dump(','''static void put_char(char *cache, size_t *len, char c) {
  cache[*len] = c;
  *len += 1;
}

void fingera_hex_dump('''),('src/hex.c','#define WRITE_CACHE__(c) str_cache[str_cache_len++] = (c);','#define WRITE_CACHE__(c) put_char(str_cache, &str_cache_len, (c));'))
rf('hex-digit-fn','C01',('src/hex.c','size_t fingera_from_hex(','''static int digit_value(char c) {
  if (c >= '0' && c <= '9') return c - '0';
  if (c >= 'a' && c <= 'f') return c - 'a' + 10;
  if (c >= 'A' && c <= 'F') return c - 'A' + 10;
  return -1;
}

size_t fingera_from_hex('''),('src/hex.c','''    high = HEX_MAP[(unsigned char)str[i]];
    low = HEX_MAP[(unsigned char)str[i + 1]];
    if (high == 0xFF || low == 0xFF) break;
    *out++ = (high << 4) | low;''','''    int h = digit_value(str[i]);
    int l = digit_value(str[i + 1]);
    if (h < 0 || l < 0) break;
    *out++ = (unsigned char)(h * 16 + l);'''))
rf('b32-acc','C02 C03',('src/base32.c','''    byte1 = input[0] >> 3;
    byte2 = ((input[0] & 7) << 2) | (input[1] >> 6);
    byte3 = (input[1] >> 1) & 0x1F;
    byte4 = ((input[1] & 1) << 4) | (input[2] >> 4);
    byte5 = ((input[2] & 0xF) << 1) | (input[3] >> 7);
    byte6 = (input[3] >> 2) & 0x1F;
    byte7 = ((input[3] & 3) << 3) | ((input[4] >> 5) & 7);
    byte8 = input[4] & 0x1F;
    out[0] = encode_str[byte1];
    out[1] = encode_str[byte2];
    out[2] = encode_str[byte3];
    out[3] = encode_str[byte4];
    out[4] = encode_str[byte5];
    out[5] = encode_str[byte6];
    out[6] = encode_str[byte7];
    out[7] = encode_str[byte8];
''','''    uint64_t acc = 0;
    for (int k = 0; k < 5; k++) acc = (acc << 8) | input[k];
    for (int k = 0; k < 8; k++) out[k] = encode_str[(acc >> (35 - 5 * k)) & 0x1F];
'''),('src/base32.c','''    if (byte1 == 0xFF || byte2 == 0xFF || byte3 == 0xFF || byte4 == 0xFF ||
        byte5 == 0xFF || byte6 == 0xFF || byte7 == 0xFF || byte8 == 0xFF)
      return out - (uint8_t *)buf;''','''    if ((byte1 | byte2 | byte3 | byte4 | byte5 | byte6 | byte7 | byte8) & 0x80)
      return out - (uint8_t *)buf;'''))
rf('b64-acc','C04',('src/base64.c','''    uint8_t byte1 = input[0] >> 2;
    uint8_t byte2 = ((input[0] & 0x3) << 4) | (input[1] >> 4);
    uint8_t byte3 = ((input[1] & 0xF) << 2) | (input[2] >> 6);
    uint8_t byte4 = input[2] & 0x3F;
    out[0] = encode_str[byte1];
    out[1] = encode_str[byte2];
    out[2] = encode_str[byte3];
    out[3] = encode_str[byte4];
    out += 4;
    input += 3;
''','''    uint32_t v = ((uint32_t)input[0] << 16) | ((uint32_t)input[1] << 8) | input[2];
    *out++ = encode_str[v >> 18];
    *out++ = encode_str[(v >> 12) & 63];
    *out++ = encode_str[(v >> 6) & 63];
    *out++ = encode_str[v & 63];
    input += 3;
'''),('src/base64.c','''    output[0] = (byte1 << 2) | (byte2 >> 4);
    output[1] = (byte2 << 4) | (byte3 >> 2);
    output[2] = (byte3 << 6) | byte4;
''','''    uint32_t v = ((uint32_t)byte1 << 18) | ((uint32_t)byte2 << 12) |
                 ((uint32_t)byte3 << 6) | byte4;
    output[0] = (uint8_t)(v >> 16);
    output[1] = (uint8_t)(v >> 8);
    output[2] = (uint8_t)v;
'''))
rf('b64-block-fn','C04',('src/base64.c','size_t _fingera_from_base64(','''static int decode_block(const unsigned char *map, const uint8_t *in,
                        uint8_t *output) {
  uint8_t byte1 = map[in[0]], byte2 = map[in[1]];
  uint8_t byte3 = map[in[2]], byte4 = map[in[3]];
  if (byte1 == 0xFF || byte2 == 0xFF || byte3 == 0xFF || byte4 == 0xFF)
    return 0;
  output[0] = (byte1 << 2) | (byte2 >> 4);
  output[1] = (byte2 << 4) | (byte3 >> 2);
  output[2] = (byte3 << 6) | byte4;
  return 1;
}

size_t _fingera_from_base64('''),('src/base64.c','''    byte1 = decode_str[input[0]];
    byte2 = decode_str[input[1]];
    byte3 = decode_str[input[2]];
    byte4 = decode_str[input[3]];

    if (byte1 == 0xFF || byte2 == 0xFF || byte3 == 0xFF || byte4 == 0xFF)
      return output - (uint8_t *)buf;

    output[0] = (byte1 << 2) | (byte2 >> 4);
    output[1] = (byte2 << 4) | (byte3 >> 2);
    output[2] = (byte3 << 6) | byte4;
''','''    if (!decode_block(decode_str, input, output))
      return output - (uint8_t *)buf;
'''))
rf('b58-muladd','C05 C25 C06',('src/base58.c','size_t fingera_to_base58(','''static int mul_add(uint8_t *digits, size_t size, int length, int carry,
                   int mul, int base) {
  int i = 0;
  for (int it = (int)size - 1; (carry != 0 || i < length) && it >= 0;
       it--, i++) {
    carry += mul * digits[it];
    digits[it] = carry % base;
    carry /= base;
  }
  assert(carry == 0 && "base58 overflow");
  return i;
}

size_t fingera_to_base58('''),('src/base58.c','''    int carry = *begin;
    int i = 0;
    for (int it = (int)size - 1; (carry != 0 || i < length) && it >= 0;
         it--, i++) {
      carry += 256 * b58[it];
      b58[it] = carry % 58;
      carry /= 58;
    }
    assert(carry == 0 && "base58 overflow");
    length = i;
    begin++;''','''    length = mul_add(b58, size, length, *begin, 256, 58);
    begin++;'''),('src/base58.c','''    int i = 0;
    for (int it = (int)size - 1; (carry != 0 || i < length) && (it >= 0);
         --it, ++i) {
      carry += 58 * b256[it];
      b256[it] = carry % 256;
      carry /= 256;
    }
    assert(carry == 0);
    length = i;
''','''    length = mul_add(b256, size, length, carry, 58, 256);
'''))
rf('b58-space','C05',('src/base58.c','size_t fingera_from_base58(','''static const char *skip_space(const char *p, const char *end) {
  for (; p != end; p++) {
    if (!isspace((uint8_t)*p)) break;
  }
  return p;
}

size_t fingera_from_base58('''),('src/base58.c','''  while (str != str_end && isspace((uint8_t)*str)) {
    str++;
  }
''','''  str = skip_space(str, str_end);
'''),('src/base58.c','''  while (str != str_end && isspace((uint8_t)*str)) str++;
''','''  str = skip_space(str, str_end);
'''))
rf('sha1-tail','C13',('src/hash/sha1.c','''  while (msg_len >= 64) {
    sha1_transform(digest, msg_buf);
    msg_len -= 64;
    msg_buf += 64;
  }
  memset(last_chunk, 0, sizeof(last_chunk));
  memcpy(last_chunk, msg_buf, msg_len);
  last_chunk[msg_len] = 0x80;

  if (msg_len > 55) {
    sha1_transform(digest, last_chunk);
    memset(last_chunk, 0, 64);
  }
''','''  const uint8_t *msg_end = msg_buf + msg_len;
  for (size_t blocks = msg_len / 64; blocks > 0; blocks--, msg_buf += 64) {
    sha1_transform(digest, msg_buf);
  }
  size_t rest = (size_t)(msg_end - msg_buf);
  memcpy(last_chunk, msg_buf, rest);
  last_chunk[rest++] = 0x80;
  memset(last_chunk + rest, 0, 64 - rest);
  if (rest > 56) {
    sha1_transform(digest, last_chunk);
    memset(last_chunk, 0, sizeof(last_chunk));
  }
'''),('src/hash/sha1.c','''  out[0] = htobe32(digest[0]);
  out[1] = htobe32(digest[1]);
  out[2] = htobe32(digest[2]);
  out[3] = htobe32(digest[3]);
  out[4] = htobe32(digest[4]);
''','''  for (int i = 0; i < 5; i++) out[i] = htobe32(digest[i]);
'''))
rf('hmac-key','C15 C16',('src/hash/sha2.c','''void fingera_hmac_sha256(''','''static void block_key256(const void *key, size_t key_len, void *block) {
  memset(block, 0, 64);
  if (key_len > 64)
    fingera_sha2_256(key, key_len, block);
  else
    memcpy(block, key, key_len);
}

void fingera_hmac_sha256('''),('src/hash/sha2.c','''  if (key_len <= 64) {
    memcpy(buffer, key, key_len);
    memset((char *)buffer + key_len, 0, 64 - key_len);
  } else {
    fingera_sha2_256(key, key_len, buffer);
    memset((char *)buffer + 32, 0, 32);
  }
''','''  block_key256(key, key_len, buffer);
'''))
rf('addr-witness-fn','C09 C10 C28',('src/btc/address.c','size_t fingera_to_address_witnessv0_keyhash(','''static size_t witness_text(int version, const void *program, size_t size,
                           char *out, size_t out_size,
                           const chain_parameters *param) {
  uint8_t buffer[128];
  buffer[0] = (uint8_t)version;
  size_t n = 1 + fingera_to_base32_raw(program, size, buffer + 1);
  size_t need = fingera_bech32_encode_length(param->bech32_hrp_size, n);
  if (need > out_size) return 0;
  fingera_bech32_encode(param->bech32_hrp, param->bech32_hrp_size, buffer, n,
                        out);
  return need;
}

size_t fingera_to_address_witnessv0_keyhash('''),('src/btc/address.c','''  buffer[0] = version;
  size_t buf_size =
      fingera_to_base32_raw((char *)version_and_program + 1,
                            version_and_program_size - 1, buffer + 1) +
      1;
  size_t result_size =
      fingera_bech32_encode_length(param->bech32_hrp_size, buf_size);
  if (out_size < result_size) return 0;

  fingera_bech32_encode(param->bech32_hrp, param->bech32_hrp_size, buffer,
                        buf_size, out);
  return result_size;''','''  (void)buffer;
  return witness_text(version, (const char *)version_and_program + 1,
                      version_and_program_size - 1, out, out_size, param);'''),('src/btc/address.c','''  assert(key_hash_size == BTC_WITNESSV0_KEYID_SIZE);
  if (key_hash_size != BTC_WITNESSV0_KEYID_SIZE) return 0;
  buffer[0] = 0;
  size_t buf_size =
      fingera_to_base32_raw(key_hash, key_hash_size, buffer + 1) + 1;
  size_t result_size =
      fingera_bech32_encode_length(param->bech32_hrp_size, buf_size);
  if (out_size < result_size) return 0;

  fingera_bech32_encode(param->bech32_hrp, param->bech32_hrp_size, buffer,
                        buf_size, out);
  return result_size;''','''  (void)buffer;
  assert(key_hash_size == BTC_WITNESSV0_KEYID_SIZE);
  if (key_hash_size != BTC_WITNESSV0_KEYID_SIZE) return 0;
  return witness_text(0, key_hash, key_hash_size, out, out_size, param);'''))
rf('addr-prefix-fn','C09 C28',('src/btc/address.c','fingera_btc_address fingera_btc_address_decode(','''static int take_prefix(void *data, size_t *size, const void *prefix,
                       size_t prefix_size) {
  if (*size < prefix_size || memcmp(data, prefix, prefix_size) != 0) return 0;
  *size -= prefix_size;
  memmove(data, (char *)data + prefix_size, *size);
  return 1;
}

fingera_btc_address fingera_btc_address_decode('''),('src/btc/address.c','''    if (size >= param->prefix_pubkey_address_size &&
        memcmp(out, param->prefix_pubkey_address,
               param->prefix_pubkey_address_size) == 0) {
      *out_size = size - param->prefix_pubkey_address_size;
      memmove(out, (char *)out + param->prefix_pubkey_address_size, *out_size);
      return BTC_PUBKEY_ADDRESS;
    } else if (size >= param->prefix_script_address_size &&
               memcmp(out, param->prefix_script_address,
                      param->prefix_script_address_size) == 0) {
      *out_size = size - param->prefix_script_address_size;
      memmove(out, (char *)out + param->prefix_script_address_size, *out_size);
      return BTC_SCRIPT_ADDRESS;
    }''','''    if (take_prefix(out, &size, param->prefix_pubkey_address,
                    param->prefix_pubkey_address_size)) {
      *out_size = size;
      return BTC_PUBKEY_ADDRESS;
    }
    if (take_prefix(out, &size, param->prefix_script_address,
                    param->prefix_script_address_size)) {
      *out_size = size;
      return BTC_SCRIPT_ADDRESS;
    }'''))
rf('exkey-fromstr-fn','C23 C25 C28',('src/btc/exkey.c','''int fingera_exkey_from_string(''','''static int decode_text(const char *str, size_t str_len, const void *prefix,
                       size_t prefix_size, uint8_t *raw) {
  size_t room = fingera_from_base58_check_length(str_len);
  DECLARE_BUFFER(uint8_t, extkey, room);
  size_t size = fingera_from_base58_check(str, str_len, extkey);
  int ok = size == prefix_size + BIP32_EXTKEY_SIZE &&
           memcmp(extkey, prefix, prefix_size) == 0;
  if (ok) memcpy(raw, extkey + prefix_size, BIP32_EXTKEY_SIZE);
  fingera_cleanse(extkey, room);
  FREE_BUFFER(extkey);
  return ok;
}

int fingera_exkey_from_string('''),('src/btc/exkey.c','''  size_t extkey_size = fingera_from_base58_check_length(str_len);
  DECLARE_BUFFER(uint8_t, extkey, extkey_size);
  size_t size = fingera_from_base58_check(str, str_len, extkey);
  size_t prefix_size = param->prefix_ext_secret_key_size;
  int r = 0;
  if (size == prefix_size + BIP32_EXTKEY_SIZE &&
      memcmp(extkey, param->prefix_ext_secret_key, prefix_size) == 0 &&
      extkey[prefix_size + 41] == 0) {
    fingera_exkey_decode(extkey + prefix_size, key);
    r = 1;
  }
  fingera_cleanse(extkey, extkey_size);
  FREE_BUFFER(extkey);
  return r;''','''  uint8_t raw[BIP32_EXTKEY_SIZE];
  int r = decode_text(str, str_len, param->prefix_ext_secret_key,
                      param->prefix_ext_secret_key_size, raw) &&
          raw[41] == 0;
  if (r) fingera_exkey_decode(raw, key);
  fingera_cleanse(raw, sizeof(raw));
  return r;'''))
rf('rand-helper','C24 C27',('src/random.c','''#include <unistd.h>
void fing''','''#include <unistd.h>
static void read_all(int fd, uint8_t *p, size_t left) {
  do {
    if (left == 0) break;
    ssize_t r = read(fd, p, left);
    if (r <= 0) FINGERA_FATAL("read /dev/urandom %d", (int)r);
    p += r;
    left -= (size_t)r;
  } while (1);
}

void fing'''),('src/random.c','''  while (buf_size != 0) {
    int r = read(fd, buf, buf_size);
    if (r <= 0) {
      FINGERA_FATAL("read /dev/urandom %d", r);
    }
    buf = (char *)buf + r;
    buf_size -= (size_t)r;
  }
''','''  read_all(fd, (uint8_t *)buf, buf_size);
'''),('src/random.c','#include <fingera_libc/random.h>','#include <fingera_libc/random.h>\n#include <stdint.h>\n#include <sys/types.h>'))
rf('bech32-hrpfn','C07 C08 C09',('src/btc/bech32.c','static void create_checksum(','''static uint32_t hrp_mod(const char *hrp, size_t hrp_len) {
  uint32_t mod = 1;
  const char *end = hrp + hrp_len;
  for (const char *p = hrp; p != end; p++) mod = poly_mod((uint8_t)*p >> 5, mod);
  mod = poly_mod(0, mod);
  for (const char *p = hrp; p != end; p++) mod = poly_mod((uint8_t)*p & 31, mod);
  return mod;
}

static void create_checksum('''),('src/btc/bech32.c','''  uint32_t mod = 1;
  for (size_t i = 0; i < hrp_len; i++) {
    mod = poly_mod((uint8_t)hrp[i] >> 5, mod);
  }
  mod = poly_mod(0, mod);
  for (size_t i = 0; i < hrp_len; i++) {
    mod = poly_mod((uint8_t)hrp[i] & 0x1F, mod);
  }
  // values
''','''  uint32_t mod = hrp_mod(hrp, hrp_len);
  // values
'''),('src/btc/bech32.c','''  for (size_t i = 0; i < *hrp_size; i++) {
    hrp[i] = isupper(str[i]) ? tolower(str[i]) : str[i];
  }
''','''  for (size_t i = 0; i < *hrp_size; i++) {
    char c = str[i];
    if (c >= 'A' && c <= 'Z') c = (char)(c - 'A' + 'a');
    hrp[i] = c;
  }
'''),('src/btc/bech32.c','''  const char *pos = NULL;
  for (size_t i = 0; i < str_len; i++) {
    if (str[i] == '1') pos = str + i;
  }
''','''  const char *pos = NULL;
  for (size_t i = str_len; i > 0; i--) {
    if (str[i - 1] == '1') {
      pos = str + i - 1;
      break;
    }
  }
'''))
def go(name):
    props,edits=R[name]
    d='/tmp/rf/w_'+name
    shutil.rmtree(d,ignore_errors=True); subprocess.run(['cp','-a','/repo',d],check=True)
    try:
        for f,a,b in edits:
            s=open(d+'/'+f).read()
            assert a in s,(name,a)
            open(d+'/'+f,'w').write(s.replace(a,b,1))
        for p in (sel or props):
            t=time.time()
            r=subprocess.run(['python3-vt','/verif/check.py',p],env=dict(os.environ,VC_REPO=d),capture_output=True,text=True)
            print(name,p,'rc',r.returncode,'%.0fs'%(time.time()-t),'' if r.returncode==0 else (r.stdout[-600:]+r.stderr[-600:]),flush=True)
    finally: shutil.rmtree(d)
sel=[a for a in sys.argv[1:] if re.fullmatch(r'C\d\d',a)]
names=[a for a in sys.argv[1:] if a in R] or list(R)
for n in names: go(n)
