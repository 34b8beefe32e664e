#define VP_HOOK_IMPL
#include "hook.h"
#include <stdarg.h>
#include <stdint.h>
#include <setjmp.h>
#include <pthread.h>
#include <fingera_libc/base32.h>
#include <fingera_libc/base58.h>
#include <fingera_libc/base64.h>
#include <fingera_libc/hex.h>
#include <fingera_libc/btc/address.h>
#include <fingera_libc/btc/base58_check.h>
#include <fingera_libc/btc/bech32.h>
#include <fingera_libc/btc/exkey.h>
#include <fingera_libc/btc/key.h>

/* ---- scripted random device */
static const unsigned char *rnd; static size_t rnd_n, rnd_pos;
static size_t chunk[64]; static int nchunk, ichunk;
int vp_fd = 777, vp_opens, vp_closes, vp_open_fail, vp_bad_fd, vp_read_calls, vp_script;
char vp_path[256];
void vp_random_script(const void *data, size_t n, const size_t *chunks, int k) {
  rnd = data; rnd_n = n; rnd_pos = 0; nchunk = k; ichunk = 0; vp_opens = vp_closes = vp_bad_fd = vp_read_calls = 0; vp_script = 1;
  for (int i = 0; i < k; i++) chunk[i] = chunks[i];
}
size_t vp_random_used(void) { return rnd_pos; }
int vp_open(const char *path, int flags, ...) {
  if (!vp_script) return open(path, flags);
  vp_opens++;
  strncpy(vp_path, path, sizeof vp_path - 1);
  return vp_open_fail ? -1 : vp_fd;
}
ssize_t vp_read(int fd, void *buf, size_t n) {
  if (!vp_script) return read(fd, buf, n);
  if (fd != vp_fd) vp_bad_fd++;
  vp_read_calls++;
  size_t k = n;
  if (ichunk < nchunk) { size_t c = chunk[ichunk++]; if (c == (size_t)-1) return -1; if (c < k) k = c; }
  if (k > rnd_n - rnd_pos) k = rnd_n - rnd_pos;
  memcpy(buf, rnd + rnd_pos, k);
  rnd_pos += k;
  return (ssize_t)k;
}
int vp_close(int fd) { if (!vp_script) return close(fd); vp_closes++; if (fd != vp_fd) vp_bad_fd++; return 0; }

/* ---- allocator: sizes remembered, contents checked when freed */
#define MAXA 4096
static struct { void *p; size_t n; } tab[MAXA];
int vp_live; int vp_dirty_frees; unsigned char vp_dirty[4096]; size_t vp_dirty_n; size_t vp_allocs;
static volatile int plain;
void *vp_malloc(size_t n) {
  if (plain) return malloc(n);
  void *p = malloc(n);
  if (p) { memset(p, 0xD7, n); for (int i = 0; i < MAXA; i++) if (!tab[i].p) { tab[i].p = p; tab[i].n = n; break; } vp_live++; vp_allocs++; }
  return p;
}
void *vp_calloc(size_t n, size_t m) { void *p = vp_malloc(n * m); if (p) memset(p, 0, n * m); return p; }
void vp_free(void *p) {
  if (plain) { free(p); return; }
  if (!p) return;
  for (int i = 0; i < MAXA; i++) if (tab[i].p == p) {
    const unsigned char *b = p; int dirty = 0, v = -1;
    for (size_t j = 0; j < tab[i].n; j++) if (b[j] != 0xD7) { if (v < 0) v = b[j]; else if (v != b[j]) dirty = 1; }
    if (dirty) { vp_dirty_frees++; vp_dirty_n = tab[i].n < sizeof vp_dirty ? tab[i].n : sizeof vp_dirty; memcpy(vp_dirty, p, vp_dirty_n); }
    tab[i].p = 0; break;
  }
  vp_live--;
  free(p);
}

/* ---- standard output */
unsigned char *vp_out; size_t vp_out_n, vp_out_cap;
static void put(const void *p, size_t n) {
  if (vp_out_n + n > vp_out_cap) { vp_out_cap = (vp_out_n + n) * 2; vp_out = realloc(vp_out, vp_out_cap); }
  memcpy(vp_out + vp_out_n, p, n); vp_out_n += n;
}
size_t vp_fwrite(const void *p, size_t s, size_t n, FILE *f) { if (f != stdout) return fwrite(p, s, n, f); put(p, s * n); return n; }
int vp_fputc(int c, FILE *f) { if (f != stdout) return fputc(c, f); unsigned char b = c; put(&b, 1); return b; }
int vp_fputs(const char *s, FILE *f) { if (f != stdout) return fputs(s, f); put(s, strlen(s)); return 1; }

/* ---- fatal errors end the call, not the process */
static jmp_buf jb; int vp_guard, vp_exited;
void vp_exit(int code) { if (vp_guard) { vp_exited = 1; longjmp(jb, 1); } _exit(code == 0 ? 9 : code); }
void fingera_os_rand_bytes(void *buf, size_t buf_size);
int vp_rand_guarded(void *buf, size_t n) {
  vp_exited = 0; vp_guard = 1;
  if (!setjmp(jb)) fingera_os_rand_bytes(buf, n);
  vp_guard = 0;
  return vp_exited;
}

/* ---- the header-only functions */
size_t vp_to_hex_length(size_t n) { return fingera_to_hex_length(n); }
size_t vp_from_hex_length(size_t n) { return fingera_from_hex_length(n); }
size_t vp_to_base32_length(size_t n) { return fingera_to_base32_length(n); }
size_t vp_to_base64_length(size_t n) { return fingera_to_base64_length(n); }
size_t vp_to_base64_urlsafe_length(size_t n) { return fingera_to_base64_urlsafe_length(n); }
size_t vp_from_base64_length(const char *s, size_t n) { return fingera_from_base64_length(s, n); }
size_t vp_from_base64_urlsafe_length(size_t n) { return fingera_from_base64_urlsafe_length(n); }
size_t vp_to_base58_length(size_t n) { return fingera_to_base58_length(n); }
size_t vp_from_base58_length(size_t n) { return fingera_from_base58_length(n); }
size_t vp_to_base58_check_length(size_t n, size_t p) { return fingera_to_base58_check_length(n, p); }
size_t vp_from_base58_check_length(size_t n) { return fingera_from_base58_check_length(n); }
size_t vp_bech32_encode_length(size_t h, size_t n) { return fingera_bech32_encode_length(h, n); }
size_t vp_exkey_string_max_length(void) { return fingera_exkey_string_max_length(); }
size_t vp_key_string_max_length(void) { return fingera_key_string_max_length(); }

/* ---- the key module from several threads: every thread must see what a sequential run gives */
#define NT 8
#define OUT 4096
static uint64_t mix(uint64_t *s) { uint64_t z = (*s += 0x9E3779B97F4A7C15ull); z = (z ^ z >> 30) * 0xBF58476D1CE4E5B9ull; z = (z ^ z >> 27) * 0x94D049BB133111EBull; return z ^ z >> 31; }
static void fill(uint64_t *s, void *p, size_t n) { for (size_t i = 0; i < n; i++) ((uint8_t *)p)[i] = mix(s) >> 11; }
static size_t run_script(uint64_t seed, uint8_t *o) {
  uint8_t *b = o, key[32], hash[32], chain[32], pub[64], sig[64], enc[300], k2[32], p33[33], p65[65], sd[64], x74[74]; char txt[256];
  memset(o, 0, OUT);
#define PUT(p, n) (memcpy(o, p, n), o += n)
#define PUTI(v) do { uint64_t v_ = (uint64_t)(v); PUT(&v_, 8); } while (0)
  fill(&seed, key, 32); key[0] &= 0x7f; key[31] |= 1; fill(&seed, hash, 32); fill(&seed, chain, 32); fill(&seed, sd, 64);
  uint32_t child = mix(&seed) & 0x7fffffff;
  fingera_btc_key_get_pub(key, pub);
  PUTI(fingera_btc_pubkey_encode(pub, p33, 33)); PUT(p33, 33);
  PUTI(fingera_btc_pubkey_encode(pub, p65, 65)); PUT(p65, 65);
  memset(pub, 0, 64); PUTI(fingera_btc_pubkey_decode(p33, 33, pub));
  fingera_btc_key_sign(key, hash, sig);
  size_t n = fingera_btc_signature_encode(sig, enc); PUTI(n); PUT(enc, n);
  memset(sig, 0, 64); PUTI(fingera_btc_signature_decode(enc, n, sig));
  PUTI(fingera_btc_key_verify(pub, hash, sig)); hash[3] ^= 1; PUTI(fingera_btc_key_verify(pub, hash, sig));
  uint8_t oc[32], op[33];
  PUTI(fingera_btc_key_derive(key, chain, k2, oc, child)); PUT(k2, 32); PUT(oc, 32);
  PUTI(fingera_btc_key_derive(key, chain, k2, oc, child | 0x80000000u)); PUT(k2, 32);
  PUTI(fingera_btc_pubkey_derive(p33, chain, op, oc, child)); PUT(op, 33); PUT(oc, 32);
  PUTI(fingera_btc_key_encode(key, enc, 279)); PUT(enc, 279); memset(k2, 0, 32); PUTI(fingera_btc_key_decode(enc, 279, k2)); PUT(k2, 32);
  PUTI(fingera_btc_key_encode(key, enc, 214)); PUT(enc, 214); memset(k2, 0, 32); PUTI(fingera_btc_key_decode(enc, 214, k2)); PUT(k2, 32);
  uint8_t id[20];
  for (int c = 0; c < 2; c++) {
    fingera_btc_key_keyid(key, c, id); PUT(id, 20); fingera_btc_pubkey_keyid(pub, c, id); PUT(id, 20);
    PUTI(fingera_btc_key_fingerprint(key, c)); PUTI(fingera_btc_pubkey_fingerprint(p33));
    memset(txt, 0, sizeof txt); n = fingera_btc_key_to_string(key, txt, c, &g_mainnet_chain_parameters); PUTI(n); PUT(txt, n);
    int f = 0; memset(k2, 0, 32); PUTI(fingera_btc_key_from_string(txt, n, k2, &f, &g_mainnet_chain_parameters)); PUT(k2, 32); PUTI(f);
  }
  fingera_ex_key ek, ed; fingera_ex_pubkey ep, eq;
  memset(&ek, 0, sizeof ek); memset(&ed, 0, sizeof ed); memset(&ep, 0, sizeof ep); memset(&eq, 0, sizeof eq);
  fingera_exkey_init(&ek, sd, 64); PUT(ek.key, 32); PUT(ek.ext.chain_code, 32);
  PUTI(fingera_exkey_derive(&ek, &ed, child, 7)); fingera_exkey_encode(&ed, x74); PUT(x74, 74);
  fingera_exkey_get_pub(&ek, &ep); PUTI(fingera_expubkey_derive(&ep, &eq, child, 7)); fingera_expubkey_encode(&eq, x74); PUT(x74, 74);
  n = fingera_exkey_to_string(&ed, txt, &g_mainnet_chain_parameters); PUTI(n); PUT(txt, n); memset(&ed, 0, sizeof ed);
  PUTI(fingera_exkey_from_string(txt, n, &ed, &g_mainnet_chain_parameters)); fingera_exkey_encode(&ed, x74); PUT(x74, 74);
  n = fingera_expubkey_to_string(&eq, txt, &g_mainnet_chain_parameters); PUTI(n); PUT(txt, n); memset(&eq, 0, sizeof eq);
  PUTI(fingera_expubkey_from_string(txt, n, &eq, &g_mainnet_chain_parameters)); fingera_expubkey_encode(&eq, x74); PUT(x74, 74);
  return o - b;
}
static struct job { uint64_t seed; int rounds, bad; uint8_t want[OUT], got[OUT]; uint8_t fresh[64][32]; } *jobs;
static pthread_barrier_t bar;
static void *job(void *a) {
  struct job *j = a;
  pthread_barrier_wait(&bar);
  for (int i = 0; i < j->rounds; i++) {
    run_script(j->seed, j->got);
    if (memcmp(j->want, j->got, OUT)) j->bad = 1;
    fingera_btc_key_new(j->fresh[i % 64]);
  }
  return 0;
}
/* 0: as sequential; 1: another result; 2: two threads drew the same key */
int vp_stress(uint64_t seed, int rounds) {
  int bad = 0; pthread_t t[NT];
  jobs = calloc(NT, sizeof *jobs); pthread_barrier_init(&bar, 0, NT); plain = 1; vp_script = 0;
  for (int i = 0; i < NT; i++) { jobs[i].seed = seed * 64 + i; jobs[i].rounds = rounds; run_script(jobs[i].seed, jobs[i].want); }
  for (int i = 0; i < NT; i++) pthread_create(t + i, 0, job, jobs + i);
  for (int i = 0; i < NT; i++) pthread_join(t[i], 0);
  for (int i = 0; i < NT; i++) if (jobs[i].bad) bad = 1;
  for (int i = 0; i < NT * 64 && !bad; i++) for (int k = 0; k < i; k++)
    if (k % 64 < rounds && i % 64 < rounds && !memcmp(jobs[i / 64].fresh[i % 64], jobs[k / 64].fresh[k % 64], 32)) bad = 2;
  plain = 0; free(jobs); pthread_barrier_destroy(&bar);
  return bad;
}
