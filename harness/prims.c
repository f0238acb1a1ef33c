/* The hash primitives against textbook references (FIPS 180-4, FIPS 202).
 * "step" and "final" start from an arbitrary state of the context, so that
 * together with the whole-message jobs they give every message and every split
 * by induction.  Arbitrary states need the members of the context structures;
 * if those no longer mean what they mean today (checked first), such a job
 * gives no answer and only the jobs through the public interface decide. */
#include "vp.h"
#include "sha2.h"
#include "fips202.h"
#include <string.h>
const unsigned vp_ctxsize[3] = { sizeof(SHA256_CTX), sizeof(SHA512_CTX), sizeof(SHAKE256_CTX) };
#define PAR(x) ((unsigned)vp_param(x))
static uint8_t *mk(uint64_t n, const char *name) { return vp_alloc(n ? n : 1, name); }
static uint8_t *sym(uint64_t n, const char *name) { uint8_t *p = mk(n, name); vp_sym(p, n, name); return p; }
#define Ch(x, y, z) (((x) & (y)) ^ (~(x) & (z)))
#define Maj(x, y, z) (((x) & (y)) ^ ((x) & (z)) ^ ((y) & (z)))

/* ---- SHA-256 ---- */
static const uint32_t K256[64] = {
  0x428a2f98,0x71374491,0xb5c0fbcf,0xe9b5dba5,0x3956c25b,0x59f111f1,0x923f82a4,0xab1c5ed5,0xd807aa98,0x12835b01,0x243185be,0x550c7dc3,0x72be5d74,0x80deb1fe,0x9bdc06a7,0xc19bf174,
  0xe49b69c1,0xefbe4786,0x0fc19dc6,0x240ca1cc,0x2de92c6f,0x4a7484aa,0x5cb0a9dc,0x76f988da,0x983e5152,0xa831c66d,0xb00327c8,0xbf597fc7,0xc6e00bf3,0xd5a79147,0x06ca6351,0x14292967,
  0x27b70a85,0x2e1b2138,0x4d2c6dfc,0x53380d13,0x650a7354,0x766a0abb,0x81c2c92e,0x92722c85,0xa2bfe8a1,0xa81a664b,0xc24b8b70,0xc76c51a3,0xd192e819,0xd6990624,0xf40e3585,0x106aa070,
  0x19a4c116,0x1e376c08,0x2748774c,0x34b0bcb5,0x391c0cb3,0x4ed8aa4a,0x5b9cca4f,0x682e6ff3,0x748f82ee,0x78a5636f,0x84c87814,0x8cc70208,0x90befffa,0xa4506ceb,0xbef9a3f7,0xc67178f2 };
static const uint32_t IV256[8] = { 0x6a09e667,0xbb67ae85,0x3c6ef372,0xa54ff53a,0x510e527f,0x9b05688c,0x1f83d9ab,0x5be0cd19 };
#define RR(x, n) (((x) >> (n)) | ((x) << (32 - (n))))
static void ref256(uint32_t *H, const uint8_t *b) {
  uint32_t W[64], a = H[0], bb = H[1], c = H[2], d = H[3], e = H[4], f = H[5], g = H[6], h = H[7];
  for (int t = 0; t < 16; t++) W[t] = (uint32_t)b[4 * t] << 24 | (uint32_t)b[4 * t + 1] << 16 | (uint32_t)b[4 * t + 2] << 8 | b[4 * t + 3];
  for (int t = 16; t < 64; t++) {
    uint32_t s1 = RR(W[t - 2], 17) ^ RR(W[t - 2], 19) ^ (W[t - 2] >> 10), s0 = RR(W[t - 15], 7) ^ RR(W[t - 15], 18) ^ (W[t - 15] >> 3);
    W[t] = s1 + W[t - 7] + s0 + W[t - 16];
  }
  for (int t = 0; t < 64; t++) {
    uint32_t T1 = h + (RR(e, 6) ^ RR(e, 11) ^ RR(e, 25)) + Ch(e, f, g) + K256[t] + W[t], T2 = (RR(a, 2) ^ RR(a, 13) ^ RR(a, 22)) + Maj(a, bb, c);
    h = g; g = f; f = e; e = d + T1; d = c; c = bb; bb = a; a = T1 + T2;
  }
  H[0] += a; H[1] += bb; H[2] += c; H[3] += d; H[4] += e; H[5] += f; H[6] += g; H[7] += h;
}
#undef RR
/* ---- SHA-512 ---- */
static const uint64_t K512[80] = {
  0x428a2f98d728ae22,0x7137449123ef65cd,0xb5c0fbcfec4d3b2f,0xe9b5dba58189dbbc,0x3956c25bf348b538,0x59f111f1b605d019,0x923f82a4af194f9b,0xab1c5ed5da6d8118,0xd807aa98a3030242,0x12835b0145706fbe,
  0x243185be4ee4b28c,0x550c7dc3d5ffb4e2,0x72be5d74f27b896f,0x80deb1fe3b1696b1,0x9bdc06a725c71235,0xc19bf174cf692694,0xe49b69c19ef14ad2,0xefbe4786384f25e3,0x0fc19dc68b8cd5b5,0x240ca1cc77ac9c65,
  0x2de92c6f592b0275,0x4a7484aa6ea6e483,0x5cb0a9dcbd41fbd4,0x76f988da831153b5,0x983e5152ee66dfab,0xa831c66d2db43210,0xb00327c898fb213f,0xbf597fc7beef0ee4,0xc6e00bf33da88fc2,0xd5a79147930aa725,
  0x06ca6351e003826f,0x142929670a0e6e70,0x27b70a8546d22ffc,0x2e1b21385c26c926,0x4d2c6dfc5ac42aed,0x53380d139d95b3df,0x650a73548baf63de,0x766a0abb3c77b2a8,0x81c2c92e47edaee6,0x92722c851482353b,
  0xa2bfe8a14cf10364,0xa81a664bbc423001,0xc24b8b70d0f89791,0xc76c51a30654be30,0xd192e819d6ef5218,0xd69906245565a910,0xf40e35855771202a,0x106aa07032bbd1b8,0x19a4c116b8d2d0c8,0x1e376c085141ab53,
  0x2748774cdf8eeb99,0x34b0bcb5e19b48a8,0x391c0cb3c5c95a63,0x4ed8aa4ae3418acb,0x5b9cca4f7763e373,0x682e6ff3d6b2b8a3,0x748f82ee5defb2fc,0x78a5636f43172f60,0x84c87814a1f0ab72,0x8cc702081a6439ec,
  0x90befffa23631e28,0xa4506cebde82bde9,0xbef9a3f7b2c67915,0xc67178f2e372532b,0xca273eceea26619c,0xd186b8c721c0c207,0xeada7dd6cde0eb1e,0xf57d4f7fee6ed178,0x06f067aa72176fba,0x0a637dc5a2c898a6,
  0x113f9804bef90dae,0x1b710b35131c471b,0x28db77f523047d84,0x32caab7b40c72493,0x3c9ebe0a15c9bebc,0x431d67c49c100d4c,0x4cc5d4becb3e42b6,0x597f299cfc657e2a,0x5fcb6fab3ad6faec,0x6c44198c4a475817 };
static const uint64_t IV512[8] = { 0x6a09e667f3bcc908,0xbb67ae8584caa73b,0x3c6ef372fe94f82b,0xa54ff53a5f1d36f1,0x510e527fade682d1,0x9b05688c2b3e6c1f,0x1f83d9abfb41bd6b,0x5be0cd19137e2179 };
#define RR(x, n) (((x) >> (n)) | ((x) << (64 - (n))))
static void ref512(uint64_t *H, const uint8_t *p) {
  uint64_t W[80], a = H[0], b = H[1], c = H[2], d = H[3], e = H[4], f = H[5], g = H[6], h = H[7];
  for (int t = 0; t < 16; t++) { W[t] = 0; for (int i = 0; i < 8; i++) W[t] = W[t] << 8 | p[8 * t + i]; }
  for (int t = 16; t < 80; t++) {
    uint64_t s1 = RR(W[t - 2], 19) ^ RR(W[t - 2], 61) ^ (W[t - 2] >> 6), s0 = RR(W[t - 15], 1) ^ RR(W[t - 15], 8) ^ (W[t - 15] >> 7);
    W[t] = s1 + W[t - 7] + s0 + W[t - 16];
  }
  for (int t = 0; t < 80; t++) {
    uint64_t T1 = h + (RR(e, 14) ^ RR(e, 18) ^ RR(e, 41)) + Ch(e, f, g) + K512[t] + W[t], T2 = (RR(a, 28) ^ RR(a, 34) ^ RR(a, 39)) + Maj(a, b, c);
    h = g; g = f; f = e; e = d + T1; d = c; c = b; b = a; a = T1 + T2;
  }
  H[0] += a; H[1] += b; H[2] += c; H[3] += d; H[4] += e; H[5] += f; H[6] += g; H[7] += h;
}
#undef RR
#define SHA 256
#include "prim_sha2.inc"
#undef SHA
#define SHA 512
#include "prim_sha2.inc"
#undef SHA

/* ---- SHAKE256 ---- */
/* Keccak-f[1600] as FIPS 202 states it: theta, rho, pi, chi, iota on lanes A[x,y] */
static uint64_t rc(int t) {   /* round constant from the LFSR of section 3.2.5 */
  uint64_t r = 0;
  for (int j = 0; j <= 6; j++) {
    unsigned R = 1;
    for (int i = 1; i <= (j + 7 * t) % 255; i++) { R <<= 1; if (R & 0x100) R ^= 0x171; }
    if (R & 1) r |= (uint64_t)1 << ((1 << j) - 1);
  }
  return r;
}
static uint64_t RC[24]; static unsigned RHO[25];
static void keccak_tables(void) {
  for (int t = 0; t < 24; t++) RC[t] = rc(t);
  int x = 1, y = 0;
  RHO[0] = 0;
  for (int t = 0; t < 24; t++) { RHO[x + 5 * y] = (unsigned)((t + 1) * (t + 2) / 2 % 64); int z = (2 * x + 3 * y) % 5; x = y; y = z; }
}
static void keccak(uint64_t *A) {
  uint64_t C[5], D[5], B[25];
  for (int r = 0; r < 24; r++) {
    for (int x = 0; x < 5; x++) C[x] = A[x] ^ A[x + 5] ^ A[x + 10] ^ A[x + 15] ^ A[x + 20];
    for (int x = 0; x < 5; x++) D[x] = C[(x + 4) % 5] ^ (C[(x + 1) % 5] << 1 | C[(x + 1) % 5] >> 63);
    for (int x = 0; x < 5; x++) for (int y = 0; y < 5; y++) {
      uint64_t v = A[x + 5 * y] ^ D[x]; unsigned n = RHO[x + 5 * y];
      B[y + 5 * ((2 * x + 3 * y) % 5)] = n ? v << n | v >> (64 - n) : v;
    }
    for (int y = 0; y < 5; y++) for (int x = 0; x < 5; x++) A[x + 5 * y] = B[x + 5 * y] ^ (~B[(x + 1) % 5 + 5 * y] & B[(x + 2) % 5 + 5 * y]);
    A[0] ^= RC[r];
  }
}
#define RATE 136
typedef struct { uint64_t a[25]; unsigned pos; } sponge;
static void sp_absorb(sponge *s, const uint8_t *p, unsigned n) {
  for (unsigned i = 0; i < n; i++) {
    s->a[s->pos >> 3] ^= (uint64_t)p[i] << 8 * (s->pos & 7);
    if (++s->pos == RATE) { keccak(s->a); s->pos = 0; }
  }
}
static void sp_pad(sponge *s) {
  s->a[s->pos >> 3] ^= (uint64_t)0x1f << 8 * (s->pos & 7);
  s->a[(RATE - 1) >> 3] ^= (uint64_t)0x80 << 8 * ((RATE - 1) & 7);
  keccak(s->a); s->pos = 0;
}
static void sp_squeeze(sponge *s, uint8_t *o, unsigned n) {
  for (unsigned i = 0; i < n; i++) {
    if (s->pos == RATE) { keccak(s->a); s->pos = 0; }
    o[i] = (uint8_t)(s->a[s->pos >> 3] >> 8 * (s->pos & 7)); s->pos++;
  }
}
/* whole computations through the public interface: m0 bytes in pieces of m1 (0:
 * one call), k bytes out in pieces of t (0: one call); lengths m0..last step mstep */
void h_shake_msg(void) {
  keccak_tables();
  unsigned out = PAR("k");
  uint8_t *all = sym(PAR("last") + 1, "message");
  for (unsigned L = PAR("m0"); L <= PAR("last"); L += PAR("mstep")) {
    SHAKE256_CTX *c = (void *)mk(sizeof *c, "ctx");
    uint8_t *m = mk(L, "message"), *o = mk(out, "output"), *e = mk(out, "expected");
    memcpy(m, all, L); vp_ro(m);
    sponge s; memset(&s, 0, sizeof s);
    sp_absorb(&s, m, L); sp_pad(&s); sp_squeeze(&s, e, out);
    ts_shake256_inc_init(c);
    unsigned pi = PAR("m1") ? PAR("m1") : L + 1, po = PAR("t") ? PAR("t") : out + 1, at = 0;
    while (at < L) { unsigned n = L - at < pi ? L - at : pi; ts_shake256_inc_absorb(c, m + at, n); at += n; }
    if (L == 0) ts_shake256_inc_absorb(c, m, 0);
    ts_shake256_inc_finalize(c);
    for (at = 0; at < out;) { unsigned n = out - at < po ? out - at : po; ts_shake256_inc_squeeze(o + at, n, c); at += n; }
    vp_assert_eq(o, e, out, "SHAKE256 output");
    vp_free(c); vp_free(m); vp_free(o); vp_free(e);
  }
  vp_cov("compared");
}
/* C25: automatic storage of the primitives (limit) */
#define AUTO(call) (vp_stack(L), call, vp_stack_done())
#define SHA2AUTO(ts, CTX, w) do { \
    CTX *c = (void *)mk(sizeof *c, "ctx"); w *st = (void *)mk(64, "saved"); \
    AUTO(ts##_init(c)); AUTO(ts##_update(c, m, 8 * sizeof(w) * 2)); AUTO(ts##_save_state(st, c)); \
    AUTO(ts##_update(c, m, n)); AUTO(ts##_update(c, m, 3)); if (t) AUTO(ts##_final(o, c)); else AUTO(ts##_final_trunc(o, c, 16)); \
  } while (0)
void h_prim_auto(void) {
  uint64_t L = vp_param("limit");
  uint8_t *m = sym(PAR("last") + 256, "message"), *o = mk(512, "output");
  for (unsigned n = PAR("m0"); n <= PAR("last"); n += PAR("mstep")) for (int t = 0; t < 2; t++) {
    if (PAR("mode") == 0) SHA2AUTO(ts_SHA256, SHA256_CTX, uint32_t);
    else if (PAR("mode") == 1) SHA2AUTO(ts_SHA512, SHA512_CTX, uint64_t);
    else {
      SHAKE256_CTX *c = (void *)mk(sizeof *c, "ctx");
      AUTO(ts_shake256_inc_init(c)); AUTO(ts_shake256_inc_absorb(c, m, n)); AUTO(ts_shake256_inc_absorb(c, m, 3)); AUTO(ts_shake256_inc_finalize(c));
      AUTO(ts_shake256_inc_squeeze(o, t ? 1 : 300, c)); AUTO(ts_shake256_inc_squeeze(o, 200, c));
    }
  }
  vp_cov("compared");
}
/* As for SHA-2: the state is set directly where the context is laid out as known;
 * otherwise it is the one after a block and pos further (symbolic) bytes. */
#ifdef VP_NOLAYOUT
#define SHAKE_KNOWN 0
#else
#define SHAKE_KNOWN shake_layout()
static int shake_layout(void) {
  SHAKE256_CTX c; uint8_t m[10] = { 1, 2, 3, 4, 5, 6, 7, 8, 9, 10 };
  memset(&c, 0x77, sizeof c);
  ts_shake256_inc_init(&c); ts_shake256_inc_absorb(&c, m, 10);
  return c.s[25] == 10 && c.s[0] == 0x0807060504030201ull && c.s[1] == 0x0a09 && c.s[2] == 0;
}
static void from(SHAKE256_CTX *c, const sponge *s, unsigned pos) { memcpy(c->s, s->a, 200); c->s[25] = pos; }
#endif
static uint8_t shakePre[2 * RATE];
static int shake_start(sponge *s0) {
  int known = SHAKE_KNOWN;
  memset(s0, 0, sizeof *s0);
  vp_sym(s0->a, 200, "state");
  if (!known) { vp_note("context layout not as known"); memcpy(shakePre, s0->a, 200); memcpy(shakePre + 200, s0->a, 2 * RATE - 200); }
  return known;
}
static void shake_state(int known, SHAKE256_CTX *c, sponge *s, const sponge *s0, unsigned pos) {
#ifndef VP_NOLAYOUT
  if (known) { from(c, s0, pos); *s = *s0; s->pos = pos; return; }
#endif
  memset(s, 0, sizeof *s);
  sp_absorb(s, shakePre, RATE + pos);
  ts_shake256_inc_init(c); ts_shake256_inc_absorb(c, shakePre, RATE + pos);
}
/* from an arbitrary state with p bytes absorbed in the block, absorb m more */
void h_shake_absorb(void) {
  keccak_tables();
  unsigned first = PAR("first"), last = PAR("last"), m0 = PAR("m0"), m1 = PAR("m1"), step = PAR("mstep");
  sponge s0, s; int known = shake_start(&s0);
  uint8_t *m = sym(m1, "input"); vp_ro(m);
  uint8_t o[RATE + 8], e[RATE + 8];
  SHAKE256_CTX *c = (void *)mk(sizeof *c, "ctx");
  for (unsigned p = first; p <= last; p++)
    for (unsigned k = m0; k <= m1; k += step) {
      if (!known && k > 1 && (7 * p + k) % 23) continue;
      shake_state(known, c, &s, &s0, p);
      sp_absorb(&s, m, k);
      ts_shake256_inc_absorb(c, m, k);
#ifndef VP_NOLAYOUT
      if (known) {
        SHAKE256_CTX w; from(&w, &s, s.pos);
        if (vp_same(&w, c, sizeof w)) { vp_assert_eq(&w, c, sizeof w, "SHAKE256 state after absorbing"); continue; }
      }
#endif
      sp_pad(&s); sp_squeeze(&s, e, sizeof e);
      ts_shake256_inc_finalize(c); ts_shake256_inc_squeeze(o, sizeof o, c);
      vp_assert_eq(o, e, sizeof e, "SHAKE256 output after absorbing");
    }
  vp_cov("compared");
}
/* finalize from an arbitrary state, then squeeze pieces m0, m1, mstep */
void h_shake_squeeze(void) {
  keccak_tables();
  unsigned first = PAR("first"), last = PAR("last"), q[3] = { PAR("m0"), PAR("m1"), PAR("mstep") }, tot = q[0] + q[1] + q[2];
  sponge s0, s; int known = shake_start(&s0);
  SHAKE256_CTX *c = (void *)mk(sizeof *c, "ctx");
  uint8_t *e = mk(tot, "expected");
  for (unsigned p = first; p <= last; p++) {
    shake_state(known, c, &s, &s0, p);
    sp_pad(&s); sp_squeeze(&s, e, tot);
    ts_shake256_inc_finalize(c);
    unsigned at = 0;
    for (int i = 0; i < 3; i++) {
      uint8_t *o = mk(q[i], "output");
      ts_shake256_inc_squeeze(o, q[i], c);
      vp_assert_eq(o, e + at, q[i], "SHAKE256 output");
      vp_free(o); at += q[i];
    }
  }
  vp_cov("compared");
}
/* every way of squeezing: after p bytes, a request of m */
void h_shake_requests(void) {
  keccak_tables();
  unsigned first = PAR("first"), last = PAR("last"), m0 = PAR("m0"), m1 = PAR("m1"), step = PAR("mstep");
  sponge s0, s; int known = shake_start(&s0);
  SHAKE256_CTX *c = (void *)mk(sizeof *c, "ctx"), *d = (void *)mk(sizeof *d, "copy");
  uint8_t *e = mk(last + m1 + 8, "expected"), *o = mk(last + m1 + 8, "output");
  shake_state(known, c, &s, &s0, 0);
  sp_pad(&s); sp_squeeze(&s, e, last + m1 + 8);
  ts_shake256_inc_finalize(c);
  if (first) { ts_shake256_inc_squeeze(o, first, c); vp_assert_eq(o, e, first, "SHAKE256 output"); }
  for (unsigned p = first; p <= last; p++) {
    for (unsigned k = m0; k <= m1; k += step) {
      memcpy(d, c, sizeof *d);
      ts_shake256_inc_squeeze(o, k, d);
      vp_assert_eq(o, e + p, k, "SHAKE256 output of a request");
      ts_shake256_inc_squeeze(o, 8, d);
      vp_assert_eq(o, e + p + k, 8, "SHAKE256 output after a request");
    }
    ts_shake256_inc_squeeze(o, 1, c);
    vp_assert_eq(o, e + p, 1, "SHAKE256 output byte");
  }
  vp_cov("compared");
}
/* an input of symbolic 64-bit length: the call may not return having read only
 * the first m0 bytes (reading the byte behind them ends the path) */
void h_shake_huge(void) {
  unsigned n = PAR("m0"); uint64_t len;
  SHAKE256_CTX *c = (void *)mk(sizeof *c, "ctx");
  vp_sym(&len, 8, "length");
  vp_assume(len > n && len < (uint64_t)1 << 61);
  uint8_t *m = vp_stop(n, "input");
  ts_shake256_inc_init(c); ts_shake256_inc_absorb(c, m, PAR("first"));
  vp_cov("long input");
  ts_shake256_inc_absorb(c, m, len);
  vp_assert(0, "absorbing returns before all of the input has been read");
}

/* C23: the hash functions take no decision on the bytes they absorb */
void h_ct_hash(void) {
  unsigned last = PAR("last"), split = PAR("m1");
  uint8_t *p = sym(last + 1, "data"), *pre = sym(128, "prefix");
  vp_secret(p, last + 1); vp_secret(pre, 128);
  for (unsigned m = PAR("m0"); m <= last; m += PAR("mstep")) {
    uint8_t *o = mk(64, "digest");
    unsigned a = split < m ? split : m;
    SHA256_CTX *c = mk(sizeof *c, "ctx"); uint32_t *st = mk(32, "state");
    ts_SHA256_init(c); ts_SHA256_update(c, p, a); ts_SHA256_update(c, p + a, m - a); ts_SHA256_final(o, c);
    ts_SHA256_init(c); ts_SHA256_update(c, pre, 64); ts_SHA256_save_state(st, c);
    ts_SHA256_restore_state_after_64(c, st); ts_SHA256_update(c, p, m); ts_SHA256_final_trunc(o, c, 16);
    SHA512_CTX *d = mk(sizeof *d, "ctx"); uint64_t *su = mk(64, "state");
    ts_SHA512_init(d); ts_SHA512_update(d, p, a); ts_SHA512_update(d, p + a, m - a); ts_SHA512_final(o, d);
    ts_SHA512_init(d); ts_SHA512_update(d, pre, 128); ts_SHA512_save_state(su, d);
    ts_SHA512_restore_state_after_128(d, su); ts_SHA512_update(d, p, m); ts_SHA512_final_trunc(o, d, 24);
    SHAKE256_CTX *e = mk(sizeof *e, "ctx");
    ts_shake256_inc_init(e); ts_shake256_inc_absorb(e, p, a); ts_shake256_inc_absorb(e, p + a, m - a); ts_shake256_inc_finalize(e);
    ts_shake256_inc_squeeze(o, 16, e); ts_shake256_inc_squeeze(o, 32, e);
    vp_free(o); vp_free(c); vp_free(st); vp_free(d); vp_free(su); vp_free(e);
  }
  vp_cov("hashed");
}
