/* template: SHA is 256 or 512 */
#if SHA == 256
#define CTX SHA256_CTX
#define WORD uint32_t
#define BLK 64
#define FN(x) ts_SHA256_##x
#define H(x) h_sha256_##x
#define L(x) l256_##x
#define REF ref256
#define IV IV256
#define STATE h
#define NUM num
#define RESTORE ts_SHA256_restore_state_after_64
#define NAME "SHA-256"
#else
#define CTX SHA512_CTX
#define WORD uint64_t
#define BLK 128
#define FN(x) ts_SHA512_##x
#define H(x) h_sha512_##x
#define L(x) l512_##x
#define REF ref512
#define IV IV512
#define STATE state
#define NUM in_buffer
#define RESTORE ts_SHA512_restore_state_after_128
#define NAME "SHA-512"
#endif
#define WB ((int)sizeof(WORD))
typedef struct { WORD h[8]; uint64_t bytes; unsigned n; uint8_t b[BLK]; } L(st);
static void L(add)(L(st) *s, const uint8_t *p, unsigned n) {
  for (unsigned i = 0; i < n; i++) { s->b[s->n++] = p[i]; if (s->n == BLK) { REF(s->h, s->b); s->n = 0; } }
  s->bytes += n;
}
static void L(fin)(L(st) *s, uint8_t *o) {   /* message length in bits: 64 bits suffice below 2^61 bytes */
  uint64_t bits = 8 * s->bytes; uint8_t z[1] = { 0x80 }, len[8];
  L(add)(s, z, 1); z[0] = 0;
  while (s->n != BLK - 8) L(add)(s, z, 1);
  for (int i = 0; i < 8; i++) len[i] = (uint8_t)(bits >> 8 * (7 - i));
  /* the upper half of SHA-512's 128-bit length is the zeros before */
  L(add)(s, len, 8);
  for (int i = 0; i < 8 * WB; i++) o[i] = (uint8_t)(s->h[i / WB] >> 8 * (WB - 1 - i % WB));
}
#if SHA == 512
/* 112 bytes of data and padding, then 16 of length: padding that would end in
 * the last 16 bytes goes to another block */
static void L(fin16)(L(st) *s, uint8_t *o) {
  uint64_t bits = 8 * s->bytes; uint8_t z[1] = { 0x80 }, len[16];
  L(add)(s, z, 1); z[0] = 0;
  while (s->n != BLK - 16) L(add)(s, z, 1);
  for (int i = 0; i < 16; i++) len[i] = i < 8 ? 0 : (uint8_t)(bits >> 8 * (15 - i));
  L(add)(s, len, 16);
  for (int i = 0; i < 8 * WB; i++) o[i] = (uint8_t)(s->h[i / WB] >> 8 * (WB - 1 - i % WB));
}
#define FIN L(fin16)
#else
#define FIN L(fin)
#endif
static void L(start)(L(st) *s) { for (int i = 0; i < 8; i++) s->h[i] = IV[i]; s->bytes = 0; s->n = 0; }
/* messages of m0..last bytes (step mstep), in pieces of m1 (0: one call) */
void H(msg)(void) {
  uint8_t *all = sym(PAR("last") + 1, "message");
  for (unsigned len = PAR("m0"); len <= PAR("last"); len += PAR("mstep")) {
    CTX *c = (void *)mk(sizeof *c, "ctx"); L(st) s;
    uint8_t *m = mk(len, "message"), *o = mk(8 * WB, "digest"), e[8 * WB];
    memcpy(m, all, len); vp_ro(m);
    L(start)(&s); L(add)(&s, m, len); FIN(&s, e);
    FN(init)(c);
    unsigned pi = PAR("m1") ? PAR("m1") : len + 1, at = 0;
    if (!len) FN(update)(c, m, 0);
    while (at < len) { unsigned n = len - at < pi ? len - at : pi; FN(update)(c, m + at, n); at += n; }
    FN(final)(o, c);
    vp_assert_eq(o, e, 8 * WB, NAME " digest");
    vp_free(c); vp_free(m); vp_free(o);
  }
  vp_cov("compared");
}
/* An arbitrary state: chaining value h, p buffered bytes, q whole blocks before.
 * With the members of the context as known they are set directly, and what lies
 * behind the buffered bytes stays as the caller left it.  Otherwise the state is
 * reached through the interface: restored from a saved chaining value (q is 1). */
#ifdef VP_NOLAYOUT
#define KNOWN 0
#else
#define KNOWN L(layout)()
static int L(layout)(void) {
  CTX c; uint8_t m[5] = { 1, 2, 3, 4, 5 };
  memset(&c, 0x77, sizeof c);
  FN(init)(&c); FN(update)(&c, m, 5);
  if (c.NUM != 5 || c.count != 40) return 0;
  for (int i = 0; i < 5; i++) if (c.x.data[i] != m[i]) return 0;
  for (int i = 0; i < 8; i++) if (c.STATE[i] != IV[i]) return 0;
  return 1;
}
#endif
static void L(arb)(int known, CTX *c, L(st) *s, const WORD *h, const uint8_t *b, unsigned p, uint64_t q) {
  if (!known) q = 1;
  for (int i = 0; i < 8; i++) s->h[i] = h[i];
  s->bytes = q * BLK + p; s->n = p;
  for (unsigned i = 0; i < p; i++) s->b[i] = b[i];
#ifndef VP_NOLAYOUT
  if (known) {
    for (int i = 0; i < 8; i++) c->STATE[i] = h[i];
    for (unsigned i = 0; i < p; i++) c->x.data[i] = b[i];
    c->NUM = p; c->count = 8 * s->bytes;
    return;
  }
#endif
  RESTORE(c, h);
  if (p) FN(update)(c, b, p);
}
/* the context holds exactly this state (0: or it cannot be told) */
static int L(same)(int known, CTX *c, L(st) *s) {
#ifndef VP_NOLAYOUT
  uint64_t bits = 8 * s->bytes;
  return known && vp_same(c->STATE, s->h, sizeof s->h) && c->NUM == s->n && vp_same(c->x.data, s->b, s->n) && vp_same(&c->count, &bits, 8);
#else
  return 0;
#endif
}
#define ARB WORD h0[8]; uint8_t b0[BLK]; uint64_t q; \
  vp_sym(h0, sizeof h0, "chaining value"); vp_sym(b0, BLK, "buffered bytes"); vp_sym(&q, 8, "blocks"); \
  q &= ((uint64_t)1 << (SHA == 256 ? 54 : 53)) - 1; \
  int known = KNOWN; if (!known) vp_note("context layout not as known");
void H(step)(void) {
  ARB
  unsigned first = PAR("first"), last = PAR("last"), m0 = PAR("m0"), m1 = PAR("m1"), step = PAR("mstep");
  uint8_t *m = sym(m1, "input"), o[8 * WB], e[8 * WB]; vp_ro(m);
  CTX *c = (void *)mk(sizeof *c, "ctx");
  for (unsigned p = first; p <= last; p++)
    for (unsigned k = m0; k <= m1; k += step) {
      if (!known && k > 1 && (7 * p + k) % 23) continue;
      L(st) s;
      vp_sym(c, sizeof *c, "old contents");
      L(arb)(known, c, &s, h0, b0, p, q);
      L(add)(&s, m, k);
      FN(update)(c, m, k);
      if (L(same)(known, c, &s)) { vp_assert_eq(s.h, s.h, sizeof s.h, NAME " chaining value after an update"); continue; }
      FIN(&s, e); FN(final)(o, c);
      vp_assert_eq(o, e, 8 * WB, NAME " digest after an update");
    }
  vp_cov("compared");
}
/* final from every buffer fill first..last; m0: digest bytes wanted (0: the plain call) */
void H(fin)(void) {
  ARB
  unsigned first = PAR("first"), last = PAR("last"), n = PAR("m0");
  for (unsigned p = first; p <= last; p++) {
    L(st) s; CTX *c = (void *)mk(sizeof *c, "ctx"); uint8_t e[8 * WB];
    unsigned w = n ? n : 8 * WB;
    uint8_t *o = mk(w, "digest");
    vp_sym(c, sizeof *c, "old contents");
    L(arb)(known, c, &s, h0, b0, p, q);
    FIN(&s, e);
    if (n) FN(final_trunc)(o, c, n); else FN(final)(o, c);
    vp_assert_eq(o, e, w, NAME " digest");
    vp_free(c); vp_free(o);
  }
  vp_cov("compared");
}
/* a truncated digest is the prefix of the full one and nothing else is written;
 * messages m0..last, through the public interface */
void H(trunc)(void) {
  uint8_t *all = sym(PAR("last") + 1, "message");
  for (unsigned len = PAR("m0"); len <= PAR("last"); len += PAR("mstep"))
    for (unsigned n = WB; n <= 8 * (unsigned)WB; n += WB) {
      CTX *c = (void *)mk(sizeof *c, "ctx"); L(st) s;
      uint8_t *m = mk(len, "message"), *o = sym(8 * WB + 8, "destination"), *z = sym(8 * WB + 8, "destination"), *x = mk(n, "exact"), e[8 * WB];
      memcpy(m, all, len);
      L(start)(&s); L(add)(&s, m, len); FIN(&s, e);
      FN(init)(c); FN(update)(c, m, len); FN(final_trunc)(o, c, n);
      vp_assert_eq(o, e, n, NAME " truncated digest");
      vp_assert_eq(o + n, z + n, 8 * WB + 8 - n, "bytes after the truncated digest are unchanged");
      FN(init)(c); FN(update)(c, m, len); FN(final_trunc)(x, c, n);
      vp_free(c); vp_free(m); vp_free(o); vp_free(z); vp_free(x);
    }
  vp_cov("compared");
}
/* the state saved after one block and restored into any context continues as the
 * original; continuation of m0..last bytes */
void H(save)(void) {
  uint8_t *all = sym(PAR("last") + 1, "message");
  for (unsigned len = PAR("m0"); len <= PAR("last"); len += PAR("mstep")) {
    CTX *c = (void *)mk(sizeof *c, "ctx"), *d = (void *)mk(sizeof *d, "second"); L(st) s;
    uint8_t *b = sym(BLK, "block"), *m = mk(len, "message"), *o = mk(8 * WB, "digest"), e[8 * WB];
    memcpy(m, all, len);
    WORD *sv = (void *)mk(8 * WB, "saved");
    unsigned split = PAR("m1") % (BLK + 1);
    L(start)(&s); L(add)(&s, b, BLK); L(add)(&s, m, len); FIN(&s, e);
    FN(init)(c); FN(update)(c, b, split); FN(update)(c, b + split, BLK - split);
    FN(save_state)(sv, c);
    vp_ro(sv);
    vp_sym(d, sizeof *d, "old contents");
    RESTORE(d, sv);
    FN(update)(d, m, len); FN(final)(o, d);
    vp_assert_eq(o, e, 8 * WB, NAME " digest from a restored state");
    /* saving does not disturb the context saved from */
    FN(update)(c, m, len); FN(final)(o, c);
    vp_assert_eq(o, e, 8 * WB, NAME " digest continued after saving");
    /* and the saved state can be used again */
    RESTORE(d, sv);
    FN(update)(d, m, len); FN(final)(o, d);
    vp_assert_eq(o, e, 8 * WB, NAME " digest from a state restored twice");
    vp_free(c); vp_free(d); vp_free(b); vp_free(m); vp_free(o); vp_free(sv);
  }
  vp_cov("compared");
}
/* The count of one update of symbolic size: when the end of the data at hand is
 * reached, the context (which counts bits, or perhaps bytes: the unit is seen from the
 * update before) has counted nothing of it yet, what was processed so far, or all of it.
 * A counterexample below 700 MB is confirmed by the digest of a zero message. */
static CTX *L(hc); static uint64_t L(hlen), L(hold); static unsigned L(hn), L(hunit);
#ifndef VP_NOLAYOUT
static void L(counted)(void) {
  uint64_t d = L(hc)->count - L(hold);
  vp_assert(d == L(hunit) * L(hlen) || d <= L(hunit) * (uint64_t)(L(hn) + BLK), NAME " count of a long update");
  vp_cov("counted");
  vp_kill();
}
#endif
void H(count)(void) {
  uint64_t len, hi = PAR("k") ? ((uint64_t)1 << PAR("k")) + 100000000 : (((uint64_t)1 << 61) - BLK), lo = (uint64_t)1 << PAR("t");
  unsigned n = PAR("m0"), first = PAR("first");
  CTX *c = (void *)mk(sizeof *c, "ctx");
  vp_sym(&len, 8, "length");
  vp_assume(len > n + 2 * BLK && len > lo && len <= hi);
  if (vp_native() && len < (uint64_t)700000000) {
    uint8_t pre[BLK] = { 0 }, o[8 * WB], e[8 * WB], *z = vp_zeros(len); L(st) s;
    if (!z) { vp_assume(0); return; }
    FN(init)(c); FN(update)(c, pre, first); FN(update)(c, z, len); FN(final)(o, c);
    L(start)(&s); L(add)(&s, pre, first);
    for (uint64_t at = 0; at < len; at++) if (s.n == 0 && len - at >= BLK) { REF(s.h, z + at); at += BLK - 1; s.bytes += BLK; } else L(add)(&s, z + at, 1);
    L(fin)(&s, e);
    vp_assert_eq(o, e, 8 * WB, NAME " digest of a long message");
    return;
  }
#ifndef VP_NOLAYOUT
  uint8_t *p = sym(BLK, "prefix"), *m = vp_stop(n, "input");
  FN(init)(c); FN(update)(c, p, first);
  L(hc) = c; L(hlen) = len; L(hn) = n; L(hold) = c->count;
  L(hunit) = c->count == first ? 1 : 8;
  if (first && L(hunit) * (uint64_t)first == c->count) {
    vp_onstop(L(counted));
    FN(update)(c, m, len);
    vp_assert(0, "the update returns before all of the input has been read");
    return;
  }
#endif
  vp_note("context layout not as known");
  vp_cov("counted");
}
/* see h_shake_huge */
void H(huge)(void) {
  unsigned n = PAR("m0"); uint64_t len;
  CTX *c = (void *)mk(sizeof *c, "ctx");
  vp_sym(&len, 8, "length");
  vp_assume(len > n && len < (uint64_t)1 << 61);
  uint8_t *m = vp_stop(n, "input");
  FN(init)(c); FN(update)(c, m, PAR("first"));
  vp_cov("long input");
  FN(update)(c, m, len);
  vp_assert(0, "the update returns before all of the input has been read");
}
#undef CTX
#undef WORD
#undef BLK
#undef FN
#undef H
#undef L
#undef REF
#undef IV
#undef STATE
#undef NUM
#undef RESTORE
#undef NAME
#undef WB
#undef KNOWN
#undef FIN
