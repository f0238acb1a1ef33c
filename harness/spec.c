#include "spec.h"
static void cpy(uint8_t *d, const uint8_t *s, int n) { for (int i = 0; i < n; i++) d[i] = s[i]; }
static void be(uint8_t *p, uint64_t v, int n) { for (int i = 0; i < n; i++) p[i] = (uint8_t)(n - 1 - i >= 8 ? 0 : v >> (8 * (n - 1 - i))); }
static int adrs(const sp_ps *ps, const sp_adrs *a, uint8_t *o) {
  if (ps->sha2) {
    o[0] = (uint8_t)a->layer; be(o + 1, a->tree, 8); o[9] = (uint8_t)a->type;
    be(o + 10, a->w1, 4); be(o + 14, a->w2, 4); be(o + 18, a->w3, 4);
    return 22;
  }
  be(o, a->layer, 4); be(o + 4, a->tree, 12); be(o + 16, a->type, 4);
  be(o + 20, a->w1, 4); be(o + 24, a->w2, 4); be(o + 28, a->w3, 4);
  return 32;
}
/* PK.seed (padded to a block for SHA2), ADRS, data */
static void tweak(const sp_ctx *c, const sp_adrs *a, int big, const uint8_t *m, int mlen, uint8_t *out) {
  const sp_ps *ps = c->ps;
  uint8_t hdr[128 + 32];
  int l = ps->n;
  vp_h h;
  cpy(hdr, c->pkseed, ps->n);
  if (ps->sha2) { int bl = big ? 128 : 64; while (l < bl) hdr[l++] = 0; }
  l += adrs(ps, a, hdr + l);
  vp_h_init(&h, !ps->sha2 ? VH_SHAKE256 : big ? VH_SHA512 : VH_SHA256);
  vp_h_add(&h, hdr, l);
  vp_h_add(&h, m, mlen);
  vp_h_out(&h, out, ps->n);
}
void sp_F(const sp_ctx *c, const sp_adrs *a, const uint8_t *m, uint8_t *out) { tweak(c, a, 0, m, c->ps->n, out); }
void sp_PRF(const sp_ctx *c, const sp_adrs *a, uint8_t *out) { tweak(c, a, 0, c->skseed, c->ps->n, out); }
void sp_T(const sp_ctx *c, const sp_adrs *a, const uint8_t *m, int blocks, uint8_t *out) { tweak(c, a, c->ps->n > 16, m, blocks * c->ps->n, out); }
void sp_PRFmsg(const sp_ps *ps, const uint8_t *skprf, const uint8_t *opt, const void *msg, uint64_t len, uint8_t *out) {
  vp_h h;
  if (!ps->sha2) {
    vp_h_init(&h, VH_SHAKE256);
    vp_h_add(&h, skprf, ps->n); vp_h_add(&h, opt, ps->n); vp_h_add(&h, msg, len);
    vp_h_out(&h, out, ps->n);
    return;
  }
  /* HMAC (FIPS 198-1) with key SK.prf over opt || M */
  int fn = ps->n > 16 ? VH_SHA512 : VH_SHA256, bl = ps->n > 16 ? 128 : 64, dl = ps->n > 16 ? 64 : 32;
  uint8_t k0[128], in[64];
  for (int i = 0; i < bl; i++) k0[i] = (uint8_t)((i < ps->n ? skprf[i] : 0) ^ 0x36);
  vp_h_init(&h, fn); vp_h_add(&h, k0, bl); vp_h_add(&h, opt, ps->n); vp_h_add(&h, msg, len); vp_h_out(&h, in, dl);
  for (int i = 0; i < bl; i++) k0[i] = (uint8_t)((i < ps->n ? skprf[i] : 0) ^ 0x5c);
  vp_h_init(&h, fn); vp_h_add(&h, k0, bl); vp_h_add(&h, in, dl); vp_h_out(&h, out, ps->n);
}
void sp_Hmsg(const sp_ps *ps, const uint8_t *R, const uint8_t *pkseed, const uint8_t *pkroot, const void *msg, uint64_t len, uint8_t *out, int outlen) {
  vp_h h;
  int n = ps->n;
  if (!ps->sha2) {
    vp_h_init(&h, VH_SHAKE256);
    vp_h_add(&h, R, n); vp_h_add(&h, pkseed, n); vp_h_add(&h, pkroot, n); vp_h_add(&h, msg, len);
    vp_h_out(&h, out, outlen);
    return;
  }
  /* MGF1(R || PK.seed || hash(R || PK.seed || PK.root || M), outlen) */
  int fn = n > 16 ? VH_SHA512 : VH_SHA256, dl = n > 16 ? 64 : 32;
  uint8_t seed[2 * SP_MAXN + 64], ctr[4], blk[64];
  vp_h_init(&h, fn);
  vp_h_add(&h, R, n); vp_h_add(&h, pkseed, n); vp_h_add(&h, pkroot, n); vp_h_add(&h, msg, len);
  cpy(seed, R, n); cpy(seed + n, pkseed, n);
  vp_h_out(&h, seed + 2 * n, dl);
  for (int done = 0, i = 0; done < outlen; i++) {
    int l = outlen - done < dl ? outlen - done : dl;
    be(ctr, (uint64_t)i, 4);
    vp_h_init(&h, fn); vp_h_add(&h, seed, 2 * n + dl); vp_h_add(&h, ctr, 4); vp_h_out(&h, blk, dl);
    cpy(out + done, blk, l);
    done += l;
  }
}
static int bytesFor(int bits) { return (bits + 7) / 8; }
int sp_mlen(const sp_ps *ps) { return bytesFor(ps->k * ps->a) + bytesFor(ps->h - ps->hp) + bytesFor(ps->hp); }
void sp_split(const sp_ps *ps, const uint8_t *digest, uint32_t *indices, uint64_t *tree, uint32_t *leaf) {
  /* base_2b of the first ceil(k*a/8) bytes: consecutive a-bit groups, most significant bit first */
  for (int i = 0; i < ps->k; i++) {
    uint32_t v = 0;
    for (int j = 0; j < ps->a; j++) { int b = i * ps->a + j; v = (v << 1) | ((digest[b >> 3] >> (7 - (b & 7))) & 1); }
    indices[i] = v;
  }
  int o = bytesFor(ps->k * ps->a), tb = bytesFor(ps->h - ps->hp), lb = bytesFor(ps->hp);
  uint64_t t = 0; uint32_t l = 0;
  for (int i = 0; i < tb; i++) t = (t << 8) | digest[o + i];
  for (int i = 0; i < lb; i++) l = (l << 8) | digest[o + tb + i];
  int hb = ps->h - ps->hp;
  if (hb < 64) t &= ((uint64_t)1 << hb) - 1;
  l &= ((uint32_t)1 << ps->hp) - 1;
  *tree = t; *leaf = l;
}
unsigned sp_siglen(const sp_ps *ps) { return (unsigned)ps->n * (1 + ps->k * (1 + ps->a) + ps->h + ps->d * (2 * ps->n + 3)); }
void sp_digits(int n, const uint8_t *m, uint32_t *d) {
  uint32_t csum = 0;
  for (int i = 0; i < n; i++) { d[2 * i] = m[i] >> 4; d[2 * i + 1] = m[i] & 15; }
  for (int i = 0; i < 2 * n; i++) csum += 15 - d[i];
  /* len2 = 3 digits of 4 bits, big endian */
  d[2 * n] = (csum >> 8) & 15; d[2 * n + 1] = (csum >> 4) & 15; d[2 * n + 2] = csum & 15;
}
/* s steps of the chain starting at index i */
static void chain(const sp_ctx *c, uint8_t *x, uint32_t i, uint32_t end, sp_adrs *a) {
  for (uint32_t j = i; j < end; j++) { a->w3 = j; sp_F(c, a, x, x); }
}
void sp_wots_pkgen(const sp_ctx *c, sp_adrs a, uint8_t *pk) {
  int n = c->ps->n, len = 2 * n + 3;
  uint8_t top[(2 * SP_MAXN + 3) * SP_MAXN];
  sp_adrs p = a; p.type = SP_WOTS_PRF; p.w3 = 0;
  a.type = SP_WOTS_HASH;
  for (int i = 0; i < len; i++) {
    p.w2 = i; a.w2 = i;
    sp_PRF(c, &p, top + i * n);
    chain(c, top + i * n, 0, 15, &a);
  }
  a.type = SP_WOTS_PK; a.w2 = a.w3 = 0;
  sp_T(c, &a, top, len, pk);
}
void sp_wots_sign(const sp_ctx *c, const uint8_t *m, sp_adrs a, uint8_t *sig) {
  int n = c->ps->n, len = 2 * n + 3;
  uint32_t d[2 * SP_MAXN + 3];
  sp_adrs p = a; p.type = SP_WOTS_PRF; p.w3 = 0;
  a.type = SP_WOTS_HASH;
  sp_digits(n, m, d);
  for (int i = 0; i < len; i++) {
    p.w2 = i; a.w2 = i;
    sp_PRF(c, &p, sig + i * n);
    chain(c, sig + i * n, 0, d[i], &a);
  }
}
void sp_wots_pk_from_sig(const sp_ctx *c, const uint8_t *sig, const uint8_t *m, sp_adrs a, uint8_t *pk) {
  int n = c->ps->n, len = 2 * n + 3;
  uint32_t d[2 * SP_MAXN + 3];
  uint8_t top[(2 * SP_MAXN + 3) * SP_MAXN];
  a.type = SP_WOTS_HASH;
  sp_digits(n, m, d);
  for (int i = 0; i < len; i++) {
    a.w2 = i;
    cpy(top + i * n, sig + i * n, n);
    chain(c, top + i * n, d[i], 15, &a);
  }
  a.type = SP_WOTS_PK; a.w2 = a.w3 = 0;
  sp_T(c, &a, top, len, pk);
}
static void xmss_node(const sp_ctx *c, uint32_t layer, uint64_t tree, uint32_t i, int z, uint8_t *out) {
  sp_adrs a = { layer, tree, 0, 0, 0, 0 };
  if (z == 0) { a.w1 = i; sp_wots_pkgen(c, a, out); return; }
  uint8_t lr[2 * SP_MAXN];
  xmss_node(c, layer, tree, 2 * i, z - 1, lr);
  xmss_node(c, layer, tree, 2 * i + 1, z - 1, lr + c->ps->n);
  a.type = SP_TREE; a.w2 = z; a.w3 = i;
  sp_T(c, &a, lr, 2, out);
}
static void fors_node(const sp_ctx *c, uint64_t tree, uint32_t kp, uint32_t i, int z, uint8_t *out) {
  sp_adrs a = { 0, tree, SP_FORS_PRF, kp, 0, i };
  if (z == 0) { sp_PRF(c, &a, out); a.type = SP_FORS_TREE; sp_F(c, &a, out, out); return; }
  uint8_t lr[2 * SP_MAXN];
  fors_node(c, tree, kp, 2 * i, z - 1, lr);
  fors_node(c, tree, kp, 2 * i + 1, z - 1, lr + c->ps->n);
  a.type = SP_FORS_TREE; a.w2 = z; a.w3 = i;
  sp_T(c, &a, lr, 2, out);
}
/* one step up an authentication path */
static void up(const sp_ctx *c, sp_adrs *a, uint32_t bit, uint8_t *node, const uint8_t *auth) {
  int n = c->ps->n;
  uint8_t lr[2 * SP_MAXN];
  if (bit) { cpy(lr, auth, n); cpy(lr + n, node, n); } else { cpy(lr, node, n); cpy(lr + n, auth, n); }
  sp_T(c, a, lr, 2, node);
}
void sp_root(const sp_ps *ps, const uint8_t *skseed, const uint8_t *pkseed, uint8_t *root) {
  sp_ctx c = { ps, pkseed, skseed };
  xmss_node(&c, ps->d - 1, 0, 0, ps->hp, root);
}
/* stop after this many bytes of the signature (0: never) */
unsigned sp_stop;
#define STOP() if (sp_stop && (unsigned)(sig - sig0) >= sp_stop) return
void sp_sign(const sp_ps *ps, const uint8_t *sk, const uint8_t *opt, const void *msg, uint64_t len, uint8_t *sig) {
  int n = ps->n;
  const uint8_t *skprf = sk + n, *pkseed = sk + 2 * n, *pkroot = sk + 3 * n;
  sp_ctx c = { ps, pkseed, sk };
  uint8_t digest[64], roots[40 * SP_MAXN], node[SP_MAXN];
  uint32_t idx[40], leaf; uint64_t tree;
  uint8_t *R = sig, *sig0 = sig;
  sp_PRFmsg(ps, skprf, opt, msg, len, R);
  vp_public(R, n);
  sig += n; STOP();
  sp_Hmsg(ps, R, pkseed, pkroot, msg, len, digest, sp_mlen(ps));
  vp_public(digest, sp_mlen(ps));
  sp_split(ps, digest, idx, &tree, &leaf);
  /* FORS */
  for (int i = 0; i < ps->k; i++) {
    uint32_t base = (uint32_t)i << ps->a;
    sp_adrs a = { 0, tree, SP_FORS_PRF, leaf, 0, base + idx[i] };
    sp_PRF(&c, &a, sig);
    a.type = SP_FORS_TREE;
    sp_F(&c, &a, sig, node);
    vp_public(sig, n);
    sig += n; STOP();
    for (int j = 0; j < ps->a; j++) {
      uint32_t s = (idx[i] >> j) ^ 1;
      fors_node(&c, tree, leaf, ((uint32_t)i << (ps->a - j)) + s, j, sig);
      a.w2 = j + 1; a.w3 = (base + idx[i]) >> (j + 1);
      up(&c, &a, (idx[i] >> j) & 1, node, sig);
      vp_public(sig, n);
      sig += n; STOP();
    }
    cpy(roots + i * n, node, n);
  }
  sp_adrs fa = { 0, tree, SP_FORS_ROOTS, leaf, 0, 0 };
  sp_T(&c, &fa, roots, ps->k, node);
  vp_public(node, n);
  /* hypertree */
  for (int j = 0; j < ps->d; j++) {
    sp_adrs a = { (uint32_t)j, tree, 0, leaf, 0, 0 };
    sp_wots_sign(&c, node, a, sig);
    sig += (2 * n + 3) * n; STOP();
    /* the leaf the signature leads to is the WOTS+ public key itself (lemma job) */
    sp_wots_pkgen(&c, a, node);
    vp_public(node, n);
    for (int z = 0; z < ps->hp; z++) {
      xmss_node(&c, j, tree, (leaf >> z) ^ 1, z, sig);
      vp_public(sig, n);
      sp_adrs t = { (uint32_t)j, tree, SP_TREE, 0, (uint32_t)z + 1, leaf >> (z + 1) };
      up(&c, &t, (leaf >> z) & 1, node, sig);
      vp_public(node, n);
      sig += n; STOP();
    }
    leaf = (uint32_t)(tree & (((uint64_t)1 << ps->hp) - 1));
    tree >>= ps->hp;
  }
}
void sp_verify_root(const sp_ps *ps, const uint8_t *pk, const void *msg, uint64_t len, const uint8_t *sig, uint8_t *node) {
  int n = ps->n;
  sp_ctx c = { ps, pk, 0 };
  uint8_t digest[64], roots[40 * SP_MAXN];
  uint32_t idx[40], leaf; uint64_t tree;
  sp_Hmsg(ps, sig, pk, pk + n, msg, len, digest, sp_mlen(ps));
  sig += n;
  sp_split(ps, digest, idx, &tree, &leaf);
  for (int i = 0; i < ps->k; i++) {
    uint32_t ix = ((uint32_t)i << ps->a) + idx[i];
    sp_adrs a = { 0, tree, SP_FORS_TREE, leaf, 0, ix };
    sp_F(&c, &a, sig, node);
    sig += n;
    for (int j = 0; j < ps->a; j++) {
      a.w2 = j + 1; a.w3 = ix >> (j + 1);
      up(&c, &a, (ix >> j) & 1, node, sig);
      sig += n;
    }
    cpy(roots + i * n, node, n);
  }
  sp_adrs fa = { 0, tree, SP_FORS_ROOTS, leaf, 0, 0 };
  sp_T(&c, &fa, roots, ps->k, node);
  for (int j = 0; j < ps->d; j++) {
    sp_adrs a = { (uint32_t)j, tree, 0, leaf, 0, 0 };
    sp_wots_pk_from_sig(&c, sig, node, a, node);
    sig += (2 * n + 3) * n;
    for (int z = 0; z < ps->hp; z++) {
      sp_adrs t = { (uint32_t)j, tree, SP_TREE, 0, (uint32_t)z + 1, leaf >> (z + 1) };
      up(&c, &t, (leaf >> z) & 1, node, sig);
      sig += n;
    }
    leaf = (uint32_t)(tree & (((uint64_t)1 << ps->hp) - 1));
    tree >>= ps->hp;
  }
}
