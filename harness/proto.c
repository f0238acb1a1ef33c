/* Protocol level harnesses: the hash primitives are summarised, everything
 * above them is the real code. */
#include "common.h"

/* ---- the random callback ------------------------------------------------ */
int rng_calls; uint64_t rng_len[4];
uint8_t rng_bytes[4 * SP_MAXN];
int32_t rng_ret;
int rng_cb(unsigned char *p, size_t n) {
  if (rng_calls < 4) rng_len[rng_calls] = n;
  rng_calls++;
  if (n <= sizeof rng_bytes) memcpy(p, rng_bytes, n);
  return rng_ret;
}
void rng_setup_as(int mode, const char *bytes, const char *ret) {
  rng_calls = 0;
  vp_sym(rng_bytes, sizeof rng_bytes, bytes);
  rng_ret = 1;
  if (mode == 2) { uint8_t b; vp_sym(&b, 1, ret); rng_ret = b & 1; }
  if (mode == 3) rng_ret = 0;
}
void rng_setup(int mode) { rng_setup_as(mode, "rnd", "rngret"); }
void *buf(uint64_t n, const char *name) { return vp_alloc(n ? n : 1, name); }

/* Key generation: FIPS 205 slh_keygen_internal on the bytes the callback gave. */
void h_keygen(void) {
  sp_ps P; const struct ts_parameter_set *ps = job_ps(&P);
  int n = P.n, mode = (int)vp_param("rng"), wantpk = (int)vp_param("pk");
  uint8_t *sk = buf(4 * n, "private key"), *pk = wantpk ? buf(2 * n, "public key") : 0;
  uint8_t root[SP_MAXN];
  rng_setup(mode);
  sp_root(&P, rng_bytes, rng_bytes + 2 * n, root);
  int failing = (int)vp_conc(rng_ret == 0);
  int r = ts_gen_key(sk, pk, ps, rng_cb);
  if (failing) {
    vp_cov("rng failure");
    vp_assert(r == 0, "key generation must report failure when the random source fails");
    vp_assert(rng_calls == 1, "random source called once");
    return;
  }
  vp_cov("key generated");
  vp_assert(r == 1, "key generation reports success");
  vp_assert(rng_calls == 1 && rng_len[0] == 3 * (uint64_t)n, "exactly 3n random bytes requested, once");
  vp_assert_eq(sk, rng_bytes, 3 * n, "secret seed, PRF key and public seed come from the random source");
  vp_assert_eq(sk + 3 * n, root, n, "public root equals the root of the top tree");
  if (pk) {
    vp_assert_eq(pk, rng_bytes + 2 * n, n, "public key carries the public seed");
    vp_assert_eq(pk + n, root, n, "public key carries the root");
  }
  vp_assert(ts_size_private_key(ps) == 4u * n && ts_size_public_key(ps) == 2u * n, "key sizes");
  vp_out("sk", sk, 4 * n);
}

/* Signing: every element of the signature equals slh_sign_internal's. */
void h_sign(void) {
  sp_ps P; const struct ts_parameter_set *ps = job_ps(&P);
  int n = P.n, mode = (int)vp_param("rng");
  unsigned chunk = (unsigned)vp_param("chunk"), total = sp_siglen(&P);
  uint8_t *sk = buf(4 * n, "private key"), *want = buf(total, "expected signature");
  uint64_t len; void *msg = vp_blob("msg", &len);
  vp_sym(sk, 4 * n, "sk");
  vp_ro(sk);
  rng_setup(mode);
  uint8_t opt[SP_MAXN];
  if (mode && rng_ret != 0) memcpy(opt, rng_bytes, n); else memcpy(opt, sk + 2 * n, n);
  unsigned lim = (unsigned)vp_param("limit") * n;   /* look at so many elements only */
  if (!lim || lim > total) lim = total;
  sp_stop = lim;
  sp_sign(&P, sk, opt, msg, len, want);
  struct ts_context *ctx = buf(sizeof *ctx, "context");
  if (vp_param("stale")) vp_sym(ctx, sizeof *ctx, "ctx");
  ts_init_sign(ctx, msg, len, ps, sk, mode ? rng_cb : 0);
  if (mode) vp_assert(rng_calls == 1 && rng_len[0] == (uint64_t)n, "exactly n random bytes requested, once");
  vp_free(msg);    /* the message is not needed any more */
  vp_assert(ts_size_signature(ps) == total, "announced signature size");
  if (!chunk) chunk = lim;
  for (unsigned at = 0; at < lim; ) {
    unsigned want_n = lim - at < chunk ? lim - at : chunk;
    uint8_t *out = buf(want_n, "signature chunk");
    unsigned got = ts_sign(out, want_n, ctx);
    vp_assert(got == want_n, "signing returns as many bytes as asked for until the end");
    vp_assert_eq(out, want + at, got, "signature bytes");
    if (at == 0) vp_out("sig0", out, got);
    if (at + got == lim) vp_out("sigend", out, got);
    vp_free(out);
    at += got;
  }
  if (lim == total) {
    uint8_t *one = buf(1, "byte after the signature");
    vp_assert(ts_sign(one, 1, ctx) == 0, "no bytes after the end of the signature");
  }
  if (mode) vp_assert(rng_calls == 1, "no further random bytes requested");
  vp_cov("signed");
}

/* Verification: accepted exactly when the root computed by the specification
 * equals the root in the public key, for every signature value. */
void h_verify(void) {
  sp_ps P; const struct ts_parameter_set *ps = job_ps(&P);
  int n = P.n;
  unsigned chunk = (unsigned)vp_param("chunk"), total = sp_siglen(&P);
  uint8_t *pk = buf(2 * n, "public key"), *sig = buf(total, "signature"), root[SP_MAXN];
  uint64_t len; void *msg = vp_blob("msg", &len);
  vp_sym(pk, 2 * n, "pk"); vp_sym(sig, total, "sig");
  vp_ro(pk); vp_ro(sig);
  sp_verify_root(&P, pk, msg, len, sig, root);
  int ok = memcmp(root, pk + n, n) == 0;
  struct ts_context *ctx = buf(sizeof *ctx, "context");
  if (vp_param("stale")) vp_sym(ctx, sizeof *ctx, "ctx");
  ts_init_verify(ctx, msg, len, ps, pk);
  if (!chunk) chunk = total;
  int r = 1;
  for (unsigned at = 0; at < total; at += chunk) {
    unsigned m = total - at < chunk ? total - at : chunk;
    r = ts_update_verify(sig + at, m, ctx);
    if (at + m < total) vp_assert(r == 1, "update reports no error before the end");
  }
  int v = ts_verify(ctx);
  if (ok) vp_cov("accepted"); else vp_cov("rejected");
  vp_assert((r != 0) == ok, "last update reports validity");
  vp_assert(v == ok, "accepted exactly when the specification accepts");
  vp_out("root", root, n);
  vp_out("v", &v, 4);
}

/* Round trip: whatever key generation and signing produce, verification
 * accepts, under the public key handed out. */
void h_round(void) {
  sp_ps P; const struct ts_parameter_set *ps = job_ps(&P);
  int n = P.n, mode = (int)vp_param("rng");
  unsigned total = ts_size_signature(ps);
  uint8_t *sk = buf(4 * n, "private key"), *pk = buf(2 * n, "public key"), *sig = buf(total, "signature");
  uint64_t len; void *msg = vp_blob("msg", &len);
  rng_setup(1);
  vp_assert(ts_gen_key(sk, pk, ps, rng_cb) == 1, "key generation succeeds");
  vp_ro(sk); vp_ro(pk);
  rng_setup_as(mode, "signing rnd", "signing rngret");
  struct ts_context *ctx = buf(sizeof *ctx, "context");
  ts_init_sign(ctx, msg, len, ps, sk, mode ? rng_cb : 0);
  vp_assert(ts_sign(sig, total, ctx) == total, "whole signature produced");
  vp_free(ctx);
  vp_ro(sig);
  struct ts_context *v = buf(sizeof *v, "verify context");
  ts_init_verify(v, msg, len, ps, pk);
  vp_assert(ts_update_verify(sig, total, v) == 1, "no error while verifying a genuine signature");
  vp_assert(ts_verify(v) == 1, "a genuine signature verifies");
  vp_cov("verified");
  vp_out("sigend", sig + total - n, n);
}
