/* Stream-level harnesses: splitting, lengths, misuse, verdict timing, context
 * independence.  The operation under study is compared with the same operation
 * done plainly, or with the specification. */
#include "common.h"

static uint8_t *sym(uint64_t n, const char *name) { uint8_t *p = buf(n, name); vp_sym(p, n, name); return p; }
static struct ts_context *newctx(const char *name) {
  struct ts_context *c = buf(sizeof *c, name);
  if (vp_param("stale")) vp_sym(c, sizeof *c, name);   /* arbitrary old contents */
  return c;
}
static void put(uint8_t *p, uint64_t n, uint8_t v) { for (uint64_t i = 0; i < n; i++) p[i] = v; }

/* C05: from the state reached after any number p of bytes, a request of m bytes
 * gives the bytes p .. p+m and leads to the state m one-byte requests lead to
 * (then, by induction, all splits agree); windows of positions and sizes are
 * parameters.  If the states differ the rest of the signature is compared. */
void h_split_sign(void) {
  sp_ps P; const struct ts_parameter_set *ps = job_ps(&P);
  unsigned n = P.n, total = ts_size_signature(ps), first = (unsigned)vp_param("first"), last = (unsigned)vp_param("last");
  unsigned m0 = (unsigned)vp_param("m0"), m1 = (unsigned)vp_param("m1"), step = (unsigned)vp_param("mstep");
  uint8_t *sk = sym(4 * n, "sk"); vp_ro(sk);
  uint64_t len; void *msg = vp_blob("msg", &len);
  uint8_t *ref = buf(total, "signature"), *out = buf(m1 + 1, "piece");
  if (last > total) last = total;
  unsigned far = last + m1 + 1; if (far > total) far = total;
  struct ts_context *c = newctx("ctx"), *d = buf(sizeof *d, "copy");
  struct ts_context *snap = buf((uint64_t)sizeof *c * (far - first + 1), "states");
  ts_init_sign(c, msg, len, ps, sk, 0);
  for (unsigned p = 0; p < far; p++) {
    if (p >= first) memcpy(&snap[p - first], c, sizeof *c);
    unsigned got = ts_sign(ref + p, 1, c);
    vp_assert(got == 1, "one byte on request");
  }
  memcpy(&snap[far - first], c, sizeof *c);
  int drained = 0;
  for (unsigned p = first; p <= last; p++)
    for (unsigned m = m0; m <= m1; m += step) {
      unsigned want = total - p < m ? total - p : m;
      if (p + want > far) continue;
      memcpy(d, &snap[p - first], sizeof *d);
      unsigned got = ts_sign(out, m, d);
      vp_assert(got == want, "request returns what was asked for, or what is left");
      vp_assert_eq(out, ref + p, want, "bytes do not depend on the split");
      if (!vp_same(d, &snap[p + want - first], sizeof *d) && (vp_native() || drained < 3)) {
        drained++;
        /* different representation: the remaining bytes must still be the same */
        memcpy(c, &snap[p + want - first], sizeof *c);
        uint8_t *x = buf(total - p - want + 1, "rest"), *y = buf(total - p - want + 1, "rest of the reference");
        unsigned a = ts_sign(x, total - p - want, d), b = ts_sign(y, total - p - want, c);
        vp_assert(a == total - p - want && b == a, "the rest has the right length");
        vp_assert_eq(x, y, a, "later bytes do not depend on the split");
        vp_free(x); vp_free(y);
      }
    }
  vp_cov("split compared");
}
/* the same for whole runs with repeating patterns of request sizes, against one request */
void h_pattern_sign(void) {
  sp_ps P; const struct ts_parameter_set *ps = job_ps(&P);
  unsigned n = P.n, total = ts_size_signature(ps);
  unsigned pat[3] = { (unsigned)vp_param("m0"), (unsigned)vp_param("m1"), (unsigned)vp_param("mstep") };
  uint8_t *sk = sym(4 * n, "sk"); vp_ro(sk);
  uint64_t len; void *msg = vp_blob("msg", &len);
  uint8_t *ref = buf(total, "signature");
  struct ts_context *c = newctx("ctx"), *d = newctx("ctx2");
  ts_init_sign(c, msg, len, ps, sk, 0);
  vp_assert(ts_sign(ref, total, c) == total, "whole signature in one request");
  ts_init_sign(d, msg, len, ps, sk, 0);
  unsigned at = 0, i = 0;
  while (at < total) {
    unsigned m = pat[i++ % 3], want = total - at < m ? total - at : m;
    uint8_t *out = buf(m + 1, "piece");
    unsigned got = ts_sign(out, m, d);
    vp_assert(got == want, "request returns what was asked for, or what is left");
    vp_assert_eq(out, ref + at, want, "bytes do not depend on the split");
    vp_free(out);
    at += want;
  }
  vp_cov("pattern compared");
}
/* C06 likewise: state after p + m bytes does not depend on how they came */
void h_split_verify(void) {
  sp_ps P; const struct ts_parameter_set *ps = job_ps(&P);
  unsigned n = P.n, total = ts_size_signature(ps), first = (unsigned)vp_param("first"), last = (unsigned)vp_param("last");
  unsigned m0 = (unsigned)vp_param("m0"), m1 = (unsigned)vp_param("m1"), step = (unsigned)vp_param("mstep");
  uint8_t *pk = sym(2 * n, "pk"), *sig = sym(total, "sig"); vp_ro(pk); vp_ro(sig);
  uint64_t len; void *msg = vp_blob("msg", &len);
  if (last > total) last = total;
  unsigned far = last + m1; if (far > total) far = total;
  struct ts_context *c = newctx("ctx"), *d = buf(sizeof *d, "copy");
  struct ts_context *snap = buf((uint64_t)sizeof *c * (far - first + 1), "states");
  int r = 1;
  ts_init_verify(c, msg, len, ps, pk);
  for (unsigned p = 0; p < far; p++) {
    if (p >= first) memcpy(&snap[p - first], c, sizeof *c);
    r = ts_update_verify(sig + p, 1, c);
    if (p + 1 < total) vp_assert(r == 1, "no error before the last byte");
  }
  memcpy(&snap[far - first], c, sizeof *c);
  int v = ts_verify(c), drained = 0;
  for (unsigned p = first; p <= last; p++)
    for (unsigned m = m0; m <= m1; m += step) {
      if (p + m > total || p + m > far) continue;
      memcpy(d, &snap[p - first], sizeof *d);
      if (p == total && m == 0) {   /* nothing more to say: verdict unchanged */
        ts_update_verify(sig, 0, d);
        vp_assert(ts_verify(d) == v, "an empty update does not change the verdict");
        continue;
      }
      int q = ts_update_verify(sig + p, m, d);
      if (p + m < total) vp_assert(q == 1, "no error before the last byte");
      else { vp_assert(q == r, "last update reports the same"); vp_assert(ts_verify(d) == v, "verdict does not depend on the split"); continue; }
      if (!vp_same(d, &snap[p + m - first], sizeof *d) && (vp_native() || drained < 3)) {
        drained++;
        memcpy(c, &snap[p + m - first], sizeof *c);
        int a = ts_update_verify(sig + p + m, total - p - m, d), b = ts_update_verify(sig + p + m, total - p - m, c);
        vp_assert(a == b, "later updates do not depend on the split");
        vp_assert(ts_verify(d) == ts_verify(c), "verdict does not depend on the split");
      }
    }
  vp_cov("split compared");
}
void h_pattern_verify(void) {
  sp_ps P; const struct ts_parameter_set *ps = job_ps(&P);
  unsigned n = P.n, total = ts_size_signature(ps);
  unsigned pat[3] = { (unsigned)vp_param("m0"), (unsigned)vp_param("m1"), (unsigned)vp_param("mstep") };
  uint8_t *pk = sym(2 * n, "pk"), *sig = sym(total, "sig"); vp_ro(pk); vp_ro(sig);
  uint64_t len; void *msg = vp_blob("msg", &len);
  struct ts_context *c = newctx("ctx"), *d = newctx("ctx2");
  ts_init_verify(c, msg, len, ps, pk);
  int r = ts_update_verify(sig, total, c), v = ts_verify(c);
  if (v) vp_cov("accepted"); else vp_cov("rejected");
  ts_init_verify(d, msg, len, ps, pk);
  unsigned at = 0, i = 0; int q = 1;
  while (at < total) {
    unsigned m = pat[i++ % 3], k = total - at < m ? total - at : m;
    q = ts_update_verify(sig + at, k, d);
    at += k;
    if (at < total) vp_assert(q == 1, "no error before the last byte");
  }
  vp_assert((q != 0) == (r != 0), "last update reports the same");
  vp_assert(ts_verify(d) == v, "verdict does not depend on the split");
}

/* C07: requests larger than what is left, and requests after the end */
void h_overask(void) {
  sp_ps P; const struct ts_parameter_set *ps = job_ps(&P);
  unsigned n = P.n, total = ts_size_signature(ps), before = (unsigned)vp_param("first"), ask = (unsigned)vp_param("m0");
  if (before > total) before = total - (before - 100000) ;   /* 100000 + k: k bytes before the end */
  unsigned slack = 3 * n + 5, want = total - before < ask ? total - before : ask;
  uint8_t *sk = sym(4 * n, "sk"); vp_ro(sk);
  uint64_t len; void *msg = vp_blob("msg", &len);
  struct ts_context *c = newctx("ctx");
  vp_assert(total == sp_siglen(&P), "announced length is the standard's");
  ts_init_sign(c, msg, len, ps, sk, 0);
  if (before) { uint8_t *b = buf(before, "first part"); vp_assert(ts_sign(b, before, c) == before, "first part"); vp_free(b); }
  /* the destination really is that large only as far as bytes may be delivered, plus a margin */
  uint8_t *dst = buf(want + slack, "destination"), *fill = buf(want + slack, "old contents");
  vp_sym(fill, want + slack, "fill");
  memcpy(dst, fill, want + slack);
  unsigned got = ts_sign(dst, ask, c);
  vp_assert(got == want, "request returns what was asked for, or what is left");
  vp_assert_eq(dst + want, fill + want, slack, "nothing beyond the returned count is written");
  if (before + want == total) {
    vp_cov("end reached");
    memcpy(dst, fill, want + slack);
    static const unsigned again[] = { 1, 0, 2, 15, 16, 17, 32, 33, 255, 256, 4096, 65536, 0x7fffffff, 0x80000000u, 0xffffffffu, 1 };
    for (unsigned i = 0; i < sizeof again / sizeof *again; i++) {
      vp_assert(ts_sign(dst, again[i], c) == 0, "no bytes after the end");
      vp_assert_eq(dst, fill, want + slack, "no writes after the end");
    }
  }
  vp_cov("asked");
}

/* C08: fed = total - cut bytes, or total + extra in the last call, or extra afterwards */
void h_badlen(void) {
  sp_ps P; const struct ts_parameter_set *ps = job_ps(&P);
  unsigned n = P.n, total = ts_size_signature(ps), extra = (unsigned)vp_param("m0"), mode = (unsigned)vp_param("mode"), piece = (unsigned)vp_param("m1");
  uint8_t *pk = sym(2 * n, "pk"), *sig = sym(total + extra, "sig"), root[SP_MAXN]; vp_ro(pk); vp_ro(sig);
  uint64_t len; void *msg = vp_blob("msg", &len);
  sp_verify_root(&P, pk, msg, len, sig, root);
  if (vp_conc(memcmp(root, pk + n, n) == 0)) vp_cov("prefix valid"); else vp_cov("prefix invalid");
  struct ts_context *c = newctx("ctx");
  ts_init_verify(c, msg, len, ps, pk);
  if (!piece) piece = total + extra;
  unsigned cut = mode == 0 ? total + extra : total;
  int r = 1;
  for (unsigned at = 0; at < cut; at += piece) {
    unsigned m = cut - at < piece ? cut - at : piece;
    r = ts_update_verify(sig + at, m, c);
    if (at + m > total) vp_assert(r == 0 || at >= total, "a call running past the end of the signature reports failure");
    if (at + m > total) vp_assert(ts_verify(c) == 0, "a longer input is never accepted");
  }
  if (mode == 0) {
    vp_assert(ts_verify(c) == 0, "a longer input is never accepted");
    if (piece >= total + extra) vp_assert(r == 0, "the failing update says so");
  } else {
    /* extra bytes in later calls of `mode` bytes */
    for (unsigned at = total; at < total + extra; at += mode) {
      unsigned m = total + extra - at < mode ? total + extra - at : mode;
      r = ts_update_verify(sig + at, m, c);
      vp_assert(ts_verify(c) == 0, "a longer input is never accepted");
    }
    if (extra >= n) vp_assert(r == 0, "failure is reported");
  }
  /* whatever follows */
  if (vp_param("first")) {
    r = ts_update_verify(sig, total, c);
    vp_assert(ts_verify(c) == 0, "failure is final");
    if (mode == 0 || extra >= n) vp_assert(r == 0, "updates after failure report failure");
    r = ts_update_verify(sig, 0, c);
    vp_assert(ts_verify(c) == 0, "failure is final");
  }
}
/* C08, C24: the verdict at every point of the stream; asking changes nothing */
void h_verdict(void) {
  sp_ps P; const struct ts_parameter_set *ps = job_ps(&P);
  unsigned n = P.n, total = ts_size_signature(ps), piece = (unsigned)vp_param("m0");
  uint8_t *pk = sym(2 * n, "pk"), *sig = sym(total, "sig"), root[SP_MAXN]; vp_ro(pk); vp_ro(sig);
  uint64_t len; void *msg = vp_blob("msg", &len);
  sp_verify_root(&P, pk, msg, len, sig, root);
  int ok = (int)vp_conc(memcmp(root, pk + n, n) == 0);
  struct ts_context *c = newctx("ctx");
  ts_init_verify(c, msg, len, ps, pk);
  vp_assert(ts_verify(c) == 0 && ts_verify(c) == 0, "not verified before any input");
  int r = 1;
  for (unsigned at = 0; at < total; at += piece) {
    unsigned m = total - at < piece ? total - at : piece;
    r = ts_update_verify(sig + at, m, c);
    if (at + m < total) {
      vp_assert(r == 1, "no error before the last byte");
      vp_assert(ts_verify(c) == 0, "not verified before the last byte");
    }
  }
  if (ok) vp_cov("accepted"); else vp_cov("rejected");
  vp_assert(ts_verify(c) == ok, "the verdict is the specification's, although it was asked for before");
  vp_assert(ts_verify(c) == ok, "asking again gives the same answer");
  vp_assert((r != 0) == ok, "last update reports validity");
  if (!ok) {   /* sticky */
    r = ts_update_verify(sig, total, c);
    vp_assert(r == 0 && ts_verify(c) == 0, "failure is final");
    r = ts_update_verify(sig, 1, c);
    vp_assert(r == 0 && ts_verify(c) == 0, "failure is final");
  }
}

/* C09: wrong-direction calls between the pieces of a legitimate operation */
void h_misuse_sign(void) {
  sp_ps P; const struct ts_parameter_set *ps = job_ps(&P);
  unsigned n = P.n, total = ts_size_signature(ps), piece = (unsigned)vp_param("m0");
  uint8_t *sk = sym(4 * n, "sk"), *junk = sym(2 * n, "junk"); vp_ro(sk); vp_ro(junk);
  uint64_t len; void *msg = vp_blob("msg", &len);
  uint8_t *want = buf(total, "expected"), *out = buf(total, "signature");
  struct ts_context *c = newctx("ctx");
  sp_sign(&P, sk, sk + 2 * n, msg, len, want);
  ts_init_sign(c, msg, len, ps, sk, 0);
  for (unsigned at = 0; ; at += piece) {
    vp_assert(ts_verify(c) == 0, "a signing context never verifies");
    static const unsigned sz[] = { 0, 1, 7 };
    for (unsigned i = 0; i < 3; i++) vp_assert(ts_update_verify(junk, sz[i], c) == 0, "feeding a signing context fails");
    vp_assert(ts_update_verify(junk, n, c) == 0, "feeding a signing context fails");
    vp_assert(ts_update_verify(junk, 2 * n, c) == 0, "feeding a signing context fails");
    vp_assert(ts_verify(c) == 0, "a signing context never verifies");
    if (at >= total) break;
    unsigned m = total - at < piece ? total - at : piece;
    vp_assert(ts_sign(out + at, m, c) == m, "signing goes on");
    vp_assert_eq(out + at, want + at, m, "signing is undisturbed");
  }
  vp_assert(ts_sign(out, 1, c) == 0, "signing has ended");
  vp_cov("done");
}
void h_misuse_verify(void) {
  sp_ps P; const struct ts_parameter_set *ps = job_ps(&P);
  unsigned n = P.n, total = ts_size_signature(ps), piece = (unsigned)vp_param("m0");
  uint8_t *pk = sym(2 * n, "pk"), *sig = sym(total, "sig"), *fill = sym(2 * n, "fill"), *dst = buf(2 * n, "destination"), root[SP_MAXN];
  vp_ro(pk); vp_ro(sig);
  uint64_t len; void *msg = vp_blob("msg", &len);
  sp_verify_root(&P, pk, msg, len, sig, root);
  int ok = (int)vp_conc(memcmp(root, pk + n, n) == 0);
  memcpy(dst, fill, 2 * n);
  struct ts_context *c = newctx("ctx");
  ts_init_verify(c, msg, len, ps, pk);
  for (unsigned at = 0; ; at += piece) {
    vp_assert(ts_sign(dst, 0, c) == 0, "a verification context yields no signature bytes");
    vp_assert(ts_sign(dst, 1, c) == 0, "a verification context yields no signature bytes");
    vp_assert(ts_sign(dst, n, c) == 0, "a verification context yields no signature bytes");
    vp_assert(ts_sign(dst, 2 * n, c) == 0, "a verification context yields no signature bytes");
    vp_assert_eq(dst, fill, 2 * n, "nothing is written");
    if (at >= total) break;
    unsigned m = total - at < piece ? total - at : piece;
    ts_update_verify(sig + at, m, c);
  }
  if (ok) vp_cov("accepted"); else vp_cov("rejected");
  vp_assert(ts_verify(c) == ok, "verification is undisturbed");
}
void h_misuse_unset(void) {
  sp_ps P; const struct ts_parameter_set *ps = job_ps(&P);
  unsigned n = P.n;
  uint8_t *fill = sym(8 * n, "fill"), *dst = buf(8 * n, "destination");
  memcpy(dst, fill, 8 * n);
  struct ts_context *c = buf(sizeof *c, "zero context");
  put((uint8_t *)c, sizeof *c, 0);
  static const unsigned sz[] = { 0, 1, 7, 16, 24, 32, 33, 48 };
  vp_assert(ts_verify(c) == 0, "an unset context never verifies");
  for (unsigned i = 0; i < sizeof sz / sizeof *sz; i++) {
    vp_assert(ts_sign(dst, sz[i], c) == 0, "an unset context yields no signature bytes");
    vp_assert(ts_update_verify(dst, sz[i], c) == 0, "feeding an unset context fails");
    vp_assert(ts_verify(c) == 0, "an unset context never verifies");
  }
  vp_assert_eq(dst, fill, 8 * n, "nothing is written");
  rng_setup(1);
  vp_assert(ts_gen_key(dst, dst + 4 * n, ps, 0) == 0, "no random source");
  vp_assert(ts_gen_key(0, dst, ps, rng_cb) == 0, "no private key buffer");
  vp_assert(ts_gen_key(dst, dst + 4 * n, 0, rng_cb) == 0, "no parameter set");
  vp_assert(ts_gen_key(0, 0, 0, 0) == 0 && ts_gen_key(dst, 0, ps, 0) == 0 && ts_gen_key(0, dst, 0, rng_cb) == 0 && ts_gen_key(0, dst, ps, 0) == 0 && ts_gen_key(dst, dst, 0, 0) == 0, "several missing");
  vp_assert(rng_calls == 0, "no randomness drawn");
  vp_assert_eq(dst, fill, 8 * n, "nothing is written");
  vp_cov("done");
}

/* C10, C11: just run everything; the executor checks every access on the way */
void h_exec(void) {
  sp_ps P; const struct ts_parameter_set *ps = job_ps(&P);
  unsigned n = P.n, what = (unsigned)vp_param("mode"), chunk = (unsigned)vp_param("chunk");
  unsigned total = ts_size_signature(ps);
  vp_assert(total == sp_siglen(&P), "announced length is the standard's");
  if (what & 1) {
    uint8_t *sk = buf(4 * n, "private key"), *pk = buf(2 * n, "public key");
    rng_setup(1);
    vp_assert(ts_gen_key(sk, pk, ps, rng_cb) == 1, "key generated");
    vp_cov("keygen");
  }
  if (what & 2) {
    uint8_t *sk = sym(4 * n, "sk"); vp_ro(sk);
    uint64_t len; void *msg = vp_blob("msg", &len);
    rng_setup((int)vp_param("rng"));
    struct ts_context *c = newctx("ctx");
    ts_init_sign(c, msg, len, ps, sk, vp_param("rng") ? rng_cb : 0);
    vp_free(msg);
    int calls = rng_calls;
    unsigned lim = (unsigned)vp_param("limit") * n;
    if (!lim || lim > total) lim = total;
    unsigned k = chunk ? chunk : lim;
    for (unsigned at = 0; at < lim; at += k) {
      unsigned m = lim - at < k ? lim - at : k;
      uint8_t *out = buf(m, "piece");
      vp_assert(ts_sign(out, m, c) == m, "bytes delivered");
      vp_free(out);
    }
    if (lim == total) { uint8_t *out = buf(1, "piece"); vp_assert(ts_sign(out, 1, c) == 0, "end of signature"); vp_free(out); }
    vp_assert(rng_calls == calls && calls == (vp_param("rng") ? 1 : 0), "random source used once, at the start");
    vp_cov("sign");
  }
  if (what & 4) {
    uint8_t *pk = sym(2 * n, "pk"), *sig = sym(total, "sig"); vp_ro(pk); vp_ro(sig);
    uint64_t len; void *msg = vp_blob("msg2", &len);
    struct ts_context *c = newctx("vctx");
    ts_init_verify(c, msg, len, ps, pk);
    unsigned k = chunk ? chunk : total;
    for (unsigned at = 0; at < total; at += k) ts_update_verify(sig + at, total - at < k ? total - at : k, c);
    ts_verify(c);
    /* trailing bytes */
    ts_update_verify(sig, n - 1, c); ts_verify(c); ts_update_verify(sig, 2 * n, c); ts_verify(c);
    vp_cov("verify");
  }
}
/* C25: what an operation needs of automatic storage (limit; key generation also has a
 * context there), and the size of the context (m1).
 * C26 (first=1): what it needs of hash computations and of bytes to be hashed. The
 * standard's algorithms build every node once; 16 computations and 2048 bytes more are
 * left for the message hashes and the like. */
typedef uint64_t cost;   /* computations * 2^40 + bytes */
static cost c_add(cost x, cost y) { return x + y; }
static cost c_mul(uint64_t n, cost x) { return n * x; }
static cost c_T(const sp_ps *P, unsigned l) {   /* F, PRF (l = 1), H, T_l */
  cost c = ((uint64_t)1 << 40) + l * P->n;
  if (!P->sha2) return c + 32 + P->n;
  c += 22;
#if !defined(TS_SHA2_OPTIMIZATION) || !TS_SHA2_OPTIMIZATION
  c += l > 1 && P->n > 16 ? 128 : 64;
#endif
  return c;
}
static cost c_chains(const sp_ps *P) { return c_mul(2 * P->n + 3, c_mul(15, c_T(P, 1))); }
static cost c_wots(const sp_ps *P) { return c_add(c_chains(P), c_mul(2 * P->n + 3, c_T(P, 1))); }
static cost c_tree(const sp_ps *P) { return c_add(c_mul(1u << P->hp, c_add(c_wots(P), c_T(P, 2 * P->n + 3))), c_mul((1u << P->hp) - 1, c_T(P, 2))); }
static cost c_sign(const sp_ps *P) {
  cost fors = c_add(c_mul((2u << P->a) + 1, c_T(P, 1)), c_mul((1u << P->a) - 1, c_T(P, 2)));
  return c_add(c_add(c_mul(P->k, fors), c_T(P, P->k)), c_mul(P->d, c_add(c_tree(P), c_wots(P))));
}
static cost c_verify(const sp_ps *P) {
  cost fors = c_add(c_T(P, 1), c_mul(P->a, c_T(P, 2)));
  return c_add(c_add(c_mul(P->k, fors), c_T(P, P->k)), c_mul(P->d, c_add(c_chains(P), c_add(c_T(P, 2 * P->n + 3), c_mul(P->hp, c_T(P, 2))))));
}
static uint64_t used_h, used_b; static cost allowed;
static void done(const char *what) {
  vp_stack_done();
  if (!vp_param("first")) return;
  vp_assert(vp_hashes() - used_h <= (allowed >> 40) + 16, what);
  vp_assert(vp_hashed() - used_b <= (allowed & 0xffffffffffu) + 2048, what);
}
static void start(cost c) { allowed = c; used_h = vp_hashes(); used_b = vp_hashed(); }
#define OP(limit, what, call) ({ vp_stack(limit); __auto_type r_ = call; done(what); r_; })
#define OPV(limit, what, call) (vp_stack(limit), call, done(what))
void h_cost(void) {
  sp_ps P; const struct ts_parameter_set *ps = job_ps(&P);
  unsigned n = P.n, what = (unsigned)vp_param("mode"), chunk = (unsigned)vp_param("chunk"), total = sp_siglen(&P);
  uint64_t L = vp_param("limit");
  if (vp_param("m1")) vp_assert(sizeof(struct ts_context) <= vp_param("m1"), "size of the context");
  if (what & 1) {
    uint8_t *sk = buf(4 * n, "private key"), *pk = buf(2 * n, "public key");
    rng_setup(1);
    start(c_tree(&P));
    vp_assert(OP(L ? L + sizeof(struct ts_context) : 0, "key generation", ts_gen_key(sk, pk, ps, rng_cb)) == 1, "key generated");
    vp_cov("keygen");
  }
  if (what & 2) {
    uint8_t *sk = sym(4 * n, "sk"); vp_ro(sk);
    uint64_t len; void *msg = vp_blob("msg", &len);
    rng_setup((int)vp_param("rng"));
    struct ts_context *c = newctx("ctx");
    start(c_sign(&P));
    OPV(L, "starting a signature", ts_init_sign(c, msg, len, ps, sk, vp_param("rng") ? rng_cb : 0));
    vp_free(msg);
    unsigned k = chunk ? chunk : total;
    for (unsigned at = 0; at < total; at += k) {
      unsigned m = total - at < k ? total - at : k;
      uint8_t *out = buf(m, "piece");
      vp_assert(OP(L, "signing", ts_sign(out, m, c)) == m, "bytes delivered");
      vp_free(out);
    }
    vp_cov("sign");
  }
  if (what & 4) {
    uint8_t *pk = sym(2 * n, "pk"), *sig = sym(total, "sig"); vp_ro(pk); vp_ro(sig);
    uint64_t len; void *msg = vp_blob("msg2", &len);
    struct ts_context *c = newctx("vctx");
    start(c_verify(&P));
    OPV(L, "starting a verification", ts_init_verify(c, msg, len, ps, pk));
    unsigned k = chunk ? chunk : total;
    for (unsigned at = 0; at < total; at += k) OP(L, "verifying", ts_update_verify(sig + at, total - at < k ? total - at : k, c));
    OP(L, "giving the verdict", ts_verify(c));
    vp_cov("verify");
  }
}
/* C12: two operations interleaved, each compared with the specification */
struct op { int kind; sp_ps P; const struct ts_parameter_set *ps; struct ts_context *c; uint8_t *key, *sig, *want; unsigned at, total; int ok, r; const char *msg; };
static void op_start(struct op *o, int kind, const char *kname, const char *sname, const char *mname) {
  o->kind = kind; o->total = sp_siglen(&o->P); o->at = 0; o->r = 1;
  unsigned n = o->P.n; uint64_t len; void *msg = vp_blob(mname, &len);
  if (kind == 0) {
    o->key = sym(4 * n, kname); vp_ro(o->key);
    o->want = buf(o->total, sname);
    sp_sign(&o->P, o->key, o->key + 2 * n, msg, len, o->want);
    ts_init_sign(o->c, msg, len, o->ps, o->key, 0);
  } else {
    uint8_t root[SP_MAXN];
    o->key = sym(2 * n, kname); vp_ro(o->key);
    o->sig = sym(o->total, sname); vp_ro(o->sig);
    sp_verify_root(&o->P, o->key, msg, len, o->sig, root);
    o->ok = memcmp(root, o->key + n, n) == 0;
    ts_init_verify(o->c, msg, len, o->ps, o->key);
  }
}
static int op_step(struct op *o, unsigned m) {
  if (o->at >= o->total) return 0;
  if (m > o->total - o->at) m = o->total - o->at;
  if (o->kind == 0) {
    uint8_t *out = buf(m, "piece");
    vp_assert(ts_sign(out, m, o->c) == m, "interleaved signing delivers");
    vp_assert_eq(out, o->want + o->at, m, "interleaved signing gives the standard's bytes");
    vp_free(out);
  } else o->r = ts_update_verify(o->sig + o->at, m, o->c);
  o->at += m;
  if (o->at == o->total && o->kind == 1) {
    if (o->ok) vp_cov("accepted"); else vp_cov("rejected");
    vp_assert((o->r != 0) == o->ok, "interleaved verification reports validity");
  }
  return 1;
}
void h_inter(void) {
  struct op a, b;
  a.ps = job_ps(&a.P); b.ps = job_ps2(&b.P);
  unsigned mode = (unsigned)vp_param("mode"), ca = (unsigned)vp_param("m0"), cb = (unsigned)vp_param("m1");
  a.c = newctx("ctx"); b.c = newctx("ctx2");
  op_start(&a, mode & 1, "keyA", "sigA", "msgA");
  for (unsigned i = 0; i < vp_param("first"); i++) op_step(&a, ca);
  op_start(&b, (mode >> 1) & 1, "keyB", "sigB", "msgB");
  unsigned round = 0;
  for (;;) {
    int x = op_step(&a, ca), y = op_step(&b, cb);
    if ((mode & 4) && ++round == 5) {   /* a key generation in between */
      uint8_t *sk = buf(4 * a.P.n, "new key");
      rng_setup(1);
      vp_assert(ts_gen_key(sk, 0, a.ps, rng_cb) == 1, "key generated");
    }
    if (!x && !y) break;
  }
  if (a.kind) vp_assert(ts_verify(a.c) == a.ok, "verdict of the first operation");
  if (b.kind) vp_assert(ts_verify(b.c) == b.ok, "verdict of the second operation");
  uint8_t one;
  if (!a.kind) vp_assert(ts_sign(&one, 1, a.c) == 0, "first signature has ended");
  if (!b.kind) vp_assert(ts_sign(&one, 1, b.c) == 0, "second signature has ended");
  vp_cov("both done");
}
/* C12: a context abandoned at any point and initialised again */
void h_reuse(void) {
  sp_ps P; const struct ts_parameter_set *ps = job_ps(&P);
  sp_ps P2; const struct ts_parameter_set *ps2 = job_ps2(&P2);
  unsigned mode = (unsigned)vp_param("mode"), steps = (unsigned)vp_param("first");
  struct ts_context *c = newctx("ctx");
  struct op a, b;
  a.P = P; a.ps = ps; a.c = c; b.P = P2; b.ps = ps2; b.c = c;
  op_start(&a, mode & 1, "keyA", "sigA", "msgA");
  for (unsigned i = 0; i < steps; i++) op_step(&a, 1 + P.n / 2);
  op_start(&b, (mode >> 1) & 1, "keyB", "sigB", "msgB");
  while (op_step(&b, P2.n)) {}
  if (b.kind) vp_assert(ts_verify(c) == b.ok, "verdict of the second operation");
  vp_cov("both done");
}
/* C20 */
void h_sizes(void) {
  int any = 0;
  for (int i = 0; i < 12; i++) {
    sp_ps P; const struct ts_parameter_set *ps = ps_number(i, &P);
    if (!ps) continue;
    any = 1;
    vp_assert(ts_size_private_key(ps) == 4u * P.n, "private key size");
    vp_assert(ts_size_public_key(ps) == 2u * P.n, "public key size");
    vp_assert(ts_size_signature(ps) == sp_siglen(&P), "signature size");
    static const unsigned std[12] = { 17088, 7856, 35664, 16224, 49856, 29792, 17088, 7856, 35664, 16224, 49856, 29792 };
    vp_assert(sp_siglen(&P) == std[i], "published signature size");
  }
  if (any) vp_cov("sizes compared");
}

/* C23: secrets reach the library's branches and addresses only through values
 * that the signature makes public.  mode 1: key generation, 2: signing */
void h_ct(void) {
  sp_ps P; const struct ts_parameter_set *ps = job_ps(&P);
  unsigned n = P.n, what = (unsigned)vp_param("mode"), chunk = (unsigned)vp_param("chunk");
  unsigned total = ts_size_signature(ps);
  rng_setup((int)vp_param("rng"));
  if (what & 1) {
    uint8_t *sk = buf(4 * n, "private key"), *pk = vp_param("pk") ? buf(2 * n, "public key") : 0;
    vp_secret(rng_bytes, 2 * n);
    ts_gen_key(sk, pk, ps, rng_cb);
    vp_cov("keygen");
    return;
  }
  uint8_t *sk = sym(4 * n, "sk"), *want = buf(total, "expected signature"), opt[SP_MAXN];
  uint64_t len; void *msg = vp_blob("msg", &len);
  unsigned lim = (unsigned)vp_param("limit") * n;
  if (!lim || lim > total) lim = total;
  if (vp_param("rng") && rng_ret != 0) memcpy(opt, rng_bytes, n); else memcpy(opt, sk + 2 * n, n);
  sp_stop = lim;
  sp_sign(&P, sk, opt, msg, len, want);
  vp_secret(sk, 2 * n);
  vp_secret(rng_bytes, n);
  vp_ro(sk);
  struct ts_context *c = newctx("ctx");
  ts_init_sign(c, msg, len, ps, sk, vp_param("rng") ? rng_cb : 0);
  unsigned k = chunk ? chunk : lim;
  for (unsigned at = 0; at < lim; at += k) {
    unsigned m = lim - at < k ? lim - at : k;
    uint8_t *out = buf(m, "piece");
    unsigned got = ts_sign(out, m, c);
    if (got != m) break;
    vp_free(out);
  }
  vp_cov("sign");
}
