/* An executable transcription of SPHINCS+ r3.1 / FIPS 205 (internal functions,
 * "simple" instances), written from the specification's algorithms and not
 * from the implementation.  It drives the hash functions through vp_h_*. */
#ifndef SPEC_H
#define SPEC_H
#include "vp.h"
typedef struct { int sha2, n, k, a, h, d, hp; } sp_ps;
#define SP_MAXN 32
typedef struct { uint32_t layer; uint64_t tree; uint32_t type, w1, w2, w3; } sp_adrs;
enum { SP_WOTS_HASH = 0, SP_WOTS_PK = 1, SP_TREE = 2, SP_FORS_TREE = 3, SP_FORS_ROOTS = 4, SP_WOTS_PRF = 5, SP_FORS_PRF = 6 };
typedef struct { const sp_ps *ps; const uint8_t *pkseed, *skseed; } sp_ctx;
void sp_F(const sp_ctx *c, const sp_adrs *a, const uint8_t *m, uint8_t *out);
void sp_T(const sp_ctx *c, const sp_adrs *a, const uint8_t *m, int blocks, uint8_t *out); /* H and T_l, l >= 2 */
void sp_PRF(const sp_ctx *c, const sp_adrs *a, uint8_t *out);
void sp_PRFmsg(const sp_ps *ps, const uint8_t *skprf, const uint8_t *opt, const void *msg, uint64_t len, uint8_t *out);
void sp_Hmsg(const sp_ps *ps, const uint8_t *R, const uint8_t *pkseed, const uint8_t *pkroot, const void *msg, uint64_t len, uint8_t *out, int outlen);
int sp_mlen(const sp_ps *ps);
void sp_split(const sp_ps *ps, const uint8_t *digest, uint32_t *indices, uint64_t *tree, uint32_t *leaf);
unsigned sp_siglen(const sp_ps *ps);
void sp_root(const sp_ps *ps, const uint8_t *skseed, const uint8_t *pkseed, uint8_t *root);
extern unsigned sp_stop;
void sp_sign(const sp_ps *ps, const uint8_t *sk, const uint8_t *opt, const void *msg, uint64_t len, uint8_t *sig);
/* the root a signature leads to; the signature is valid iff it equals PK.root */
void sp_verify_root(const sp_ps *ps, const uint8_t *pk, const void *msg, uint64_t len, const uint8_t *sig, uint8_t *root);
/* lemma material */
void sp_wots_pkgen(const sp_ctx *c, sp_adrs a, uint8_t *pk);
void sp_wots_sign(const sp_ctx *c, const uint8_t *m, sp_adrs a, uint8_t *sig);
void sp_wots_pk_from_sig(const sp_ctx *c, const uint8_t *sig, const uint8_t *m, sp_adrs a, uint8_t *pk);
void sp_digits(int n, const uint8_t *m, uint32_t *d);
#endif
