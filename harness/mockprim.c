/* Native stand-ins for the hash primitives (same behaviour as the engine's
 * summaries): a streaming mixing function whose outputs a replay can override. */
#include "vp.h"
#include "mockhash.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "sha2.h"
#include "fips202.h"
void vp_fail(const char *kind, const char *label);
extern uint64_t nhashes, nhashed; int isblob(const void *p);
void mock_final(const mh_t *m, unsigned char *out, size_t pos, size_t n);
typedef struct { uint64_t magic; uint32_t fn, phase; uint64_t pos; mh_t m; } mc;
static void add(mh_t *m, const void *p, uint64_t n) { if (!isblob(p)) nhashed += n; mh_update(m, p, n); }
#define MAGIC 0x6d6f636b68617368ull
static mc *get(void *p, unsigned fn) {
  mc *c = p;
  if (c->magic != MAGIC) vp_fail("hashctx", "use of a hash context that is not initialised");
  if (c->fn != fn) vp_fail("hashctx", "hash operation on another function's context");
  return c;
}
static void init(void *p, unsigned fn, size_t sz) { mc *c = p; memset(p, 0x5a, sz); memset(c, 0, sizeof *c); c->magic = MAGIC; c->fn = fn; mh_init(&c->m, fn); }
static void fin(unsigned char *d, void *p, unsigned fn, size_t n, size_t max, size_t unit) {
  mc *c = get(p, fn);
  if (n > max || n % unit) vp_fail("hashctx", "truncated output length not supported by the hash interface");
  mock_final(&c->m, d, 0, n); nhashes++;
  c->magic = 0;
}
void ts_SHA256_init(SHA256_CTX *c) { init(c, MH_SHA256, sizeof *c); }
void ts_SHA256_update(SHA256_CTX *c, const void *m, uint64_t n) { add(&get(c, MH_SHA256)->m, m, n); }
void ts_SHA256_final(unsigned char *d, SHA256_CTX *c) { fin(d, c, MH_SHA256, 32, 32, 4); }
void ts_SHA256_final_trunc(unsigned char *d, SHA256_CTX *c, unsigned n) { fin(d, c, MH_SHA256, n, 32, 4); }
void ts_SHA256_save_state(uint32_t *s, const SHA256_CTX *c) { mc *q = get((void *)c, MH_SHA256); memset(s, 0, 32); memcpy(s, &q->m.a, 8); memcpy((char *)s + 8, &q->m.b, 8); }
void ts_SHA256_restore_state_after_64(SHA256_CTX *c, const uint32_t *s) { init(c, MH_SHA256, sizeof *c); mc *q = (void *)c; memcpy(&q->m.a, s, 8); memcpy(&q->m.b, (const char *)s + 8, 8); q->m.len = 64; }
void ts_SHA512_init(SHA512_CTX *c) { init(c, MH_SHA512, sizeof *c); }
void ts_SHA512_update(SHA512_CTX *c, const void *m, uint64_t n) { add(&get(c, MH_SHA512)->m, m, n); }
void ts_SHA512_final(unsigned char *d, SHA512_CTX *c) { fin(d, c, MH_SHA512, 64, 64, 8); }
void ts_SHA512_final_trunc(unsigned char *d, SHA512_CTX *c, unsigned n) { fin(d, c, MH_SHA512, n, 64, 8); }
void ts_SHA512_save_state(uint64_t *s, const SHA512_CTX *c) { mc *q = get((void *)c, MH_SHA512); memset(s, 0, 64); s[0] = q->m.a; s[1] = q->m.b; }
void ts_SHA512_restore_state_after_128(SHA512_CTX *c, const uint64_t *s) { init(c, MH_SHA512, sizeof *c); mc *q = (void *)c; q->m.a = s[0]; q->m.b = s[1]; q->m.len = 128; }
void ts_shake256_inc_init(SHAKE256_CTX *c) { init(c, MH_SHAKE256, sizeof *c); }
void ts_shake256_inc_absorb(SHAKE256_CTX *c, const uint8_t *p, size_t n) { mc *q = get(c, MH_SHAKE256); if (q->phase) vp_fail("hashctx", "SHAKE operations out of order"); add(&q->m, p, n); }
void ts_shake256_inc_finalize(SHAKE256_CTX *c) { mc *q = get(c, MH_SHAKE256); if (q->phase) vp_fail("hashctx", "SHAKE operations out of order"); q->phase = 1; q->pos = 0; nhashes++; }
void ts_shake256_inc_squeeze(uint8_t *out, size_t n, SHAKE256_CTX *c) { mc *q = get(c, MH_SHAKE256); if (!q->phase) vp_fail("hashctx", "SHAKE operations out of order"); mock_final(&q->m, out, q->pos, n); q->pos += n; }
