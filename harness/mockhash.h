/* A streaming stand-in for the hash functions, shared by the native replay
 * and the symbolic engine's concrete evaluator.  Outputs can be overridden
 * by a table, so a solver's choice of hash outputs can be replayed. */
#ifndef MOCKHASH_H
#define MOCKHASH_H
#include <stdint.h>
#include <stddef.h>
typedef struct { uint64_t a, b, len; } mh_t;
static inline uint64_t mh_rot(uint64_t x, int r) { return (x << r) | (x >> (64 - r)); }
static inline void mh_init(mh_t *m, unsigned fn) {
  m->a = 0x9e3779b97f4a7c15ull * (fn + 1); m->b = 0xc2b2ae3d27d4eb4full ^ fn; m->len = 0;
}
static inline void mh_update(mh_t *m, const unsigned char *p, size_t n) {
  uint64_t a = m->a, b = m->b;
  for (size_t i = 0; i < n; i++) {
    a = (a ^ p[i]) * 0xff51afd7ed558ccdull; a ^= a >> 32;
    b = (mh_rot(b, 23) + a + p[i]) * 0xc4ceb9fe1a85ec53ull;
  }
  m->a = a; m->b = b; m->len += n;
}
static inline uint64_t mh_mix(uint64_t x) {
  x ^= x >> 30; x *= 0xbf58476d1ce4e5b9ull; x ^= x >> 27; x *= 0x94d049bb133111ebull; x ^= x >> 31; return x;
}
static inline void mh_key(const mh_t *m, uint64_t k[2]) {
  k[0] = mh_mix(m->a ^ mh_mix(m->len)); k[1] = mh_mix(m->b + mh_rot(m->a, 17) + m->len);
}
static inline unsigned char mh_out(const uint64_t k[2], uint64_t i) {
  return (unsigned char)(mh_mix(k[0] + mh_mix(k[1] ^ (i >> 3))) >> (8 * (i & 7)));
}
/* deterministic default contents for a named input */
static inline uint64_t mh_name(const char *s, uint64_t seed) {
  uint64_t h = mh_mix(seed + 0x1234567);
  while (*s) h = mh_mix(h ^ (unsigned char)*s++) + 0x9e3779b97f4a7c15ull;
  return h;
}
static inline unsigned char mh_defbyte(uint64_t nameh, uint64_t i) {
  return (unsigned char)(mh_mix(nameh + 0x632be59bd9b4e019ull * ((i >> 3) + 1)) >> (8 * (i & 7)));
}
/* contents of an opaque message blob: patterned head, zero afterwards */
static inline unsigned char mh_blobbyte(uint64_t nameh, uint64_t i) {
  return i < 4096 ? mh_defbyte(nameh, i) : 0;
}
enum { MH_SHA256 = 1, MH_SHA512 = 2, MH_SHAKE256 = 3 };
#endif
