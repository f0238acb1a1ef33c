/* The C library functions the code may call, for the symbolic executor. */
#include <stddef.h>
#include <stdint.h>
#include "vp.h"
int vp_memdiff(const void *a, const void *b, uint64_t n);
int memcmp(const void *a, const void *b, size_t n) { return vp_memdiff(a, b, n); }   /* nonzero iff different; the sign is not modelled */
int bcmp(const void *a, const void *b, size_t n) { return vp_memdiff(a, b, n); }
size_t strlen(const char *s) { size_t n = 0; while (s[n]) n++; return n; }
void explicit_bzero(void *p, size_t n) { volatile unsigned char *q = p; for (size_t i = 0; i < n; i++) q[i] = 0; }
/* the library never allocates (natively: --wrap, see native.c) */
void *malloc(size_t n) { vp_assert(0, "the library allocates memory"); return vp_alloc(n, "malloc"); }
void *calloc(size_t n, size_t m) { unsigned char *p = malloc(n * m); for (size_t i = 0; i < n * m; i++) p[i] = 0; return p; }
void free(void *p) { if (p) vp_free(p); }
void abort(void) { vp_assert(0, "the library calls abort"); vp_kill(); for (;;); }
