/* Interface between the C harnesses and whoever runs them: the symbolic
 * executor (engine/), or a native build replaying one concrete assignment
 * (native.c). */
#ifndef VP_H
#define VP_H
#include <stdint.h>
#include <stddef.h>
uint64_t vp_param(const char *name);               /* job parameter */
void vp_sym(void *p, uint64_t n, const char *name);/* n symbolic bytes */
void vp_assume(int c);
void vp_assert(int c, const char *label);
int  vp_assert_eq(const void *a, const void *b, uint64_t n, const char *label);
int  vp_same(const void *a, const void *b, uint64_t n); /* identical for every input (0 when run natively) */
void *vp_alloc(uint64_t n, const char *name);      /* uninitialised storage of exactly n bytes */
void *vp_stop(uint64_t n, const char *name);       /* n symbolic bytes; reading on behind them ends the path */
void vp_onstop(void (*f)(void));                    /* run this there instead (symbolic runs only; it must end with vp_kill) */
void vp_free(void *p);
void vp_ro(const void *p);                         /* from now on writes to this object are violations */
void vp_rw(const void *p);
void vp_out(const char *name, const void *p, uint64_t n); /* observable, for trace validation */
void *vp_blob(const char *name, uint64_t *len);    /* opaque message of symbolic length */
uint64_t vp_conc(uint64_t v);                      /* enumerate the values of v */
void vp_budget(uint64_t n);
void vp_kill(void);
void vp_cov(const char *label);                    /* must be reachable (vacuity witness) */
void vp_secret(const void *p, uint64_t n);         /* from now on the library's control flow and addresses must not depend on these */
void vp_public(const void *p, uint64_t n);         /* derived values that anyone who sees the signature can compute */
void vp_stack(uint64_t limit);                     /* automatic storage the library may use until vp_stack_done */
void vp_stack_done(void);
uint64_t vp_hashes(void);                          /* hash computations finished so far (stand-in primitives) */
uint64_t vp_hashed(void);                          /* bytes fed to them in updates of fixed size */
int  vp_native(void);
void *vp_zeros(uint64_t n);                        /* native runs only: n zero bytes, or NULL */
void vp_note(const char *s);
/* the hash functions as the specification sees them */
enum { VH_SHA256 = 1, VH_SHA512 = 2, VH_SHAKE256 = 3 };
typedef struct { uint64_t w[34]; } vp_h;
void vp_h_init(vp_h *h, unsigned fn);
void vp_h_add(vp_h *h, const void *p, uint64_t n);
void vp_h_out(vp_h *h, void *out, uint64_t n);
#endif
