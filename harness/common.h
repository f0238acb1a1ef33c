#ifndef COMMON_H
#define COMMON_H
#include "spec.h"
#include "tiny_sphincs.h"
#include "internal.h"
#include <string.h>
/* which parameter set a job uses: its number, and optional reductions of
 * k, t (FORS height), d and merkle_h for bounded jobs */
const struct ts_parameter_set *job_ps(sp_ps *sp);
const struct ts_parameter_set *job_ps2(sp_ps *sp);   /* a second one, parameter ps2 */
const struct ts_parameter_set *ps_number(int id, sp_ps *sp);  /* 0 if not supported */
void rng_setup(int mode);   /* 0: none, 1: always succeeds, 2: succeeds or fails */
void *buf(uint64_t n, const char *name);
extern uint8_t rng_bytes[4 * SP_MAXN]; extern int32_t rng_ret;
extern int rng_calls; extern uint64_t rng_len[4];
int rng_cb(unsigned char *p, size_t n);
#endif
