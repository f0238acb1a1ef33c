#include "common.h"
const unsigned vp_ctxsize[3] = { sizeof(SHA256_CTX), sizeof(SHA512_CTX), sizeof(SHAKE256_CTX) };
/* the published parameters (NIST submission round 3.1, table 3) */
static const sp_ps table[12] = {
  { 1, 16, 33, 6, 66, 22, 3 }, { 1, 16, 14, 12, 63, 7, 9 }, { 1, 24, 33, 8, 66, 22, 3 },
  { 1, 24, 17, 14, 63, 7, 9 }, { 1, 32, 35, 9, 68, 17, 4 }, { 1, 32, 22, 14, 64, 8, 8 },
  { 0, 16, 33, 6, 66, 22, 3 }, { 0, 16, 14, 12, 63, 7, 9 }, { 0, 24, 33, 8, 66, 22, 3 },
  { 0, 24, 17, 14, 63, 7, 9 }, { 0, 32, 35, 9, 68, 17, 4 }, { 0, 32, 22, 14, 64, 8, 8 },
};
static const struct ts_parameter_set *real_ps(int id) {
  switch (id) {
#if TS_SUPPORT_SHA2
  case 0: return &ts_ps_sha2_128f_simple;
#if TS_SUPPORT_S
  case 1: return &ts_ps_sha2_128s_simple;
#endif
#if TS_SUPPORT_L3 || TS_SUPPORT_L5
  case 2: return &ts_ps_sha2_192f_simple;
#if TS_SUPPORT_S
  case 3: return &ts_ps_sha2_192s_simple;
#endif
#endif
#if TS_SUPPORT_L5
  case 4: return &ts_ps_sha2_256f_simple;
#if TS_SUPPORT_S
  case 5: return &ts_ps_sha2_256s_simple;
#endif
#endif
#endif
#if TS_SUPPORT_SHAKE
  case 6: return &ts_ps_shake_128f_simple;
#if TS_SUPPORT_S
  case 7: return &ts_ps_shake_128s_simple;
#endif
#if TS_SUPPORT_L3 || TS_SUPPORT_L5
  case 8: return &ts_ps_shake_192f_simple;
#if TS_SUPPORT_S
  case 9: return &ts_ps_shake_192s_simple;
#endif
#endif
#if TS_SUPPORT_L5
  case 10: return &ts_ps_shake_256f_simple;
#if TS_SUPPORT_S
  case 11: return &ts_ps_shake_256s_simple;
#endif
#endif
#endif
  }
  return 0;
}
static struct ts_parameter_set small1, small2;
static const struct ts_parameter_set *get_ps(sp_ps *sp, int id, struct ts_parameter_set *sm) {
  const struct ts_parameter_set *p = real_ps(id);
  if (!p) { vp_note("parameter set not supported by this configuration"); vp_kill(); }
  *sp = table[id];
  if (!vp_param("k")) return p;
  /* a structure with members this file does not know cannot be reduced consistently */
  struct known { unsigned char b[7]; void *f[8]; };
  if (sizeof(struct ts_parameter_set) != sizeof(struct known)) { vp_note("parameter set structure changed"); vp_kill(); }
  *sm = *p;
  sp->k = (int)vp_param("k"); sp->a = (int)vp_param("t"); sp->d = (int)vp_param("d"); sp->hp = (int)vp_param("mh");
  sp->h = sp->d * sp->hp;
  sm->k = sp->k; sm->t = sp->a; sm->d = sp->d; sm->merkle_h = sp->hp; sm->h = sp->h;
  vp_ro(sm);
  return sm;
}
const struct ts_parameter_set *job_ps(sp_ps *sp) { return get_ps(sp, (int)vp_param("ps"), &small1); }
const struct ts_parameter_set *job_ps2(sp_ps *sp) { return get_ps(sp, (int)vp_param("ps2"), &small2); }
const struct ts_parameter_set *ps_number(int id, sp_ps *sp) { *sp = table[id]; return real_ps(id); }
