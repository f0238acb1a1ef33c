/* Runs one harness natively on one concrete assignment (a replay file written
 * by the engine).  Exit status: 0 nothing wrong, 10 the harness or a sanitizer
 * reported a failure, 77 the assignment does not satisfy the assumptions. */
#define _GNU_SOURCE
#include "vp.h"
#include "mockhash.h"
#include <dlfcn.h>
#include <link.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <unistd.h>
#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#include <sanitizer/asan_interface.h>
#define HAVE_ASAN 1
#endif
#if __has_feature(memory_sanitizer)
#include <sanitizer/msan_interface.h>
#define HAVE_MSAN 1
#endif
#endif
struct ent { char *kind, *name; uint64_t n; unsigned char *data; };
static struct ent *ents; static size_t nents;
struct ovr { uint64_t k0, k1; size_t n; unsigned char *data; };
static struct ovr *ovrs; static size_t novrs;
static uint64_t seed = 1;
static int fillbyte = 0xa5;
static const char *replayPath;
static void report(const char *k, const char *l) { printf("VP-FAIL %s: %s\n", k, l); fflush(stdout); }
static void check_globals(void);
static void check_ro(void);
void vp_fail(const char *kind, const char *label) { report(kind, label); _exit(10); }
static unsigned char *unhex(const char *h, size_t *n) {
  size_t l = strlen(h) / 2; unsigned char *r = malloc(l + 1);
  for (size_t i = 0; i < l; i++) { unsigned v; sscanf(h + 2 * i, "%2x", &v); r[i] = (unsigned char)v; }
  *n = l; return r;
}
static void readReplay(const char *path) {
  FILE *f = fopen(path, "r"); if (!f) { perror(path); _exit(2); }
  char *line = 0; size_t cap = 0;
  while (getline(&line, &cap, f) > 0) {
    line[strcspn(line, "\n")] = 0;
    char *sp = strchr(line, ' '); if (!sp) continue;
    *sp++ = 0;
    if (!strcmp(line, "seed")) { seed = strtoull(sp, 0, 10); continue; }
    if (!strcmp(line, "param") || !strcmp(line, "sym") || !strcmp(line, "blob")) {
      char *s2 = strchr(sp, ' '); if (!s2) continue;
      *s2++ = 0;
      ents = realloc(ents, (nents + 1) * sizeof *ents);
      struct ent *e = &ents[nents++];
      e->kind = strdup(line); e->name = strdup(sp); e->n = strtoull(s2, 0, 10); e->data = 0;
      if (!strcmp(line, "sym")) { char *s3 = strchr(s2, ' '); if (s3) { size_t n; e->data = unhex(s3 + 1, &n); if (n < e->n) _exit(2); } }
    }
    if (!strcmp(line, "over")) {
      ovrs = realloc(ovrs, (novrs + 1) * sizeof *ovrs);
      struct ovr *o = &ovrs[novrs++];
      char *e; o->k0 = strtoull(sp, &e, 16); o->k1 = strtoull(e, &e, 16); strtoull(e, &e, 10); while (*e == ' ') e++;
      o->data = unhex(e, &o->n);
    }
  }
  free(line); fclose(f);
}
static struct ent *find(const char *k, const char *n) { for (size_t i = 0; i < nents; i++) if (!strcmp(ents[i].kind, k) && !strcmp(ents[i].name, n)) return &ents[i]; return 0; }
uint64_t vp_param(const char *name) { struct ent *e = find("param", name); if (!e) { printf("missing parameter %s\n", name); _exit(2); } return e->n; }
void vp_sym(void *p, uint64_t n, const char *name) {
  struct ent *e = find("sym", name); unsigned char *q = p; uint64_t h = mh_name(name, seed);
  for (uint64_t i = 0; i < n; i++) q[i] = e && i < e->n ? e->data[i] : mh_defbyte(h, i);
}
void vp_assume(int c) { if (!c) { printf("assumption not met\n"); fflush(stdout); _exit(77); } }
void vp_kill(void) { printf("path not counted\n"); fflush(stdout); _exit(77); }
void vp_assert(int c, const char *label) { if (!c) vp_fail("assert", label); }
int vp_assert_eq(const void *a, const void *b, uint64_t n, const char *label) { if (memcmp(a, b, n)) vp_fail("assert", label); return 1; }
int vp_same(const void *a, const void *b, uint64_t n) { (void)a; (void)b; (void)n; return 0; }
/* objects in pages of their own, so that they can be write protected */
struct obj { unsigned char *p, *base; size_t n, len; int ro; unsigned char *copy; };
static struct obj objs[4096]; static int nobjs;
static struct obj *findObj(const void *p) { for (int i = nobjs - 1; i >= 0; i--) if (objs[i].p == p) return &objs[i]; return 0; }
void *vp_alloc(uint64_t n, const char *name) {
  (void)name;
  if (nobjs == 4096) { printf("too many objects\n"); _exit(2); }
  size_t len = ((n + 4095) & ~4095ull) + 8192;
  unsigned char *b = mmap(0, len, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  /* right aligned to 16 bytes, one guard page on each side */
  unsigned char *p = b + 4096;
  memset(p, fillbyte, len - 8192);
  mprotect(b, 4096, PROT_NONE); mprotect(b + len - 4096, 4096, PROT_NONE);
#ifdef HAVE_ASAN
  __asan_poison_memory_region(p + n, len - 8192 - n);
#endif
#ifdef HAVE_MSAN
  __msan_poison(p, n);
#endif
  objs[nobjs++] = (struct obj){p, b, n, len, 0, 0};
  return p;
}
void vp_free(void *p) {
  struct obj *o = findObj(p);
  if (!o) { /* a message blob */ return; }
#ifdef HAVE_ASAN
  __asan_poison_memory_region(o->p, o->n);
#endif
  mprotect(o->base, o->len, PROT_NONE);
  *o = objs[--nobjs];
}
static struct { const unsigned char *p; size_t n; unsigned char *copy; } ros[64]; static int nros;
void vp_ro_static(const void *p, size_t n) { if (nros == 64) return; ros[nros].p = p; ros[nros].n = n; ros[nros].copy = malloc(n); memcpy(ros[nros].copy, p, n); nros++; }
void vp_ro(const void *p) { struct obj *o = findObj(p); if (o) { o->ro = 1; mprotect(o->p, o->len - 8192, PROT_READ); } }
void vp_rw(const void *p) { struct obj *o = findObj(p); if (o) { o->ro = 0; mprotect(o->p, o->len - 8192, PROT_READ | PROT_WRITE); } }
static void check_ro(void) { for (int i = 0; i < nros; i++) if (memcmp(ros[i].p, ros[i].copy, ros[i].n)) vp_fail("readonly", "a constant input changed"); }
void vp_out(const char *name, const void *p, uint64_t n) {
  const unsigned char *q = p; printf("OUT %s ", name); for (uint64_t i = 0; i < n; i++) printf("%02x", q[i]); printf("\n");
}
static struct { const unsigned char *p; uint64_t n; } blobs[16]; static int nblobs;
int isblob(const void *p) { for (int i = 0; i < nblobs; i++) if ((const unsigned char *)p >= blobs[i].p && (const unsigned char *)p <= blobs[i].p + blobs[i].n) return 1; return 0; }
void *vp_blob(const char *name, uint64_t *len) {
  struct ent *e = find("blob", name);
  uint64_t n = e ? e->n : mh_mix(mh_name(name, seed)) % 300, h = mh_name(name, seed);
  size_t l = ((n + 4095) & ~4095ull) + 8192;
  unsigned char *b = mmap(0, l, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (b == MAP_FAILED) { printf("message too long\n"); fflush(stdout); _exit(77); }
  unsigned char *p = b + 4096;
  for (uint64_t i = 0; i < n && i < 4096; i++) p[i] = mh_blobbyte(h, i);
  mprotect(b, l, PROT_READ); mprotect(b, 4096, PROT_NONE); mprotect(b + l - 4096, 4096, PROT_NONE);
#ifdef HAVE_ASAN
  if (n % 4096) __asan_poison_memory_region(p + n, 4096 - n % 4096);
#endif
  *len = n;
  if (nblobs < 16) { blobs[nblobs].p = p; blobs[nblobs++].n = n; }
  return p;
}
static unsigned char *stopLo, *stopHi;
void *vp_stop(uint64_t n, const char *name) {
  size_t l = ((n + 4095) & ~4095ull) + 4096;
  unsigned char *b = mmap(0, l, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0), *p = b + l - 4096 - n;
  vp_sym(p, n, name);
  stopLo = b + l - 4096; stopHi = b + l;
  mprotect(stopLo, 4096, PROT_NONE); mprotect(b, l - 4096, PROT_READ);
  return p;
}
static void (*stopFn)(void);
void vp_onstop(void (*f)(void)) { stopFn = f; }
#if !defined(HAVE_ASAN) && !defined(HAVE_MSAN)
/* how far down does the stack get (as in the package's stack.c) */
#define PAINT 65536
static uint64_t stackLimit;
static __attribute__((noinline)) void paint(void) { volatile unsigned char a[PAINT]; for (unsigned i = 0; i < PAINT; i++) a[i] = 0xc7; }
static __attribute__((noinline)) unsigned painted(void) { volatile unsigned char a[PAINT]; unsigned i = 0; while (i < PAINT && a[i] == 0xc7) i++; return PAINT - i; }
void vp_stack(uint64_t limit) { stackLimit = limit; paint(); }
void vp_stack_done(void) { unsigned n = painted(); if (stackLimit && n > stackLimit) vp_fail("stack", "more stack used than stated"); }
#else
void vp_stack(uint64_t limit) { (void)limit; }
void vp_stack_done(void) { }
#endif
uint64_t nhashes, nhashed;
uint64_t vp_hashes(void) { return nhashes; }
uint64_t vp_hashed(void) { return nhashed; }
uint64_t vp_conc(uint64_t v) { return v; }
void vp_budget(uint64_t n) { (void)n; }
void vp_cov(const char *l) { printf("COV %s\n", l); }
int vp_native(void) { return 1; }
void *vp_zeros(uint64_t n) {
  void *p = mmap(0, n, PROT_READ, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  alarm(600);
  return p == MAP_FAILED ? 0 : p;
}
/* secrets: poisoned for MemorySanitizer, which then reports branches on and
 * addresses made from them; values registered as public stay clean */
static struct { unsigned char *p; size_t n; } *pubs; static size_t npubs; static int secrets;
void vp_public(const void *p, uint64_t n) {
  pubs = realloc(pubs, (npubs + 1) * sizeof *pubs);
  pubs[npubs].p = malloc(n); memcpy(pubs[npubs].p, p, n); pubs[npubs++].n = n;
}
void vp_secret(const void *p, uint64_t n) {
  secrets = 1;
#ifdef HAVE_MSAN
  __msan_poison(p, n);
#endif
  (void)p; (void)n;
}
static int begin_secret(uint64_t k[2]) {
#ifdef HAVE_MSAN
  if (secrets && __msan_test_shadow(k, 16) >= 0) { __msan_unpoison(k, 16); return 1; }
#endif
  (void)k; return 0;
}
static void end_secret(unsigned char *out, size_t pos, size_t n) {
#ifdef HAVE_MSAN
  size_t clean = 0;
  if (!pos) for (size_t i = 0; i < npubs; i++) if (pubs[i].n <= n && pubs[i].n > clean && !memcmp(pubs[i].p, out, pubs[i].n)) clean = pubs[i].n;
  if (clean < n) __msan_poison(out + clean, n - clean);
#endif
  (void)out; (void)pos; (void)n;
}
void vp_note(const char *l) { (void)l; }
/* the library's calls of these (linked with --wrap) */
void *__wrap_malloc(size_t n) { (void)n; vp_fail("assert", "the library allocates memory"); return 0; }
void *__wrap_calloc(size_t n, size_t m) { (void)n; (void)m; vp_fail("assert", "the library allocates memory"); return 0; }
void *__wrap_realloc(void *p, size_t n) { (void)p; (void)n; vp_fail("assert", "the library allocates memory"); return 0; }
void __wrap_abort(void) { vp_fail("assert", "the library calls abort"); _exit(10); }
static uint64_t unit(const mh_t *m, uint64_t k[2]) { mh_key(m, k); return 0; }
void mock_final(const mh_t *m, unsigned char *out, size_t pos, size_t n) {
  uint64_t k[2]; unit(m, k);
  int sec = begin_secret(k);
  for (size_t i = 0; i < novrs; i++) if (ovrs[i].k0 == k[0] && ovrs[i].k1 == k[1]) {
    for (size_t j = 0; j < n; j++) out[j] = pos + j < ovrs[i].n ? ovrs[i].data[pos + j] : 0;
    if (sec) end_secret(out, pos, n);
    return;
  }
  for (size_t j = 0; j < n; j++) out[j] = mh_out(k, pos + j);
  if (sec) end_secret(out, pos, n);
}
#ifndef VP_REAL
void vp_h_init(vp_h *h, unsigned fn) { memset(h, 0, sizeof *h); mh_init((mh_t *)h->w, fn); }
void vp_h_add(vp_h *h, const void *p, uint64_t n) { mh_update((mh_t *)h->w, p, n); }
void vp_h_out(vp_h *h, void *out, uint64_t n) { mock_final((mh_t *)h->w, out, 0, n); }
#endif
/* static storage of the library under test */
static struct { unsigned char *p; size_t n; unsigned char *copy; } segs[16]; static int nsegs;
static int phdr(struct dl_phdr_info *i, size_t s, void *a) {
  (void)s; (void)a;
  if (!i->dlpi_name || !strstr(i->dlpi_name, "libundertest")) return 0;
  uintptr_t relroEnd = 0;
  for (int k = 0; k < i->dlpi_phnum; k++) if (i->dlpi_phdr[k].p_type == PT_GNU_RELRO) relroEnd = (i->dlpi_addr + i->dlpi_phdr[k].p_vaddr + i->dlpi_phdr[k].p_memsz + 4095) & ~4095ul;
  for (int k = 0; k < i->dlpi_phnum && nsegs < 16; k++) {
    const ElfW(Phdr) *h = &i->dlpi_phdr[k];
    if (h->p_type != PT_LOAD || !(h->p_flags & PF_W)) continue;
    uintptr_t lo = i->dlpi_addr + h->p_vaddr, hi = lo + h->p_memsz;
    if (relroEnd > lo && relroEnd <= hi) lo = relroEnd;
    else if (relroEnd >= hi && relroEnd > lo) continue;
    segs[nsegs].p = (void *)lo; segs[nsegs].n = hi - lo; nsegs++;
  }
  return 0;
}
__attribute__((no_sanitize("address", "memory"))) static void rawcopy(unsigned char *d, const unsigned char *s, size_t n) { for (size_t i = 0; i < n; i++) { ((volatile unsigned char *)d)[i] = ((const volatile unsigned char *)s)[i]; } }
__attribute__((no_sanitize("address", "memory"))) static int rawdiff(const unsigned char *d, const unsigned char *s, size_t n) { for (size_t i = 0; i < n; i++) if (((const volatile unsigned char *)d)[i] != ((const volatile unsigned char *)s)[i]) return 1; return 0; }
static void snap_globals(void) { dl_iterate_phdr(phdr, 0); for (int i = 0; i < nsegs; i++) { segs[i].copy = mmap(0, segs[i].n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); rawcopy(segs[i].copy, segs[i].p, segs[i].n); } }
static void check_globals(void) { for (int i = 0; i < nsegs; i++) if (rawdiff(segs[i].copy, segs[i].p, segs[i].n)) vp_fail("global", "static storage of the library changed"); }
static void onsegv(int s, siginfo_t *i, void *u) {
  (void)u; unsigned char *a = i->si_addr;
  if (stopLo && a >= stopLo && a < stopHi) { if (stopFn) stopFn(); if (write(1, "VP-STOP\n", 8)) {} _exit(0); }
  void onsig(int); onsig(s);
}
void onsig(int s) {
  const char *m = s == SIGSEGV || s == SIGBUS ? "VP-FAIL memory: invalid memory access\n" : s == SIGALRM ? "VP-FAIL hang: no termination\n" : "VP-FAIL ub: fatal signal\n";
  if (write(1, m, strlen(m))) {}
  _exit(10);
}
int main(int argc, char **argv) {
  if (argc < 3) { fprintf(stderr, "usage: native HARNESS REPLAY [FILL]\n"); return 2; }
  replayPath = argv[2]; (void)replayPath;
  if (argc > 3) fillbyte = (int)strtol(argv[3], 0, 0);
  readReplay(argv[2]);
  void (*f)(void) = (void (*)(void))dlsym(RTLD_DEFAULT, argv[1]);
  if (!f) { fprintf(stderr, "no harness %s\n", argv[1]); return 2; }
  static char alt[65536]; stack_t ss; memset(&ss, 0, sizeof ss); ss.ss_sp = alt; ss.ss_size = sizeof alt; sigaltstack(&ss, 0);
  struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = onsegv; sa.sa_flags = SA_SIGINFO | SA_ONSTACK; sigaction(SIGSEGV, &sa, 0); sigaction(SIGBUS, &sa, 0); signal(SIGALRM, onsig); signal(SIGFPE, onsig); signal(SIGILL, onsig);
  alarm(100);
  snap_globals();
  f();
  check_ro(); check_globals();
  printf("VP-DONE\n");
  fflush(stdout);
  _exit(0);
}
