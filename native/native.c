/* Native implementation of the contract vocabulary: runs the same harnesses on the compiled code, on concrete values.
   usage: replay ENTRY SEED TRIALS SECONDS [CEXFILE]     exit 10 = a failing input was found (printed) */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <time.h>
#include <unistd.h>
#include "fv.h"
static u64 seed, trial, rs; static int failed, usecex; static char msg[400];
static u64 rnd(void) { rs += 0x9e3779b97f4a7c15ull; u64 x = rs; x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull; x = (x ^ (x >> 27)) * 0x94d049bb133111ebull; return x ^ (x >> 31); }
static struct { char name[64]; u64 n, *idx, *val; } cex[256]; static int ncex;
static struct { u8 *p, *init, *real, *ign; u64 n; char name[64]; } obj[4096]; static int nobj; static void *tofree[16384]; static int ntf;
static int phase;
static void fail(const char *m, const char *nm, long i) { if (failed) return; failed = 1; snprintf(msg, sizeof msg, "%s %s[%ld]", m, nm, i); }
void *fv_buf(u64 size, u64 align, u64 mis, const char *name)
{
  u8 *b = 0; if (posix_memalign((void **)&b, 4096, size + 8192 + 4096)) abort(); tofree[ntf++] = b; memset(b, 0xA5, size + 8192 + 4096);
  u8 *p = b + 4096 + (mis % align); obj[nobj].p = p - 64; obj[nobj].n = size + 128; snprintf(obj[nobj].name, 64, "%s", name); obj[nobj].init = obj[nobj].real = obj[nobj].ign = 0; nobj++; return p;
}
void fv_fresh(void *p, u64 n, u64 w, const char *name, int label)
{
  (void)label; u8 *o = p; int mode = usecex ? 1 : (int)(trial % 8), sub = mode == 7 ? (int)(rnd() % 7) : mode;
  static const u16 edge[] = {0, 1, 2, 0x7fff, 0x8000, 0x8001, 0xffff, 0xfffe, 0x4000, 0x3fff, 0x1000, 0x0fff, 0x0800, 0x7ff, 0x801, 0x00ff, 0xff00};
  for (u64 i = 0; i < n; i++) { u64 v;
    switch (sub) { case 1: v = 0; break; case 2: v = ~0ull; break; case 3: v = edge[rnd() % 17]; if (w == 1 && (rnd() & 1)) v >>= 8; break; case 4: v = rnd() % 16 ? 0 : rnd(); break; case 5: v = rnd() & 15; break; default: v = rnd(); }
    memcpy(o + i * w, &v, w); }
  if (usecex) for (int c = 0; c < ncex; c++) if (!strcmp(cex[c].name, name)) for (u64 k = 0; k < cex[c].n; k++) if (cex[c].idx[k] < n) memcpy(o + cex[c].idx[k] * w, &cex[c].val[k], w);
}
void fv_begin(void) { phase = 1; for (int i = 0; i < nobj; i++) { obj[i].init = malloc(obj[i].n); memcpy(obj[i].init, obj[i].p, obj[i].n); } }
void fv_mid(void) { phase = 2; for (int i = 0; i < nobj; i++) if (obj[i].init) { obj[i].real = malloc(obj[i].n); memcpy(obj[i].real, obj[i].p, obj[i].n); memcpy(obj[i].p, obj[i].init, obj[i].n); } }
void fv_endk(void)
{
  for (int i = 0; i < nobj; i++) if (obj[i].real) for (u64 j = 0; j < obj[i].n; j++) if (obj[i].real[j] != obj[i].p[j] && !(obj[i].ign && obj[i].ign[j])) { fail("result differs from the specification at", obj[i].name, (long)j - 64); break; }
  for (int i = 0; i < nobj; i++) { free(obj[i].init); free(obj[i].real); free(obj[i].ign); obj[i].init = obj[i].real = obj[i].ign = 0; } phase = 0;
}
void fv_end(void) { fv_endk(); nobj = 0; }
void fv_ignore(const void *q, u64 n) { const u8 *p = q; for (int i = 0; i < nobj; i++) if (p >= obj[i].p && p < obj[i].p + obj[i].n) { if (!obj[i].ign) obj[i].ign = calloc(obj[i].n, 1); memset(obj[i].ign + (p - obj[i].p), 1, n); } }
void fv_assume(int c) { (void)c; }
void fv_check(int c, const char *m) { if (!c) fail("check:", m, 0); }
void fv_check_eq(const void *a, const void *b, u64 n, const char *m) { const u8 *x = a, *y = b; for (u64 i = 0; i < n; i++) if (x[i] != y[i]) { fail("check:", m, (long)i); return; } }
void fv_uf(const char *name, void *out, u64 outlen, int label, int nin, ...) { (void)out; (void)outlen; (void)label; (void)nin; fprintf(stderr, "uninterpreted %s called natively\n", name); abort(); }
int fv_opaque(const char *n) { (void)n; return 0; }
int fv_symbolic(void) { return 0; }
void fv_havoc(void *p, u64 n, int label, const char *name) { (void)label; (void)name; u8 *o = p; for (u64 i = 0; i < n; i++) o[i] = (u8)rnd(); }
void fv_req_r(const void *p, u64 n, u64 a) { (void)p; (void)n; (void)a; }
void fv_req_w(void *p, u64 n, u64 a) { (void)p; (void)n; (void)a; }
void fv_req_public(const void *p, u64 n) { (void)p; (void)n; }
void fv_declassify(void *p, u64 n) { (void)p; (void)n; }
int fv_choose(int n) { return (int)(rnd() % (u64)n); }
void fv_used(const char *c, ...) { (void)c; }
u64 fv_param(u64 i) { const char *s = getenv("FV_PARAM"); while (s && i--) { s = strchr(s, ','); if (s) s++; } return s ? strtoull(s, 0, 0) : 0; }
int fv_overlap(const void *p, u64 n, const void *q, u64 m) { const u8 *a = p, *b = q; if (!n || !m) return 0; return a == b ? 1 : a < b + m && b < a + n ? 2 : 0; }
void fv_event(const char *k, const char *m) { (void)k; (void)m; }
int main(int argc, char **argv)
{
  if (argc < 5) return 3;
  void (*f)(void) = (void (*)(void))dlsym(RTLD_DEFAULT, argv[1]); if (!f) { printf("no entry %s\n", argv[1]); return 4; }
  seed = strtoull(argv[2], 0, 0); u64 trials = strtoull(argv[3], 0, 0); double lim = atof(argv[4]); alarm((unsigned)(lim * 3 + 120));
  if (argc > 5) { FILE *h = fopen(argv[5], "r"); char nm[64]; unsigned long n; while (h && ncex < 256 && fscanf(h, "%63s %lu", nm, &n) == 2) { strcpy(cex[ncex].name, nm); cex[ncex].n = n; cex[ncex].idx = malloc(8 * n + 8); cex[ncex].val = malloc(8 * n + 8); for (unsigned long i = 0; i < n; i++) { unsigned long a, b; if (fscanf(h, "%lu %lu", &a, &b) != 2) return 5; cex[ncex].idx[i] = a; cex[ncex].val[i] = b; } ncex++; } if (h) fclose(h); usecex = 1; }
  struct timespec t0, t1; clock_gettime(CLOCK_MONOTONIC, &t0);
  for (trial = 0; trial < trials; trial++) {
    rs = seed * 1000003 + trial * 7919; nobj = ntf = 0; failed = 0; phase = 0; f();
    for (int i = 0; i < ntf; i++) free(tofree[i]);
    if (failed) { printf("FAIL entry=%s seed=%llu trial=%llu%s: %s\n", argv[1], (unsigned long long)seed, (unsigned long long)trial, usecex ? " (counterexample values)" : "", msg); return 10; }
    clock_gettime(CLOCK_MONOTONIC, &t1); if (t1.tv_sec - t0.tv_sec + (t1.tv_nsec - t0.tv_nsec) * 1e-9 > lim) { trial++; break; }
  }
  printf("PASS entry=%s trials=%llu\n", argv[1], (unsigned long long)trial); return 0;
}
