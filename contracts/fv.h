/* Contract vocabulary understood by the verifier (engine/builtin.inc); natively implemented by native.c for replay. */
#ifndef FV_H
#define FV_H
#include <stddef.h>
#include <stdint.h>
typedef uint8_t u8; typedef uint16_t u16; typedef uint32_t u32; typedef uint64_t u64;
enum { FV_PUBLIC = 0, FV_SECRET = 1, FV_JOIN = 2 };
void fv_fresh(void *p, u64 nelem, u64 elsz, const char *name, int label);   /* arbitrary contents */
void *fv_buf(u64 size, u64 align, u64 mis, const char *name);               /* caller-visible object at address = mis mod align */
void fv_assume(int c);
void fv_check(int c, const char *msg);
void fv_check_eq(const void *a, const void *b, u64 n, const char *msg);
void fv_uf(const char *name, void *out, u64 outlen, int label, int nin, ...); /* uninterpreted byte-string function, prefix consistent */
int fv_opaque(const char *name);       /* is this specification function left uninterpreted in this job? */
int fv_symbolic(void);
void fv_havoc(void *p, u64 n, int label, const char *name);
void fv_req_r(const void *p, u64 n, u64 align);    /* requires: n readable, initialised bytes */
void fv_req_w(void *p, u64 n, u64 align);          /* requires: n writable bytes */
void fv_req_public(const void *p, u64 n);          /* requires: independent of secrets */
void fv_declassify(void *p, u64 n);
int fv_choose(int n);                              /* demonic choice 0..n-1 */
void fv_begin(void); void fv_mid(void); void fv_end(void);  /* real run | rewind | specification run, compare */
void fv_endk(void);   /* as fv_end, keeping the objects (native only) */
void fv_ignore(const void *p, u64 n);
void fv_used(const char *contract, ...);   /* records the instance (lengths, aliasing) a caller relies on; each is proved against the body */
u64 fv_param(u64 i);                     /* harness parameter (instance lengths) */
int fv_overlap(const void *p, u64 n, const void *q, u64 m);   /* 0 disjoint, 1 same start, 2 other overlap */
void fv_event(const char *kind, const char *msg);
#endif
