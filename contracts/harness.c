/* Proof harnesses: one per function contract (h_f), lemmas (l_*) and the top-level properties. */
#include <string.h>
#include "params.h"
#define ALLB(p, n, nm, lab) fv_fresh(p, n, 1, nm, lab)
#define ALLW(p, n, nm, lab) fv_fresh(p, n, 2, nm, lab)
extern u8 *rnd_stream; extern u64 rnd_pos, rnd_len;
extern u32 evp_failed, evp_created, evp_freed;
#ifndef MIS
#define MIS 1
#endif

/* ---- util.c */
#define HPACK(name, n) \
  void h_pack_##name(void) { u16 *in = fv_buf(2 * (n), 64, 2, "in"); u8 *out = fv_buf(LOGQ * (n) / 8, 64, MIS, "out"); ALLW(in, n, "in", 1); ALLB(out, LOGQ * (n) / 8, "out0", 1); \
    fv_begin(); frodo_pack(out, LOGQ * (n) / 8, in, n, LOGQ); fv_mid(); sp_pack(out, LOGQ * (n) / 8, in, n, LOGQ); fv_end(); } \
  void h_unpack_##name(void) { u16 *out = fv_buf(2 * (n), 64, 2, "out"); u8 *in = fv_buf(LOGQ * (n) / 8, 64, MIS, "in"); ALLB(in, LOGQ * (n) / 8, "in", 1); ALLW(out, n, "out0", 1); \
    fv_begin(); frodo_unpack(out, n, in, LOGQ * (n) / 8, LOGQ); fv_mid(); sp_unpack(out, n, in, LOGQ * (n) / 8, LOGQ); fv_end(); } \
  void l_packunpack_##name(void) { /* lossless on the specification side */ \
    u16 *m = fv_buf(2 * (n), 64, 0, "m"), *m2 = fv_buf(2 * (n), 64, 0, "m2"); u8 *b = fv_buf(LOGQ * (n) / 8, 64, 0, "b"), *b2 = fv_buf(LOGQ * (n) / 8, 64, 0, "b2"); \
    ALLW(m, n, "m", 1); sp_pack(b, LOGQ * (n) / 8, m, n, LOGQ); sp_unpack(m2, n, b, LOGQ * (n) / 8, LOGQ); for (size_t i = 0; i < (n); i++) m[i] &= QM; fv_check_eq(m2, m, 2 * (n), "unpack(pack(M)) = M mod q"); \
    ALLB(b, LOGQ * (n) / 8, "b", 1); sp_unpack(m, n, b, LOGQ * (n) / 8, LOGQ); sp_pack(b2, LOGQ * (n) / 8, m, n, LOGQ); fv_check_eq(b2, b, LOGQ * (n) / 8, "pack(unpack(b)) = b"); \
    for (size_t i = 0; i < (n); i++) m2[i] = m[i] & QM; fv_check_eq(m2, m, 2 * (n), "unpacked entries below q"); }
HPACK(n, NN)
HPACK(c, 64)
#define HVER(name, n) \
  void h_verify_##name(void) { u16 *a = fv_buf(2 * (n), 64, 2, "a"), *b = fv_buf(2 * (n), 64, 2, "b"); ALLW(a, n, "a", 1); ALLW(b, n, "b", 1); \
    fv_begin(); int r = ct_verify(a, b, n); fv_mid(); int s = sp_equal(a, b, n) ? 0 : -1; fv_end(); fv_check_eq(&r, &s, sizeof r, "ct_verify returns 0 iff all entries are equal, else -1"); }
HVER(n, NN)
HVER(c, 64)
void h_select(void)
{ u8 *a = fv_buf(SEC, 64, MIS, "a"), *b = fv_buf(SEC, 64, MIS, "b"), *r = fv_buf(SEC, 64, MIS, "r"), *sl = fv_buf(1, 64, 0, "sel"); ALLB(a, SEC, "a", 1); ALLB(b, SEC, "b", 1); ALLB(r, SEC, "r0", 1); ALLB(sl, 1, "bit", 1);
  int8_t sel = (int8_t)(0 - (sl[0] & 1));
  fv_begin(); ct_select(r, a, b, SEC, sel); fv_mid(); for (int i = 0; i < SEC; i++) { u8 x = a[i], y = b[i]; r[i] = sel == 0 ? x : y; } fv_end(); }
#define HCLR(name, n) void h_clear_##name(void) { u8 *m = fv_buf(n, 64, MIS, "mem"); ALLB(m, n, "mem", 1); fv_begin(); clear_bytes(m, n); fv_mid(); memset(m, 0, n); fv_end(); }
HCLR(n, 2 * NN)
HCLR(c, 128)
HCLR(s, SEC + 1)
HCLR(t, 2 * SEC)
HCLR(m, MUB)
/* ---- noise.c */
#define HSAMP(name, n) void h_sample_##name(void) { u16 *s = fv_buf(2 * (n), 64, 2, "s"); ALLW(s, n, "s", 1); fv_begin(); frodo_sample_n(s, n); fv_mid(); for (size_t i = 0; i < (n); i++) s[i] = sp_sample1(s[i]); fv_end(); }
HSAMP(n, NN)
HSAMP(c, 64)
/* ---- encode / decode / add / sub */
void h_encode(void) { u16 *o = fv_buf(128, 64, 2, "out"); u8 *in = fv_buf(MUB, 64, MIS, "mu"); ALLB(in, MUB, "mu", 1); ALLW(o, 64, "out0", 1); fv_begin(); frodo_key_encode(o, (u16 *)in); fv_mid(); sp_encode(o, in); fv_end(); }
void h_decode(void) { u16 *in = fv_buf(128, 64, 2, "in"); u8 *o = fv_buf(MUB, 64, MIS, "mu"); ALLW(in, 64, "in", 1); ALLB(o, MUB, "mu0", 1); fv_begin(); frodo_key_decode((u16 *)o, in); fv_mid(); sp_decode(o, in); fv_end(); }
void l_radius(void)
{ u8 *mu = fv_buf(MUB, 64, 0, "mu"), *m2 = fv_buf(MUB, 64, 0, "mu2"); u16 *k = fv_buf(128, 64, 0, "k"), *e = fv_buf(128, 64, 0, "e"); ALLB(mu, MUB, "mu", 1); ALLW(e, 64, "e", 1);
  sp_encode(k, mu);
  /* e ranges exactly over [-q/2^(B+1), q/2^(B+1)): every such value is r - q/2^(B+1) with 0 <= r < q/2^B */
  for (int i = 0; i < 64; i++) k[i] = (u16)(k[i] + (e[i] & ((1u << (LOGQ - BB)) - 1)) - (1u << (LOGQ - BB - 1)));
  sp_decode(m2, k); fv_check_eq(m2, mu, MUB, "decode(encode(m)+e) = m inside the decoding radius"); }
void h_add(void) { u16 *o = fv_buf(128, 64, 2, "out"), *a = fv_buf(128, 64, 2, "a"), *b = fv_buf(128, 64, 2, "b"); ALLW(a, 64, "a", 1); ALLW(b, 64, "b", 1); ALLW(o, 64, "out0", 1);
  fv_begin(); frodo_add(o, a, b); fv_mid(); for (int i = 0; i < 64; i++) o[i] = (u16)(a[i] + b[i]) & QM; fv_end(); }
void h_add_alias(void) { u16 *a = fv_buf(128, 64, 2, "a"), *b = fv_buf(128, 64, 2, "b"); ALLW(a, 64, "a", 1); ALLW(b, 64, "b", 1);
  fv_begin(); frodo_add(b, a, b); fv_mid(); for (int i = 0; i < 64; i++) b[i] = (u16)(a[i] + b[i]) & QM; fv_end(); }
#define MASKV(p, n) for (size_t i_ = 0; i_ < (n); i_++) (p)[i_] &= QM
void h_sub(void) { u16 *o = fv_buf(128, 64, 2, "out"), *a = fv_buf(128, 64, 2, "a"), *b = fv_buf(128, 64, 2, "b"); ALLW(a, 64, "a", 1); ALLW(b, 64, "b", 1); ALLW(o, 64, "out0", 1);
  fv_begin(); frodo_sub(o, a, b); MASKV(o, 64); fv_mid(); for (int i = 0; i < 64; i++) o[i] = (u16)(a[i] - b[i]) & QM; fv_end(); }
void h_sub_alias(void) { u16 *a = fv_buf(128, 64, 2, "a"), *b = fv_buf(128, 64, 2, "b"); ALLW(a, 64, "a", 1); ALLW(b, 64, "b", 1);
  fv_begin(); frodo_sub(b, a, b); MASKV(b, 64); fv_mid(); for (int i = 0; i < 64; i++) b[i] = (u16)(a[i] - b[i]) & QM; fv_end(); }
/* ---- matrix products */
void h_mul_bs(void) { u16 *o = fv_buf(128, 64, 2, "out"), *b = fv_buf(2 * NN, 64, 2, "b"), *s = fv_buf(2 * NN, 64, 2, "s"); ALLW(b, NN, "b", 1); ALLW(s, NN, "s", 1); ALLW(o, 64, "out0", 1);
  fv_begin(); frodo_mul_bs(o, b, s); MASKV(o, 64); fv_mid(); sp_bs(o, b, s); fv_end(); }
void h_mul_sb(void) { u16 *o = fv_buf(128, 64, 2, "out"), *b = fv_buf(2 * NN, 64, 2, "b"), *s = fv_buf(2 * NN, 64, 2, "s"), *e = fv_buf(128, 64, 2, "e"); ALLW(b, NN, "b", 1); ALLW(s, NN, "s", 1); ALLW(e, 64, "e", 1); ALLW(o, 64, "out0", 1);
  fv_begin(); frodo_mul_add_sb_plus_e(o, b, s, e); MASKV(o, 64); fv_mid(); sp_sb(o, b, s, e); fv_end(); }
static void mulbufs(u16 **o, u16 **s, u16 **e, u8 **sd)
{ *o = fv_buf(2 * NN, 64, 4, "out"); *s = fv_buf(2 * NN, 64, 2, "s"); *e = fv_buf(2 * NN, 64, 32, "e"); *sd = fv_buf(SEEDA, 64, MIS, "seed"); ALLW(*s, NN, "s", 1); ALLW(*e, NN, "e", 1); ALLB(*sd, SEEDA, "seed", 0); ALLW(*o, NN, "out0", 1); }
void h_mul_as(void) { u16 *o, *s, *e; u8 *sd; mulbufs(&o, &s, &e, &sd); evp_created = evp_freed = evp_failed = 0;
  fv_begin(); int r = frodo_mul_add_as_plus_e(o, s, e, sd); (void)r; MASKV(o, NN); fv_mid(); sp_as(o, s, e, sd); fv_end(); fv_check(evp_created == evp_freed, "every cipher context created is released"); fv_check(!evp_failed, "no return after a failed back-end call"); }
void h_mul_sa(void) { u16 *o, *s, *e; u8 *sd; mulbufs(&o, &s, &e, &sd); evp_created = evp_freed = evp_failed = 0;
  fv_begin(); int r = frodo_mul_add_sa_plus_e(o, s, e, sd); (void)r; MASKV(o, NN); fv_ignore(e, 2 * NN); fv_mid(); sp_sa(o, s, e, sd); fv_end(); fv_check(evp_created == evp_freed, "every cipher context created is released"); fv_check(!evp_failed, "no return after a failed back-end call"); }
/* ---- contract instances: the lengths and aliasing a caller actually relies on, passed in by the driver (fv_param) */
void hp_pack(void) { u64 n = fv_param(0), l = fv_param(1), m = n * l / 8; u16 *in = fv_buf(2 * n, 64, 2, "in"); u8 *out = fv_buf(m, 64, MIS, "out"); ALLW(in, n, "in", 1); ALLB(out, m, "out0", 1); fv_begin(); frodo_pack(out, m, in, n, (u8)l); fv_mid(); sp_pack(out, m, in, n, (u8)l); fv_end(); }
void hp_unpack(void) { u64 n = fv_param(0), l = fv_param(1), m = n * l / 8; u16 *out = fv_buf(2 * n, 64, 2, "out"); u8 *in = fv_buf(m, 64, MIS, "in"); ALLB(in, m, "in", 1); ALLW(out, n, "out0", 1); fv_begin(); frodo_unpack(out, n, in, m, (u8)l); fv_mid(); sp_unpack(out, n, in, m, (u8)l); fv_end(); }
void hp_sample(void) { u64 n = fv_param(0); u16 *s = fv_buf(2 * n, 64, 2, "s"); ALLW(s, n, "s", 1); fv_begin(); frodo_sample_n(s, n); fv_mid(); for (size_t i = 0; i < n; i++) s[i] = sp_sample1(s[i]); fv_end(); }
void hp_verify(void) { u64 n = fv_param(0); u16 *a = fv_buf(2 * n, 64, 2, "a"), *b = fv_buf(2 * n, 64, 2, "b"); ALLW(a, n, "a", 1); ALLW(b, n, "b", 1); fv_begin(); int r = ct_verify(a, b, n); fv_mid(); int s = sp_equal(a, b, n) ? 0 : -1; fv_end(); fv_check_eq(&r, &s, sizeof r, "ct_verify returns 0 iff all entries are equal, else -1"); }
void hp_select(void) { u64 n = fv_param(0); u8 *a = fv_buf(n, 64, MIS, "a"), *b = fv_buf(n, 64, MIS, "b"), *r = fv_buf(n, 64, MIS, "r"), *sl = fv_buf(1, 64, 0, "sel"); ALLB(a, n, "a", 1); ALLB(b, n, "b", 1); ALLB(r, n, "r0", 1); ALLB(sl, 1, "bit", 1);
  int8_t sel = (int8_t)(0 - (sl[0] & 1)); fv_begin(); ct_select(r, a, b, n, sel); fv_mid(); for (u64 i = 0; i < n; i++) { u8 x = a[i], y = b[i]; r[i] = sel == 0 ? x : y; } fv_end(); }
void hp_clear(void) { u64 n = fv_param(0); u8 *m = fv_buf(n, 64, MIS, "mem"); ALLB(m, n, "mem", 1); fv_begin(); clear_bytes(m, n); fv_mid(); memset(m, 0, n); fv_end(); }
static void hp_as(int sub)
{ u16 *x = fv_buf(128, 64, 2, "x"), *y = fv_buf(128, 64, 2, "y"), *z = fv_buf(128, 64, 2, "z"); int ao = (int)fv_param(0), bo = (int)fv_param(1); u16 *o = x, *a = ao ? x : y, *b = bo ? x : z; ALLW(x, 64, "x", 1); ALLW(y, 64, "y", 1); ALLW(z, 64, "z", 1);
  fv_begin(); if (sub) frodo_sub(o, a, b); else frodo_add(o, a, b); if (sub) MASKV(o, 64); fv_mid(); for (int i = 0; i < 64; i++) o[i] = (u16)(sub ? a[i] - b[i] : a[i] + b[i]) & QM; fv_end(); }
void hp_add(void) { hp_as(0); }
void hp_sub(void) { hp_as(1); }
/* ---- KEM */
void h_keypair(void)
{ u8 *rnd = fv_buf(2 * SEC + SEEDA, 64, 0, "rnd"), *pk = fv_buf(PKB, 64, MIS, "pk"), *sk = fv_buf(SKB, 64, MIS, "sk");
  ALLB(rnd, 2 * SEC, "rnd", 1); ALLB(rnd + 2 * SEC, SEEDA, "rnd_z", 0); ALLB(pk, PKB, "pk0", 0); ALLB(sk, SKB, "sk0", 0);
  rnd_stream = rnd; rnd_pos = 0; rnd_len = 2 * SEC + SEEDA;
  fv_begin(); int r = KEYPAIR(pk, sk); fv_check(rnd_pos == rnd_len, "all specified random bytes are drawn"); fv_mid(); sp_keypair(pk, sk, rnd); fv_end(); fv_check(r == 0, "returns 0"); }
void h_enc(void)
{ u8 *mu = fv_buf(MUB, 64, 0, "mu"), *pk = fv_buf(PKB, 64, MIS, "pk"), *ct = fv_buf(CTB, 64, MIS, "ct"), *ss = fv_buf(SEC, 64, MIS, "ss");
  ALLB(mu, MUB, "mu", 1); ALLB(pk, PKB, "pk", 0); ALLB(ct, CTB, "ct0", 0); ALLB(ss, SEC, "ss0", 0);
  rnd_stream = mu; rnd_pos = 0; rnd_len = MUB;
  fv_begin(); int r = ENC(ct, ss, pk); fv_check(rnd_pos == rnd_len, "all specified random bytes are drawn"); fv_mid(); sp_encaps(ct, ss, pk, mu); fv_end(); fv_check(r == 0, "returns 0"); }
void h_dec(void)
{ u8 *ct = fv_buf(CTB, 64, MIS, "ct"), *sk = fv_buf(SKB, 64, MIS, "sk"), *ss = fv_buf(SEC, 64, MIS, "ss");
  ALLB(ct, CTB, "ct", 0); ALLB(sk, SKB, "sk", 1); ALLB(sk + SEC, PKB, "sk_pk", 0); ALLB(sk + SKB - PKH, PKH, "sk_pkh", 0); ALLB(ss, SEC, "ss0", 0);
  rnd_len = rnd_pos = 0;
  fv_begin(); int r = DEC(ss, ct, sk); fv_mid(); sp_decaps(ss, ct, sk); fv_end(); fv_check(r == 0, "returns 0"); }
/* C04: the real KEYPAIR, ENC and DEC one after another */
extern int rt_phase, rt_as, rt_sa, rt_sb, rt_enc;
void h_roundtrip(void)
{ u8 *rnd = fv_buf(2 * SEC + SEEDA, 64, 0, "rnd"), *pk = fv_buf(PKB, 64, MIS, "pk"), *sk = fv_buf(SKB, 64, MIS, "sk"), *mu = fv_buf(MUB, 64, 0, "mu"), *ct = fv_buf(CTB, 64, MIS, "ct"), *ss = fv_buf(SEC, 64, MIS, "ss"), *s2 = fv_buf(SEC, 64, MIS, "ss2");
  ALLB(rnd, 2 * SEC + SEEDA, "rnd", 1); ALLB(pk, PKB, "pk0", 0); ALLB(sk, SKB, "sk0", 0); ALLB(mu, MUB, "mu", 1); ALLB(ct, CTB, "ct0", 0); ALLB(ss, SEC, "ss0", 0); ALLB(s2, SEC, "ss20", 0);
  rt_as = rt_sa = rt_sb = rt_enc = 0;
  rt_phase = 0; rnd_stream = rnd; rnd_pos = 0; rnd_len = 2 * SEC + SEEDA; fv_check(KEYPAIR(pk, sk) == 0, "key generation returns 0");
  rt_phase = 1; rnd_stream = mu; rnd_pos = 0; rnd_len = MUB; fv_check(ENC(ct, ss, pk) == 0, "encapsulation returns 0");
  rt_phase = 2; rnd_len = rnd_pos = 0; fv_check(DEC(s2, ct, sk) == 0, "decapsulation returns 0"); rt_phase = -1;
  fv_check_eq(s2, ss, SEC, "decapsulation returns the encapsulated secret"); }
/* ---- concrete end-to-end runs, used only for native replay: honest keys and ciphertexts, then every kind of tampering */
#ifdef NATIVE_ENTRIES
int n_stage = 7;
void n_kem(void)
{ u8 *rnd = fv_buf(2 * SEC + SEEDA, 64, 0, "rnd"), *pk = fv_buf(PKB, 64, MIS, "pk"), *sk = fv_buf(SKB, 64, MIS, "sk"), *mu = fv_buf(MUB, 64, 0, "mu"), *ct = fv_buf(CTB, 64, MIS, "ct"), *ss = fv_buf(SEC, 64, MIS, "ss"), *pos = fv_buf(64, 64, 0, "pos");
  ALLB(rnd, 2 * SEC + SEEDA, "rnd", 1); ALLB(mu, MUB, "mu", 1); ALLB(ct, CTB, "ct0", 0); ALLB(ss, SEC, "ss0", 0); ALLB(pk, PKB, "pk0", 0); ALLB(sk, SKB, "sk0", 0); ALLB(pos, 64, "pos", 0);
  if (n_stage & 1) { rnd_stream = rnd; rnd_pos = 0; rnd_len = 2 * SEC + SEEDA; fv_begin(); int r = KEYPAIR(pk, sk); fv_check(rnd_pos == rnd_len && r == 0, "keypair draws the specified bytes and returns 0"); fv_mid(); sp_keypair(pk, sk, rnd); fv_endk(); } else sp_keypair(pk, sk, rnd);
  if (n_stage & 2) { rnd_stream = mu; rnd_pos = 0; rnd_len = MUB; fv_begin(); int r = ENC(ct, ss, pk); fv_check(rnd_pos == rnd_len && r == 0, "encaps draws the specified bytes and returns 0"); fv_mid(); sp_encaps(ct, ss, pk, mu); fv_endk(); } else sp_encaps(ct, ss, pk, mu);
  if (n_stage & 4) { u8 ss0[SEC]; memcpy(ss0, ss, SEC);
    for (int t = 0; t < 12; t++) {
      size_t at = 0; u8 x = 0, old = 0;
      switch (t) { case 0: break; case 1: at = 0; x = 0x80; break; case 2: at = CTB - 1; x = 1; break; case 3: at = BPK - 1; x = 1; break; case 4: at = BPK; x = 0x80; break; case 5: at = BPK - 2; x = 1; break; default: at = (pos[t] | pos[t + 12] << 8 | pos[t + 24] << 16) % CTB; x = (u8)(1 << (pos[t + 36] & 7)); if (t > 8) at = BPK + at % BC2; }
      old = ct[at]; ct[at] ^= x; memset(ss, 0x5A, SEC);
      fv_begin(); int r = DEC(ss, ct, sk); fv_mid(); sp_decaps(ss, ct, sk); fv_endk(); fv_check(r == 0, "decaps returns 0");
      if (t == 0) fv_check_eq(ss, ss0, SEC, "honest round trip"); ct[at] = old; } }
}
#endif
