/* Proof harnesses for the primitives: Keccak, SHAKE, AES, the random source. Independent of the parameter set. */
#include <string.h>
#include "params.h"
#define ALLB(p, n, nm, lab) fv_fresh(p, n, 1, nm, lab)
#ifndef MIS
#define MIS 1
#endif
/* ---- FIPS 202 */
void h_keccakf(void) { u64 *s = fv_buf(200, 64, 8, "s"); fv_fresh(s, 25, 8, "s", 1); fv_begin(); KeccakF1600_StatePermute(s); fv_mid(); sp_keccakf(s); fv_end(); }
void h_keccak4x(void) { u64 *s = fv_buf(800, 64, 32, "s"); fv_fresh(s, 100, 8, "s", 1); fv_begin(); KeccakP1600times4_PermuteAll_24rounds(s); fv_mid();
  for (int l = 0; l < 4; l++) { u64 t[25]; for (int i = 0; i < 25; i++) t[i] = s[4 * i + l]; sp_keccakf(t); for (int i = 0; i < 25; i++) s[4 * i + l] = t[i]; } fv_end(); }
static void shake_one(int is256, size_t outlen, size_t inlen)
{
  u8 *in = fv_buf(inlen + 1, 64, MIS, "in"), *out = fv_buf(outlen + 1, 64, MIS, "out");
  ALLB(in, inlen + 1, "in", 1); ALLB(out, outlen + 1, "out0", 1);
  fv_begin(); if (is256) shake256(out, outlen, in, inlen); else shake128(out, outlen, in, inlen);
  fv_mid(); sp_shake(is256 ? 136 : 168, out, outlen, in, inlen); fv_end();
}
/* every (input, output) length pair used by the KEM and by the generation of A */
static const unsigned used128[][2] = {{16, 16}, {17, 20480}, {9616, 16}, {32, 32}, {17, 20608}, {9736, 16}, {18, 1280}, {18, 1952}, {18, 2688}};
static const unsigned used256[][2] = {{16, 16}, {25, 31232}, {15632, 24}, {48, 48}, {25, 31360}, {15768, 24}, {33, 43008}, {21520, 32}, {64, 64}, {33, 43136}, {21664, 32}};
void h_shake128_used(void) { for (unsigned i = 0; i < sizeof used128 / 8; i++) shake_one(0, used128[i][1], used128[i][0]); }
void h_shake256_used(void) { for (unsigned i = 0; i < sizeof used256 / 8; i++) shake_one(1, used256[i][1], used256[i][0]); }
#define SWEEP(nm, is256, R) \
void h_##nm##_in(void) { for (size_t n = 0; n <= 3 * R + 2; n++) shake_one(is256, 32, n); } \
void h_##nm##_out(void) { for (size_t n = 1; n <= 3 * R + 2; n++) shake_one(is256, n, 33); } \
void h_##nm##_bound(void) { for (size_t a = 1; a <= 4; a++) for (int x = -9; x <= 9; x++) for (size_t b = 1; b <= 3; b++) for (int y = -2; y <= 2; y++) shake_one(is256, b * R + y, a * R + x); }
SWEEP(shake128, 0, 168)
SWEEP(shake256, 1, 136)
static void sep_one(int is256, size_t nb, size_t inlen)
{
  unsigned R = is256 ? 136 : 168; u64 *s = fv_buf(200, 64, 8, "s"); u8 *in = fv_buf(inlen + 1, 64, MIS, "in"), *out = fv_buf(nb * R + 1, 64, MIS, "out");
  ALLB(in, inlen + 1, "in", 1); ALLB(out, nb * R + 1, "out0", 1); memset(s, 0, 200);
  fv_begin(); if (is256) { shake256_absorb(s, in, (unsigned)inlen); shake256_squeezeblocks(out, nb, s); } else { shake128_absorb(s, in, (unsigned)inlen); shake128_squeezeblocks(out, nb, s); }
  fv_ignore(s, 200); fv_mid(); sp_shake(R, out, nb * R, in, inlen); fv_end();
}
void h_shake_sep(void) { for (int k = 0; k < 2; k++) for (size_t nb = 0; nb <= 3; nb++) { size_t R = k ? 136 : 168; static const int d[] = {0, 1, 33}; for (int i = 0; i < 3; i++) sep_one(k, nb, d[i]); for (int x = -2; x <= 2; x++) sep_one(k, nb, R + x); } }
static void x4_one(size_t outlen, size_t inlen)
{
  u8 *in = fv_buf(4 * (inlen + 1), 64, MIS, "in"), *out = fv_buf(4 * (outlen + 1), 64, MIS, "out"); ALLB(in, 4 * (inlen + 1), "in", 1); ALLB(out, 4 * (outlen + 1), "out0", 1);
  u8 *o[4], *a[4]; for (int i = 0; i < 4; i++) { o[i] = out + i * (outlen + 1); a[i] = in + i * (inlen + 1); }
  fv_begin(); shake128_4x(o[0], o[1], o[2], o[3], outlen, a[0], a[1], a[2], a[3], inlen); fv_mid(); for (int i = 0; i < 4; i++) sp_shake(168, o[i], outlen, a[i], inlen); fv_end();
}
void h_shake4x_used(void) { x4_one(1280, 18); x4_one(1952, 18); x4_one(2688, 18); }
void h_shake4x_sweep(void) { for (size_t n = 0; n <= 345; n++) x4_one(16, n); for (size_t n = 1; n <= 345; n++) x4_one(n, 18); }
void hp_shake128(void) { shake_one(0, fv_param(0), fv_param(1)); }
void hp_shake256(void) { shake_one(1, fv_param(0), fv_param(1)); }
void hp_shake128_4x(void) { x4_one(fv_param(0), fv_param(1)); }
/* ---- FIPS 197 */
void h_sbox(void)
{ /* the S-box table used by the specification is the one FIPS 197 defines: affine map of the inverse in GF(2^8) */
  for (unsigned x = 0; x < 256; x++) {
    u8 inv = 0; for (unsigned y = 1; y < 256; y++) if (sp_gmul((u8)x, (u8)y) == 1) inv = (u8)y;
    u8 r = 0; for (int i = 0; i < 8; i++) r |= (u8)(((inv >> i ^ inv >> (i + 4) % 8 ^ inv >> (i + 5) % 8 ^ inv >> (i + 6) % 8 ^ inv >> (i + 7) % 8 ^ 0x63 >> i) & 1) << i);
    fv_check(r == sp_sbox_tab[x], "S-box table is the FIPS 197 S-box"); }
}
#define HSCHED(fn, nk, KB, WB, AL) void h_##fn(void) { u8 *k = fv_buf(KB, 64, MIS, "key"), *w = fv_buf(WB, 64, AL, "w"); ALLB(k, KB, "key", 0); ALLB(w, WB, "w0", 0); fv_begin(); fn(k, w); fv_mid(); sp_aes_sched(nk, k, w); fv_end(); }
#define HENC(fn, nr, WB, AL) \
 void h_##fn(void) { u8 *w = fv_buf(WB, 64, AL, "w"), *in = fv_buf(16, 64, MIS, "in"), *out = fv_buf(16, 64, MIS, "out"); ALLB(w, WB, "w", 0); ALLB(in, 16, "in", 0); ALLB(out, 16, "out0", 0); fv_begin(); fn(in, w, out); fv_mid(); sp_aes_enc(nr, w, in, out); fv_end(); } \
 void h_##fn##_ip(void) { u8 *w = fv_buf(WB, 64, AL, "w"), *in = fv_buf(16, 64, MIS, "in"); ALLB(w, WB, "w", 0); ALLB(in, 16, "in", 0); fv_begin(); fn(in, w, in); fv_mid(); sp_aes_enc(nr, w, in, in); fv_end(); }
HSCHED(aes128_load_schedule_c, 4, 16, 176, MIS) HSCHED(aes256_load_schedule_c, 8, 32, 240, MIS)
HENC(aes128_enc_c, 10, 176, MIS) HENC(aes256_enc_c, 14, 240, MIS)
#ifdef FAST
HSCHED(aes128_load_schedule_ni, 4, 16, 176, 16) HSCHED(aes256_load_schedule_ni, 8, 32, 240, 16)
HENC(aes128_enc_ni, 10, 176, 16) HENC(aes256_enc_ni, 14, 240, 16)
#endif
HSCHED(AES128_load_schedule, 4, 16, 176, AES_ALIGN) HSCHED(AES256_load_schedule, 8, 32, 240, AES_ALIGN)
#define HECB(fn, nr, WB) \
 static void fn##_one(size_t nb, int ip) { u8 *w = fv_buf(WB, 64, AES_ALIGN, "w"), *in = fv_buf(16 * nb + 16, 64, MIS, "in"), *out = ip ? in : fv_buf(16 * nb + 16, 64, MIS, "out"); ALLB(w, WB, "w", 0); ALLB(in, 16 * nb + 16, "in", 0); if (!ip) ALLB(out, 16 * nb + 16, "out0", 0); \
   fv_begin(); fn(in, 16 * nb, w, out); fv_mid(); for (size_t i = 0; i < nb; i++) sp_aes_blk(nr, w, in + 16 * i, out + 16 * i); fv_end(); } \
 void h_##fn(void) { for (size_t nb = 0; nb <= 9; nb++) for (int ip = 0; ip < 2; ip++) fn##_one(nb, ip); } \
 void h_##fn##_used(void) { static const unsigned u[] = {16, 17, 31, 32, 33, 64, 80, 81, 122, 168, 255, 256, 257, 320, 488, 672, 51200, 119072, 225792}; for (unsigned i = 0; i < sizeof u / 4; i++) for (int ip = 0; ip < (u[i] > 700 ? 1 : 2); ip++) fn##_one(u[i], ip || u[i] > 700); }
HECB(AES128_ECB_enc_sch, 10, 176) void hp_ecb128(void) { AES128_ECB_enc_sch_one(fv_param(0), (int)fv_param(1)); }
 HECB(AES256_ECB_enc_sch, 14, 240)
#define HFREE(fn, WB) void h_##fn(void) { u8 *w = fv_buf(WB, 64, AES_ALIGN, "w"); ALLB(w, WB, "w", 1); fv_begin(); fn(w); fv_mid(); memset(w, 0, WB); fv_end(); }
HFREE(AES128_free_schedule, 176) HFREE(AES256_free_schedule, 240)
#define HE2E(n, KB, WB, nk, nr) void h_aes##n##_e2e(void) { u8 *k = fv_buf(KB, 64, MIS, "key"), *in = fv_buf(32, 64, MIS, "in"), *out = fv_buf(32, 64, MIS, "out"); u8 w[WB] __attribute__((aligned(16))); ALLB(k, KB, "key", 0); ALLB(in, 32, "in", 0); ALLB(out, 32, "out0", 0); \
  fv_begin(); AES##n##_load_schedule(k, w); AES##n##_ECB_enc_sch(in, 32, w, out); fv_mid(); u8 v[WB]; sp_aes_sched(nk, k, v); sp_aes_enc(nr, v, in, out); sp_aes_enc(nr, v, in + 16, out + 16); fv_end(); }
HE2E(128, 16, 176, 4, 10) HE2E(256, 32, 240, 8, 14)
/* ---- random source: ct_open / ct_read are in contracts.c (assumed, adversarial) */
extern u8 *src_stream; extern u64 src_pos, src_len; extern int src_mode;
static void rnd_one(u64 n, int mode)
{
  u8 *st = fv_buf(2 * n + 8, 64, 0, "source"), *out = fv_buf(2 * n + 8, 64, MIS, "out"); ALLB(st, 2 * n + 8, "source", 1); ALLB(out, 2 * n + 8, "out0", 1);
  src_stream = st; src_pos = 0; src_len = 2 * n + 8; src_mode = mode;
  fv_begin(); int r = randombytes(out + 1, n); u64 p1 = src_pos; int r2 = randombytes(out + 1 + n, n); u64 p2 = src_pos; fv_mid();
  memcpy(out + 1, st, 2 * n); fv_end();
  fv_check(p1 == n && p2 == 2 * n, "consumes exactly the requested number of source bytes, in order"); fv_check(r == 0 && r2 == 0, "reports success");
}
void h_random_all(void) { rnd_one((u64)fv_choose(6), 0); }      /* every outcome sequence, 0..5 bytes, two consecutive calls */
void h_random_used(void) { static const u8 L[] = {16, 24, 32, 48, 64, 80}; rnd_one(L[fv_choose(6)], 0); }   /* every outcome sequence, every length used by the library */
