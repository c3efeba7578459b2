/* Independent functional specification: FIPS 202, FIPS 197, FrodoKEM specification (Algorithms 1-14).
   Written from the standards, not from the repository.  Each sp_X may be left uninterpreted (fv_opaque) in jobs that
   only need the callers' obligations. */
#include <string.h>
#include "params.h"

/* ------------------------------------------------------------------ FIPS 202 */
static u64 rotl(u64 x, unsigned n) { n &= 63; return n ? x << n | x >> (64 - n) : x; }
void sp_keccakf(u64 *s)
{
  u8 lfsr = 1;
  for (int rnd = 0; rnd < 24; rnd++) {
    u64 c[5], b[25];
    for (int x = 0; x < 5; x++) c[x] = s[x] ^ s[x + 5] ^ s[x + 10] ^ s[x + 15] ^ s[x + 20];          /* theta */
    for (int x = 0; x < 5; x++) for (int y = 0; y < 5; y++) s[x + 5 * y] ^= c[(x + 4) % 5] ^ rotl(c[(x + 1) % 5], 1);
    { int x = 1, y = 0; b[0] = s[0];                                                                 /* rho, pi: B[y][2x+3y] = rot(A[x][y]) */
      for (int t = 0; t < 24; t++) { int nx = y, ny = (2 * x + 3 * y) % 5; b[nx + 5 * ny] = rotl(s[x + 5 * y], (unsigned)((t + 1) * (t + 2) / 2)); x = nx; y = ny; } }
    for (int y = 0; y < 5; y++) for (int x = 0; x < 5; x++) s[x + 5 * y] = b[x + 5 * y] ^ (~b[(x + 1) % 5 + 5 * y] & b[(x + 2) % 5 + 5 * y]);  /* chi */
    u64 rc = 0;
    for (int j = 0; j < 7; j++) { if (lfsr & 1) rc ^= (u64)1 << ((1u << j) - 1); lfsr = (u8)(lfsr << 1 ^ ((lfsr >> 7) * 0x71)); }
    s[0] ^= rc;                                                                                        /* iota */
  }
}
void sp_kf(u8 st[200])
{
  if (fv_opaque("keccakf")) { fv_uf("keccakf", st, 200, FV_JOIN, 1, st, (u64)200); return; }
  u64 s[25];
  for (int i = 0; i < 25; i++) { s[i] = 0; for (int j = 7; j >= 0; j--) s[i] = s[i] << 8 | st[8 * i + j]; }
  sp_keccakf(s);
  for (int i = 0; i < 25; i++) for (int j = 0; j < 8; j++) st[8 * i + j] = (u8)(s[i] >> 8 * j);
}
void sp_shake(unsigned rate, u8 *out, size_t outlen, const u8 *in, size_t inlen)
{
  if (fv_opaque("shake")) { fv_uf(rate == 168 ? "shake128" : "shake256", out, (u64)outlen, FV_JOIN, 1, in, (u64)inlen); return; }
  u8 st[200]; size_t pos = 0;
  for (int i = 0; i < 200; i++) st[i] = 0;
  for (size_t i = 0; i < inlen; i++) { st[pos++] ^= in[i]; if (pos == rate) { sp_kf(st); pos = 0; } }
  st[pos] ^= 0x1F; st[rate - 1] ^= 0x80;
  pos = rate;
  for (size_t i = 0; i < outlen; i++) { if (pos == rate) { sp_kf(st); pos = 0; } out[i] = st[pos++]; }
}

/* ------------------------------------------------------------------ FIPS 197 */
#include "sbox.h"   /* sp_sbox_tab, checked against its algebraic definition by h_sbox */
static u8 sb(u8 x) { return sp_sbox_tab[x]; }
u8 sp_gmul(u8 a, u8 b) { u8 r = 0; for (int i = 0; i < 8; i++) { if (b >> i & 1) r ^= a; a = (u8)(a << 1 ^ ((a >> 7) * 0x1b)); } return r; }
static u8 x2(u8 a) { return (u8)(a << 1 ^ ((a >> 7) * 0x1b)); }
void sp_aes_sched(int nk, const u8 *key, u8 *w)
{
  int nr = nk + 6;
  if (fv_opaque("aes_sched")) { memcpy(w, key, 4 * nk); fv_uf(nk == 4 ? "aes128_sched" : "aes256_sched", w + 4 * nk, 16 * (nr + 1) - 4 * nk, FV_JOIN, 1, w, (u64)(4 * nk)); return; }
  for (int i = 0; i < 4 * nk; i++) w[i] = key[i];
  u8 rc = 1;
  for (int i = nk; i < 4 * (nr + 1); i++) {
    u8 t[4]; for (int j = 0; j < 4; j++) t[j] = w[4 * (i - 1) + j];
    if (i % nk == 0) { u8 a = t[0]; t[0] = sb(t[1]) ^ rc; t[1] = sb(t[2]); t[2] = sb(t[3]); t[3] = sb(a); rc = x2(rc); }
    else if (nk > 6 && i % nk == 4) for (int j = 0; j < 4; j++) t[j] = sb(t[j]);
    for (int j = 0; j < 4; j++) w[4 * i + j] = w[4 * (i - nk) + j] ^ t[j];
  }
}
void sp_aes_enc(int nr, const u8 *w, const u8 *in, u8 *out)
{
  u8 s[16], t[16];
  for (int i = 0; i < 16; i++) s[i] = in[i] ^ w[i];
  for (int r = 1; r <= nr; r++) {
    for (int c = 0; c < 4; c++) for (int i = 0; i < 4; i++) t[4 * c + i] = sb(s[4 * ((c + i) % 4) + i]);
    if (r < nr) for (int c = 0; c < 4; c++) { u8 *a = t + 4 * c; for (int i = 0; i < 4; i++) s[4 * c + i] = x2(a[i]) ^ x2(a[(i + 1) % 4]) ^ a[(i + 1) % 4] ^ a[(i + 2) % 4] ^ a[(i + 3) % 4]; }
    else for (int i = 0; i < 16; i++) s[i] = t[i];
    for (int i = 0; i < 16; i++) s[i] ^= w[16 * r + i];
  }
  for (int i = 0; i < 16; i++) out[i] = s[i];
}
void sp_aes128(const u8 *key, const u8 *in, u8 *out)
{
  if (fv_opaque("aes128")) { fv_uf("aes128", out, 16, FV_JOIN, 2, key, (u64)16, in, (u64)16); return; }
  u8 w[176]; sp_aes_sched(4, key, w); sp_aes_enc(10, w, in, out);
}

/* ------------------------------------------------------------------ FrodoKEM */
#ifdef P
void sp_genrow(const u8 *seed, unsigned i, u16 *row)
{
#ifdef GEN_AES
  for (unsigned j = 0; j < N; j += 8) {
    u8 b[16] = {0}, c[16]; b[0] = (u8)i; b[1] = (u8)(i >> 8); b[2] = (u8)j; b[3] = (u8)(j >> 8);
    sp_aes128(seed, b, c);
    for (int k = 0; k < 8; k++) row[j + k] = (u16)(c[2 * k] | c[2 * k + 1] << 8);
  }
#else
  u8 b[2 + SEEDA], c[2 * N]; b[0] = (u8)i; b[1] = (u8)(i >> 8); memcpy(b + 2, seed, SEEDA);
  sp_shake(168, c, 2 * N, b, 2 + SEEDA);
  for (int k = 0; k < N; k++) row[k] = (u16)(c[2 * k] | c[2 * k + 1] << 8);
#endif
}
static const u16 sp_cdf[CDFLEN] = SP_CDF;
u16 sp_sample1(u16 r)
{
  u16 o;
  if (fv_opaque("sample")) { fv_uf("sample", &o, 2, FV_JOIN, 1, &r, (u64)2); return o; }
  u16 t = r >> 1, e = 0;
  for (int j = 0; j + 1 < CDFLEN; j++) e += sp_cdf[j] < t ? 1 : 0;
  return (u16)(r & 1 ? 0 - e : e);
}
static void maskv(u16 *d, const u16 *s, size_t n) { for (size_t i = 0; i < n; i++) d[i] = s[i] & QM; }
/* s is S^T (NB x N), out and e are N x NB:  out = A S + E mod q */
void sp_as(u16 *out, const u16 *s, const u16 *e, const u8 *seed)
{
  if (fv_opaque("mul")) { u16 sm[NN], em[NN]; maskv(sm, s, NN); maskv(em, e, NN); fv_uf("as", out, 2 * NN, FV_JOIN, 3, sm, (u64)(2 * NN), em, (u64)(2 * NN), seed, (u64)SEEDA); for (int i = 0; i < NN; i++) out[i] &= QM; return; }
  u16 row[N];
  for (int i = 0; i < N; i++) { sp_genrow(seed, i, row); for (int k = 0; k < NB; k++) { u16 a = 0; for (int j = 0; j < N; j++) a = (u16)(a + (u32)row[j] * s[k * N + j]); out[i * NB + k] = (u16)(e[i * NB + k] + a) & QM; } }
}
/* s, e, out are NB x N:  out = S A + E mod q */
void sp_sa(u16 *out, const u16 *s, const u16 *e, const u8 *seed)
{
  if (fv_opaque("mul")) { u16 sm[NN], em[NN]; maskv(sm, s, NN); maskv(em, e, NN); fv_uf("sa", out, 2 * NN, FV_JOIN, 3, sm, (u64)(2 * NN), em, (u64)(2 * NN), seed, (u64)SEEDA); for (int i = 0; i < NN; i++) out[i] &= QM; return; }
  u16 row[N], acc[NN];
  for (int i = 0; i < NN; i++) acc[i] = e[i];
  for (int j = 0; j < N; j++) { sp_genrow(seed, j, row); for (int k = 0; k < NB; k++) for (int i = 0; i < N; i++) acc[k * N + i] = (u16)(acc[k * N + i] + (u32)s[k * N + j] * row[i]); }
  for (int i = 0; i < NN; i++) out[i] = acc[i] & QM;
}
/* b is NB x N, s is S^T (NB x N): out = B S mod q */
void sp_bs(u16 *out, const u16 *b, const u16 *s)
{
  if (fv_opaque("mul")) { u16 sm[NN], bm[NN]; maskv(sm, s, NN); maskv(bm, b, NN); fv_uf("bs", out, 128, FV_JOIN, 2, bm, (u64)(2 * NN), sm, (u64)(2 * NN)); for (int i = 0; i < 64; i++) out[i] &= QM; return; }
  u16 r[64];
  for (int i = 0; i < NB; i++) for (int j = 0; j < NB; j++) { u16 a = 0; for (int k = 0; k < N; k++) a = (u16)(a + (u32)b[i * N + k] * s[j * N + k]); r[i * NB + j] = a & QM; }
  memcpy(out, r, 128);
}
/* b is N x NB, s is NB x N, e is NB x NB: out = S B + E mod q */
void sp_sb(u16 *out, const u16 *b, const u16 *s, const u16 *e)
{
  if (fv_opaque("mul")) { u16 sm[NN], bm[NN], em[64]; maskv(sm, s, NN); maskv(bm, b, NN); maskv(em, e, 64); fv_uf("sb", out, 128, FV_JOIN, 3, bm, (u64)(2 * NN), sm, (u64)(2 * NN), em, (u64)128); for (int i = 0; i < 64; i++) out[i] &= QM; return; }
  u16 r[64];
  for (int k = 0; k < NB; k++) for (int i = 0; i < NB; i++) { u16 a = e[k * NB + i]; for (int j = 0; j < N; j++) a = (u16)(a + (u32)s[k * N + j] * b[j * NB + i]); r[k * NB + i] = a & QM; }
  memcpy(out, r, 128);
}
/* bit t of the stream is bit d-1-(t mod d) of entry t/d; stream bit t is bit 7-(t mod 8) of byte t/8 */
void sp_pack(u8 *out, size_t outlen, const u16 *in, size_t inlen, unsigned d)
{
  for (size_t i = 0; i < outlen; i++) {
    u8 o = 0;
    for (unsigned b = 0; b < 8; b++) { size_t t = 8 * i + b; if (t / d < inlen) o |= (u8)((in[t / d] >> (d - 1 - t % d) & 1) << (7 - b)); }
    out[i] = o;
  }
}
void sp_unpack(u16 *out, size_t outlen, const u8 *in, size_t inlen, unsigned d)
{
  for (size_t i = 0; i < outlen; i++) {
    u16 o = 0;
    for (unsigned b = 0; b < d; b++) { size_t t = d * i + b; if (t / 8 < inlen) o |= (u16)((in[t / 8] >> (7 - t % 8) & 1) << (d - 1 - b)); }
    out[i] = o;
  }
}
void sp_encode(u16 *out, const u8 *mu)
{
  for (unsigned i = 0; i < 64; i++) { u16 k = 0; for (unsigned l = 0; l < BB; l++) { unsigned t = i * BB + l; k |= (u16)((mu[t / 8] >> (t % 8) & 1) << l); } out[i] = (u16)(k << (LOGQ - BB)); }
}
void sp_decode(u8 *mu, const u16 *in)
{
  for (unsigned i = 0; i < MUB; i++) mu[i] = 0;
  for (unsigned i = 0; i < 64; i++) { u32 c = in[i] & QM, k = (c + (1u << (LOGQ - BB - 1))) >> (LOGQ - BB); k &= (1u << BB) - 1; for (unsigned l = 0; l < BB; l++) { unsigned t = i * BB + l; mu[t / 8] |= (u8)((k >> l & 1) << (t % 8)); } }
}
int sp_equal(const u16 *a, const u16 *b, size_t n) { u16 d = 0; for (size_t i = 0; i < n; i++) d |= a[i] ^ b[i]; return d == 0; }

static void sp_noise(u16 *o, const u8 *r, size_t n) { for (size_t i = 0; i < n; i++) o[i] = sp_sample1((u16)(r[2 * i] | r[2 * i + 1] << 8)); }
/* Algorithm 12; rnd = s || seedSE || z */
void sp_keypair(u8 *pk, u8 *sk, const u8 *rnd)
{
  u8 in[1 + SEC], r[4 * NN]; u16 S[NN], E[NN], B[NN];
  sp_shake(RATE, pk, SEEDA, rnd + 2 * SEC, SEEDA);
  in[0] = 0x5F; memcpy(in + 1, rnd + SEC, SEC);
  sp_shake(RATE, r, 4 * NN, in, 1 + SEC);
  sp_noise(S, r, NN); sp_noise(E, r + 2 * NN, NN);        /* S is S^T, row major */
  sp_as(B, S, E, pk);
  sp_pack(pk + SEEDA, BPK, B, NN, LOGQ);
  memcpy(sk, rnd, SEC); memcpy(sk + SEC, pk, PKB);
  for (int i = 0; i < NN; i++) { sk[SEC + PKB + 2 * i] = (u8)S[i]; sk[SEC + PKB + 2 * i + 1] = (u8)(S[i] >> 8); }
  sp_shake(RATE, sk + SEC + PKB + 2 * NN, PKH, pk, PKB);
}
/* FrodoPKE.Enc inside Encaps/Decaps: B' and C for (mu, seedSE) */
static void sp_pke(u16 *Bp, u16 *C, const u8 *seedA, const u8 *b, const u8 *mu, const u8 *seedSE)
{
  u8 in[1 + SEC], r[2 * (2 * N + NB) * NB]; u16 Sp[NN], Ep[NN], Epp[64], B[NN], V[64], M[64];
  in[0] = 0x96; memcpy(in + 1, seedSE, SEC);
  sp_shake(RATE, r, 2 * (2 * N + NB) * NB, in, 1 + SEC);
  sp_noise(Sp, r, NN); sp_noise(Ep, r + 2 * NN, NN); sp_noise(Epp, r + 4 * NN, 64);
  sp_sa(Bp, Sp, Ep, seedA);
  sp_unpack(B, NN, b, BPK, LOGQ);
  sp_sb(V, B, Sp, Epp);
  sp_encode(M, mu);
  for (int i = 0; i < 64; i++) C[i] = (u16)(V[i] + M[i]) & QM;
}
/* Algorithm 13 */
void sp_encaps(u8 *ct, u8 *ss, const u8 *pk, const u8 *mu)
{
  u8 g[PKH + MUB], sk[2 * SEC], f[CTB + SEC]; u16 Bp[NN], C[64];
  sp_shake(RATE, g, PKH, pk, PKB); memcpy(g + PKH, mu, MUB);
  sp_shake(RATE, sk, 2 * SEC, g, PKH + MUB);
  sp_pke(Bp, C, pk, pk + SEEDA, mu, sk);
  sp_pack(ct, BPK, Bp, NN, LOGQ); sp_pack(ct + BPK, BC2, C, 64, LOGQ);
  memcpy(f, ct, CTB); memcpy(f + CTB, sk + SEC, SEC);
  sp_shake(RATE, ss, SEC, f, CTB + SEC);
}
/* Algorithm 14 */
void sp_decaps(u8 *ss, const u8 *ct, const u8 *sk)
{
  const u8 *s = sk, *pk = sk + SEC, *sS = sk + SEC + PKB, *pkh = sS + 2 * NN;
  u8 g[PKH + MUB], kk[2 * SEC], f[CTB + SEC]; u16 Bp[NN], C[64], S[NN], M[64], BBp[NN], CC[64];
  sp_unpack(Bp, NN, ct, BPK, LOGQ); sp_unpack(C, 64, ct + BPK, BC2, LOGQ);
  for (int i = 0; i < NN; i++) S[i] = (u16)(sS[2 * i] | sS[2 * i + 1] << 8);
  sp_bs(M, Bp, S);
  for (int i = 0; i < 64; i++) M[i] = (u16)(C[i] - M[i]) & QM;
  memcpy(g, pkh, PKH); sp_decode(g + PKH, M);
  sp_shake(RATE, kk, 2 * SEC, g, PKH + MUB);
  sp_pke(BBp, CC, pk, pk + SEEDA, g + PKH, kk);
  int eq = sp_equal(Bp, BBp, NN) & sp_equal(C, CC, 64);
  memcpy(f, ct, CTB);
  for (int i = 0; i < SEC; i++) { u8 x = kk[SEC + i], y = s[i]; f[CTB + i] = eq ? x : y; }
  sp_shake(RATE, ss, SEC, f, CTB + SEC);
}
#endif
