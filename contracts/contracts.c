/* Contracts of the functions under verification.  ct_f is what a caller of f is checked against: the requires clauses
   (fv_req_*), then the postcondition expressed by the specification functions.  The same specification functions are
   what the body of f is checked against by h_f in harness.c. */
#include <string.h>
#include "params.h"
typedef long ssize_t_; typedef long i64_;
#ifdef FAST
#define SA_ALIGN 32
#else
#define SA_ALIGN 2
#endif
#define U(x) ((u64)(x))
#define DISJ(p, n, q, m) fv_check(fv_overlap(p, n, q, m) == 0, "arguments do not overlap")
u8 *rnd_stream; u64 rnd_pos, rnd_len;           /* ghost: the bytes the random source delivers */

int ct_randombytes(unsigned char *p, unsigned long long n)
{
  fv_req_w(p, n, 1);
  fv_check(rnd_pos + n <= rnd_len, "draws no more random bytes than the specification provides");
  if (rnd_pos + n > rnd_len) return 0;
  memcpy(p, rnd_stream + rnd_pos, n); rnd_pos += n; return 0;
}
void ct_shake128(unsigned char *out, unsigned long long outlen, const unsigned char *in, unsigned long long inlen)
{ fv_req_r(in, inlen, 1); fv_req_w(out, outlen, 1); DISJ(out, outlen, in, inlen); fv_used("shake128", U(outlen), U(inlen)); sp_shake(168, out, outlen, in, inlen); }
void ct_shake256(unsigned char *out, unsigned long long outlen, const unsigned char *in, unsigned long long inlen)
{ fv_req_r(in, inlen, 1); fv_req_w(out, outlen, 1); DISJ(out, outlen, in, inlen); fv_used("shake256", U(outlen), U(inlen)); sp_shake(136, out, outlen, in, inlen); }
void ct_shake128_4x(unsigned char *o0, unsigned char *o1, unsigned char *o2, unsigned char *o3, unsigned long long outlen, const unsigned char *i0, const unsigned char *i1, const unsigned char *i2, const unsigned char *i3, unsigned long long inlen)
{
  u8 *o[4] = {o0, o1, o2, o3}; const u8 *in[4] = {i0, i1, i2, i3}; fv_used("shake128_4x", U(outlen), U(inlen));
  for (int k = 0; k < 4; k++) { fv_req_r(in[k], inlen, 1); fv_req_w(o[k], outlen, 1); for (int m = 0; m < 4; m++) { DISJ(o[k], outlen, in[m], inlen); if (m != k) DISJ(o[k], outlen, o[m], outlen); } }
  for (int k = 0; k < 4; k++) sp_shake(168, o[k], outlen, in[k], inlen);
}

static void kf_lanes(u64 *s, int stride)
{
  u8 st[200];
  for (int i = 0; i < 25; i++) for (int j = 0; j < 8; j++) st[8 * i + j] = (u8)(s[stride * i] >> 8 * j);
  sp_kf(st);
  for (int i = 0; i < 25; i++) { u64 v = 0; for (int j = 7; j >= 0; j--) v = v << 8 | st[8 * i + j]; s[stride * i] = v; }
}
void ct_KeccakF1600_StatePermute(u64 *s) { fv_req_r(s, 200, 8); fv_req_w(s, 200, 8); kf_lanes(s, 1); }
void ct_KeccakP1600times4_PermuteAll_24rounds(void *p)
{ u64 *s = p; fv_req_r(s, 800, 32); fv_req_w(s, 800, 32); for (int i = 0; i < 4; i++) kf_lanes(s + i, 4); }

void sp_aes_blk(int nr, const u8 *w, const u8 *in, u8 *out)
{ if (fv_opaque("aes_blk")) { fv_uf(nr == 10 ? "aes128_blk" : "aes256_blk", out, 16, FV_JOIN, 2, w, (u64)(16 * nr + 16), in, (u64)16); return; } sp_aes_enc(nr, w, in, out); }
#define CTENC(fn, nr, AL) void ct_##fn(const u8 *in, const u8 *w, u8 *out) { fv_req_r(in, 16, 1); fv_req_r(w, 16 * nr + 16, AL); fv_req_w(out, 16, 1); sp_aes_blk(nr, w, in, out); }
CTENC(aes128_enc_c, 10, 1) CTENC(aes256_enc_c, 14, 1) CTENC(aes128_enc_ni, 10, 16) CTENC(aes256_enc_ni, 14, 16)
void ct_AES128_load_schedule(const u8 *key, u8 *sch) { fv_req_r(key, 16, 1); fv_req_public(key, 16); fv_req_w(sch, 176, AES_ALIGN); sp_aes_sched(4, key, sch); }
void ct_AES128_ECB_enc_sch(const u8 *pt, const size_t len, const u8 *sch, u8 *ct)
{
  fv_req_r(pt, len, 1); fv_req_public(pt, len); fv_req_r(sch, 176, AES_ALIGN); fv_req_public(sch, 176); fv_req_w(ct, len, 1);
  u8 w[176]; sp_aes_sched(4, sch, w); fv_check_eq(sch, w, 176, "schedule argument is the FIPS 197 expansion of a key");
  fv_check(len % 16 == 0, "whole number of blocks"); int al = fv_overlap(ct, len, pt, len); fv_check(al < 2, "in place or disjoint"); DISJ(ct, len, sch, 176); fv_used("ecb128", U(len / 16), U(al));
  for (size_t i = 0; i + 16 <= len; i += 16) sp_aes128(sch, pt + i, ct + i);
}
void ct_AES128_free_schedule(u8 *sch) { fv_req_w(sch, 176, 1); memset(sch, 0, 176); }

/* -------- the operating system's random source: assumed contracts, adversarial outcomes */
u8 *src_stream; u64 src_pos, src_len; int src_mode, src_fd = -2;
static int streq(const char *a, const char *b) { while (*a && *a == *b) a++, b++; return *a == *b; }
int ct_open(const char *path, int flags, ...)
{
  fv_check(streq(path, "/dev/urandom") || streq(path, "/dev/random"), "the opened file is the system random source"); fv_check((flags & 3) == 0, "opened for reading");
  int c = fv_choose(3); if (c == 0) return -1; src_fd = c == 1 ? 0 : 7; return src_fd;
}
ssize_t_ ct_read(int fd, void *buf, size_t n)
{
  fv_check(fd == src_fd && fd >= 0, "reads from the opened random source"); fv_req_w(buf, n, 1);
  i64_ r; if (src_mode == 0) r = (i64_)fv_choose((int)n + 2) - 1;
  else switch (fv_choose(6)) { case 0: r = -1; break; case 1: r = (i64_)n; break; case 2: r = 1; break; case 3: r = 2; break; case 4: r = (i64_)n - 1; break; default: r = 0; }
  if (r > (i64_)n) r = (i64_)n; if (r < -1) r = -1;
  if (r > 0) { fv_check(src_pos + (u64)r <= src_len, "draws no more source bytes than requested"); if (src_pos + (u64)r > src_len) return -1; memcpy(buf, src_stream + src_pos, (u64)r); src_pos += (u64)r; }
  return r;
}
void ct_delay(unsigned c) { (void)c; }
/* -------- OpenSSL EVP: assumed contracts on the external dependency.  A context is a heap record with ghost state. */
struct evp { u8 key[16]; u32 keyed, live; };
u32 evp_failed, evp_created, evp_freed;          /* ghost */
void *malloc(size_t); void free(void *);
static int evp_may_fail(void) { if (!fv_opaque("evp_fail")) return 0; if (evp_failed) return 0; return fv_choose(2); }
#define EVP_USE() do { if (evp_failed) { fv_check(0, "no back-end call after a failed back-end call"); fv_assume(0); } } while (0)
void *ct_EVP_CIPHER_CTX_new(void)
{
  EVP_USE(); if (evp_may_fail()) { evp_failed = 1; return 0; }
  struct evp *c = malloc(sizeof *c); c->keyed = 0; c->live = 1; evp_created++; memset(c->key, 0, 16); return c;
}
static const u8 evp_ecb_tag;
const void *ct_EVP_aes_128_ecb(void) { return &evp_ecb_tag; }
int ct_EVP_EncryptInit_ex(void *ctx, const void *cipher, void *impl, const u8 *key, const u8 *iv)
{
  struct evp *c = ctx; (void)impl; (void)iv; EVP_USE();
  fv_check(c->live == 1, "live context"); fv_check(cipher == &evp_ecb_tag, "AES-128-ECB is the requested cipher"); fv_req_r(key, 16, 1);
  if (evp_may_fail()) { evp_failed = 1; return 0; }
  memcpy(c->key, key, 16); c->keyed = 1; return 1;
}
int ct_EVP_EncryptUpdate(void *ctx, u8 *out, int *outl, const u8 *in, int inl)
{
  struct evp *c = ctx; EVP_USE();
  fv_check(c->live == 1 && c->keyed == 1, "live keyed context"); fv_check(inl >= 0 && inl % 16 == 0, "whole number of blocks");
  fv_req_r(in, (u64)inl, 1); fv_req_w(out, (u64)inl, 1); fv_req_w(outl, 4, 4);
  if (evp_may_fail()) { evp_failed = 1; return 0; }
  if (fv_opaque("evp_frame")) fv_havoc(out, (u64)inl, FV_PUBLIC, "evp_out");
  else for (int i = 0; i < inl; i += 16) sp_aes128(c->key, in + i, out + i);
  *outl = inl; return 1;
}
void ct_EVP_CIPHER_CTX_free(void *ctx)
{ struct evp *c = ctx; if (!c) return; fv_check(c->live == 1, "context released once"); c->live = 0; evp_freed++; free(c); }

#ifdef P
void ct_frodo_pack(unsigned char *out, const size_t outlen, const u16 *in, const size_t inlen, const unsigned char lsb)
{ fv_req_r(in, 2 * inlen, 2); fv_req_w(out, outlen, 1); fv_check(lsb >= 1 && lsb <= 16 && inlen * lsb == 8 * outlen, "pack lengths agree"); DISJ(out, outlen, in, 2 * inlen); fv_used("pack", U(inlen), U(lsb)); sp_pack(out, outlen, in, inlen, lsb); }
void ct_frodo_unpack(u16 *out, const size_t outlen, const unsigned char *in, const size_t inlen, const unsigned char lsb)
{ fv_req_r(in, inlen, 1); fv_req_w(out, 2 * outlen, 2); fv_check(lsb >= 1 && lsb <= 16 && outlen * lsb == 8 * inlen, "unpack lengths agree"); DISJ(out, 2 * outlen, in, inlen); fv_used("unpack", U(outlen), U(lsb)); sp_unpack(out, outlen, in, inlen, lsb); }
void ct_frodo_sample_n(u16 *s, const size_t n)
{ fv_req_r(s, 2 * n, 2); fv_req_w(s, 2 * n, 2); fv_used("sample", U(n)); for (size_t i = 0; i < n; i++) s[i] = sp_sample1(s[i]); }
extern int rt_phase;
int8_t ct_ct_verify(const u16 *a, const u16 *b, size_t len)
{ fv_req_r(a, 2 * len, 2); fv_req_r(b, 2 * len, 2); fv_used("verify", U(len)); if (rt_phase == 2) { fv_check_eq(a, b, 2 * len, "re-encryption matches bit for bit"); return 0; } return sp_equal(a, b, len) ? 0 : -1; }
void ct_ct_select(u8 *r, const u8 *a, const u8 *b, size_t len, int8_t sel)
{
  fv_req_r(a, len, 1); fv_req_r(b, len, 1); fv_req_w(r, len, 1);
  fv_check(sel == 0 || sel == -1, "selector is 0 or -1"); DISJ(r, len, a, len); DISJ(r, len, b, len); fv_used("select", U(len));
  int c = sel == 0; for (size_t i = 0; i < len; i++) { u8 x = a[i], y = b[i]; r[i] = c ? x : y; }
}
void ct_clear_bytes(u8 *mem, size_t n) { fv_req_w(mem, n, 1); fv_used("clear", U(n)); memset(mem, 0, n); }
/* products are specified modulo q only; for q = 2^15 the unused top bit of each word is unspecified */
static void topbits(u16 *out, size_t n, const char *nm)
{
#if LOGQ < 16
  u8 h[NN / 8]; fv_havoc(h, n / 8, FV_SECRET, nm);
  for (size_t i = 0; i < n; i++) out[i] = (out[i] & QM) | (u16)((h[i / 8] >> (i % 8) & 1) << 15);
#endif
}
/* -------- ghost state of the round-trip argument (C04), active in h_roundtrip only: what the operations fed to the products and to
   the message encoding.  With W = sb(as(S,E),S',E'') + encode(mu) - bs(sa(S',E'),S), lean/Noise.lean gives W = encode(mu) + (S'E + E'' - E'S) and
   l_radius gives decode(W) = mu inside the decoding interval; the contract of decode uses exactly that, after checking that its argument is W. */
int rt_phase = -1, rt_as, rt_sa, rt_sb, rt_enc; u16 rt_S[NN], rt_B[NN], rt_Sp[NN], rt_Bp[NN], rt_V[64]; u8 rt_seed[SEEDA], rt_mu[MUB];
static void rtmask(u16 *d, const u16 *s, size_t n) { for (size_t i = 0; i < n; i++) d[i] = s[i] & QM; }
static void rteq(const u16 *a, const u16 *b, size_t n, const char *m) { u16 x[NN]; rtmask(x, a, n); fv_check_eq(x, b, 2 * n, m); }
int ct_frodo_mul_add_as_plus_e(u16 *out, const u16 *s, const u16 *e, const u8 *seed)
{
  fv_req_r(s, 2 * NN, 2); fv_req_r(e, 2 * NN, 4); fv_req_r(seed, SEEDA, 1); fv_req_public(seed, SEEDA); fv_req_w(out, 2 * NN, 4);
  DISJ(out, 2 * NN, s, 2 * NN); DISJ(out, 2 * NN, e, 2 * NN); DISJ(out, 2 * NN, seed, SEEDA); sp_as(out, s, e, seed); if (rt_phase == 0) { rt_as++; rtmask(rt_S, s, NN); rtmask(rt_B, out, NN); memcpy(rt_seed, seed, SEEDA); } topbits(out, NN, "as_top"); if (fv_opaque("declassify")) fv_declassify(out, 2 * NN); return 1;
}
int ct_frodo_mul_add_sa_plus_e(u16 *out, const u16 *s, u16 *e, const u8 *seed)
{
  fv_req_r(s, 2 * NN, 2); fv_req_r(e, 2 * NN, SA_ALIGN); fv_req_r(seed, SEEDA, 1); fv_req_public(seed, SEEDA); fv_req_w(out, 2 * NN, 2); fv_req_w(e, 2 * NN, SA_ALIGN);
  DISJ(out, 2 * NN, s, 2 * NN); DISJ(out, 2 * NN, e, 2 * NN); DISJ(out, 2 * NN, seed, SEEDA); DISJ(e, 2 * NN, s, 2 * NN); DISJ(e, 2 * NN, seed, SEEDA); sp_sa(out, s, e, seed); if (rt_phase == 1) { rt_sa++; rtmask(rt_Sp, s, NN); rtmask(rt_Bp, out, NN); fv_check_eq(seed, rt_seed, SEEDA, "encapsulation uses the matrix A of the key pair"); } topbits(out, NN, "sa_top"); fv_havoc(e, 2 * NN, FV_SECRET, "sa_e"); if (fv_opaque("declassify")) fv_declassify(out, 2 * NN); return 1;
}
void ct_frodo_mul_bs(u16 *out, const u16 *b, const u16 *s)
{ fv_req_r(b, 2 * NN, 2); fv_req_r(s, 2 * NN, 2); fv_req_w(out, 128, 2); DISJ(out, 128, b, 2 * NN); DISJ(out, 128, s, 2 * NN); sp_bs(out, b, s); topbits(out, 64, "bs_top"); }
void ct_frodo_mul_add_sb_plus_e(u16 *out, const u16 *b, const u16 *s, const u16 *e)
{ fv_req_r(b, 2 * NN, 2); fv_req_r(s, 2 * NN, 2); fv_req_r(e, 128, 2); fv_req_w(out, 128, 2); DISJ(out, 128, b, 2 * NN); DISJ(out, 128, s, 2 * NN); DISJ(out, 128, e, 128); sp_sb(out, b, s, e); if (rt_phase == 1) { rt_sb++; rteq(b, rt_B, NN, "encapsulation multiplies the B of the key pair"); rteq(s, rt_Sp, NN, "V and B' use the same S'"); rtmask(rt_V, out, 64); } topbits(out, 64, "sb_top"); }
void ct_frodo_add(u16 *out, const u16 *a, const u16 *b)
{ fv_req_r(a, 128, 2); fv_req_r(b, 128, 2); fv_req_w(out, 128, 2); int ao = fv_overlap(out, 128, a, 128), bo = fv_overlap(out, 128, b, 128); fv_check(ao < 2 && bo < 2, "in place or disjoint"); fv_used("add", U(ao), U(bo)); for (int i = 0; i < 64; i++) out[i] = (u16)(a[i] + b[i]) & QM; if (fv_opaque("declassify")) fv_declassify(out, 128); }
void ct_frodo_sub(u16 *out, const u16 *a, const u16 *b)
{ fv_req_r(a, 128, 2); fv_req_r(b, 128, 2); fv_req_w(out, 128, 2); int ao = fv_overlap(out, 128, a, 128), bo = fv_overlap(out, 128, b, 128); fv_check(ao < 2 && bo < 2, "in place or disjoint"); fv_used("sub", U(ao), U(bo)); for (int i = 0; i < 64; i++) out[i] = (u16)(a[i] - b[i]) & QM; topbits(out, 64, "sub_top"); }
void ct_frodo_key_encode(u16 *out, const u16 *in) { fv_req_r(in, MUB, 1); fv_req_w(out, 128, 2); DISJ(out, 128, in, MUB); if (rt_phase == 1) { rt_enc++; memcpy(rt_mu, in, MUB); } sp_encode(out, (const u8 *)in); }
void ct_frodo_key_decode(u16 *out, const u16 *in) { fv_req_r(in, 128, 2); fv_req_w(out, MUB, 1); DISJ(out, MUB, in, 128);
  if (rt_phase == 2) {
    u16 M[64], Z[64]; fv_check(rt_as == 1 && rt_sa == 1 && rt_sb == 1 && rt_enc == 1, "one product of each kind and one encoded message per operation");
    sp_encode(M, rt_mu); sp_bs(Z, rt_Bp, rt_S); for (int i = 0; i < 64; i++) M[i] = (u16)(rt_V[i] + M[i] - Z[i]) & QM;
    rteq(in, M, 64, "the decoded matrix is S'B + E'' + encode(mu) - B'S"); memcpy(out, rt_mu, MUB); return;
  }
  sp_decode((u8 *)out, in); }
#endif
