#ifndef PARAMS_H
#define PARAMS_H
#include "fv.h"
#define NB 8
#define SEEDA 16
#if P == 640
#define N 640
#define LOGQ 15
#define BB 2
#define SEC 16
#define RATE 168
#define CDFLEN 13
#define SP_CDF {4643,13363,20579,25843,29227,31145,32103,32525,32689,32745,32762,32766,32767}
#define KEYPAIR crypto_kem_keypair_Frodo640
#define ENC crypto_kem_enc_Frodo640
#define DEC crypto_kem_dec_Frodo640
#define PKB 9616
#define SKB 19888
#define CTB 9720
#elif P == 976
#define N 976
#define LOGQ 16
#define BB 3
#define SEC 24
#define RATE 136
#define CDFLEN 11
#define SP_CDF {5638,15915,23689,28571,31116,32217,32613,32731,32760,32766,32767}
#define KEYPAIR crypto_kem_keypair_Frodo976
#define ENC crypto_kem_enc_Frodo976
#define DEC crypto_kem_dec_Frodo976
#define PKB 15632
#define SKB 31296
#define CTB 15744
#elif P == 1344
#define N 1344
#define LOGQ 16
#define BB 4
#define SEC 32
#define RATE 136
#define CDFLEN 7
#define SP_CDF {9142,23462,30338,32361,32725,32765,32767}
#define KEYPAIR crypto_kem_keypair_Frodo1344
#define ENC crypto_kem_enc_Frodo1344
#define DEC crypto_kem_dec_Frodo1344
#define PKB 21520
#define SKB 43088
#define CTB 21632
#endif
#define QM ((u16)((1u << LOGQ) - 1))
#define MUB (BB * 8)
#define PKH SEC
#define NN (N * NB)
#define BPK (LOGQ * NN / 8)
#define BC2 (LOGQ * 64 / 8)
/* specification */
void sp_keccakf(u64 *s);
void sp_kf(u8 st[200]);
void sp_shake(unsigned rate, u8 *out, size_t outlen, const u8 *in, size_t inlen);
void sp_aes_sched(int nk, const u8 *key, u8 *w);
void sp_aes_enc(int nr, const u8 *w, const u8 *in, u8 *out);
void sp_aes_blk(int nr, const u8 *w, const u8 *in, u8 *out);
void sp_aes128(const u8 key[16], const u8 in[16], u8 out[16]);
void sp_genrow(const u8 *seed, unsigned i, u16 *row);
u16 sp_sample1(u16 r);
void sp_as(u16 *out, const u16 *s, const u16 *e, const u8 *seed);
void sp_sa(u16 *out, const u16 *s, const u16 *e, const u8 *seed);
void sp_bs(u16 *out, const u16 *b, const u16 *s);
void sp_sb(u16 *out, const u16 *b, const u16 *s, const u16 *e);
void sp_pack(u8 *out, size_t outlen, const u16 *in, size_t inlen, unsigned d);
void sp_unpack(u16 *out, size_t outlen, const u8 *in, size_t inlen, unsigned d);
void sp_encode(u16 *out, const u8 *mu);
void sp_decode(u8 *mu, const u16 *in);
int sp_equal(const u16 *a, const u16 *b, size_t n);
void sp_keypair(u8 *pk, u8 *sk, const u8 *rnd);
void sp_encaps(u8 *ct, u8 *ss, const u8 *pk, const u8 *mu);
void sp_decaps(u8 *ss, const u8 *ct, const u8 *sk);
/* code under verification */
void frodo_pack(unsigned char *out, const size_t outlen, const u16 *in, const size_t inlen, const unsigned char lsb);
void frodo_unpack(u16 *out, const size_t outlen, const unsigned char *in, const size_t inlen, const unsigned char lsb);
void frodo_sample_n(u16 *s, const size_t n);
int8_t ct_verify(const u16 *a, const u16 *b, size_t len);
void ct_select(u8 *r, const u8 *a, const u8 *b, size_t len, int8_t selector);
void clear_bytes(u8 *mem, size_t n);
int frodo_mul_add_as_plus_e(u16 *out, const u16 *s, const u16 *e, const u8 *seed_A);
int frodo_mul_add_sa_plus_e(u16 *out, const u16 *s, u16 *e, const u8 *seed_A);
void frodo_mul_bs(u16 *out, const u16 *b, const u16 *s);
void frodo_mul_add_sb_plus_e(u16 *out, const u16 *b, const u16 *s, const u16 *e);
void frodo_add(u16 *out, const u16 *a, const u16 *b);
void frodo_sub(u16 *out, const u16 *a, const u16 *b);
void frodo_key_encode(u16 *out, const u16 *in);
void frodo_key_decode(u16 *out, const u16 *in);
int randombytes(unsigned char *random_array, unsigned long long nbytes);
void shake128(unsigned char *out, unsigned long long outlen, const unsigned char *in, unsigned long long inlen);
void shake256(unsigned char *out, unsigned long long outlen, const unsigned char *in, unsigned long long inlen);
void shake128_4x(unsigned char *o0, unsigned char *o1, unsigned char *o2, unsigned char *o3, unsigned long long outlen, const unsigned char *i0, const unsigned char *i1, const unsigned char *i2, const unsigned char *i3, unsigned long long inlen);
void KeccakF1600_StatePermute(u64 *state);
void shake128_absorb(u64 *s, const unsigned char *in, unsigned inlen);
void shake128_squeezeblocks(unsigned char *out, unsigned long long nblocks, u64 *s);
void shake256_absorb(u64 *s, const unsigned char *in, unsigned inlen);
void shake256_squeezeblocks(unsigned char *out, unsigned long long nblocks, u64 *s);
void AES128_load_schedule(const u8 *key, u8 *sch);
void AES128_ECB_enc_sch(const u8 *pt, const size_t len, const u8 *sch, u8 *ct);
void AES128_free_schedule(u8 *sch);
void AES256_load_schedule(const u8 *key, u8 *sch);
void AES256_ECB_enc_sch(const u8 *pt, const size_t len, const u8 *sch, u8 *ct);
void AES256_free_schedule(u8 *sch);
void aes128_load_schedule_c(const u8 *key, u8 *sch);
void aes256_load_schedule_c(const u8 *key, u8 *sch);
void aes128_enc_c(const u8 *in, const u8 *sch, u8 *out);
void aes256_enc_c(const u8 *in, const u8 *sch, u8 *out);
void aes128_load_schedule_ni(const u8 *key, u8 *sch);
void aes256_load_schedule_ni(const u8 *key, u8 *sch);
void aes128_enc_ni(const u8 *in, const u8 *sch, u8 *out);
void aes256_enc_ni(const u8 *in, const u8 *sch, u8 *out);
u8 sp_gmul(u8 a, u8 b);
extern const u8 sp_sbox_tab[256];
void KeccakP1600times4_PermuteAll_24rounds(void *s);
#ifdef P
int KEYPAIR(unsigned char *pk, unsigned char *sk);
int ENC(unsigned char *ct, unsigned char *ss, const unsigned char *pk);
int DEC(unsigned char *ss, const unsigned char *ct, const unsigned char *sk);
#endif
#endif
