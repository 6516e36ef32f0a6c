/* A stand-in for the RELIC toolkit (not installed here), as far as
 * src/ppke/relic_wrapper uses it: the three groups of a pairing are represented
 * by exponents modulo the order of RELIC's BN_P254, the pairing multiplies
 * exponents.  Same sizes of encodings as the real thing; no secrecy. */
#pragma once
#include <stddef.h>
#include <stdint.h>
#include <string.h>

#define RLC_FP_BYTES 32
#define RLC_BN_BITS 1024
#define RLC_CEIL(A, B) (((A)-1) / (B) + 1)
#define RLC_MIN(A, B) ((A) < (B) ? (A) : (B))
#define RLC_POS 0
#define RLC_NEG 1
#define RLC_LT (-1)
#define RLC_EQ 0
#define RLC_GT 1
#define RLC_OK 0
#define RLC_ERR 1
#define AUTO 1
#define ALLOC AUTO

typedef uint64_t dig_t;
#define RLC_BN_SIZE 40
typedef struct
{
    int   alloc, used, sign;
    dig_t dp[RLC_BN_SIZE];
} bn_st;
typedef bn_st bn_t[1];
typedef struct
{
    uint64_t e[4];
} ep_st;
typedef ep_st g1_t[1];
typedef struct
{
    uint64_t e[4];
} ep2_st;
typedef ep2_st g2_t[1];
typedef struct
{
    uint64_t e[4];
} fp12_st;
typedef fp12_st gt_t[1];

#define bn_null(A)
#define bn_new(A) st_bn_init(A);
#define bn_free(A)
#define g1_null(A)
#define g1_new(A) memset((A), 0, sizeof(g1_t));
#define g1_free(A)
#define g2_null(A)
#define g2_new(A) memset((A), 0, sizeof(g2_t));
#define g2_free(A)
#define gt_null(A)
#define gt_new(A) memset((A), 0, sizeof(gt_t));
#define gt_free(A)

void  st_bn_init(bn_st* a);
void  bn_copy(bn_st* c, const bn_st* a);
void  bn_set_dig(bn_st* c, dig_t d);
void  bn_zero(bn_st* c);
void  bn_neg(bn_st* c, const bn_st* a);
int   bn_sign(const bn_st* a);
int   bn_is_zero(const bn_st* a);
int   bn_cmp(const bn_st* a, const bn_st* b);
int   bn_cmp_dig(const bn_st* a, dig_t b);
void  bn_add(bn_st* c, const bn_st* a, const bn_st* b);
void  bn_sub(bn_st* c, const bn_st* a, const bn_st* b);
void  bn_mul(bn_st* c, const bn_st* a, const bn_st* b);
void  bn_mod(bn_st* c, const bn_st* a, const bn_st* m);
void  bn_mxp(bn_st* c, const bn_st* a, const bn_st* b, const bn_st* m);
void  bn_gcd_ext(bn_st* c, bn_st* d, bn_st* e, const bn_st* a, const bn_st* b);
void  bn_lsh(bn_st* c, const bn_st* a, int bits);
void  bn_rsh(bn_st* c, const bn_st* a, int bits);
int   bn_bits(const bn_st* a);
void  bn_rand(bn_st* a, int sign, int bits);
void  bn_rand_mod(bn_st* a, const bn_st* m);
int   bn_size_bin(const bn_st* a);
void  bn_read_bin(bn_st* a, const uint8_t* b, int len);
void  bn_write_bin(uint8_t* b, int len, const bn_st* a);
int   bn_size_str(const bn_st* a, int radix);
void  bn_read_str(bn_st* a, const char* s, int len, int radix);
void  bn_write_str(char* s, int len, const bn_st* a, int radix);
void  md_map_sh256(uint8_t* hash, const uint8_t* msg, int len);

#define ST_GROUP(G, T)                                          \
    void st_##G##_add(T* r, const T* p, const T* q);            \
    void st_##G##_sub(T* r, const T* p, const T* q);            \
    void st_##G##_neg(T* r, const T* p);                        \
    void st_##G##_mul(T* r, const T* p, const bn_st* k);        \
    void st_##G##_zero(T* r);                                   \
    void st_##G##_gen(T* r);                                    \
    void st_##G##_rand(T* r);                                   \
    void st_##G##_copy(T* r, const T* p);                       \
    int  st_##G##_is_zero(const T* p);                          \
    int  st_##G##_cmp(const T* p, const T* q);                  \
    int  st_##G##_size_bin(const T* p, int pack);               \
    void st_##G##_read_bin(T* p, const uint8_t* b, int len);    \
    void st_##G##_write_bin(uint8_t* b, int len, const T* p, int pack); \
    void st_##G##_map(T* r, const uint8_t* m, int len);
ST_GROUP(g1, ep_st)
ST_GROUP(g2, ep2_st)
ST_GROUP(gt, fp12_st)

#define g1_get_ord(N) st_order(N)
#define g2_get_ord(N) st_order(N)
#define gt_get_ord(N) st_order(N)
void st_order(bn_st* n);
#define g1_set_infty(P) st_g1_zero(P)
#define g1_is_infty(P) st_g1_is_zero(P)
#define g1_copy(R, P) st_g1_copy(R, P)
#define g1_cmp(P, Q) st_g1_cmp(P, Q)
#define g1_add(R, P, Q) st_g1_add(R, P, Q);
#define g1_sub(R, P, Q) st_g1_sub(R, P, Q);
#define g1_neg(R, P) st_g1_neg(R, P)
#define g1_norm(R, P) st_g1_copy(R, P)
#define g1_mul(R, P, K) st_g1_mul(R, P, K)
#define g1_mul_gen(R, K) st_g1_mul_gen(R, K)
#define g1_get_gen(R) st_g1_gen(R)
#define g1_rand(R) st_g1_rand(R)
#define g1_map(R, M, L) st_g1_map(R, M, L)
#define g1_size_bin(P, C) st_g1_size_bin(P, C)
#define g1_read_bin(P, B, L) st_g1_read_bin(P, B, L)
#define g1_write_bin(B, L, P, C) st_g1_write_bin(B, L, P, C)
#define g2_set_infty(P) st_g2_zero(P)
#define g2_is_infty(P) st_g2_is_zero(P)
#define g2_copy(R, P) st_g2_copy(R, P)
#define g2_cmp(P, Q) st_g2_cmp(P, Q)
#define g2_add(R, P, Q) st_g2_add(R, P, Q);
#define g2_sub(R, P, Q) st_g2_sub(R, P, Q);
#define g2_neg(R, P) st_g2_neg(R, P)
#define g2_norm(R, P) st_g2_copy(R, P)
#define g2_mul(R, P, K) st_g2_mul(R, P, K)
#define g2_get_gen(R) st_g2_gen(R)
#define g2_rand(R) st_g2_rand(R)
#define g2_map(R, M, L) st_g2_map(R, M, L)
#define g2_size_bin(P, C) st_g2_size_bin(P, C)
#define g2_read_bin(P, B, L) st_g2_read_bin(P, B, L)
#define g2_write_bin(B, L, P, C) st_g2_write_bin(B, L, P, C)
#define gt_set_unity(P) st_gt_zero(P)
#define gt_is_unity(P) st_gt_is_zero(P)
#define gt_copy(R, P) st_gt_copy(R, P)
#define gt_cmp(P, Q) st_gt_cmp(P, Q)
#define gt_mul(R, P, Q) st_gt_add(R, P, Q);
#define gt_inv(R, P) st_gt_neg(R, P)
#define gt_exp(R, P, K) st_gt_mul(R, P, K);
#define gt_get_gen(R) st_gt_gen(R)
#define gt_rand(R) st_gt_rand(R)
#define gt_size_bin(P, C) st_gt_size_bin(P, C)
#define gt_read_bin(P, B, L) st_gt_read_bin(P, B, L)
#define gt_write_bin(B, L, P, C) st_gt_write_bin(B, L, P, C)
void pp_map_oatep_k12(fp12_st* r, const ep_st* p, const ep2_st* q);
#define pp_map_k12(R, P, Q) pp_map_oatep_k12(R, P, Q)
#define pc_map(R, P, Q) pp_map_oatep_k12(R, P, Q)

void* core_get(void);
int   core_init(void);
int   core_clean(void);
int   pc_param_set_any(void);
