// See relic/relic.h.
extern "C" {
#include "relic/relic.h"
}
#include <gmp.h>
#include <sodium.h>
#include <stdlib.h>

namespace {
struct Z
{
    mpz_t z;
    Z()
    {
        mpz_init(z);
    }
    explicit Z(const bn_st* a)
    {
        mpz_init(z);
        mpz_import(z, static_cast<size_t>(a->used), -1, 8, 0, 0, a->dp);
        if (a->sign == RLC_NEG) {
            mpz_neg(z, z);
        }
    }
    explicit Z(const uint64_t e[4])
    {
        mpz_init(z);
        mpz_import(z, 4, -1, 8, 0, 0, e);
    }
    Z(const Z&) = delete;
    ~Z()
    {
        mpz_clear(z);
    }
    void to(bn_st* a) const
    {
        size_t n = (mpz_sizeinbase(z, 2) + 63) / 64;
        if (n > RLC_BN_SIZE) {
            abort(); // RELIC: a number beyond its precision
        }
        memset(a->dp, 0, sizeof(a->dp));
        mpz_export(a->dp, &n, -1, 8, 0, 0, z);
        a->used = n == 0 ? 1 : static_cast<int>(n);
        a->sign = mpz_sgn(z) < 0 ? RLC_NEG : RLC_POS;
    }
    void to(uint64_t e[4]);
};
struct Order : Z
{
    Order()
    {
        mpz_set_str(z, "2523648240000001BA344D8000000007FF9F800000000010A10000000000000D", 16);
    }
};
const Order& order()
{
    static Order o;
    return o;
}
void Z::to(uint64_t e[4])
{
    size_t n = 0;
    mpz_mod(z, z, order().z);
    memset(e, 0, 32);
    mpz_export(e, &n, -1, 8, 0, 0, z);
}
void be(uint8_t b[32], const uint64_t e[4])
{
    for (int i = 0; i < 32; i++) {
        b[i] = static_cast<uint8_t>(e[3 - i / 8] >> (56 - 8 * (i % 8)));
    }
}
void unbe(uint64_t e[4], const uint8_t b[32])
{
    memset(e, 0, 32);
    for (int i = 0; i < 32; i++) {
        e[3 - i / 8] |= static_cast<uint64_t>(b[i]) << (56 - 8 * (i % 8));
    }
}
int g_core;
} // namespace

extern "C" {
void st_bn_init(bn_st* a)
{
    memset(a, 0, sizeof(*a));
    a->alloc = RLC_BN_SIZE;
    a->used  = 1;
}
void bn_copy(bn_st* c, const bn_st* a)
{
    if (c != a) {
        memcpy(c, a, sizeof(*c));
    }
}
void bn_set_dig(bn_st* c, dig_t d)
{
    st_bn_init(c);
    c->dp[0] = d;
}
void bn_zero(bn_st* c)
{
    st_bn_init(c);
}
void bn_neg(bn_st* c, const bn_st* a)
{
    bn_copy(c, a);
    if (!bn_is_zero(c)) {
        c->sign = a->sign == RLC_NEG ? RLC_POS : RLC_NEG;
    }
}
int bn_sign(const bn_st* a)
{
    return a->sign;
}
int bn_is_zero(const bn_st* a)
{
    return mpz_sgn(Z(a).z) == 0;
}
int bn_cmp(const bn_st* a, const bn_st* b)
{
    int x = mpz_cmp(Z(a).z, Z(b).z);
    return x < 0 ? RLC_LT : x > 0 ? RLC_GT : RLC_EQ;
}
int bn_cmp_dig(const bn_st* a, dig_t b)
{
    bn_st t;
    bn_set_dig(&t, b);
    return bn_cmp(a, &t);
}
#define BIN(NAME, F)                                              \
    void NAME(bn_st* c, const bn_st* a, const bn_st* b)           \
    {                                                             \
        Z x(a), y(b), r;                                          \
        F(r.z, x.z, y.z);                                         \
        r.to(c);                                                  \
    }
BIN(bn_add, mpz_add)
BIN(bn_sub, mpz_sub)
BIN(bn_mul, mpz_mul)
BIN(bn_mod, mpz_mod)
void bn_mxp(bn_st* c, const bn_st* a, const bn_st* b, const bn_st* m)
{
    Z x(a), y(b), n(m), r;
    mpz_powm(r.z, x.z, y.z, n.z);
    r.to(c);
}
void bn_gcd_ext(bn_st* c, bn_st* d, bn_st* e, const bn_st* a, const bn_st* b)
{
    Z x(a), y(b), g, s, t;
    mpz_gcdext(g.z, s.z, t.z, x.z, y.z);
    g.to(c);
    if (d != nullptr) {
        s.to(d);
    }
    if (e != nullptr) {
        t.to(e);
    }
}
void bn_lsh(bn_st* c, const bn_st* a, int bits)
{
    Z x(a), r;
    mpz_mul_2exp(r.z, x.z, static_cast<mp_bitcnt_t>(bits));
    r.to(c);
}
void bn_rsh(bn_st* c, const bn_st* a, int bits)
{
    Z x(a), r;
    mpz_tdiv_q_2exp(r.z, x.z, static_cast<mp_bitcnt_t>(bits));
    r.to(c);
}
int bn_bits(const bn_st* a)
{
    return bn_is_zero(a) ? 0 : static_cast<int>(mpz_sizeinbase(Z(a).z, 2));
}
void bn_rand(bn_st* a, int sign, int bits)
{
    uint8_t b[RLC_BN_SIZE * 8];
    int     n = (bits + 7) / 8;
    randombytes_buf(b, static_cast<size_t>(n));
    if (bits % 8 != 0) {
        b[0] &= static_cast<uint8_t>((1 << (bits % 8)) - 1);
    }
    bn_read_bin(a, b, n);
    a->sign = bn_is_zero(a) ? RLC_POS : sign;
}
void bn_rand_mod(bn_st* a, const bn_st* m)
{
    bn_rand(a, RLC_POS, bn_bits(m) + 40);
    bn_mod(a, a, m);
}
int bn_size_bin(const bn_st* a)
{
    int b = (bn_bits(a) + 7) / 8;
    return b == 0 ? 1 : b;
}
void bn_read_bin(bn_st* a, const uint8_t* b, int len)
{
    Z r;
    mpz_import(r.z, static_cast<size_t>(len), 1, 1, 0, 0, b);
    r.to(a);
}
void bn_write_bin(uint8_t* b, int len, const bn_st* a)
{
    uint8_t t[RLC_BN_SIZE * 8];
    size_t  n = 0;
    Z       x(a);
    mpz_export(t, &n, 1, 1, 0, 0, x.z);
    if (n > static_cast<size_t>(len)) {
        abort(); // RELIC: buffer too small
    }
    memset(b, 0, static_cast<size_t>(len));
    memcpy(b + (static_cast<size_t>(len) - n), t, n);
}
int bn_size_str(const bn_st* a, int radix)
{
    Z x(a);
    return static_cast<int>(mpz_sizeinbase(x.z, radix)) + 2;
}
void bn_read_str(bn_st* a, const char* s, int len, int radix)
{
    Z    r;
    char t[2048] = {0};
    memcpy(t, s, static_cast<size_t>(len));
    mpz_set_str(r.z, t, radix);
    r.to(a);
}
void bn_write_str(char* s, int len, const bn_st* a, int radix)
{
    Z    x(a);
    char t[4096];
    mpz_get_str(t, radix, x.z);
    memset(s, 0, static_cast<size_t>(len));
    memcpy(s, t, strlen(t) < static_cast<size_t>(len) ? strlen(t) : static_cast<size_t>(len));
}
void md_map_sh256(uint8_t* hash, const uint8_t* msg, int len)
{
    crypto_hash_sha256(hash, msg, static_cast<size_t>(len));
}
void st_order(bn_st* n)
{
    order().to(n);
}

// Encodings: a leading byte (2 or 3 compressed, 4 otherwise; none in GT), the
// exponent, and 32-byte strings determined by it.
static void fill(uint8_t* b, int blocks, const uint64_t e[4])
{
    uint8_t t[33];
    be(t, e);
    memcpy(b, t, 32);
    for (int i = 1; i < blocks; i++) {
        t[32] = static_cast<uint8_t>(i);
        crypto_hash_sha256(b + 32 * i, t, 33);
    }
}
#define GROUP(G, T, SHORT, LONG, LEAD)                                                     \
    void st_##G##_add(T* r, const T* p, const T* q)                                        \
    {                                                                                      \
        Z x(p->e), y(q->e);                                                                \
        mpz_add(x.z, x.z, y.z);                                                            \
        x.to(r->e);                                                                        \
    }                                                                                      \
    void st_##G##_sub(T* r, const T* p, const T* q)                                        \
    {                                                                                      \
        Z x(p->e), y(q->e);                                                                \
        mpz_sub(x.z, x.z, y.z);                                                            \
        x.to(r->e);                                                                        \
    }                                                                                      \
    void st_##G##_neg(T* r, const T* p)                                                    \
    {                                                                                      \
        Z x(p->e);                                                                         \
        mpz_neg(x.z, x.z);                                                                 \
        x.to(r->e);                                                                        \
    }                                                                                      \
    void st_##G##_mul(T* r, const T* p, const bn_st* k)                                    \
    {                                                                                      \
        Z x(p->e), y(k);                                                                   \
        mpz_mul(x.z, x.z, y.z);                                                            \
        x.to(r->e);                                                                        \
    }                                                                                      \
    void st_##G##_zero(T* r)                                                               \
    {                                                                                      \
        memset(r, 0, sizeof(*r));                                                          \
    }                                                                                      \
    void st_##G##_gen(T* r)                                                                \
    {                                                                                      \
        memset(r, 0, sizeof(*r));                                                          \
        r->e[0] = 1;                                                                       \
    }                                                                                      \
    void st_##G##_rand(T* r)                                                               \
    {                                                                                      \
        bn_st k;                                                                           \
        bn_rand_mod(&k, [] { static bn_st o; st_order(&o); return &o; }());                \
        st_##G##_gen(r);                                                                   \
        st_##G##_mul(r, r, &k);                                                            \
    }                                                                                      \
    void st_##G##_copy(T* r, const T* p)                                                   \
    {                                                                                      \
        *r = *p;                                                                           \
    }                                                                                      \
    int st_##G##_is_zero(const T* p)                                                       \
    {                                                                                      \
        return (p->e[0] | p->e[1] | p->e[2] | p->e[3]) == 0;                               \
    }                                                                                      \
    int st_##G##_cmp(const T* p, const T* q)                                               \
    {                                                                                      \
        return memcmp(p, q, sizeof(*p)) == 0 ? RLC_EQ : RLC_GT;                            \
    }                                                                                      \
    int st_##G##_size_bin(const T*, int pack)                                              \
    {                                                                                      \
        return (LEAD) + 32 * (pack ? (SHORT) : (LONG));                                    \
    }                                                                                      \
    void st_##G##_read_bin(T* p, const uint8_t* b, int)                                    \
    {                                                                                      \
        unbe(p->e, b + (LEAD));                                                            \
    }                                                                                      \
    void st_##G##_write_bin(uint8_t* b, int, const T* p, int pack)                         \
    {                                                                                      \
        if (LEAD) {                                                                        \
            b[0] = pack ? static_cast<uint8_t>(2 + (p->e[0] & 1)) : 4;                     \
        }                                                                                  \
        fill(b + (LEAD), pack ? (SHORT) : (LONG), p->e);                                   \
    }                                                                                      \
    void st_##G##_map(T* r, const uint8_t* m, int len)                                     \
    {                                                                                      \
        uint8_t h[32];                                                                     \
        crypto_hash_sha256(h, m, static_cast<size_t>(len));                                \
        bn_st k;                                                                           \
        st_bn_init(&k);                                                                    \
        bn_read_bin(&k, h, 32);                                                            \
        st_##G##_gen(r);                                                                   \
        st_##G##_mul(r, r, &k);                                                            \
    }
GROUP(g1, ep_st, 1, 2, 1)
GROUP(g2, ep2_st, 2, 4, 1)
GROUP(gt, fp12_st, 8, 12, 0)

void pp_map_oatep_k12(fp12_st* r, const ep_st* p, const ep2_st* q)
{
    Z x(p->e), y(q->e);
    mpz_mul(x.z, x.z, y.z);
    x.to(r->e);
}

// as RELIC built without threads
void* core_get(void)
{
    return g_core ? &g_core : nullptr;
}
int core_init(void)
{
    g_core = 1;
    return RLC_OK;
}
int core_clean(void)
{
    g_core = 0;
    return RLC_OK;
}
int pc_param_set_any(void)
{
    return RLC_OK;
}
}
