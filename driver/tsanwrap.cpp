// ThreadSanitizer does not see into libsodium (it is not instrumented): what
// the functions the library calls read and write is declared here.
#if defined(__SANITIZE_THREAD__)
#include "common.hpp"

#include <dlfcn.h>

extern "C" {
void __tsan_read_range(void* p, long n);
void __tsan_write_range(void* p, long n);
}
namespace {
template<class F>
F real(const char* name)
{
    void* p = dlsym(RTLD_NEXT, name);
    if (p == nullptr) {
        bad(std::string("no real ") + name);
    }
    F f;
    memcpy(&f, &p, sizeof f);
    return f;
}
void rd(const void* p, unsigned long long n)
{
    if (p != nullptr && n > 0) {
        __tsan_read_range(const_cast<void*>(p), static_cast<long>(n));
    }
}
void wr(void* p, unsigned long long n)
{
    if (p != nullptr && n > 0) {
        __tsan_write_range(p, static_cast<long>(n));
    }
}
} // namespace
using u8  = unsigned char;
using ull = unsigned long long;
#define REAL(name) static auto f = real<decltype(&name)>(#name)
extern "C" {
int crypto_aead_chacha20poly1305_ietf_encrypt(u8* c, ull* cl, const u8* m, ull ml, const u8* ad, ull al, const u8* ns, const u8* n, const u8* k)
{
    REAL(crypto_aead_chacha20poly1305_ietf_encrypt);
    rd(m, ml), rd(ad, al), rd(n, 12), rd(k, 32), wr(c, ml + 16);
    return f(c, cl, m, ml, ad, al, ns, n, k);
}
int crypto_aead_chacha20poly1305_ietf_decrypt(u8* m, ull* ml, u8* ns, const u8* c, ull cl, const u8* ad, ull al, const u8* n, const u8* k)
{
    REAL(crypto_aead_chacha20poly1305_ietf_decrypt);
    rd(c, cl), rd(ad, al), rd(n, 12), rd(k, 32);
    if (cl >= 16) {
        wr(m, cl - 16);
    }
    return f(m, ml, ns, c, cl, ad, al, n, k);
}
int crypto_core_ed25519_add(u8* r, const u8* p, const u8* q)
{
    REAL(crypto_core_ed25519_add);
    rd(p, 32), rd(q, 32), wr(r, 32);
    return f(r, p, q);
}
int crypto_core_ed25519_sub(u8* r, const u8* p, const u8* q)
{
    REAL(crypto_core_ed25519_sub);
    rd(p, 32), rd(q, 32), wr(r, 32);
    return f(r, p, q);
}
int crypto_core_ed25519_from_uniform(u8* p, const u8* r)
{
    REAL(crypto_core_ed25519_from_uniform);
    rd(r, 32), wr(p, 32);
    return f(p, r);
}
int crypto_core_ed25519_is_valid_point(const u8* p)
{
    REAL(crypto_core_ed25519_is_valid_point);
    rd(p, 32);
    return f(p);
}
int crypto_generichash_blake2b(u8* o, size_t ol, const u8* in, ull il, const u8* k, size_t kl)
{
    REAL(crypto_generichash_blake2b);
    rd(in, il), rd(k, kl), wr(o, ol);
    return f(o, ol, in, il, k, kl);
}
int crypto_generichash(u8* o, size_t ol, const u8* in, ull il, const u8* k, size_t kl)
{
    REAL(crypto_generichash);
    rd(in, il), rd(k, kl), wr(o, ol);
    return f(o, ol, in, il, k, kl);
}
int crypto_generichash_blake2b_salt_personal(u8* o, size_t ol, const u8* in, ull il, const u8* k, size_t kl, const u8* s, const u8* p)
{
    REAL(crypto_generichash_blake2b_salt_personal);
    rd(in, il), rd(k, kl), rd(s, 16), rd(p, 16), wr(o, ol);
    return f(o, ol, in, il, k, kl, s, p);
}
int crypto_hash_sha512(u8* o, const u8* in, ull il)
{
    REAL(crypto_hash_sha512);
    rd(in, il), wr(o, 64);
    return f(o, in, il);
}
int crypto_stream_chacha20(u8* c, ull cl, const u8* n, const u8* k)
{
    REAL(crypto_stream_chacha20);
    rd(n, 8), rd(k, 32), wr(c, cl);
    return f(c, cl, n, k);
}
int crypto_stream_chacha20_xor_ic(u8* c, const u8* m, ull ml, const u8* n, uint64_t ic, const u8* k)
{
    REAL(crypto_stream_chacha20_xor_ic);
    rd(m, ml), rd(n, 8), rd(k, 32), wr(c, ml);
    return f(c, m, ml, n, ic, k);
}
int crypto_stream_chacha20_ietf_xor(u8* c, const u8* m, ull ml, const u8* n, const u8* k)
{
    REAL(crypto_stream_chacha20_ietf_xor);
    rd(m, ml), rd(n, 12), rd(k, 32), wr(c, ml);
    return f(c, m, ml, n, k);
}
void randombytes_buf(void* p, size_t n)
{
    REAL(randombytes_buf);
    wr(p, n);
    f(p, n);
}
void sodium_memzero(void* p, size_t n)
{
    REAL(sodium_memzero);
    wr(p, n);
    f(p, n);
}
int sodium_memcmp(const void* a, const void* b, size_t n)
{
    REAL(sodium_memcmp);
    rd(a, n), rd(b, n);
    return f(a, b, n);
}
}
#endif
