#pragma once
#include "common.hpp"

#include <sse/crypto/cipher.hpp>
#include <sse/crypto/hash.hpp>
#include <sse/crypto/hmac.hpp>
#include <sse/crypto/key.hpp>
#include <sse/crypto/prf.hpp>
#include <sse/crypto/prg.hpp>
#include <sse/crypto/prp.hpp>
#include <sse/crypto/wrapper.hpp>

namespace ct = sse::crypto;

template<size_t N>
struct KeyObj : Obj
{
    ct::Key<N> k;
    explicit KeyObj(ct::Key<N>&& x) : k(std::move(x))
    {
    }
};
struct PrgObj : Obj
{
    ct::Prg o;
    explicit PrgObj(ct::Prg&& x) : o(std::move(x))
    {
    }
};
struct CipherObj : Obj
{
    ct::Cipher o;
    explicit CipherObj(ct::Cipher&& x) : o(std::move(x))
    {
    }
};
struct PrpObj : Obj
{
    ct::Prp o;
    explicit PrpObj(ct::Prp&& x) : o(std::move(x))
    {
    }
};
struct WrapperObj : Obj
{
    ct::Wrapper o;
    explicit WrapperObj(ct::Wrapper&& x) : o(std::move(x))
    {
    }
};
template<uint16_t N>
struct PrfObj : Obj
{
    ct::Prf<N> o;
    explicit PrfObj(ct::Prf<N>&& x) : o(std::move(x))
    {
    }
};

// key sizes that HMac accepts (a key is observed through the HMAC it computes)
#define KEY_SIZES(X)                                                                              \
    X(16) X(17) X(18) X(20) X(24) X(25) X(31) X(32) X(33) X(48) X(63) X(64) X(65) X(100) X(112)   \
        X(127) X(128)
// others: their bytes are read the way the library's own tests read them (see key_read)
#define OTHER_KEYS(X)                                                                             \
    X(1) X(8) X(15) X(129) X(144) X(192) X(200) X(256) X(264) X(1000) X(2000) X(4096) X(4097)
#define PRF_SIZES(X)                                                                              \
    X(1) X(2) X(8) X(11) X(12) X(16) X(20) X(25) X(31) X(32) X(33) X(48) X(63) X(64) X(65) X(100) \
        X(127) X(128) X(129) X(192) X(256) X(264) X(1000) X(2000) X(4097) X(16384) X(16385) X(16448) X(20000)      \
        X(33000) X(65535)

inline uint8_t unhex1(char c)
{
    return static_cast<uint8_t>((c >= 'a') ? (c - 'a' + 10) : (c - '0'));
}
// decodes the key bytes straight into the caller's buffer
inline void hex_into(const std::string& h, uint8_t* out, size_t n)
{
    if (h.size() != 2 * n) {
        bad("key size");
    }
    for (size_t i = 0; i < n; i++) {
        out[i] = static_cast<uint8_t>(unhex1(h[2 * i]) * 16 + unhex1(h[2 * i + 1]));
    }
}
inline bool all_zero(const void* p, size_t n)
{
    const uint8_t* b = static_cast<const uint8_t*>(p);
    uint8_t        x = 0;
    for (size_t i = 0; i < n; i++) {
        x |= b[i];
    }
    return x == 0;
}
