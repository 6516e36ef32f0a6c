#include "wrapops.hpp"

// -------------------------------------------------------------- cipher
template<size_t N>
static void enc_arr(ct::Cipher& c, const std::string& m, Res& r)
{
    std::array<uint8_t, N>                                in;
    std::array<uint8_t, ct::Cipher::ciphertext_length(N)> out;
    memcpy(in.data(), m.data(), N);
    out.fill(0xEE);
    c.encrypt(in, out);
    r.hex("out", out.data(), out.size());
}
template<size_t N>
static void dec_arr(ct::Cipher& c, const std::string& m, Res& r)
{
    std::array<uint8_t, ct::Cipher::ciphertext_length(N)> in;
    std::array<uint8_t, N>                                out;
    memcpy(in.data(), m.data(), in.size());
    out.fill(0xEE);
    try {
        c.decrypt(in, out);
    } catch (...) {
        r.hex("left", out.data(), out.size());
        throw;
    }
    r.hex("out", out.data(), out.size());
}
#define ARR_SIZES(X) X(1) X(2) X(15) X(16) X(17) X(32) X(63) X(64) X(65) X(100) X(127) X(128) X(129) X(256)
static Reg cipher_reg("cipher", [](Args& a, Res& r) {
    std::string op = a.s();
    if (op == "new") {
        std::string s = a.s();
        auto&       k = slot<KeyObj<32>>(a.s());
        put(s, new CipherObj(ct::Cipher(std::move(k.k))));
    } else if (op == "move") {
        auto& src = slot<CipherObj>(a.s());
        put(a.s(), new CipherObj(ct::Cipher(std::move(src.o))));
    } else if (op == "enc") {
        auto&       c = slot<CipherObj>(a.s()).o;
        std::string m = a.b();
        std::string o = "previous";
        try {
            c.encrypt(m, o);
        } catch (...) {
            r.hex("left", o);
            throw;
        }
        r.hex("out", o);
    } else if (op == "encalias") { // the same string as input and output
        auto&       c = slot<CipherObj>(a.s()).o;
        std::string m = a.b();
        c.encrypt(m, m);
        r.hex("out", m);
    } else if (op == "encarr") {
        auto&       c = slot<CipherObj>(a.s()).o;
        std::string m = a.b();
        switch (m.size()) {
#define X(N)                                                                                      \
    case N:                                                                                       \
        return enc_arr<N>(c, m, r);
            ARR_SIZES(X)
#undef X
        default:
            bad("array size");
        }
    } else if (op == "dec") {
        auto&       c = slot<CipherObj>(a.s()).o;
        std::string m = a.b();
        std::string o = "previous";
        try {
            c.decrypt(m, o);
        } catch (...) {
            r.hex("left", o);
            throw;
        }
        r.hex("out", o);
    } else if (op == "decalias") {
        auto&       c = slot<CipherObj>(a.s()).o;
        std::string m = a.b();
        c.decrypt(m, m);
        r.hex("out", m);
    } else if (op == "decarr") {
        auto&       c = slot<CipherObj>(a.s()).o;
        std::string m = a.b();
        switch (m.size() - 32) {
#define X(N)                                                                                      \
    case N:                                                                                       \
        return dec_arr<N>(c, m, r);
            ARR_SIZES(X)
#undef X
        default:
            bad("array size");
        }
    } else if (op == "lens") {
        size_t n = a.u();
        r.str("cl", std::to_string(ct::Cipher::ciphertext_length(n)));
        r.str("pl", std::to_string(ct::Cipher::plaintext_length(n)));
    } else {
        bad("cipher op " + op);
    }
});

// -------------------------------------------------------------- wrapper
std::map<std::string, WrapOps>& wrap_ops()
{
    static std::map<std::string, WrapOps> m;
    return m;
}
static WrapReg<CipherObj, ct::Cipher> wr_cipher("cipher");
static WrapReg<PrgObj, ct::Prg>       wr_prg("prg");
static WrapReg<PrpObj, ct::Prp>       wr_prp("prp");
#define X(N) static WrapReg<PrfObj<N>, ct::Prf<N>> wr_prf_##N("prf" #N);
X(1) X(2) X(12) X(16) X(32) X(33) X(64) X(65) X(128) X(256) X(264) X(2000)
#undef X

static Reg wrapper_reg("wrapper", [](Args& a, Res& r) {
    std::string op = a.s();
    if (op == "new") {
        std::string s = a.s();
        auto&       k = slot<KeyObj<32>>(a.s());
        put(s, new WrapperObj(ct::Wrapper(std::move(k.k))));
    } else if (op == "move") {
        auto& src = slot<WrapperObj>(a.s());
        put(a.s(), new WrapperObj(ct::Wrapper(std::move(src.o))));
    } else if (op == "assign") {
        auto& src = slot<WrapperObj>(a.s());
        auto& dst = slot<WrapperObj>(a.s());
        dst.o     = std::move(src.o);
    } else if (op == "wrap") {
        auto&       w  = slot<WrapperObj>(a.s()).o;
        std::string ty = a.s();
        auto        it = wrap_ops().find(ty);
        if (it == wrap_ops().end()) {
            bad("wrap type " + ty);
        }
        auto b = it->second.w(w, a.s());
        r.hex("out", b.data(), b.size());
    } else if (op == "unwrap") {
        auto&       w  = slot<WrapperObj>(a.s()).o;
        std::string ty = a.s();
        auto        it = wrap_ops().find(ty);
        if (it == wrap_ops().end()) {
            bad("wrap type " + ty);
        }
        std::string          m = a.b();
        std::vector<uint8_t> b(m.begin(), m.end());
        std::string          d = a.s();
        try {
            it->second.u(w, b, d);
        } catch (...) {
            r.hex("left", b.data(), b.size());
            throw;
        }
        r.hex("left", b.data(), b.size());
    } else {
        bad("wrapper op " + op);
    }
});
