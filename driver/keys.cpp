#include "objs.hpp"

#include "hash/sha512.hpp"

// -------------------------------------------------------------- keys
static thread_local void* g_read;
static thread_local Res*  g_read_to;
namespace tests {
// a friend of Key
template<size_t K_SIZE>
void prg_test_key_derivation_consistency()
{
    auto& k = *static_cast<ct::Key<K_SIZE>*>(g_read);
    const uint8_t* p = nullptr;
    k.unlock();
    try {
        p = k.data();
    } catch (const std::exception&) {
        throw std::invalid_argument("empty key"); // as HMac does
    }
    g_read_to->hex("out", p, K_SIZE);
    k.lock();
}
} // namespace tests
template<size_t N>
static typename std::enable_if<(N >= 16 && N <= 128)>::type key_probe(ct::Key<N>&& k, const std::string& m, Res& r)
{
    ct::HMac<ct::Hash, N> mac(std::move(k));
    auto                  o = mac.hmac(m);
    r.hex("out", o.data(), o.size());
}
template<size_t N>
static typename std::enable_if<(N < 16 || N > 128)>::type key_probe(ct::Key<N>&& k, const std::string&, Res& r)
{
    ct::Key<N> l(std::move(k));
    g_read    = &l;
    g_read_to = &r;
    tests::prg_test_key_derivation_consistency<N>();
}
template<size_t N>
static void key_new(Args& a, Res& r, const std::string& s)
{
    uint8_t            buf[N];
    const std::string& h = a.next();
    hex_into(h, buf, N);
    put(s, new KeyObj<N>(ct::Key<N>(buf)));
    r.boolean("wiped", all_zero(buf, N));
}
template<size_t N>
static void key_op(const std::string& op, Args& a, Res& r)
{
    if (op == "new") {
        std::string s = a.s();
        key_new<N>(a, r, s);
    } else if (op == "rand") {
        put(a.s(), new KeyObj<N>(ct::Key<N>()));
    } else if (op == "null") {
        ct::Key<N> k(static_cast<uint8_t*>(nullptr));
    } else if (op == "move") {
        auto&       src = slot<KeyObj<N>>(a.s());
        std::string d   = a.s();
        put(d, new KeyObj<N>(ct::Key<N>(std::move(src.k))));
    } else if (op == "assign") {
        auto& src = slot<KeyObj<N>>(a.s());
        auto& dst = slot<KeyObj<N>>(a.s());
        dst.k     = std::move(src.k);
    } else if (op == "peek") { // the newest secure region of this size
        slot<KeyObj<N>>(a.s());
        r.hex("bytes", secmem::peek_last(N));
    } else if (op == "erase") {
        slot<KeyObj<N>>(a.s()).k.erase();
    } else if (op == "probe") {
        auto&       k = slot<KeyObj<N>>(a.s());
        std::string m = a.b();
        key_probe<N>(std::move(k.k), m, r);
    } else {
        bad("key op " + op);
    }
}
static Reg key_reg("key", [](Args& a, Res& r) {
    std::string op = a.s();
    switch (a.u()) {
#define X(N)                                                                                      \
    case N:                                                                                       \
        return key_op<N>(op, a, r);
        KEY_SIZES(X)
        OTHER_KEYS(X)
#undef X
    default:
        bad("key size");
    }
});

// -------------------------------------------------------------- hash
static Reg hash_reg("hash", [](Args& a, Res& r) {
    std::string v = a.s(); // which overload
    std::string m = a.b();
    if (v == "raw") {
        Exact in(m);
        Exact out(64, 0xEE);
        ct::Hash::hash(in.p, in.n, out.p);
        r.hex("out", out.p, 64);
    } else if (v == "rawinplace") { // digest written over the input buffer
        size_t n = m.size() < 64 ? 64 : m.size();
        Exact  io(n, 0);
        memcpy(io.p, m.data(), m.size());
        ct::Hash::hash(io.p, m.size(), io.p);
        r.hex("out", io.p, 64);
    } else if (v == "overlap") { // digest written into the input buffer, from byte d on
        size_t d = a.u();
        Exact  io(m.size() < d + 64 ? d + 64 : m.size(), 0);
        memcpy(io.p, m.data(), m.size());
        ct::Hash::hash(io.p, m.size(), io.p + d);
        r.hex("out", io.p + d, 64);
    } else if (v == "rawlen") {
        size_t l = a.u();
        Exact  in(m);
        Exact  out(l + 8, 0xEE);
        try {
            ct::Hash::hash(in.p, in.n, l, out.p);
        } catch (...) {
            r.hex("over", out.p, l + 8);
            throw;
        }
        r.hex("out", out.p, l);
        r.hex("over", out.p + l, 8);
    } else if (v == "str") {
        std::string o;
        ct::Hash::hash(m, o);
        r.hex("out", o);
    } else if (v == "stralias") {
        std::string o = m;
        ct::Hash::hash(o, o);
        r.hex("out", o);
    } else if (v == "strlen") {
        size_t      l = a.u();
        std::string o;
        ct::Hash::hash(m, l, o);
        r.hex("out", o);
    } else if (v == "ret") {
        r.hex("out", ct::Hash::hash(m));
    } else if (v == "retlen") {
        size_t l = a.u();
        r.hex("out", ct::Hash::hash(m, l));
    } else if (v == "nullin") {
        Exact out(64, 0xEE);
        ct::Hash::hash(nullptr, 0, out.p);
    } else if (v == "nullout") {
        ct::Hash::hash(uc(m), m.size(), nullptr);
    } else if (v == "nullinlen") {
        Exact out(64, 0xEE);
        ct::Hash::hash(nullptr, 0, 32, out.p);
    } else if (v == "nulloutlen") {
        ct::Hash::hash(uc(m), m.size(), 32, nullptr);
    } else if (v == "sha512") {
        Exact in(m);
        Exact out(64, 0xEE);
        ct::hash::sha512::hash(in.p, in.n, out.p);
        r.hex("out", out.p, 64);
    } else {
        bad("hash variant");
    }
});

// -------------------------------------------------------------- hmac
template<class H, uint16_t N>
struct MacObj : Obj
{
    ct::HMac<H, N> o;
    explicit MacObj(ct::HMac<H, N>&& x) : o(std::move(x))
    {
    }
};
template<class H, uint16_t N>
static void mac_op(const std::string& op, Args& a, Res& r)
{
    using M = MacObj<H, N>;
    if (op == "new") {
        std::string s = a.s();
        auto&       k = slot<KeyObj<N>>(a.s());
        put(s, new M(ct::HMac<H, N>(std::move(k.k))));
        return;
    }
    if (op == "rand") {
        put(a.s(), new M(ct::HMac<H, N>()));
        return;
    }
    if (op == "move") {
        auto& src = slot<M>(a.s());
        put(a.s(), new M(ct::HMac<H, N>(std::move(src.o))));
        return;
    }
    if (op == "assign") {
        auto& src = slot<M>(a.s());
        auto& dst = slot<M>(a.s());
        dst.o     = std::move(src.o);
        return;
    }
    auto&       mac = slot<M>(a.s()).o;
    std::string m   = a.b();
    Exact       in(m);
    if (op == "raw") {
        Exact out(64, 0xEE);
        mac.hmac(in.p, in.n, out.p);
        r.hex("out", out.p, 64);
    } else if (op == "overlap") {
        size_t d = a.u();
        Exact  io(m.size() < d + 64 ? d + 64 : m.size(), 0);
        memcpy(io.p, m.data(), m.size());
        mac.hmac(io.p, m.size(), io.p + d);
        r.hex("out", io.p + d, 64);
    } else if (op == "rawlen") {
        size_t l = a.u();
        Exact  out(l + 8, 0xEE);
        try {
            mac.hmac(in.p, in.n, out.p, l);
        } catch (...) {
            r.hex("over", out.p, l + 8);
            throw;
        }
        r.hex("out", out.p, l);
        r.hex("over", out.p + l, 8);
    } else if (op == "arr") {
        auto o = mac.hmac(in.p, in.n);
        r.hex("out", o.data(), o.size());
    } else if (op == "str") {
        auto o = mac.hmac(m);
        r.hex("out", o.data(), o.size());
    } else if (op == "nullin") {
        Exact out(64, 0xEE);
        mac.hmac(nullptr, 0, out.p);
    } else if (op == "nullout") {
        mac.hmac(in.p, in.n, nullptr);
    } else {
        bad("mac op " + op);
    }
}
static Reg mac_reg("mac", [](Args& a, Res& r) {
    std::string op = a.s();
    std::string h  = a.s();
    size_t      n  = a.u();
    if (h == "b") {
        switch (n) {
#define X(N)                                                                                      \
    case N:                                                                                       \
        return mac_op<ct::Hash, N>(op, a, r);
            KEY_SIZES(X)
#undef X
        default:
            bad("mac size");
        }
    }
    switch (n) {
#define X(N)                                                                                      \
    case N:                                                                                       \
        return mac_op<ct::hash::sha512, N>(op, a, r);
        X(16) X(25) X(32) X(64) X(127) X(128)
#undef X
    default:
        bad("mac size");
    }
});
