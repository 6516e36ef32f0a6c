#include "objs.hpp"

// -------------------------------------------------------------- prg
template<size_t K>
static void put_keys(const std::string& d, std::vector<ct::Key<K>>&& v, Res& r)
{
    r.num("n", static_cast<long>(v.size()));
    // the first ones are kept, and the last
    for (size_t i = 0; i < v.size(); i++) {
        if (i < 40) {
            put(d + std::to_string(i), new KeyObj<K>(std::move(v[i])));
        } else if (i + 1 == v.size()) {
            put(d + "L", new KeyObj<K>(std::move(v[i])));
        }
    }
}
template<size_t K>
static void prg_keys(const std::string& op, Args& a, Res& r)
{
    if (op == "key") {
        auto&    g = slot<PrgObj>(a.s()).o;
        uint16_t i = static_cast<uint16_t>(a.u());
        put(a.s(), new KeyObj<K>(g.derive_key<K>(i)));
    } else if (op == "keys") {
        auto&       g = slot<PrgObj>(a.s()).o;
        uint16_t    n = static_cast<uint16_t>(a.u());
        uint16_t    i = static_cast<uint16_t>(a.u());
        std::string d = a.s();
        put_keys<K>(d, g.derive_keys<K>(n, i), r);
    } else if (op == "keysdef") {
        auto&       g = slot<PrgObj>(a.s()).o;
        uint16_t    n = static_cast<uint16_t>(a.u());
        std::string d = a.s();
        put_keys<K>(d, g.derive_keys<K>(n), r);
    } else if (op == "skey") {
        auto&    k = slot<KeyObj<32>>(a.s()).k;
        uint16_t i = static_cast<uint16_t>(a.u());
        put(a.s(), new KeyObj<K>(ct::Prg::derive_key<K>(std::move(k), i)));
    } else if (op == "skeys") {
        auto&       k = slot<KeyObj<32>>(a.s()).k;
        uint16_t    n = static_cast<uint16_t>(a.u());
        uint16_t    i = static_cast<uint16_t>(a.u());
        std::string d = a.s();
        put_keys<K>(d, ct::Prg::derive_keys<K>(std::move(k), n, i), r);
    } else {
        bad("prg keys op");
    }
}
template<size_t N>
static void sarr(ct::Key<32>& k, size_t off, Res& r)
{
    struct
    {
        std::array<uint8_t, N> o;
        uint8_t                guard[8];
    } b;
    memset(&b, 0xEE, sizeof b);
    ct::Prg::derive(std::move(k), off, b.o);
    r.hex("out", b.o.data(), N);
    r.hex("over", b.guard, 8);
}
static Reg prg_reg("prg", [](Args& a, Res& r) {
    std::string op = a.s();
    if (op == "new") {
        std::string s = a.s();
        auto&       k = slot<KeyObj<32>>(a.s());
        put(s, new PrgObj(ct::Prg(std::move(k.k))));
    } else if (op == "move") {
        auto& src = slot<PrgObj>(a.s());
        put(a.s(), new PrgObj(ct::Prg(std::move(src.o))));
    } else if (op == "str0") {
        auto&       g = slot<PrgObj>(a.s()).o;
        size_t      l = a.u();
        std::string o = "previous";
        g.derive(l, o);
        r.hex("out", o);
    } else if (op == "ret0") {
        auto&  g = slot<PrgObj>(a.s()).o;
        size_t l = a.u();
        r.hex("out", g.derive(l));
    } else if (op == "str") {
        auto&       g   = slot<PrgObj>(a.s()).o;
        size_t      off = a.u();
        size_t      l   = a.u();
        std::string o   = "previous";
        g.derive(off, l, o);
        r.hex("out", o);
    } else if (op == "ret") {
        auto&  g   = slot<PrgObj>(a.s()).o;
        size_t off = a.u();
        size_t l   = a.u();
        r.hex("out", g.derive(off, l));
    } else if (op == "raw") {
        auto&  g   = slot<PrgObj>(a.s()).o;
        size_t off = a.u();
        size_t l   = a.u();
        Exact  o(l + 8, 0xEE);
        g.derive(off, l, o.p);
        r.hex("out", o.p, l);
        r.hex("over", o.p + l, 8);
    } else if (op == "null") {
        auto&  g   = slot<PrgObj>(a.s()).o;
        size_t off = a.u();
        size_t l   = a.u();
        g.derive(off, l, static_cast<unsigned char*>(nullptr));
    } else if (op == "sstr0") {
        auto&       k = slot<KeyObj<32>>(a.s()).k;
        size_t      l = a.u();
        std::string o = "previous";
        ct::Prg::derive(std::move(k), l, o);
        r.hex("out", o);
    } else if (op == "sret0") {
        auto&  k = slot<KeyObj<32>>(a.s()).k;
        size_t l = a.u();
        r.hex("out", ct::Prg::derive(std::move(k), l));
    } else if (op == "sstr") {
        auto&       k   = slot<KeyObj<32>>(a.s()).k;
        size_t      off = a.u();
        size_t      l   = a.u();
        std::string o   = "previous";
        ct::Prg::derive(std::move(k), off, l, o);
        r.hex("out", o);
    } else if (op == "sret") {
        auto&  k   = slot<KeyObj<32>>(a.s()).k;
        size_t off = a.u();
        size_t l   = a.u();
        r.hex("out", ct::Prg::derive(std::move(k), off, l));
    } else if (op == "sraw") {
        auto&  k   = slot<KeyObj<32>>(a.s()).k;
        size_t off = a.u();
        size_t l   = a.u();
        Exact  o(l + 8, 0xEE);
        ct::Prg::derive(std::move(k), off, l, o.p);
        r.hex("out", o.p, l);
        r.hex("over", o.p + l, 8);
    } else if (op == "snull") {
        auto&  k   = slot<KeyObj<32>>(a.s()).k;
        size_t off = a.u();
        size_t l   = a.u();
        ct::Prg::derive(std::move(k), off, l, static_cast<unsigned char*>(nullptr));
    } else if (op == "sarr") {
        auto&  k   = slot<KeyObj<32>>(a.s()).k;
        size_t off = a.u();
        size_t l   = a.u();
        switch (l) {
#define X(N)                                                                                      \
    case N:                                                                                       \
        return sarr<N>(k, off, r);
            X(1) X(16) X(63) X(64) X(65) X(200)
#undef X
        default:
            bad("sarr size");
        }
    } else {
        switch (a.u()) {
#define X(N)                                                                                      \
    case N:                                                                                       \
        return prg_keys<N>(op, a, r);
            KEY_SIZES(X)
            OTHER_KEYS(X)
#undef X
        default:
            bad("derived key size");
        }
    }
});

// -------------------------------------------------------------- prf
template<uint16_t N>
static void out_key(const std::string& d, ct::Key<N>&& k)
{
    put(d, new KeyObj<N>(std::move(k)));
}
template<uint16_t N, size_t L>
static void prf_arr(ct::Prf<N>& f, const std::string& m, Res& r)
{
    std::array<uint8_t, L> in;
    memcpy(in.data(), m.data(), L);
    auto o = f.prf(in);
    r.hex("out", o.data(), o.size());
}
template<uint16_t N, size_t L>
static void prf_arrkey(ct::Prf<N>& f, const std::string& m, const std::string& d)
{
    std::array<uint8_t, L> in;
    memcpy(in.data(), m.data(), L);
    out_key<N>(d, f.derive_key(in));
}
template<uint16_t N>
static void prf_op(const std::string& op, Args& a, Res& r)
{
    using P = PrfObj<N>;
    if (op == "new") {
        std::string s = a.s();
        auto&       k = slot<KeyObj<32>>(a.s());
        put(s, new P(ct::Prf<N>(std::move(k.k))));
        return;
    }
    if (op == "rand") {
        put(a.s(), new P(ct::Prf<N>()));
        return;
    }
    if (op == "move") {
        auto& src = slot<P>(a.s());
        put(a.s(), new P(ct::Prf<N>(std::move(src.o))));
        return;
    }
    if (op == "assign") {
        auto& src = slot<P>(a.s());
        auto& dst = slot<P>(a.s());
        dst.o     = std::move(src.o);
        return;
    }
    auto& f = slot<P>(a.s()).o;
    if (op == "null") {
        auto o = f.prf(nullptr, 0);
        r.hex("out", o.data(), o.size());
        return;
    }
    std::string m = a.b();
    if (op == "raw") {
        Exact in(m);
        auto  o = f.prf(in.p, in.n);
        r.hex("out", o.data(), o.size());
    } else if (op == "str") {
        auto o = f.prf(m);
        r.hex("out", o.data(), o.size());
    } else if (op == "arr") {
        switch (m.size()) {
#define X(L)                                                                                      \
    case L:                                                                                       \
        return prf_arr<N, L>(f, m, r);
            X(1) X(20) X(64) X(128)
#undef X
        default:
            bad("arr size");
        }
    } else if (op == "key") {
        Exact in(m);
        out_key<N>(a.s(), f.derive_key(in.p, in.n));
    } else if (op == "keystr") {
        out_key<N>(a.s(), f.derive_key(m));
    } else if (op == "keyarr") {
        switch (m.size()) {
#define X(L)                                                                                      \
    case L:                                                                                       \
        return prf_arrkey<N, L>(f, m, a.s());
            X(1) X(20) X(64) X(128)
#undef X
        default:
            bad("arr size");
        }
    } else {
        bad("prf op " + op);
    }
}
static Reg prf_reg("prf", [](Args& a, Res& r) {
    std::string op = a.s();
    switch (a.u()) {
#define X(N)                                                                                      \
    case N:                                                                                       \
        return prf_op<N>(op, a, r);
        PRF_SIZES(X)
#undef X
    default:
        bad("prf size");
    }
});
