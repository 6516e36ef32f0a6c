#pragma once
#include "wrapops.hpp"

#include <sse/crypto/rcprf.hpp>

template<uint16_t N>
struct RcObj : Obj
{
    ct::RCPrf<N> o;
    explicit RcObj(ct::RCPrf<N>&& x) : o(std::move(x))
    {
    }
};
template<uint16_t N>
struct CrObj : Obj
{
    ct::ConstrainedRCPrf<N> o;
    explicit CrObj(ct::ConstrainedRCPrf<N>&& x) : o(std::move(x))
    {
    }
};

struct Values
{
    std::string s     = "[";
    size_t      count = 0;
    template<size_t N>
    void add(uint64_t leaf, const std::array<uint8_t, N>& v)
    {
        if (count > 5000) {
            throw std::runtime_error("driver: too many callbacks");
        }
        Res r;
        r.hex("v", v.data(), N);
        if (count++ > 0) {
            s += ",";
        }
        s += "{\"l\":\"" + std::to_string(leaf) + "\"" + r.body + "}";
    }
    std::string done() const
    {
        return s + "]";
    }
};
template<uint16_t N>
struct ElemObj : Obj
{
    std::unique_ptr<ct::ConstrainedRCPrfElement<N>> e;
};

template<uint16_t N, class F>
void range_again(F& f, uint64_t lo, uint64_t hi, Values& v)
{
    f.eval_range(lo, hi, [&](uint64_t l, const std::array<uint8_t, N>& x) {
        auto w = f.eval(hi - (l - lo));
        v.add(l, x);
        v.add(hi - (l - lo), w);
    });
}

template<uint16_t N>
void rc_op(const std::string& op, Args& a, Res& r)
{
    using A = std::array<uint8_t, N>;
    if (op == "new") {
        std::string s = a.s();
        auto&       k = slot<KeyObj<32>>(a.s());
        uint8_t     h = static_cast<uint8_t>(a.u());
        put(s, new RcObj<N>(ct::RCPrf<N>(std::move(k.k), h)));
    } else if (op == "height") {
        r.num("out", slot<RcObj<N>>(a.s()).o.tree_height());
    } else if (op == "move") {
        auto& src = slot<RcObj<N>>(a.s());
        put(a.s(), new RcObj<N>(ct::RCPrf<N>(std::move(src.o))));
    } else if (op == "eval") {
        auto& f = slot<RcObj<N>>(a.s()).o;
        auto  v = f.eval(a.u());
        r.hex("out", v.data(), N);
    } else if (op == "range") {
        auto&    f  = slot<RcObj<N>>(a.s()).o;
        uint64_t lo = a.u(), hi = a.u();
        Values   v;
        try {
            f.eval_range(lo, hi, [&v](uint64_t l, const A& x) { v.add(l, x); });
        } catch (...) {
            r.raw("vals", v.done());
            throw;
        }
        r.raw("vals", v.done());
    } else if (op == "rangecb") { // the callback throws at its k-th call
        auto&    f  = slot<RcObj<N>>(a.s()).o;
        uint64_t lo = a.u(), hi = a.u();
        size_t   k = a.u();
        Values   v;
        try {
            f.eval_range(lo, hi, [&v, k](uint64_t l, const A& x) {
                v.add(l, x);
                if (v.count == k) {
                    throw std::length_error("callback");
                }
            });
        } catch (...) {
            r.raw("vals", v.done());
            throw;
        }
        r.raw("vals", v.done());
    } else if (op == "rangere" || op == "crangere") {
        // the callback evaluates the same object on the mirrored leaf
        std::string n  = a.s();
        uint64_t    lo = a.u(), hi = a.u();
        Values      v;
        try {
            if (op == "rangere") {
                range_again<N>(slot<RcObj<N>>(n).o, lo, hi, v);
            } else {
                range_again<N>(slot<CrObj<N>>(n).o, lo, hi, v);
            }
        } catch (...) {
            r.raw("vals", v.done());
            throw;
        }
        r.raw("vals", v.done());
    } else if (op == "constrain") {
        auto&       f  = slot<RcObj<N>>(a.s()).o;
        uint64_t    lo = a.u(), hi = a.u();
        std::string d = a.s();
        put(d, new CrObj<N>(f.constrain(lo, hi)));
    } else if (op == "ceval") {
        auto& f = slot<CrObj<N>>(a.s()).o;
        auto  v = f.eval(a.u());
        r.hex("out", v.data(), N);
    } else if (op == "crange") {
        auto&    f  = slot<CrObj<N>>(a.s()).o;
        uint64_t lo = a.u(), hi = a.u();
        Values   v;
        try {
            f.eval_range(lo, hi, [&v](uint64_t l, const A& x) { v.add(l, x); });
        } catch (...) {
            r.raw("vals", v.done());
            throw;
        }
        r.raw("vals", v.done());
    } else if (op == "cconstrain") {
        auto&       f  = slot<CrObj<N>>(a.s()).o;
        uint64_t    lo = a.u(), hi = a.u();
        std::string d = a.s();
        put(d, new CrObj<N>(f.constrain(lo, hi)));
    } else if (op == "cinfo") {
        auto& f = slot<CrObj<N>>(a.s()).o;
        r.str("min", std::to_string(f.min_leaf()));
        r.str("max", std::to_string(f.max_leaf()));
        r.num("height", f.tree_height());
        r.boolean("empty", f.is_empty());
    } else if (op == "cmove") {
        auto& src = slot<CrObj<N>>(a.s());
        put(a.s(), new CrObj<N>(ct::ConstrainedRCPrf<N>(std::move(src.o))));
    } else if (op == "cassign") {
        auto& src = slot<CrObj<N>>(a.s());
        auto& dst = slot<CrObj<N>>(a.s());
        dst.o     = std::move(src.o);
    } else if (op == "leaf") { // an element holding one leaf value
        std::string d = a.s();
        std::string m = a.b();
        uint8_t     h = static_cast<uint8_t>(a.u());
        uint64_t    l = a.u();
        A           b;
        memcpy(b.data(), m.data(), N);
        auto* e = new ElemObj<N>();
        put(d, e);
        try {
            e->e.reset(new ct::ConstrainedRCPrfLeafElement<N>(b, h, l));
        } catch (...) {
            g_slots.erase(d);
            throw;
        }
    } else if (op == "inner") { // an element holding the key of a subtree
        std::string d  = a.s();
        auto&       k  = slot<KeyObj<32>>(a.s());
        uint8_t     h  = static_cast<uint8_t>(a.u());
        uint8_t     sh = static_cast<uint8_t>(a.u());
        uint64_t    lo = a.u(), hi = a.u();
        auto*       e = new ElemObj<N>();
        put(d, e);
        try {
            e->e.reset(new ct::ConstrainedRCPrfInnerElement<N>(std::move(k.k), h, sh, lo, hi));
        } catch (...) {
            g_slots.erase(d);
            throw;
        }
    } else if (op == "assemble") { // a constrained PRF from elements
        std::string                                                  d = a.s();
        std::vector<std::unique_ptr<ct::ConstrainedRCPrfElement<N>>> v;
        std::vector<std::string>                                     names;
        while (a.more()) {
            names.push_back(a.s());
            v.push_back(std::move(slot<ElemObj<N>>(names.back()).e));
        }
        for (auto& n : names) {
            g_slots.erase(n);
        }
        put(d, new CrObj<N>(ct::ConstrainedRCPrf<N>(std::move(v))));
    } else if (op == "eeval") {
        auto& e = slot<ElemObj<N>>(a.s()).e;
        auto  v = e->eval(a.u());
        r.hex("out", v.data(), N);
    } else if (op == "erange") {
        auto&    e  = slot<ElemObj<N>>(a.s()).e;
        uint64_t lo = a.u(), hi = a.u();
        Values   v;
        try {
            e->eval_range(lo, hi, [&v](uint64_t l, const A& x) { v.add(l, x); });
        } catch (...) {
            r.raw("vals", v.done());
            throw;
        }
        r.raw("vals", v.done());
    } else {
        bad("rc op " + op);
    }
}
#define RC_INST(N)                                                                                \
    template void                                     rc_op<N>(const std::string&, Args&, Res&);  \
    static WrapReg<RcObj<N>, ct::RCPrf<N>>            wr_rc_##N("rcprf" #N);                      \
    static WrapReg<CrObj<N>, ct::ConstrainedRCPrf<N>> wr_cr_##N("crcprf" #N);
