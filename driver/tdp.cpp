#include "wrapops.hpp"

#include <sse/crypto/tdp.hpp>

// TdpInverse cannot be moved where its implementation type is incomplete
#include "tdp_impl/tdp_impl.hpp"

struct TdpObj : Obj
{
    ct::Tdp o;
    explicit TdpObj(const ct::Tdp& x) : o(x)
    {
    }
    explicit TdpObj(const std::string& pk) : o(pk)
    {
    }
};
struct InvObj : Obj
{
    ct::TdpInverse o;
    InvObj() = default;
    explicit InvObj(const std::string& sk) : o(sk)
    {
    }
    explicit InvObj(ct::TdpInverse&& x) : o(std::move(x))
    {
    }
};
struct PoolObj : Obj
{
    ct::TdpMultPool o;
    explicit PoolObj(const ct::TdpMultPool& x) : o(x)
    {
    }
    PoolObj(const std::string& pk, uint8_t n) : o(pk, n)
    {
    }
};
static WrapReg<InvObj, ct::TdpInverse> wr_tinv("tinv");

using Msg = std::array<uint8_t, 256>;
static Msg to_msg(const std::string& m)
{
    if (m.size() != 256) {
        bad("message size");
    }
    Msg a;
    memcpy(a.data(), m.data(), 256);
    return a;
}
static void show(Res& r, const Msg& a)
{
    r.hex("out", a.data(), a.size());
}
using Gen = ct::Prf<ct::Tdp::kRSAPrfSize>;

// operations common to the three classes; v is the overload
template<class T>
static void shared_op(T& t, const std::string& op, const std::string& v, Args& a, Res& r)
{
    if (op == "pub") {
        r.hex("out", t.public_key());
    } else if (op == "sample") {
        if (v == "str") {
            r.hex("out", t.sample());
        } else {
            show(r, t.sample_array());
        }
    } else if (op == "eval") {
        std::string m = a.b();
        if (v == "str") {
            std::string o = "previous";
            t.eval(m, o);
            r.hex("out", o);
        } else if (v == "alias") {
            t.eval(m, m);
            r.hex("out", m);
        } else if (v == "ret") {
            r.hex("out", t.eval(m));
        } else {
            show(r, t.eval(to_msg(m)));
        }
    } else if (op == "gen") {
        std::string k    = a.s();
        std::string seed = a.b();
        if (v == "key") {
            r.hex("out", t.generate(std::move(slot<KeyObj<32>>(k).k), seed));
        } else if (v == "keyarr") {
            show(r, t.generate_array(std::move(slot<KeyObj<32>>(k).k), seed));
        } else if (v == "prf") {
            r.hex("out", t.generate(slot<PrfObj<264>>(k).o, seed));
        } else {
            show(r, t.generate_array(slot<PrfObj<264>>(k).o, seed));
        }
    } else {
        bad("tdp op " + op);
    }
}
static Reg tdp_reg("tdp", [](Args& a, Res& r) {
    std::string op = a.s();
    if (op == "irand") {
        put(a.s(), new InvObj());
    } else if (op == "isk") {
        std::string s = a.s();
        put(s, new InvObj(a.b()));
    } else if (op == "imove") {
        auto& src = slot<InvObj>(a.s());
        put(a.s(), new InvObj(ct::TdpInverse(std::move(src.o))));
    } else if (op == "pk") {
        std::string s = a.s();
        put(s, new TdpObj(a.b()));
    } else if (op == "copy") {
        auto& src = slot<TdpObj>(a.s());
        put(a.s(), new TdpObj(src.o));
    } else if (op == "assign") {
        auto& src = slot<TdpObj>(a.s());
        slot<TdpObj>(a.s()).o = src.o;
    } else if (op == "pool") {
        std::string s = a.s();
        std::string p = a.b();
        put(s, new PoolObj(p, static_cast<uint8_t>(a.u())));
    } else if (op == "pcopy") {
        auto& src = slot<PoolObj>(a.s());
        put(a.s(), new PoolObj(src.o));
    } else if (op == "passign") {
        auto& src = slot<PoolObj>(a.s());
        slot<PoolObj>(a.s()).o = src.o;
    } else if (op == "maxorder") {
        r.num("out", slot<PoolObj>(a.s()).o.maximum_order());
    } else if (op == "priv") {
        r.hex("out", slot<InvObj>(a.s()).o.private_key());
    } else if (op == "invert" || op == "imult") {
        std::string v = a.s();
        auto&       t = slot<InvObj>(a.s()).o;
        std::string m = a.b();
        if (op == "invert") {
            if (v == "str") {
                std::string o = "previous";
                t.invert(m, o);
                r.hex("out", o);
            } else if (v == "alias") {
                t.invert(m, m);
                r.hex("out", m);
            } else if (v == "ret") {
                r.hex("out", t.invert(m));
            } else {
                show(r, t.invert(to_msg(m)));
            }
        } else {
            uint32_t k = static_cast<uint32_t>(a.u());
            if (v == "str") {
                std::string o = "previous";
                t.invert_mult(m, o, k);
                r.hex("out", o);
            } else if (v == "alias") {
                t.invert_mult(m, m, k);
                r.hex("out", m);
            } else if (v == "ret") {
                r.hex("out", t.invert_mult(m, k));
            } else {
                show(r, t.invert_mult(to_msg(m), k));
            }
        }
    } else if (op == "peval") {
        std::string v = a.s();
        auto&       t = slot<PoolObj>(a.s()).o;
        std::string m = a.b();
        uint8_t     k = static_cast<uint8_t>(a.u());
        if (v == "str") {
            std::string o = "previous";
            t.eval(m, o, k);
            r.hex("out", o);
        } else if (v == "ret") {
            r.hex("out", t.eval(m, k));
        } else {
            show(r, t.eval(to_msg(m), k));
        }
    } else { // pub, sample, eval, gen: <class> <overload> <slot> ...
        std::string kind = a.s();
        std::string v    = a.s();
        std::string s    = a.s();
        if (kind == "t") {
            shared_op(slot<TdpObj>(s).o, op, v, a, r);
        } else if (kind == "i") {
            shared_op(slot<InvObj>(s).o, op, v, a, r);
        } else {
            shared_op(slot<PoolObj>(s).o, op, v, a, r);
        }
    }
});
