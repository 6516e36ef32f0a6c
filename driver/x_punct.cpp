// Puncturable encryption (built against the stand-in for RELIC only).
#include "objs.hpp"

#include "ppke/GMPpke.hpp"
#include <sse/crypto/puncturable_enc.hpp>

struct PencObj : Obj
{
    ct::PuncturableEncryption o;
    explicit PencObj(ct::punct::master_key_type&& k) : o(std::move(k))
    {
    }
};
struct PdecObj : Obj
{
    ct::PuncturableDecryption o;
    explicit PdecObj(const ct::punct::punctured_key_type& k) : o(k)
    {
    }
};
struct SeenKey : ct::GmppkePrivateKey
{
    using ct::GmppkePrivateKey::shares;
};
struct PpkeObj : Obj
{
    ct::Gmppke                 p;
    ct::GmppkePublicKey        pk;
    SeenKey                    sk;
    ct::GmppkeSecretParameters sp;
};
static ct::punct::tag_type tag_of(const std::string& b)
{
    ct::punct::tag_type t;
    if (b.size() != t.size()) {
        bad("tag size");
    }
    memcpy(t.data(), b.data(), t.size());
    return t;
}
template<class A>
static void answer(Res& r, const A& x)
{
    auto t = ct::punct::extract_tag(x);
    r.hex("out", x.data(), x.size());
    r.hex("tag", t.data(), t.size());
}

static Reg penc_reg("penc", [](Args& a, Res& r) {
    std::string op = a.s();
    if (op == "new") {
        std::string s = a.s();
        auto&       k = slot<KeyObj<32>>(a.s());
        put(s, new PencObj(std::move(k.k)));
    } else if (op == "enc") {
        auto&    o = slot<PencObj>(a.s()).o;
        uint64_t v = a.u();
        answer(r, o.encrypt(v, tag_of(a.b())));
    } else if (op == "init") {
        auto& o = slot<PencObj>(a.s()).o;
        answer(r, o.initial_keyshare(a.u()));
    } else if (op == "inc") {
        auto&    o = slot<PencObj>(a.s()).o;
        uint64_t d = a.u();
        answer(r, o.inc_puncture(d, tag_of(a.b())));
    } else {
        bad("penc " + op);
    }
});
static Reg pdec_reg("pdec", [](Args& a, Res& r) {
    std::string op = a.s();
    std::string s  = a.s();
    if (op == "new") {
        ct::punct::punctured_key_type k;
        while (a.more()) {
            std::string               b = a.b();
            ct::punct::key_share_type x;
            if (b.size() != x.size()) {
                bad("share size");
            }
            memcpy(x.data(), b.data(), x.size());
            k.push_back(x);
        }
        put(s, new PdecObj(k));
    } else if (op == "dec") {
        auto&                      o = slot<PdecObj>(s).o;
        std::string                b = a.b();
        ct::punct::ciphertext_type x;
        uint64_t                   m = 0x5a5a5a5a5a5a5a5aULL;
        if (b.size() != x.size()) {
            bad("ciphertext size");
        }
        memcpy(x.data(), b.data(), x.size());
        bool ok = o.decrypt(x, m);
        r.boolean("done", ok);
        r.str("out", std::to_string(m));
    } else {
        bad("pdec " + op);
    }
});
// the public-key scheme underneath
static Reg ppke_reg("ppke", [](Args& a, Res& r) {
    std::string op = a.s();
    std::string s  = a.s();
    if (op == "gen") {
        std::unique_ptr<PpkeObj> o(new PpkeObj());
        o->p.keygen(o->pk, o->sk, o->sp);
        put(s, o.release());
    } else if (op == "genkey") {
        std::unique_ptr<PpkeObj> o(new PpkeObj());
        o->p.keygen(std::move(slot<KeyObj<32>>(a.s()).k), o->pk, o->sk, o->sp);
        put(s, o.release());
    } else if (op == "puncture") {
        auto& o = slot<PpkeObj>(s);
        o.p.puncture(o.pk, o.sk, tag_of(a.b()));
    } else if (op == "asks") {
        auto& o = slot<PpkeObj>(s);
        r.boolean("on", o.sk.isPuncturedOnTag(tag_of(a.b())));
        r.boolean("any", o.sk.punctured());
    } else if (op == "shares") {
        auto&       o = slot<PpkeObj>(s);
        std::string all;
        for (const auto& x : o.sk.shares) {
            ct::punct::key_share_type b;
            x.writeBytes(b.data());
            all.append(reinterpret_cast<const char*>(b.data()), b.size());
        }
        r.hex("out", all.data(), all.size());
    } else if (op == "encpk" || op == "encsp") {
        auto&                    o = slot<PpkeObj>(s);
        uint64_t                 v = a.u();
        auto                     t = tag_of(a.b());
        ct::GmmppkeCT<uint64_t>  c = op == "encpk" ? o.p.encrypt<uint64_t>(o.pk, v, t) : o.p.encrypt<uint64_t>(o.sp, v, t);
        ct::punct::ciphertext_type x;
        c.writeBytes(x.data());
        answer(r, x);
    } else if (op == "dec" || op == "decm") {
        auto&       o = slot<PpkeObj>(s);
        std::string b = a.b();
        if (b.size() != ct::punct::kCiphertextSize) {
            bad("ciphertext size");
        }
        ct::GmmppkeCT<uint64_t> c(reinterpret_cast<const uint8_t*>(b.data()));
        uint64_t                m = 0;
        if (op == "dec") {
            m = o.p.decrypt(o.sk, c);
            r.boolean("done", true);
            r.str("out", std::to_string(m));
        } else {
            m       = 0x5a5a5a5a5a5a5a5aULL;
            bool ok = o.p.decrypt(o.sk, c, m);
            r.boolean("done", ok);
            r.str("out", std::to_string(m));
        }
    } else {
        bad("ppke " + op);
    }
});
