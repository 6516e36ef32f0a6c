// Calls with inputs or outputs of more than 4 GB, of which windows are reported.
#include "objs.hpp"

#include <sse/crypto/random.hpp>
#include <sse/crypto/utils.hpp>

static std::string cls(const std::function<void()>& f)
{
    try {
        f();
    } catch (const std::invalid_argument&) {
        return "invalid_argument";
    } catch (const std::runtime_error&) {
        return "runtime_error";
    } catch (const std::exception&) {
        return "exception";
    }
    return "ok";
}
// length, the first and last 64 bytes, and whether there are only zeros between them
static void describe(Res& r, const uint8_t* p, size_t n)
{
    r.str("olen", std::to_string(n));
    if (n >= 128) {
        r.hex("ohead", p, 64);
        r.hex("otail", p + n - 64, 64);
        r.boolean("zero", all_zero(p + 64, n - 128));
    }
}
static void windows(Res& r, const uint8_t* p, size_t n, size_t mid)
{
    r.str("olen", std::to_string(n));
    if (n >= mid + 64) {
        r.hex("w0", p, 64);
        r.hex("wm", p + mid, 64);
        r.hex("we", p + n - 64, 64);
    }
}
static Reg big_reg("big", [](Args& a, Res& r) {
    std::string op = a.s();
    if (op == "prg") {
        std::string v   = a.s();
        auto&       g   = slot<PrgObj>(a.s()).o;
        size_t      off = a.u();
        size_t      n   = a.u();
        size_t      mid = a.u();
        if (v == "raw") {
            std::unique_ptr<uint8_t[]> o(new uint8_t[n + 8]);
            memset(o.get() + n, 0xEE, 8);
            g.derive(off, n, o.get());
            windows(r, o.get(), n, mid);
            r.hex("over", o.get() + n, 8);
        } else {
            std::string o;
            g.derive(off, n, o);
            windows(r, uc(o), o.size(), mid);
        }
    } else if (op == "random") {
        size_t                     n   = a.u();
        size_t                     mid = a.u();
        std::unique_ptr<uint8_t[]> o(new uint8_t[n + 8]);
        memset(o.get() + n, 0xEE, 8);
        ct::random_bytes(n, o.get());
        windows(r, o.get(), n, mid);
        r.hex("over", o.get() + n, 8);
    } else if (op == "cipher") {
        auto&       c    = slot<CipherObj>(a.s()).o;
        std::string m    = a.b();
        size_t      flip = a.u();
        std::string x;
        c.encrypt(m, x);
        std::string().swap(m);
        r.str("clen", std::to_string(x.size()));
        if (x.size() < 256) {
            return;
        }
        r.hex("head", x.data(), 80);
        r.hex("tail", x.data() + x.size() - 48, 48);
        std::string o;
        x[flip] = static_cast<char>(x[flip] ^ 4);
        r.str("flipped", cls([&] { c.decrypt(x, o); }));
        x[flip] = static_cast<char>(x[flip] ^ 4);
        c.decrypt(x, o);
        describe(r, uc(o), o.size());
    } else if (op == "prp") {
        std::string v = a.s();
        auto&       p = slot<PrpObj>(a.s()).o;
        std::string m = a.b();
        if (v == "encstr") {
            std::string o;
            p.encrypt(m, o);
            describe(r, uc(o), o.size());
        } else if (v == "decstr") {
            std::string o;
            p.decrypt(m, o);
            describe(r, uc(o), o.size());
        } else { // there and back
            std::string o, q;
            p.encrypt(m, o);
            r.boolean("same", o == m);
            std::string().swap(m);
            p.decrypt(o, q);
            describe(r, uc(q), q.size());
        }
    } else if (op == "str") {
        std::string h = a.b();
        std::string n = a.b();
        auto*       p = ct::strstrn_uint8(uc(h), h.size(), uc(n), n.size());
        r.str("out", p == nullptr ? std::string("-1") : std::to_string(p - uc(h)));
    } else {
        bad("big op " + op);
    }
});
