#include "objs.hpp"

#include <sse/crypto/random.hpp>
#include <sys/wait.h>
#include <sse/crypto/set_hash.hpp>
#include <sse/crypto/utils.hpp>

#include <sstream>

// -------------------------------------------------------------- prp
static Reg prp_reg("prp", [](Args& a, Res& r) {
    std::string op = a.s();
    if (op == "new") {
        std::string s = a.s();
        auto&       k = slot<KeyObj<48>>(a.s());
        put(s, new PrpObj(ct::Prp(std::move(k.k))));
        return;
    }
    if (op == "rand") {
        put(a.s(), new PrpObj(ct::Prp()));
        return;
    }
    if (op == "move") {
        auto& src = slot<PrpObj>(a.s());
        put(a.s(), new PrpObj(ct::Prp(std::move(src.o))));
        return;
    }
    if (op == "avail") {
        r.boolean("out", ct::Prp::is_available());
        return;
    }
    auto& p = slot<PrpObj>(a.s()).o;
    if (op == "enc32") {
        r.str("out", std::to_string(p.encrypt(static_cast<uint32_t>(a.u()))));
    } else if (op == "dec32") {
        r.str("out", std::to_string(p.decrypt(static_cast<uint32_t>(a.u()))));
    } else if (op == "enc64") {
        r.str("out", std::to_string(p.encrypt_64(a.u())));
    } else if (op == "dec64") {
        r.str("out", std::to_string(p.decrypt_64(a.u())));
    } else if (op == "table1" || op == "table1d") { // the whole 1-byte domain
        std::string t;
        for (int x = 0; x < 256; x++) {
            uint8_t i = static_cast<uint8_t>(x), o = 0;
            if (op == "table1") {
                p.encrypt(&i, 1, &o);
            } else {
                p.decrypt(&i, 1, &o);
            }
            t.push_back(static_cast<char>(o));
        }
        r.hex("out", t);
    } else if (op == "table2" || op == "table2d") { // a slice of the 2-byte domain
        unsigned    lo = static_cast<unsigned>(a.u());
        unsigned    n  = static_cast<unsigned>(a.u());
        std::string t;
        for (unsigned x = lo; x < lo + n; x++) {
            uint8_t i[2] = {static_cast<uint8_t>(x >> 8), static_cast<uint8_t>(x)};
            uint8_t o[2] = {0, 0};
            if (op == "table2") {
                p.encrypt(i, 2, o);
            } else {
                p.decrypt(i, 2, o);
            }
            t.push_back(static_cast<char>(o[0]));
            t.push_back(static_cast<char>(o[1]));
        }
        r.hex("out", t);
    } else {
        std::string m = a.b();
        if (op == "encstr") {
            std::string o = "previous";
            p.encrypt(m, o);
            r.hex("out", o);
        } else if (op == "encret") {
            r.hex("out", p.encrypt(m));
        } else if (op == "encalias") {
            p.encrypt(m, m);
            r.hex("out", m);
        } else if (op == "encraw") {
            Exact in(m);
            Exact out(m.size() + 8, 0xEE);
            p.encrypt(in.p, static_cast<unsigned>(in.n), out.p);
            r.hex("out", out.p, in.n);
            r.hex("over", out.p + in.n, 8);
            r.hex("in", in.p, in.n);
        } else if (op == "decstr") {
            std::string o = "previous";
            p.decrypt(m, o);
            r.hex("out", o);
        } else if (op == "decret") {
            r.hex("out", p.decrypt(m));
        } else if (op == "decalias") {
            p.decrypt(m, m);
            r.hex("out", m);
        } else if (op == "decraw") {
            Exact in(m);
            Exact out(m.size() + 8, 0xEE);
            p.decrypt(in.p, static_cast<unsigned>(in.n), out.p);
            r.hex("out", out.p, in.n);
            r.hex("over", out.p + in.n, 8);
            r.hex("in", in.p, in.n);
        } else {
            bad("prp op " + op);
        }
    }
});

// -------------------------------------------------------------- set hash
struct SetObj : Obj
{
    ct::SetHash o;
    explicit SetObj(const ct::SetHash& x) : o(x)
    {
    }
};
static Reg set_reg("set", [](Args& a, Res& r) {
    std::string op = a.s();
    std::string s  = a.s();
    auto        show = [&r](const ct::SetHash& h) { r.hex("out", h.data().data(), h.data().size()); };
    if (op == "new") {
        put(s, new SetObj(ct::SetHash()));
    } else if (op == "vec") {
        std::vector<std::string> v;
        while (a.more()) {
            v.push_back(a.b());
        }
        put(s, new SetObj(ct::SetHash(v)));
    } else if (op == "bytes") {
        std::string                 m = a.b();
        std::array<uint8_t, 32> b;
        memcpy(b.data(), m.data(), 32);
        put(s, new SetObj(ct::SetHash(b)));
    } else if (op == "copy") {
        ct::SetHash c(slot<SetObj>(a.s()).o);
        put(s, new SetObj(c));
    } else if (op == "movector") {
        ct::SetHash t(slot<SetObj>(a.s()).o);
        ct::SetHash c(std::move(t));
        put(s, new SetObj(c));
    } else if (op == "assign") {
        slot<SetObj>(s).o = slot<SetObj>(a.s()).o;
    } else if (op == "add") {
        slot<SetObj>(s).o.add_element(a.b());
    } else if (op == "rem") {
        slot<SetObj>(s).o.remove_element(a.b());
    } else if (op == "addset") {
        slot<SetObj>(s).o.add_set(slot<SetObj>(a.s()).o);
    } else if (op == "remset") {
        slot<SetObj>(s).o.remove_set(slot<SetObj>(a.s()).o);
    } else if (op == "eq") {
        auto& x = slot<SetObj>(s).o;
        auto& y = slot<SetObj>(a.s()).o;
        r.boolean("eq", x == y);
        r.boolean("ne", x != y);
    } else if (op == "print") {
        std::ostringstream os;
        os << std::uppercase << slot<SetObj>(s).o << " " << 255;
        r.str("text", os.str());
    } else {
        bad("set op " + op);
    }
    show(slot<SetObj>(s).o);
});

// -------------------------------------------------------------- utils, random
static Reg strstr_reg("strstrn", [](Args& a, Res& r) {
    std::string h = a.b();
    std::string n = a.b();
    Exact       eh(h), en(n);
    auto*       p = ct::strstrn_uint8(eh.p, eh.n, en.p, en.n);
    r.num("out", p == nullptr ? -1 : static_cast<long>(p - eh.p));
});
static Reg random_reg("random", [](Args& a, Res& r) {
    std::string op = a.s();
    size_t      n  = a.u();
    if (op == "bytes") {
        Exact o(n + 8, 0xEE);
        ct::random_bytes(n, o.p);
        r.hex("out", o.p, n);
        r.hex("over", o.p + n, 8);
    } else if (op == "str") {
        r.hex("out", ct::random_string(n));
    } else if (op == "arr") {
        auto x = ct::random_bytes<uint8_t, 32>();
        r.hex("out", x.data(), 32);
    } else if (op == "arr64") {
        std::array<uint64_t, 4> x;
        x.fill(0);
        ct::random_bytes(x);
        r.hex("out", x.data(), 32);
    } else if (op == "fork") {
        // the parent and a child that go on from the same state
        int fd[2];
        if (pipe(fd) != 0) {
            bad("pipe");
        }
        pid_t pid = fork();
        if (pid < 0) {
            bad("fork");
        }
        std::string x = ct::random_string(n);
        if (pid == 0) {
            ssize_t k = write(fd[1], x.data(), x.size());
            _exit(k == static_cast<ssize_t>(x.size()) ? 0 : 1);
        }
        close(fd[1]);
        std::string y;
        char        b[256];
        ssize_t     k;
        while ((k = read(fd[0], b, sizeof b)) > 0) {
            y.append(b, static_cast<size_t>(k));
        }
        close(fd[0]);
        int st;
        waitpid(pid, &st, 0);
        r.hex("out", x);
        r.hex("child", y);
    } else {
        bad("random op");
    }
});

// ---------------------------------------------------------- processes
// fork: a child goes on serving the client, from this state, until exit; then its parent does, from the state it was in
static Reg proc_reg("proc", [](Args& a, Res&) {
    if (a.s() == "exit") {
        _exit(0);
    }
    fflush(nullptr);
    pid_t pid = fork();
    if (pid < 0) {
        bad("fork");
    }
    if (pid > 0) {
        int st = 0;
        while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {
        }
        if (st != 0) {
            _exit(WIFEXITED(st) ? WEXITSTATUS(st) : 128 + WTERMSIG(st));
        }
    }
});

// ---------------------------------------------------------- library
// cleaned up and initialised again, or only initialised again
static Reg lib_reg("lib", [](Args& a, Res&) {
    if (a.s() == "again") {
        sse::crypto::cleanup_crypto_lib();
    }
    sse::crypto::init_crypto_lib();
});
