// Test driver for crypto-tk: executes a script of API calls, one per input
// line, and prints one JSON result per line.  It judges nothing: the TLA+
// specification does.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <array>
#include <functional>
#include <map>
#include <memory>
#include <new>
#include <stdexcept>
#include <string>
#include <vector>
#include <unistd.h>

struct Obj
{
    virtual ~Obj() = default;
    const void* type = nullptr;
};
// identifies a class (the library is built without RTTI)
template<class T>
inline const void* type_tag()
{
    static char c;
    return &c;
}
using Slots = std::map<std::string, std::unique_ptr<Obj>>;
extern thread_local Slots g_slots;
// what the commands of this thread have answered ("out"), with --threads
extern thread_local std::vector<std::string> g_outs;

namespace secmem {
// plain allocations fail on purpose only inside the library's part of a call
void enter_call(bool in);
} // namespace secmem

struct Res
{
    std::string body;
    void        str(const char* k, const std::string& v)
    {
        secmem::enter_call(false);
        body += ",\"";
        body += k;
        body += "\":\"" + v + "\"";
    }
    void num(const char* k, long v)
    {
        secmem::enter_call(false);
        body += ",\"";
        body += k;
        body += "\":" + std::to_string(v);
    }
    void raw(const char* k, const std::string& v)
    {
        secmem::enter_call(false);
        body += ",\"";
        body += k;
        body += "\":" + v;
    }
    void boolean(const char* k, bool v)
    {
        raw(k, v ? "true" : "false");
    }
    void hex(const char* k, const void* p, size_t n)
    {
        static const char* H = "0123456789abcdef";
        secmem::enter_call(false);
        std::string    s;
        const uint8_t* b = static_cast<const uint8_t*>(p);
        s.reserve(2 * n);
        for (size_t i = 0; i < n; i++) {
            s.push_back(H[b[i] >> 4]);
            s.push_back(H[b[i] & 15]);
        }
        str(k, s);
    }
    void hex(const char* k, const std::string& v)
    {
        hex(k, v.data(), v.size());
    }
};

struct Args
{
    std::vector<std::string> t;
    size_t                   i = 0;
    const std::string&       next()
    {
        if (i >= t.size()) {
            fprintf(stderr, "driver: missing argument for %s\n", t[0].c_str());
            fflush(stderr);
            _exit(90);
        }
        return t[i++];
    }
    bool more() const
    {
        return i < t.size();
    }
    std::string s()
    {
        return next();
    }
    uint64_t u()
    {
        return strtoull(next().c_str(), nullptr, 10);
    }
    // "-" is the empty byte string
    std::string b()
    {
        std::string h = next();
        std::string r;
        if (h[0] == '$') {
            char*  end = nullptr;
            size_t k   = strtoull(h.c_str() + 1, &end, 10);
            long   bit = *end == '~' ? atol(end + 1) : -1;
            h          = k < g_outs.size() && !g_outs[k].empty() ? g_outs[k] : std::string(80, '0');
            if (bit >= 0) {
                static const char* H = "0123456789abcdef";
                size_t             i = static_cast<size_t>(bit) % (4 * h.size());
                char&              c = h[i / 8 * 2 + (i % 8 < 4 ? 1 : 0)];
                int                x = (c >= 'a') ? (c - 'a' + 10) : (c - '0');
                c                    = H[x ^ (1 << (i % 4))];
            }
        }
        if (h == "-") {
            return r;
        }
        auto v = [](char c) {
            return (c >= 'a') ? (c - 'a' + 10) : (c - '0');
        };
        size_t z = h.find('('); // "(n)": n zero bytes
        r.reserve(h.size() / 2 + (z == std::string::npos ? 0 : strtoull(h.c_str() + z + 1, nullptr, 10)));
        for (size_t k = 0; k + 1 < h.size(); k += 2) {
            if (h[k] == '(') {
                r.append(strtoull(h.c_str() + k + 1, nullptr, 10), '\0');
                k = h.find(')', k) - 1;
                continue;
            }
            r.push_back(static_cast<char>(v(h[k]) * 16 + v(h[k + 1])));
        }
        return r;
    }
};

using Handler = std::function<void(Args&, Res&)>;
std::map<std::string, Handler>& handlers();
struct Reg
{
    Reg(const char* name, Handler h)
    {
        handlers()[name] = h;
    }
};
[[noreturn]] void bad(const std::string& what); // misuse of the driver itself

template<class T>
T& slot(const std::string& s)
{
    auto it = g_slots.find(s);
    if (it == g_slots.end() || !it->second) {
        bad("no slot " + s);
    }
    if (it->second->type != type_tag<T>()) {
        bad("slot " + s + " holds something else");
    }
    return static_cast<T&>(*it->second);
}
template<class T>
void put(const std::string& s, T* o)
{
    secmem::enter_call(false);
    std::unique_ptr<Obj> p(o);
    o->type    = type_tag<T>();
    g_slots[s] = std::move(p);
}
inline bool has(const std::string& s)
{
    auto it = g_slots.find(s);
    return it != g_slots.end() && it->second;
}
inline const unsigned char* uc(const std::string& s)
{
    return reinterpret_cast<const unsigned char*>(s.data());
}

// A heap copy of exactly the given size, so that the sanitizer sees any access
// past its end.
struct Exact
{
    unsigned char* p;
    size_t         n;
    explicit Exact(const std::string& s) : p(new unsigned char[s.size()]), n(s.size())
    {
        if (n > 0) {
            memcpy(p, s.data(), n);
        }
    }
    explicit Exact(size_t k, int fill) : p(new unsigned char[k]), n(k)
    {
        memset(p, fill, k);
    }
    Exact(const Exact&) = delete;
    ~Exact()
    {
        delete[] p;
    }
};

// ---- secure-memory monitor (interposed libsodium allocator), see secmem.cpp
namespace secmem {
struct Snapshot
{
    unsigned live;      // allocations not yet freed
    unsigned readable;  // of these, how many the process can currently read
    unsigned allocs;    // allocations so far
    unsigned frees;     // frees so far
    unsigned badfree;   // frees of something not live
};
Snapshot snapshot();
// bytes of live allocations summed up
size_t live_bytes();
// fault plan: the n-th next allocation / protection call fails (0: never)
void plan_alloc_failure(int nth);
// a plain allocation (operator new) during a call fails
void plan_new_failure(int nth);
void enter_call(bool in);
void plan_protect_failure(int nth, int err);
int  faults_hit();
// does any readable, non-stack memory of the process hold this byte string?
// (given masked with 0x5a so that the driver itself does not hold it)
bool find_in_memory(const std::string& masked);
// sets aside what the call left on the stack below this frame, when watched
void keep_dead_stack();
// content of the most recent live allocation (made readable for the occasion)
std::string peek_last(size_t n);
} // namespace secmem
