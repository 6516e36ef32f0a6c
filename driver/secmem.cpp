// Interposes libsodium's guarded allocator: every allocation of secure memory
// made by the library is recorded, its protection is observed by asking the
// kernel, and failures can be injected.
#include "common.hpp"

#include <cerrno>
#include <dlfcn.h>
#include <sodium.h>
#include <fcntl.h>
#include <mutex>
#include <sys/mman.h>
#include <unistd.h>
#if defined(__has_include)
#if __has_include(<valgrind/memcheck.h>)
#include <valgrind/memcheck.h>
#endif
#endif
#ifndef VALGRIND_MAKE_MEM_UNDEFINED
#define VALGRIND_MAKE_MEM_UNDEFINED(p, n) 0
#endif

namespace secmem {
struct Region
{
    void*  p;
    size_t n;
    bool   live;
};
// fixed storage: no allocation from inside the allocator hooks
static constexpr size_t kMax = 1 << 18;
static Region*          g_reg;
static size_t           g_nreg;
static unsigned         g_live, g_allocs, g_frees, g_badfree;
static std::mutex       g_mu;
static thread_local int g_depth;
static int              g_fail_alloc, g_fail_prot, g_fail_errno, g_hits;
static bool             g_nosys;
static thread_local bool g_in_call;
static int              g_fail_new;
void enter_call(bool in)
{
    g_in_call = in;
}
void plan_new_failure(int nth)
{
    g_fail_new = nth;
    g_hits     = 0;
}
bool fail_new()
{
    if (g_in_call && g_fail_new > 0 && --g_fail_new == 0) {
        g_hits++;
        return true;
    }
    return false;
}

template<class F>
static F real(const char* name)
{
    void* p = dlsym(RTLD_NEXT, name);
    if (p == nullptr) {
        bad(std::string("no real ") + name);
    }
    F f;
    memcpy(&f, &p, sizeof f);
    return f;
}
static void note_alloc(void* p, size_t n)
{
    std::lock_guard<std::mutex> l(g_mu);
    if (g_reg == nullptr) {
        g_reg = static_cast<Region*>(calloc(kMax, sizeof(Region)));
    }
    if (g_nreg >= kMax) {
        // reuse dead entries
        size_t k = 0;
        for (size_t i = 0; i < g_nreg; i++) {
            if (g_reg[i].live) {
                g_reg[k++] = g_reg[i];
            }
        }
        g_nreg = k;
        if (g_nreg >= kMax) {
            bad("too many live secure allocations");
        }
    }
    g_reg[g_nreg++] = Region{p, n, true};
    g_live++;
    g_allocs++;
}
static bool note_free(void* p)
{
    std::lock_guard<std::mutex> l(g_mu);
    for (size_t i = g_nreg; i-- > 0;) {
        if (g_reg[i].live && g_reg[i].p == p) {
            g_reg[i].live = false;
            if (i + 1 == g_nreg) {
                g_nreg--;
            }
            g_live--;
            g_frees++;
            return true;
        }
    }
    g_badfree++;
    return false;
}
static bool readable(const void* p)
{
    static int fd[2] = {-1, -1};
    if (fd[0] < 0 && pipe2(fd, O_CLOEXEC | O_NONBLOCK) != 0) {
        bad("pipe");
    }
    char c;
    if (write(fd[1], p, 1) == 1) {
        if (read(fd[0], &c, 1) != 1) {
            bad("pipe read");
        }
        return true;
    }
    return false;
}
static bool fail_alloc()
{
    std::lock_guard<std::mutex> l(g_mu);
    if (g_fail_alloc > 0 && --g_fail_alloc == 0) {
        g_hits++;
        return true;
    }
    return false;
}
static int fail_prot()
{
    std::lock_guard<std::mutex> l(g_mu);
    if (g_nosys) {
        return ENOSYS;
    }
    if (g_fail_prot > 0 && --g_fail_prot == 0) {
        g_hits++;
        return g_fail_errno;
    }
    return 0;
}
Snapshot snapshot()
{
    std::lock_guard<std::mutex> l(g_mu);
    unsigned                    rd = 0;
    for (size_t i = 0; i < g_nreg; i++) {
        if (g_reg[i].live && readable(g_reg[i].p)) {
            rd++;
        }
    }
    return Snapshot{g_live, rd, g_allocs, g_frees, g_badfree};
}
size_t live_bytes()
{
    std::lock_guard<std::mutex> l(g_mu);
    size_t                      s = 0;
    for (size_t i = 0; i < g_nreg; i++) {
        s += g_reg[i].live ? g_reg[i].n : 0;
    }
    return s;
}
void plan_alloc_failure(int nth)
{
    std::lock_guard<std::mutex> l(g_mu);
    g_fail_alloc = nth;
    g_hits       = 0;
}
void plan_protect_failure(int nth, int err)
{
    std::lock_guard<std::mutex> l(g_mu);
    g_fail_prot  = nth;
    g_fail_errno = err;
    g_hits       = 0;
}
int faults_hit()
{
    std::lock_guard<std::mutex> l(g_mu);
    return g_hits;
}

static constexpr size_t kDead = 96 * 1024, kCalls = 24;
static uint8_t*         g_dead;
static size_t           g_ndead;
static bool             g_watch_stack;

__attribute__((noinline, no_sanitize("address", "undefined", "thread"))) void keep_dead_stack()
{
    if (!g_watch_stack || g_ndead >= kCalls) {
        return;
    }
    const volatile uint64_t* top = static_cast<const volatile uint64_t*>(__builtin_frame_address(0));
    volatile uint64_t*       to  = reinterpret_cast<volatile uint64_t*>(g_dead + kDead * g_ndead++);
    top -= kDead / 8 + 16;
    for (size_t i = 0; i < kDead / 8; i++) {
        to[i] = top[i];
    }
}
__attribute__((noinline, no_sanitize("address", "undefined", "thread"))) void wipe_dead_stack()
{
    if (!g_watch_stack) {
        return;
    }
    volatile uint64_t a[1024];
    for (size_t i = 0; i < 1024; i++) {
        a[i] = 0;
    }
}
static bool find_in_range(const uint8_t* q, const uint8_t* end, const uint8_t* m, size_t n)
{
    const uint8_t first = m[0] ^ 0x5a;
    while (q + n <= end) {
        q = static_cast<const uint8_t*>(memchr(q, first, static_cast<size_t>(end - q) - n + 1));
        if (q == nullptr) {
            break;
        }
        size_t i = 1;
        while (i < n && (q[i] ^ 0x5a) == m[i]) {
            i++;
        }
        if (i == n) {
            return true;
        }
        q++;
    }
    return false;
}
bool find_on_stack(const std::string& masked)
{
    return g_dead != nullptr && find_in_range(g_dead, g_dead + kDead * g_ndead, reinterpret_cast<const uint8_t*>(masked.data()), masked.size());
}
bool find_in_memory(const std::string& masked)
{
    // no heap copy of anything unmasked is made here
    int fd = open("/proc/self/maps", O_RDONLY | O_CLOEXEC);
    if (fd < 0) {
        bad("maps");
    }
    std::string maps;
    char        buf[4096];
    ssize_t     k;
    while ((k = read(fd, buf, sizeof buf)) > 0) {
        maps.append(buf, static_cast<size_t>(k));
    }
    close(fd);
    size_t         p     = 0;
    const uint8_t* m     = reinterpret_cast<const uint8_t*>(masked.data());
    const size_t   n     = masked.size();
    while (p < maps.size()) {
        size_t e = maps.find('\n', p);
        if (e == std::string::npos) {
            e = maps.size();
        }
        std::string l = maps.substr(p, e - p);
        p             = e + 1;
        unsigned long lo, hi;
        char          perm[8];
        if (sscanf(l.c_str(), "%lx-%lx %7s", &lo, &hi, perm) != 3 || perm[0] != 'r' || perm[1] != 'w') {
            continue; // only memory the program can have written
        }
        if (l.find("[stack") != std::string::npos || l.find("[v") != std::string::npos) {
            continue;
        }
        if (g_dead != nullptr && lo <= reinterpret_cast<uintptr_t>(g_dead) && reinterpret_cast<uintptr_t>(g_dead) < hi) {
            continue;
        }
        if (find_in_range(reinterpret_cast<const uint8_t*>(lo), reinterpret_cast<const uint8_t*>(hi), m, n)) {
            return true;
        }
    }
    return false;
}
std::string peek_last(size_t n)
{
    static auto ro = real<int (*)(void*)>("sodium_mprotect_readonly");
    static auto no = real<int (*)(void*)>("sodium_mprotect_noaccess");
    std::lock_guard<std::mutex> l(g_mu);
    for (size_t i = g_nreg; i-- > 0;) {
        if (g_reg[i].live && g_reg[i].n == n) {
            bool was = readable(g_reg[i].p);
            if (!was) {
                ro(g_reg[i].p);
            }
            std::string r(static_cast<const char*>(g_reg[i].p), n);
            if (!was) {
                no(g_reg[i].p);
            }
            return r;
        }
    }
    return std::string();
}
} // namespace secmem

#ifndef NO_INTERPOSE
extern "C" {
void* sodium_malloc(const size_t n)
{
    static auto f = secmem::real<void* (*)(size_t)>("sodium_malloc");
    if (secmem::g_depth > 0) {
        return f(n);
    }
    if (secmem::fail_alloc()) {
        errno = ENOMEM;
        return nullptr;
    }
    secmem::g_depth++;
    void* p = f(n);
    secmem::g_depth--;
    if (p != nullptr) {
        secmem::note_alloc(p, n);
        (void)VALGRIND_MAKE_MEM_UNDEFINED(p, n);
    }
    return p;
}
void* sodium_allocarray(size_t c, size_t s)
{
    static auto f = secmem::real<void* (*)(size_t, size_t)>("sodium_allocarray");
    if (secmem::fail_alloc()) {
        errno = ENOMEM;
        return nullptr;
    }
    secmem::g_depth++;
    void* p = f(c, s);
    secmem::g_depth--;
    if (p != nullptr) {
        secmem::note_alloc(p, c * s);
        (void)VALGRIND_MAKE_MEM_UNDEFINED(p, c * s);
    }
    return p;
}
void sodium_free(void* p)
{
    static auto f = secmem::real<void (*)(void*)>("sodium_free");
    if (secmem::g_depth == 0 && p != nullptr) {
        if (!secmem::note_free(p)) {
            return; // a double free is recorded, not executed
        }
    }
    secmem::g_depth++;
    f(p);
    secmem::g_depth--;
}
#define PROT(name)                                                                                \
    int name(void* p)                                                                             \
    {                                                                                             \
        static auto f = secmem::real<int (*)(void*)>(#name);                                      \
        if (secmem::g_depth == 0) {                                                               \
            int e = secmem::fail_prot();                                                          \
            if (e != 0) {                                                                         \
                errno = e;                                                                        \
                return -1;                                                                        \
            }                                                                                     \
        }                                                                                         \
        secmem::g_depth++;                                                                        \
        int r = f(p);                                                                             \
        int s = errno;                                                                            \
        secmem::g_depth--;                                                                        \
        errno = s;                                                                                \
        return r;                                                                                 \
    }
PROT(sodium_mprotect_noaccess)
PROT(sodium_mprotect_readonly)
PROT(sodium_mprotect_readwrite)

// libsodium's Blake2b leaves its result in a frame of its own; that is not the
// library's doing, so it is erased here before the library continues
int crypto_generichash_blake2b(unsigned char* out, size_t outlen, const unsigned char* in, unsigned long long inlen, const unsigned char* key, size_t keylen)
{
    static auto f = secmem::real<int (*)(unsigned char*, size_t, const unsigned char*, unsigned long long, const unsigned char*, size_t)>("crypto_generichash_blake2b");
    int r = f(out, outlen, in, inlen, key, keylen);
    secmem::wipe_dead_stack();
    return r;
}
int crypto_generichash(unsigned char* out, size_t outlen, const unsigned char* in, unsigned long long inlen, const unsigned char* key, size_t keylen)
{
    static auto f = secmem::real<int (*)(unsigned char*, size_t, const unsigned char*, unsigned long long, const unsigned char*, size_t)>("crypto_generichash");
    int r = f(out, outlen, in, inlen, key, keylen);
    secmem::wipe_dead_stack();
    return r;
}
int crypto_generichash_blake2b_salt_personal(unsigned char* out, size_t outlen, const unsigned char* in, unsigned long long inlen, const unsigned char* key, size_t keylen, const unsigned char* salt, const unsigned char* personal)
{
    static auto f = secmem::real<int (*)(unsigned char*, size_t, const unsigned char*, unsigned long long, const unsigned char*, size_t, const unsigned char*, const unsigned char*)>("crypto_generichash_blake2b_salt_personal");
    int r = f(out, outlen, in, inlen, key, keylen, salt, personal);
    secmem::wipe_dead_stack();
    return r;
}
int crypto_generichash_blake2b_final(crypto_generichash_blake2b_state* st, unsigned char* out, const size_t outlen)
{
    static auto f = secmem::real<int (*)(crypto_generichash_blake2b_state*, unsigned char*, size_t)>("crypto_generichash_blake2b_final");
    int r = f(st, out, outlen);
    secmem::wipe_dead_stack();
    return r;
}
int crypto_generichash_final(crypto_generichash_state* st, unsigned char* out, const size_t outlen)
{
    static auto f = secmem::real<int (*)(crypto_generichash_state*, unsigned char*, size_t)>("crypto_generichash_final");
    int r = f(st, out, outlen);
    secmem::wipe_dead_stack();
    return r;
}
}
#endif

#ifndef SANITIZED
// the program's heap (operator new), for failures of plain allocations
void* operator new(size_t n)
{
    if (secmem::fail_new()) {
        throw std::bad_alloc();
    }
    void* p = malloc(n == 0 ? 1 : n);
    if (p == nullptr) {
        throw std::bad_alloc();
    }
    return p;
}
void* operator new[](size_t n)
{
    return operator new(n);
}
void operator delete(void* p) noexcept
{
    free(p);
}
void operator delete[](void* p) noexcept
{
    free(p);
}
void operator delete(void* p, size_t) noexcept
{
    free(p);
}
void operator delete[](void* p, size_t) noexcept
{
    free(p);
}
#endif
// from now on, a system without memory protection (never undone)
static Reg nosys_op("fault_nosys", [](Args&, Res&) { secmem::g_nosys = true; });
static Reg fault_new_op("fault_new", [](Args& a, Res&) {
    secmem::plan_new_failure(static_cast<int>(a.u()));
});
static Reg mem_op("mem", [](Args&, Res& r) {
    auto s = secmem::snapshot();
    r.num("live", s.live);
    r.num("readable", s.readable);
    r.num("badfree", s.badfree);
});
static Reg fault_alloc_op("fault_alloc", [](Args& a, Res&) {
    secmem::plan_alloc_failure(static_cast<int>(a.u()));
});
static Reg fault_prot_op("fault_prot", [](Args& a, Res&) {
    int         n = static_cast<int>(a.u());
    std::string e = a.s();
    secmem::plan_protect_failure(n, e == "ENOSYS" ? ENOSYS : e == "ENOMEM" ? ENOMEM : EACCES);
});
static Reg fault_off_op("fault_off", [](Args&, Res& r) {
    r.num("hit", secmem::faults_hit());
    secmem::plan_alloc_failure(0);
    secmem::plan_protect_failure(0, 0);
    secmem::plan_new_failure(0);
});
// from now on, what each call leaves on the stack is searched as well
static Reg stack_op("stackwatch", [](Args&, Res&) {
    using namespace secmem;
    if (g_dead == nullptr) {
        // pages of other protection around it, so that it is a mapping of its own
        size_t   n = kDead * kCalls;
        uint8_t* p = static_cast<uint8_t*>(mmap(nullptr, n + 8192, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
        if (p == MAP_FAILED || mprotect(p + 4096, n, PROT_READ | PROT_WRITE) != 0) {
            bad("mmap");
        }
        g_dead = p + 4096;
    }
    g_watch_stack = true;
});
// memscan, stackscan <hex of the byte string, masked with 0x5a> ...
static Reg scan_op("memscan", [](Args& a, Res& r) {
    bool f = false;
    while (a.more()) {
        f = secmem::find_in_memory(a.b()) || f;
    }
    r.boolean("found", f);
});
static Reg stackscan_op("stackscan", [](Args& a, Res& r) {
    bool f = false;
    while (a.more()) {
        f = secmem::find_on_stack(a.b()) || f;
    }
    secmem::g_ndead = 0;
    r.boolean("found", f);
});
