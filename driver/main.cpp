#include "common.hpp"

#include <sse/crypto/utils.hpp>

#include <atomic>
#include <csignal>
#include <iostream>
#include <sched.h>
#include <thread>
#include <unistd.h>

thread_local Slots g_slots;
thread_local std::vector<std::string> g_outs;
static bool g_threads = false;

std::map<std::string, Handler>& handlers()
{
    static std::map<std::string, Handler> h;
    return h;
}
struct Misuse
{
};
void bad(const std::string& what)
{
    if (g_threads) {
        throw Misuse(); // the thread stops here
    }
    fprintf(stderr, "driver: %s\n", what.c_str());
    fflush(stderr);
    _exit(90);
}

static void on_signal(int sig)
{
    // async-signal-safe: say which signal, let the harness report the rest
    char        b[32] = "driver: signal ";
    size_t      n     = strlen(b);
    b[n++]            = static_cast<char>('0' + sig / 10);
    b[n++]            = static_cast<char>('0' + sig % 10);
    b[n++]            = '\n';
    ssize_t r         = write(2, b, n);
    (void)r;
    _exit(100 + sig);
}

static std::string run_once(const std::string& line);

// "rep <n> <command>": the command n times in a row; says how many different
// answers it gave
static std::string run_line(const std::string& line)
{
    if (line.compare(0, 4, "rep ") != 0) {
        return run_once(line);
    }
    size_t                             sp = line.find(' ', 4);
    unsigned long                      n  = strtoul(line.c_str() + 4, nullptr, 10);
    std::string                        l  = line.substr(sp + 1), first;
    std::map<std::string, unsigned>    seen;
    size_t                             keep = g_outs.size();
    for (unsigned long i = 0; i < n; i++) {
        std::string r = run_once(l);
        if (i == 0) {
            first = r;
        } else {
            g_outs.resize(keep + 1);
        }
        if (seen.size() < 4) {
            seen[r]++;
        } else if (seen.count(r) == 0) {
            continue;
        }
    }
    first.pop_back();
    return first + ",\"distinct\":" + std::to_string(seen.size()) + "}";
}

static std::string run_once(const std::string& line)
{
    Args   a;
    size_t p = 0;
    while (p < line.size()) {
        size_t e = line.find(' ', p);
        if (e == std::string::npos) {
            e = line.size();
        }
        if (e > p) {
            a.t.push_back(line.substr(p, e - p));
        }
        p = e + 1;
    }
    if (a.t.empty()) {
        return std::string();
    }
    Res         r;
    const char* e = "ok";
    try {
        std::string op = a.next();
        auto        it = handlers().find(op);
        if (it == handlers().end()) {
            bad("unknown op " + op);
        }
        secmem::enter_call(true);
        it->second(a, r);
    } catch (const Misuse&) {
        e = "MISUSE";
    } catch (const std::out_of_range&) {
        e = "out_of_range";
    } catch (const std::invalid_argument&) {
        e = "invalid_argument";
    } catch (const std::length_error&) {
        e = "length_error";
    } catch (const std::logic_error&) {
        e = "logic_error";
    } catch (const std::runtime_error&) {
        e = "runtime_error";
    } catch (const std::bad_alloc&) {
        e = "bad_alloc";
        if (secmem::faults_hit() > 0) {
            r.body.clear(); // perhaps incomplete
        }
    } catch (const std::exception&) {
        e = "exception";
    } catch (...) {
        e = "unknown";
    }
    secmem::keep_dead_stack();
    secmem::enter_call(false);
    if (g_threads) {
        size_t o = r.body.find(",\"out\":\"");
        if (e == std::string("ok") && o != std::string::npos) {
            o += 8;
            g_outs.push_back(r.body.substr(o, r.body.find('"', o) - o));
        } else {
            g_outs.push_back(std::string());
        }
    } else {
        auto m = secmem::snapshot();
        r.num("lv", m.live);
        r.num("rd", m.readable);
        r.num("bf", m.badfree);
    }
    return std::string("{\"e\":\"") + e + "\"" + r.body + "}";
}

// Lines "<thread> <command>": the threads run their commands at the same time,
// then all the answers are printed.
static void run_threads()
{
    std::map<unsigned, std::vector<std::string>> todo, done;
    std::string                                  line;
    while (std::getline(std::cin, line)) {
        size_t sp = line.find(' ');
        todo[static_cast<unsigned>(atoi(line.c_str()))].push_back(line.substr(sp + 1));
    }
    std::atomic<unsigned>    ready(0);
    std::vector<std::thread> ts;
    for (auto& x : todo) {
        done[x.first];
    }
    for (auto& x : todo) {
        std::vector<std::string>&       out = done[x.first];
        const std::vector<std::string>& in  = x.second;
        unsigned                        n   = static_cast<unsigned>(todo.size());
        unsigned                        id  = x.first;
        ts.emplace_back([&ready, &out, &in, n, id] {
            ready.fetch_add(1, std::memory_order_relaxed);
            while (ready.load(std::memory_order_relaxed) < n) {
            }
            unsigned k = id * 2654435761U;
            for (const std::string& l : in) {
                out.push_back(run_line(l));
                if (out.back().find("\"MISUSE\"") != std::string::npos) {
                    break;
                }
                k = k * 1664525U + 1013904223U;
                if ((k >> 28) == 0) {
                    sched_yield();
                }
            }
            g_slots.clear();
        });
    }
    for (auto& t : ts) {
        t.join();
    }
    for (auto& x : done) {
        for (auto& l : x.second) {
            printf("%u %s\n", x.first, l.c_str());
        }
    }
}

int main(int argc, char** argv)
{
    bool sanitized = false;
    for (int i = 1; i < argc; i++) {
        sanitized = sanitized || std::string(argv[i]) == "--keep-signals";
        g_threads = g_threads || std::string(argv[i]) == "--threads";
    }
    if (!sanitized) {
        for (int s : {SIGSEGV, SIGBUS, SIGABRT, SIGFPE, SIGILL}) {
            signal(s, on_signal);
        }
    }
    sse::crypto::init_crypto_lib();
    std::ios::sync_with_stdio(false);
    if (g_threads) {
        handlers();
        run_threads();
    } else {
        std::string line;
        while (std::getline(std::cin, line)) {
            std::string r = run_line(line);
            if (!r.empty()) {
                r += "\n";
                fputs(r.c_str(), stdout);
                fflush(stdout);
            }
        }
        g_slots.clear();
    }
    sse::crypto::cleanup_crypto_lib();
    {
        auto m = secmem::snapshot();
        fprintf(stdout,
                "{\"e\":\"end\",\"lv\":%u,\"rd\":%u,\"bf\":%u}\n",
                m.live,
                m.readable,
                m.badfree);
    }
    fflush(stdout);
    return 0;
}

static Reg reset_op("reset", [](Args&, Res&) { g_slots.clear(); });
static Reg drop_op("drop", [](Args& a, Res&) { g_slots.erase(a.s()); });
