// Replay harness support: reproduce a violation against the real code.
#pragma once
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <random>
#include <stdexcept>
extern "C" size_t __sanitizer_get_current_allocated_bytes();
[[noreturn]] inline void fail(const char* cat, const std::string& what)
{
    printf("FAIL cat=%s what=%s\n", cat, what.c_str());
    fflush(stdout);
    _Exit(3);
}
#define REQUIRE(cat, cond)                                                                                             \
    do {                                                                                                               \
        if (!(cond)) fail(cat, std::string(#cond) + " at line " + std::to_string(__LINE__));                          \
    } while (0)
struct Rng {
    unsigned long long s;
    explicit Rng(unsigned long long x): s(x * 0x9E3779B97F4A7C15ull + 0x1234567) {}
    unsigned long long next()
    {
        s += 0x9E3779B97F4A7C15ull;
        auto z = s;
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    long below(long n) { return n <= 0 ? 0 : (long)(next() % (unsigned long long)n); }
    bool chance(int pct) { return below(100) < pct; }
};
extern std::string g_trace;
extern bool g_verbose;
inline void note(const std::string& s)
{
    if (g_verbose) {
        fprintf(stderr, "  %s\n", s.c_str());
        fflush(stderr);
    }
}
// run_case(rng, variant, ops): one history
void run_case(Rng& r, int variant, int ops);
int variants();
std::string g_trace;
bool g_verbose = false;
int main(int argc, char** argv)
{
    // args: first seed, number of seeds, operations per history, [verbose]
    unsigned long long first = strtoull(argv[1], nullptr, 10);
    long cnt = atol(argv[2]);
    int ops = atoi(argv[3]);
    g_verbose = argc > 4;
    setvbuf(stdout, nullptr, _IONBF, 0);
    long done = 0;
    for (long k = 0; k < cnt; ++k) {
        for (int v = 0; v < variants(); ++v) {
            Rng r((first + k) * 64 + v);
            printf("CASE seed=%llu variant=%d\n", first + k, v);
            if (g_verbose) fprintf(stderr, "variant %d\n", v);
            size_t before = __sanitizer_get_current_allocated_bytes();
            run_case(r, v, ops);
            size_t after = __sanitizer_get_current_allocated_bytes();
            // the second run of the very same case has no one-time allocations left to make
            if (after > before) {
                Rng r2((first + k) * 64 + v);
                bool vb = g_verbose;
                g_verbose = false;
                before = __sanitizer_get_current_allocated_bytes();
                run_case(r2, v, ops);
                g_verbose = vb;
                if (__sanitizer_get_current_allocated_bytes() > before) fail("life", "memory was never released");
            }
            ++done;
        }
    }
    printf("OK cases=%ld\n", done);
    return 0;
}
