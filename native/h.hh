// shared helpers of the replay harnesses
#pragma once
#include <cstdio>
#include <cstdlib>
#include <cstdint>
#include <cstring>
#include <cstdarg>
#include <cmath>
#include <chrono>
#include <string>
#include <vector>
struct H {
    uint64_t s; double budget; long n = 0; std::chrono::steady_clock::time_point t0;
    H(int argc, char **argv) : s(argc > 1 ? strtoull(argv[1], 0, 10) * 0x9E3779B97F4A7C15ull + 1 : 1), budget(argc > 2 ? atof(argv[2]) : 5), t0(std::chrono::steady_clock::now()) {}
    uint64_t u() { s ^= s << 13; s ^= s >> 7; s ^= s << 17; return s * 0x2545F4914F6CDD1Dull; }
    uint64_t below(uint64_t k) { return k ? (u() >> 11) % k : 0; }
    long range(long a, long b) { return a + (long)below((uint64_t)(b - a + 1)); }
    bool coin() { return u() >> 63; }
    double unit() { return (u() >> 11) * (1.0 / 9007199254740992.0); }
    double real(double a) { return (2 * unit() - 1) * a; }
    bool more() { n++; return (n & 255) ? true : std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() < budget; }
    bool left() { n++; return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() < budget; }
    int ok() { printf("RAN %ld\n", n); return 0; }
};
[[noreturn]] static inline void fail(const char *f, ...) {
    va_list a; va_start(a, f); printf("FAIL "); vprintf(f, a); printf("\n"); va_end(a); fflush(stdout); _Exit(1);
}
