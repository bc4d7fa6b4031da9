// Support for the executable oracles ("hunters"): small, dependency free, deterministic for a given seed.
#pragma once
#include <stdint.h>
#include <stddef.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <time.h>
#include <unistd.h>
#include <stdarg.h>
namespace hunt {
inline uint64_t rs = 88172645463325252ull;
inline uint64_t rnd() {
    rs ^= rs << 13;
    rs ^= rs >> 7;
    rs ^= rs << 17;
    return rs * 2685821657736338717ull;
}
inline uint64_t below(uint64_t n) { return n ? (rnd() >> 16) % n : 0; }
inline uint64_t range(uint64_t a, uint64_t b) { return a + below(b - a + 1); }
inline double t0, lim = 10;
inline unsigned long cases = 0;
inline char cur[4096];
inline double now() {
    timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return t.tv_sec + 1e-9 * t.tv_nsec;
}
inline void finish() {
    printf("CASES %lu\n", cases);
    fflush(stdout);
}
extern "C" void __asan_on_error() __attribute__((weak, used, noinline));
extern "C" inline void hunt_dump() {
    fprintf(stderr, "CASE %s\n", cur);
}
inline void init() {
    t0 = now();
    if(getenv("HUNT_SECS"))
        lim = atof(getenv("HUNT_SECS"));
    uint64_t s = getenv("HUNT_SEED") ? strtoull(getenv("HUNT_SEED"), 0, 10) : 1;
    rs ^= s * 0x9E3779B97F4A7C15ull;
    for(int i = 0; i < 8; ++i)
        rnd();
    setvbuf(stdout, 0, _IONBF, 0);
}
inline bool more() { return now() - t0 < lim; }
inline void sample(const char *f, ...) {
    va_list a;
    va_start(a, f);
    printf("SAMPLE ");
    vprintf(f, a);
    printf("\n");
    va_end(a);
}
__attribute__((format(printf, 1, 2))) inline void setcase(const char *f, ...) {
    va_list a;
    va_start(a, f);
    vsnprintf(cur, sizeof(cur), f, a);
    va_end(a);
    ++cases;
}
[[noreturn]] __attribute__((format(printf, 1, 2))) inline void fail(const char *f, ...) {
    va_list a;
    va_start(a, f);
    printf("FAIL ");
    vprintf(f, a);
    printf(" | case: %s\n", cur);
    va_end(a);
    finish();
    _exit(1);
}
// run f in a child process: 0 = returned, 1 = exception escaped (as told by the child), 2 = aborted / died
template<typename F> inline const char *hex(F *, size_t) { return ""; }
inline const char *hexs(const void *p, size_t n) {
    static char b[8][600];
    static int k;
    char *o = b[k = (k + 1) % 8];
    size_t m = n > 290 ? 290 : n;
    for(size_t i = 0; i < m; ++i)
        sprintf(o + 2 * i, "%02x", ((const unsigned char *)p)[i]);
    o[2 * m] = 0;
    return o;
}
} // namespace hunt
extern "C" void __asan_on_error() { hunt::hunt_dump(); }
extern "C" void hunt_abrt(int);
#include <signal.h>
inline void hunt_sig(int s) {
    hunt::hunt_dump();
    signal(s, SIG_DFL);
    raise(s);
}
#define HUNT_MAIN_INIT()                \
    hunt::init();                       \
    signal(SIGABRT, hunt_sig);          \
    signal(SIGALRM, hunt_sig);          \
    alarm((unsigned)hunt::lim * 3 + 60)
