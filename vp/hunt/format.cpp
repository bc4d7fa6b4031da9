// Executable oracle for C29: formatted output against vsnprintf.
#include <pystd2026.hpp>
#include "hunt.hpp"
namespace P = pystd2026;
using namespace hunt;
#define CHECK(c, ...)          \
    do {                       \
        if(!(c))               \
            fail(__VA_ARGS__); \
    } while(0)
static char big[40000], ref[100000];
static size_t n;
struct Got {
    char data[100000];
    size_t n;
    int calls;
} got;
static void cb(const char *b, size_t k, void *ctx) {
    Got *g = (Got *)ctx;
    ++g->calls;
    g->n = k;
    memcpy(g->data, b, k);
}
static void via_cb(const char *f, ...) {
    va_list a;
    va_start(a, f);
    P::cformat_with_cb(cb, &got, f, a);
    va_end(a);
}
template<typename... A> static void one(const char *f, A... a) {
    n = snprintf(ref, sizeof ref, f, a...);
    bool nul = memchr(ref, 0, n);
    setcase("format %s, %zu bytes", f, n);
    got.calls = 0;
    via_cb(f, a...);
    CHECK(got.calls == 1 && got.n == n && memcmp(got.data, ref, n) == 0, "cformat_with_cb: %d calls, %zu bytes", got.calls, got.n);
    bool thrown = false;
    try {
        P::CString s = P::cformat(f, a...);
        CHECK(s.size() == n && memcmp(s.c_str(), ref, n + 1) == 0, "cformat: %zu bytes", s.size());
    } catch(...) {
        thrown = true;
    }
    CHECK(thrown == nul, "cformat %s", thrown ? "failed" : "took a NUL");
    thrown = false;
    size_t k = below(50);
    {
        P::CString s;
        for(size_t i = 0; i < k; ++i)
            s.append('x');
        try {
            P::format_append(s, f, a...);
            CHECK(s.size() == k + n && memcmp(s.c_str() + k, ref, n + 1) == 0 && (!k || s.c_str()[k - 1] == 'x'), "format_append: %zu bytes", s.size());
        } catch(...) {
            thrown = true;
        }
    }
    CHECK(thrown == nul, "format_append %s", thrown ? "failed" : "cut the text at a NUL");
    P::Bytes b;
    for(size_t i = 0; i < k; ++i)
        b.append('x');
    P::format_append(b, f, a...);
    CHECK(b.size() == k + n && memcmp(b.data() + k, ref, n) == 0, "format_append to bytes: %zu bytes", b.size());
}
int main() {
    init();
    while(more()) {
        ++cases;
        static const size_t base[] = {0, 1, 1000, 1020, 1021, 1022, 1023, 1024, 1025, 1026, 2047, 2048, 2049, 30000};
        size_t l = below(2) ? base[below(sizeof base / sizeof *base)] : below(2) ? below(40) : below(5000);
        for(size_t i = 0; i < l; ++i)
            big[i] = 1 + below(255);
        big[l] = 0;
        switch(below(8)) {
        case 0: one("%s", (const char *)big); break;
        case 1: one("%d and %s then %ld", (int)rnd(), (const char *)big, (long)rnd()); break;
        case 2: one("%*d|%-*d", (int)below(3000), (int)rnd(), (int)below(3000), (int)below(100)); break;
        case 3: one("%.*f %g %e", (int)below(1500), rnd() / 7.0, rnd() / 3.0, 1.0 / (1 + rnd())); break;
        case 4: one("%c%s%c", (int)(below(3) ? 'c' : 0), (const char *)big, 'z'); break;
        case 5: one("%s%s%d%d%d%d%d%d%s", (const char *)big, "abc", 1, 2, 3, 4, 5, (int)rnd(), (const char *)big); break;
        case 6: one("%d%c%s%c%d", (int)below(1000), (int)(below(2) ? 'c' : 0), (const char *)big, (int)(below(2) ? 'c' : 0), (int)rnd()); break;
        default: one("no arguments at all"); break;
        }
        if(cases <= 3)
            sample("%s", cur);
    }
    finish();
}
