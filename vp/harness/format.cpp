// Contracts of the formatted output functions (C29) over the contract of vsnprintf, which the function below states: for a
// given format and arguments there is one text; it is written as far as it fits, with a NUL after it, and its length returned.
#include <pystd2026.hpp>
#include <stdarg.h>
#include <stdio.h>
#include <limits.h>
#include "vp.hpp"
namespace P = pystd2026;
extern "C" void vp_bytesobj(void *);
extern "C" void vp_bytes_wf(void *);
extern "C" void vp_cstrobj(void *);
extern "C" void vp_cstr_wf(void *);
extern "C" bool vp_range_eq(const char *a, const char *b, uint64_t n);
extern "C" bool vp_hasnul(const char *p, uint64_t n);
static const char *text, *fmt = "format";
static uint64_t len;
static bool fails;
struct VaList {
    uint32_t used, fp;
    void *a, *b;
};
extern "C" {
int *__errno_location() noexcept {
    static int e;
    return &e;
}
char *strerror(int) noexcept {
    static char t[2];
    return t;
}
int vsnprintf(char *to, unsigned long n, const char *f, va_list ap) noexcept {
    vp_assert(f == fmt, "the given format");
    VaList *l = (VaList *)ap;
    vp_assert(l->used == 0, "an argument list is used once");
    l->used = 48;
    if(fails)
        return -1;
    if(n) {
        uint64_t k = len;
        if(k >= n)
            k = n - 1;
        __builtin_memcpy(to, text, k);
        to[k] = 0;
    }
    return len;
}
}
static void world() {
    len = vp_u64();
    vp_assume(len <= INT_MAX);
    text = vp_bytes(len);
    fails = vp_bool();
    fmt = vp_cstr(vp_u64());
}
static uint64_t called;
static void *ctx_seen;
static void callback(const char *buf, size_t n, void *ctx) {
    ++called;
    ctx_seen = ctx;
    vp_assert(n == len, "the whole length of the text");
    vp_assert(vp_range_eq(buf, text, len), "the bytes of the text");
    if(ctx == nullptr)
        throw 1;
}
void spec_format_cb() {
    world();
    called = 0;
    VaList l{};
    vp_aborts_if(!fails && len >= INT_MAX - 1);
    int x;
    bool throws = vp_bool(), thrown = false;
    try {
        P::cformat_with_cb(callback, throws ? nullptr : &x, fmt, *(va_list *)&l);
    } catch(...) {
        thrown = true;
    }
    vp_assert(thrown == (fails || throws), "a failure is reported");
    vp_assert(called == (fails ? 0u : 1u), "the text is delivered once");
    vp_assert(fails || ctx_seen == (throws ? nullptr : &x), "with the given context");
}
void spec_cformat() {
    world();
    vp_aborts_if(!fails && len >= INT_MAX - 1);
    bool nul = vp_hasnul(text, len);
    vp_may_throw(fails || nul);
    P::CString s = P::cformat(fmt, 1, 2.5, "x");
    vp_assert(!fails && !nul, "what cannot be a string is reported");
    vp_cstr_wf(&s);
    vp_assert(s.size() == len, "the whole length of the text");
    vp_assert(vp_range_eq(s.c_str(), text, len), "the bytes of the text");
}
void spec_format_append_string() {
    world();
    vp_aborts_if(!fails && len >= INT_MAX - 1);
    bool nul = vp_hasnul(text, len);
    vp_may_throw(fails || nul);
    P::CString s;
    vp_cstrobj(&s);
    uint64_t n = s.size(), j = vp_u64();
    vp_assume(j < n);
    char c = s.c_str()[j];
    P::format_append(s, fmt, 1, 2.5, "x");
    vp_assert(!fails && !nul, "what cannot be a string is reported");
    vp_cstr_wf(&s);
    vp_assert(s.size() == n + len, "the whole length of the text");
    vp_assert(s.c_str()[j] == c, "what was there before stays");
    vp_assert(vp_range_eq(s.c_str() + n, text, len), "then the bytes of the text");
}
void spec_format_append_bytes() {
    world();
    vp_aborts_if(!fails && len >= INT_MAX - 1);
    vp_may_throw(fails);
    P::Bytes s;
    vp_bytesobj(&s);
    uint64_t n = s.size(), j = vp_u64();
    vp_assume(j < n);
    char c = s.unsafe_at(j);
    P::format_append(s, fmt, 1, 2.5, "x");
    vp_assert(!fails, "a failure is reported");
    vp_bytes_wf(&s);
    vp_assert(s.size() == n + len, "the whole length of the text");
    vp_assert(s.unsafe_at(j) == c, "what was there before stays");
    vp_assert(vp_range_eq(s.data() + n, text, len), "then the bytes of the text");
}
