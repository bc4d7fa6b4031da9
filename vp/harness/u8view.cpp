// Contracts of the comparison of UTF-8 views (C16).
#include <pystd2026.hpp>
#include "vp.hpp"
namespace P = pystd2026;
extern "C" bool vp_range_eq(const char *a, const char *b, uint64_t n); // for every k < n: a[k] == b[k]
static P::U8StringView uview(const char *b, uint64_t n) { return P::U8StringView(P::ValidU8Iterator((const unsigned char *)b), P::ValidU8Iterator((const unsigned char *)b + n)); }
void spec_u8view_equal() {
    uint64_t n = vp_u64(), m = vp_u64();
    const char *b = vp_bytes(n), *s = vp_bytes(m);
    auto v = uview(b, n), w = uview(s, m);
    vp_assert((v == w) == (n == m && vp_range_eq(b, s, n)), "views are equal exactly with the same bytes");
    vp_assert(v == v, "a view equals itself");
}
void spec_u8view_equal_cstr() {
    uint64_t n = vp_u64(), m = vp_u64();
    const char *b = vp_cstr(n), *s = vp_cstr(m);
    auto v = uview(b, n);
    bool r = v == s;
    vp_assert(r == (n == m && vp_range_eq(b, s, n)), "equal to exactly the text with the same bytes");
}
