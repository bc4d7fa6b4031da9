// Contracts of CStringView and ZStringView (C13).
#include <pystd2026.hpp>
#include "vp.hpp"
namespace P = pystd2026;

// a view of n arbitrary bytes; the memory ends right behind them
static P::CStringView view(uint64_t &n, const char *&b) {
    n = vp_u64();
    b = vp_bytes(n);
    return P::CStringView(b, n);
}
// ... of n bytes other than NUL (what the class documents as its content)
static P::CStringView viewnz(uint64_t &n, const char *&b) {
    n = vp_u64();
    b = vp_cstr(n);
    return P::CStringView(b, n);
}
extern "C" bool vp_range_eq(const char *a, const char *b, uint64_t n); // for every k < n: a[k] == b[k]

void spec_construct() {
    uint64_t n = vp_u64(), i = vp_u64(), j = vp_u64();
    const char *b = vp_cstr(n);
    vp_assume(i <= n && j <= n);
    P::CStringView a(b);
    vp_assert(a.data() == b && a.size() == n, "a C string is viewed up to its NUL");
    P::CStringView c(b, (size_t)-1);
    vp_assert(c.data() == b && c.size() == n, "length -1 means up to the NUL");
    P::CStringView d(b, i);
    vp_assert(d.data() == b && d.size() == i && d.is_empty() == (i == 0), "pointer and length");
    vp_assert(d.begin() == b && d.end() == b + i, "begin and end");
    P::CStringView e;
    vp_assert(e.size() == 0 && e.is_empty(), "the default view is empty");
    P::CStringView z((const char *)nullptr, (size_t)-1);
    vp_assert(z.size() == 0 && z.is_empty(), "no string is an empty view");
    vp_may_throw(j < i);
    P::CStringView r(b + i, b + j);
    vp_assert(i <= j, "a reversed range is reported");
    vp_assert(r.data() == b + i && r.size() == j - i, "two pointers");
}
void spec_index() {
    uint64_t n, i = vp_u64();
    const char *b;
    auto v = view(n, b);
    vp_may_throw(i >= n);
    char c = vp_bool() ? v[i] : v.at(i);
    vp_assert(i < n, "an index past the end is reported");
    vp_assert(c == b[i], "the byte at the index");
    vp_assert(v.unsafe_at(i) == b[i], "the byte at the index");
}
void spec_front() {
    uint64_t n;
    const char *b;
    auto v = view(n, b);
    vp_may_throw(n == 0);
    char c = v.front();
    vp_assert(n > 0 && c == b[0], "the first byte");
}
void spec_find_char() {
    uint64_t n, j = vp_u64();
    const char *b;
    auto v = view(n, b);
    char c = vp_char();
    uint64_t r = v.find(c);
    if(r == (size_t)-1) {
        vp_assert(!(j < n) || b[j] != c, "not found means no occurrence");
    } else {
        vp_assert(r < n && b[r] == c, "an occurrence");
        vp_assert(!(j < r) || b[j] != c, "the first occurrence");
    }
}
void spec_find_view() {
    uint64_t n, m, j = vp_u64();
    const char *b, *s;
    auto v = view(n, b), w = view(m, s);
    uint64_t r = v.find(w);
    if(r == (size_t)-1) {
        vp_assert(!(m <= n && j <= n - m && vp_range_eq(b + j, s, m)), "not found means no occurrence");
    } else {
        vp_assert(m <= n && r <= n - m && vp_range_eq(b + r, s, m), "an occurrence");
        vp_assert(!(j < r && vp_range_eq(b + j, s, m)), "the first occurrence");
    }
}
void spec_starts_with_view() {
    uint64_t n, m;
    const char *b, *s;
    auto v = view(n, b), w = view(m, s);
    bool r = v.starts_with(w);
    if(m > n)
        vp_assert(!r, "a longer string is no prefix");
    else
        vp_assert(r == vp_range_eq(b, s, m), "prefix");
}
void spec_starts_with_cstr() {
    uint64_t n, m = vp_u64();
    const char *b, *s = vp_cstr(m);
    auto v = viewnz(n, b);
    bool r = v.starts_with(s);
    if(m > n)
        vp_assert(!r, "a longer string is no prefix");
    else
        vp_assert(r == vp_range_eq(b, s, m), "prefix");
}
void spec_equal() {
    uint64_t n, m;
    const char *b, *s;
    auto v = view(n, b), w = view(m, s);
    bool r = v == w;
    vp_assert(r == (n == m && vp_range_eq(b, s, n)), "equal exactly with the same bytes");
    bool q = w == v;
    vp_assert(q == r, "equality is symmetric");
}
void spec_equal_cstr() {
    uint64_t n, m = vp_u64();
    const char *b, *s = vp_cstr(m);
    auto v = viewnz(n, b);
    bool r = v == s;
    vp_assert(r == (n == m && vp_range_eq(b, s, n)), "equal exactly with the same bytes");
}
void spec_less() {
    uint64_t n, m, k = vp_u64();
    const char *b, *s;
    auto v = view(n, b), w = view(m, s);
    uint64_t c = n < m ? n : m;
    bool r = v < w;
    // k: where they differ first
    vp_assume(k <= c && vp_range_eq(b, s, k));
    if(k < c) {
        vp_assume(b[k] != s[k]);
        vp_assert(r == ((unsigned char)b[k] < (unsigned char)s[k]), "ordered by the first different byte");
    } else {
        vp_assert(r == (n < m), "a prefix comes first");
    }
}
void spec_substr() {
    uint64_t n, p = vp_u64(), c = vp_u64();
    const char *b;
    auto v = view(n, b);
    vp_may_throw(p >= n);
    auto r = v.substr(p, c);
    vp_assert(p < n, "a position outside is reported");
    vp_assert(r.data() == b + p, "starts at the position");
    vp_assert(r.size() == (c < n - p ? c : n - p), "as many bytes as asked for and available");
    auto d = v.substr(p);
    vp_assert(d.data() == b + p && d.size() == n - p, "up to the end by default");
}
void spec_overlaps() {
    uint64_t n = vp_u64(), i = vp_u64(), j = vp_u64(), k = vp_u64(), l = vp_u64(), x = vp_u64();
    const char *b = vp_bytes(n);
    vp_assume(i <= j && j <= n && k <= l && l <= n);
    P::CStringView v(b + i, b + j), w(b + k, b + l);
    bool r = v.overlaps(w);
    vp_assert(r == ((i > k ? i : k) < (j < l ? j : l)), "overlap means a common byte");
}
struct FeedLog {
    const char *p = nullptr;
    uint64_t n = 0, calls = 0;
    void feed_bytes(const char *b, size_t s) {
        p = b;
        n = s;
        ++calls;
    }
};
void spec_feed_hash() {
    uint64_t n;
    const char *b;
    auto v = view(n, b);
    FeedLog h;
    v.feed_hash(h);
    vp_assert(h.calls == 1 && h.p == b && h.n == n, "exactly the bytes of the view are hashed");
}
extern "C" bool vp_ws(const char *b, uint64_t i); // b[i] is ASCII white space (any index, for use under an implication)
// split: the pieces come from left to right, hold no separator, and only separators lie between them
struct SplitState {
    const char *b;
    uint64_t n, pos, calls;
    bool stopped;
    uint64_t j;
};
static bool on_piece(const P::CStringView &p, void *ctx) {
    SplitState &s = *(SplitState *)ctx;
    uint64_t o = p.data() - s.b, e = o + p.size();
    vp_assert(!s.stopped, "nothing is reported after the callback asked to stop");
    vp_assert((p.size() > 0) & (o >= s.pos) & (o <= s.n) & (p.size() <= s.n - o), "a piece inside the rest of the view");
    bool w = vp_ws(s.b, s.j);
    vp_assert(!((s.j >= s.pos) & (s.j < o)) | w, "only separators are skipped");
    vp_assert(!((s.j >= o) & (s.j < e)) | !w, "a piece holds no separator");
    vp_assert((e == s.n) | vp_ws(s.b, e), "a piece is maximal to the right");
    vp_assert((s.pos == 0) | vp_ws(s.b, s.pos), "a piece is maximal to the left");
    s.pos = e;
    s.stopped = vp_bool();
    return !s.stopped;
}
void spec_split() {
    uint64_t n;
    const char *b;
    auto v = view(n, b);
    SplitState s{b, n, 0, 0, false, vp_u64()};
    v.split(on_piece, &s);
    vp_assert(s.stopped | !((s.j >= s.pos) & (s.j < n)) | vp_ws(b, s.j), "only separators remain at the end");
}
void spec_zview() {
    uint64_t n = vp_u64(), i = vp_u64();
    const char *b = vp_cstr(n);
    P::ZStringView z(b), y(b, n), e;
    vp_assert(z.c_str() == b && z.size() == n && y.c_str() == b && y.size() == n, "a C string is viewed up to its NUL");
    vp_assert(z.view().data() == b && z.view().size() == n, "as a view");
    vp_assert(e.size() == 0 && P::ZStringView(nullptr).size() == 0, "no string is an empty view");
    vp_may_throw(i > n);
    auto r = z.subview(i);
    vp_assert(i <= n && r.c_str() == b + i && r.size() == n - i, "the rest from a position");
}
void spec_zequal() {
    uint64_t n = vp_u64(), m = vp_u64();
    const char *b = vp_cstr(n), *s = vp_cstr(m);
    P::ZStringView z(b), y(s), e;
    bool r = z == y;
    vp_assert(r == (n == m && vp_range_eq(b, s, n)), "equal exactly with the same bytes");
    bool q = z == s;
    vp_assert(q == r, "equal to a C string");
    vp_assert((z == e) == (n == 0), "equal to no string when empty");
}
