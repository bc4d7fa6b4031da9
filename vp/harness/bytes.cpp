// Contracts of Bytes (C09): every operation from an arbitrary reachable state.
#include <pystd2026.hpp>
#include "vp.hpp"
namespace P = pystd2026;
using Bytes = P::Bytes;
extern "C" void vp_bytesobj(void *);  // arbitrary reachable state
extern "C" void vp_bytesbuf(void *);  // ... that has storage
extern "C" void vp_bytes_wf(void *);  // the class invariant holds
extern "C" bool vp_range_eq(const char *a, const char *b, uint64_t n);
extern "C" char vp_at(const char *p, uint64_t i); // p[i], any i
// a reachable state, remembering the byte at an arbitrary position
struct State {
    uint64_t n, j;
    char v;
    explicit State(Bytes &x) {
        vp_bytesobj(&x);
        n = x.size();
        j = vp_u64();
        v = j < n ? x.unsafe_at(j) : 0;
    }
};
static void kept(Bytes &x, const State &s, uint64_t upto) {
    vp_bytes_wf(&x);
    if(s.j < s.n && s.j < upto)
        vp_assert(s.j < x.size() && x.unsafe_at(s.j) == s.v, "bytes: the others keep their values");
}

void spec_bytes_default() {
    Bytes x;
    vp_bytes_wf(&x);
    vp_assert(x.size() == 0 && x.is_empty(), "default is empty");
}
void spec_bytes_reserve_ctor() {
    uint64_t c = vp_u64();
    vp_assume(c < (1ull << 40));
    Bytes y(c);
    vp_bytes_wf(&y);
    vp_assert(y.size() == 0 && y.capacity() >= c, "a capacity gives an empty buffer");
}
void spec_bytes_from() {
    uint64_t n = vp_u64(), j = vp_u64();
    const char *b = vp_bytes(n);
    Bytes x(b, n);
    vp_bytes_wf(&x);
    vp_assert(x.size() == n, "as many bytes as given");
    if(j < n)
        vp_assert(x[j] == b[j], "the given bytes");
}
void spec_bytes_from_range() {
    uint64_t n = vp_u64(), i = vp_u64(), k = vp_u64(), j = vp_u64();
    const char *b = vp_bytes(n);
    vp_assume(i <= n && k <= n);
    vp_may_throw(i > k);
    Bytes x(b + i, b + k);
    vp_assert(i <= k, "a reversed range is reported");
    vp_bytes_wf(&x);
    vp_assert(x.size() == k - i, "as many bytes as given");
    if(j < k - i)
        vp_assert(x[j] == b[i + j], "the given bytes");
}
void spec_bytes_fill() {
    uint64_t n = vp_u64(), j = vp_u64();
    vp_assume(n < (1ull << 40));
    char c = vp_char();
    Bytes x(n, c);
    vp_bytes_wf(&x);
    vp_assert(x.size() == n, "as many bytes as asked for");
    if(j < n)
        vp_assert(x[j] == c, "all the same");
}
void spec_bytes_access() {
    Bytes x;
    State s(x);
    const Bytes &c = x;
    uint64_t i = vp_u64();
    vp_assert(c.data() == x.data() && x.is_empty() == (s.n == 0) && x.capacity() >= s.n, "size and storage");
    vp_may_throw(i >= s.n);
    char v = x[i];
    vp_assert(i < s.n && v == x.unsafe_at(i) && v == c.data()[i], "byte i; an index past the end is reported");
}
void spec_bytes_ends() {
    Bytes x;
    State s(x);
    vp_may_throw(s.n == 0);
    if(vp_bool()) {
        char c = x.front();
        vp_assert(s.n > 0 && c == x.unsafe_at(0), "front");
    } else {
        char c = x.back();
        vp_assert(s.n > 0 && c == x.unsafe_at(s.n - 1), "back");
    }
}
void spec_bytes_within() {
    Bytes x;
    State s(x);
    vp_assert(!(s.j < s.n) || x.is_ptr_within(x.data() + s.j), "pointers to its bytes are recognised");
    char c;
    vp_assert(!x.is_ptr_within(&c), "others are not");
}
void spec_bytes_append() {
    Bytes x;
    State s(x);
    char c = vp_char();
    if(vp_bool())
        x.append(c);
    else
        x.push_back(c);
    kept(x, s, s.n);
    vp_assert(x.size() == s.n + 1 && x.unsafe_at(s.n) == c, "one more byte at the end");
}
void spec_bytes_append_range() {
    Bytes x;
    State s(x);
    uint64_t m = vp_u64(), k = vp_u64();
    const char *b = vp_bytes(m);
    x.append(b, b + m);
    kept(x, s, s.n);
    vp_assert(x.size() == s.n + m, "as many more bytes as given");
    if(k < m)
        vp_assert(x.unsafe_at(s.n + k) == b[k], "the given bytes at the end");
}
void spec_bytes_append_self() {
    Bytes x;
    State s(x);
    uint64_t i = vp_u64(), e = vp_u64(), k = vp_u64();
    vp_assume(i <= e && e <= s.n && k < e - i && s.j == i + k);
    x.append(x.data() + i, x.data() + e);
    kept(x, s, s.n);
    vp_assert(x.size() == s.n + (e - i), "as many more bytes as given");
    vp_assert(x.unsafe_at(s.n + k) == s.v, "the given bytes at the end");
}
void spec_bytes_clear() {
    Bytes x;
    State s(x);
    x.clear();
    kept(x, s, 0);
    vp_assert(x.size() == 0, "clear");
}
void spec_bytes_reserve() {
    Bytes x;
    State s(x);
    uint64_t n = vp_u64();
    vp_assume(n < (1ull << 40));
    x.reserve(n);
    kept(x, s, s.n);
    vp_assert(x.size() == s.n && x.capacity() >= n, "reserve");
}
void spec_bytes_extend() {
    Bytes x;
    State s(x);
    uint64_t n = vp_u64();
    vp_assume(n < (1ull << 40));
    x.extend(n);
    kept(x, s, s.n);
    vp_assert(x.size() == s.n + n, "extend");
}
void spec_bytes_shrink() {
    Bytes x;
    State s(x);
    uint64_t n = vp_u64();
    x.shrink(n);
    kept(x, s, x.size());
    vp_assert(x.size() == (n < s.n ? s.n - n : 0), "shrink");
}
void spec_bytes_resize() {
    Bytes x;
    State s(x);
    uint64_t n = vp_u64();
    vp_assume(n < (1ull << 40));
    if(vp_bool())
        x.resize(n);
    else
        x.resize_to(n);
    kept(x, s, n);
    vp_assert(x.size() == n, "resize");
}
void spec_bytes_assign() {
    Bytes x;
    State s(x);
    uint64_t n = vp_u64(), k = vp_u64();
    const char *b = vp_bytes(n);
    x.assign(b, n);
    vp_bytes_wf(&x);
    vp_assert(x.size() == n, "assign");
    if(k < n)
        vp_assert(x.unsafe_at(k) == b[k], "the given bytes");
}
void spec_bytes_insert() {
    Bytes x;
    State s(x);
    uint64_t n = vp_u64(), i = vp_u64(), k = vp_u64();
    const char *b = vp_bytes(n);
    vp_may_throw(i >= s.n);
    x.insert(i, b, n);
    vp_assert(i < s.n, "a position outside is reported");
    kept(x, s, i);
    vp_assert(x.size() == s.n + n, "as many more bytes as given");
    if(k < n)
        vp_assert(x.unsafe_at(i + k) == b[k], "the given bytes");
    if(s.j >= i && s.j < s.n)
        vp_assert(x.unsafe_at(s.j + n) == s.v, "the following bytes move up");
}
void spec_bytes_pop_back() {
    Bytes x;
    State s(x);
    uint64_t n = vp_u64();
    x.pop_back(n);
    kept(x, s, x.size());
    vp_assert(x.size() == (n < s.n ? s.n - n : 0), "pop_back");
}
void spec_bytes_pop_front() {
    Bytes x;
    State s(x);
    uint64_t n = vp_u64();
    x.pop_front(n);
    vp_bytes_wf(&x);
    vp_assert(x.size() == (n < s.n ? s.n - n : 0), "pop_front");
    if(s.j >= n && s.j < s.n)
        vp_assert(x.unsafe_at(s.j - n) == s.v, "the following bytes move down");
}
void spec_bytes_remove() {
    Bytes x;
    State s(x);
    uint64_t i = vp_u64(), e = vp_u64();
    vp_may_throw(i > e || e > s.n);
    x.remove(i, e);
    vp_assert(i <= e && e <= s.n, "a bad range is reported");
    kept(x, s, i);
    vp_assert(x.size() == s.n - (e - i), "remove");
    if(s.j >= e && s.j < s.n)
        vp_assert(x.unsafe_at(s.j - (e - i)) == s.v, "the following bytes move down");
}
void spec_bytes_copy() {
    Bytes x;
    State s(x);
    Bytes y(x);
    vp_bytes_wf(&y);
    kept(x, s, s.n);
    vp_assert(y.size() == s.n && x.size() == s.n, "a copy has the same size");
    if(s.j < s.n)
        vp_assert(y.unsafe_at(s.j) == s.v, "a copy has the same bytes");
}
void spec_bytes_move() {
    Bytes x;
    State s(x);
    const char *d = x.data();
    Bytes y(P::move(x));
    vp_bytes_wf(&x);
    kept(y, s, s.n);
    vp_assert(y.size() == s.n && x.size() == 0 && y.data() == d, "moving takes over the bytes");
}
void spec_bytes_assign_copy() {
    Bytes x, y;
    State s(x), t(y);
    y = x;
    vp_bytes_wf(&y);
    kept(x, s, s.n);
    vp_assert(y.size() == s.n && x.size() == s.n, "a copy has the same size");
    if(s.j < s.n)
        vp_assert(y.unsafe_at(s.j) == s.v, "a copy has the same bytes");
}
void spec_bytes_assign_move() {
    Bytes x, y;
    State s(x), t(y);
    y = P::move(x);
    vp_bytes_wf(&x);
    kept(y, s, s.n);
    vp_assert(y.size() == s.n, "moving takes over the bytes");
}
void spec_bytes_assign_self() {
    Bytes x;
    State s(x);
    Bytes &r = x;
    if(vp_bool())
        x = r;
    else
        x = P::move(r);
    kept(x, s, s.n);
    vp_assert(x.size() == s.n, "self assignment changes nothing");
}
void spec_bytes_concat() {
    Bytes x, y;
    State s(x), t(y);
    x += y;
    kept(x, s, s.n);
    kept(y, t, t.n);
    vp_assert(x.size() == s.n + t.n && y.size() == t.n, "sizes add up");
    if(t.j < t.n)
        vp_assert(x.unsafe_at(s.n + t.j) == t.v, "the other's bytes follow");
}
void spec_bytes_concat_self() {
    Bytes x;
    State s(x);
    x += x;
    kept(x, s, s.n);
    vp_assert(x.size() == 2 * s.n, "sizes add up");
    if(s.j < s.n)
        vp_assert(x.unsafe_at(s.n + s.j) == s.v, "its own bytes follow");
}
void spec_bytes_equal() {
    Bytes x, y;
    State s(x), t(y);
    bool r = x == y;
    vp_assert(r == (s.n == t.n && vp_range_eq(x.data(), y.data(), s.n)), "equal exactly with the same bytes");
}
void spec_bytes_order() {
    Bytes x, y;
    State s(x), t(y);
    uint64_t c = s.n < t.n ? s.n : t.n, k = vp_u64();
    vp_assume(k <= c && vp_range_eq(x.data(), y.data(), k)); // k: where they differ first
    vp_assume(k == c || x.unsafe_at(k) != y.unsafe_at(k));
    bool less = k < c ? (unsigned char)x.unsafe_at(k) < (unsigned char)y.unsafe_at(k) : s.n < t.n;
    bool same = k == c && s.n == t.n;
    if(vp_bool()) {
        bool r = x < y;
        vp_assert(r == less, "ordered by the first different byte, then by length");
    } else {
        int r = x <=> y;
        vp_assert((r < 0) == less && (r == 0) == same, "three way comparison");
    }
}
struct FeedLog {
    const char *p = nullptr;
    uint64_t n = 0, calls = 0;
    void feed_bytes(const char *b, size_t s) {
        p = b;
        n = s;
        ++calls;
    }
};
void spec_bytes_hash() {
    Bytes x;
    State s(x);
    FeedLog h;
    x.feed_hash(h);
    vp_assert(h.calls == 1 && h.p == x.data() && h.n == s.n, "exactly the bytes are hashed");
}
