// Contracts of UTF-8 validation (C15) and of codepoint encoding and iteration (C16).
#include <pystd2026.hpp>
#include "vp.hpp"
namespace P = pystd2026;
extern "C" bool vp_utf8(const void *, uint64_t); // well-formed according to table 3-7 of the Unicode Standard
extern "C" bool vp_seq(const void *, uint64_t);  // exactly one well-formed sequence of that length
extern "C" uint32_t vp_cp();
extern "C" uint64_t vp_appended_n();
extern "C" uint8_t vp_appended(uint64_t);

// the value a well-formed sequence stands for
static uint32_t decode(const char *s, uint64_t k) {
    const unsigned char *b = (const unsigned char *)s;
    switch(k) {
    case 1: return b[0];
    case 2: return (b[0] - 0xC0u) * 64u + (b[1] - 0x80u);
    case 3: return ((b[0] - 0xE0u) * 64u + (b[1] - 0x80u)) * 64u + (b[2] - 0x80u);
    default: return (((b[0] - 0xF0u) * 64u + (b[1] - 0x80u)) * 64u + (b[2] - 0x80u)) * 64u + (b[3] - 0x80u);
    }
}

void spec_valid_view_construct() {
    uint64_t n = vp_u64();
    char *b = vp_bytes(n);
    bool ok = vp_utf8(b, n);
    vp_may_throw(!ok);
    P::U8StringView v(b, n);
    vp_assert(ok, "a view is only made of well-formed UTF-8");
    vp_assert(v.data() == b && v.size_bytes() == n, "the view spans the given bytes");
}
void spec_valid_view_construct_nul() {
    uint64_t n = vp_u64();
    const char *b = vp_cstr(n);
    bool ok = vp_utf8(b, n);
    vp_may_throw(!ok);
    P::U8StringView v(b, (size_t)-1);
    vp_assert(ok, "a view is only made of well-formed UTF-8");
    vp_assert(v.data() == b && v.size_bytes() == n, "the view spans the text up to the NUL");
}
// an arbitrary sequence of exactly k bytes (the memory ends behind it)
static const char *one(uint64_t &k) {
    k = 1 + vp_split(vp_u64() % 4, 4);
    char *b = vp_bytes(k);
    vp_assume(vp_seq(b, k));
    return b;
}
void spec_iter_decode() {
    uint64_t k;
    const char *b = one(k);
    P::ValidU8Iterator it((const unsigned char *)b);
    uint32_t c = *it;
    vp_assert(c == decode(b, k), "dereferencing yields the codepoint");
    vp_assert(it.data() == b, "dereferencing does not move");
    if(vp_bool()) {
        P::ValidU8Iterator &r = ++it;
        vp_assert(&r == &it && it.data() == b + k, "++ moves over exactly one codepoint");
    } else {
        P::ValidU8Iterator old = it++;
        vp_assert(old.data() == b && it.data() == b + k, "++ moves over exactly one codepoint");
        vp_assert(*old == decode(b, k), "the old iterator still yields the codepoint");
    }
}
void spec_iter_back() {
    uint64_t k;
    const char *b = one(k);
    P::ValidU8Iterator it((const unsigned char *)b + k);
    P::ValidU8Iterator &r = --it;
    vp_assert(&r == &it && it.data() == b, "-- moves back over exactly one codepoint");
    vp_assert(*it == decode(b, k), "dereferencing after -- yields that codepoint");
}
void spec_iter_compare() {
    uint64_t n = vp_u64(), i = vp_u64(), j = vp_u64();
    const unsigned char *b = (const unsigned char *)vp_bytes(n);
    vp_assume(i <= n && j <= n);
    P::ValidU8Iterator x(b + i), y(b + j);
    vp_assert((x == y) == (i == j) && (x != y) == (i != j), "iterators are equal exactly at the same position");
    int c = x <=> y;
    vp_assert((c < 0) == (i < j) && (c == 0) == (i == j) && (c > 0) == (i > j), "iterators are ordered by position");
}
void spec_reverse() {
    // the last codepoint of a string that consists of anything followed by one sequence; reads only that sequence
    uint64_t k;
    const char *b = one(k);
    P::ValidU8ReverseIterator it((const unsigned char *)b, k);
    vp_assert(it.offset == 0, "the reverse iterator starts at the last codepoint");
    vp_assert(*it == decode(b, k), "dereferencing yields the codepoint");
    P::ValidU8ReverseIterator end((const unsigned char *)b, -1);
    vp_assert(!(it == end) && it != end, "not at the end before the first codepoint is visited");
    if(vp_bool()) {
        ++it;
    } else {
        P::ValidU8ReverseIterator old = it++;
        vp_assert(*old == decode(b, k), "the old iterator still yields the codepoint");
    }
    vp_assert(it == end && !(it != end), "the end is reached behind the first codepoint");
    ++it;
    vp_assert(it == end, "it stays at the end");
}
void spec_reverse_step() {
    // two neighbouring codepoints: from the second to the first
    uint64_t k = 1 + vp_split(vp_u64() % 4, 4), m = 1 + vp_split(vp_u64() % 4, 4);
    char *b = vp_bytes(k + m);
    vp_assume(vp_seq(b, k));
    vp_assume(vp_seq(b + k, m));
    P::ValidU8ReverseIterator it((const unsigned char *)b, k + m);
    vp_assert(it.offset == (int64_t)k && *it == decode(b + k, m), "the reverse iterator starts at the last codepoint");
    ++it;
    vp_assert(it.offset == 0 && *it == decode(b, k), "then comes the codepoint before it");
}
void spec_encode() {
    uint32_t c = vp_cp();
    bool scalar = c != 0 && c <= 0x10FFFF && !(c >= 0xD800 && c <= 0xDFFF);
    P::U8String *s = (P::U8String *)vp_bytes(sizeof(P::U8String));
    bool thrown = false;
    try {
        s->append_codepoint(c);
    } catch(...) {
        thrown = true;
    }
    vp_assert(thrown == !scalar, "exactly the Unicode scalar values other than NUL are accepted");
    if(!thrown) {
        uint64_t k = vp_appended_n();
        vp_assert(k >= 1 && k <= 4, "one sequence is appended");
        k = vp_split(k, 5);
        char *t = vp_bytes(k);
        for(uint64_t i = 0; i < k; ++i)
            t[i] = (char)vp_appended(i);
        vp_assert(vp_seq(t, k), "the appended bytes are one well-formed sequence");
        vp_assert(decode(t, k) == c, "the appended bytes decode to the value");
    }
}
