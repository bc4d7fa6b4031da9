// C17: case conversion.  The conversion tables are arbitrary sorted arrays here; that the tables are the Unicode ones is decided
// by evaluating their initialisers (specs/casing.py).
#include <pystd2026.hpp>
#include <pystd2026_tables.hpp>
#include "vp.hpp"
using namespace pystd2026;

extern "C" bool vp_absent(const void *table, size_t n, size_t stride, uint32_t v) noexcept; // v is no entry's codepoint

static void is(const UnicodeConversionResult &r, uint32_t a, uint32_t b, uint32_t c, bool) {
    vp_assert(r.codepoints[0] == a, "the first codepoint");
    vp_assert(r.codepoints[1] == b, "the second codepoint");
    vp_assert(r.codepoints[2] == c, "the third codepoint");
}

void spec_case_upper_ascii() {
    uint32_t cp = vp_u32();
    vp_assume(cp < 128);
    auto r = uppercase_unicode(cp);
    uint32_t e = cp;
    if(cp >= 'a' && cp <= 'z')
        e = cp - 32;
    is(r, e, 0, 0, true);
}

void spec_case_lower_ascii() {
    uint32_t cp = vp_u32();
    vp_assume(cp < 128);
    auto r = lowercase_unicode(cp);
    uint32_t e = cp;
    if(cp >= 'A' && cp <= 'Z')
        e = cp + 32;
    is(r, e, 0, 0, true);
}

void spec_case_upper_multi() {
    size_t j = vp_u64();
    vp_assume(j < NUM_UPPERCASING_MULTICHAR_ENTRIES);
    const auto &m = uppercasing_multi[j];
    uint32_t a = m.converted.codepoints[0], b = m.converted.codepoints[1], c = m.converted.codepoints[2], cp = m.codepoint;
    vp_assume(cp >= 128);
    auto r = uppercase_unicode(cp);
    is(r, a, b, c, true);
}

void spec_case_upper_single() {
    size_t j = vp_u64();
    vp_assume(j < NUM_UPPERCASING_SINGLECHAR_ENTRIES);
    uint32_t x = uppercasing_multi[0].codepoint + uppercasing_multi[0].converted.codepoints[0] + uppercasing_multi[0].converted.codepoints[1] + uppercasing_multi[0].converted.codepoints[2];
    uint32_t to = uppercasing_single[j].to_codepoint, cp = uppercasing_single[j].from_codepoint;
    vp_assume(cp >= 128);
    vp_assume(vp_absent(uppercasing_multi, NUM_UPPERCASING_MULTICHAR_ENTRIES, sizeof uppercasing_multi[0], cp));
    auto r = uppercase_unicode(cp);
    is(r, to, 0, 0, x == x);
}

void spec_case_upper_none() {
    uint32_t cp = vp_u32();
    vp_assume(cp >= 128);
    uint32_t x = uppercasing_multi[0].codepoint + uppercasing_multi[0].converted.codepoints[0] + uppercasing_multi[0].converted.codepoints[1] + uppercasing_multi[0].converted.codepoints[2];
    uint32_t to = uppercasing_single[0].to_codepoint + uppercasing_single[0].from_codepoint;
    vp_assume(vp_absent(uppercasing_multi, NUM_UPPERCASING_MULTICHAR_ENTRIES, sizeof uppercasing_multi[0], cp));
    vp_assume(vp_absent(uppercasing_single, NUM_UPPERCASING_SINGLECHAR_ENTRIES, sizeof uppercasing_single[0], cp));
    auto r = uppercase_unicode(cp);
    is(r, cp, 0, 0, x + to == to + x);
}

void spec_case_lower_multi() {
    size_t j = vp_u64();
    vp_assume(j < NUM_LOWERCASING_MULTICHAR_ENTRIES);
    const auto &m = lowercasing_multi[j];
    uint32_t a = m.converted.codepoints[0], b = m.converted.codepoints[1], c = m.converted.codepoints[2], cp = m.codepoint;
    vp_assume(cp >= 128);
    auto r = lowercase_unicode(cp);
    is(r, a, b, c, true);
}

void spec_case_lower_single() {
    size_t j = vp_u64();
    vp_assume(j < NUM_LOWERCASING_SINGLECHAR_ENTRIES);
    uint32_t x = lowercasing_multi[0].codepoint + lowercasing_multi[0].converted.codepoints[0] + lowercasing_multi[0].converted.codepoints[1] + lowercasing_multi[0].converted.codepoints[2];
    uint32_t to = lowercasing_single[j].to_codepoint, cp = lowercasing_single[j].from_codepoint;
    vp_assume(cp >= 128);
    vp_assume(vp_absent(lowercasing_multi, NUM_LOWERCASING_MULTICHAR_ENTRIES, sizeof lowercasing_multi[0], cp));
    auto r = lowercase_unicode(cp);
    is(r, to, 0, 0, x == x);
}

void spec_case_lower_none() {
    uint32_t cp = vp_u32();
    vp_assume(cp >= 128);
    uint32_t x = lowercasing_multi[0].codepoint + lowercasing_multi[0].converted.codepoints[0] + lowercasing_multi[0].converted.codepoints[1] + lowercasing_multi[0].converted.codepoints[2];
    uint32_t to = lowercasing_single[0].to_codepoint + lowercasing_single[0].from_codepoint;
    vp_assume(vp_absent(lowercasing_multi, NUM_LOWERCASING_MULTICHAR_ENTRIES, sizeof lowercasing_multi[0], cp));
    vp_assume(vp_absent(lowercasing_single, NUM_LOWERCASING_SINGLECHAR_ENTRIES, sizeof lowercasing_single[0], cp));
    auto r = lowercase_unicode(cp);
    is(r, cp, 0, 0, x + to == to + x);
}

// ---- whole texts: the iterator, the mapping of one codepoint and appending a codepoint are used by contract
// (an iterator at position k yields the k-th codepoint; appending appends)
static const unsigned char *base;
static uint32_t *cps;    // the codepoints of the text
static uint32_t *maps;   // what the codepoint at hand maps to
static uint64_t length;
static uint64_t slot;    // how much of it was appended
static bool looked_up;
static bool have;        // the codepoint at hand was read
static uint32_t cur;
static uint64_t at(const ValidU8Iterator *it) { return it->buf - base; }
extern "C" uint32_t stub_deref(ValidU8Iterator *it) noexcept {
    uint64_t k = at(it);
    vp_assert(k < length, "only codepoints of the text are read");
    have = true;
    cur = cps[k];
    return cur;
}
extern "C" ValidU8Iterator &stub_inc(ValidU8Iterator *it) noexcept {
    uint64_t k = at(it);
    vp_assert(k < length, "the iterator stays in the text");
    vp_assert(looked_up, "every codepoint is converted");
    vp_assert((slot >= 3) | (maps[2] == 0), "the whole mapping is appended (third)");
    vp_assert((slot >= 2) | (maps[1] == 0), "the whole mapping is appended (second)");
    vp_assert((slot >= 1) | (maps[0] == 0), "the whole mapping is appended (first)");
    slot = 0;
    looked_up = false;
    have = false;
    it->buf = it->buf + 1;
    return *it;
}
extern "C" bool stub_ne(const ValidU8Iterator *a, const ValidU8Iterator &b) noexcept { return a->buf != b.buf; }
extern "C" UnicodeConversionResult stub_map(uint32_t cp) noexcept {
    vp_assert(!looked_up, "every codepoint is converted once");
    vp_assert(have, "the codepoint at hand is converted");
    vp_assert(cp == cur, "and no other");
    looked_up = true;
    UnicodeConversionResult r;
    maps[0] = r.codepoints[0] = vp_u32();
    maps[1] = r.codepoints[1] = vp_u32();
    maps[2] = r.codepoints[2] = vp_u32();
    maps[3] = cp;
    return r;
}
extern "C" UnicodeConversionResult stub_wrong(uint32_t cp) noexcept {
    vp_assert(false, "converts to the case asked for");
    UnicodeConversionResult r;
    return r;
}
extern "C" void stub_append(U8String *, uint32_t cp) noexcept {
    vp_assert(looked_up, "only mappings are appended");
    if(slot == 0 && maps[0] == 0)
        slot = 1;
    if(slot == 1 && maps[1] == 0)
        slot = 2;
    vp_assert(slot < 3, "nothing is appended twice");
    if(slot == 0)
        vp_assert(cp == maps[0], "the first codepoint of the mapping comes first");
    else if(slot == 1)
        vp_assert(cp == maps[1], "then the second");
    else
        vp_assert(cp == maps[2], "then the third");
    vp_assert(cp != 0, "no terminator is appended");
    slot = slot + 1;
}
extern "C" void stub_reserve(U8String *, size_t) noexcept {}
static U8StringView text() {
    length = vp_u64();
    vp_assume(length < (1ull << 40));
    base = (const unsigned char *)vp_bytes(length);
    cps = vp_u32s(length);
    static uint32_t m[4];
    maps = m;
    slot = 0;
    looked_up = false;
    have = false;
    cur = 0;
    U8StringView v;
    v.start.buf = base;
    v.stop.buf = base + length;
    v.start.has_char_info = v.stop.has_char_info = false;
    return v;
}
void spec_case_text_upper() {
    auto v = text();
    auto r = v.upper();
}
void spec_case_text_lower() {
    auto v = text();
    auto r = v.lower();
}
