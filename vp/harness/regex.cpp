// Contracts of U8Regex, U8Match and regex_search (C27) over the contracts of the PCRE2 functions, which the stubs below state.
#include <pystd2026_regex.hpp>
#define PCRE2_CODE_UNIT_WIDTH 8
#include <pcre2.h>
#include "vp.hpp"
namespace P = pystd2026;
extern "C" void vp_cstrobj(void *);                // an arbitrary reachable text
extern "C" bool vp_range_eq(const char *a, const char *b, uint64_t n);
extern "C" void vp_bytes_wf(void *);
static uint64_t codes, codes_freed, blocks, blocks_freed;
static long code, block;
static bool compile_fails, match_fails, message_fails;
static const char *subject, *pattern_text;
static uint64_t subject_size, groups;
static size_t *ovector;
extern "C" {
pcre2_code_8 *pcre2_compile_8(PCRE2_SPTR8 p, PCRE2_SIZE n, uint32_t opts, int *err, PCRE2_SIZE *off, pcre2_compile_context_8 *ctx) {
    vp_assert((const char *)p == pattern_text && (n == PCRE2_ZERO_TERMINATED) && (opts & PCRE2_UTF), "the whole pattern is compiled, as UTF-8");
    if(compile_fails) {
        *err = vp_i32();
        *off = vp_u64();
        return nullptr;
    }
    vp_assert(codes == codes_freed, "one pattern at a time in these contracts");
    ++codes;
    return (pcre2_code_8 *)&code;
}
void pcre2_code_free_8(pcre2_code_8 *c) {
    if(!c)
        return;
    vp_assert((void *)c == &code && codes == codes_freed + 1, "a compiled pattern is released once");
    ++codes_freed;
}
int pcre2_get_error_message_8(int, PCRE2_UCHAR8 *buf, PCRE2_SIZE n) {
    vp_assert(n >= 1, "room for the message");
    if(message_fails)
        return PCRE2_ERROR_NOMEMORY;
    // some message that fits
    vp_assume(n >= 4);
    buf[0] = 'b';
    buf[1] = 'a';
    buf[2] = 'd';
    buf[3] = 0;
    return 3;
}
pcre2_match_data_8 *pcre2_match_data_create_from_pattern_8(const pcre2_code_8 *c, pcre2_general_context_8 *) {
    vp_assert((const void *)c == &code && codes == codes_freed + 1, "a compiled pattern");
    ++blocks;
    return (pcre2_match_data_8 *)&block;
}
void pcre2_match_data_free_8(pcre2_match_data_8 *m) {
    if(!m)
        return;
    vp_assert((void *)m == &block && blocks == blocks_freed + 1, "match data is released once");
    ++blocks_freed;
}
int pcre2_match_8(const pcre2_code_8 *c, PCRE2_SPTR8 s, PCRE2_SIZE n, PCRE2_SIZE start, uint32_t opts, pcre2_match_data_8 *m, pcre2_match_context_8 *) {
    vp_assert((const void *)c == &code && codes == codes_freed + 1, "a compiled pattern");
    vp_assert((void *)m == &block && blocks == blocks_freed + 1, "its match data");
    vp_assert((const char *)s == subject && (n == PCRE2_ZERO_TERMINATED || n == subject_size) && start == 0 && opts == 0, "the whole text is searched");
    if(match_fails) {
        int r = vp_i32();
        vp_assume(r < 0);
        return r;
    }
    int r = vp_i32();
    vp_assume(r >= 1 && (uint64_t)r <= groups);
    return r;
}
uint32_t pcre2_get_ovector_count_8(pcre2_match_data_8 *m) {
    vp_assert((void *)m == &block && blocks == blocks_freed + 1, "live match data");
    return groups;
}
PCRE2_SIZE *pcre2_get_ovector_pointer_8(pcre2_match_data_8 *m) {
    vp_assert((void *)m == &block && blocks == blocks_freed + 1, "live match data");
    return ovector;
}
}
// any text and any result of matching: each group is unset or a slice of the text
static void world(P::U8String &text) {
    codes = codes_freed = blocks = blocks_freed = 0;
    compile_fails = match_fails = message_fails = false;
    vp_cstrobj(&text.cstring.bytes);
    subject = text.c_str();
    subject_size = text.size_bytes();
    groups = vp_u32();
    vp_assume(groups >= 1 && groups <= 0xffff + 1);
    ovector = (size_t *)vp_u64s(2 * groups);
}
static P::U8Match mk(P::U8String &text) {
    ++blocks;
    return P::U8Match(&block, &text);
}
static void arbitrary_group(uint64_t g, bool &in, bool &set) {
    in = g < groups;
    set = false;
    if(in) {
        uint64_t a = ovector[2 * g], b = ovector[2 * g + 1];
        set = a != PCRE2_UNSET;
        // PCRE2's contract
        vp_assume(((a == PCRE2_UNSET) & (b == PCRE2_UNSET)) | ((a <= b) & (b <= subject_size)));
    }
}
void spec_regex_group() {
    P::U8String text;
    world(text);
    uint64_t g = vp_u64();
    bool in, set;
    arbitrary_group(g, in, set);
    bool thrown = false;
    {
        P::U8Match m = mk(text);
        vp_assert(m.num_groups() == groups - 1, "the number of groups");
        P::U8StringView v;
        try {
            v = m.group(g);
        } catch(...) {
            thrown = true;
        }
        vp_assert(thrown == !(in & set), "exactly the groups that exist and took part are reported");
        if(!thrown)
            vp_assert((v.data() == subject + ovector[2 * g]) & (v.size_bytes() == ovector[2 * g + 1] - ovector[2 * g]), "the slice of the text that the engine reports");
    }
    vp_assert(blocks == 1 && blocks_freed == 1, "match data is released");
}
void spec_regex_get_submatch() {
    P::U8String text;
    world(text);
    uint64_t g = vp_u64();
    bool in, set;
    arbitrary_group(g, in, set);
    bool thrown = false;
    {
        P::U8Match m = mk(text);
        P::U8String v;
        try {
            v = m.get_submatch(g);
        } catch(...) {
            thrown = true;
        }
        vp_assert(thrown == !(in & set), "exactly the groups that exist and took part are reported");
        if(!thrown) {
            vp_bytes_wf(&v.cstring.bytes);
            uint64_t n = ovector[2 * g + 1] - ovector[2 * g];
            vp_assert((v.size_bytes() == n) & vp_range_eq(v.c_str(), subject + ovector[2 * g], n), "a copy of the slice that the engine reports");
        }
    }
    vp_assert(blocks == 1 && blocks_freed == 1, "match data is released");
}
void spec_regex_search() {
    P::U8String text, pat;
    world(text);
    vp_cstrobj(&pat.cstring.bytes);
    pattern_text = pat.c_str();
    compile_fails = vp_bool();
    match_fails = vp_bool();
    message_fails = vp_bool();
    bool thrown = false;
    try {
        P::U8Regex r(pat);
        vp_assert(!compile_fails && codes == 1 && codes_freed == 0, "a regex has its compiled pattern");
        P::U8Match m = P::regex_search(r, text);
        vp_assert(!match_fails && blocks == 1 && blocks_freed == 0 && codes_freed == 0, "a match has its match data");
        vp_assert((void *)m.handle == &block && m.original == &text, "a match refers to its text");
    } catch(...) {
        thrown = true;
    }
    vp_assert(thrown == (compile_fails | match_fails), "exactly the failures are reported");
    vp_assert(codes == !compile_fails && codes_freed == codes, "the pattern is released once");
    vp_assert(blocks == !compile_fails && blocks_freed == blocks, "match data is released once");
}
void spec_regex_match_moves() {
    P::U8String text;
    world(text);
    {
        P::U8Match a = mk(text);
        P::U8Match b(static_cast<P::U8Match &&>(a));
        vp_assert(b.handle == (void *)&block && b.original == &text && !a.handle, "a move hands the match data over");
        if(vp_bool()) {
            P::U8Match c(static_cast<P::U8Match &&>(b));
            vp_assert(c.num_groups() == groups - 1, "and the groups");
        }
    }
    vp_assert(blocks == 1 && blocks_freed == 1, "match data is released once");
}
