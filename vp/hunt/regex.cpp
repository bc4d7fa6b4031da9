// Executable oracle for C27: random patterns and texts; what the engine reported is recorded by wrappers of the PCRE2 functions,
// which also count the objects.
#include <pystd2026_regex.hpp>
#define PCRE2_CODE_UNIT_WIDTH 8
#include <pcre2.h>
#include "hunt.hpp"
namespace P = pystd2026;
using namespace hunt;
static long codes, blocks;
static size_t vec[200];
static uint32_t nvec;
static int last_rc;
static bool compile_failed, searched;
static char seen[4096];
extern "C" {
pcre2_code_8 *__real_pcre2_compile_8(PCRE2_SPTR8, PCRE2_SIZE, uint32_t, int *, PCRE2_SIZE *, pcre2_compile_context_8 *);
void __real_pcre2_code_free_8(pcre2_code_8 *);
pcre2_match_data_8 *__real_pcre2_match_data_create_from_pattern_8(const pcre2_code_8 *, pcre2_general_context_8 *);
void __real_pcre2_match_data_free_8(pcre2_match_data_8 *);
int __real_pcre2_match_8(const pcre2_code_8 *, PCRE2_SPTR8, PCRE2_SIZE, PCRE2_SIZE, uint32_t, pcre2_match_data_8 *, pcre2_match_context_8 *);
pcre2_code_8 *__wrap_pcre2_compile_8(PCRE2_SPTR8 p, PCRE2_SIZE n, uint32_t o, int *e, PCRE2_SIZE *f, pcre2_compile_context_8 *c) {
    auto r = __real_pcre2_compile_8(p, n, o, e, f, c);
    compile_failed = !r;
    codes += r != nullptr;
    return r;
}
void __wrap_pcre2_code_free_8(pcre2_code_8 *c) {
    codes -= c != nullptr;
    __real_pcre2_code_free_8(c);
}
pcre2_match_data_8 *__wrap_pcre2_match_data_create_from_pattern_8(const pcre2_code_8 *c, pcre2_general_context_8 *g) {
    ++blocks;
    return __real_pcre2_match_data_create_from_pattern_8(c, g);
}
void __wrap_pcre2_match_data_free_8(pcre2_match_data_8 *m) {
    blocks -= m != nullptr;
    __real_pcre2_match_data_free_8(m);
}
int __wrap_pcre2_match_8(const pcre2_code_8 *c, PCRE2_SPTR8 s, PCRE2_SIZE n, PCRE2_SIZE at, uint32_t o, pcre2_match_data_8 *m, pcre2_match_context_8 *x) {
    last_rc = __real_pcre2_match_8(c, s, n, at, o, m, x);
    searched = true;
    snprintf(seen, sizeof seen, "%.*s", n == PCRE2_ZERO_TERMINATED ? 4000 : (int)n, (const char *)s);
    nvec = pcre2_get_ovector_count_8(m);
    memcpy(vec, pcre2_get_ovector_pointer_8(m), 2 * nvec * sizeof(size_t));
    return last_rc;
}
}
#define CHECK(c, ...)          \
    do {                       \
        if(!(c))               \
            fail(__VA_ARGS__); \
    } while(0)
static const char *letters[] = {"a", "b", "c", "ä", "€", "😀", "x"};
static void piece(char *o, int depth, int &groups) {
    int n = 1 + below(3);
    for(int i = 0; i < n; ++i) {
        switch(below(depth ? 9 : 5)) {
        case 0: strcat(o, "."); break;
        case 1: strcat(o, "[ab€]"); break;
        case 5:
        case 6:
            if(groups >= 20)
                break;
            ++groups;
            strcat(o, "(");
            piece(o, depth - 1, groups);
            if(below(2)) {
                strcat(o, "|");
                piece(o, depth - 1, groups);
            }
            strcat(o, ")");
            break;
        case 7:
            strcat(o, "(?:");
            piece(o, depth - 1, groups);
            strcat(o, "|");
            piece(o, depth - 1, groups);
            strcat(o, ")");
            break;
        default: strcat(o, letters[below(7)]); break;
        }
        if(below(5) == 0)
            strcat(o, below(2) ? "?" : below(2) ? "*" : "+");
    }
}
static void one() {
    char pat[4000] = "", text[400] = "";
    int groups = 0;
    if(below(30) == 0)
        strcpy(pat, below(2) ? "(a" : "[");
    else
        piece(pat, 3, groups);
    for(int i = below(30); i > 0; --i)
        strcat(text, letters[below(7)]);
    setcase("pattern %s text %s", pat, text);
    bool thrown = false, invalid = pat[0] && !pat[1] && pat[0] == '[' || !strcmp(pat, "(a");
    searched = compile_failed = false;
    try {
        P::U8String ps(pat), ts(text);
        P::U8Regex r(ps);
        CHECK(codes == 1, "%ld compiled patterns", codes);
        P::U8Match m0 = P::regex_search(r, ts);
        CHECK(searched && !strcmp(seen, text), "another text is searched");
        bool mv = below(2);
        P::U8Match m1(static_cast<P::U8Match &&>(m0));
        P::U8Match m2(static_cast<P::U8Match &&>(m1));
        CHECK(last_rc > 0, "a match although the engine found none");
        CHECK(m2.num_groups() == nvec - 1 && nvec - 1 == (uint32_t)groups, "%zu groups instead of %d", m2.num_groups(), groups);
        CHECK(blocks == 1, "%ld match data blocks", blocks);
        for(size_t g = 0; g <= nvec + 2; ++g) {
            size_t q = g == nvec + 2 ? (size_t)-1 - below(3) : g;
            bool set = q < nvec && vec[2 * q] != PCRE2_UNSET;
            for(int how = 0; how < 2; ++how) {
                bool t = false;
                size_t n = 0;
                const char *d = nullptr;
                P::U8String copy;
                try {
                    if(how) {
                        copy = m2.get_submatch(q);
                        d = copy.c_str();
                        n = copy.size_bytes();
                    } else {
                        auto v = m2.group(q);
                        d = v.data();
                        n = v.size_bytes();
                        CHECK(d >= ts.c_str() && d + n <= ts.c_str() + ts.size_bytes(), "group %zu is not part of the text", q);
                    }
                } catch(const P::PyException &) {
                    t = true;
                }
                CHECK(t == !set, "%s(%zu) %s", how ? "get_submatch" : "group", q, t ? "is reported as missing" : "is not reported as missing");
                if(set) {
                    size_t k = vec[2 * q + 1] - vec[2 * q];
                    CHECK(n == k && memcmp(d, text + vec[2 * q], k) == 0, "%s(%zu) has other bytes", how ? "get_submatch" : "group", q);
                    CHECK(how || d == ts.c_str() + vec[2 * q], "group(%zu) is another slice", q);
                }
            }
        }
    } catch(const P::PyException &) {
        thrown = true;
    }
    CHECK(thrown == (compile_failed || last_rc < 0) && compile_failed == invalid, "failures are not reported");
    last_rc = 1;
    CHECK(codes == 0 && blocks == 0, "%ld patterns and %ld match data blocks left", codes, blocks);
}
int main() {
    init();
    last_rc = 1;
    while(more())
        one();
    finish();
}
