// Executable oracle for C17: every codepoint against the Unicode Character Database, then whole texts.
#include <pystd2026.hpp>
#include "hunt.hpp"
#include "casing.inc"
namespace P = pystd2026;
using namespace hunt;
static unsigned up[0x110000][3], lo[0x110000][3];
static char *enc(char *o, unsigned c) {
    if(c < 0x80)
        *o++ = c;
    else if(c < 0x800) {
        *o++ = 0xC0 | c >> 6;
        *o++ = 0x80 | (c & 63);
    } else if(c < 0x10000) {
        *o++ = 0xE0 | c >> 12;
        *o++ = 0x80 | (c >> 6 & 63);
        *o++ = 0x80 | (c & 63);
    } else {
        *o++ = 0xF0 | c >> 18;
        *o++ = 0x80 | (c >> 12 & 63);
        *o++ = 0x80 | (c >> 6 & 63);
        *o++ = 0x80 | (c & 63);
    }
    return o;
}
int main() {
    init();
    for(unsigned c = 0; c < 0x110000; ++c)
        up[c][0] = lo[c][0] = c;
    for(auto &r : ref_upper)
        memcpy(up[r[0]], r + 1, 12);
    for(auto &r : ref_lower)
        memcpy(lo[r[0]], r + 1, 12);
    for(uint64_t c = 0; c < 0x110000; ++c) {
        setcase("codepoint %lu", c);
        auto u = P::uppercase_unicode(c), l = P::lowercase_unicode(c);
        for(int i = 0; i < 3; ++i) {
            if(u.codepoints[i] != up[c][i])
                fail("uppercase gives %u at %d, not %u", u.codepoints[i], i, up[c][i]);
            if(l.codepoints[i] != lo[c][i])
                fail("lowercase gives %u at %d, not %u", l.codepoints[i], i, lo[c][i]);
        }
    }
    for(int k = 0; k < 3000; ++k) {
        uint32_t c = k < 10 ? 0x110000 + k : 0x110000 + below(0xFFFFFFFFu - 0x110000);
        setcase("value %u", c);
        auto u = P::uppercase_unicode(c), l = P::lowercase_unicode(c);
        if(u.codepoints[0] != c || u.codepoints[1] || u.codepoints[2] || l.codepoints[0] != c || l.codepoints[1] || l.codepoints[2])
            fail("values beyond the codepoints are mapped");
    }
    do {
        static char in[300], eu[1000], el[1000];
        char *i = in, *u = eu, *l = el;
        for(int n = below(20); n > 0; --n) {
            unsigned c;
            switch(below(4)) {
            case 0: c = 1 + below(127); break;
            case 1: c = ref_upper[below(sizeof ref_upper / 16)][0]; break;
            case 2: c = ref_lower[below(sizeof ref_lower / 16)][0]; break;
            default: c = 1 + below(0x10FFFF);
            }
            if(c >= 0xD800 && c < 0xE000)
                continue;
            i = enc(i, c);
            for(unsigned x : up[c])
                if(x)
                    u = enc(u, x);
            for(unsigned x : lo[c])
                if(x)
                    l = enc(l, x);
        }
        *i = *u = *l = 0;
        setcase("text %s", hexs(in, i - in));
        P::U8String s(in);
        if(!(s.view().upper() == eu))
            fail("upper gives %s", s.view().upper().c_str());
        if(!(s.view().lower() == el))
            fail("lower gives %s", s.view().lower().c_str());
    } while(more());
    finish();
}
