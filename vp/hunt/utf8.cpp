// Executable oracle for UTF-8 (C15, C16): an independent table 3-7 validator and decoder.
#include <pystd2026.hpp>
#include "hunt.hpp"
namespace P = pystd2026;
using namespace hunt;
typedef unsigned char uc;
static bool in(uc c, uc a, uc b) { return c >= a && c <= b; }
// length of the well-formed sequence at p, 0 if none
static size_t step(const uc *p, size_t n) {
    if(n >= 1 && p[0] <= 0x7f)
        return 1;
    if(n >= 2 && in(p[0], 0xc2, 0xdf) && in(p[1], 0x80, 0xbf))
        return 2;
    if(n >= 3 && in(p[2], 0x80, 0xbf)) {
        if((p[0] == 0xe0 && in(p[1], 0xa0, 0xbf)) || (in(p[0], 0xe1, 0xec) && in(p[1], 0x80, 0xbf)) || (p[0] == 0xed && in(p[1], 0x80, 0x9f)) || (in(p[0], 0xee, 0xef) && in(p[1], 0x80, 0xbf)))
            return 3;
    }
    if(n >= 4 && in(p[2], 0x80, 0xbf) && in(p[3], 0x80, 0xbf))
        if((p[0] == 0xf0 && in(p[1], 0x90, 0xbf)) || (in(p[0], 0xf1, 0xf3) && in(p[1], 0x80, 0xbf)) || (p[0] == 0xf4 && in(p[1], 0x80, 0x8f)))
            return 4;
    return 0;
}
static uint32_t dec(const uc *p, size_t k) {
    if(k == 1)
        return p[0];
    uint32_t v = p[0] & (k == 2 ? 0x1f : k == 3 ? 0xf : 7);
    for(size_t i = 1; i < k; ++i)
        v = v << 6 | (p[i] & 63);
    return v;
}
static bool valid(const uc *p, size_t n) {
    size_t i = 0;
    while(i < n) {
        size_t k = step(p + i, n - i);
        if(!k)
            return false;
        i += k;
    }
    return true;
}
template<typename F> static bool throws(F f) {
    try {
        f();
    } catch(...) {
        return true;
    }
    return false;
}
static size_t enc(uint32_t c, uc *o) {
    if(c < 0x80) {
        o[0] = c;
        return 1;
    }
    if(c < 0x800) {
        o[0] = 0xc0 + c / 64;
        o[1] = 0x80 + c % 64;
        return 2;
    }
    if(c < 0x10000) {
        o[0] = 0xe0 + c / 4096;
        o[1] = 0x80 + c / 64 % 64;
        o[2] = 0x80 + c % 64;
        return 3;
    }
    o[0] = 0xf0 + c / 262144;
    o[1] = 0x80 + c / 4096 % 64;
    o[2] = 0x80 + c / 64 % 64;
    o[3] = 0x80 + c % 64;
    return 4;
}
static uint32_t gencp(bool nul) {
    static const uint32_t edge[] = {1, 0x7f, 0x80, 0x7ff, 0x800, 0xd7ff, 0xe000, 0xffff, 0x10000, 0x10ffff, 0xfffd, 0x3fff, 0x40000, 0xfffff, 0x100000, 'a', 0xe9, 0x20ac, 0x1f600};
    for(;;) {
        uint32_t c = below(3) ? edge[below(sizeof edge / 4)] : (uint32_t)below(below(2) ? 0x110000 : 0x900);
        if(c >= 0xd800 && c <= 0xdfff)
            continue;
        if(c || nul)
            return c;
    }
}
#ifdef C15
static void one(const uc *b, size_t n) {
    setcase("bytes %s (n=%zu)", hexs(b, n), n);
    char *p = (char *)malloc(n + (n == 0));
    memcpy(p, b, n);
    bool ok = valid(b, n);
    bool t = throws([&] {
        P::U8StringView v(p, n);
        if(v.size_bytes() != n || v.data() != p)
            fail("view has the wrong extent");
    });
    if(t == ok)
        fail("U8StringView %s this %s-formed text", t ? "rejects" : "accepts", ok ? "well" : "ill");
    bool nul = n && memchr(b, 0, n);
    t = throws([&] {
        P::U8String v(p, n);
        if(v.size_bytes() != n || memcmp(v.c_str(), p, n) || v.c_str()[n])
            fail("U8String has the wrong contents");
    });
    if(t == (ok && !nul))
        fail("U8String %s this text", t ? "rejects" : "accepts");
    if(n) {
        t = throws([&] {
            P::Bytes y(p, n);
            P::U8String v(static_cast<P::Bytes &&>(y));
            if(v.size_bytes() != n || memcmp(v.c_str(), p, n))
                fail("U8String has the wrong contents");
        });
        if(t == (ok && !nul))
            fail("U8String(Bytes) %s this text", t ? "rejects" : "accepts");
    }
    if(!nul) {
        char *z = (char *)malloc(n + 1);
        memcpy(z, b, n);
        z[n] = 0;
        t = throws([&] {
            P::U8StringView v(z, (size_t)-1);
            if(v.size_bytes() != n)
                fail("view of a terminated string has %zu bytes", v.size_bytes());
        });
        if(t == ok)
            fail("U8StringView(-1) %s this text", t ? "rejects" : "accepts");
        t = throws([&] {
            P::U8String v(z);
            if(v.size_bytes() != n || strcmp(v.c_str(), z))
                fail("wrong contents");
        });
        if(t == ok)
            fail("U8String(text) %s this text", t ? "rejects" : "accepts");
        free(z);
    }
    free(p);
}
int main() {
    HUNT_MAIN_INIT();
    uc b[64];
    one(b, 0);
    for(int i = 0; i < 256; ++i)
        b[0] = i, one(b, 1);
    for(int i = 0; i < 65536; i += i < 0x8000 ? 37 : 1)
        b[0] = i >> 8, b[1] = i, one(b, 2);
    // every leading byte with boundary continuation bytes
    static const uc e[] = {0x00, 0x7f, 0x80, 0x8f, 0x90, 0x9f, 0xa0, 0xbf, 0xc0, 0xc2, 0xff};
    for(int l = 0xc0; l < 256; ++l)
        for(uc x : e)
            for(uc y : e) {
                b[0] = l, b[1] = x, b[2] = y;
                one(b, 3);
                for(uc z : e) {
                    b[3] = z;
                    one(b, 4);
                }
            }
    while(more()) {
        size_t n = 0;
        unsigned parts = below(8);
        while(parts--)
            n += enc(gencp(true), b + n);
        switch(below(5)) {
        case 0:
            if(n)
                b[below(n)] ^= 1 << below(8);
            break;
        case 1:
            if(n)
                n -= 1 + below(n < 3 ? n : 3);
            break;
        case 2:
            if(n) {
                size_t i = below(n);
                memmove(b + i, b + i + 1, n - i - 1);
                --n;
            }
            break;
        case 3:
            if(n)
                b[below(n)] = rnd();
            break;
        }
        one(b, n);
    }
    finish();
}
#else
static void one() {
    uc b[160];
    uint32_t cp[32];
    size_t at[33], n = 0, m = below(12);
    for(size_t i = 0; i < m; ++i) {
        cp[i] = gencp(false);
        at[i] = n;
        n += enc(cp[i], b + n);
    }
    at[m] = n;
    setcase("text %s", hexs(b, n));
    char *p = (char *)malloc(n + (n == 0));
    memcpy(p, b, n);
    P::U8StringView v(p, n);
    size_t i = 0;
    for(auto it = v.begin(); it != v.end(); i % 2 ? (void)++it : (void)it++) {
        if(i >= m || *it != cp[i] || *it != cp[i] || it.data() != p + at[i])
            fail("forward iteration: item %zu", i);
        ++i;
    }
    if(i != m)
        fail("forward iteration visits %zu codepoints, not %zu", i, m);
    auto bk = v.end();
    for(i = m; i--;) {
        --bk;
        if(bk.data() != p + at[i] || *bk != cp[i])
            fail("backward stepping: item %zu", i);
    }
    if(!(bk == v.begin()))
        fail("backward stepping does not end at the beginning");
    // mixed stepping
    if(m) {
        auto it = v.begin();
        size_t k = 0;
        for(int s = 0; s < 20; ++s) {
            if(k < m && (k == 0 || below(2))) {
                if(*it != cp[k])
                    fail("mixed stepping");
                ++it;
                ++k;
            } else {
                --it;
                --k;
                if(*it != cp[k])
                    fail("mixed stepping");
            }
        }
    }
    P::U8String s(p, n);
    i = m;
    for(auto it = s.crbegin(); it != s.crend(); i % 2 ? (void)++it : (void)it++) {
        if(i == 0 || *it != cp[i - 1])
            fail("reverse iteration: item %zu", i);
        --i;
    }
    if(i)
        fail("reverse iteration misses %zu codepoints", i);
    P::U8String t;
    for(i = 0; i < m; ++i)
        t.append_codepoint(cp[i]);
    if(t.size_bytes() != n || memcmp(t.c_str(), b, n) || t.c_str()[n])
        fail("appending the codepoints gives %s", hexs(t.c_str(), t.size_bytes()));
    if(!(v == t.c_str()) || !(v == t.view()) || !(t == s) || !(t == s.c_str()))
        fail("equal texts do not compare equal");
    {
        P::U8String x(s);
        x.append_codepoint('x');
        if(v == x.c_str() || x == s || x.view() == v)
            fail("texts of different length compare equal");
        if(m) {
            char *c = (char *)malloc(n + 1);
            memcpy(c, b, n);
            c[n] = 0;
            c[at[m - 1]] = 0;
            if(v == c)
                fail("a longer view equals its prefix");
            free(c);
        }
    }
    // slices
    if(m) {
        size_t f = below(m + 1), l = f + below(m - f + 1);
        P::U8String sub = s.substr(at[f], at[l] - at[f]);
        if(sub.size_bytes() != at[l] - at[f] || memcmp(sub.c_str(), b + at[f], at[l] - at[f]))
            fail("substr(%zu,%zu)", at[f], at[l] - at[f]);
        if(!throws([&] { s.substr(at[f], n - at[f] + 1 + below(5)); }) || !throws([&] { s.substr(n + 1 + below(9), below(4)); }))
            fail("substr outside the string is not reported");
        P::U8String q(s);
        q.pop_back();
        if(q.size_bytes() != at[m - 1] || memcmp(q.c_str(), b, at[m - 1]))
            fail("pop_back");
        P::U8String r(s);
        r.pop_front();
        if(r.size_bytes() != n - at[1] || memcmp(r.c_str(), b + at[1], n - at[1]))
            fail("pop_front");
    }
    free(p);
}
static void scalar(uint32_t c) {
    setcase("codepoint %x", c);
    P::U8String s("ab");
    bool bad = c == 0 || c > 0x10ffff || (c >= 0xd800 && c <= 0xdfff);
    if(throws([&] { s.append_codepoint(c); }) != bad)
        fail("codepoint is %s", bad ? "accepted" : "rejected");
    uc e[8];
    size_t k = bad ? 0 : enc(c, e);
    if(s.size_bytes() != 2 + k || memcmp(s.c_str() + 2, e, k) || s.c_str()[2 + k])
        fail("wrong encoding %s", hexs(s.c_str(), s.size_bytes()));
}
int main() {
    HUNT_MAIN_INIT();
    for(uint32_t c = 0; c < 0x3000; ++c)
        scalar(c);
    for(uint32_t c = 0xd700; c < 0xe100; c += 3)
        scalar(c);
    for(uint32_t c = 0xff00; c < 0x10100; ++c)
        scalar(c);
    for(uint32_t c = 0x10f000; c < 0x110100; c += 7)
        scalar(c);
    static const uint32_t special[] = {0x10ffffu, 0x110000u, 0x1fffffu, 0x200000u, 0x7fffffffu, 0x80000000u, 0xffffffffu, 0x80000041u, 0x1000041u};
    for(uint32_t c : special)
        scalar(c);
    while(more()) {
        one();
        scalar(gencp(true));
        scalar((uint32_t)rnd());
    }
    finish();
}
#endif
