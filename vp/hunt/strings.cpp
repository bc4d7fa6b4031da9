// Executable oracle for the string classes: C13 views, C12 CString, C14 FixedCString, C09 Bytes.
#include <pystd2026.hpp>
#include "hunt.hpp"
namespace P = pystd2026;
using namespace hunt;
typedef unsigned char uc;
enum { NONE = -1 };
template<typename F> static bool throws(F f) {
    try {
        f();
    } catch(...) {
        return true;
    }
    return false;
}
// a byte buffer of exactly n bytes on the heap, so that any access past its end is seen
struct Buf {
    char *p;
    size_t n;
    Buf(size_t n) : p((char *)malloc(n ? n : 1)), n(n) {
        if(n == 0) {
            free(p);
            p = (char *)malloc(1) + 0;
        }
    }
    Buf(const char *s, size_t n) : Buf(n) { memcpy(p, s, n); }
    Buf(const Buf &) = delete;
    ~Buf() { free(p); }
};
static bool iswhite(char c) { return c == ' ' || c == '\t' || c == '\n' || c == '\r'; }
static char rc(int kind) {
    switch(kind) {
    case 0: return 'a' + below(2);
    case 1: return " \t\n\rab"[below(6)];
    case 2: return 'A' + below(58);
    case 3: return (char)range(1, 255);
    case 4: return "\x7f\x80\xff\x01"[below(4)];
    default: return (char)below(256);
    }
}
static size_t rlen() { return below(8) == 0 ? range(0, 70) : range(0, 6); }
// arbitrary text in o (at most 70 bytes); NUL free unless kind 5
static size_t text(char *o, bool nul) {
    int k = below(nul ? 6 : 5);
    size_t n = rlen();
    for(size_t i = 0; i < n; ++i)
        o[i] = rc(k);
    return n;
}
static bool eq(P::CStringView v, const char *s, size_t n) { return v.size() == n && (n == 0 || memcmp(v.data(), s, n) == 0); }
#define CHECK(c, ...)         \
    do {                      \
        if(!(c))              \
            fail(__VA_ARGS__); \
    } while(0)

#ifdef C13
struct H {
    char b[200];
    size_t n = 0;
    void feed_bytes(const char *p, size_t k) {
        memcpy(b + n, p, k);
        n += k;
    }
};
struct Pieces {
    size_t at[100], len[100], n = 0, stop;
    const char *base;
};
static bool piece(const P::CStringView &v, void *c) {
    Pieces &p = *(Pieces *)c;
    p.at[p.n] = v.data() - p.base;
    p.len[p.n] = v.size();
    return ++p.n != p.stop;
}
static void onecase() {
    char t[100], u[100];
    size_t n = text(t, true), m = text(u, true);
    switch(below(6)) {
    case 0: // a factor of t
        if(n) {
            size_t a = below(n + 1);
            m = below(n - a + 1);
            memcpy(u, t + a, m);
        }
        break;
    case 1: // a prefix, perhaps longer
        m = n + below(3);
        memcpy(u, t, n);
        break;
    case 2: // a suffix
        m = below(n + 1);
        memcpy(u, t + n - m, m);
        break;
    case 3: // a near miss
        m = n;
        memcpy(u, t, n);
        if(m)
            u[below(m)] ^= 1 << below(8);
        break;
    }
    Buf b(t, n), c(u, m);
    setcase("view t=%s u=%s", hexs(t, n), hexs(u, m));
    P::CStringView v(b.p, n), w(c.p, m);
    CHECK(v.size() == n && v.data() == b.p && v.is_empty() == (n == 0) && v.begin() == b.p && v.end() == b.p + n, "construct");
    {
        P::CStringView x((const char *)b.p, (const char *)b.p + n);
        CHECK(x.size() == n && x.data() == b.p, "two pointer construct");
        if(n)
            CHECK(throws([&] { P::CStringView y((const char *)b.p + n, (const char *)b.p); }), "reversed construct");
        P::Span<const char> sp(b.p, n);
        P::CStringView z(sp);
        CHECK(z.size() == n && z.data() == b.p, "span construct");
    }
    for(size_t i = 0; i < n; ++i)
        CHECK(v[i] == t[i] && v.at(i) == t[i] && v.unsafe_at(i) == t[i], "index %zu", i);
    for(size_t i : (size_t[4]){n, n + 1, (size_t)-1, (size_t)1 << 63}) {
        CHECK(throws([&] { (void)v[i]; }), "index %zu not reported", i);
        CHECK(throws([&] { (void)v.at(i); }), "index %zu not reported", i);
    }
    if(n)
        CHECK(v.front() == t[0], "front");
    else
        CHECK(throws([&] { (void)v.front(); }), "front of empty");
    char ch = below(2) && n ? t[below(n)] : rc(below(6));
    size_t e = NONE;
    for(size_t i = n; i-- > 0;)
        if(t[i] == ch)
            e = i;
    CHECK(v.find(ch) == e, "find(%d): %zu for %zu", ch, v.find(ch), e);
    e = NONE;
    for(size_t i = n + 1; i-- > 0;)
        if(m <= n && i <= n - m && memcmp(t + i, u, m) == 0)
            e = i;
    CHECK(v.find(w) == e, "find(view): %zu for %zu", v.find(w), e);
    bool pre = m <= n && memcmp(t, u, m) == 0, same = n == m && memcmp(t, u, n) == 0;
    CHECK(v.starts_with(w) == pre, "starts_with(view)");
    CHECK((v == w) == same, "==");
    size_t k = 0;
    while(k < n && k < m && t[k] == u[k])
        ++k;
    bool less = k == n ? k < m : k < m && (uc)t[k] < (uc)u[k];
    CHECK((v < w) == less, "<: %d for %d", v < w, less);
    {
        P::CStringView none; // refers to no memory at all
        CHECK(none.size() == 0 && none.is_empty(), "default view");
        CHECK((none == w) == (m == 0) && (w == none) == (m == 0) && w.starts_with(none) && w.find(none) == 0, "default view: == starts_with find");
        CHECK((none < w) == (m > 0) && !(w < none), "default view: <");
        CHECK(none.find('a') == (size_t)-1 && none.find(w) == (m ? (size_t)-1 : 0) && !none.overlaps(w) && !w.overlaps(none), "default view: find overlaps");
    }
    // NUL terminated arguments
    if(!memchr(t, 0, n) && !memchr(u, 0, m)) {
        Buf z(m + 1);
        memcpy(z.p, u, m);
        z.p[m] = 0;
        const char *zs = z.p;
        CHECK(v.starts_with(zs) == pre, "starts_with(str)");
        CHECK((v == zs) == same, "== str");
        P::CStringView q(zs);
        CHECK(eq(q, u, m), "from C string");
        P::CStringView q2(zs, (size_t)-1);
        CHECK(eq(q2, u, m), "from C string, length -1");
        P::ZStringView zv(zs), zw(zs, m), ze;
        CHECK(zv.size() == m && zv.c_str() == zs && eq(zv.view(), u, m), "ZStringView: size %zu", zv.size());
        CHECK(zw.size() == m && zw.c_str() == zs && zv == zw && zv == zs, "ZStringView with length");
        CHECK(ze.size() == 0 && (ze == zv) == (m == 0) && (zv == ze) == (m == 0) && (ze == zs) == (m == 0), "empty ZStringView");
        Buf zt(n + 1);
        memcpy(zt.p, t, n);
        zt.p[n] = 0;
        P::ZStringView zx(zt.p);
        CHECK((zx == zv) == same && (zx == zs) == same, "ZStringView ==");
        size_t a = range(0, m);
        CHECK(eq(zv.subview(a).view(), u + a, m - a) && zv.subview(a).c_str() == zs + a, "subview");
        CHECK(throws([&] { (void)zv.subview(m + 1); }), "subview range");
        P::CString up = v.upper(), lo = v.lower();
        CHECK(up.size() == n && lo.size() == n && up.c_str()[n] == 0, "upper/lower size");
        for(size_t i = 0; i < n; ++i) {
            char x = t[i], U = x >= 'a' && x <= 'z' ? x - 32 : x, L = x >= 'A' && x <= 'Z' ? x + 32 : x;
            CHECK(up.c_str()[i] == U && lo.c_str()[i] == L, "upper/lower at %zu", i);
        }
    }
    {
        size_t a = below(3) ? below(n + 1) : below(2) ? n + 1 : (size_t)-1 - below(3), l = below(3) ? below(n + 2) : (size_t)-1 - below(3);
        setcase("substr(%zu,%zu) of %s", a, l, hexs(t, n));
        if(a >= n)
            CHECK(throws([&] { (void)v.substr(a, l); }), "substr not reported");
        else {
            auto s = v.substr(a, l);
            CHECK(s.data() == b.p + a && s.size() == (l > n - a ? n - a : l), "substr: size %zu", s.size());
        }
    }
    {
        size_t i1 = below(n + 1), j1 = range(i1, n), i2 = below(n + 1), j2 = range(i2, n);
        P::CStringView x(b.p + i1, j1 - i1), y(b.p + i2, j2 - i2);
        bool o = false;
        for(size_t i = i1; i < j1; ++i)
            o |= i >= i2 && i < j2;
        setcase("overlaps [%zu,%zu) [%zu,%zu)", i1, j1, i2, j2);
        CHECK(x.overlaps(y) == o, "overlaps: %d", x.overlaps(y));
    }
    setcase("hash/split of %s", hexs(t, n));
    H h;
    v.feed_hash(h);
    CHECK(h.n == n && memcmp(h.b, t, n) == 0, "hash feed");
    Pieces p;
    p.base = b.p;
    p.stop = below(3) ? 1000 : range(1, 3);
    v.split(piece, &p);
    size_t x = 0, i = 0;
    while(x < p.stop) {
        while(i < n && iswhite(t[i]))
            ++i;
        if(i == n)
            break;
        size_t s = i;
        while(i < n && !iswhite(t[i]))
            ++i;
        CHECK(x < p.n && p.at[x] == s && p.len[x] == i - s, "split piece %zu", x);
        ++x;
    }
    CHECK(x == p.n, "split: %zu pieces for %zu", p.n, x);
}
#endif
#ifdef C12
// one string of the model: plain bytes
struct M {
    char b[4096];
    size_t n = 0;
    void set(const char *p, size_t k) {
        memmove(b, p, k);
        n = k;
    }
    void put(size_t i, const char *p, size_t k) {
        char t[4096];
        memcpy(t, p, k);
        memmove(b + i + k, b + i, n - i);
        memcpy(b + i, t, k);
        n += k;
    }
    void cut(size_t i, size_t e) {
        memmove(b + i, b + e, n - e);
        n -= e - i;
    }
};
static void check(const P::CString &x, const M &m) {
    CHECK(x.size() == m.n && x.length() == m.n && x.is_empty() == (m.n == 0), "size %zu for %zu", x.size(), m.n);
    CHECK(memcmp(x.c_str(), m.b, m.n) == 0, "contents %s for %s", hexs(x.c_str(), m.n), hexs(m.b, m.n));
    CHECK(x.c_str()[m.n] == 0, "no terminator");
    CHECK(strlen(x.c_str()) == m.n, "NUL inside");
    CHECK(eq(x.view(), m.b, m.n) && x.zview().size() == m.n && x.data() == x.c_str(), "view");
    for(size_t i = 0; i < m.n; ++i)
        CHECK(x[i] == m.b[i], "index %zu", i);
    CHECK(throws([&] { (void)x[m.n + 1 + below(3)]; }), "index past the end not reported");
    if(m.n)
        CHECK(x.front() == m.b[0] && x.back() == m.b[m.n - 1], "front/back");
    else
        CHECK(throws([&] { (void)x.front(); }) && throws([&] { (void)x.back(); }), "front/back of empty not reported");
}
static bool same(const M &a, const M &b) { return a.n == b.n && memcmp(a.b, b.b, a.n) == 0; }
static int order(const M &a, const M &b) {
    size_t k = 0;
    while(k < a.n && k < b.n && a.b[k] == b.b[k])
        ++k;
    if(k < a.n && k < b.n)
        return (uc)a.b[k] < (uc)b.b[k] ? -1 : 1;
    return a.n < b.n ? -1 : a.n > b.n;
}
struct Pieces {
    size_t at[4100], len[4100], n = 0, stop;
    const char *base;
};
static bool piece(const P::CStringView &v, void *c) {
    Pieces &p = *(Pieces *)c;
    p.at[p.n] = v.data() - p.base;
    p.len[p.n] = v.size();
    return ++p.n != p.stop;
}
static void splits(P::CString &x, M &m, char c, bool by) {
    Pieces p;
    p.base = x.data();
    p.stop = below(3) ? 100000 : range(1, 3);
    P::Vector<P::CString> all;
    if(by) {
        x.split_by(c, piece, &p);
        all = x.split_by(c);
    } else {
        x.split(piece, &p);
        all = x.split();
    }
    size_t k = 0, i = 0, total = 0;
    for(;;) {
        while(i < m.n && (by ? m.b[i] == c : iswhite(m.b[i])))
            ++i;
        if(i == m.n)
            break;
        size_t s = i;
        while(i < m.n && !(by ? m.b[i] == c : iswhite(m.b[i])))
            ++i;
        if(total < p.stop)
            CHECK(total < p.n && p.at[total] == s && p.len[total] == i - s, "split piece %zu", total);
        CHECK(total < all.size() && eq(all[total].view(), m.b + s, i - s), "split vector piece %zu", total);
        ++total;
    }
    k = total < p.stop ? total : p.stop;
    CHECK(p.n == k && all.size() == total, "split: %zu pieces for %zu", p.n, k);
}
static void onecase() {
    static char h[4096];
    P::CString x[3];
    static M m[3];
    for(auto &q : m)
        q.n = 0;
    size_t hn = 0;
    h[0] = 0;
    int kind = below(5);
    for(int step = range(1, 25); step > 0; --step) {
        size_t a = below(3), b = below(3);
        P::CString &X = x[a], &Y = x[b];
        M &A = m[a], &B = m[b];
        if(A.n > 1000 || B.n > 1000)
            return;
        char t[100];
        size_t n = rlen();
        for(size_t i = 0; i < n; ++i)
            t[i] = rc(kind);
        size_t i = below(8) ? below(A.n + 1) : below(2) ? A.n + 1 + below(3) : (size_t)-1 - below(3);
        size_t e = below(8) ? (i <= A.n ? range(i, A.n) : below(A.n + 1)) : below(2) ? A.n + 1 + below(3) : below(3) ? below(A.n + 1) : (size_t)-1 - below(3);
        int op = below(31);
        if(hn < 3500)
            hn += snprintf(h + hn, 300, "; op %d x[%zu] x[%zu] i=%zu e=%zu t=%s", op, a, b, i, e, hexs(t, n < 12 ? n : 12));
        setcase("CString history%s", h + (hn > 3900 ? hn - 3900 : 0));
        Buf z(n + 1), w(t, n);
        memcpy(z.p, t, n);
        z.p[n] = 0;
        P::CStringView v(w.p, n);
        switch(op) {
        case 0: X = P::CString(v); A.set(t, n); break;
        case 1: X = P::CString(z.p); A.set(t, n); break;
        case 2: X = P::CString(w.p, n); A.set(t, n); break;
        case 3: X = P::CString(P::Bytes(w.p, n)); A.set(t, n); break;
        case 4: X = Y; A.set(B.b, B.n); break;
        case 5:
            X = P::move(Y);
            A.set(B.b, B.n);
            if(a != b) {
                Y = P::CString(v);
                B.set(t, n);
            }
            break;
        case 6: {
            P::CString c(X);
            P::CString d(P::move(c));
            check(d, A);
            c = d;
            check(c, A);
            break;
        }
        case 7: X = z.p; A.set(t, n); break;
        case 8: X.append(w.p, n); A.put(A.n, t, n); break;
        case 9: X.append(z.p); A.put(A.n, t, n); break;
        case 10: X.append(w.p, w.p + n); A.put(A.n, t, n); break;
        case 11: X += z.p; A.put(A.n, t, n); break;
        case 12:
            X += Y;
            A.put(A.n, B.b, B.n);
            break;
        case 13: {
            char c = rc(kind);
            switch(below(3)) {
            case 0: X.append(c); break;
            case 1: X += c; break;
            case 2: X.push_back(c); break;
            }
            A.put(A.n, &c, 1);
            break;
        }
        case 14: { // NUL is reported
            if(n == 0)
                break;
            w.p[below(n)] = 0;
            P::CString c(X);
            switch(below(6)) {
            case 0: CHECK(throws([&] { c.append(w.p, n); }), "embedded NUL not reported by append"); break;
            case 1: CHECK(throws([&] { P::CString q(w.p, n); }), "embedded NUL not reported"); break;
            case 2: CHECK(throws([&] { P::CString q(P::CStringView(w.p, n)); }), "embedded NUL not reported"); break;
            case 3: CHECK(throws([&] { P::CString q(P::Bytes(w.p, n)); }), "embedded NUL not reported"); break;
            case 4:
                CHECK(throws([&] { c.append('\0'); }) && throws([&] { c += '\0'; }) && throws([&] { c.push_back('\0'); }), "NUL not reported");
                break;
            case 5: CHECK(throws([&] { c.insert(below(A.n + 1), P::CStringView(w.p, n)); }), "embedded NUL not reported by insert"); break;
            }
            CHECK(c.c_str()[c.size()] == 0 && strlen(c.c_str()) == c.size(), "invariant after a report");
            break;
        }
        case 15: X.pop_back(); if(A.n) --A.n; break;
        case 16: X.clear(); A.n = 0; break;
        case 17: {
            size_t k = range(0, A.n + 40);
            X.resize(k);
            while(A.n < k)
                A.b[A.n++] = ' ';
            A.n = k;
            break;
        }
        case 18: X.reserve(below(300)); break;
        case 19:
            if(i > A.n)
                CHECK(throws([&] { X.insert(i, v); }), "insert outside not reported");
            else {
                X.insert(i, v);
                A.put(i, t, n);
            }
            break;
        case 20: // of itself
            if(i <= A.n) {
                size_t o = below(A.n + 1), l = below(A.n - o + 1);
                X.insert(i, P::CStringView(X.data() + o, l));
                char u[4096];
                memcpy(u, A.b + o, l);
                A.put(i, u, l);
            }
            break;
        case 21: {
            size_t o = below(A.n + 1), l = below(A.n - o + 1);
            switch(below(3)) {
            case 0:
                X.append(X.data() + o, l);
                A.put(A.n, A.b + o, l);
                break;
            case 1:
                X += X.c_str() + o;
                A.put(A.n, A.b + o, A.n - o);
                break;
            case 2:
                X = X.c_str() + o;
                A.set(A.b + o, A.n - o);
                break;
            }
            break;
        }
        case 22:
            if(i > e || e > A.n)
                CHECK(throws([&] { X.remove(i, e); }), "remove of a bad range not reported");
            else {
                X.remove(i, e);
                A.cut(i, e);
            }
            break;
        case 23: {
            size_t l = below(3) ? (i <= A.n ? below(A.n - i + 2) : below(3)) : (size_t)-1 - below(3);
            if(i > A.n || (l != (size_t)-1 && l > A.n - i))
                CHECK(throws([&] { (void)X.substr(i, l); }), "substr(%zu,%zu) of %zu not reported", i, l, A.n);
            else {
                static M q;
                q.set(A.b + i, l == (size_t)-1 ? A.n - i : l);
                check(X.substr(i, l), q);
            }
            break;
        }
        case 24: {
            X.strip();
            size_t s = 0;
            while(s < A.n && iswhite(A.b[s]))
                ++s;
            A.cut(0, s);
            while(A.n && iswhite(A.b[A.n - 1]))
                --A.n;
            break;
        }
        case 25: {
            P::CString u = X.upper(), l = X.lower();
            static M U, L;
            U.set(A.b, A.n);
            L.set(A.b, A.n);
            for(size_t k = 0; k < A.n; ++k) {
                char c = A.b[k];
                U.b[k] = c >= 'a' && c <= 'z' ? c - 32 : c;
                L.b[k] = c >= 'A' && c <= 'Z' ? c + 32 : c;
            }
            check(u, U);
            check(l, L);
            break;
        }
        case 26: splits(X, A, ' ', false); break;
        case 27: splits(X, A, A.n && below(3) ? A.b[below(A.n)] : rc(kind), true); break;
        case 28: {
            CHECK((X == Y) == same(A, B) && (X == Y.view()) == same(A, B) && (X == Y.c_str()) == same(A, B) && (X != Y) == !same(A, B), "==");
            int o = X <=> Y, p = order(A, B);
            CHECK((o < 0) == (p < 0) && (o > 0) == (p > 0) && (X < Y) == (p < 0), "<=>: %d for %d", o, p);
            break;
        }
        case 29: {
            char c = A.n && below(3) ? A.b[below(A.n)] : rc(kind);
            size_t r = NONE;
            for(size_t k = 0; k < A.n; ++k)
                if(A.b[k] == c)
                    r = k;
            CHECK(X.rfind(c) == r, "rfind: %zu for %zu", X.rfind(c), r);
            CHECK(X.rfind(0) == (size_t)-1, "rfind of NUL");
            break;
        }
        case 30: {
            if(below(2) && A.n) {
                n = range(1, A.n < 5 ? A.n : 5);
                memcpy(t, A.b + below(A.n - n + 1), n);
            }
            Buf y(t, n);
            size_t r = NONE;
            for(size_t k = A.n + 1; k-- > 0;)
                if(n <= A.n && k <= A.n - n && memcmp(A.b + k, t, n) == 0)
                    r = k;
            CHECK(X.find(P::CStringView(y.p, n)) == r, "find: %zu for %zu", X.find(P::CStringView(y.p, n)), r);
            break;
        }
        }
        check(X, A);
        check(Y, B);
    }
}
#endif
#ifdef C09
struct M {
    char b[4096];
    size_t n = 0;
    void set(const char *p, size_t k) {
        memmove(b, p, k);
        n = k;
    }
    void put(size_t i, const char *p, size_t k) {
        char t[4096];
        memcpy(t, p, k);
        memmove(b + i + k, b + i, n - i);
        memcpy(b + i, t, k);
        n += k;
    }
    void cut(size_t i, size_t e) {
        memmove(b + i, b + e, n - e);
        n -= e - i;
    }
};
struct Feed {
    char b[5000];
    size_t n = 0;
    void feed_bytes(const char *p, size_t k) {
        if(n + k <= sizeof(b) && k)
            memcpy(b + n, p, k);
        n += k;
    }
};
static void check(const P::Bytes &x, const M &m) {
    CHECK(x.size() == m.n && x.is_empty() == (m.n == 0) && x.capacity() >= m.n, "size %zu for %zu", x.size(), m.n);
    if(m.n)
        CHECK(memcmp(x.data(), m.b, m.n) == 0, "contents %s for %s", hexs(x.data(), m.n), hexs(m.b, m.n));
    for(size_t i = 0; i < m.n; ++i)
        CHECK(x[i] == m.b[i] && x.unsafe_at(i) == m.b[i], "index %zu", i);
    for(size_t i : (size_t[3]){m.n, m.n + 1, (size_t)-1})
        CHECK(throws([&] { (void)x[i]; }), "index %zu of %zu not reported", i, m.n);
    if(m.n)
        CHECK(x.front() == m.b[0] && x.back() == m.b[m.n - 1], "front/back");
    else
        CHECK(throws([&] { (void)x.front(); }) && throws([&] { (void)x.back(); }), "front/back of empty not reported");
}
static bool same(const M &a, const M &b) { return a.n == b.n && memcmp(a.b, b.b, a.n) == 0; }
static int order(const M &a, const M &b) {
    size_t k = 0;
    while(k < a.n && k < b.n && a.b[k] == b.b[k])
        ++k;
    if(k < a.n && k < b.n)
        return (uc)a.b[k] < (uc)b.b[k] ? -1 : 1;
    return a.n < b.n ? -1 : a.n > b.n;
}
static void onecase() {
    static char h[4096];
    P::Bytes x[3];
    static M m[3];
    for(auto &q : m)
        q.n = 0;
    size_t hn = 0;
    h[0] = 0;
    int kind = below(6);
    for(int step = range(1, 25); step > 0; --step) {
        size_t a = below(3), b = below(3);
        P::Bytes &X = x[a], &Y = x[b];
        M &A = m[a], &B = m[b];
        if(A.n > 1000 || B.n > 1000)
            return;
        char t[100];
        size_t n = rlen();
        for(size_t i = 0; i < n; ++i)
            t[i] = rc(kind);
        size_t i = below(8) ? below(A.n + 1) : below(2) ? A.n + 1 + below(3) : (size_t)-1 - below(3);
        size_t e = below(8) ? (i <= A.n ? range(i, A.n) : below(A.n + 1)) : below(2) ? A.n + 1 + below(3) : below(3) ? below(A.n + 1) : (size_t)-1 - below(3);
        int op = below(25);
        if(hn < 3500)
            hn += snprintf(h + hn, 300, "; op %d x[%zu] x[%zu] i=%zu e=%zu t=%s", op, a, b, i, e, hexs(t, n < 12 ? n : 12));
        setcase("Bytes history%s", h + (hn > 3900 ? hn - 3900 : 0));
        Buf w(t, n);
        switch(op) {
        case 0: X = P::Bytes(w.p, n); A.set(t, n); break;
        case 1: X = P::Bytes((const char *)w.p, (const char *)w.p + n); A.set(t, n);
            if(n)
                CHECK(throws([&] { P::Bytes q((const char *)w.p + n, (const char *)w.p); }), "reversed range not reported");
            break;
        case 2: {
            char c = rc(kind);
            X = P::Bytes(n, c);
            memset(A.b, c, n);
            A.n = n;
            break;
        }
        case 3: X = P::Bytes(n); A.n = 0; break;
        case 4: X = Y; A.set(B.b, B.n); break;
        case 5:
            X = P::move(Y);
            A.set(B.b, B.n);
            if(a != b) {
                CHECK(Y.size() == 0, "moved-from size");
                B.n = 0;
            }
            break;
        case 6: {
            P::Bytes c(X);
            P::Bytes d(P::move(c));
            check(d, A);
            static M z;
            check(c, z);
            c = d;
            check(c, A);
            break;
        }
        case 7: {
            char c = rc(kind);
            if(below(2))
                X.append(c);
            else
                X.push_back(c);
            A.put(A.n, &c, 1);
            break;
        }
        case 8:
        case 9: X.append(w.p, w.p + n); A.put(A.n, t, n); break;
        case 10: {
            size_t o = below(A.n + 1), l = below(A.n - o + 1);
            if(A.n) {
                X.append(X.data() + o, X.data() + o + l);
                A.put(A.n, A.b + o, l);
            }
            break;
        }
        case 11:
            X += Y;
            A.put(A.n, B.b, B.n);
            break;
        case 12: X.clear(); A.n = 0; break;
        case 13: X.reserve(below(300)); break;
        case 14: {
            size_t k = below(40), o = A.n;
            X.extend(k);
            A.n += k;
            CHECK(X.size() == A.n, "extend");
            memcpy(A.b + o, X.data() + o, k); // unspecified bytes
            break;
        }
        case 15: X.shrink(i); A.n = i > A.n ? 0 : A.n - i; break;
        case 16: {
            size_t k = below(A.n + 40), o = A.n;
            if(below(2))
                X.resize(k);
            else
                X.resize_to(k);
            CHECK(X.size() == k, "resize");
            if(k > o)
                memcpy(A.b + o, X.data() + o, k - o); // unspecified bytes
            A.n = k;
            break;
        }
        case 17: X.assign(w.p, n); A.set(t, n); break;
        case 18:
            if(i >= A.n)
                CHECK(throws([&] { X.insert(i, w.p, n); }), "insert at %zu of %zu not reported", i, A.n);
            else {
                X.insert(i, w.p, n);
                A.put(i, t, n);
            }
            break;
        case 19: {
            size_t k = below(3) ? below(4) : i;
            X.pop_back(k);
            A.n = k > A.n ? 0 : A.n - k;
            break;
        }
        case 20: {
            size_t k = below(3) ? below(4) : i;
            X.pop_front(k);
            A.cut(0, k > A.n ? A.n : k);
            break;
        }
        case 21:
            if(i > e || e > A.n)
                CHECK(throws([&] { X.remove(i, e); }), "remove of a bad range not reported");
            else {
                X.remove(i, e);
                A.cut(i, e);
            }
            break;
        case 22: {
            CHECK((X == Y) == same(A, B) && (X != Y) == !same(A, B), "==");
            int o = X <=> Y, p = order(A, B);
            CHECK((o < 0) == (p < 0) && (o > 0) == (p > 0), "<=>: %d for %d", o, p);
            CHECK((X < Y) == (p < 0), "<");
            break;
        }
        case 23: {
            static Feed f;
            f.n = 0;
            X.feed_hash(f);
            CHECK(f.n == A.n && memcmp(f.b, A.b, A.n) == 0, "hash feed: %zu bytes for %zu", f.n, A.n);
            break;
        }
        case 24: {
            char c;
            CHECK(!X.is_ptr_within(&c), "is_ptr_within of a foreign pointer");
            if(A.n)
                CHECK(X.is_ptr_within(X.data()) && X.is_ptr_within(X.data() + below(A.n)), "is_ptr_within");
            break;
        }
        }
        check(X, A);
        check(Y, B);
    }
}
#endif
#ifdef C14
struct M {
    char b[400];
    size_t n = 0;
};
template<size_t N> static void check(P::FixedCString<N> &x, const M &m) {
    const auto &c = x;
    CHECK(x.size() == m.n && x.is_empty() == (m.n == 0) && x.size() <= N, "size %zu for %zu", x.size(), m.n);
    CHECK(x.c_str()[m.n] == 0, "not terminated");
    CHECK(memcmp(x.c_str(), m.b, m.n) == 0 && eq(x.view(), m.b, m.n) && c.c_str() == (const char *)x.c_str(), "contents %s for %s", hexs(x.c_str(), m.n), hexs(m.b, m.n));
    for(uint32_t i = 0; i <= m.n; ++i)
        CHECK(x[i] == (i < m.n ? m.b[i] : 0) && &x[i] == &c[i], "index %u", i);
    uint32_t i = (uint32_t[4]){N + 1, N + 2, (uint32_t)-1, 1u << 31}[below(4)];
    if(below(4) == 0)
        CHECK(throws([&] { (void)x[i]; }) && throws([&] { (void)c[i]; }), "index %u of capacity %zu not reported", i, N);
}
template<size_t N> static size_t some(char *o, bool nul) {
    int k = below(nul ? 6 : 5);
    size_t n = below(3) ? below(N + 1) : below(2) ? N : N + 1 + below(4);
    for(size_t i = 0; i < n; ++i)
        o[i] = rc(k);
    return n;
}
template<size_t N, size_t O> static void other(P::FixedCString<N> &X, M &A) {
    P::FixedCString<O> y;
    char t[400];
    size_t n = some<N>(t, true);
    if(n > O)
        n = O;
    y = P::CStringView(t, n);
    bool r = throws([&] { X = y; });
    CHECK(r == (n > N), "a text of %zu characters, other capacity %zu: %s", n, O, r ? "reported" : "not reported");
    if(!r) {
        memcpy(A.b, t, n);
        A.n = n;
    }
    CHECK(eq(y.view(), t, n), "the source changed");
}
template<size_t N> static void history() {
    static char h[4096];
    typedef P::FixedCString<N> S;
    S *x[2] = {new S, new S}; // on the heap, each exactly as large as it is
    static M m[2];
    m[0].n = m[1].n = 0;
    size_t hn = 0;
    h[0] = 0;
    for(int step = range(1, 15); step > 0; --step) {
        size_t a = below(2), b = below(2);
        S &X = *x[a], &Y = *x[b];
        M &A = m[a], &B = m[b];
        char t[400];
        int op = below(12);
        size_t n = some<N>(t, op != 0);
        t[n] = 0;
        size_t i = range(0, A.n);
        if(hn < 3500)
            hn += snprintf(h + hn, 300, "; op %d x[%zu] x[%zu] i=%zu n=%zu t=%s", op, a, b, i, n, hexs(t, n < 12 ? n : 12));
        setcase("FixedCString<%zu> history%s", N, h);
        auto put = [&](bool r) {
            CHECK(r == (n > N), "a text of %zu characters was %s", n, r ? "reported" : "not reported");
            if(!r) {
                memcpy(A.b, t, n);
                A.n = n;
            }
        };
        switch(op) {
        case 0: {
            Buf w(t, n + 1);
            put(throws([&] { X = S(w.p); }));
            break;
        }
        case 1: {
            Buf w(t, n);
            put(throws([&] { X = S(w.p, n); }));
            break;
        }
        case 2:
        case 3: {
            Buf w(t, n);
            put(throws([&] { X = P::CStringView(w.p, n); }));
            break;
        }
        case 4: X = Y; A = B; break;
        case 5:
            X = P::move(Y);
            A = B;
            if(a != b)
                B.n = 0;
            break;
        case 6: {
            S *z = new S(Y);
            delete x[a];
            x[a] = z;
            A = B;
            break;
        }
        case 7: {
            M c = B;
            S *z = new S(P::move(Y));
            B.n = 0;
            check(*x[b], B);
            delete x[a];
            x[a] = z;
            A = c;
            break;
        }
        case 8:
            X.pop_back();
            if(A.n)
                --A.n;
            break;
        case 9:
            X = P::CStringView(X.c_str(), i);
            A.n = i;
            break;
        case 10:
            switch(below(4)) {
            case 0: other<N, 1>(X, A); break;
            case 1: other<N, 3>(X, A); break;
            case 2: other<N, 17>(X, A); break;
            default: other<N, 305>(X, A); break;
            }
            break;
        case 11: {
            if(below(2)) { // nearly the same text
                n = A.n;
                memcpy(t, A.b, n);
                if(below(2) && n)
                    t[below(n)] ^= 1 << below(8);
                else if(below(2) && n)
                    --n;
                else if(below(2))
                    t[n++] = rc(5);
            }
            bool e = n == A.n && memcmp(t, A.b, n) == 0;
            Buf w(t, n);
            CHECK((X == P::CStringView(w.p, n)) == e, "== view %s", hexs(t, n));
            size_t k = 0;
            while(k < n && t[k])
                ++k;
            t[k] = 0;
            Buf v(t, k + 1);
            CHECK((X == v.p) == (k == A.n && memcmp(t, A.b, k) == 0), "== C string %s", hexs(t, k));
            if(A.n)
                X[(uint32_t)below(A.n)] = 'q', memcpy(A.b, X.c_str(), A.n);
            break;
        }
        }
        check(*x[0], m[0]);
        check(*x[1], m[1]);
    }
    delete x[0];
    delete x[1];
}
static void onecase() {
    switch(below(5)) {
    case 0: history<1>(); break;
    case 1: history<2>(); break;
    case 2: history<5>(); break;
    case 3: history<16>(); break;
    default: history<300>(); break;
    }
}
#endif
#ifdef C30
static bool dg(char c) { return c >= '0' && c <= '9'; }
// numbers by value, anything else by byte value
static int order(const char *a, size_t n, const char *b, size_t m) {
    size_t i = 0, j = 0;
    while(i < n && j < m) {
        if(dg(a[i]) != dg(b[j]))
            return dg(a[i]) ? -1 : 1;
        if(!dg(a[i])) {
            if(a[i] != b[j])
                return (uc)a[i] < (uc)b[j] ? -1 : 1;
            ++i, ++j;
            continue;
        }
        char x[100], y[100]; // right aligned digits
        memset(x, '0', 100);
        memset(y, '0', 100);
        size_t e = i, f = j;
        while(e < n && dg(a[e]))
            ++e;
        while(f < m && dg(b[f]))
            ++f;
        memcpy(x + 100 - (e - i), a + i, e - i);
        memcpy(y + 100 - (f - j), b + j, f - j);
        int c = memcmp(x, y, 100);
        if(c)
            return c < 0 ? -1 : 1;
        i = e, j = f;
    }
    return i < n ? 1 : j < m ? -1 : 0;
}
static size_t numtext(char *o, int kind) {
    size_t n = below(8) == 0 ? range(0, 60) : range(0, 7);
    for(size_t i = 0; i < n; ++i)
        switch(kind) {
        case 0: o[i] = "01"[below(2)]; break;
        case 1: o[i] = "0129ab"[below(6)]; break;
        case 2: o[i] = "05a -+.\t\n"[below(9)]; break;
        case 3: o[i] = (char)below(256); break;
        case 4: o[i] = "09/:\x7f\x80\xff"[below(8)]; break;
        default: o[i] = '0' + below(10); break;
        }
    return n;
}
static int sg(int x) { return x < 0 ? -1 : x > 0; }
static void onecase() {
    char t[3][80];
    size_t n[3];
    int k = below(6);
    for(int i = 0; i < 3; ++i) {
        n[i] = numtext(t[i], below(4) ? k : below(6));
        if(i && below(2)) { // nearly the same as an earlier one
            int s = below(i);
            n[i] = n[s];
            memcpy(t[i], t[s], n[s]);
            for(int e = below(3); e > 0; --e) {
                size_t q = below(n[i] + 1);
                switch(below(3)) {
                case 0:
                    if(n[i] < 70) {
                        memmove(t[i] + q + 1, t[i] + q, n[i] - q);
                        t[i][q] = below(2) ? '0' : "19a "[below(4)];
                        ++n[i];
                    }
                    break;
                case 1:
                    if(q < n[i])
                        t[i][q] = "0189a\x80"[below(6)];
                    break;
                default:
                    if(q < n[i]) {
                        memmove(t[i] + q, t[i] + q + 1, n[i] - q - 1);
                        --n[i];
                    }
                }
            }
        }
    }
    Buf a(t[0], n[0]), b(t[1], n[1]), c(t[2], n[2]);
    P::CStringView v[3] = {P::CStringView(a.p, n[0]), P::CStringView(b.p, n[1]), P::CStringView(c.p, n[2])};
    setcase("natural_order of %s, %s, %s", hexs(t[0], n[0]), hexs(t[1], n[1]), hexs(t[2], n[2]));
    int r[3][3];
    for(int i = 0; i < 3; ++i)
        for(int j = 0; j < 3; ++j) {
            r[i][j] = sg(v[i].natural_order(v[j]));
            int e = order(t[i], n[i], t[j], n[j]);
            CHECK(r[i][j] == e, "order of %d and %d is %d, expected %d", i, j, r[i][j], e);
        }
    for(int i = 0; i < 3; ++i)
        for(int j = 0; j < 3; ++j) {
            CHECK(r[i][j] == -r[j][i], "not antisymmetric");
            for(int l = 0; l < 3; ++l)
                CHECK(!(r[i][j] <= 0 && r[j][l] <= 0) || r[i][l] <= 0, "not transitive");
        }
}
#endif
#ifdef C31
// a hash algorithm that remembers what it was fed
struct Rec {
    char b[600];
    size_t n = 0;
    void feed_bytes(const char *p, size_t k) noexcept {
        if(n + k <= sizeof(b) && k)
            memcpy(b + n, p, k);
        n += k;
    }
    size_t get_hash_value() const noexcept { return n; }
    void reset() noexcept { n = 0; }
    static Rec *last;
    Rec() noexcept { last = this; }
};
Rec *Rec::last;
template<typename T> static size_t h(size_t salt, const T &x) {
    P::Hasher<> g;
    g.feed_hash(salt);
    g.feed_hash(x);
    return g.get_hash_value();
}
template<typename T> static void fed(const char *what, const T &x, const void *p, size_t n) {
    P::Hasher<Rec> g;
    g.feed_hash(x);
    CHECK(Rec::last->n == n && memcmp(Rec::last->b, p, n) == 0, "%s: hashed %s, the value is %s", what, hexs(Rec::last->b, Rec::last->n < 300 ? Rec::last->n : 300), hexs(p, n));
    CHECK(g.get_hash_value() == n, "%s: %zu bytes hashed instead of %zu", what, g.get_hash_value(), n);
    size_t salt = rnd();
    P::SimpleHash s;
    s.feed_bytes((const char *)&salt, sizeof salt);
    s.feed_bytes((const char *)p, n);
    CHECK(h(salt, x) == s.get_hash_value() && h(salt, x) == h(salt, x), "%s: hash of %s", what, hexs(p, n));
    g.reset();
    CHECK(g.get_hash_value() == 0, "reset");
}
template<typename T> static void integer(const char *what) {
    T v = (T)rnd();
    setcase("%s %llx", what, (unsigned long long)v);
    fed(what, v, &v, sizeof v);
    T w = v ^ ((T)1 << below(8 * sizeof(T)));
    size_t salt = rnd();
    CHECK(h(salt, v) != h(salt, w), "%s %llx and %llx hash equally", what, (unsigned long long)v, (unsigned long long)w);
}
static void onecase() {
    switch(below(8)) {
    case 0: integer<uint8_t>("uint8_t"); integer<int8_t>("int8_t"); break;
    case 1: integer<uint16_t>("uint16_t"); integer<int16_t>("int16_t"); break;
    case 2: integer<uint32_t>("uint32_t"); integer<int32_t>("int32_t"); break;
    case 3: integer<uint64_t>("uint64_t"); integer<int64_t>("int64_t"); break;
    default: break;
    }
    char t[120];
    size_t n = text(t, true);
    setcase("bytes %s", hexs(t, n));
    Buf w(t, n);
    P::Bytes x((const char *)w.p, n), y;
    for(size_t i = 0; i < n; ++i)
        y.append(t[i]);
    size_t more = below(20);
    for(size_t i = 0; i < more; ++i)
        y.append('q');
    for(size_t i = 0; i < more; ++i)
        y.pop_back();
    P::Bytes z;
    z = x;
    if(below(2))
        z = P::Bytes(P::move(y)), y = z;
    P::CStringView v(w.p, n);
    fed("Bytes", x, t, n);
    fed("Bytes", y, t, n);
    fed("Bytes", z, t, n);
    fed("CStringView", v, t, n);
    size_t salt = rnd();
    CHECK(x == y && h(salt, x) == h(salt, y) && h(salt, x) == h(salt, z) && h(salt, x) == h(salt, v), "equal bytes hash differently");
    P::SimpleHash a, b, c;
    size_t k = below(n + 1);
    a.feed_bytes((const char *)&salt, 8), b.feed_bytes((const char *)&salt, 8), c.feed_bytes((const char *)&salt, 8);
    a.feed_bytes(w.p, n);
    b.feed_bytes(w.p, k);
    b.feed_bytes(w.p + k, n - k);
    CHECK(a.get_hash_value() == b.get_hash_value(), "the hash depends on how the bytes are split");
    if(n) {
        char q = w.p[n - 1], *p = w.p + below(n);
        size_t old = h(salt, v);
        *p ^= 1 << below(8);
        CHECK(h(salt, v) != old, "byte %zu of %zu does not matter", (size_t)(p - w.p), n);
        memcpy(w.p, t, n);
        (void)q;
        CHECK(h(salt, P::CStringView(w.p, n - 1)) != old, "the last byte does not matter");
    }
    // texts without NUL
    n = text(t, false);
    bool ascii = true;
    for(size_t i = 0; i < n; ++i) {
        if(!t[i])
            t[i] = 'x';
        ascii = ascii && (uc)t[i] < 128;
    }
    t[n] = 0;
    Buf u(t, n + 1);
    setcase("text %s", hexs(t, n));
    P::CString s(u.p, n), r;
    for(size_t i = 0; i < n; ++i)
        r += t[i];
    P::CString s2(s), s3;
    s3 = P::move(s2);
    fed("CString", s, t, n);
    fed("CString", r, t, n);
    fed("CString", s3, t, n);
    P::ZStringView zv(u.p), zv2(u.p, n);
    fed("ZStringView", zv, t, n);
    fed("ZStringView", zv2, t, n);
    fed("ZStringView()", P::ZStringView(), t, 0);
    fed("CStringView()", P::CStringView(), t, 0);
    fed("U8StringView()", P::U8StringView(), t, 0);
    fed("CString()", P::CString(), t, 0);
    fed("U8String()", P::U8String(), t, 0);
    if(ascii) {
        if(n && below(2)) {
            memcpy(u.p, "\xc3\xa4", n > 1 ? 2 : 0);
            memcpy(t, u.p, n);
        }
        P::U8String g(u.p, n), g2(g);
        P::U8StringView gv(u.p, n);
        fed("U8String", g, t, n);
        fed("U8String", g2, t, n);
        fed("U8StringView", gv, t, n);
    }
}
#endif
int main() {
    HUNT_MAIN_INIT();
    while(more())
        for(int i = 0; i < 50; ++i)
            onecase();
    sample("%s", cur);
    finish();
}
