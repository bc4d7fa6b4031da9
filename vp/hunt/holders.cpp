// Executable oracle for Optional, Expected (C18), Variant (C19), unique_ptr, unique_arr (C20), Span (C21):
// random operation sequences against a plain model, with elements that notice every lifetime error.
#include <pystd2026_variant.hpp>
#include "elem.hpp"
namespace P = pystd2026;
using namespace hunt;
struct Big : Elem {
    using Elem::Elem;
    char pad[40];
};
static const char *trace(char c, unsigned a, unsigned b) {
    static char t[600];
    static unsigned n;
    if(!c) {
        n = 0;
        t[0] = 0;
    } else if(n < sizeof t - 12)
        n += sprintf(t + n, "%c%u,%u ", c, a, b);
    ++cases;
    strncpy(cur, t, sizeof cur - 1);
    return t;
}
static char *last;
template<typename F> static bool throws(F f) {
    try {
        f();
    } catch(...) {
        return true;
    }
    return false;
}
#ifdef C18
template<typename T> static int key(const T &x) { return x.key; }
static void optionals() {
    trace(0, 0, 0);
    {
        P::Optional<Elem> o[3];
        int m[3] = {-1, -1, -1};
        unsigned steps = range(1, 14);
        for(unsigned s = 0; s < steps; ++s) {
            unsigned a = below(3), b = below(3), op = below(9);
            trace('a' + op, a, b);
            int v = (int)below(1000);
            switch(op) {
            case 0: {
                Elem e(v);
                o[a] = e;
                m[a] = v;
                if(key(e) != v)
                    fail("copy assignment of a value changes the source");
                break;
            }
            case 1: o[a] = Elem(v); m[a] = v; break;
            case 2: o[a] = static_cast<const P::Optional<Elem> &>(o[b]); m[a] = m[b]; break;
            case 3:
                o[a] = static_cast<P::Optional<Elem> &&>(o[b]);
                if(a != b) {
                    m[a] = m[b];
                    m[b] = -1;
                }
                break;
            case 4: o[a].reset(); m[a] = -1; break;
            case 5: {
                P::Optional<Elem> c(static_cast<const P::Optional<Elem> &>(o[a]));
                if((bool)c != (m[a] >= 0) || (c && key(*c) != m[a]))
                    fail("copy construction");
                break;
            }
            case 6: {
                P::Optional<Elem> c(static_cast<P::Optional<Elem> &&>(o[a]));
                if((bool)c != (m[a] >= 0) || (c && key(*c) != m[a]))
                    fail("move construction");
                o[b] = static_cast<P::Optional<Elem> &&>(c);
                int t = m[a];
                m[a] = -1;
                m[b] = t;
                break;
            }
            case 7:
                if(m[a] >= 0)
                    o[a] = *o[a];
                break;
            case 8:
                if(m[a] >= 0)
                    o[a] = static_cast<Elem &&>(*o[a]);
                break;
            }
            for(int i = 0; i < 3; ++i) {
                const P::Optional<Elem> &c = o[i];
                if((bool)o[i] != (m[i] >= 0))
                    fail("presence of %d is %d", i, (bool)o[i]);
                if(m[i] >= 0) {
                    if(key(*o[i]) != m[i] || key(o[i].value()) != m[i] || key(*o[i].operator->()) != m[i] || key(*c) != m[i] || key(c.value()) != m[i] || key(*c.operator->()) != m[i])
                        fail("value of %d is %d instead of %d", i, key(*o[i]), m[i]);
                } else if(!throws([&] { *o[i]; }) || !throws([&] { o[i].value(); }) || !throws([&] { o[i].operator->(); }) || !throws([&] { *c; }) || !throws([&] { c.value(); }) || !throws([&] { c.operator->(); }))
                    fail("reading the absent value %d is not reported", i);
            }
        }
    }
    if(Elem::live)
        fail("%ld elements leaked", Elem::live);
    int x[2];
    P::Optional<int *> p, q(&x[0]);
    P::Optional<int *> r(q);
    if(p || !q || !r || r.value() != x)
        fail("pointer optional");
    p = r;
    r.reset();
    if(r || !p || p.value() != x || &*p != x || !throws([&] { *r; }) || !throws([&] { r.value(); }))
        fail("pointer optional after reset");
}
struct Err : Elem {
    using Elem::Elem;
};
static void expecteds() {
    using X = P::Expected<Elem, Err>;
    trace(0, 0, 0);
    {
        X x[3];
        int k[3] = {0, 0, 0}, m[3] = {};
        unsigned steps = range(1, 12);
        for(unsigned s = 0; s < steps; ++s) {
            unsigned a = below(3), b = below(3), op = below(8);
            int v = (int)below(1000);
            trace('A' + op, a, b);
            switch(op) {
            case 0: x[a] = X(Elem(v)); k[a] = 1; m[a] = v; break;
            case 1: x[a] = X(Err(v)); k[a] = 2; m[a] = v; break;
            case 2: x[a] = X(P::Unexpected<Err>(Err(v))); k[a] = 2; m[a] = v; break;
            case 3:
                x[a] = static_cast<X &&>(x[b]);
                if(a != b) {
                    k[a] = k[b];
                    m[a] = m[b];
                    x[b] = X();
                    k[b] = 0;
                }
                break;
            case 4: {
                X c(static_cast<X &&>(x[a]));
                if(c.has_value() != (k[a] == 1) || c.has_error() != (k[a] == 2) || (k[a] == 1 && c.value().key != m[a]) || (k[a] == 2 && c.error().key != m[a]))
                    fail("move construction");
                x[a] = X();
                k[a] = 0;
                break;
            }
            case 5: {
                const Elem e(v);
                X c(e);
                if(!c || c.value().key != v || e.key != v)
                    fail("construction from a const value");
                const Err f(v);
                X d(f);
                if(d || !d.has_error() || d.error().key != v)
                    fail("construction from a const error");
                x[a] = static_cast<X &&>(d);
                k[a] = 2;
                m[a] = v;
                break;
            }
            case 6: x[a] = X(); k[a] = 0; break;
            case 7: {
                P::Unexpected<Err> u{Err(v)}, w;
                w = static_cast<P::Unexpected<Err> &&>(u);
                if(w.error().key != v)
                    fail("Unexpected assignment");
                break;
            }
            }
            for(int i = 0; i < 3; ++i) {
                if(x[i].has_value() != (k[i] == 1) || (bool)x[i] != (k[i] == 1) || x[i].has_error() != (k[i] == 2))
                    fail("state of expected %d", i);
                if(k[i] == 1 && x[i].value().key != m[i])
                    fail("value of expected %d is %d instead of %d", i, x[i].value().key, m[i]);
                if(k[i] == 2 && x[i].error().key != m[i])
                    fail("error of expected %d", i);
            }
        }
    }
    if(Elem::live)
        fail("%ld elements leaked", Elem::live);
}
int main() {
    HUNT_MAIN_INIT();
    while(more()) {
        optionals();
        expecteds();
    }
    sample("random sequences of up to 14 operations on three Optional<Elem> and three Expected<Elem,Err>; last: %s", cur);
    finish();
}
#endif
#ifdef C19
template<int I> struct W : Elem {
    W() noexcept : Elem(I) {}
    W(int k) noexcept : Elem(k) {}
    int kind = I;
    char pad[1 + (I * 37) % 64];
    W(const W &o) noexcept : Elem(o) { chk(o); }
    W(W &&o) noexcept : Elem(static_cast<Elem &&>(o)) { chk(o); }
    W &operator=(const W &) = default;
    W &operator=(W &&) = default;
    static void chk(const W &o) {
        if(o.kind != I)
            fail("alternative %d treated as %d", o.kind, I);
    }
    ~W() {
        if(kind != I)
            fail("alternative %d destroyed as %d", kind, I);
        kind = 999;
    }
};
using V = P::Variant<W<0>, W<1>, W<2>, W<3>, W<4>, W<5>, W<6>, W<7>, W<8>, W<9>, W<10>, W<11>, W<12>, W<13>, W<14>, W<15>, W<16>, W<17>, W<18>, W<19>, W<20>, W<21>, W<22>, W<23>, W<24>, W<25>, W<26>, W<27>, W<28>, W<29>>;
using V2 = P::Variant<W<0>, W<1>>;
template<int I, typename VV> static VV make(int k, int v) {
    if constexpr(I < (sizeof(VV) > 200 ? 2 : 30) || true) {
        if(k == I) {
            if(v & 1) {
                W<I> w(v);
                VV r(w);
                if(w.key != v)
                    fail("construction from an lvalue changes it");
                return r;
            }
            if(v & 2) {
                const W<I> w(v);
                return VV(w);
            }
            return VV(W<I>(v));
        }
    }
    if constexpr(I < 29)
        return make<I + 1, VV>(k, v);
    __builtin_trap();
}
template<int I> static void put(V &x, int k, int v) {
    if(k == I)
        x.insert(W<I>(v));
    else if constexpr(I < 29)
        put<I + 1>(x, k, v);
}
template<int I> static void assign(V &x, int k, int v) {
    if(k == I)
        x = W<I>(v);
    else if constexpr(I < 29)
        assign<I + 1>(x, k, v);
}
template<int I> static void check(V &x, int k, int v) {
    const V &c = x;
    if(k == I) {
        if(!x.contains<W<I>>() || x.index() != I)
            fail("index is %d instead of %d", x.index(), I);
        if(x.get<W<I>>().key != v || c.get<W<I>>().key != v || x.get_if<W<I>>()->key != v || c.get_if<W<I>>()->key != v || x.get<W<I>>().kind != I)
            fail("value is %d instead of %d", x.get<W<I>>().key, v);
    } else {
        if(x.contains<W<I>>() || x.get_if<W<I>>() || c.get_if<W<I>>())
            fail("contains alternative %d besides %d", I, k);
        if(I % 7 == (unsigned)v % 7 && (!throws([&] { x.get<W<I>>(); }) || !throws([&] { c.get<W<I>>(); })))
            fail("access through another alternative is not reported");
    }
    if constexpr(I < 29)
        check<I + 1>(x, k, v);
}
int main() {
    HUNT_MAIN_INIT();
    while(more()) {
        trace(0, 0, 0);
        {
            V x[3];
            int k[3] = {0, 0, 0}, m[3] = {0, 0, 0};
            bool moved[3] = {};
            unsigned steps = range(1, 12);
            for(unsigned s = 0; s < steps; ++s) {
                unsigned a = below(3), b = below(3), op = below(7);
                int t = (int)below(30), v = (int)below(1000);
                if(moved[b] && op >= 2) // a moved-from alternative must not be copied
                    op = op & 1;
                trace('a' + op, op < 2 ? (unsigned)t : a, b);
                switch(op) {
                case 0: put<0>(x[a], k[a] = t, m[a] = v); moved[a] = false; break;
                case 1: assign<0>(x[a], k[a] = t, m[a] = v); moved[a] = false; break;
                case 2: x[a] = static_cast<const V &>(x[b]); k[a] = k[b]; m[a] = m[b]; moved[a] = moved[b]; break;
                case 3:
                    x[a] = static_cast<V &&>(x[b]);
                    if(a != b) {
                        k[a] = k[b];
                        m[a] = m[b];
                        moved[a] = false;
                        moved[b] = true;
                    }
                    break;
                case 4: {
                    V c(x[b]);
                    check<0>(c, k[b], m[b]);
                    break;
                }
                case 5: {
                    V c(static_cast<V &&>(x[b]));
                    check<0>(c, k[b], m[b]);
                    x[b] = static_cast<const V &>(c);
                    break;
                }
                case 6: {
                    V c(make<0, V>(t, v));
                    check<0>(c, t, v);
                    x[a] = static_cast<V &&>(c);
                    k[a] = t;
                    m[a] = v;
                    moved[a] = false;
                    break;
                }
                }
                for(int i = 0; i < 3; ++i)
                    if(!moved[i])
                        check<0>(x[i], k[i], m[i]);
            }
        }
        if(Elem::live)
            fail("%ld elements leaked", Elem::live);
    }
    sample("random sequences of up to 12 operations on three variants of thirty alternatives; last: %s", cur);
    finish();
}
#endif
#ifdef C20
static int del_count[64];
static Elem *pool[64];
struct Del {
    static void del(Elem *e) {
        if(!e)
            return;
        if(e->key < 0 || e->key >= 64)
            fail("deleter called with a wrong pointer");
        ++del_count[e->key];
    }
};
template<typename U> static void own(bool arr) {
    trace(0, 0, 0);
    static Elem objs[64];
    for(int i = 0; i < 64; ++i) {
        objs[i].key = i;
        del_count[i] = 0;
    }
    int made = 0, given = 0;
    bool dead[64] = {};
    {
        U u[3] = {U(nullptr), U(nullptr), U(nullptr)};
        int m[3] = {-1, -1, -1};
        unsigned steps = range(1, 14);
        for(unsigned s = 0; s < steps; ++s) {
            unsigned a = below(3), b = below(3), op = below(5);
            trace('a' + op, a, b);
            auto drop = [&](int i) {
                if(i >= 0)
                    dead[i] = true;
            };
            switch(op) {
            case 0:
                drop(m[a]);
                u[a] = U(&objs[made]);
                m[a] = made++;
                break;
            case 1:
                u[a] = static_cast<U &&>(u[b]);
                if(a != b) {
                    drop(m[a]);
                    m[a] = m[b];
                    m[b] = -1;
                }
                break;
            case 2: {
                U c(static_cast<U &&>(u[a]));
                if(c.get() != (m[a] >= 0 ? &objs[m[a]] : nullptr) || u[a].get())
                    fail("move construction");
                u[b] = static_cast<U &&>(c);
                int t = m[a];
                m[a] = -1;
                drop(m[b]);
                m[b] = t;
                break;
            }
            case 3:
                if constexpr(requires { u[a].release(); }) {
                    auto *p = u[a].release();
                    if(p != (m[a] >= 0 ? &objs[m[a]] : nullptr))
                        fail("release returns the wrong pointer");
                    m[a] = -1;
                }
                break;
            case 4:
                if constexpr(requires { u[a].reset(nullptr); }) {
                    drop(m[a]);
                    if(below(2)) {
                        u[a].reset(&objs[made]);
                        m[a] = made++;
                    } else {
                        u[a].reset(nullptr);
                        m[a] = -1;
                    }
                }
                break;
            }
            for(int i = 0; i < 3; ++i) {
                if(u[i].get() != (m[i] >= 0 ? &objs[m[i]] : nullptr))
                    fail("owner %d holds the wrong pointer", i);
                if constexpr(requires { (bool)u[i].release(); })
                    if((bool)u[i] != (m[i] >= 0))
                        fail("presence of %d", i);
            }
            for(int i = 0; i < made; ++i)
                if(del_count[i] != dead[i])
                    fail("object %d released %d times, expected %d", i, del_count[i], dead[i]);
        }
        for(int i = 0; i < 3; ++i)
            if(m[i] >= 0)
                dead[m[i]] = true;
    }
    for(int i = 0; i < made; ++i)
        if(del_count[i] != dead[i])
            fail("at the end object %d was released %d times, expected %d", i, del_count[i], dead[i]);
}
struct E2 {
    static inline long live = 0;
    int v;
    E2() : v(7) { ++live; }
    ~E2() { --live; }
};
int main() {
    HUNT_MAIN_INIT();
    while(more()) {
        own<P::unique_ptr<Elem, Del>>(false);
        own<P::unique_arr<Elem, Del>>(true);
        setcase("default deleters");
        {
            size_t n = below(40), j = below(40);
            P::unique_arr<E2> a(n), b(j);
            if(a.size() != n || E2::live != (long)(n + j) || a.size_bytes() != n * sizeof(E2))
                fail("array of %zu: size %zu, %ld objects", n, a.size(), E2::live);
            P::unique_arr<E2> c(static_cast<P::unique_arr<E2> &&>(a));
            if(c.size() != n || a.size() || a.get())
                fail("array move construction");
            b = static_cast<P::unique_arr<E2> &&>(c);
            if(b.size() != n || c.size() || E2::live != (long)n)
                fail("array move assignment: size %zu, %ld objects", b.size(), E2::live);
            b = static_cast<P::unique_arr<E2> &&>(b);
            if(b.size() != n || E2::live != (long)n)
                fail("array self move");
            size_t idx[] = {0, n ? n - 1 : 0, n, n + 1, ~0ull, 1ull << 63, 1ull << 62, below(60)};
            const P::unique_arr<E2> &cb = b;
            for(size_t i : idx) {
                setcase("array of %zu, index %zu", n, i);
                bool t = throws([&] { if(&b[i] != b.get() + i) fail("wrong element"); }), u = throws([&] { if(&cb[i] != cb.get() + i) fail("wrong element"); });
                if(t != (i >= n) || u != (i >= n))
                    fail("out-of-range access is %sreported", t ? "" : "not ");
            }
            P::unique_ptr<E2> p(new E2), q;
            if(E2::live != (long)n + 1 || !p || q)
                fail("pointer");
            q = static_cast<P::unique_ptr<E2> &&>(p);
            q.reset(below(2) ? new E2 : nullptr);
            if(E2::live != (long)n + (q ? 1 : 0))
                fail("pointer reset");
        }
        if(E2::live)
            fail("%ld objects leaked", E2::live);
    }
    sample("random sequences of up to 14 operations on three owners with a counting deleter; last: %s", cur);
    finish();
}
#endif
#ifdef C21
int main() {
    HUNT_MAIN_INIT();
    const size_t M = ~0ull;
    while(more()) {
        size_t n = below(12);
        uint32_t *d = new uint32_t[n];
        P::Span<uint32_t> s(d, n);
        const P::Span<uint32_t> &c = s;
        setcase("span of %zu", n);
        if(s.size() != n || s.size_bytes() != 4 * n || s.is_empty() != (n == 0) || s.data() != d || s.begin() != d || s.end() != d + n || s.cbegin() != d || s.cend() != d + n)
            fail("shape");
        size_t args[] = {0, 1, n ? n - 1 : 0, n, n + 1, M, M - 1, M - n, M - n + 1, 1ull << 63, 1ull << 62, (1ull << 62) + 1, below(14)};
        for(size_t i : args) {
            setcase("span of %zu, index %zu", n, i);
            if(throws([&] { if(&s[i] != d + i) fail("wrong element"); }) != (i >= n) || throws([&] { if(&c[i] != d + i) fail("wrong element"); }) != (i >= n) || throws([&] { if(&c.at(i) != d + i) fail("wrong element"); }) != (i >= n))
                fail("out-of-range index not reported exactly");
            setcase("span of %zu, subspan(%zu)", n, i);
            if(throws([&] {
                   auto t = s.subspan(i);
                   if(t.data() != d + i || t.size() != n - i)
                       fail("wrong tail");
               }) != (i > n))
                fail("out-of-range offset not reported exactly");
            for(size_t k : args) {
                setcase("span of %zu, subspan(%zu,%zu)", n, i, k);
                if(throws([&] {
                       auto t = c.subspan(i, k);
                       if(t.data() != d + i || t.size() != (k == M ? n - i : k))
                           fail("wrong subspan: %zu elements", t.size());
                   }) != (i > n || (k != M && k > n - i)))
                    fail("out-of-range subspan not reported exactly");
            }
        }
        P::Span<uint32_t> e, a(s), m;
        m = s;
        if(e.size() || e.data() || a.data() != d || a.size() != n || m.data() != d || m.size() != n)
            fail("copies");
        P::unique_arr<uint32_t> u(n);
        const P::unique_arr<uint32_t> &cu = u;
        for(size_t i : args) {
            setcase("array of %zu, index %zu", n, i);
            if(throws([&] { if(&u[i] != u.get() + i) fail("wrong element"); }) != (i >= n) || throws([&] { if(&cu[i] != cu.get() + i) fail("wrong element"); }) != (i >= n))
                fail("out-of-range index not reported exactly");
        }
        delete[] d;
    }
    sample("all combinations of boundary offsets and sizes on spans of 0..11 elements");
    finish();
}
#endif
