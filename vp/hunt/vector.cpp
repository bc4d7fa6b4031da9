// Executable oracle for Vector (C07) and FixedVector (C08): random operation histories against a plain model.
#include <pystd2026.hpp>
#include "elem.hpp"
namespace P = pystd2026;
using namespace hunt;
static char t_[3500];
static size_t tn;
static void tr(const char *op, long a = -1, long b = -1) {
    if(!op) {
        tn = 0;
        t_[0] = 0;
    } else if(tn < sizeof t_ - 80)
        tn += b >= 0 ? sprintf(t_ + tn, "%s(%ld,%ld) ", op, a, b) : a >= 0 ? sprintf(t_ + tn, "%s(%ld) ", op, a) : sprintf(t_ + tn, "%s ", op);
    ++cases;
    strncpy(cur, t_, sizeof cur - 1);
}
template<typename F> static bool throws(F f) {
    try {
        f();
    } catch(...) {
        return true;
    }
    return false;
}
struct Model {
    int k[6000];
    size_t n = 0;
    void ins(size_t i, int v) {
        memmove(k + i + 1, k + i, (n - i) * sizeof(int));
        k[i] = v;
        ++n;
    }
    void del(size_t i) {
        memmove(k + i, k + i + 1, (n - i - 1) * sizeof(int));
        --n;
    }
};
static int keyof(const Elem &e) {
    e.need("read");
    return e.key;
}
static int keyof(int v) { return v; }
static int keyof(uint64_t v) { return (int)v; }
static int keyof(const P::CString &s) { return atoi(s.c_str()); }
struct alignas(64) Wide {
    int key;
    char c[100];
    Wide(int k = 0) noexcept : key(k) { memset(c, k, sizeof c); }
    Wide(const Wide &o) noexcept = default;
    Wide(Wide &&o) noexcept = default;
    Wide &operator=(const Wide &) noexcept = default;
    Wide &operator=(Wide &&) noexcept = default;
    bool operator==(const Wide &o) const noexcept { return key == o.key; }
};
static int keyof(const Wide &w) {
    if((uintptr_t)&w % 64)
        fail("element is not aligned");
    for(char c : w.c)
        if(c != (char)w.key)
            fail("element bytes are damaged");
    return w.key;
}
template<typename T> static T mk(int v) { return T(v); }
template<> P::CString mk<P::CString>(int v) {
    char b[64];
    snprintf(b, sizeof b, "%d but long enough for the heap", v);
    return P::CString(b);
}
template<typename T> static int defkey() { return keyof(T{}); }
template<> int defkey<P::CString>() { return 0; }
template<typename V> static void check(const V &v, const Model &m, const char *op) {
    if(v.size() != m.n || v.is_empty() != (m.n == 0))
        fail("%s: size is %zu, expected %zu", op, v.size(), m.n);
    if((size_t)(v.end() - v.begin()) != m.n)
        fail("%s: iterators do not span the entries", op);
    for(size_t i = 0; i < m.n; ++i)
        if(keyof(v[i]) != m.k[i] || keyof(v.begin()[i]) != m.k[i])
            fail("%s: entry %zu is %d, expected %d", op, i, keyof(v[i]), m.k[i]);
    if(m.n) {
        if(keyof(v.front()) != m.k[0] || keyof(v.back()) != m.k[m.n - 1])
            fail("%s: front or back", op);
    } else if(!throws([&] { v.front(); }) || !throws([&] { v.back(); }))
        fail("%s: front or back of an empty one is not reported", op);
    if(!throws([&] { v[m.n + below(3)]; }) || !throws([&] { v[(size_t)-1 - below(3)]; }))
        fail("%s: index past the end is not reported", op);
    if(v.span().size() != m.n || v.span().data() != v.begin())
        fail("%s: span", op);
}
static Model M[3], T0;
#ifdef C07
template<typename T> static void vectors() {
    tr(nullptr);
    {
        P::Vector<T> v[3];
        for(auto &m : M)
            m.n = 0;
        unsigned steps = range(1, 40);
        bool big = below(6) == 0;
        for(unsigned s = 0; s < steps; ++s) {
            unsigned a = below(3), b = below(3);
            int x = (int)range(1, 999);
            Model &m = M[a];
            P::Vector<T> &w = v[a];
            const char *op = "?";
            switch(below(20)) {
            case 0: {
                tr(op = "push_back", a, x);
                T e = mk<T>(x);
                w.push_back(e);
                m.ins(m.n, x);
                if(keyof(e) != x)
                    fail("push_back changes its argument");
                break;
            }
            case 1: tr(op = "push_back_move", a, x); w.push_back(mk<T>(x)); m.ins(m.n, x); break;
            case 2:
            case 3: // fill up to a capacity boundary
                tr(op = "fill", a);
                for(unsigned k = w.capacity() - w.size(); k && m.n < 200; --k) {
                    w.push_back(mk<T>(x + k));
                    m.ins(m.n, x + k);
                }
                break;
            case 4:
                if(m.n) {
                    size_t j = below(m.n);
                    tr(op = "push_back own", a, j);
                    w.push_back(w[j]);
                    m.ins(m.n, m.k[j]);
                }
                break;
            case 5:
                if(m.n) {
                    size_t j = below(m.n);
                    tr(op = "emplace_back own", a, j);
                    w.emplace_back(w[j]);
                    m.ins(m.n, m.k[j]);
                }
                break;
            case 6:
                if(m.n) {
                    size_t j = below(m.n);
                    tr(op = "push_back own moved", a, j);
                    w.push_back(static_cast<T &&>(w[j]));
                    m.ins(m.n, m.k[j]);
                    w[j] = mk<T>(m.k[j]);
                }
                break;
            case 7: tr(op = "emplace_back", a, x); w.emplace_back(mk<T>(x)); m.ins(m.n, x); break;
            case 8: {
                tr(op = "pop_back", a);
                auto r = w.pop_back();
                if((bool)r != (m.n > 0) || (r && keyof(*r) != m.k[m.n - 1]))
                    fail("pop_back returns the wrong value");
                if(m.n)
                    --m.n;
                break;
            }
            case 9:
                if(below(3) == 0) {
                    tr(op = "clear", a);
                    w.clear();
                    m.n = 0;
                }
                break;
            case 10: {
                size_t c = below(big ? 500 : 40);
                tr(op = "reserve", a, c);
                size_t old = w.capacity();
                w.reserve(c);
                if(w.capacity() < c || w.capacity() < old)
                    fail("reserve does not provide the capacity");
                break;
            }
            case 11: {
                size_t c = below(below(4) ? 6 : 40);
                if(m.n + c > 2000)
                    break;
                tr(op = "append_with_default", a, c);
                w.append_with_default(c);
                while(c--)
                    m.ins(m.n, defkey<T>());
                break;
            }
            case 12:
                if(a != b && M[b].n + m.n < 2000) {
                    size_t f = below(M[b].n + 1), l = f + below(M[b].n - f + 1);
                    if(v[b].is_empty() || f == M[b].n)
                        break;
                    tr("append from", a, b);
                    tr(op = "range", f, l);
                    w.append(v[b].cbegin() + f, v[b].cbegin() + l);
                    for(size_t i = f; i < l; ++i)
                        m.ins(m.n, M[b].k[i]);
                }
                break;
            case 13:
                if(a != b && M[b].n) {
                    size_t f = below(M[b].n), l = f + below(M[b].n - f + 1);
                    tr("assign from", a, b);
                    tr(op = "range", f, l);
                    w.assign(v[b].cbegin() + f, v[b].cbegin() + l);
                    m.n = 0;
                    for(size_t i = f; i < l; ++i)
                        m.ins(m.n, M[b].k[i]);
                }
                break;
            case 14:
                if(m.n) {
                    size_t f = below(m.n), l = f + below(m.n - f + 1);
                    tr(op = "append/assign part of itself", a);
                    if(!throws([&] {
                           if(below(2))
                               w.append(w.cbegin() + f, w.cbegin() + l);
                           else
                               w.assign(w.cbegin() + f, w.cbegin() + l);
                       }))
                        fail("appending part of itself is not reported");
                }
                break;
            case 15: {
                tr(op = "copy", a);
                P::Vector<T> c(static_cast<const P::Vector<T> &>(w));
                check(c, m, "copy");
                if(!(c == w) || c != w)
                    fail("a copy is not equal");
                if(m.n) {
                    int y = (int)range(1000, 1999);
                    size_t j = below(m.n);
                    c[j] = mk<T>(y);
                    if(c == w)
                        fail("vectors differing at %zu compare equal", j);
                    c[j] = mk<T>(m.k[j]);
                    c.pop_back();
                    if(c == w || w == c)
                        fail("vectors of different size compare equal");
                }
                break;
            }
            case 16: {
                tr(op = "move construct", a, b);
                P::Vector<T> c(static_cast<P::Vector<T> &&>(w));
                check(c, m, "move construction");
                if(!w.is_empty())
                    fail("moved from vector is not empty");
                v[b] = static_cast<P::Vector<T> &&>(c);
                Model t = m;
                m.n = 0;
                M[b] = t;
                break;
            }
            case 17:
                tr(op = "move assign", a, b);
                w = static_cast<P::Vector<T> &&>(v[b]);
                if(a != b) {
                    m = M[b];
                    M[b].n = 0;
                }
                break;
            case 18: {
                size_t f = below(m.n + 1), l = f + below(m.n - f + 1);
                tr(op = "range construct", a);
                P::Vector<T> c(w.cbegin() + f, w.cbegin() + l);
                T0.n = 0;
                for(size_t i = f; i < l; ++i)
                    T0.ins(T0.n, m.k[i]);
                check(c, T0, "range construction");
                break;
            }
            case 19:
                if(m.n) {
                    size_t j = below(m.n);
                    tr(op = "write", a, j);
                    (below(2) ? w.at(j) : w.unsafe_at(j)) = mk<T>(x);
                    m.k[j] = x;
                }
                break;
            }
            for(int i = 0; i < 3; ++i) {
                check(v[i], M[i], op);
                if(v[i].capacity() < v[i].size())
                    fail("capacity below size");
            }
        }
        for(int i = 0; i < 3; ++i)
            for(int j = 0; j < 3; ++j) {
                bool e = M[i].n == M[j].n && !memcmp(M[i].k, M[j].k, M[i].n * sizeof(int));
                if((v[i] == v[j]) != e || (v[i] != v[j]) == e)
                    fail("comparison");
            }
    }
    if(Elem::live)
        fail("%ld elements are still alive after destruction", Elem::live);
}
static void limits() {
    tr(nullptr);
    tr("reserve huge");
    P::Vector<uint64_t> v;
    v.push_back(5);
    if(!throws([&] { v.reserve(((size_t)1 << 61) + 1 + below(1000)); }))
        fail("a request larger than the address space is not reported");
    if(v.size() != 1 || v[0] != 5)
        fail("a failed reserve changes the vector");
    size_t target = ((size_t)-1 / 8) + 2 + below(1000);
    if(!throws([&] { v.reserve(target); }))
        fail("a request larger than the address space is not reported");
    // growth is geometric: few reallocations
    P::Vector<int> w;
    size_t c = 0, moves = 0;
    for(int i = 0; i < 3000; ++i) {
        w.push_back(i);
        if(w.capacity() != c) {
            c = w.capacity();
            ++moves;
        }
    }
    for(int i = 0; i < 3000; ++i)
        if(w[i] != i)
            fail("long vector loses entry %d", i);
}
#else
template<typename T, size_t N> static void fixed() {
    tr(nullptr);
    tr("capacity", N);
    {
        using FV = P::FixedVector<T, N>;
        struct {
            FV a;
            uint64_t guard = 0x5a5a5a5a5a5a5a5a;
        } v[3];
        for(auto &m : M)
            m.n = 0;
        unsigned steps = range(1, 40);
        for(unsigned s = 0; s < steps; ++s) {
            unsigned a = below(3), b = below(3);
            int x = (int)range(1, 999);
            Model &m = M[a];
            FV &w = v[a].a;
            const char *op = "?";
            switch(below(14)) {
            case 0:
            case 1: {
                tr(op = "try_push_back", a, x);
                T e = mk<T>(x);
                bool mv = below(2);
                if((mv ? w.try_push_back(static_cast<T &&>(e)) : w.try_push_back(e)) != (m.n < N))
                    fail("wrong answer");
                if((!mv || m.n == N) && keyof(e) != x)
                    fail("push_back changes its argument");
                if(m.n < N)
                    m.ins(m.n, x);
                break;
            }
            case 2: {
                tr(op = "push_back", a, x);
                T e = mk<T>(x);
                bool mv = below(2);
                if(throws([&] { mv ? w.push_back(static_cast<T &&>(e)) : w.push_back(e); }) != (m.n == N))
                    fail("overflow not reported exactly");
                if(m.n < N)
                    m.ins(m.n, x);
                break;
            }
            case 3:
                tr(op = "emplace_back", a, x);
                if(below(2)) {
                    if(throws([&] { w.emplace_back(mk<T>(x)); }) != (m.n == N))
                        fail("overflow not reported exactly");
                } else if(w.try_emplace_back(mk<T>(x)) != (m.n < N))
                    fail("wrong answer");
                if(m.n < N)
                    m.ins(m.n, x);
                break;
            case 4:
            case 5: {
                size_t i = below(m.n + 2);
                tr(op = "insert", a, i);
                T e = mk<T>(x);
                if(throws([&] { w.insert(i, static_cast<T &&>(e)); }) != (m.n == N || i > m.n))
                    fail("bad insertion not reported exactly");
                if(m.n < N && i <= m.n)
                    m.ins(i, x);
                else if(keyof(e) != x)
                    fail("rejected insertion takes its argument");
                break;
            }
            case 6: {
                size_t i = below(8) ? below(m.n + 2) : (size_t)-1 - below(2);
                tr(op = "delete_at", a, (long)i < 0 ? 99999 : i);
                if(throws([&] { w.delete_at(i); }) != (i >= m.n))
                    fail("bad deletion not reported exactly");
                if(i < m.n)
                    m.del(i);
                break;
            }
            case 7:
                tr(op = "pop_back", a);
                w.pop_back();
                if(m.n)
                    --m.n;
                break;
            case 8:
                tr(op = "pop_front", a);
                w.pop_front();
                if(m.n)
                    m.del(0);
                break;
            case 9: {
                tr(op = "move construct", a, b);
                FV c(static_cast<FV &&>(w));
                check(c, m, "move construction");
                if(!w.is_empty())
                    fail("moved from one is not empty");
                v[b].a = static_cast<FV &&>(c);
                Model t = m;
                m.n = 0;
                M[b] = t;
                break;
            }
            case 10:
                tr(op = "move assign", a, b);
                w = static_cast<FV &&>(v[b].a);
                if(a != b) {
                    m = M[b];
                    M[b].n = 0;
                }
                break;
            case 11:
            case 12: {
                tr(op = "move_append", a, b);
                bool bad = a == b || m.n + M[b].n > N;
                if(throws([&] { w.move_append(v[b].a); }) != bad)
                    fail("bad append not reported exactly");
                if(!bad) {
                    for(size_t i = 0; i < M[b].n; ++i)
                        m.ins(m.n, M[b].k[i]);
                    v[b].a = FV();
                    M[b].n = 0;
                }
                break;
            }
            case 13:
                if(m.n) {
                    size_t j = below(m.n);
                    tr(op = "write", a, j);
                    (below(2) ? w[j] : w.unsafe_at(j)) = mk<T>(x);
                    m.k[j] = x;
                }
                break;
            }
            for(int i = 0; i < 3; ++i) {
                check(v[i].a, M[i], op);
                if(v[i].guard != 0x5a5a5a5a5a5a5a5a)
                    fail("memory behind the object is overwritten");
                if(v[i].a.is_full() != (M[i].n == N) || v[i].a.capacity() != N)
                    fail("is_full or capacity");
            }
        }
    }
    if(Elem::live)
        fail("%ld elements are still alive after destruction", Elem::live);
}
#endif
int main() {
    HUNT_MAIN_INIT();
    Elem::strict = false;
    while(more()) {
#ifdef C07
        switch(below(6)) {
        case 0:
        case 1:
        case 2: vectors<Elem>(); break;
        case 3: vectors<int>(); break;
        case 4: vectors<P::CString>(); break;
        case 5: below(20) ? vectors<Wide>() : limits(); break;
        }
#else
        switch(below(8)) {
        case 0: fixed<Elem, 1>(); break;
        case 1: fixed<Elem, 2>(); break;
        case 2: fixed<Elem, 5>(); break;
        case 3: fixed<Elem, 17>(); break;
        case 4: fixed<int, 3>(); break;
        case 5: fixed<P::CString, 4>(); break;
        case 6: fixed<Wide, 3>(); break;
        case 7: fixed<uint64_t, 300>(); break;
        }
#endif
    }
    finish();
}
