// Element types for the executable oracles.
#pragma once
#include "hunt.hpp"
// A move-sensitive element: key, identity, and a state word; every use of a moved-from or dead one is reported.
struct Elem {
    int key = 0;
    int id = -1;
    unsigned st; // LIVE / MOVED / DEAD
    Elem *self;  // address based: a bitwise copy of an Elem is noticed
    static inline long live = 0;
    static inline bool strict = true;
    static constexpr unsigned LIVE = 0x600D600D, MOVED = 0x300F300F, DEAD = 0xDEADDEAD;
    void need(const char *w) const {
        if(st != LIVE || self != this)
            hunt::fail("%s: element is %s", w, self != this ? "not constructed here" : st == MOVED ? "moved-from" : "destroyed or never constructed");
    }
    void exists(const char *w) const {
        if((st != LIVE && st != MOVED) || self != this)
            hunt::fail("%s: no live element at this address", w);
    }
    Elem() noexcept : st(LIVE), self(this) { ++live; }
    Elem(int k, int i = -1) noexcept : key(k), id(i), st(LIVE), self(this) { ++live; }
    Elem(const Elem &o) noexcept : key(o.key), id(o.id), st(LIVE), self(this) {
        o.need("copy from");
        ++live;
    }
    Elem(Elem &&o) noexcept : key(o.key), id(o.id), st(LIVE), self(this) {
        if(!strict && o.st == MOVED) {
            o.exists("move from");
            st = MOVED;
            ++live;
            return;
        }
        o.need("move from");
        o.st = MOVED;
        o.key = -7777;
        o.id = -7777;
        ++live;
    }
    ~Elem() {
        exists("destroy");
        st = DEAD;
        self = nullptr;
        --live;
    }
    Elem &operator=(const Elem &o) noexcept {
        o.need("copy assignment from");
        exists("copy assignment to");
        key = o.key;
        id = o.id;
        st = LIVE;
        return *this;
    }
    Elem &operator=(Elem &&o) noexcept {
        o.need("move assignment from");
        exists("move assignment to");
        if(&o != this) {
            key = o.key;
            id = o.id;
            st = LIVE;
            o.st = MOVED;
            o.key = -7777;
            o.id = -7777;
        }
        return *this;
    }
    bool operator==(const Elem &o) const noexcept {
        need("==");
        o.need("==");
        return key == o.key;
    }
    bool operator<(const Elem &o) const noexcept {
        need("<");
        o.need("<");
        return key < o.key;
    }
    bool operator>(const Elem &o) const noexcept {
        need(">");
        o.need(">");
        return key > o.key;
    }
    int operator<=>(const Elem &o) const noexcept {
        need("<=>");
        o.need("<=>");
        return key < o.key ? -1 : key > o.key ? 1 : 0;
    }
};
// same, but the built-in operators say the opposite of the comparators in use: an algorithm must use the comparator
struct Odd : Elem {
    using Elem::Elem;
    bool operator==(const Odd &) const noexcept { return true; }
    bool operator<(const Odd &o) const noexcept { return key > o.key; }
    bool operator>(const Odd &o) const noexcept { return key < o.key; }
};
template<int M> struct Cmp { // 0 ascending, 1 descending, 2 coarse
    static inline unsigned long calls = 0, limit = ~0ul;
    static int k(int v) { return M == 2 ? v >> 2 : v; }
    int compare(const Elem &a, const Elem &b) const noexcept {
        a.need("compare");
        b.need("compare");
        if(++calls > limit)
            hunt::fail("does not terminate: more than %lu comparisons", limit);
        int x = k(a.key), y = k(b.key);
        int r = x < y ? -1 : x > y ? 1 : 0;
        return (M == 1 ? -r : r) * 3;
    }
    bool equal(const Elem &a, const Elem &b) const noexcept {
        a.need("equal");
        b.need("equal");
        return k(a.key) == k(b.key);
    }
};
// fills n elements with a pattern chosen by the generator; ids are the positions
inline const char *gen_keys(int *k, size_t n) {
    using namespace hunt;
    static const char *nm[] = {"uniform", "few distinct", "equal", "ascending", "descending", "organ", "sawtooth", "almost sorted", "killer", "two values"};
    unsigned m = below(10);
    unsigned d = range(2, 9);
    for(size_t i = 0; i < n; ++i) {
        int v = 0;
        switch(m) {
        case 0: v = (int)below(1 + 2 * n); break;
        case 1: v = (int)below(d); break;
        case 2: v = 5; break;
        case 3: v = (int)i; break;
        case 4: v = (int)(n - i); break;
        case 5: v = (int)(i < n / 2 ? i : n - i); break;
        case 6: v = (int)(i % d); break;
        case 7: v = (int)i; break;
        case 8: v = (int)(i % 2 ? i : n / 2 + i / 2); break;
        case 9: v = (int)(below(2) * 100); break;
        }
        k[i] = v;
    }
    if(m == 7 && n > 1)
        for(unsigned j = below(6); j--;) {
            size_t a = below(n), b = below(n);
            int t = k[a];
            k[a] = k[b];
            k[b] = t;
        }
    if(m == 2 && n > 1)
        for(unsigned j = below(3); j--;)
            k[below(n)] = (int)below(10);
    return nm[m];
}
inline size_t gen_size(size_t max = 3000) {
    using namespace hunt;
    switch(below(8)) {
    case 0: return below(6);
    case 1: return below(20);
    case 2: return range(14, 18);
    case 3: return range(28, 70);
    case 4: return below(140);
    case 5: return below(700) % (max + 1);
    case 6: return range(16, 34);
    default: return below(20) == 0 ? below(max) : below(300);
    }
}
inline const char *keystr(const int *k, size_t n) {
    static char b[3000];
    size_t o = 0;
    b[0] = 0;
    for(size_t i = 0; i < n && o < sizeof b - 40; ++i)
        o += sprintf(b + o, "%s%d", i ? "," : "", k[i]);
    if(n && o >= sizeof b - 40)
        sprintf(b + o, ",...");
    return b;
}
