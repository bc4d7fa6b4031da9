// Executable oracle for nth_element, partial_sort, min_element, max_element.
#include <pystd2026.hpp>
#include <pystd2026_introsort.hpp>
#include <pystd2026_nth_element.hpp>
#include <pystd2026_partial_sort.hpp>
#include "elem.hpp"
using namespace hunt;
namespace P = pystd2026;
template<int Pad> struct Big : Elem {
    char pad[Pad];
    using Elem::Elem;
};
static int cmpk(const void *a, const void *b) { return *(int *)a < *(int *)b ? -1 : *(int *)a > *(int *)b; }
template<typename T, int M> void one(const int *k, size_t n, size_t nth, int alg) {
    using C = Cmp<M>;
    C::limit = ~0ul;
    C::calls = 0;
    setcase("%s n=%zu nth=%zu sizeof(element)=%zu comparator=%d keys=%s", alg ? "partial_sort" : "nth_element", n, nth, sizeof(T), M, keystr(k, n));
    C::limit = 4000 * (n + 10);
    T *p = (T *)malloc(n * sizeof(T) + (n == 0));
    for(size_t i = 0; i < n; ++i)
        new(p + i) T(k[i], (int)i);
    long live = Elem::live;
    bool threw = false;
    T *r = nullptr;
    C c;
    try {
        if(alg)
            r = P::partial_sort(p, p + n, nth, c);
        else if(below(2))
            r = P::nth_element(p, p + n, nth, c);
        else
            r = p + P::nth_element(P::Span<T>(p, n), nth, c);
    } catch(const P::PyException &) {
        threw = true;
    }
    if(Elem::live != live)
        fail("element objects leaked or destroyed");
    if(threw != (nth >= n))
        fail(threw ? "valid position reported as an error" : "out-of-range position not reported");
    if(threw) {
        for(size_t i = 0; i < n; ++i)
            if(p[i].id != (int)i || p[i].st != Elem::LIVE)
                fail("error changed the range");
    } else {
        if((size_t)(r - p) != nth)
            fail("returned position %zu", (size_t)(r - p));
        char *seen = (char *)calloc(n + 1, 1);
        for(size_t i = 0; i < n; ++i) {
            p[i].need("final element");
            if(p[i].id < 0 || (size_t)p[i].id >= n || seen[p[i].id] || p[i].key != k[p[i].id])
                fail("not a permutation of the range at %zu", i);
            seen[p[i].id] = 1;
            int o = c.compare(p[i], p[nth]);
            if(i < nth ? o > 0 : o < 0)
                fail("element %zu is on the wrong side of position %zu", i, nth);
            if(alg && i < nth && i && c.compare(p[i - 1], p[i]) > 0)
                fail("front part not sorted at %zu", i);
        }
        free(seen);
    }
    for(size_t i = 0; i < n; ++i)
        p[i].~T();
    free(p);
}
static void ints(const int *k, size_t n, size_t nth) {
    setcase("default nth_element/partial_sort on integers n=%zu nth=%zu keys=%s", n, nth, keystr(k, n));
    int *p = (int *)malloc(n * sizeof(int) + (n == 0)), *q = (int *)malloc(n * sizeof(int) + 1);
    memcpy(p, k, n * sizeof(int));
    memcpy(q, k, n * sizeof(int));
    qsort(q, n, sizeof(int), cmpk);
    bool threw = false;
    int *r = p;
    int alg = (int)below(3);
    try {
        r = alg == 2 ? P::nth_element(p, p + n, nth, P::DefaultComparator<int>{}) : alg ? P::partial_sort(p, p + n, nth) : P::nth_element(p, p + n, nth);
    } catch(const P::PyException &) {
        threw = true;
    }
    if(threw != (nth >= n))
        fail("error reporting wrong (threw=%d)", threw);
    if(!threw) {
        if((size_t)(r - p) != nth || *r != q[nth])
            fail("position %zu, value %d, expected value %d", (size_t)(r - p), *r, q[nth]);
        for(size_t i = 0; i < n; ++i)
            if(i < nth ? p[i] > *r : p[i] < *r)
                fail("element %zu on the wrong side", i);
        if(alg == 1)
            for(size_t i = 0; i < nth; ++i)
                if(p[i] != q[i])
                    fail("front part not sorted at %zu", i);
        qsort(p, n, sizeof(int), cmpk);
    } else if(memcmp(p, k, n * sizeof(int)))
        fail("error changed the range");
    if(!threw && memcmp(p, q, n * sizeof(int)))
        fail("not a permutation");
    free(p);
    free(q);
}
template<int M> void minmax(const int *k, size_t n) {
    setcase("min/max_element n=%zu comparator=%d keys=%s", n, M, keystr(k, n));
    using C = Cmp<M>;
    C::limit = ~0ul;
    C c;
    Elem *p = (Elem *)malloc(n * sizeof(Elem) + (n == 0));
    for(size_t i = 0; i < n; ++i)
        new(p + i) Elem(k[i], (int)i);
    Elem *a = P::min_element(p, p + n, c), *b = P::max_element(p, p + n, c);
    if(n == 0) {
        if(a != p || b != p)
            fail("empty range");
    } else {
        if(a < p || a >= p + n || b < p || b >= p + n)
            fail("position outside the range");
        for(size_t i = 0; i < n; ++i) {
            if(c.compare(p[i], *a) < 0)
                fail("min_element: %zu is smaller", i);
            if(c.compare(p[i], *b) > 0)
                fail("max_element: %zu is larger", i);
            if(p[i].id != (int)i)
                fail("range changed");
        }
    }
    for(size_t i = 0; i < n; ++i)
        p[i].~Elem();
    free(p);
    if(P::min_element(k, k + n) != k + n) {
        const int *m = P::min_element(k, k + n);
        for(size_t i = 0; i < n; ++i)
            if(k[i] < *m)
                fail("default min_element");
    }
}
// the order is decided while the algorithm runs, always against it
struct Adv {
    static inline int *val, gas, nsolid, cand;
    int compare(const Elem &a, const Elem &b) const noexcept {
        a.need("compare");
        b.need("compare");
        int x = a.id, y = b.id;
        if(x != y && val[x] == gas && val[y] == gas)
            val[x == cand ? x : y] = nsolid++;
        if(val[x] == gas)
            cand = x;
        else if(val[y] == gas)
            cand = y;
        return val[x] < val[y] ? -1 : val[x] > val[y];
    }
};
static void adversary(size_t n, size_t nth) {
    setcase("nth_element n=%zu nth=%zu adversarial comparator", n, nth);
    Elem *p = (Elem *)malloc(n * sizeof(Elem) + 1);
    int *v = (int *)malloc(n * sizeof(int) + 1);
    for(size_t i = 0; i < n; ++i) {
        new(p + i) Elem((int)i, (int)i);
        v[i] = (int)n;
    }
    Adv::val = v;
    Adv::gas = (int)n;
    Adv::nsolid = Adv::cand = 0;
    Elem *r = P::nth_element(p, p + n, nth, Adv{});
    if((size_t)(r - p) != nth)
        fail("position %zu", (size_t)(r - p));
    for(size_t i = 0; i < n; ++i) {
        p[i].need("final element");
        if(i < nth ? v[p[i].id] > v[p[nth].id] : v[p[i].id] < v[p[nth].id])
            fail("element %zu on the wrong side", i);
    }
    for(size_t i = 0; i < n; ++i)
        p[i].~Elem();
    one<Elem, 0>(v, n, nth, 0);
    free(v);
    free(p);
}
int main() {
    HUNT_MAIN_INIT();
    static int k[10000];
    for(size_t n = 0; n <= 6; ++n) {
        size_t tot = 1;
        for(size_t i = 0; i < n; ++i)
            tot *= 3;
        for(size_t x = 0; x < tot; ++x) {
            size_t y = x;
            for(size_t i = 0; i < n; ++i, y /= 3)
                k[i] = (int)(y % 3);
            for(size_t nth = 0; nth <= n + 1; ++nth) {
                one<Elem, 0>(k, n, nth, 0);
                one<Elem, 1>(k, n, nth, 1);
                ints(k, n, nth);
            }
            minmax<0>(k, n);
            minmax<1>(k, n);
        }
    }
    for(size_t n = 1; n <= 90; ++n)
        for(size_t nth = 0; nth < n; nth += (n < 40 ? 1 : 3)) {
            for(size_t i = 0; i < n; ++i)
                k[i] = (int)below(1 + n / (1 + nth % 3));
            one<Elem, 0>(k, n, nth, 0);
            ints(k, n, nth);
            for(size_t i = 0; i < n; ++i)
                k[i] = 4;
            one<Elem, 0>(k, n, nth, nth & 1);
        }
    const size_t big[] = {20, 33, 50, 100, 200, 500};
    for(size_t n : big)
        for(int j = 0; j < 6; ++j)
            adversary(n, below(n));
    sample("exhaustive: all key sequences over 3 values to length 6 with every position");
    while(more()) {
        size_t n = gen_size();
        gen_keys(k, n);
        size_t nth = below(12) == 0 ? n + below(3) : below(5) == 0 ? (below(2) ? 0 : n ? n - 1 : 0) : below(n + 1);
        int alg = (int)below(2);
        switch(below(7)) {
        case 0: one<Elem, 0>(k, n, nth, alg); break;
        case 1: one<Elem, 1>(k, n, nth, alg); break;
        case 2: one<Elem, 2>(k, n, nth, alg); break;
        case 3: one<Big<40>, 0>(k, n, nth, alg); break;
        case 4: one<Big<200>, 2>(k, n, nth, alg); break;
        case 5: one<Odd, 1>(k, n, nth, alg); break;
        default: ints(k, n, nth);
        }
        if(below(3) == 0) {
            minmax<0>(k, n);
            minmax<1>(k, n);
            minmax<2>(k, n);
        }
    }
    finish();
}
