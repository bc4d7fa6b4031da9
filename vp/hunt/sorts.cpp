// Executable oracle for the sorting contracts: sorted by the comparator, a permutation, no element lost, duplicated or
// left moved-from, nothing outside the range touched (exact heap block + AddressSanitizer), termination (comparison
// budget), and for the stable sorts the original order of equal elements.
#include <pystd2026.hpp>
#include <pystd2026_heapsort.hpp>
#include <pystd2026_indirect_sort.hpp>
#include <pystd2026_introsort.hpp>
#include <pystd2026_mergesort.hpp>
#include <pystd2026_shellsort.hpp>
#include "elem.hpp"
using namespace hunt;
namespace P = pystd2026;
template<typename T, typename C> void callsort(int alg, T *b, T *e, const C &c) {
    switch(alg) {
    case 0: P::insertion_sort(b, e, c); break;
    case 1: P::mergesort(b, e, c); break;
    case 2: P::heapsort(b, e, c); break;
    case 3: P::introsort(b, e, c); break;
    case 4: P::shell_sort(b, e, c); break;
    case 5: P::mergesort(P::Span<T>(b, (size_t)(e - b)), c); break;
    }
}
static const char *an[] = {"insertion_sort", "mergesort", "heapsort", "introsort", "shell_sort", "mergesort(Span)"};
template<typename T, int M> void one(int alg, const int *k, size_t n, bool stable) {
    using C = Cmp<M>;
    setcase("%s n=%zu comparator=%s keys=%s", an[alg], n, M == 0 ? "ascending" : M == 1 ? "descending" : "key>>2", keystr(k, n));
    T *p = (T *)malloc(n * sizeof(T) + (n == 0));
    for(size_t i = 0; i < n; ++i)
        new(p + i) T(k[i], (int)i);
    long before = Elem::live;
    C::calls = 0;
    C::limit = 60 * (n + 20) * (alg == 0 ? n / 16 + 20 : 60) + 10000;
    C c;
    callsort(alg, p, p + n, c);
    if(Elem::live != before)
        fail("%ld element objects leaked or destroyed", Elem::live - before);
    char *seen = (char *)calloc(n + 1, 1);
    for(size_t i = 0; i < n; ++i) {
        p[i].need("final element");
        if(p[i].id < 0 || (size_t)p[i].id >= n || seen[p[i].id])
            fail("not a permutation: position %zu holds id %d", i, p[i].id);
        seen[p[i].id] = 1;
        if(p[i].key != k[p[i].id])
            fail("element value changed at position %zu", i);
        if(i) {
            int r = c.compare(p[i - 1], p[i]);
            if(r > 0)
                fail("not sorted at position %zu", i);
            if(stable && r == 0 && p[i - 1].id > p[i].id)
                fail("stability: equal elements %d and %d swapped", p[i].id, p[i - 1].id);
        }
    }
    free(seen);
    for(size_t i = 0; i < n; ++i)
        p[i].~T();
    free(p);
}
template<typename I> void ints(int alg, size_t n) {
    I *p = (I *)malloc(n * sizeof(I) + (n == 0)), *q = (I *)malloc(n * sizeof(I) + 1);
    static int kk[4000];
    gen_keys(kk, n);
    bool big = below(2);
    for(size_t i = 0; i < n; ++i)
        p[i] = q[i] = big ? (I)(rnd() >> below(64)) : (I)kk[i];
    setcase("default %s on %zu-byte integers n=%zu keys=%s", an[alg], sizeof(I), n, keystr(kk, n));
    switch(alg) {
    case 0: P::insertion_sort(p, p + n); break;
    case 1: below(2) ? P::mergesort(p, p + n) : P::mergesort(P::Span<I>(p, n)); break;
    case 2: below(2) ? P::heapsort(p, p + n) : P::heapsort(P::Span<I>(p, n)); break;
    case 3: below(2) ? P::introsort(p, p + n) : P::introsort(P::Span<I>(p, n)); break;
    default: P::shell_sort(p, p + n); break;
    }
    // order-independent content check: sort the copy in the simplest way
    qsort(q, n, sizeof(I), [](const void *a, const void *b) { return *(I *)a < *(I *)b ? -1 : *(I *)a > *(I *)b; });
    for(size_t i = 0; i < n; ++i)
        if(p[i] != q[i])
            fail("wrong result at position %zu of an integer sort", i);
    free(p);
    free(q);
}
template<int M> void indirect(const int *k, size_t n, bool stable) {
    setcase("indirect%s_sort n=%zu comparator=%d keys=%s", stable ? "_stable" : "", n, M, keystr(k, n));
    Elem *p = (Elem *)malloc(n * sizeof(Elem) + (n == 0));
    for(size_t i = 0; i < n; ++i)
        new(p + i) Elem(k[i], (int)i);
    Cmp<M>::limit = ~0ul;
    Cmp<M> c;
    auto v = stable ? P::indirect_stable_sort(p, p + n, c) : P::indirect_sort(p, p + n, c);
    if(v.size() != n)
        fail("index vector has size %zu", (size_t)v.size());
    char *seen = (char *)calloc(n + 1, 1);
    for(size_t i = 0; i < n; ++i) {
        size_t x = v[i];
        if(x >= n || seen[x])
            fail("not a permutation of indices at %zu", i);
        seen[x] = 1;
        if(p[i].id != (int)i)
            fail("indirect sort changed the range");
        if(i) {
            int r = c.compare(p[v[i - 1]], p[x]);
            if(r > 0)
                fail("indices not sorted at %zu", i);
            if(stable && r == 0 && v[i - 1] > x)
                fail("stability: equal elements %zu and %zu out of order", x, (size_t)v[i - 1]);
        }
    }
    free(seen);
    for(size_t i = 0; i < n; ++i)
        p[i].~Elem();
    free(p);
}
// McIlroy's adversary: the order is decided while the algorithm runs, always against it (drives depth limits)
struct Adv {
    static inline int *val, gas, nsolid, cand;
    int compare(const Elem &a, const Elem &b) const noexcept {
        a.need("compare");
        b.need("compare");
        int x = a.id, y = b.id;
        if(x != y && val[x] == gas && val[y] == gas)
            val[x == cand ? x : y] = nsolid++;
        if(val[x] == gas)
            cand = x;
        else if(val[y] == gas)
            cand = y;
        return val[x] < val[y] ? -1 : val[x] > val[y];
    }
    bool equal(const Elem &a, const Elem &b) const noexcept { return compare(a, b) == 0; }
};
static void advcheck(int alg, const int *v, size_t n) {
    setcase("%s n=%zu adversarial comparator", an[alg], n);
    Elem *p = (Elem *)malloc(n * sizeof(Elem) + (n == 0));
    for(size_t i = 0; i < n; ++i)
        new(p + i) Elem((int)i, (int)i);
    callsort(alg, p, p + n, Adv{});
    char *seen = (char *)calloc(n + 1, 1);
    for(size_t i = 0; i < n; ++i) {
        p[i].need("final element");
        if(p[i].id < 0 || (size_t)p[i].id >= n || seen[p[i].id])
            fail("not a permutation at %zu", i);
        seen[p[i].id] = 1;
        if(i && v[p[i - 1].id] > v[p[i].id])
            fail("not sorted at %zu", i);
    }
    for(size_t i = 0; i < n; ++i)
        p[i].~Elem();
    free(seen);
    free(p);
}
static void adversary(int alg, size_t n) {
    int *v = (int *)malloc(n * sizeof(int) + 1);
    for(size_t i = 0; i < n; ++i)
        v[i] = (int)n;
    Adv::val = v;
    Adv::gas = (int)n;
    Adv::nsolid = Adv::cand = 0;
    advcheck(alg, v, n);
    // the order is fixed now: the same input again as plain data, also as integers
    one<Elem, 0>(alg, v, n, alg == 0 || alg == 1);
    int *q = (int *)malloc(n * sizeof(int) + 1);
    memcpy(q, v, n * sizeof(int));
    setcase("default %s on integers, adversarial input n=%zu", an[alg], n);
    callsort(alg, q, q + n, P::DefaultComparator<int>{});
    for(size_t i = 1; i < n; ++i)
        if(q[i - 1] > q[i])
            fail("not sorted at %zu", i);
    free(q);
    free(v);
}
static void intadv(int alg, size_t n) {
    struct A {
        int compare(const int &x, const int &y) const noexcept {
            int *val = Adv::val;
            if(x != y && val[x] == Adv::gas && val[y] == Adv::gas)
                val[x == Adv::cand ? x : y] = Adv::nsolid++;
            if(val[x] == Adv::gas)
                Adv::cand = x;
            else if(val[y] == Adv::gas)
                Adv::cand = y;
            return val[x] < val[y] ? -1 : val[x] > val[y];
        }
        bool equal(const int &x, const int &y) const noexcept { return compare(x, y) == 0; }
    };
    int *v = (int *)malloc(n * sizeof(int) + 1), *q = (int *)malloc(n * sizeof(int) + 1);
    for(size_t i = 0; i < n; ++i) {
        v[i] = (int)n;
        q[i] = (int)i;
    }
    Adv::val = v;
    Adv::gas = (int)n;
    Adv::nsolid = Adv::cand = 0;
    setcase("%s on integers n=%zu adversarial comparator", an[alg], n);
    callsort(alg, q, q + n, A{});
    char *seen = (char *)calloc(n + 1, 1);
    for(size_t i = 0; i < n; ++i) {
        if(q[i] < 0 || (size_t)q[i] >= n || seen[q[i]])
            fail("not a permutation at %zu", i);
        seen[q[i]] = 1;
        if(i && v[q[i - 1]] > v[q[i]])
            fail("not sorted at %zu", i);
    }
    free(seen);
    free(q);
    free(v);
}
int main() {
    HUNT_MAIN_INIT();
    static int k[20000];
#ifdef STABLE
    const int algs[] = {0, 1, 5};
    const bool stable = true;
#else
    const int algs[] = {0, 1, 2, 3, 4};
    const bool stable = false;
#endif
    // every key sequence over {0,1,2} up to length 6 and {0..7} up to 4
    for(size_t n = 0; n <= 6; ++n) {
        size_t tot = 1, base = n <= 4 ? 8 : 3;
        for(size_t i = 0; i < n; ++i)
            tot *= base;
        for(size_t x = 0; x < tot; ++x) {
            size_t y = x;
            for(size_t i = 0; i < n; ++i, y /= base)
                k[i] = (int)(y % base);
            for(int a : algs) {
                one<Elem, 0>(a, k, n, stable);
                one<Odd, 1>(a, k, n, stable);
                one<Odd, 2>(a, k, n, stable);
            }
#ifdef STABLE
            indirect<0>(k, n, true);
            indirect<2>(k, n, true);
#endif
        }
    }
    // every length up to 400, then sampled
    for(size_t n = 0; n <= 400; ++n)
        for(int a : algs) {
            for(size_t i = 0; i < n; ++i)
                k[i] = (int)below(1 + n / 2);
            if(n < 300 || n % 4 == 1)
                one<Odd, 1>(a, k, n, stable);
            for(size_t i = 0; i < n; ++i)
                k[i] = 3;
            one<Elem, 0>(a, k, n, stable);
            for(size_t i = 0; i < n; ++i)
                k[i] = (int)i;
            one<Elem, 1>(a, k, n, stable);
        }
    for(int r = 0; r < 30; ++r)
        for(int a : algs)
{
            size_t n = r < 20 ? (size_t)r * 17 : (size_t)(r - 19) * 150;
            adversary(a, n);
            intadv(a, n + range(0, 9));
        }
    sample("exhaustive: all key sequences over 8 values up to length 4 and 3 values up to length 6, all lengths to 400");
    unsigned it = 0;
    while(more()) {
        size_t n = gen_size();
        if(++it % 60 == 0)
            n = range(500, 9000);
        const char *g = gen_keys(k, n);
        for(int a : algs) {
            if(a == 0 && n > 1500)
                continue;
            switch(below(4)) {
            case 0: one<Elem, 0>(a, k, n, stable); break;
            case 1: one<Odd, 1>(a, k, n, stable); break;
            case 2: one<Odd, 2>(a, k, n, stable); break;
            default: one<Odd, 0>(a, k, n, stable);
            }
        }
        if(it < 4)
            sample("n=%zu %s", n, g);
#ifdef STABLE
        if(n < 2000) {
            indirect<0>(k, n, true);
            indirect<1>(k, n, true);
            indirect<2>(k, n, true);
        }
#else
        if(n < 2000) {
            indirect<1>(k, n, false);
            for(int a : algs) {
                switch(below(5)) {
                case 0: ints<uint8_t>(a, n); break;
                case 1: ints<int32_t>(a, n); break;
                case 2: ints<uint64_t>(a, n); break;
                case 3: ints<int64_t>(a, n); break;
                default: ints<uint16_t>(a, n);
                }
            }
        }
#endif
    }
    finish();
}
