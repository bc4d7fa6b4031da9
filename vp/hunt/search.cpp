// Executable oracle for lower_bound, find, find_if, find_if_not, is_sorted and the vocabulary queries.
#include <pystd2026.hpp>
#include "elem.hpp"
using namespace hunt;
namespace P = pystd2026;
template<int M> void one(int *k, size_t n, int v) {
    using C = Cmp<M>;
    C::limit = ~0ul;
    C c;
    setcase("searches n=%zu value=%d comparator=%d keys=%s", n, v, M, keystr(k, n));
    Elem *p = (Elem *)malloc(n * sizeof(Elem) + (n == 0));
    for(size_t i = 0; i < n; ++i)
        new(p + i) Elem(k[i], (int)i);
    Elem val(v);
    bool sorted = true;
    for(size_t i = 1; i < n; ++i)
        if(c.compare(p[i - 1], p[i]) > 0)
            sorted = false;
    if(P::is_sorted(p, p + n, c) != sorted)
        fail("is_sorted says %d", !sorted);
    if(sorted) {
        size_t e = 0;
        while(e < n && c.compare(p[e], val) < 0)
            ++e;
        Elem *r = P::lower_bound(p, p + n, val, c);
        if(r != p + e)
            fail("lower_bound gives position %td of %zu instead of %zu", r ? r - p : -1, n, e);
    }
    size_t f = 0, g = 0;
    while(f < n && !(p[f].key == v))
        ++f;
    if(P::find(p, p + n, val) != p + f)
        fail("find: wrong position");
    if(P::find_if(p, p + n, [&](const Elem &x) { return x.key == v; }) != p + f)
        fail("find_if: wrong position");
    while(g < n && p[g].key < v)
        ++g;
    if(P::find_if_not(p, p + n, [&](const Elem &x) { return x.key < v; }) != p + g)
        fail("find_if_not: wrong position");
    for(size_t i = 0; i < n; ++i)
        p[i].~Elem();
    free(p);
    // plain integers with the default comparator
    int *q = (int *)malloc(n * sizeof(int) + (n == 0));
    memcpy(q, k, n * sizeof(int));
    bool asc = true;
    for(size_t i = 1; i < n; ++i)
        asc = asc && q[i - 1] <= q[i];
    if(asc) {
        size_t e = 0;
        while(e < n && q[e] < v)
            ++e;
        if(P::lower_bound(q, q + n, v) != q + e)
            fail("default lower_bound: wrong position, expected %zu", e);
    }
    if(P::find(q, q + n, v) != q + f)
        fail("find on integers: wrong position");
    free(q);
}
static int cmpk(const void *a, const void *b) { return *(int *)a < *(int *)b ? -1 : *(int *)a > *(int *)b; }
int main() {
    HUNT_MAIN_INIT();
    static int k[4000];
    for(size_t n = 0; n <= 6; ++n) {
        size_t tot = 1;
        for(size_t i = 0; i < n; ++i)
            tot *= 4;
        for(size_t x = 0; x < tot; ++x) {
            size_t y = x;
            for(size_t i = 0; i < n; ++i, y /= 4)
                k[i] = (int)(y % 4);
            for(int v = -1; v < 5; ++v) {
                one<0>(k, n, v);
                if(n < 5) {
                    one<1>(k, n, v);
                    one<2>(k, n, v);
                }
            }
        }
    }
    for(size_t n = 0; n < 70; ++n)
        for(int v = -1; v <= (int)n * 2 + 1; ++v) {
            for(size_t i = 0; i < n; ++i)
                k[i] = (int)i * 2;
            one<0>(k, n, v);
        }
    sample("exhaustive: all sequences over 4 values to length 6, every position of strictly increasing ranges to length 70");
    while(more()) {
        size_t n = gen_size(800) % 900;
        gen_keys(k, n);
        if(below(4))
            qsort(k, n, sizeof(int), cmpk);
        if(n && below(3) == 0)
            for(size_t i = 0; i < n / 2; ++i) {
                int t = k[i];
                k[i] = k[n - 1 - i];
                k[n - 1 - i] = t;
            }
        int v = n && below(2) ? k[below(n)] + (int)below(3) - 1 : (int)below(2 * n + 3) - 1;
        switch(below(3)) {
        case 0: one<0>(k, n, v); break;
        case 1: one<1>(k, n, v); break;
        default: one<2>(k, n, v);
        }
    }
    finish();
}
