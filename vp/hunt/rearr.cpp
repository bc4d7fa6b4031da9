// Executable oracle for partition, stable_partition and rotate.
#include <pystd2026.hpp>
#include <pystd2026_rotate.hpp>
#include <pystd2026_stablepartition.hpp>
#include "elem.hpp"
using namespace hunt;
namespace P = pystd2026;
struct Pr {
    int thr;
    bool operator()(const Elem &e) const {
        e.need("predicate");
        return e.key < thr;
    }
    bool operator()(const int &e) const { return e < thr; }
};
static Elem *mk(const int *k, size_t n) {
    Elem *p = (Elem *)malloc(n * sizeof(Elem) + (n == 0));
    for(size_t i = 0; i < n; ++i)
        new(p + i) Elem(k[i], (int)i);
    return p;
}
static void done(Elem *p, const int *k, size_t n, long live) {
    char *seen = (char *)calloc(n + 1, 1);
    if(Elem::live != live)
        fail("element objects leaked or destroyed");
    for(size_t i = 0; i < n; ++i) {
        p[i].need("final element");
        if(p[i].id < 0 || (size_t)p[i].id >= n || seen[p[i].id] || p[i].key != k[p[i].id])
            fail("not a permutation of the range at %zu", i);
        seen[p[i].id] = 1;
    }
    free(seen);
    for(size_t i = 0; i < n; ++i)
        p[i].~Elem();
    free(p);
}
static void parts(const int *k, size_t n, int thr) {
    Pr pr{thr};
    size_t cnt = 0;
    for(size_t i = 0; i < n; ++i)
        cnt += k[i] < thr;
    {
        setcase("partition n=%zu pred=key<%d keys=%s", n, thr, keystr(k, n));
        Elem *p = mk(k, n);
        long live = Elem::live;
        size_t r = below(2) ? (size_t)(P::partition(p, p + n, pr) - p) : P::partition(P::Span<Elem>(p, n), pr);
        if(r != cnt)
            fail("boundary %zu instead of %zu", r, cnt);
        for(size_t i = 0; i < n; ++i)
            if((p[i].key < thr) != (i < r))
                fail("element %zu is on the wrong side", i);
        done(p, k, n, live);
        int *q = (int *)malloc(n * sizeof(int) + (n == 0));
        memcpy(q, k, n * sizeof(int));
        int *b = P::partition(q, q + n, pr);
        if((size_t)(b - q) != cnt)
            fail("integer partition: boundary %zu instead of %zu", (size_t)(b - q), cnt);
        for(size_t i = 0; i < n; ++i)
            if((q[i] < thr) != (i < cnt))
                fail("integer partition: element %zu is on the wrong side", i);
        free(q);
    }
    {
        setcase("stable_partition n=%zu pred=key<%d keys=%s", n, thr, keystr(k, n));
        Elem *p = mk(k, n);
        long live = Elem::live;
        size_t r = P::stable_partition(p, p + n, pr) - p;
        if(r != cnt)
            fail("boundary %zu instead of %zu", r, cnt);
        for(size_t i = 0; i < n; ++i) {
            if((p[i].key < thr) != (i < r))
                fail("element %zu is on the wrong side", i);
            if(i && i != r && p[i - 1].id > p[i].id)
                fail("relative order changed at %zu", i);
        }
        done(p, k, n, live);
    }
}
static void rot(const int *k, size_t n, size_t m) {
    setcase("rotate n=%zu middle=%zu keys=%s", n, m, keystr(k, n));
    Elem *p = mk(k, n);
    long live = Elem::live;
    size_t r = below(2) ? P::rotate(p, p + m, p + n) - p : P::rotate(P::Span<Elem>(p, n), m) - p;
    if(r != n - m)
        fail("returned position %zu instead of %zu", r, n - m);
    for(size_t i = 0; i < n; ++i)
        if(p[i].id != (int)((i + m) % (n ? n : 1)))
            fail("position %zu holds element %d", i, p[i].id);
    done(p, k, n, live);
    int *q = (int *)malloc(n * sizeof(int) + (n == 0));
    memcpy(q, k, n * sizeof(int));
    if(n > 0) {
        if(below(2)) {
            P::rotate_last_to_front(q, q + n);
            for(size_t i = 0; i < n; ++i)
                if(q[i] != k[(i + n - 1) % n])
                    fail("rotate_last_to_front wrong at %zu", i);
        } else {
            P::rotate_first_to_back(q, q + n);
            for(size_t i = 0; i < n; ++i)
                if(q[i] != k[(i + 1) % n])
                    fail("rotate_first_to_back wrong at %zu", i);
        }
    }
    free(q);
}
int main() {
    HUNT_MAIN_INIT();
    static int k[6000];
    for(size_t n = 0; n <= 11; ++n)
        for(size_t x = 0; x < (1u << n); ++x) {
            for(size_t i = 0; i < n; ++i)
                k[i] = (x >> i) & 1;
            parts(k, n, 1);
        }
    for(size_t n = 0; n <= 40; ++n) {
        for(size_t i = 0; i < n; ++i)
            k[i] = (int)i;
        for(size_t m = 0; m <= n; ++m)
            rot(k, n, m);
    }
    sample("exhaustive: every truth pattern to length 11, every rotation to length 40");
    while(more()) {
        size_t n = gen_size();
        gen_keys(k, n);
        parts(k, n, (int)(below(4) ? below(n + 2) : below(10)));
        rot(k, n, below(n + 1));
    }
    finish();
}
