// Executable oracle for radix_sort and bucketsort: equals the sorted copy, nothing outside the range touched.
#include <pystd2026.hpp>
#include <pystd2026_bucketsort.hpp>
#include <pystd2026_radixsort.hpp>
#include "hunt.hpp"
using namespace hunt;
namespace P = pystd2026;
template<typename I> int cmpi(const void *a, const void *b) { return *(I *)a < *(I *)b ? -1 : *(I *)a > *(I *)b; }
template<typename I> void one(int alg, size_t n, int mode) {
    I *p = (I *)malloc(n * sizeof(I) + (n == 0)), *q = (I *)malloc(n * sizeof(I) + 1);
    const int W = sizeof(I) * 8;
    I fixed = (I)rnd();
    unsigned b1 = below(W), b2 = below(W), d = range(1, 5);
    for(size_t i = 0; i < n; ++i) {
        I v;
        switch(mode) {
        case 0: v = (I)rnd(); break;
        case 1: v = fixed; break;
        case 2: v = (I)(fixed ^ ((I)below(2) << b1)); break;
        case 3: v = (I)(((I)below(2) << b1) | ((I)below(2) << b2)); break;
        case 4: v = (I)below(d); break;
        case 5: v = (I)(~(I)0 - (I)below(d)); break;
        case 6: v = (I)((I)below(d) << (W - 3)); break;
        case 7: v = (I)(rnd() >> (below(W))); break;
        case 8: v = (I)(((I)1) << below(W)); break;
        case 9: v = (I)i; break;
        case 10: v = (I)(n - i); break;
        default: v = (I)((rnd() & 1) ? fixed : rnd());
        }
        p[i] = q[i] = v;
    }
    setcase("%s on %d-bit integers n=%zu mode=%d fixed=%llx bits=%u,%u first: %s", alg ? "bucketsort" : "radix_sort", W, n, mode, (unsigned long long)fixed, b1, b2, hexs(p, n * sizeof(I)));
    if(alg)
        P::bucketsort(p, p + n);
    else if(below(2))
        P::radix_sort(p, p + n);
    else
        P::radix_sort(P::Span<I>(p, n));
    qsort(q, n, sizeof(I), cmpi<I>);
    for(size_t i = 0; i < n; ++i)
        if(p[i] != q[i])
            fail("wrong result at position %zu: %llx instead of %llx", i, (unsigned long long)p[i], (unsigned long long)q[i]);
    free(p);
    free(q);
}
static void any(size_t n, int mode) {
    for(int alg = 0; alg < 2; ++alg) {
        one<uint8_t>(alg, n, mode);
        one<uint16_t>(alg, n, mode);
        one<uint32_t>(alg, n, mode);
        one<uint64_t>(alg, n, mode);
    }
}
int main() {
    HUNT_MAIN_INIT();
    for(int mode = 0; mode < 12; ++mode) {
        for(size_t n = 0; n < 80; ++n)
            any(n, mode);
        const size_t big[] = {127u, 128u, 255u, 256u, 257u, 300u, 511u, 512u, 513u, 1000u, 4095u, 65535u, 65536u, 65537u, 66000u};
        for(size_t n : big)
            if(n < 5000 || mode < 7)
                any(n, mode);
    }
    sample("all lengths below 80 in 12 value patterns, lengths around 2^8 and 2^16, each integer width");
    while(more()) {
        size_t n = below(10) == 0 ? below(5000) : below(200);
        int m = (int)below(12);
        any(n, m);
    }
    finish();
}
