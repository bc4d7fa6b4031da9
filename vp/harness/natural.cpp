// Contract of CStringView::natural_order (C30).
#include <pystd2026.hpp>
#include "vp.hpp"
namespace P = pystd2026;
// the specified order of two texts, defined in specs/natural.py: -1, 0 or 1
extern "C" int32_t vp_natural(const char *a, uint64_t n, const char *b, uint64_t m);
void spec_natural_order() {
    uint64_t n = vp_u64(), m = vp_u64();
    const char *a = vp_bytes(n), *b = vp_bytes(m);
    int32_t s = vp_natural(a, n, b, m);
    int r = P::CStringView(a, n).natural_order(P::CStringView(b, m));
    vp_assert((r < 0) == (s < 0) && (r > 0) == (s > 0), "the specified order");
}
void spec_natural_order_itself() {
    uint64_t n = vp_u64();
    const char *a = vp_bytes(n);
    int32_t s = vp_natural(a, n, a, n);
    P::CStringView x(a, n);
    int r = x.natural_order(x);
    vp_assert((r < 0) == (s < 0) && (r > 0) == (s > 0), "the specified order");
}
