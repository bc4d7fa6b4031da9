// Executable oracle for Range, clamp and the floating point orders.
#include <pystd2026.hpp>
#include "hunt.hpp"
using namespace hunt;
namespace P = pystd2026;
#ifdef C22
static void range1(int64_t a, int64_t b, int64_t s) {
    setcase("Range(%ld,%ld,%ld)", a, b, s);
    if(s == 0) {
        try {
            P::Range r(a, b, s);
        } catch(const P::PyException &) {
            return;
        }
        fail("zero step not reported");
    }
    P::Range r(a, b, s);
    __int128 e = a;
    for(int n = 0; n < 200; ++n) {
        bool due = s > 0 ? e < b : e > b;
        auto v = r.next();
        if((bool)v != due)
            fail("value %d: %s", n, due ? "ended early" : "goes on after its end");
        if(!v) {
            if(r.next())
                fail("continues after the end");
            break;
        }
        if(*v != e)
            fail("value %d is %ld instead of %ld", n, *v, (int64_t)e);
        e += s;
    }
    P::Range q(a, b, s);
    e = a;
    int n = 0;
    for(auto &x : P::Loopsume(P::Range(a, b, s))) {
        if(!(s > 0 ? e < b : e > b) || x != e)
            fail("loop value %d is %ld instead of %ld", n, x, (int64_t)e);
        e += s;
        if(++n > 100)
            break;
    }
    if(n <= 100 && (s > 0 ? e < b : e > b))
        fail("loop ended early");
    e = a;
    n = 0;
    for(auto &x : P::LoopView(q)) {
        if(!(s > 0 ? e < b : e > b) || x != e)
            fail("loop value %d is %ld instead of %ld", n, x, (int64_t)e);
        e += s;
        if(++n > 100)
            break;
    }
}
int main() {
    HUNT_MAIN_INIT();
    for(int a = -12; a <= 12; ++a)
        for(int b = -12; b <= 12; ++b)
            for(int s = -12; s <= 12; ++s)
                range1(a, b, s);
    const int64_t v[] = {INT64_MIN, INT64_MIN + 1, INT64_MIN + 5, INT64_MIN / 2, -1000000007, -3, -1, 0, 1, 2, 7, 1000000007, INT64_MAX / 2, INT64_MAX - 5, INT64_MAX - 1, INT64_MAX};
    for(auto a : v)
        for(auto b : v)
            for(auto s : v)
                range1(a, b, s);
    for(int b = -3; b < 60; ++b) {
        setcase("Range(%d)", b);
        P::Range r(b);
        for(int i = 0; i < b; ++i) {
            auto x = r.next();
            if(!x || *x != i)
                fail("value %d wrong", i);
        }
        if(r.next())
            fail("does not end");
        P::Range q(5, b);
        for(int i = 5; i < b; ++i) {
            auto x = q.next();
            if(!x || *x != i)
                fail("two-argument value %d wrong", i);
        }
        if(q.next())
            fail("two-argument range does not end");
    }
    while(more()) {
        int64_t a = (int64_t)rnd() >> below(60), b = a + ((int64_t)rnd() >> (50 + below(14))), s = (int64_t)rnd() >> (40 + below(24));
        if(__builtin_add_overflow(a, (int64_t)0, &b))
            continue;
        b = (int64_t)((uint64_t)a + (uint64_t)((int64_t)rnd() >> (30 + below(34))));
        range1(a, b, s);
    }
    sample("Range(5,-7,-3) -> 5 2 -1 -4");
    finish();
}
#else
template<typename F> static int ref(F a, F b) {
    bool na = a != a, nb = b != b;
    if(na || nb)
        return na && nb ? 0 : na ? 1 : -1;
    return a < b ? -1 : a > b ? 1 : 0;
}
static int sgn(int x) { return x < 0 ? -1 : x > 0; }
template<typename F> void pair(F a, F b) {
    setcase("total order of %a and %a", (double)a, (double)b);
    if(sgn(P::total_order_compare(a, b)) != ref(a, b))
        fail("total_order_compare gives %d", P::total_order_compare(a, b));
    if(P::total_order_equal(a, b) != (ref(a, b) == 0))
        fail("total_order_equal gives %d", P::total_order_equal(a, b));
    P::FloatTotalOrderComparator<F> c;
    if(sgn(c.compare(a, b)) != ref(a, b) || c.equal(a, b) != (ref(a, b) == 0))
        fail("FloatTotalOrderComparator");
    if(a == a && b == b) {
        P::FloatIgnoreNanComparator<F> d;
        if(sgn(d.compare(a, b)) != ref(a, b) || d.equal(a, b) != (ref(a, b) == 0))
            fail("FloatIgnoreNanComparator gives %d", d.compare(a, b));
    }
}
static void cl(int64_t v, int64_t lo, int64_t hi) {
    if(lo > hi)
        return;
    setcase("clamp(%ld,%ld,%ld)", v, lo, hi);
    int64_t e = v < lo ? lo : v > hi ? hi : v;
    if(P::clamp(v, lo, hi) != e)
        fail("gives %ld instead of %ld", P::clamp(v, lo, hi), e);
}
static void cd(double v, double lo, double hi) {
    bool nan = v != v || lo != lo || hi != hi;
    if(!nan && lo > hi)
        return;
    setcase("clamp(%a,%a,%a)", v, lo, hi);
    double r = P::clamp(v, lo, hi);
    if(nan) {
        if(r == r)
            fail("gives %a instead of NaN", r);
        return;
    }
    double e = v < lo ? lo : v > hi ? hi : v;
    if(r != e)
        fail("gives %a instead of %a", r, e);
}
int main() {
    HUNT_MAIN_INIT();
    const double inf = __builtin_inf(), nan = __builtin_nan("");
    double d[] = {nan, -nan, inf, -inf, 0.0, -0.0, 1, -1, 1.5, -1.5, 5e-324, -5e-324, 2.2250738585072014e-308, 1.7976931348623157e308, -1.7976931348623157e308, 1e10, -1e10, 3.4028234e38, 1e39, 0.1, -0.1, 9007199254740993.0};
    for(auto a : d)
        for(auto b : d) {
            pair(a, b);
            pair((float)a, (float)b);
            for(auto c : d)
                cd(a, b, c);
        }
    int64_t v[] = {INT64_MIN, INT64_MIN + 1, -1000000, -5, -1, 0, 1, 2, 5, 1000000, INT64_MAX - 1, INT64_MAX};
    for(auto a : v)
        for(auto b : v)
            for(auto c : v)
                cl(a, b, c);
    while(more()) {
        uint64_t x = rnd(), y = below(4) ? rnd() : x ^ (1ull << below(64));
        double a, b;
        memcpy(&a, &x, 8);
        memcpy(&b, &y, 8);
        pair(a, b);
        float fa, fb;
        memcpy(&fa, &x, 4);
        memcpy(&fb, &y, 4);
        pair(fa, fb);
        cl((int64_t)rnd() >> below(63), (int64_t)rnd() >> below(63), (int64_t)rnd() >> below(63));
        cd(a, b, (double)fa);
    }
    sample("clamp(-5, 0, 10) -> 0");
    finish();
}
#endif
