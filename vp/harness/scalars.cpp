// Contracts of Range, clamp and the floating point orders (C22, C23).
#include <pystd2026.hpp>
#include "vp.hpp"
namespace P = pystd2026;

// ---- Range. Representation: the next value i, end and step; the values still to come are the
// progression from i by step, strictly before end in the direction of step.
static bool due(int64_t i, int64_t end, int64_t step) { return step > 0 ? i < end : i > end; }

void spec_range_constructor() {
    int64_t a = vp_i64(), b = vp_i64(), s = vp_i64();
    vp_may_throw(s == 0);
    P::Range r(a, b, s);
    vp_assert(s != 0, "a zero step is reported");
    vp_assert(r.i == a && r.end == b && r.step == s, "starts at start");
}
void spec_range_two() {
    int64_t a = vp_i64(), b = vp_i64();
    P::Range r(a, b);
    vp_assert(r.i == a && r.end == b && r.step == 1, "range(a,b) has step one");
    P::Range q(b);
    vp_assert(q.i == 0 && q.end == b && q.step == 1, "range(b) starts at zero");
    P::Range z;
    auto n = z.next();
    vp_assert(!n, "the default range is empty");
}
void spec_range_next() {
    // any reachable state: the step is not zero
    P::Range r(0);
    r.i = vp_i64();
    r.end = vp_i64();
    r.step = vp_i64();
    vp_assume(r.step != 0);
    const int64_t i = r.i, e = r.end, s = r.step;
    auto v = r.next();
    vp_assert((bool)v == due(i, e, s), "a value is produced exactly while one is due");
    vp_assert(r.end == e && r.step == s, "end and step do not change");
    if(v) {
        vp_assert(*v == i, "the value due is produced");
        int64_t nx;
        bool over = __builtin_add_overflow(i, s, &nx);
        vp_assert(over ? !due(r.i, r.end, r.step) : r.i == nx, "the next value is one step further, past the largest integer nothing follows");
    } else {
        vp_assert(!due(r.i, r.end, r.step), "an exhausted range stays exhausted");
    }
}
void spec_range_loopsume() {
    // begin()/++/* of the loop adaptor step through next()
    int64_t a = vp_i64(), b = vp_i64(), s = vp_i64();
    vp_assume(s != 0);
    P::Loopsume<P::Range> l(P::Range(a, b, s));
    auto it = l.begin();
    vp_assert((it == l.end()) == !due(a, b, s), "loop ends at once exactly for an empty range");
    if(!(it == l.end())) {
        vp_assert(*it == a, "first value");
        ++it;
        int64_t nx;
        bool over = __builtin_add_overflow(a, s, &nx);
        bool more = !over && due(nx, b, s);
        vp_assert((it == l.end()) == !more, "loop goes on exactly while a value is due");
        if(more)
            vp_assert(*it == nx, "second value");
    }
}
void spec_range_loopview() {
    int64_t a = vp_i64(), b = vp_i64(), s = vp_i64();
    vp_assume(s != 0);
    P::Range r(a, b, s);
    P::LoopView<P::Range> l(r);
    auto it = l.begin();
    vp_assert((it == l.end()) == !due(a, b, s), "loop ends at once exactly for an empty range");
    if(!(it == l.end())) {
        vp_assert(*it == a, "first value");
        ++it;
        int64_t nx;
        bool over = __builtin_add_overflow(a, s, &nx);
        bool more = !over && due(nx, b, s);
        vp_assert((it == l.end()) == !more, "loop goes on exactly while a value is due");
        if(more)
            vp_assert(*it == nx, "second value");
    }
}

// ---- clamp
void spec_clamp_int() {
    int64_t v = vp_i64(), lo = vp_i64(), hi = vp_i64();
    vp_aborts_if(lo > hi);
    int64_t r = P::clamp(v, lo, hi);
    vp_assert(lo <= hi, "a bad range is reported");
    vp_assert(lo <= r && r <= hi, "result within the bounds");
    vp_assert(!(lo <= v && v <= hi) || r == v, "a value within the bounds is returned as it is");
    vp_assert(v >= lo || r == lo, "a smaller value gives the lower bound");
    vp_assert(v <= hi || r == hi, "a larger value gives the upper bound");
}
void spec_clamp_double() {
    double v = vp_f64(), lo = vp_f64(), hi = vp_f64();
    bool nan = v != v || lo != lo || hi != hi;
    vp_aborts_if(!nan && lo > hi);
    double r = P::clamp(v, lo, hi);
    if(nan) {
        vp_assert(r != r, "NaN for NaN");
        return;
    }
    vp_assert(lo <= hi, "a bad range is reported");
    vp_assert(lo <= r && r <= hi, "result within the bounds");
    vp_assert(!(lo <= v && v <= hi) || r == v, "a value within the bounds is returned as it is");
    vp_assert(v >= lo || r == lo, "a smaller value gives the lower bound");
    vp_assert(v <= hi || r == hi, "a larger value gives the upper bound");
}

// ---- total order: numbers by value, every NaN equal to every other and above all numbers
template<typename F> static int ref(F a, F b) {
    bool na = a != a, nb = b != b;
    if(na || nb)
        return na && nb ? 0 : na ? 1 : -1;
    return a < b ? -1 : a > b ? 1 : 0;
}
static int sgn(int x) { return x < 0 ? -1 : x > 0; }
void spec_total_order_float() {
    float a = vp_f32(), b = vp_f32();
    P::FloatTotalOrderComparator<float> c;
    vp_assert(sgn(P::total_order_compare(a, b)) == ref(a, b), "order by value, NaNs last and equal");
    vp_assert(P::total_order_equal(a, b) == (ref(a, b) == 0), "equality agrees with the order");
    vp_assert(sgn(c.compare(a, b)) == ref(a, b) && c.equal(a, b) == (ref(a, b) == 0), "comparator agrees");
}
void spec_total_order_double() {
    double a = vp_f64(), b = vp_f64();
    P::FloatTotalOrderComparator<double> c;
    vp_assert(sgn(P::total_order_compare(a, b)) == ref(a, b), "order by value, NaNs last and equal");
    vp_assert(P::total_order_equal(a, b) == (ref(a, b) == 0), "equality agrees with the order");
    vp_assert(sgn(c.compare(a, b)) == ref(a, b) && c.equal(a, b) == (ref(a, b) == 0), "comparator agrees");
}
void spec_total_order_laws() {
    // the reference order is a total preorder, hence so is the implementation
    double a = vp_f64(), b = vp_f64(), c = vp_f64();
    vp_assert(ref(a, a) == 0 && ref(a, b) == -ref(b, a), "antisymmetric");
    if(ref(a, b) <= 0 && ref(b, c) <= 0)
        vp_assert(ref(a, c) <= 0, "transitive");
}
void spec_ignore_nan() {
    float a = vp_f32(), b = vp_f32();
    vp_assume(a == a && b == b);
    P::FloatIgnoreNanComparator<float> c;
    vp_assert(sgn(c.compare(a, b)) == ref(a, b) && c.equal(a, b) == (ref(a, b) == 0), "order by value");
    double x = vp_f64(), y = vp_f64();
    vp_assume(x == x && y == y);
    P::FloatIgnoreNanComparator<double> d;
    vp_assert(sgn(d.compare(x, y)) == ref(x, y) && d.equal(x, y) == (ref(x, y) == 0), "order by value");
}
