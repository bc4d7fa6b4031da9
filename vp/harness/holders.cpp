// Contracts of Optional, Expected, unique_ptr, unique_arr and Span (C18, C20, C21).
#include <pystd2026.hpp>
#include "vp.hpp"
namespace P = pystd2026;
using O = P::Optional<Elem>;

// ---- Optional: an arbitrary state
static O any_opt(const Elem &e, bool has) {
    if(has)
        return O(e);
    return O();
}
// same as the model (has, value)?
static void is(O &o, bool has, uint64_t v, const char *) {
    vp_assert((bool)o == has, "optional: presence is reported correctly");
    if(has) {
        vp_assert(vp_val(*o) == v, "optional: operator* gives the stored value");
        vp_assert(vp_val(o.value()) == v && vp_val(*o.operator->()) == v, "optional: value() and -> give the stored value");
        const O &c = o;
        vp_assert(vp_val(*c) == v && vp_val(c.value()) == v && vp_val(*c.operator->()) == v, "optional: const access gives the stored value");
    }
}
void spec_optional_construct() {
    Elem e = vp_elem();
    uint64_t v = vp_val(e);
    O none;
    is(none, false, 0, "");
    O c(static_cast<const Elem &>(e));
    is(c, true, v, "");
    vp_assert(vp_val(e) == v, "optional: copying keeps the source");
    O m(static_cast<Elem &&>(e));
    is(m, true, v, "");
}
void spec_optional_copy() {
    Elem e = vp_elem();
    uint64_t v = vp_val(e);
    bool h = vp_bool();
    O a(any_opt(e, h));
    O b(static_cast<const O &>(a));
    is(a, h, v, "");
    is(b, h, v, "");
}
void spec_optional_move() {
    Elem e = vp_elem();
    uint64_t v = vp_val(e);
    bool h = vp_bool();
    O a(any_opt(e, h));
    O b(static_cast<O &&>(a));
    is(a, false, 0, "");
    is(b, h, v, "");
}
void spec_optional_assign_copy() {
    Elem e = vp_elem(), f = vp_elem();
    uint64_t v = vp_val(e), w = vp_val(f);
    bool h = vp_bool(), k = vp_bool();
    O a(any_opt(e, h));
    O b(any_opt(f, k));
    a = static_cast<const O &>(b);
    is(a, k, w, "");
    is(b, k, w, "");
    a = static_cast<const O &>(a);
    is(a, k, w, "");
}
void spec_optional_assign_move() {
    Elem e = vp_elem(), f = vp_elem();
    uint64_t v = vp_val(e), w = vp_val(f);
    bool h = vp_bool(), k = vp_bool();
    O a(any_opt(e, h));
    O b(any_opt(f, k));
    a = static_cast<O &&>(b);
    is(a, k, w, "");
    is(b, false, 0, "");
    a = static_cast<O &&>(a);
    is(a, k, w, "");
}
void spec_optional_assign_value() {
    Elem e = vp_elem(), f = vp_elem(), g = vp_elem();
    uint64_t w = vp_val(f), x = vp_val(g);
    bool h = vp_bool();
    O a(any_opt(e, h));
    O b(any_opt(e, h));
    a = static_cast<const Elem &>(f);
    is(a, true, w, "");
    vp_assert(vp_val(f) == w, "optional: copy assignment keeps the source");
    b = static_cast<Elem &&>(g);
    is(b, true, x, "");
    a = *a; // the stored value itself
    is(a, true, w, "");
    a = static_cast<Elem &&>(*a);
    is(a, true, w, "");
}
void spec_optional_reset() {
    Elem e = vp_elem();
    bool h = vp_bool();
    O a(any_opt(e, h));
    a.reset();
    is(a, false, 0, "");
    a.reset();
    is(a, false, 0, "");
    a = e;
    is(a, true, vp_val(e), "");
}
void spec_optional_absent() {
    O a;
    const O &c = a;
    vp_may_throw(true);
    uint64_t k = vp_split(vp_u64() % 6, 6);
    switch(k) {
    case 0: *a; break;
    case 1: a.value(); break;
    case 2: a.operator->(); break;
    case 3: *c; break;
    case 4: c.value(); break;
    case 5: c.operator->(); break;
    }
    vp_assert(false, "reading an absent value is reported");
}
void spec_optional_pointer() {
    using OP = P::Optional<Elem *>;
    Elem e = vp_elem();
    bool h = vp_bool();
    Elem *p = h ? &e : nullptr;
    OP a(p), z, c(static_cast<const OP &>(a)), m;
    vp_assert(!(bool)z, "pointer optional: default is empty");
    vp_assert((bool)a == h && (bool)c == h, "pointer optional: presence");
    m = a;
    vp_assert((bool)m == h, "pointer optional: assignment");
    z = static_cast<OP &&>(m);
    vp_assert((bool)z == h, "pointer optional: move assignment");
    vp_may_throw(!h);
    vp_assert(z.value() == p && z.operator->() == p && &*z == p && c.value() == p && &*a == p, "pointer optional: the stored pointer");
    vp_assert(h, "reading an absent value is reported");
    z.reset();
    vp_assert(!(bool)z, "pointer optional: reset empties");
}
void spec_optional_pointer_absent() {
    using OP = P::Optional<Elem *>;
    OP a;
    const OP &c = a;
    vp_may_throw(true);
    switch(vp_split(vp_u64() % 6, 6)) {
    case 0: *a; break;
    case 1: a.value(); break;
    case 2: a.operator->(); break;
    case 3: *c; break;
    case 4: c.value(); break;
    case 5: c.operator->(); break;
    }
    vp_assert(false, "reading an absent value is reported");
}
void spec_optional_int() {
    // trivially copyable contents take the same code
    using OI = P::Optional<uint64_t>;
    uint64_t x = vp_u64(), y = vp_u64();
    OI a(x), b;
    b = y;
    vp_assert(*a == x && *b == y, "value stored");
    a = b;
    vp_assert(*a == y && *b == y, "value copied");
    b = static_cast<OI &&>(a);
    vp_assert(!a && *b == y, "value moved");
}

// ---- Expected
using X = P::Expected<Elem, Other>;
// state: 0 empty 1 value 2 error
static X any_exp(const Elem &e, const Other &o, uint64_t k) {
    if(k == 1)
        return X(e);
    if(k == 2)
        return X(o);
    return X();
}
static void xis(X &x, uint64_t k, uint64_t v, uint64_t w) {
    vp_assert(x.has_value() == (k == 1) && (bool)x == (k == 1), "expected: has_value tells whether there is a value");
    vp_assert(x.has_error() == (k == 2), "expected: has_error tells whether there is an error");
    if(k == 1)
        vp_assert(vp_val(x.value()) == v, "expected: value gives the stored value");
    if(k == 2)
        vp_assert(vp_val(x.error()) == w, "expected: error gives the stored error");
}
void spec_expected_construct() {
    Elem e = vp_elem();
    Other o = vp_other();
    uint64_t v = vp_val(e), w = vp_val(o);
    X z;
    xis(z, 0, 0, 0);
    X a(static_cast<const Elem &>(e));
    xis(a, 1, v, 0);
    X b(static_cast<const Other &>(o));
    xis(b, 2, 0, w);
    vp_assert(vp_val(e) == v && vp_val(o) == w, "expected: copying keeps the source");
    X c(static_cast<Elem &&>(e));
    xis(c, 1, v, 0);
    X d(static_cast<Other &&>(o));
    xis(d, 2, 0, w);
    Other q = vp_other();
    uint64_t u = vp_val(q);
    X f{P::Unexpected<Other>(static_cast<const Other &>(q))};
    xis(f, 2, 0, u);
    P::Unexpected<Other> un(static_cast<Other &&>(q));
    vp_assert(vp_val(un.error()) == u, "unexpected: stores the error");
    const P::Unexpected<Other> &cu = un;
    vp_assert(vp_val(cu.error()) == u, "unexpected: const access");
    Other r(static_cast<P::Unexpected<Other> &&>(un).error());
    vp_assert(vp_val(r) == u, "unexpected: the error can be moved out");
    P::Unexpected<Other> dflt, asg;
    asg = P::Unexpected<Other>(static_cast<const Other &>(r));
    vp_assert(vp_val(asg.error()) == u, "unexpected: assignment");
}
void spec_expected_move() {
    Elem e = vp_elem();
    Other o = vp_other();
    uint64_t k = vp_split(vp_u64() % 3, 3), v = vp_val(e), w = vp_val(o);
    X a(any_exp(e, o, k));
    xis(a, k, v, w);
    X b(static_cast<X &&>(a));
    xis(b, k, v, w);
}
void spec_expected_assign() {
    Elem e = vp_elem(), e2 = vp_elem();
    Other o = vp_other(), o2 = vp_other();
    uint64_t k = vp_split(vp_u64() % 3, 3), j = vp_split(vp_u64() % 3, 3), v = vp_val(e2), w = vp_val(o2);
    X a(any_exp(e, o, k));
    X b(any_exp(e2, o2, j));
    a = static_cast<X &&>(b);
    xis(a, j, v, w);
    a = static_cast<X &&>(a);
    xis(a, j, v, w);
}
void spec_expected_wrong_access() {
    Elem e = vp_elem();
    Other o = vp_other();
    uint64_t k = vp_split(vp_u64() % 3, 3);
    X a(any_exp(e, o, k));
    if(vp_bool()) {
        vp_aborts_if(k != 1);
        a.value();
        vp_assert(k == 1, "reading an absent value is reported");
    } else {
        vp_aborts_if(k != 2);
        a.error();
        vp_assert(k == 2, "reading an absent error is reported");
    }
}

// ---- unique_ptr, with a counting deleter over an arbitrary pointer
static uint64_t deleted_a, deleted_b, deleted_c, deleted_other;
static Other *A, *B, *C;
static void counters() {
    static char mem[3];
    A = (Other *)&mem[0];
    B = (Other *)&mem[1];
    C = (Other *)&mem[2];
    deleted_a = deleted_b = deleted_c = deleted_other = 0;
}
struct Del {
    static void del(Other *p) {
        if(p == A)
            ++deleted_a;
        else if(p == B)
            ++deleted_b;
        else if(p == C)
            ++deleted_c;
        else if(p)
            ++deleted_other;
    }
};
using UP = P::unique_ptr<Other, Del>;
static void released(uint64_t a, uint64_t b, uint64_t c) {
    vp_assert(deleted_a == a && deleted_b == b && deleted_c == c && deleted_other == 0, "owned objects are released exactly once and only when given up");
}
void spec_unique_ptr_ops() {
    counters();
    bool na = vp_bool(), nb = vp_bool(), nc = vp_bool();
    Other *a = na ? nullptr : A, *b = nb ? nullptr : B, *c = nc ? nullptr : C;
    {
        UP x(a), y(b), z;
        vp_assert(x.get() == a && y.get() == b && z.get() == nullptr, "unique_ptr: holds the given pointer");
        vp_assert((bool)x == !na && (bool)y == !nb && !z, "unique_ptr: presence");
        vp_assert(x.operator->() == a && static_cast<const UP &>(x).get() == a && static_cast<const UP &>(x).operator->() == a, "unique_ptr: access");
        if(!na)
            vp_assert(&*x == a, "unique_ptr: dereference");
        UP m(static_cast<UP &&>(x));
        vp_assert(m.get() == a && x.get() == nullptr, "unique_ptr: move construction transfers");
        released(0, 0, 0);
        m = static_cast<UP &&>(m);
        vp_assert(m.get() == a, "unique_ptr: self move keeps the object");
        released(0, 0, 0);
        UP &r = (y = static_cast<UP &&>(m));
        vp_assert(&r == &y && y.get() == a && m.get() == nullptr, "unique_ptr: move assignment transfers");
        released(0, !nb, 0);
        y.reset(c);
        vp_assert(y.get() == c, "unique_ptr: reset takes the new object");
        released(!na, !nb, 0);
        if(vp_bool()) {
            vp_assert(y.release() == c && y.get() == nullptr, "unique_ptr: release gives the object up");
            released(!na, !nb, 0);
            y.reset(c);
            released(!na, !nb, 0);
        }
        released(!na, !nb, 0);
    }
    released(!na, !nb, !nc);
}
void spec_unique_ptr_default() {
    // the default deleter: the allocation is released exactly once
    P::unique_ptr<Elem> p(new Elem(vp_elem()));
    P::unique_ptr<Elem> q;
    vp_assert(!vp_moved(*p), "object is there");
    q = static_cast<P::unique_ptr<Elem> &&>(p);
    if(vp_bool())
        q.reset(new Elem());
    if(vp_bool())
        q.reset(nullptr);
}

// ---- unique_arr
struct ADel {
    static void del(Other *p) { Del::del(p); }
};
using UA = P::unique_arr<Other, ADel>;
void spec_unique_arr_ops() {
    counters();
    bool na = vp_bool(), nb = vp_bool();
    Other *a = na ? nullptr : A, *b = nb ? nullptr : B;
    uint64_t s = vp_u64() / 32, t = vp_u64() / 32;
    {
        UA x(a, s), y(b, t), z;
        vp_assert(x.get() == a && x.size() == s && z.get() == nullptr && z.size() == 0, "unique_arr: holds the given array");
        vp_assert(x.size_bytes() == s * sizeof(Other) && static_cast<const UA &>(x).get() == a, "unique_arr: size in bytes");
        UA m(static_cast<UA &&>(x));
        vp_assert(m.get() == a && m.size() == s && x.get() == nullptr && x.size() == 0, "unique_arr: move construction transfers");
        released(0, 0, 0);
        m = static_cast<UA &&>(m);
        vp_assert(m.get() == a && m.size() == s, "unique_arr: self move keeps the array");
        released(0, 0, 0);
        UA &r = (y = static_cast<UA &&>(m));
        vp_assert(&r == &y && y.get() == a && y.size() == s && m.get() == nullptr && m.size() == 0, "unique_arr: move assignment transfers");
        released(0, !nb, 0);
    }
    released(!na, !nb, 0);
}
void spec_unique_arr_default() {
    using U = P::unique_arr<Elem>;
    uint64_t n = vp_split(vp_u64() % 3, 3);
    U a(n);
    vp_assert(a.size() == n, "unique_arr: records the size");
    U b;
    b = static_cast<U &&>(a);
    vp_assert(b.size() == n && a.size() == 0, "unique_arr: moves");
}
void spec_unique_arr_access() {
    using U = P::unique_arr<uint64_t>;
    uint64_t n = vp_u64();
    vp_assume(n < (1ull << 40));
    U a(n);
    const U &c = a;
    uint64_t i = vp_u64();
    vp_may_throw(i >= n);
    if(vp_bool()) {
        uint64_t &x = a[i];
        vp_assert(i < n && &x == a.get() + i, "unique_arr: element i");
        vp_assert(&a.unsafe_at(i) == &x && &c.unsafe_at(i) == &x, "unique_arr: unsafe_at");
        x = 5;
        vp_assert(c[i] == 5, "unique_arr: element i holds what was stored");
    } else {
        const uint64_t &y = c[i];
        vp_assert(i < n && &y == c.get() + i, "unique_arr: element i");
    }
}

// ---- Span over an array of any size
using S = P::Span<uint64_t>;
void spec_span_access() {
    uint64_t n = vp_u64(), i = vp_u64();
    vp_assume(n < (1ull << 40));
    uint64_t *d = vp_u64s(n);
    S s(d, n);
    const S &c = s;
    vp_assert(s.size() == n && s.size_bytes() == n * 8 && s.data() == d && s.is_empty() == (n == 0), "span: refers to the array given");
    vp_assert(s.begin() == d && s.end() == d + n && s.cbegin() == d && s.cend() == d + n, "span: iterates over the array given");
    vp_may_throw(i >= n);
    switch(vp_split(vp_u64() % 3, 3)) {
    case 0: {
        uint64_t &x = s[i];
        vp_assert(i < n && &x == d + i, "span: element i");
        break;
    }
    case 1: {
        const uint64_t &x = c[i];
        vp_assert(i < n && &x == d + i, "span: element i");
        break;
    }
    case 2: {
        const uint64_t &x = c.at(i);
        vp_assert(i < n && &x == d + i, "span: element i");
        break;
    }
    }
}
void spec_span_subspan() {
    uint64_t n = vp_u64(), o = vp_u64(), k = vp_u64();
    vp_assume(n < (1ull << 40));
    uint64_t *d = vp_u64s(n);
    S s(d, n);
    // (size_t)-1 stands for "the rest"
    const bool rest = k == ~0ull;
    vp_may_throw(o > n || (!rest && k > n - o));
    S t = s.subspan(o, k);
    vp_assert(o <= n && (rest || k <= n - o), "span: arguments out of range are reported");
    vp_assert(t.data() == d + o && t.size() == (rest ? n - o : k), "span: subspan refers to exactly the elements asked for");
    vp_assert(s.data() == d && s.size() == n, "span: the original is unchanged");
}
void spec_span_subspan_tail() {
    uint64_t n = vp_u64(), o = vp_u64();
    vp_assume(n < (1ull << 40));
    uint64_t *d = vp_u64s(n);
    S s(d, n);
    vp_may_throw(o > n);
    S t = s.subspan(o);
    vp_assert(o <= n, "span: arguments out of range are reported");
    vp_assert(t.data() == d + o && t.size() == n - o, "span: subspan without size is the tail");
}
void spec_span_copy() {
    uint64_t n = vp_u64();
    vp_assume(n < (1ull << 40));
    uint64_t *d = vp_u64s(n);
    S s(d, n), t(s), u, v;
    vp_assert(u.size() == 0 && u.data() == nullptr, "span: default is empty");
    u = s;
    v = static_cast<S &&>(t);
    vp_assert(u.data() == d && u.size() == n && v.data() == d && v.size() == n && s.data() == d && s.size() == n, "span: copies refer to the same elements");
}
