// Contracts of Variant (C19): all thirty possible alternatives, every state.
#include <pystd2026_variant.hpp>
#include "vp.hpp"
namespace P = pystd2026;
// alternative I: an opaque tracked object plus a tag that tells which type it was made as
template<int I> struct W {
    Elem e;
    uint64_t tag;
    W() noexcept : tag(I) {}
    explicit W(const Elem &x) noexcept : e(x), tag(I) {}
    W(const W &o) noexcept : e(o.e), tag(I) { vp_assert(o.tag == I, "variant: copied as the alternative it is"); }
    W(W &&o) noexcept : e(static_cast<Elem &&>(o.e)), tag(I) { vp_assert(o.tag == I, "variant: moved as the alternative it is"); }
    W &operator=(const W &o) noexcept {
        vp_assert(tag == I && o.tag == I, "variant: assigned as the alternative it is");
        e = o.e;
        return *this;
    }
    W &operator=(W &&o) noexcept {
        vp_assert(tag == I && o.tag == I, "variant: assigned as the alternative it is");
        e = static_cast<Elem &&>(o.e);
        return *this;
    }
    ~W() {
        vp_assert(tag == I, "variant: destroyed as the alternative it is");
        tag = 1000;
    }
};
using V = P::Variant<W<0>, W<1>, W<2>, W<3>, W<4>, W<5>, W<6>, W<7>, W<8>, W<9>, W<10>, W<11>, W<12>, W<13>, W<14>, W<15>, W<16>, W<17>, W<18>, W<19>, W<20>, W<21>, W<22>, W<23>, W<24>, W<25>, W<26>, W<27>, W<28>, W<29>>;
using V3 = P::Variant<Elem, Other, uint64_t>;

template<int I> static V made(uint64_t k, const Elem &e) {
    if constexpr(I < 30) {
        if(k == I)
            return V(W<I>(e));
        return made<I + 1>(k, e);
    } else
        __builtin_trap();
}
// exactly alternative k with value v
template<int I> static void is(V &x, uint64_t k, uint64_t v) {
    if constexpr(I < 30) {
        if(I == 0)
            vp_assert(x.index() == (int)k, "variant: index tells the alternative");
        const V &c = x;
        if(k == I) {
            vp_assert(x.contains<W<I>>(), "variant: contains its alternative");
            W<I> *p = x.get_if<W<I>>();
            vp_assert(p && p->tag == I && vp_val(p->e) == v, "variant: get_if gives the stored value");
            vp_assert(&x.get<W<I>>() == p && &c.get<W<I>>() == p && c.get_if<W<I>>() == p, "variant: get gives the stored value");
        } else {
            vp_assert(!x.contains<W<I>>() && !x.get_if<W<I>>() && !c.get_if<W<I>>(), "variant: holds no other alternative");
        }
        is<I + 1>(x, k, v);
    }
}
static uint64_t kind() { return vp_split(vp_u64() % 30, 30); }

void spec_variant_default() {
    V3 a;
    vp_assert(a.index() == 0 && a.contains<Elem>() && vp_val(a.get<Elem>()) == vp_default_elem(), "variant: default is the first alternative");
    V b;
    is<0>(b, 0, vp_default_elem());
}
void spec_variant_construct_move() {
    uint64_t k = kind();
    Elem e = vp_elem();
    V a(made<0>(k, e));
    is<0>(a, k, vp_val(e));
}
template<int I> static void from_lvalue(uint64_t k, const Elem &e) {
    if constexpr(I < 30) {
        if(k == I) {
            W<I> w(e);
            V a(w);
            is<0>(a, I, vp_val(e));
            vp_assert(vp_val(w.e) == vp_val(e), "variant: copying keeps the source");
            const W<I> c(e);
            V b(c);
            is<0>(b, I, vp_val(e));
        } else
            from_lvalue<I + 1>(k, e);
    }
}
void spec_variant_construct_copy() {
    uint64_t k = kind();
    from_lvalue<0>(k, vp_elem());
}
void spec_variant_copy() {
    uint64_t k = kind();
    Elem e = vp_elem();
    V a(made<0>(k, e));
    V b(static_cast<const V &>(a));
    is<0>(b, k, vp_val(e));
    is<0>(a, k, vp_val(e));
    V c(a);
    is<0>(c, k, vp_val(e));
    is<0>(a, k, vp_val(e));
}
void spec_variant_move() {
    uint64_t k = kind();
    Elem e = vp_elem();
    V a(made<0>(k, e));
    V b(static_cast<V &&>(a));
    is<0>(b, k, vp_val(e));
    vp_assert(a.index() >= 0 && a.index() < 30, "variant: the source still holds exactly one alternative");
}
template<int I> static void put(V &v, uint64_t k, const Elem &e) {
    if constexpr(I < 30) {
        if(k == I)
            v.insert(W<I>(e));
        else
            put<I + 1>(v, k, e);
    }
}
void spec_variant_insert() {
    uint64_t k = kind();
    Elem e = vp_elem();
    V a(made<0>((k * 7 + 3) % 30, e));
    Elem f = vp_elem();
    put<0>(a, k, f);
    is<0>(a, k, vp_val(f));
}
void spec_variant_assign_copy() {
    uint64_t k = kind();
    Elem e = vp_elem(), f = vp_elem();
    V a(made<0>((k + 11) % 30, e));
    V b(made<0>(k, f));
    a = static_cast<const V &>(b);
    is<0>(a, k, vp_val(f));
    is<0>(b, k, vp_val(f));
    a = static_cast<const V &>(a);
    is<0>(a, k, vp_val(f));
    V c(made<0>(k, e));
    c = static_cast<const V &>(b);
    is<0>(c, k, vp_val(f));
}
void spec_variant_assign_move() {
    uint64_t k = kind();
    Elem e = vp_elem(), f = vp_elem();
    V a(made<0>((k + 17) % 30, e));
    V b(made<0>(k, f));
    V &r = (a = static_cast<V &&>(b));
    vp_assert(&r == &a, "variant: assignment returns its target");
    is<0>(a, k, vp_val(f));
    a = static_cast<V &&>(a);
    is<0>(a, k, vp_val(f));
    V c(made<0>(k, e));
    c = static_cast<V &&>(a);
    is<0>(c, k, vp_val(f));
}
template<int I> static void get_as(V &a, uint64_t k, bool mut) {
    if constexpr(I < 30) {
        if(k != I)
            return get_as<I + 1>(a, k, mut);
        const V &c = a;
        if(mut)
            a.get<W<I>>();
        else
            c.get<W<I>>();
    }
}
void spec_variant_wrong_get() {
    uint64_t k = kind(), asked = kind();
    V a(made<0>(k, vp_elem()));
    vp_may_throw(k != asked);
    get_as<0>(a, asked, true);
    vp_assert(k == asked, "variant: access through another alternative is an error");
}
void spec_variant_wrong_get_const() {
    uint64_t k = kind(), asked = kind();
    V a(made<0>(k, vp_elem()));
    vp_may_throw(k != asked);
    get_as<0>(a, asked, false);
    vp_assert(k == asked, "variant: access through another alternative is an error");
}
void spec_variant_mixed_sizes() {
    // alternatives of different size and alignment
    Elem e = vp_elem();
    Other o = vp_other();
    uint64_t x = vp_u64();
    V3 a(e), b(o), c(x);
    vp_assert(a.index() == 0 && b.index() == 1 && c.index() == 2, "variant: index tells the alternative");
    vp_assert(vp_val(a.get<Elem>()) == vp_val(e) && vp_val(b.get<Other>()) == vp_val(o) && c.get<uint64_t>() == x, "variant: value stored");
    a = static_cast<const V3 &>(b);
    vp_assert(vp_val(a.get<Other>()) == vp_val(o), "variant: value stored");
    b = static_cast<const V3 &>(c);
    vp_assert(b.get<uint64_t>() == x, "variant: value stored");
    c.insert(static_cast<Elem &&>(e));
    vp_assert(c.contains<Elem>() && !c.contains<Other>() && !c.contains<uint64_t>(), "variant: contains exactly its alternative");
    c = uint64_t(x + 1);
    vp_assert(c.get<uint64_t>() == x + 1, "variant: value stored");
    V3 d(static_cast<V3 &&>(a));
    vp_assert(vp_val(d.get<Other>()) == vp_val(o), "variant: value stored");
}
// every alternative replaced by every other one
template<int I> static void insert_each(uint64_t j, const Elem &e, const Elem &f) {
    if constexpr(I < 30) {
        V a(made<0>(j, e));
        a.insert(W<I>(f));
        W<I> *p = a.get_if<W<I>>();
        vp_assert(a.index() == I && p && p->tag == I && vp_val(p->e) == vp_val(f), "variant: insert makes it the inserted alternative");
        insert_each<I + 1>(j, e, f);
    }
}
void spec_variant_insert_kinds() {
    uint64_t j = kind();
    Elem e = vp_elem(), f = vp_elem();
    insert_each<0>(j, e, f);
}
template<int I> static void assign_each(uint64_t j, const Elem &e, const Elem &f, bool move) {
    if constexpr(I < 30) {
        V a(made<0>(j, e));
        W<I> w(f);
        V b(w);
        if(move)
            vp_assert(&(a = static_cast<V &&>(b)) == &a, "variant: assignment returns its target");
        else
            vp_assert(&(a = static_cast<const V &>(b)) == &a, "variant: assignment returns its target");
        W<I> *p = a.get_if<W<I>>();
        vp_assert(a.index() == I && p && p->tag == I && vp_val(p->e) == vp_val(f), "variant: assignment makes it the source's alternative");
        if(!move) {
            p = b.get_if<W<I>>();
            vp_assert(b.index() == I && p && vp_val(p->e) == vp_val(f), "variant: copying keeps the source");
        }
        assign_each<I + 1>(j, e, f, move);
    }
}
void spec_variant_copy_all_kinds() {
    uint64_t j = kind();
    Elem e = vp_elem(), f = vp_elem();
    assign_each<0>(j, e, f, false);
}
void spec_variant_move_all_kinds() {
    uint64_t j = kind();
    Elem e = vp_elem(), f = vp_elem();
    assign_each<0>(j, e, f, true);
}
template<int I> static void value_each(uint64_t j, const Elem &e, const Elem &f) {
    if constexpr(I < 30) {
        V a(made<0>(j, e));
        a = W<I>(f);
        W<I> *p = a.get_if<W<I>>();
        vp_assert(a.index() == I && p && p->tag == I && vp_val(p->e) == vp_val(f), "variant: assigning a value makes it that alternative");
        value_each<I + 1>(j, e, f);
    }
}
void spec_variant_value_all_kinds() {
    uint64_t j = kind();
    Elem e = vp_elem(), f = vp_elem();
    value_each<0>(j, e, f);
}
