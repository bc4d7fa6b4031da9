// Contracts of Vector (C07): every operation from an arbitrary reachable state, for an opaque element type.
#include <pystd2026.hpp>
#include "vp.hpp"
namespace P = pystd2026;
using Vec = P::Vector<Elem>;
extern "C" void vp_vec(void *, void *, void *);
extern "C" void vp_vec_wf(void *, void *, void *);
// an arbitrary reachable state (class invariant), remembering the value at an arbitrary position
struct State {
    uint64_t n, cap, j, v;
    explicit State(Vec &x) {
        vp_vec(&x.buffer, &x.buf_capacity, &x.num_entries);
        n = x.size();
        cap = x.capacity();
        j = vp_u64();
        v = j < n ? vp_val(x.unsafe_at(j)) : 0;
    }
};
static void wf(Vec &x) { vp_vec_wf(&x.buffer, &x.buf_capacity, &x.num_entries); }
// the arbitrary old position still holds its value
static void kept(Vec &x, const State &s, uint64_t upto) {
    wf(x);
    if(s.j < s.n && s.j < upto)
        vp_assert(s.j < x.size() && vp_val(x.unsafe_at(s.j)) == s.v, "vector: the other entries keep their values");
}

void spec_vector_default() {
    Vec x;
    wf(x);
    vp_assert(x.size() == 0 && x.is_empty(), "vector: default is empty");
}
void spec_vector_destroy() {
    Vec x;
    State s(x);
}
void spec_vector_access() {
    Vec x;
    State s(x);
    const Vec &c = x;
    vp_assert(x.is_empty() == (s.n == 0), "vector: is_empty");
    vp_assert(x.end() == x.begin() + s.n && x.cend() == x.cbegin() + s.n && x.begin() == x.data() && x.cbegin() == x.data(), "vector: iterators span the entries");
    vp_assert(x.span().data() == x.data() && x.span().size() == s.n && c.span().size() == s.n && c.span().begin() == x.data(), "vector: span");
    uint64_t i = vp_u64();
    vp_may_throw(i >= s.n);
    switch(vp_split(vp_u64() % 4, 4)) {
    case 0: {
        Elem &e = x[i];
        vp_assert(i < s.n && &e == x.data() + i, "vector: entry i");
        break;
    }
    case 1: {
        const Elem &e = c[i];
        vp_assert(i < s.n && &e == x.data() + i, "vector: entry i");
        break;
    }
    case 2: {
        Elem &e = x.at(i);
        vp_assert(i < s.n && &e == x.data() + i, "vector: entry i");
        break;
    }
    case 3: {
        const Elem &e = c.at(i);
        vp_assert(i < s.n && &e == x.data() + i, "vector: entry i");
        break;
    }
    }
    vp_assert(&x.unsafe_at(i) == x.data() + i && &c.unsafe_at(i) == x.data() + i, "vector: unsafe_at");
}
void spec_vector_ends() {
    Vec x;
    State s(x);
    const Vec &c = x;
    vp_may_throw(s.n == 0);
    switch(vp_split(vp_u64() % 4, 4)) {
    case 0: vp_assert(&x.front() == x.data() && s.n > 0, "vector: front"); break;
    case 1: vp_assert(&c.front() == x.data() && s.n > 0, "vector: front"); break;
    case 2: vp_assert(&x.back() == x.data() + s.n - 1 && s.n > 0, "vector: back"); break;
    case 3: vp_assert(&c.back() == x.data() + s.n - 1 && s.n > 0, "vector: back"); break;
    }
}
void spec_vector_push_back_copy() {
    Vec x;
    State s(x);
    Elem e = vp_elem();
    uint64_t v = vp_val(e);
    x.push_back(static_cast<const Elem &>(e));
    kept(x, s, s.n);
    vp_assert(x.size() == s.n + 1 && vp_val(x.unsafe_at(s.n)) == v && vp_val(e) == v, "vector: push_back appends a copy");
}
void spec_vector_push_back_move() {
    Vec x;
    State s(x);
    Elem e = vp_elem();
    uint64_t v = vp_val(e);
    x.push_back(static_cast<Elem &&>(e));
    kept(x, s, s.n);
    vp_assert(x.size() == s.n + 1 && vp_val(x.unsafe_at(s.n)) == v, "vector: push_back appends the value");
}
void spec_vector_push_back_own() {
    // the argument is an entry of the vector itself
    Vec x;
    State s(x);
    vp_assume(s.j < s.n);
    x.push_back(static_cast<const Elem &>(x.unsafe_at(s.j)));
    kept(x, s, s.n);
    vp_assert(x.size() == s.n + 1 && vp_val(x.unsafe_at(s.n)) == s.v, "vector: push_back of an own entry appends its value");
}
void spec_vector_push_back_own_move() {
    Vec x;
    State s(x);
    uint64_t i = vp_u64();
    vp_assume(s.j < s.n && i < s.n && i != s.j);
    uint64_t v = vp_val(x.unsafe_at(i));
    x.push_back(static_cast<Elem &&>(x.unsafe_at(i)));
    kept(x, s, s.n);
    vp_assert(x.size() == s.n + 1 && vp_val(x.unsafe_at(s.n)) == v, "vector: push_back of an own entry appends its value");
}
void spec_vector_emplace_back() {
    Vec x;
    State s(x);
    Elem e = vp_elem();
    uint64_t v = vp_val(e);
    x.emplace_back(static_cast<const Elem &>(e));
    kept(x, s, s.n);
    vp_assert(x.size() == s.n + 1 && vp_val(x.unsafe_at(s.n)) == v && vp_val(e) == v, "vector: emplace_back appends the value");
    x.emplace_back();
    wf(x);
    vp_assert(x.size() == s.n + 2 && vp_val(x.unsafe_at(s.n + 1)) == vp_default_elem() && vp_val(x.unsafe_at(s.n)) == v, "vector: emplace_back without arguments appends a default value");
}
void spec_vector_emplace_back_own() {
    Vec x;
    State s(x);
    vp_assume(s.j < s.n);
    x.emplace_back(static_cast<const Elem &>(x.unsafe_at(s.j)));
    kept(x, s, s.n);
    vp_assert(x.size() == s.n + 1 && vp_val(x.unsafe_at(s.n)) == s.v, "vector: emplace_back of an own entry appends its value");
}
void spec_vector_pop_back() {
    Vec x;
    State s(x);
    vp_assume(s.n == 0 || s.j < s.n);
    uint64_t last = s.n ? vp_val(x.unsafe_at(s.n - 1)) : 0;
    auto r = x.pop_back();
    vp_assert((bool)r == (s.n > 0), "vector: pop_back of an empty vector gives nothing");
    if(s.n) {
        vp_assert(vp_val(*r) == last, "vector: pop_back gives the last entry");
        vp_assert(x.size() == s.n - 1, "vector: pop_back removes one entry");
        kept(x, s, s.n - 1);
    } else {
        vp_assert(x.size() == 0, "vector: stays empty");
        wf(x);
    }
}
void spec_vector_clear() {
    Vec x;
    State s(x);
    x.clear();
    wf(x);
    vp_assert(x.size() == 0, "vector: clear removes everything");
}
void spec_vector_reserve() {
    Vec x;
    State s(x);
    uint64_t c = vp_u64();
    vp_may_throw(c >= (1ull << 58));
    x.reserve(c);
    kept(x, s, s.n);
    vp_assert(x.size() == s.n, "vector: reserve keeps the size");
    vp_assert(x.capacity() >= c && x.capacity() >= s.cap, "vector: reserve provides the capacity");
}
void spec_vector_append_with_default() {
    Vec x;
    State s(x);
    uint64_t k = vp_u64();
    vp_assume(k < (1ull << 40));
    x.append_with_default(k);
    kept(x, s, s.n);
    vp_assert(x.size() == s.n + k, "vector: append_with_default adds that many entries");
    uint64_t i = vp_u64();
    if(i < k)
        vp_assert(vp_val(x.unsafe_at(s.n + i)) == vp_default_elem(), "vector: the new entries are default values");
}
void spec_vector_append() {
    Vec x;
    State s(x);
    uint64_t k = vp_u64();
    vp_assume(k < (1ull << 40));
    const Elem *a = (const Elem *)vp_elems(k);
    uint64_t i = vp_u64(), v = i < k ? vp_val(a[i]) : 0;
    x.append(a, a + k);
    kept(x, s, s.n);
    vp_assert(x.size() == s.n + k, "vector: append adds the source's elements");
    if(i < k)
        vp_assert(vp_val(x.unsafe_at(s.n + i)) == v && vp_val(a[i]) == v, "vector: append copies the source in order");
}
void spec_vector_append_own() {
    // a part of the vector itself: reported, nothing changes
    Vec x;
    State s(x);
    uint64_t i = vp_u64(), k = vp_u64();
    vp_assume(i < s.n && k <= s.n - i);
    bool thrown = false;
    try {
        if(vp_bool())
            x.append(x.cbegin() + i, x.cbegin() + i + k);
        else
            x.assign(x.cbegin() + i, x.cbegin() + i + k);
    } catch(...) {
        thrown = true;
    }
    vp_assert(thrown, "vector: appending part of itself is reported");
    kept(x, s, s.n);
    vp_assert(x.size() == s.n, "vector: a reported operation changes nothing");
}
void spec_vector_assign() {
    Vec x;
    State s(x);
    uint64_t k = vp_u64();
    vp_assume(k < (1ull << 40));
    const Elem *a = (const Elem *)vp_elems(k);
    uint64_t i = vp_u64(), v = i < k ? vp_val(a[i]) : 0;
    x.assign(a, a + k);
    wf(x);
    vp_assert(x.size() == k, "vector: assign replaces the contents");
    if(i < k)
        vp_assert(vp_val(x.unsafe_at(i)) == v, "vector: assign copies the source in order");
}
void spec_vector_from_range() {
    uint64_t k = vp_u64();
    vp_assume(k < (1ull << 40));
    const Elem *a = (const Elem *)vp_elems(k);
    uint64_t i = vp_u64(), v = i < k ? vp_val(a[i]) : 0;
    Vec x(a, a + k);
    wf(x);
    vp_assert(x.size() == k, "vector: has the source's elements");
    if(i < k)
        vp_assert(vp_val(x.unsafe_at(i)) == v, "vector: copies the source in order");
}
void spec_vector_copy() {
    Vec x;
    State s(x);
    Vec y(static_cast<const Vec &>(x));
    kept(x, s, s.n);
    wf(y);
    vp_assert(y.size() == s.n && x.size() == s.n, "vector: the copy has the same size");
    if(s.j < s.n)
        vp_assert(vp_val(y.unsafe_at(s.j)) == s.v, "vector: the copy has the same entries");
    vp_assert(s.n == 0 || y.data() != x.data(), "vector: the copy has its own storage");
}
void spec_vector_move() {
    Vec x;
    State s(x);
    Vec y(static_cast<Vec &&>(x));
    kept(y, s, s.n);
    wf(x);
    vp_assert(y.size() == s.n && x.size() == 0, "vector: move construction transfers the contents");
}
void spec_vector_move_assign() {
    Vec x, y;
    State s(x), t(y);
    Vec &r = (y = static_cast<Vec &&>(x));
    vp_assert(&r == &y, "vector: assignment returns its target");
    kept(y, s, s.n);
    wf(x);
    vp_assert(y.size() == s.n && x.size() == 0, "vector: move assignment transfers the contents");
    y = static_cast<Vec &&>(y);
    kept(y, s, s.n);
    vp_assert(y.size() == s.n, "vector: self move changes nothing");
}
void spec_vector_equal() {
    Vec x, y;
    State s(x), t(y);
    uint64_t i = vp_u64();
    bool same_i = !(i < s.n && i < t.n) || x.unsafe_at(i) == y.unsafe_at(i);
    bool e = x == y;
    vp_assert((x != y) == !e, "vector: != is the negation of ==");
    vp_assert(!e || s.n == t.n, "vector: equal vectors have the same size");
    vp_assert(!e || same_i, "vector: equal vectors have equal entries");
    vp_assert(x == x, "vector: equals itself");
    kept(x, s, s.n);
}
