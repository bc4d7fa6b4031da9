// Contracts of FixedVector (C08): every operation from an arbitrary reachable state, for an opaque element type.
#include <pystd2026.hpp>
#include "vp.hpp"
namespace P = pystd2026;
static constexpr uint64_t N = VP_CAP;
using FVec = P::FixedVector<Elem, N>;
extern "C" void vp_fixed_window(void *, uint64_t);
extern "C" void vp_fixed(void *);
extern "C" void vp_fixed_wf(void *);
// raw storage for one FixedVector: construction and destruction are explicit
union Box {
    FVec v;
    Box() { vp_fixed_window((void *)&v, sizeof(Elem) * N); }
    ~Box() {}
};
struct State {
    uint64_t n, j, v;
    explicit State(Box &b) {
        new(&b.v) FVec();
        vp_fixed(&b.v);
        n = b.v.size();
        j = vp_u64();
        v = j < n ? vp_val(b.v.unsafe_at(j)) : 0;
    }
};
static void wf(FVec &x) { vp_fixed_wf(&x); }
static void kept(FVec &x, const State &s, uint64_t upto) {
    wf(x);
    if(s.j < s.n && s.j < upto)
        vp_assert(s.j < x.size() && vp_val(x.unsafe_at(s.j)) == s.v, "fixed vector: the other entries keep their values");
}
static void unchanged(FVec &x, const State &s) {
    kept(x, s, s.n);
    vp_assert(x.size() == s.n, "fixed vector: a reported operation changes nothing");
}
void spec_fixed_default() {
    Box b;
    new(&b.v) FVec();
    wf(b.v);
    vp_assert(b.v.size() == 0 && b.v.is_empty() && b.v.capacity() == N && b.v.is_full() == (N == 0), "fixed vector: default is empty");
    b.v.~FVec();
}
void spec_fixed_access() {
    Box b;
    State s(b);
    FVec &x = b.v;
    const FVec &c = x;
    vp_assert(x.is_empty() == (s.n == 0) && x.is_full() == (s.n == N) && x.capacity() == N, "fixed vector: is_empty, is_full, capacity");
    vp_assert(x.end() == x.begin() + s.n && x.begin() == x.data(), "fixed vector: iterators span the entries");
    vp_assert(x.span().data() == x.data() && x.span().size() == s.n && c.span().size() == s.n && c.span().begin() == x.data(), "fixed vector: span");
    uint64_t i = vp_u64();
    bool thrown = false;
    try {
        if(vp_bool())
            vp_assert(&x[i] == x.data() + i && i < s.n, "fixed vector: entry i");
        else
            vp_assert(&c[i] == x.data() + i && i < s.n, "fixed vector: entry i");
    } catch(...) {
        thrown = true;
    }
    vp_assert(thrown == (i >= s.n), "fixed vector: an index past the end is reported");
    if(i < s.n)
        vp_assert(&x.unsafe_at(i) == x.data() + i && &c.unsafe_at(i) == x.data() + i, "fixed vector: unsafe_at");
    unchanged(x, s);
    x.~FVec();
}
void spec_fixed_ends() {
    Box b;
    State s(b);
    FVec &x = b.v;
    const FVec &c = x;
    bool thrown = false;
    try {
        switch(vp_split(vp_u64() % 4, 4)) {
        case 0: vp_assert(&x.front() == x.data() && s.n > 0, "fixed vector: front"); break;
        case 1: vp_assert(&c.front() == x.data() && s.n > 0, "fixed vector: front"); break;
        case 2: vp_assert(&x.back() == x.data() + s.n - 1 && s.n > 0, "fixed vector: back"); break;
        case 3: vp_assert(&c.back() == x.data() + s.n - 1 && s.n > 0, "fixed vector: back"); break;
        }
    } catch(...) {
        thrown = true;
    }
    vp_assert(thrown == (s.n == 0), "fixed vector: front and back of an empty vector are reported");
    x.~FVec();
}
void spec_fixed_push_back() {
    Box b;
    State s(b);
    FVec &x = b.v;
    Elem e = vp_elem();
    uint64_t v = vp_val(e);
    bool thrown = false, ok = true;
    unsigned how = vp_split(vp_u64() % 6, 6);
    try {
        switch(how) {
        case 0: x.push_back(static_cast<const Elem &>(e)); break;
        case 1: x.push_back(static_cast<Elem &&>(e)); break;
        case 2: x.emplace_back(static_cast<const Elem &>(e)); break;
        case 3: ok = x.try_push_back(static_cast<const Elem &>(e)); break;
        case 4: ok = x.try_push_back(static_cast<Elem &&>(e)); break;
        case 5: ok = x.try_emplace_back(static_cast<const Elem &>(e)); break;
        }
    } catch(...) {
        thrown = true;
    }
    if(s.n == N) {
        vp_assert(how < 3 ? thrown : !thrown && !ok, "fixed vector: adding to a full vector is reported");
        unchanged(x, s);
        vp_assert(vp_val(e) == v, "fixed vector: a rejected value is left alone");
    } else {
        vp_assert(!thrown && ok, "fixed vector: there is room");
        kept(x, s, s.n);
        vp_assert(x.size() == s.n + 1 && vp_val(x.unsafe_at(s.n)) == v, "fixed vector: push_back appends the value");
        vp_assert(how == 1 || how == 4 || vp_val(e) == v, "fixed vector: the source of a copy is kept");
    }
    x.~FVec();
}
void spec_fixed_emplace_default() {
    Box b;
    State s(b);
    FVec &x = b.v;
    bool ok = x.try_emplace_back();
    vp_assert(ok == (s.n < N), "fixed vector: adding to a full vector is reported");
    kept(x, s, s.n);
    vp_assert(x.size() == s.n + ok, "fixed vector: size");
    if(ok)
        vp_assert(vp_val(x.unsafe_at(s.n)) == vp_default_elem(), "fixed vector: emplace_back without arguments appends a default value");
    x.~FVec();
}
void spec_fixed_insert() {
    Box b;
    State s(b);
    FVec &x = b.v;
    Elem e = vp_elem();
    uint64_t v = vp_val(e), i = vp_u64();
    bool thrown = false;
    try {
        x.insert(i, static_cast<Elem &&>(e));
    } catch(...) {
        thrown = true;
    }
    if(s.n == N || i > s.n) {
        vp_assert(thrown, "fixed vector: inserting into a full vector or past the end is reported");
        unchanged(x, s);
        vp_assert(vp_val(e) == v, "fixed vector: a rejected value is left alone");
    } else {
        vp_assert(!thrown, "fixed vector: there is room");
        kept(x, s, i);
        vp_assert(x.size() == s.n + 1 && vp_val(x.unsafe_at(i)) == v, "fixed vector: insert puts the value at the position");
        if(s.j >= i && s.j < s.n)
            vp_assert(vp_val(x.unsafe_at(s.j + 1)) == s.v, "fixed vector: the entries behind the position move up by one");
    }
    x.~FVec();
}
void spec_fixed_delete_at() {
    Box b;
    State s(b);
    FVec &x = b.v;
    uint64_t i = vp_u64();
    bool thrown = false;
    try {
        x.delete_at(i);
    } catch(...) {
        thrown = true;
    }
    vp_assert(thrown == (i >= s.n), "fixed vector: deleting past the end is reported");
    if(thrown)
        unchanged(x, s);
    else {
        kept(x, s, i);
        vp_assert(x.size() == s.n - 1, "fixed vector: delete_at removes one entry");
        if(s.j > i && s.j < s.n)
            vp_assert(vp_val(x.unsafe_at(s.j - 1)) == s.v, "fixed vector: the entries behind the position move down by one");
    }
    x.~FVec();
}
void spec_fixed_pop() {
    Box b;
    State s(b);
    FVec &x = b.v;
    bool front = vp_bool();
    if(front)
        x.pop_front();
    else
        x.pop_back();
    wf(x);
    vp_assert(x.size() == (s.n ? s.n - 1 : 0), "fixed vector: pop removes one entry");
    if(s.j < s.n) {
        if(!front && s.j + 1 < s.n)
            vp_assert(vp_val(x.unsafe_at(s.j)) == s.v, "fixed vector: pop_back keeps the others");
        if(front && s.j > 0)
            vp_assert(vp_val(x.unsafe_at(s.j - 1)) == s.v, "fixed vector: pop_front keeps the others");
    }
    x.~FVec();
}
void spec_fixed_move() {
    Box a, b;
    State s(a);
    new(&b.v) FVec(static_cast<FVec &&>(a.v));
    kept(b.v, s, s.n);
    wf(a.v);
    vp_assert(b.v.size() == s.n && a.v.size() == 0, "fixed vector: move construction transfers the contents");
    b.v.~FVec();
    a.v.~FVec();
}
void spec_fixed_move_assign() {
    Box a, b;
    State s(a), t(b);
    FVec &r = (b.v = static_cast<FVec &&>(a.v));
    vp_assert(&r == &b.v, "fixed vector: assignment returns its target");
    kept(b.v, s, s.n);
    wf(a.v);
    vp_assert(b.v.size() == s.n && a.v.size() == 0, "fixed vector: move assignment transfers the contents");
    b.v = static_cast<FVec &&>(b.v);
    kept(b.v, s, s.n);
    vp_assert(b.v.size() == s.n, "fixed vector: self move changes nothing");
    b.v.~FVec();
    a.v.~FVec();
}
void spec_fixed_move_append() {
    Box a, b;
    State s(a), t(b);
    bool thrown = false;
    try {
        b.v.move_append(a.v);
    } catch(...) {
        thrown = true;
    }
    vp_assert(thrown == (s.n + t.n > N), "fixed vector: appending more than fits is reported");
    if(thrown) {
        unchanged(a.v, s);
        unchanged(b.v, t);
    } else {
        kept(b.v, t, t.n);
        wf(a.v);
        vp_assert(b.v.size() == s.n + t.n, "fixed vector: move_append adds every entry");
        if(s.j < s.n)
            vp_assert(vp_val(b.v.unsafe_at(t.n + s.j)) == s.v, "fixed vector: move_append adds the entries in order");
    }
    b.v.~FVec();
    a.v.~FVec();
}
void spec_fixed_append_self() {
    Box b;
    State s(b);
    bool thrown = false;
    try {
        b.v.move_append(b.v);
    } catch(...) {
        thrown = true;
    }
    vp_assert(thrown, "fixed vector: appending itself is reported");
    unchanged(b.v, s);
    b.v.~FVec();
}
