// Contracts of FixedCString (C14) for several capacities: every operation from an arbitrary reachable state.
#include <pystd2026.hpp>
#include "vp.hpp"
namespace P = pystd2026;
extern "C" bool vp_range_eq(const char *a, const char *b, uint64_t n);
template<size_t N> using S = P::FixedCString<N>;
template<size_t N> struct State {
    uint64_t n;
    char c[N + 1];
    explicit State(S<N> &x) {
        n = vp_split(vp_u64() % (N + 1), N + 1);
        for(uint64_t i = 0; i < N + 1; ++i)
            x.buf[i] = vp_char(); // what follows the terminator is arbitrary
        x.buf[n] = 0;
        x.strsize = n;
        for(uint64_t i = 0; i < n; ++i)
            c[i] = x.buf[i];
    }
};
template<size_t N> static void wf(S<N> &x) {
    vp_assert(x.strsize <= N && x.buf[x.strsize] == 0, "the contents fit and a terminator follows");
    vp_assert(x.size() == x.strsize && x.is_empty() == (x.strsize == 0) && x.c_str() == x.buf, "size");
}
template<size_t N> static void holds(S<N> &x, const char *b, uint64_t n) {
    wf(x);
    vp_assert(x.size() == n, "as many characters");
    for(uint64_t i = 0; i < n; ++i)
        vp_assert(x.buf[i] == b[i], "the same characters");
}
template<size_t N> static void t_default() {
    S<N> x;
    wf(x);
    vp_assert(x.size() == 0, "empty");
}
template<size_t N> static void t_from_cstr() {
    uint64_t n = vp_u64();
    const char *b = vp_cstr(n);
    vp_may_throw(n > N);
    S<N> x(b);
    vp_assert(n <= N, "a text that does not fit is reported");
    holds(x, b, n);
}
template<size_t N> static void t_from_bytes() {
    uint32_t n = vp_u32();
    vp_assume(n != (uint32_t)-1);
    if(n <= N)
        n = vp_split(n, N + 1);
    const char *b = vp_bytes(n);
    vp_may_throw(n > N);
    S<N> x(b, n);
    vp_assert(n <= N, "a text that does not fit is reported");
    holds(x, b, n);
}
template<size_t N> static void t_copy() {
    S<N> x;
    State<N> s(x);
    S<N> y(x);
    holds(x, s.c, s.n);
    holds(y, s.c, s.n);
}
template<size_t N> static void t_move() {
    S<N> x;
    State<N> s(x);
    S<N> y(P::move(x));
    holds(y, s.c, s.n);
    wf(x);
    vp_assert(x.size() == 0, "what was moved from is empty");
}
template<size_t N> static void t_assign_copy() {
    S<N> x, y;
    State<N> s(x), t(y);
    y = x;
    holds(x, s.c, s.n);
    holds(y, s.c, s.n);
}
template<size_t N> static void t_assign_move() {
    S<N> x, y;
    State<N> s(x), t(y);
    y = P::move(x);
    holds(y, s.c, s.n);
    wf(x);
    vp_assert(x.size() == 0, "what was moved from is empty");
}
template<size_t N> static void t_assign_self() {
    S<N> x;
    State<N> s(x);
    S<N> &r = x;
    if(vp_bool())
        x = r;
    else
        x = P::move(r);
    holds(x, s.c, s.n);
}
template<size_t N> static void t_assign_view() {
    S<N> x;
    State<N> s(x);
    uint64_t n = vp_u64();
    if(n <= N)
        n = vp_split(n, N + 1);
    const char *b = vp_bytes(n);
    bool thrown = false;
    try {
        x = P::CStringView(b, n);
    } catch(...) {
        thrown = true;
    }
    vp_assert(thrown == (n > N), "exactly a text that does not fit is reported");
    if(thrown)
        holds(x, s.c, s.n);
    else
        holds(x, b, n);
}
template<size_t N> static void t_assign_begin() {
    S<N> x;
    State<N> s(x);
    uint64_t n = vp_split(vp_u64() % (N + 1), N + 1);
    if(n > s.n)
        return;
    x = P::CStringView(x.c_str(), n);
    holds(x, s.c, n);
}
template<size_t N, size_t M> static void t_assign_other() {
    S<N> x;
    S<M> y;
    State<N> s(x);
    State<M> t(y);
    bool thrown = false;
    try {
        x = y;
    } catch(...) {
        thrown = true;
    }
    vp_assert(thrown == (t.n > N), "exactly a text that does not fit is reported");
    if(thrown)
        holds(x, s.c, s.n);
    else
        holds(x, t.c, t.n);
    holds(y, t.c, t.n);
}
template<size_t N> static void t_equal_view() {
    S<N> x;
    State<N> s(x);
    uint64_t n = vp_u64();
    const char *b = vp_bytes(n);
    bool e = n == s.n;
    for(uint64_t i = 0; e && i < s.n; ++i)
        e = b[i] == s.c[i];
    bool r = x == P::CStringView(b, n);
    vp_assert(r == e, "equal exactly with the same characters");
    holds(x, s.c, s.n);
}
template<size_t N> static void t_equal_cstr() {
    S<N> x;
    State<N> s(x);
    uint64_t n = vp_u64();
    const char *b = vp_cstr(n);
    bool e = n == s.n;
    for(uint64_t i = 0; e && i < s.n; ++i)
        e = b[i] == s.c[i];
    bool r = x == b;
    vp_assert(r == e, "equal exactly with the same characters");
    holds(x, s.c, s.n);
}
template<size_t N> static void t_access() {
    S<N> x;
    State<N> s(x);
    const S<N> &c = x;
    P::CStringView v = x.view();
    vp_assert(v.data() == x.buf && v.size() == s.n && c.c_str() == x.buf, "view");
    uint32_t i = vp_u32();
    vp_may_throw(i > N);
    if(vp_bool()) {
        char &r = x[i];
        vp_assert(i <= N && &r == x.buf + i, "index");
    } else {
        const char &r = c[i];
        vp_assert(i <= N && &r == x.buf + i, "index");
    }
}
template<size_t N> static void t_pop_back() {
    S<N> x;
    State<N> s(x);
    x.pop_back();
    holds(x, s.c, s.n ? s.n - 1 : 0);
}
void spec_fixedcstring_default_1() { t_default<1>(); }
void spec_fixedcstring_default_4() { t_default<4>(); }
void spec_fixedcstring_from_cstr_1() { t_from_cstr<1>(); }
void spec_fixedcstring_from_cstr_4() { t_from_cstr<4>(); }
void spec_fixedcstring_from_bytes_1() { t_from_bytes<1>(); }
void spec_fixedcstring_from_bytes_4() { t_from_bytes<4>(); }
void spec_fixedcstring_copy_1() { t_copy<1>(); }
void spec_fixedcstring_copy_4() { t_copy<4>(); }
void spec_fixedcstring_move_1() { t_move<1>(); }
void spec_fixedcstring_move_4() { t_move<4>(); }
void spec_fixedcstring_assign_copy_1() { t_assign_copy<1>(); }
void spec_fixedcstring_assign_copy_4() { t_assign_copy<4>(); }
void spec_fixedcstring_assign_move_1() { t_assign_move<1>(); }
void spec_fixedcstring_assign_move_4() { t_assign_move<4>(); }
void spec_fixedcstring_assign_self_1() { t_assign_self<1>(); }
void spec_fixedcstring_assign_self_4() { t_assign_self<4>(); }
void spec_fixedcstring_assign_view_1() { t_assign_view<1>(); }
void spec_fixedcstring_assign_view_4() { t_assign_view<4>(); }
void spec_fixedcstring_assign_begin_1() { t_assign_begin<1>(); }
void spec_fixedcstring_assign_begin_4() { t_assign_begin<4>(); }
void spec_fixedcstring_equal_view_1() { t_equal_view<1>(); }
void spec_fixedcstring_equal_view_4() { t_equal_view<4>(); }
void spec_fixedcstring_equal_cstr_1() { t_equal_cstr<1>(); }
void spec_fixedcstring_equal_cstr_4() { t_equal_cstr<4>(); }
void spec_fixedcstring_access_1() { t_access<1>(); }
void spec_fixedcstring_access_4() { t_access<4>(); }
void spec_fixedcstring_pop_back_1() { t_pop_back<1>(); }
void spec_fixedcstring_pop_back_4() { t_pop_back<4>(); }
void spec_fixedcstring_assign_other_2_4() { t_assign_other<2, 4>(); }
void spec_fixedcstring_assign_other_4_1() { t_assign_other<4, 1>(); }
