// Contracts of CString (C12): every operation from an arbitrary reachable state.
#include <pystd2026.hpp>
#include "vp.hpp"
namespace P = pystd2026;
using P::CString;
extern "C" void vp_cstrobj(void *);  // arbitrary reachable state: contents without NUL followed by one NUL
extern "C" void vp_cstr_wf(void *);  // that holds
extern "C" bool vp_range_eq(const char *a, const char *b, uint64_t n);
extern "C" char vp_at(const char *p, uint64_t i); // p[i], any i
extern "C" bool vp_ws(const char *b, uint64_t i);
extern "C" bool vp_hasnul(const char *b, uint64_t n); // one of the n bytes is NUL
struct State {
    uint64_t n, j;
    char v;
    explicit State(CString &x) {
        vp_cstrobj(&x.bytes);
        n = x.size();
        j = vp_u64();
        v = j < n ? x.data()[j] : 0;
    }
};
static void kept(CString &x, const State &s, uint64_t upto) {
    vp_cstr_wf(&x.bytes);
    if(s.j < s.n && s.j < upto)
        vp_assert(s.j < x.size() && x.data()[s.j] == s.v, "the other characters stay");
}
// an arbitrary text that holds no NUL
static P::CStringView viewnz(uint64_t &n, const char *&b) {
    n = vp_u64();
    b = vp_cstr(n);
    return P::CStringView(b, n);
}

// the contract of Bytes::append(char), through which the operations below are verified
extern "C" void vp_bytesobj(void *);
extern "C" void vp_bytes_wf(void *);
void spec_bytes_append() {
    P::Bytes x;
    vp_bytesobj(&x);
    uint64_t n = x.size(), j = vp_u64();
    char c = vp_char(), v = j < n ? x.data()[j] : 0;
    x.append(c);
    vp_bytes_wf(&x);
    vp_assert(x.size() == n + 1 && x.data()[n] == c, "one more byte at the end");
    if(j < n)
        vp_assert(x.data()[j] == v, "the others stay");
}
void spec_cstr_default() {
    CString x;
    vp_cstr_wf(&x.bytes);
    vp_assert(x.size() == 0 && x.length() == 0 && x.is_empty(), "default is empty");
}
void spec_cstr_from_view() {
    uint64_t n = vp_u64(), j = vp_u64();
    const char *b = vp_bytes(n);
    vp_may_throw(vp_hasnul(b, n));
    CString x(P::CStringView(b, n));
    vp_assert(!vp_hasnul(b, n), "an embedded NUL is reported");
    vp_cstr_wf(&x.bytes);
    vp_assert(x.size() == n && x.is_empty() == (n == 0), "as many characters");
    if(j < n)
        vp_assert(x[j] == b[j], "the same characters");
}
void spec_cstr_from_bytes() {
    uint64_t n = vp_u64(), j = vp_u64();
    const char *b = vp_bytes(n);
    P::Bytes y(b, n);
    vp_may_throw(vp_hasnul(b, n));
    CString x(P::move(y));
    vp_assert(!vp_hasnul(b, n), "an embedded NUL is reported");
    vp_cstr_wf(&x.bytes);
    vp_assert(x.size() == n, "as many characters");
    if(j < n)
        vp_assert(x[j] == b[j], "the same characters");
}
void spec_cstr_from_cstr() {
    uint64_t n = vp_u64(), j = vp_u64();
    const char *b = vp_cstr(n);
    CString x(b);
    vp_cstr_wf(&x.bytes);
    vp_assert(x.size() == n, "as many characters");
    if(j < n)
        vp_assert(x[j] == b[j], "the same characters");
}
void spec_cstr_access() {
    CString x;
    State s(x);
    uint64_t i = vp_u64();
    vp_assert(x.c_str() == x.data() && x.data() == x.mutable_data() && x.c_str()[s.n] == 0, "a terminator follows");
    vp_assert(x.size() == x.length() && x.is_empty() == (s.n == 0), "size");
    P::CStringView v = x.view();
    vp_assert(v.data() == x.data() && v.size() == s.n, "view");
    P::ZStringView z = x.zview();
    vp_assert(z.c_str() == x.data() && z.size() == s.n, "zview");
    vp_may_throw(i > s.n);
    char c = x[i];
    vp_assert(i <= s.n && c == x.data()[i], "character i or the terminator; an index past it is reported");
}
void spec_cstr_ends() {
    CString x;
    State s(x);
    vp_may_throw(s.n == 0);
    if(vp_bool()) {
        char c = x.front();
        vp_assert(s.n > 0 && c == x.data()[0], "front");
    } else {
        char c = x.back();
        vp_assert(s.n > 0 && c == x.data()[s.n - 1], "back");
    }
}
void spec_cstr_strip() {
    CString x;
    State s(x);
    CString y(x);
    uint64_t d = vp_u64(), k = vp_u64();
    x.strip();
    vp_cstr_wf(&x.bytes);
    uint64_t m = x.size();
    // d: where the first character that is no white space was
    vp_assume(d <= s.n && !(k < d && !vp_ws(y.data(), k)) && (d == s.n || !vp_ws(y.data(), d)));
    vp_assume(!(d == s.n && s.j < s.n) || vp_ws(y.data(), s.j));
    if(m == 0) {
        vp_assert(!(s.j < s.n) || vp_ws(y.data(), s.j), "only white space is stripped to nothing");
    } else {
        vp_assert(!vp_ws(x.data(), 0) & !vp_ws(x.data(), m - 1), "no white space at the ends");
    }
}
void spec_cstr_clear() {
    CString x;
    State s(x);
    x.clear();
    vp_cstr_wf(&x.bytes);
    vp_assert(x.size() == 0, "clear");
}
void spec_cstr_substr() {
    CString x;
    State s(x);
    uint64_t o = vp_u64(), l = vp_u64(), k = vp_u64();
    vp_may_throw(o > s.n || (l != (size_t)-1 && l > s.n - o));
    CString y = x.substr(o, l);
    vp_assert(o <= s.n && (l == (size_t)-1 || l <= s.n - o), "a bad range is reported");
    uint64_t m = l == (size_t)-1 ? s.n - o : l;
    vp_cstr_wf(&y.bytes);
    vp_assert(y.size() == m, "as many characters");
    if(k < m)
        vp_assert(y.data()[k] == x.data()[o + k], "the same characters");
    kept(x, s, s.n);
}
void spec_cstr_copy() {
    CString x;
    State s(x);
    CString y(x);
    vp_cstr_wf(&y.bytes);
    kept(x, s, s.n);
    kept(y, s, s.n);
    vp_assert(x.size() == s.n && y.size() == s.n, "a copy is the same");
}
void spec_cstr_move() {
    CString x;
    State s(x);
    CString y(P::move(x));
    kept(y, s, s.n);
    vp_assert(y.size() == s.n, "moving takes over the contents");
    x = y; // what was moved from can be assigned to
    kept(x, s, s.n);
    vp_assert(x.size() == s.n, "assigning to what was moved from");
}
void spec_cstr_assign_copy() {
    CString x, y;
    State s(x), t(y);
    y = x;
    kept(x, s, s.n);
    kept(y, s, s.n);
    vp_assert(y.size() == s.n && x.size() == s.n, "a copy is the same");
}
void spec_cstr_assign_move() {
    CString x, y;
    State s(x), t(y);
    y = P::move(x);
    kept(y, s, s.n);
    vp_assert(y.size() == s.n, "moving takes over the contents");
}
void spec_cstr_assign_self() {
    CString x;
    State s(x);
    CString &r = x;
    if(vp_bool())
        x = r;
    else
        x = P::move(r);
    kept(x, s, s.n);
    vp_assert(x.size() == s.n, "self assignment changes nothing");
}
void spec_cstr_assign_cstr() {
    CString x;
    State s(x);
    uint64_t n = vp_u64(), k = vp_u64();
    const char *b = vp_cstr(n);
    x = b;
    vp_cstr_wf(&x.bytes);
    vp_assert(x.size() == n, "as many characters");
    if(k < n)
        vp_assert(x.data()[k] == b[k], "the same characters");
}
void spec_cstr_equal() {
    CString x, y;
    State s(x), t(y);
    bool e = s.n == t.n && vp_range_eq(x.data(), y.data(), s.n);
    switch(vp_split(vp_u64() % 3, 3)) {
    case 0: {
        bool r = x == y;
        vp_assert(r == e, "equal exactly with the same characters");
        break;
    }
    case 1: {
        bool r = x == y.c_str();
        vp_assert(r == e, "equal to a C string");
        break;
    }
    case 2: {
        bool r = x == y.view();
        vp_assert(r == e, "equal to a view");
        break;
    }
    }
}
void spec_cstr_order() {
    CString x, y;
    State s(x), t(y);
    uint64_t c = s.n < t.n ? s.n : t.n, k = vp_u64();
    vp_assume(k <= c && vp_range_eq(x.data(), y.data(), k)); // k: where they differ first
    vp_assume(k == c || x.data()[k] != y.data()[k]);
    bool less = k < c ? (unsigned char)x.data()[k] < (unsigned char)y.data()[k] : s.n < t.n;
    int r = x <=> y;
    vp_assert((r < 0) == less && (r == 0) == (k == c && s.n == t.n), "ordered by the first different character, then by length");
}
void spec_cstr_append_char() {
    CString x;
    State s(x);
    char c = vp_char();
    vp_may_throw(c == 0);
    switch(vp_split(vp_u64() % 3, 3)) {
    case 0: x.append(c); break;
    case 1: x += c; break;
    case 2: x.push_back(c); break;
    }
    vp_assert(c != 0, "a NUL is reported");
    kept(x, s, s.n);
    vp_assert(x.size() == s.n + 1 && x.data()[s.n] == c, "one more character at the end");
}
void spec_cstr_append() {
    CString x;
    State s(x);
    uint64_t m = vp_u64(), k = vp_u64();
    const char *b = vp_cstr(m);
    x.append(b, m);
    kept(x, s, s.n);
    vp_assert(x.size() == s.n + m, "sizes add up");
    if(k < m)
        vp_assert(x.data()[s.n + k] == b[k], "the given characters follow");
}
void spec_cstr_append_nul() {
    CString x;
    State s(x);
    uint64_t m = vp_u64(), k = vp_u64();
    const char *b = vp_bytes(m);
    vp_may_throw(vp_hasnul(b, m));
    x.append(b, m);
    if(k < m) {
        vp_assert(x.data()[s.n + k] == b[k], "the given characters follow");
        vp_assert(b[k] != 0, "an embedded NUL is reported");
    }
}
void spec_cstr_append_cstr() {
    CString x;
    State s(x);
    uint64_t m = vp_u64(), k = vp_u64();
    const char *b = vp_cstr(m);
    switch(vp_split(vp_u64() % 3, 3)) {
    case 0: x.append(b); break;
    case 1: x += b; break;
    case 2: x.append(b, b + m); break;
    }
    kept(x, s, s.n);
    vp_assert(x.size() == s.n + m, "sizes add up");
    if(k < m)
        vp_assert(x.data()[s.n + k] == b[k], "the given characters follow");
}
void spec_cstr_append_self() {
    CString x;
    State s(x);
    uint64_t o = vp_u64(), m = vp_u64(), k = vp_u64();
    vp_assume(o <= s.n && m <= s.n - o && k < m && s.j == o + k);
    x.append(x.data() + o, m);
    kept(x, s, s.n);
    vp_assert(x.size() == s.n + m, "sizes add up");
    vp_assert(x.data()[s.n + k] == s.v, "its own characters follow");
}
void spec_cstr_concat() {
    CString x, y;
    State s(x), t(y);
    x += y;
    kept(x, s, s.n);
    kept(y, t, t.n);
    vp_assert(x.size() == s.n + t.n && y.size() == t.n, "sizes add up");
    if(t.j < t.n)
        vp_assert(x.data()[s.n + t.j] == t.v, "the other's characters follow");
}
void spec_cstr_concat_self() {
    CString x;
    State s(x);
    x += x;
    kept(x, s, s.n);
    vp_assert(x.size() == 2 * s.n, "sizes add up");
    if(s.j < s.n)
        vp_assert(x.data()[s.n + s.j] == s.v, "its own characters follow");
}
void spec_cstr_pop_back() {
    CString x;
    State s(x);
    x.pop_back();
    kept(x, s, x.size());
    vp_assert(x.size() == (s.n ? s.n - 1 : 0), "pop_back");
}
void spec_cstr_insert() {
    CString x;
    State s(x);
    uint64_t n, i = vp_u64(), k = vp_u64();
    const char *b;
    auto v = viewnz(n, b);
    vp_may_throw(i > s.n);
    x.insert(i, v);
    vp_assert(i <= s.n, "a position outside is reported");
    kept(x, s, i);
    vp_assert(x.size() == s.n + n, "sizes add up");
    if(k < n)
        vp_assert(x.data()[i + k] == b[k], "the given characters");
    if(s.j >= i && s.j < s.n)
        vp_assert(x.data()[s.j + n] == s.v, "the following characters move up");
}
void spec_cstr_insert_self() {
    CString x;
    State s(x);
    uint64_t o = vp_u64(), n = vp_u64(), i = vp_u64();
    vp_assume(o <= s.n && n <= s.n - o && i <= s.n && s.j < s.n);
    x.insert(i, P::CStringView(x.data() + o, n));
    kept(x, s, i);
    vp_assert(x.size() == s.n + n, "sizes add up");
    if(s.j >= o && s.j < o + n)
        vp_assert(x.data()[i + (s.j - o)] == s.v, "its own characters");
    if(s.j >= i)
        vp_assert(x.data()[s.j + n] == s.v, "the following characters move up");
}
void spec_cstr_remove() {
    CString x;
    State s(x);
    uint64_t i = vp_u64(), e = vp_u64();
    vp_may_throw(i > e || e > s.n);
    x.remove(i, e);
    vp_assert(i <= e && e <= s.n, "a bad range is reported");
    kept(x, s, i);
    vp_assert(x.size() == s.n - (e - i), "remove");
    if(s.j >= e && s.j < s.n)
        vp_assert(x.data()[s.j - (e - i)] == s.v, "the following characters move down");
}
void spec_cstr_resize() {
    CString x;
    State s(x);
    uint64_t n = vp_u64();
    vp_assume(n < (1ull << 40));
    x.resize(n);
    kept(x, s, n);
    vp_assert(x.size() == n, "resize");
}
void spec_cstr_reserve() {
    CString x;
    State s(x);
    uint64_t n = vp_u64();
    vp_assume(n < (1ull << 40));
    x.reserve(n);
    kept(x, s, s.n);
    vp_assert(x.size() == s.n, "reserve");
}
void spec_cstr_find() {
    CString x;
    State s(x);
    uint64_t m, j = vp_u64();
    const char *b;
    auto w = viewnz(m, b);
    uint64_t r = x.find(w);
    const char *d = x.data();
    if(r == (size_t)-1) {
        vp_assert(!(m <= s.n && j <= s.n - m && vp_range_eq(d + j, b, m)), "not found means no occurrence");
    } else {
        vp_assert(m <= s.n && r <= s.n - m && vp_range_eq(d + r, b, m), "an occurrence");
        vp_assert(!(j < r && vp_range_eq(d + j, b, m)), "the first occurrence");
    }
}
void spec_cstr_rfind() {
    CString x;
    State s(x);
    char c = vp_char();
    uint64_t r = x.rfind(c);
    if(r == (size_t)-1) {
        vp_assert(!(s.j < s.n) || s.v != c, "not found means no occurrence");
    } else {
        vp_assert(r < s.n && x.data()[r] == c, "an occurrence");
        vp_assert(!(s.j < s.n && s.j > r) || s.v != c, "the last occurrence");
    }
}
void spec_cstr_upper() {
    uint64_t n, j = vp_u64();
    const char *b;
    auto v = viewnz(n, b);
    CString u = v.upper();
    vp_cstr_wf(&u.bytes);
    vp_assert(u.size() == n, "as many characters");
    if(j < n)
        vp_assert(u.data()[j] == (b[j] >= 'a' && b[j] <= 'z' ? b[j] - 32 : b[j]), "upper case");
}
void spec_cstr_lower() {
    uint64_t n, j = vp_u64();
    const char *b;
    auto v = viewnz(n, b);
    CString l = v.lower();
    vp_cstr_wf(&l.bytes);
    vp_assert(l.size() == n, "as many characters");
    if(j < n)
        vp_assert(l.data()[j] == (b[j] >= 'A' && b[j] <= 'Z' ? b[j] + 32 : b[j]), "lower case");
}
// split_by: the pieces come from left to right, hold no separator, and only separators lie between them
struct SplitState {
    const char *b;
    uint64_t n, pos, calls;
    bool stopped;
    uint64_t j;
    char c;
};
static bool sep(const SplitState &s, uint64_t i) { return vp_at(s.b, i) == s.c; }
static bool on_piece(const P::CStringView &p, void *ctx) {
    SplitState &s = *(SplitState *)ctx;
    uint64_t o = p.data() - s.b, e = o + p.size();
    vp_assert(!s.stopped, "nothing is reported after the callback asked to stop");
    vp_assert((p.size() > 0) & (o >= s.pos) & (o <= s.n) & (p.size() <= s.n - o), "a piece inside the rest of the string");
    bool w = sep(s, s.j);
    vp_assert(!((s.j >= s.pos) & (s.j < o)) | w, "only separators are skipped");
    vp_assert(!((s.j >= o) & (s.j < e)) | !w, "a piece holds no separator");
    vp_assert((e == s.n) | sep(s, e), "a piece is maximal to the right");
    vp_assert((s.pos == 0) | sep(s, s.pos), "a piece is maximal to the left");
    s.pos = e;
    s.stopped = vp_bool();
    return !s.stopped;
}
void spec_cstr_split_by() {
    CString x;
    State t(x);
    SplitState s{x.data(), t.n, 0, 0, false, vp_u64(), vp_char()};
    x.split_by(s.c, on_piece, &s);
    vp_assert(s.stopped | !((s.j >= s.pos) & (s.j < s.n)) | sep(s, s.j), "only separators remain at the end");
}
