// Contracts of Path (C24): lexical operations from an arbitrary reachable path.
#include <pystd2026.hpp>
#include "vp.hpp"
namespace P = pystd2026;
using P::CString;
using P::Path;
extern "C" void vp_cstrobj(void *);
extern "C" void vp_cstr_wf(void *);
extern "C" bool vp_range_eq(const char *a, const char *b, uint64_t n);
extern "C" char vp_at(const char *p, uint64_t i); // p[i], any i
// class invariant: only the root directory ends in a separator
static bool normal(const char *p, uint64_t n) { return (n <= 1) | (vp_at(p, n - 1) != '/'); }
static uint64_t arbitrary(Path &p) {
    vp_cstrobj(&p.buf.bytes);
    vp_assume(normal(p.c_str(), p.size()));
    return p.size();
}
static void wf(Path &p) {
    vp_cstr_wf(&p.buf.bytes);
    vp_assert(normal(p.c_str(), p.size()), "class invariant: only the root directory ends in a separator");
}
// p is the given text without the separators at its end
static void is_trimmed(Path &p, const char *t, uint64_t n) {
    wf(p);
    uint64_t m = p.size(), j = vp_u64();
    vp_assume(j < n);
    vp_assert((m <= n) & ((m > 0) | (n == 0)), "not longer than the text");
    vp_assert(vp_range_eq(p.c_str(), t, m), "what the text starts with");
    vp_assert((j < m) | (vp_at(t, j) == '/'), "only separators are dropped");
}
void spec_path_from_text() {
    uint64_t n = vp_u64();
    const char *t = vp_cstr(n);
    Path p(t);
    is_trimmed(p, t, n);
}
void spec_path_from_string() {
    CString s;
    vp_cstrobj(&s.bytes);
    uint64_t n = s.size();
    CString c(s);
    Path p(P::move(c));
    is_trimmed(p, s.c_str(), n);
}
void spec_path_observers() {
    Path p;
    vp_assert(p.is_empty() && p.size() == 0 && p.c_str()[0] == 0, "a default path is empty");
    wf(p);
    uint64_t n = arbitrary(p);
    vp_assert(p.is_empty() == (n == 0) && p.c_str()[n] == 0, "size");
    vp_assert(p.is_abs() == (n > 0 && p.c_str()[0] == '/'), "absolute paths start with a separator");
}
static void is_joined(Path &r, const char *a, uint64_t na, const char *b, uint64_t nb) {
    wf(r);
    bool abs = (nb > 0) & (vp_at(b, 0) == '/');
    if(abs | (na == 0)) {
        vp_assert((r.size() == nb) & vp_range_eq(r.c_str(), b, nb), "an absolute path replaces, nothing stays in front of an empty one");
        return;
    }
    if(nb == 0) {
        vp_assert((r.size() == na) & vp_range_eq(r.c_str(), a, na), "joining an empty path changes nothing");
        return;
    }
    uint64_t s = vp_at(a, na - 1) == '/' ? 0 : 1;
    vp_assert(r.size() == na + s + nb, "one separator between the two");
    vp_assert(vp_range_eq(r.c_str(), a, na), "starts with the first path");
    vp_assert((s == 0) | (vp_at(r.c_str(), na) == '/'), "one separator between the two");
    vp_assert(vp_range_eq(r.c_str() + na + s, b, nb), "ends with the second path");
}
void spec_path_join() {
    Path a, b;
    uint64_t na = arbitrary(a), nb = arbitrary(b);
    Path r = a / b;
    wf(a);
    wf(b);
    vp_assert((a.size() == na) & (b.size() == nb), "the operands stay");
    is_joined(r, a.c_str(), na, b.c_str(), nb);
}
void spec_path_filename() {
    Path p;
    uint64_t n = arbitrary(p), j = vp_u64();
    Path f = p.filename();
    wf(f);
    uint64_t k = f.size();
    vp_assert(k <= n, "a part of the path");
    vp_assume(j < k);
    vp_assert(vp_range_eq(f.c_str(), p.c_str() + (n - k), k), "its end");
    vp_assert(vp_at(f.c_str(), j) != '/', "without separator");
    vp_assert((k == n) | (vp_at(p.c_str(), n - k - 1) == '/'), "a whole component");
}
void spec_path_filename_empty() {
    Path p;
    uint64_t n = arbitrary(p);
    Path f = p.filename();
    vp_assert((f.size() > 0) | (n == 0) | ((n == 1) & (vp_at(p.c_str(), 0) == '/')), "only the root directory and the empty path have no last component");
}
extern "C" bool vp_hasbyte(const char *p, uint64_t n, char c); // one of the n bytes is c
// where the extension begins: the last dot, if no separator follows it; the end if there is none
static uint64_t extpos(Path &p, uint64_t n, int which) {
    uint64_t e = vp_u64();
    const char *t = p.c_str();
    if(which == 0) {
        vp_assume(!vp_hasbyte(t, n, '.'));
        return n;
    }
    vp_assume(e < n);
    vp_assume(!vp_hasbyte(t + e + 1, n - e - 1, '.'));
    if(which == 1) {
        vp_assume(t[e] == '/');
        return n;
    }
    vp_assume(t[e] == '.');
    vp_assume(!vp_hasbyte(t + e + 1, n - e - 1, '/'));
    return e;
}
static void extension(int which) {
    Path p;
    uint64_t n = arbitrary(p), e = extpos(p, n, which);
    CString x = p.extension();
    vp_cstr_wf(&x.bytes);
    vp_assert(x.size() == n - e, "from the last dot of the last component on");
    vp_assert(vp_range_eq(x.c_str(), p.c_str() + e, n - e), "that part of the path");
}
void spec_path_extension_nodot() { extension(0); }
void spec_path_extension_none() { extension(1); }
void spec_path_extension() { extension(2); }
static void replace(int which) {
    Path p;
    uint64_t n = arbitrary(p), e = extpos(p, n, which), j = vp_u64(), m = vp_u64(), k = vp_u64();
    vp_assume(j < e);
    char c = p.c_str()[j];
    const char *b = vp_cstr(m);
    vp_assume(k < m);
    p.replace_extension(P::CStringView(b, m));
    wf(p);
    uint64_t r = p.size();
    vp_assert(r <= e + m, "prefix and new extension");
    vp_assert(((j < r) & (vp_at(p.c_str(), j) == c)) | ((j >= r) & (c == '/')), "what is before the extension stays");
    vp_assert((r <= e) | vp_range_eq(p.c_str() + e, b, r - e), "then the new one");
    // (the last, contradictory, alternative only mentions the byte of the storage at which to look)
    char t = vp_at(p.buf.bytes.data(), e + k);
    vp_assert((e + k < r) | (vp_at(b, k) == '/') | ((t == vp_at(b, k)) & (t == 'x') & (vp_at(b, k) == 'y')), "only separators at the end are dropped");
}
void spec_path_replace_extension_nodot() { replace(0); }
void spec_path_replace_extension_none() { replace(1); }
void spec_path_replace_extension() { replace(2); }
