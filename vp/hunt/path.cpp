// Executable oracle for C24: lexical path operations against a plain C reference.
#include <pystd2026.hpp>
#include "hunt.hpp"
namespace P = pystd2026;
using namespace hunt;
#define CHECK(c, ...)          \
    do {                       \
        if(!(c))               \
            fail(__VA_ARGS__); \
    } while(0)
static void trim(char *t) {
    size_t n = strlen(t);
    while(n > 1 && t[n - 1] == '/')
        t[--n] = 0;
}
static void text(char *t, int max) {
    static const char al[] = "aab.././/xyz\xe4\x80";
    size_t n = below(6) ? below(10) : below(max);
    for(size_t i = 0; i < n; ++i)
        t[i] = al[below(sizeof al - 1)];
    t[n] = 0;
}
static bool is(const P::Path &p, const char *t) { return p.size() == strlen(t) && strcmp(p.c_str(), t) == 0; }
int main() {
    init();
    static char a[400], b[400], e[900], x[400];
    while(more()) {
        ++cases;
        text(a, 300);
        text(b, 300);
        text(x, 100);
        setcase("\"%s\" \"%s\" \"%s\"", a, b, x);
        P::Path p(a), q{P::CString(b)};
        P::Path pj(p / q), pj2(p / b), pj3(p / P::CString(b));
        trim(a);
        trim(b);
        CHECK(is(p, a), "path from text: %s", p.c_str());
        CHECK(is(q, b), "path from string: %s", q.c_str());
        CHECK(p.is_abs() == (a[0] == '/') && p.is_empty() == !a[0], "absolute or empty");
        // join
        if(b[0] == '/' || !a[0])
            strcpy(e, b);
        else {
            strcpy(e, a);
            if(b[0] && e[strlen(e) - 1] != '/')
                strcat(e, "/");
            strcat(e, b);
        }
        CHECK(is(pj, e) && is(pj2, e) && is(pj3, e), "join: %s %s %s instead of %s", pj.c_str(), pj2.c_str(), pj3.c_str(), e);
        CHECK(is(p, a) && is(q, b), "join changes an operand");
        // components
        const char *f = strrchr(a, '/');
        f = f ? f + 1 : a;
        CHECK(is(p.filename(), f), "filename: %s instead of %s", p.filename().c_str(), f);
        const char *d = strrchr(f, '.');
        const char *ext = d ? d : "";
        P::CString pe = p.extension();
        CHECK(pe.size() == strlen(ext) && !strcmp(pe.c_str(), ext), "extension: %s instead of %s", pe.c_str(), ext);
        auto parts = p.split();
        size_t np = 0;
        for(const char *s = a; *s;) {
            if(*s == '/') {
                ++s;
                continue;
            }
            const char *t = s;
            while(*t && *t != '/')
                ++t;
            CHECK(np < parts.size() && parts[np].size() == (size_t)(t - s) && !strncmp(parts[np].c_str(), s, t - s), "component %zu", np);
            ++np;
            s = t;
        }
        CHECK(np == parts.size(), "%zu components", parts.size());
        // extension
        strcpy(e, a);
        if(d)
            e[d - a] = 0;
        strcat(e, x);
        trim(e);
        P::Path r(p);
        if(below(2))
            r.replace_extension(x);
        else
            r.replace_extension(P::CStringView(x, strlen(x)));
        CHECK(is(r, e), "replace_extension: %s instead of %s", r.c_str(), e);
        P::Path again = r / "z";
        CHECK(again.size() >= 1, "joining to the result");
        if(cases <= 3)
            sample("%s", cur);
    }
    finish();
}
