// Contract of glob_matches (C25).
#include "pystd2026_filesystem.cpp"
#include "vp.hpp"
namespace pystd2026 {
bool vp_call_glob(const char *text, const char *pattern) { return glob_matches(text, pattern); }
}
// the definition is in specs/glob.py
extern "C" bool vp_glob(const char *text, uint64_t n, const char *pattern, uint64_t m);
void spec_glob_matches() {
    uint64_t n = vp_u64(), m = vp_u64();
    const char *a = vp_cstr(n), *b = vp_cstr(m);
    bool s = vp_glob(a, n, b, m);
    bool r = pystd2026::vp_call_glob(a, b);
    vp_assert(r == s, "the name matches exactly when it has the form of the pattern");
}
