// Executable oracle for C32: real files and mappings in a scratch directory, with counted and sometimes failing library calls (--wrap).
#include <pystd2026.hpp>
#include <errno.h>
#include <sys/mman.h>
#include "hunt.hpp"
namespace P = pystd2026;
using namespace hunt;
static bool inside;
static long opens, closes, reads, fail_read;
static bool failed, fail_map;
struct Map {
    void *p;
    size_t n;
} maps[64];
static int nmaps;
#define REAL(r, f, ...) extern "C" r __real_##f(__VA_ARGS__)
REAL(FILE *, fopen, const char *, const char *);
REAL(int, fclose, FILE *);
REAL(size_t, fread, void *, size_t, size_t, FILE *);
REAL(int, ferror, FILE *);
REAL(void *, mmap, void *, size_t, int, int, int, off_t);
REAL(int, munmap, void *, size_t);
extern "C" {
FILE *__wrap_fopen(const char *n, const char *m) {
    FILE *f = __real_fopen(n, m);
    if(inside && f)
        ++opens;
    return f;
}
int __wrap_fclose(FILE *f) {
    if(inside && ++closes > opens)
        fail("closes a file that is not open");
    return __real_fclose(f);
}
size_t __wrap_fread(void *p, size_t s, size_t n, FILE *f) {
    if(inside && fail_read && ++reads == fail_read) {
        failed = true;
        errno = EIO;
        return __real_fread(p, s, n / 2, f);
    }
    return __real_fread(p, s, n, f);
}
int __wrap_ferror(FILE *f) { return inside && failed ? 1 : __real_ferror(f); }
void *__wrap_mmap(void *p, size_t n, int a, int b, int fd, off_t o) {
    if(inside && fail_map)
        return MAP_FAILED;
    void *r = __real_mmap(p, n, a, b, fd, o);
    if(inside && r != MAP_FAILED)
        maps[nmaps++] = {r, n};
    return r;
}
int __wrap_munmap(void *p, size_t n) {
    if(inside) {
        int i = 0;
        while(i < nmaps && maps[i].p != p)
            ++i;
        if(i == nmaps)
            fail("unmaps what is not mapped");
        if(maps[i].n != n)
            fail("unmaps %zu bytes of a mapping of %zu", n, maps[i].n);
        maps[i] = maps[--nmaps];
    }
    return __real_munmap(p, n);
}
}
#define CHECK(c, ...)          \
    do {                       \
        if(!(c))               \
            fail(__VA_ARGS__); \
    } while(0)
static char text[20000];
static size_t n;
static char dir[500], name[600];
static void content() {
    static const size_t base[] = {0, 1, 2, 10, 159, 160, 161, 4095, 4096, 4097, 8192, 12288, 12287};
    n = below(4) ? below(40) : base[below(sizeof base / sizeof *base)];
    bool lines = below(3);
    for(size_t i = 0; i < n; ++i)
        text[i] = lines && below(6) == 0 ? '\n' : below(10) ? 'a' + below(26) : rnd();
    if(n && below(3) == 0)
        text[n - 1] = '\n';
    FILE *f = fopen(name, "wb");
    if(!f || fwrite(text, 1, n, f) != n)
        _exit(3);
    fclose(f);
}
static void lines() {
    setcase("lines of %zu bytes", n);
    bool twice = below(3) == 0;
    {
        P::File f(name, "rb");
        size_t at = 0;
        int k = 0;
        for(auto it = f.begin(); it != f.end(); ++it) {
            if(twice && below(2)) {
                const P::Bytes &x = *it;
                (void)x;
            }
            P::Bytes l = *it;
            CHECK(l.size() <= n - at && memcmp(l.data(), text + at, l.size()) == 0, "line %d at byte %zu is not what the file holds", k, at);
            for(size_t i = 0; i + 1 < l.size(); ++i)
                CHECK(l[i] != '\n', "newline inside line %d", k);
            at += l.size();
            CHECK(l.size() && l.back() == '\n' || at == n, "line %d ends too early", k);
            ++k;
        }
        CHECK(at == n, "%zu of %zu bytes", at, n);
        CHECK(f.eof(), "not at the end");
    }
    CHECK(opens == closes, "file not closed");
}
static void load() {
    fail_read = below(4) ? 0 : 1 + below(3);
    reads = 0;
    failed = false;
    bool missing = below(10) == 0, isdir = !missing && below(20) == 0, proc = !isdir && !missing && below(20) == 0;
    setcase("load_bytes of %zu bytes%s%s%s, read %ld fails", n, missing ? " (missing)" : "", isdir ? " (directory)" : "", proc ? " (/proc/version)" : "", fail_read);
    {
        P::Path p(missing ? "/nonexistent/x" : isdir ? dir : proc ? "/proc/version" : name);
        auto b = p.load_bytes();
        if(missing || isdir || failed)
            CHECK(!b, "a failure is not reported");
        else if(proc)
            CHECK(b && b->size() > 5 && memcmp(b->data(), "Linux", 5) == 0, "contents lost");
        else
            CHECK(b && b->size() == n && memcmp(b->data(), text, n) == 0, "not the bytes of the file");
    }
    fail_read = 0;
    failed = false;
    CHECK(opens == closes, "file not closed");
}
static void mapping() {
    fail_map = below(8) == 0;
    bool missing = below(10) == 0;
    char h[300] = "";
    {
        P::MMapping m[3];
        bool has[3] = {};
        for(int k = 0, e = below(6); k < e; ++k) {
            int i = below(3), j = below(3);
            size_t len = strlen(h);
            switch(below(4)) {
            case 0:
            case 1: {
                snprintf(h + len, sizeof h - len, " m%d=map", i);
                setcase("file of %zu bytes%s%s,%s", n, fail_map ? " (mapping fails)" : "", missing ? " (missing)" : "", h);
                int before = nmaps;
                auto o = P::mmap_file(missing ? "/nonexistent/x" : name);
                CHECK((bool)o == (n && !fail_map && !missing), "mapping %s", o ? "succeeded" : "failed");
                if(!o)
                    break;
                CHECK(nmaps == before + 1, "mapped %d times", nmaps - before);
                CHECK(o->span().size() == n && memcmp(&o->span()[0], text, n) == 0, "not the bytes of the file");
                m[i] = P::move(*o);
                has[i] = true;
                break;
            }
            case 2:
                snprintf(h + len, sizeof h - len, " m%d=move(m%d)", i, j);
                setcase("file of %zu bytes,%s", n, h);
                m[i] = P::move(m[j]);
                if(i != j) {
                    has[i] = has[j];
                    has[j] = false;
                }
                break;
            default: {
                snprintf(h + len, sizeof h - len, " M(move(m%d))", i);
                setcase("file of %zu bytes,%s", n, h);
                P::MMapping t(P::move(m[i]));
                if(below(2))
                    m[i] = P::move(t);
                else
                    has[i] = false;
            }
            }
            CHECK(nmaps == has[0] + has[1] + has[2], "%d mappings, %d in use", nmaps, has[0] + has[1] + has[2]);
            for(int x = 0; x < 3; ++x)
                CHECK(m[x].span().size() == (has[x] ? n : 0) && (!has[x] || memcmp(&m[x].span()[0], text, n) == 0), "contents of m%d", x);
        }
    }
    CHECK(nmaps == 0, "%d mappings are left", nmaps);
    CHECK(opens == closes, "file not closed");
    fail_map = false;
}
int main() {
    init();
    snprintf(dir, sizeof dir, "%s/files.XXXXXX", getenv("TMPDIR") ? getenv("TMPDIR") : "/tmp");
    if(!mkdtemp(dir))
        return 3;
    snprintf(name, sizeof name, "%s/f", dir);
    while(more()) {
        ++cases;
        content();
        inside = true;
        lines();
        load();
        mapping();
        inside = false;
        if(cases <= 3)
            sample("%s", cur);
    }
    unlink(name);
    rmdir(dir);
    finish();
}
