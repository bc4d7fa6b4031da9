// Executable oracle for C25: glob one directory of known names with random patterns.
#include <pystd2026.hpp>
#include "hunt.hpp"
#include <fcntl.h>
#include <sys/stat.h>
namespace P = pystd2026;
using namespace hunt;
static bool m(const char *t, const char *p) {
    if(*p == 0)
        return *t == 0;
    if(*p == '*') {
        for(const char *e = t;; ++e) {
            if(m(e, p + 1))
                return true;
            if(!*e)
                return false;
        }
    }
    return *t && (*p == '?' || *p == *t) && m(t + 1, p + 1);
}
// a star at the start of the name stands for nothing that begins with a dot
static bool oracle(const char *t, const char *p) { return !(*p == '*' && *t == '.') && m(t, p); }
static char dir[200];
static char names[80][16];
static int count;
static void clean() {
    char f[300];
    for(int i = 0; i < count; ++i) {
        snprintf(f, sizeof f, "%s/%s", dir, names[i]);
        unlink(f);
    }
    count = 0;
}
static void fill() {
    clean();
    char f[300];
    const char *alpha = below(2) ? "ab" : below(2) ? "ab." : "abc.*?\x80";
    int want = range(10, 70);
    for(int k = 0; k < want; ++k) {
        char *s = names[count];
        int n = range(1, 5);
        for(int i = 0; i < n; ++i)
            s[i] = alpha[below(strlen(alpha))];
        s[n] = 0;
        if(!strcmp(s, ".") || !strcmp(s, ".."))
            continue;
        bool dup = false;
        for(int i = 0; i < count; ++i)
            dup = dup || !strcmp(names[i], s);
        if(dup)
            continue;
        snprintf(f, sizeof f, "%s/%s", dir, s);
        int fd = open(f, O_CREAT | O_WRONLY, 0600);
        if(fd < 0)
            continue;
        close(fd);
        ++count;
    }
}
static void onepattern() {
    char p[16];
    int n = range(1, 6), k = 0;
    const char *alpha = below(3) ? "ab*?" : "abc.*?\x80";
    for(int i = 0; i < n; ++i) {
        char c = alpha[below(strlen(alpha))];
        if(c == '*' && k && p[k - 1] == '*')
            continue; // ** is something else
        p[k++] = c;
    }
    p[k] = 0;
    setcase("pattern %s in a directory of %d names", hexs(p, k), count);
    bool seen[80] = {};
    {
        char *q = strdup(p); // exactly as long as it is
        P::Path root((const char *)dir);
        auto g = root.glob(q);
        for(;;) {
            auto r = g.next();
            if(!r)
                break;
            const char *s = r->c_str(), *b = strrchr(s, '/');
            b = b ? b + 1 : s;
            int i = 0;
            while(i < count && strcmp(names[i], b))
                ++i;
            if(i == count)
                fail("found %s, which is not there", s);
            if(seen[i])
                fail("found %s twice", s);
            if(strncmp(s, dir, strlen(dir)) || strlen(s) != strlen(dir) + 1 + strlen(b))
                fail("found %s in %s", s, dir);
            seen[i] = true;
        }
        free(q);
    }
    for(int i = 0; i < count; ++i)
        if(seen[i] != oracle(names[i], p))
            fail("name %s pattern %s: %s", names[i], p, seen[i] ? "matched" : "not matched");
}
// several components: a small tree
static char tree[60][64];
static bool isdir[60];
static int nodes;
static void untree() {
    char f[400];
    for(int i = nodes; i-- > 0;) {
        snprintf(f, sizeof f, "%s/%s", dir, tree[i]);
        if(isdir[i])
            rmdir(f);
        else
            unlink(f);
    }
    nodes = 0;
}
static void grow(const char *under, int depth) {
    static const char *nm[] = {"a", "b", "ab", ".h", "ba", "x"};
    char f[400];
    int mask = below(64);
    for(int i = 0; i < 6 && nodes < 50; ++i)
        if(mask >> i & 1) {
            int me = nodes++;
            snprintf(tree[me], sizeof tree[me], "%s%s%s", under, *under ? "/" : "", nm[i]);
            snprintf(f, sizeof f, "%s/%s", dir, tree[me]);
            isdir[me] = depth < 3 && below(2);
            if(isdir[me]) {
                mkdir(f, 0700);
                grow(tree[me], depth + 1);
            } else
                close(open(f, O_CREAT | O_WRONLY, 0600));
        }
}
static bool mparts(const char *t, const char *p) {
    char c[64], q[64];
    const char *te = strchrnul(t, '/'), *pe = strchrnul(p, '/');
    snprintf(c, sizeof c, "%.*s", (int)(te - t), t);
    snprintf(q, sizeof q, "%.*s", (int)(pe - p), p);
    if(!strcmp(q, "**")) {
        if(!*pe && !*te)
            return *c != '.';
        if(*pe && mparts(t, pe + 1))
            return true;
        return *te && *c != '.' && mparts(te + 1, p);
    }
    if(!oracle(c, q))
        return false;
    if(!*te || !*pe)
        return !*te && !*pe;
    return mparts(te + 1, pe + 1);
}
static void parts() {
    static const char *seg[] = {"a", "*", "b", "?", "a*", "*b", ".h", "ab", "x"};
    char p[100] = "";
    int n = range(1, 4), star = below(3) ? -1 : below(n);
    for(int i = 0; i < n; ++i) {
        if(i)
            strcat(p, "/");
        strcat(p, i == star ? "**" : seg[below(9)]);
    }
    setcase("pattern %s in a tree of %d entries", p, nodes);
    bool seen[60] = {};
    P::Path root((const char *)dir);
    auto g = root.glob(p);
    for(;;) {
        auto r = g.next();
        if(!r)
            break;
        const char *s = r->c_str();
        size_t l = strlen(dir);
        if(strncmp(s, dir, l) || s[l] != '/')
            fail("found %s outside of %s", s, dir);
        int i = 0;
        while(i < nodes && strcmp(tree[i], s + l + 1))
            ++i;
        if(i == nodes)
            fail("found %s, which is not there", s);
        if(seen[i])
            fail("found %s twice", s);
        seen[i] = true;
    }
    for(int i = 0; i < nodes; ++i)
        if(seen[i] != mparts(tree[i], p))
            fail("entry %s pattern %s: %s", tree[i], p, seen[i] ? "matched" : "not matched");
}
int main() {
    HUNT_MAIN_INIT();
    snprintf(dir, sizeof dir, "%s/glob.XXXXXX", getenv("TMPDIR") ? getenv("TMPDIR") : "/tmp");
    if(!mkdtemp(dir)) {
        perror("scratch directory");
        return 3;
    }
    atexit([] {
        clean();
        untree();
        rmdir(dir);
    });
    while(more()) {
        fill();
        for(int i = 0; i < 60; ++i)
            onepattern();
        clean();
        grow("", 0);
        for(int i = 0; i < 40; ++i)
            ++cases, parts();
        untree();
    }
    sample("%s", cur);
    finish();
}
