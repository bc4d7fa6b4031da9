// Contracts of File, its line iterator, load_bytes and MMapping (C32) over the contracts of the C library's files and of mmap,
// which the functions below state.
#include <pystd2026.hpp>
#include <stdio.h>
#include <sys/mman.h>
#include <errno.h>
#include "vp.hpp"
namespace P = pystd2026;
using P::Bytes;
extern "C" void vp_bytes_wf(void *);
extern "C" char vp_at(const char *p, uint64_t i); // p[i], any i
extern "C" bool vp_range_eq(const char *a, const char *b, uint64_t n);
// the one file of these contracts
static const char *data;
static uint64_t size, pos;
static bool at_eof, err, may_fail, no_file;
static uint64_t opens, closes;
static long handle;
// mappings
static uint64_t maps, unmaps;
static const void *mapped;
static uint64_t mapped_size;
extern "C" {
FILE *fopen(const char *, const char *) {
    if(no_file)
        return nullptr;
    vp_assert(opens == closes, "one handle at a time in these contracts");
    ++opens;
    pos = 0;
    at_eof = err = false;
    return (FILE *)&handle;
}
int fclose(FILE *f) {
    vp_assert((void *)f == &handle && opens == closes + 1, "an open handle is closed once");
    ++closes;
    return 0;
}
unsigned long fread(void *to, unsigned long one, unsigned long n, FILE *f) {
    vp_assert((void *)f == &handle && opens == closes + 1, "reads an open handle");
    vp_assume(one == 1);
    uint64_t k = n <= size - pos ? n : size - pos;
    if(may_fail && vp_bool()) {
        err = true;
        uint64_t part = vp_u64();
        vp_assume(part < n && part <= k);
        k = part;
    } else if(k < n)
        at_eof = true;
    if(n == 1) {
        if(k)
            *(char *)to = data[pos];
    } else
        __builtin_memcpy(to, data + pos, k);
    pos += k;
    return k;
}
int feof(FILE *f) noexcept {
    vp_assert((void *)f == &handle && opens == closes + 1, "asks an open handle");
    return at_eof;
}
int ferror(FILE *f) noexcept {
    vp_assert((void *)f == &handle && opens == closes + 1, "asks an open handle");
    return err;
}
int fseek(FILE *f, long off, int how) {
    vp_assert((void *)f == &handle && opens == closes + 1, "seeks an open handle");
    if(how == SEEK_END)
        pos = size;
    else
        pos = 0;
    vp_assume(off == 0);
    at_eof = false;
    return 0;
}
long ftell(FILE *f) {
    vp_assert((void *)f == &handle && opens == closes + 1, "asks an open handle");
    return pos;
}
int fileno(FILE *f) noexcept {
    vp_assert((void *)f == &handle && opens == closes + 1, "asks an open handle");
    return 7;
}
void *mmap(void *, unsigned long n, int prot, int, int fd, long off) noexcept {
    vp_assert(fd == 7 && off == 0 && opens == closes + 1, "maps the open file from its start");
    vp_assert(n == size && (prot & PROT_READ), "maps the whole file for reading");
    if(n == 0 || may_fail && vp_bool())
        return MAP_FAILED;
    ++maps;
    mapped = data;
    mapped_size = n;
    return (void *)data;
}
int munmap(void *p, unsigned long n) noexcept {
    vp_assert(p == mapped && n == mapped_size && maps == unmaps + 1, "exactly what was mapped is unmapped, once");
    ++unmaps;
    return 0;
}
void perror(const char *) {}
}
static void world() {
    size = vp_u64();
    data = vp_bytes(size);
    pos = opens = closes = maps = unmaps = 0;
    at_eof = err = no_file = may_fail = false;
}
// one line from any position
void spec_readline() {
    world();
    {
        P::File f("name", "rb");
        vp_assert(opens == 1, "opened");
        uint64_t p = vp_u64(), j = vp_u64();
        vp_assume(p <= size);
        vp_assume(j < size);
        pos = p;
        Bytes l = f.readline_bytes();
        vp_bytes_wf(&l);
        vp_assert(pos == p + l.size(), "the bytes of a line are consumed");
        uint64_t n = l.size();
        vp_assert(vp_range_eq(l.data(), data + p, n), "the line consists of the next bytes of the file");
        vp_assert(!(j + 1 < n) | (vp_at(l.data(), j) != '\n'), "a newline is the last byte of a line");
        vp_assert(((pos == size) & at_eof) | ((n > 0) & (vp_at(l.data(), n - 1) == '\n')), "only the end of the file ends a line without newline");
        vp_assert(at_eof == f.eof() && closes == 0, "the end is reported");
    }
    vp_assert(closes == 1, "closed once");
}
void spec_line_iterator() {
    world();
    P::File f("name", "rb");
    uint64_t p = vp_u64();
    vp_assume(p <= size);
    pos = p;
    at_eof = vp_bool();
    vp_assume(!at_eof || p == size);
    bool before = at_eof;
    auto it = f.begin();
    vp_assert((it != f.end()) == !before && pos == p, "the range ends at the end of the file");
    if(before)
        return;
    ++it;
    vp_assert(pos == p, "the next line is read when it is asked for");
    Bytes &&l = *it;
    vp_assert((pos == p + l.size()) & vp_range_eq(l.data(), data + p, l.size()), "a line is the next bytes of the file");
    uint64_t q = pos, n = l.size();
    Bytes &&m = *it;
    vp_assert((pos == q) & (m.size() == n), "asking twice reads nothing more");
}
void spec_line_iterator_next() {
    world();
    P::File f("name", "rb");
    auto it = f.begin();
    uint64_t q = vp_u64();
    vp_assume(q <= size);
    pos = q;
    it.is_up_to_date = true; // the line before q is there
    ++it;
    vp_assert(pos == q, "the next line is read when it is asked for");
    Bytes &&k = *it;
    vp_assert((pos == q + k.size()) & vp_range_eq(k.data(), data + q, k.size()), "the following line");
}
void spec_load_bytes() {
    world();
    no_file = vp_bool();
    may_fail = vp_bool();
    uint64_t j = vp_u64();
    {
        P::Path path("name");
        P::Optional<Bytes> b = path.load_bytes();
        vp_assert(opens == closes && opens == !no_file, "the file is closed");
        vp_assert((bool)b == (!no_file && !err), "what cannot be read is reported");
        if(b) {
            vp_bytes_wf(&*b);
            vp_assert(b->size() == size, "the whole file");
            vp_assert(vp_range_eq(b->data(), data, size), "the bytes of the file");
        }
    }
}
void spec_mmap_file() {
    world();
    no_file = vp_bool();
    may_fail = vp_bool();
    {
        P::Optional<P::MMapping> m = P::mmap_file("name");
        vp_assert(opens == closes && opens == !no_file, "the file is closed");
        vp_assert((bool)m == (maps == 1), "what could not be mapped is reported");
        vp_assert(unmaps == 0, "the mapping lives");
        if(m) {
            P::Span<const char> s = m->span();
            vp_assert(s.size() == size && &s[0] == data, "the whole file");
        }
    }
    vp_assert(unmaps == maps, "unmapped exactly once");
}
void spec_mmapping_moves() {
    world();
    vp_assume(size > 0);
    maps = 1;
    mapped = data;
    mapped_size = size;
    {
        P::MMapping a((void *)data, size), b;
        vp_assert(b.span().size() == 0, "nothing mapped");
        for(int i = 0; i < 3; ++i) {
            uint64_t k = vp_split(vp_u64() % 6, 6);
            P::MMapping &self = a;
            if(k == 1)
                a = P::move(b);
            else if(k == 2)
                b = P::move(a);
            else if(k == 3)
                a = P::move(self);
            else if(k == 4) {
                P::MMapping c(P::move(a));
                vp_assert(a.span().size() == 0, "a moved-from object holds nothing");
                a = P::move(c);
            } else if(k == 5)
                b = P::MMapping();
        }
        vp_assert(unmaps <= 1 && (unmaps == 1) == (a.span().size() == 0 && b.span().size() == 0), "the mapping lives as long as an object holds it");
    }
    vp_assert(unmaps == 1, "unmapped exactly once");
}
