// Contracts of hashing (C31).
#include <pystd2026.hpp>
#include "vp.hpp"
namespace P = pystd2026;
extern "C" void vp_bytesobj(void *);
extern "C" void vp_cstrobj(void *);
extern "C" uint64_t vp_bv64();
extern "C" uint64_t vp_fold(const char *b, uint64_t n, uint64_t start); // defined in specs/hash.py
// a hash algorithm that remembers how many bytes it was fed and the byte at one arbitrary position
struct Rec {
    uint64_t j = 0, total = 0;
    char at = 0;
    void feed_bytes(const char *b, size_t n) noexcept {
        if(j >= total && j - total < n)
            at = b[j - total];
        total += n;
    }
    size_t get_hash_value() const noexcept { return total; }
    void reset() noexcept { total = 0; }
};
typedef P::Hasher<Rec> H;
// after what was fed before (any number of bytes) exactly the n bytes at b are fed, in order
template<typename T> static void feeds(const T &x, const char *b, uint64_t n) {
    H h;
    uint64_t j = vp_u64();
    h.h.j = j;
    h.feed_hash(x);
    vp_assert(h.h.total == n, "as many bytes are hashed as the value has");
    if(j < n)
        vp_assert(h.h.at == b[j], "each byte of the value is hashed, in order");
}
void spec_hash_bytes() {
    P::Bytes x;
    vp_bytesobj(&x);
    feeds(x, x.data(), x.size());
}
void spec_hash_view() {
    uint64_t n = vp_u64();
    const char *b = vp_bytes(n);
    feeds(P::CStringView(b, n), b, n);
}
void spec_hash_cstring() {
    P::CString x;
    vp_cstrobj(&x.bytes);
    feeds(x, x.data(), x.size());
}
void spec_hash_zview() {
    uint64_t n = vp_u64();
    const char *b = vp_cstr(n);
    P::ZStringView x(b);
    feeds(x, b, n);
}
void spec_hash_u8string() {
    P::U8String x;
    vp_cstrobj(&x.cstring.bytes);
    feeds(x, x.cstring.data(), x.size_bytes());
}
void spec_hash_u8view() {
    uint64_t n = vp_u64();
    const char *b = vp_bytes(n);
    P::U8StringView x;
    x.start.buf = (const unsigned char *)b;
    x.stop.buf = (const unsigned char *)b + n;
    feeds(x, b, n);
}
template<typename T> static void integer(T v) {
    H h;
    uint64_t j = vp_split(vp_u64() % sizeof(T), sizeof(T));
    h.h.j = j;
    h.feed_hash(v);
    vp_assert(h.h.total == sizeof(T), "an integer is hashed with its declared size");
    vp_assert((uint8_t)h.h.at == (uint8_t)((uint64_t)v >> (8 * j)), "each byte of the integer is hashed");
}
void spec_hash_u8() { integer<uint8_t>(vp_u8()); }
void spec_hash_u16() { integer<uint16_t>(vp_u16()); }
void spec_hash_u32() { integer<uint32_t>(vp_u32()); }
void spec_hash_u64() { integer<uint64_t>(vp_u64()); }
void spec_hash_i8() { integer<int8_t>((int8_t)vp_u8()); }
void spec_hash_i16() { integer<int16_t>((int16_t)vp_u16()); }
void spec_hash_i32() { integer<int32_t>((int32_t)vp_u32()); }
void spec_hash_i64() { integer<int64_t>((int64_t)vp_u64()); }
// two values of different history but equal contents: by the contracts above the same bytes are fed; this is what is done with them
void spec_hash_simple() {
    uint64_t n = vp_u64(), s = vp_bv64();
    const char *b = vp_bytes(n);
    P::SimpleHash h;
    vp_assert(h.get_hash_value() == 0, "starts at 0");
    h.value = s;
    uint64_t e = vp_fold(b, n, s);
    h.feed_bytes(b, n);
    vp_assert(h.get_hash_value() == e, "a function of the previous value and of exactly the fed bytes");
}
void spec_hash_simple_through_hasher() {
    uint64_t n = vp_u64(), s = vp_bv64();
    const char *b = vp_bytes(n);
    P::Hasher<> h;
    vp_assert(h.get_hash_value() == 0, "starts at 0");
    h.h.value = s;
    uint64_t e = vp_fold(b, n, s);
    h.feed_bytes(b, n);
    vp_assert(h.get_hash_value() == e, "the algorithm's value");
    h.reset();
    vp_assert(h.get_hash_value() == 0, "reset");
}
