// Vocabulary of the specification functions: every spec_* function states a contract of library code:
// arbitrary values, assumed preconditions, the call on the real code, asserted postconditions.
#pragma once
#include <stdint.h>
#include <stddef.h>
struct Elem {
    uint64_t a, b, c;
    Elem() noexcept;
    explicit Elem(int) noexcept;
    Elem(const Elem &) noexcept;
    Elem(Elem &&) noexcept;
    ~Elem();
    Elem &operator=(const Elem &) noexcept;
    Elem &operator=(Elem &&) noexcept;
    bool operator==(const Elem &) const noexcept;
    bool operator<(const Elem &) const noexcept;
};
struct Other {
    uint64_t a, b;
    Other() noexcept;
    explicit Other(int) noexcept;
    Other(const Other &) noexcept;
    Other(Other &&) noexcept;
    ~Other();
    Other &operator=(const Other &) noexcept;
    Other &operator=(Other &&) noexcept;
    bool operator==(const Other &) const noexcept;
};
extern "C" {
uint8_t vp_u8();
uint16_t vp_u16();
uint32_t vp_u32();
uint64_t vp_u64();
int32_t vp_i32();
int64_t vp_i64();
bool vp_bool();
float vp_f32();
double vp_f64();
char vp_char();
void vp_assume(bool);
void vp_assert(bool, const char *);
// from here on aborting is right exactly when the condition holds
void vp_aborts_if(bool);
// from here on an exception may leave the function
void vp_may_throw(bool);
// fork on the value of x: 0..n-1 (x < n must hold)
uint64_t vp_split(uint64_t x, uint64_t n);
// an array of n arbitrary live elements / arbitrary bytes / integers, of exactly that size
void *vp_elems(uint64_t n);
char *vp_bytes(uint64_t n);
uint32_t *vp_u32s(uint64_t n);
uint64_t *vp_u64s(uint64_t n);
// a C string: n bytes without NUL, then a NUL
const char *vp_cstr(uint64_t n);
void vp_ghost(const char *name, uint64_t v);
void vp_ghostp(const char *name, const void *v);
}
uint64_t vp_val(const Elem &);
uint64_t vp_val(const Other &);
bool vp_moved(const Elem &);
bool vp_moved(const Other &);
Elem vp_elem();
Other vp_other();
extern "C" uint64_t vp_default_elem();
