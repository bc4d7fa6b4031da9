// Instantiations of the non-sorting range algorithms with opaque elements.
#include <pystd2026.hpp>
#include <pystd2026_heapsort.hpp>
#include <pystd2026_introsort.hpp>
#include <pystd2026_nth_element.hpp>
#include <pystd2026_partial_sort.hpp>
#include <pystd2026_radixsort.hpp>
#include <pystd2026_rotate.hpp>
#include <pystd2026_stablepartition.hpp>
struct Elem {
    uint64_t a, b, c;
    Elem() noexcept;
    Elem(const Elem &);
    Elem(Elem &&) noexcept;
    ~Elem();
    Elem &operator=(const Elem &);
    Elem &operator=(Elem &&) noexcept;
    bool operator==(const Elem &) const noexcept;
};
struct Cmp {
    int compare(const Elem &, const Elem &) const noexcept;
    bool equal(const Elem &, const Elem &) const noexcept;
};
struct CmpI {
    int compare(const uint64_t &, const uint64_t &) const noexcept;
    bool equal(const uint64_t &, const uint64_t &) const noexcept;
};
struct Pred {
    bool operator()(const Elem &) const noexcept;
    bool operator()(const uint64_t &) const noexcept;
};
#define INST(T, C)                                                                                     \
    template T *pystd2026::lower_bound<T *, T, C>(T *, T *, const T &, const C &);                      \
    template T *pystd2026::find_if<T *, Pred>(T *, T *, const Pred &);                                  \
    template T *pystd2026::find_if_not<T *, Pred>(T *, T *, const Pred &);                              \
    template bool pystd2026::is_sorted<T *, T *, C>(T *, T *, const C &);                               \
    template T *pystd2026::min_element<T *, T *, C>(T *, T *, const C &) noexcept;                      \
    template T *pystd2026::max_element<T *, T *, C>(T *, T *, const C &) noexcept;                      \
    template void pystd2026::rotate_first_to_back<T *>(T *, T *);                                      \
    template void pystd2026::rotate_last_to_front<T *>(T *, T *);                                      \
    template T *pystd2026::partition<T *, Pred>(T *, T *, const Pred &);                               \
    template T *pystd2026::stable_partition<T *, Pred>(T *, T *, const Pred &);                        \
    template T *pystd2026::rotate<T *>(T *, T *, T *);                                                 \
    template T *pystd2026::nth_element<T *, C>(T *, T *, size_t, const C &);                           \
    template T *pystd2026::partial_sort<T *, C>(T *, T *, size_t, const C &);
INST(Elem, Cmp)
INST(uint64_t, CmpI)
template Elem *pystd2026::find<Elem *, Elem *, Elem>(Elem *, Elem *, const Elem);
template uint64_t *pystd2026::find<uint64_t *, uint64_t *, uint64_t>(uint64_t *, uint64_t *, const uint64_t);
template void pystd2026::radix_sort<uint64_t *>(uint64_t *, uint64_t *);
template void pystd2026::radix_sort<uint32_t *>(uint32_t *, uint32_t *);
template Elem *pystd2026::find_if<Elem *, Elem *, Pred>(Elem *, Elem *, const Pred);
template uint64_t *pystd2026::find_if<uint64_t *, uint64_t *, Pred>(uint64_t *, uint64_t *, const Pred);
// overloads without a comparator and on spans
using u64 = uint64_t;
#define OV extern "C++" __attribute__((noinline)) 
OV u64 *ov_lower(u64 *b, u64 *e, const u64 &v) { return pystd2026::lower_bound(b, e, v); }
OV u64 *ov_min(u64 *b, u64 *e) { return pystd2026::min_element(b, e); }
OV u64 *ov_nth(u64 *b, u64 *e, size_t n) { return pystd2026::nth_element(b, e, n); }
OV u64 *ov_nth_span(u64 *b, u64 *e, size_t n, const CmpI &c) { return b + pystd2026::nth_element(pystd2026::Span<u64>(b, e - b), n, c); }
OV u64 *ov_partial(u64 *b, u64 *e, size_t n) { return pystd2026::partial_sort(b, e, n); }
OV u64 *ov_partition_span(u64 *b, u64 *e, const Pred &p) { return b + pystd2026::partition(pystd2026::Span<u64>(b, e - b), p); }
OV u64 *ov_rotate_span(u64 *b, u64 *m, u64 *e) { return pystd2026::rotate(pystd2026::Span<u64>(b, e - b), m - b); }
