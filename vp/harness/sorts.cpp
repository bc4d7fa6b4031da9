// Instantiations of the sorting templates with an opaque element type: the element operations and the comparator are
// external, so what is proved holds for every element type and comparator obeying the stated laws.
#include <pystd2026.hpp>
#include <pystd2026_heapsort.hpp>
#include <pystd2026_introsort.hpp>
#include <pystd2026_mergesort.hpp>
#include <pystd2026_shellsort.hpp>
struct Elem {
    uint64_t a, b, c;
    Elem() noexcept;
    Elem(const Elem &);
    Elem(Elem &&) noexcept;
    ~Elem();
    Elem &operator=(const Elem &);
    Elem &operator=(Elem &&) noexcept;
    bool operator==(const Elem &) const noexcept;
    bool operator>(const Elem &) const noexcept;
};
struct Cmp {
    int compare(const Elem &, const Elem &) const noexcept;
    bool equal(const Elem &, const Elem &) const noexcept;
};
struct CmpI {
    int compare(const uint64_t &, const uint64_t &) const noexcept;
    bool equal(const uint64_t &, const uint64_t &) const noexcept;
};
#define INST(T, C)                                                                  \
    template void pystd2026::insertion_sort<T *, T *, C>(T *, T *, const C &);      \
    template void pystd2026::heapsort<T *, C>(T *, T *, const C &);                 \
    template void pystd2026::introsort<T *, C>(T *, T *, const C &);                \
    template void pystd2026::mergesort<T *, C>(T *, T *, const C &);                \
    template void pystd2026::shell_sort<T *, C>(T *, T *, const C &);
INST(Elem, Cmp)
INST(uint64_t, CmpI)
struct Pred {
    bool operator()(const Elem &) const noexcept;
    bool operator()(const uint64_t &) const noexcept;
};
template Elem *pystd2026::partition<Elem *, Pred>(Elem *, Elem *, const Pred &);
template uint64_t *pystd2026::partition<uint64_t *, Pred>(uint64_t *, uint64_t *, const Pred &);
// overloads without a comparator and on spans
using u64 = uint64_t;
#define OV extern "C++" __attribute__((noinline)) 
OV void ov_insertion(u64 *b, u64 *e) { pystd2026::insertion_sort(b, e); }
OV void ov_heapsort(u64 *b, u64 *e) { pystd2026::heapsort(b, e); }
OV void ov_introsort(u64 *b, u64 *e) { pystd2026::introsort(b, e); }
OV void ov_insertion_span(u64 *b, u64 *e) { pystd2026::insertion_sort(pystd2026::Span<u64>(b, e - b)); }
OV void ov_heapsort_span(u64 *b, u64 *e) { pystd2026::heapsort(pystd2026::Span<u64>(b, e - b)); }
OV void ov_introsort_span(u64 *b, u64 *e) { pystd2026::introsort(pystd2026::Span<u64>(b, e - b)); }
OV void ov_shell(u64 *b, u64 *e) { pystd2026::shell_sort(b, e); }
