// Instantiations of the integer sorts.
#include <pystd2026.hpp>
#include <pystd2026_bucketsort.hpp>
#include <pystd2026_radixsort.hpp>
struct Pred {
    bool operator()(const uint8_t &) const noexcept;
    bool operator()(const uint16_t &) const noexcept;
    bool operator()(const uint32_t &) const noexcept;
    bool operator()(const uint64_t &) const noexcept;
};
#define INST(T)                                                                \
    template void pystd2026::insertion_sort<T *, T *>(T *, T *);               \
    template void pystd2026::radix_sort<T *>(T *, T *);                        \
    template T *pystd2026::partition<T *, Pred>(T *, T *, const Pred &);
INST(uint8_t)
INST(uint16_t)
INST(uint32_t)
INST(uint64_t)
