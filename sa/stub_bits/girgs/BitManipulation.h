// analysis stand-in: the Morton code as an uninterpreted pair of functions (its implementation is decided by C11)
#pragma once
#include <array>
#include <cstdint>
#include <string>
#define BitManipulation VhRealBitManipulation
#include_next <girgs/BitManipulation.h>
#undef BitManipulation
extern "C" uint32_t vh_pure_extract(uint32_t cell, uint32_t dim);
extern "C" uint32_t vh_pure_deposit(uint32_t c0, uint32_t c1, uint32_t c2, uint32_t c3, uint32_t c4);
namespace girgs {
template <unsigned D>
struct BitManipulation {
    static constexpr unsigned kDimensions = D;
    static std::array<uint32_t, D> extract(uint32_t cell) noexcept {
        std::array<uint32_t, D> r;
        for (unsigned d = 0; d < D; ++d) r[d] = vh_pure_extract(cell, d);
        return r;
    }
    static uint32_t deposit(const std::array<uint32_t, D>& c) noexcept {
        return vh_pure_deposit(c[0], D > 1 ? c[D > 1 ? 1 : 0] : 0, D > 2 ? c[D > 2 ? 2 : 0] : 0, D > 3 ? c[D > 3 ? 3 : 0] : 0, D > 4 ? c[D > 4 ? 4 : 0] : 0);
    }
    static std::string name() { return ""; }
};
}
