// A03 at run time: occupied bits and the population table. Oracle: the definitions, bit by bit.
#include "pbt.hpp"
#include <utils/common.h>
using namespace pbt;

namespace
{
template <typename T>
void occupied(Ctx &c, T v, const char *name)
{
    unsigned want = 0;
    for (unsigned i = 0; i < sizeof(T) * 8; ++i)
        if ((v >> i) & 1) want = i + 1;
    c.label(name);
    std::size_t got = utils::nbits_occupied(v);
    PBT_CHECK(c, got == want, "nbits_occupied(%s 0x%llx) = %zu, expected %u", name, (unsigned long long)v, got, want);
    const T cv = v;
    PBT_CHECK(c, utils::nbits_occupied(cv) == want && utils::nbits_occupied(T(v)) == want,
              "nbits_occupied of a constant or temporary %s 0x%llx", name, (unsigned long long)v);
    PBT_CHECK(c, v == cv, "nbits_occupied changed its argument");
    PBT_CHECK(c, utils::bits_count(v) == want, "bits_count(0x%llx) = %u, expected %u", (unsigned long long)v,
              utils::bits_count(v), want);
}
template <typename T>
void one(Ctx &c, const char *name)
{
    T v = (T)c.bits(sizeof(T) * 8);
    c.trace("%s 0x%llx", name, (unsigned long long)v);
    c.nontrivial(v > 1);
    occupied<T>(c, v, name);
}
}  // namespace
PBT_TARGET(occupied_bits, 2000000, 100000000, "one value of one unsigned type; non-trivial: above 1")
{
    switch (c.below(7))
    {
        case 0: return one<unsigned char>(c, "unsigned char");
        case 1: return one<unsigned short>(c, "unsigned short");
        case 2: return one<unsigned>(c, "unsigned");
        case 3: return one<unsigned long>(c, "unsigned long");
        case 4: return one<unsigned long long>(c, "unsigned long long");
        case 5: return one<char16_t>(c, "char16_t");
        default: return one<char32_t>(c, "char32_t");
    }
}
PBT_TARGET_NOFUZZ(tables, 1, 1, "every byte of the population table, every 8 and 16 bit value")
{
    c.nontrivial();
    c.trace("all bytes, all 16-bit values");
    PBT_CHECK(c, utils::kNumBitsTable.size() == 256, "the table has %zu entries", utils::kNumBitsTable.size());
    for (unsigned v = 0; v < 256; ++v)
    {
        unsigned n = 0;
        for (int i = 0; i < 8; ++i) n += (v >> i) & 1;
        PBT_CHECK(c, utils::kNumBitsTable[v] == n, "kNumBitsTable[%u] = %u", v, utils::kNumBitsTable[v]);
        occupied<unsigned char>(c, (unsigned char)v, "unsigned char");
    }
    for (unsigned v = 0; v < 65536; ++v) occupied<unsigned short>(c, (unsigned short)v, "unsigned short");
}
PBT_MAIN
