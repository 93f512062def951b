// A06 at run time: shifts, bit_cast, to_underlying. Oracle: 128-bit arithmetic and byte comparison.
#include <cmath>

#include "pbt.hpp"
#include <utils/common.h>
using namespace pbt;
typedef __int128 i128;

namespace
{
template <typename T>
void shifts(Ctx &c, const char *name)
{
    constexpr unsigned w = sizeof(T) * 8;
    T v = (T)c.bits(w);
    const unsigned s = (unsigned)c.below(w);
    const bool left = c.chance(50);
    c.trace("%s: 0x%llx %s %u", name, (unsigned long long)v, left ? "<<" : ">>", s);
    c.label(name);
    c.nontrivial(v > 1 && s > 0);
    const T keep = v;
    auto trunc = [](i128 x)
    {
        unsigned __int128 m = (unsigned __int128)x & ((((unsigned __int128)1) << w) - 1);
        if (std::is_signed_v<T> && (m >> (w - 1))) return (T)((i128)m - ((i128)1 << w));
        return (T)m;
    };
    if (left)
    {
        // for signed types only what C++17 defines: non-negative, and fitting the unsigned promoted type
        using P = decltype(+v);
        if (std::is_signed_v<P> && v < 0) return;
        i128 m = (i128)((unsigned __int128)v << s);
        if (std::is_signed_v<P> && m > (i128)std::numeric_limits<std::make_unsigned_t<P>>::max()) return;
        T want = trunc(m);
        T got = utils::shift_left(v, s), got2 = utils::shift_left(T(v), s), got3 = utils::shift_left(keep, s);
        PBT_CHECK(c, got == want && got2 == want && got3 == want, "0x%llx << %u (%s) gives 0x%llx, expected 0x%llx",
                  (unsigned long long)v, s, name, (unsigned long long)got, (unsigned long long)want);
    }
    else
    {
        i128 m = v;
        i128 q = m >> s;  // arithmetic shift: floor division
        T want = trunc(q);
        T got = utils::shift_right(v, s), got2 = utils::shift_right(T(v), s), got3 = utils::shift_right(keep, s);
        PBT_CHECK(c, got == want && got2 == want && got3 == want, "0x%llx >> %u (%s) gives 0x%llx, expected 0x%llx",
                  (unsigned long long)v, s, name, (unsigned long long)got, (unsigned long long)want);
    }
    PBT_CHECK(c, v == keep, "the shifted object changed");
    static_assert(std::is_same_v<utils::remove_cvref_t<decltype(utils::shift_left(v, 1))>, T>, "type of a shift");
    static_assert(std::is_same_v<utils::remove_cvref_t<decltype(utils::shift_right(keep, 1))>, T>, "type of a shift");
}
struct S4
{
    std::uint8_t a, b;
    std::uint16_t d;
};
struct S8
{
    std::uint32_t a;
    std::uint16_t b;
    std::uint8_t d[2];
};
struct S13
{
    char x[13];
};
struct T13
{
    unsigned char y[13];
};
struct alignas(16) S16
{
    unsigned char y[16];
};
struct S1000
{
    unsigned char y[1000];
};
struct T1000
{
    std::uint64_t y[125];
};
struct S65
{
    char y[65];
};
enum class E4 : std::int32_t
{
};
template <typename To, typename From>
void cast(Ctx &c, const char *name)
{
    static unsigned char raw[sizeof(From)];
    if (sizeof raw <= 1000)
        for (auto &b : raw) b = (unsigned char)c.below(256);
    else
    {
        std::uint64_t x = c.bits(64) | 1;
        for (auto &b : raw) b = (unsigned char)((x = x * 6364136223846793005u + 1442695040888963407u) >> 56);
    }
    From f;
    std::memcpy(&f, raw, sizeof f);
    c.trace("bit_cast %s", name);
    c.label(name);
    c.nontrivial();
    To t = utils::bit_cast<To>(f);
    PBT_CHECK(c, std::memcmp(&t, raw, sizeof t) == 0, "bit_cast %s changed a byte", name);
    PBT_CHECK(c, std::memcmp(&f, raw, sizeof f) == 0, "bit_cast %s changed its source", name);
    From g = utils::bit_cast<From>(t);
    PBT_CHECK(c, std::memcmp(&g, raw, sizeof g) == 0, "bit_cast %s and back is not the identity", name);
}
template <typename U>
void underlying(Ctx &c, const char *name)
{
    enum class E : U
    {
    };
    U v = (U)c.bits(sizeof(U) * 8);
    c.trace("enumerator %s 0x%llx", name, (unsigned long long)v);
    c.nontrivial(v > 1);
    auto g = utils::to_underlying(static_cast<E>(v));
    static_assert(std::is_same_v<decltype(g), U>, "type of to_underlying");
    PBT_CHECK(c, g == v, "to_underlying of %s 0x%llx is 0x%llx", name, (unsigned long long)v, (unsigned long long)g);
}
}  // namespace
#define EACH(F)                                                                                                      \
    switch (c.below(13))                                                                                             \
    {                                                                                                                \
        case 0: return F<signed char>(c, "signed char");                                                            \
        case 1: return F<unsigned char>(c, "unsigned char");                                                        \
        case 2: return F<char>(c, "char");                                                                          \
        case 3: return F<short>(c, "short");                                                                        \
        case 4: return F<unsigned short>(c, "unsigned short");                                                      \
        case 5: return F<int>(c, "int");                                                                            \
        case 6: return F<unsigned>(c, "unsigned");                                                                  \
        case 7: return F<long>(c, "long");                                                                          \
        case 8: return F<unsigned long>(c, "unsigned long");                                                        \
        case 9: return F<long long>(c, "long long");                                                                \
        case 10: return F<unsigned long long>(c, "unsigned long long");                                             \
        case 11: return F<char16_t>(c, "char16_t");                                                                 \
        default: return F<wchar_t>(c, "wchar_t");                                                                   \
    }
PBT_TARGET(shift, 3000000, 200000000, "one shift of one value; non-trivial: value above 1 shifted by at least 1")
{
    EACH(shifts)
}
PBT_TARGET(reinterpret, 500000, 30000000, "one reinterpretation of random bytes; every case is non-trivial")
{
    if (c.below(200) == 199) return cast<std::array<char, 5000>, std::array<std::uint64_t, 625>>(c, "arrays of 5000 bytes");
    if (c.below(1000) == 999) return cast<std::array<std::uint16_t, 70000>, std::array<char, 140000>>(c, "arrays of 140000 bytes");
    switch (c.below(15))
    {
        case 0: return cast<float, std::uint32_t>(c, "uint32 -> float");
        case 1: return cast<std::uint32_t, float>(c, "float -> uint32");
        case 2: return cast<double, std::uint64_t>(c, "uint64 -> double");
        case 3: return cast<std::int64_t, double>(c, "double -> int64");
        case 4: return cast<S4, std::int32_t>(c, "int32 -> struct");
        case 5: return cast<S8, double>(c, "double -> struct");
        case 6: return cast<T13, S13>(c, "13 byte structs");
        case 7: return cast<S16, std::array<std::uint32_t, 4>>(c, "array -> aligned struct");
        case 8: return cast<E4, float>(c, "float -> enum");
        case 9: return cast<void *, std::uint64_t>(c, "uint64 -> pointer");
        case 12: return cast<T1000, S1000>(c, "1000 byte structs");
        case 13: return cast<std::array<char, 65>, S65>(c, "struct of 65 bytes -> array");
        case 14: return cast<std::array<std::uint16_t, 12>, std::array<std::uint64_t, 3>>(c, "arrays of 24 bytes");
        case 10: return cast<std::array<std::uint8_t, 8>, S8>(c, "struct -> array");
        default: return cast<std::int8_t, std::uint8_t>(c, "uint8 -> int8");
    }
}
PBT_TARGET(enumerators, 300000, 10000000, "one enumerator of one underlying type; non-trivial: above 1")
{
    EACH(underlying)
}
PBT_MAIN
