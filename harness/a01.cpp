// A01: clz / ctz for every unsigned type. Oracle: a scan over the bits of the value, most significant first.
#include "pbt.hpp"
#include <utils/clz.h>
#include <utils/ctz.h>
using namespace pbt;

// The portable variants are looked up so that the harness also compiles without them.
namespace utils::details
{
}
struct none
{
};
namespace without
{
none crafted_clz(...);
none crafted_ctz(...);
}  // namespace without
namespace portable
{
// both directives make names visible at the same (global) level, so that overload resolution prefers a real variant
using namespace utils::details;
using namespace without;
template <typename T>
auto lead(T v) -> decltype(crafted_clz(v))
{
    return crafted_clz(v);
}
template <typename T>
auto trail(T v) -> decltype(crafted_ctz(v))
{
    return crafted_ctz(v);
}
}  // namespace portable

namespace
{
template <typename T>
void check(Ctx &c, T v)
{
    constexpr int w = sizeof(T) * 8;
    int lead = 0, trail = 0;
    while (!((v >> (w - 1 - lead)) & 1)) ++lead;
    while (!((v >> trail) & 1)) ++trail;
    const auto got_l = utils::clz(v);
    const auto got_t = utils::ctz(v);
    PBT_CHECK(c, (long long)got_l == lead, "clz of %d-bit 0x%llx is %lld, expected %d", w, (unsigned long long)v,
              (long long)got_l, lead);
    PBT_CHECK(c, (long long)got_t == trail, "ctz of %d-bit 0x%llx is %lld, expected %d", w, (unsigned long long)v,
              (long long)got_t, trail);
    if constexpr (!std::is_same_v<decltype(portable::lead(v)), none>)
    {
        const auto g = portable::lead(v);
        PBT_CHECK(c, (long long)g == lead, "portable clz of %d-bit 0x%llx is %lld, expected %d", w,
                  (unsigned long long)v, (long long)g, lead);
    }
    if constexpr (!std::is_same_v<decltype(portable::trail(v)), none>)
    {
        const auto g = portable::trail(v);
        PBT_CHECK(c, (long long)g == trail, "portable ctz of %d-bit 0x%llx is %lld, expected %d", w,
                  (unsigned long long)v, (long long)g, trail);
    }
    if constexpr (std::is_same_v<T, unsigned>)
        PBT_CHECK(c, utils::clz_ui(v) == lead && utils::ctz_ui(v) == trail, "clz_ui/ctz_ui of 0x%x give %lld/%lld", v,
                  (long long)utils::clz_ui(v), (long long)utils::ctz_ui(v));
    if constexpr (std::is_same_v<T, unsigned long>)
        PBT_CHECK(c, (long long)utils::clz_ul(v) == lead && (long long)utils::ctz_ul(v) == trail,
                  "clz_ul/ctz_ul of 0x%lx give %lld/%lld", v, (long long)utils::clz_ul(v), (long long)utils::ctz_ul(v));
    if constexpr (std::is_same_v<T, unsigned long long>)
        PBT_CHECK(c, (long long)utils::clz_ull(v) == lead && (long long)utils::ctz_ull(v) == trail,
                  "clz_ull/ctz_ull of 0x%llx give %lld/%lld", v, (long long)utils::clz_ull(v),
                  (long long)utils::ctz_ull(v));
}
template <typename T>
void all(Ctx &c)
{
    for (unsigned v = 1; v <= std::numeric_limits<T>::max(); ++v) check<T>(c, (T)v);
}
template <typename T>
void one(Ctx &c, const char *name)
{
    T v = (T)c.bits(sizeof(T) * 8);
    if (!v) v = (T)1 << c.below(sizeof(T) * 8);
    c.trace("%s 0x%llx", name, (unsigned long long)v);
    c.label(name);
    c.nontrivial((v & (v - 1)) != 0);
    check<T>(c, v);
}
}  // namespace

PBT_TARGET_NOFUZZ(every_small_value, 1, 1, "every value of the 8 and 16 bit unsigned types, exhaustively")
{
    all<unsigned char>(c);
    all<unsigned short>(c);
    all<char16_t>(c);
    c.trace("all of unsigned char, unsigned short, char16_t");
    c.nontrivial();
}

PBT_TARGET(values, 3000000, 200000000, "one value of one unsigned type; non-trivial: more than one bit set")
{
    switch (c.below(7))
    {
        case 0: return one<unsigned char>(c, "unsigned char");
        case 1: return one<unsigned short>(c, "unsigned short");
        case 2: return one<unsigned>(c, "unsigned");
        case 3: return one<unsigned long>(c, "unsigned long");
        case 4: return one<unsigned long long>(c, "unsigned long long");
        case 5: return one<char16_t>(c, "char16_t");
        default: return one<char32_t>(c, "char32_t");
    }
}
PBT_MAIN
