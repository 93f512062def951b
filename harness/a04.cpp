// A04: div and div_as over all pairs of integer types. Oracle: 128-bit division of the converted operands.
#include "pbt.hpp"
#include <utils/type_list.h>
#include <utils/common.h>
using namespace pbt;
typedef __int128 i128;

namespace
{
template <typename T>
struct Name;
#define N(T)                            \
    template <>                         \
    struct Name<T>                      \
    {                                   \
        static constexpr auto s = #T;   \
    };
N(bool) N(char) N(signed char) N(unsigned char) N(short) N(unsigned short) N(int) N(unsigned) N(long) N(unsigned long)
N(long long) N(unsigned long long) N(char16_t) N(char32_t) N(wchar_t)
#undef N
template <typename... T>
struct L
{
};
using All = L<bool, char, signed char, unsigned char, short, unsigned short, int, unsigned, long, unsigned long, long long,
              unsigned long long, char16_t, char32_t, wchar_t>;
template <typename T>
T value(u64 raw)
{
    if constexpr (std::is_same_v<T, bool>)
        return raw & 1;
    else
        return (T)raw;
}
std::string str(i128 v)
{
    if (v < 0) return "-" + fmt("%llu", (unsigned long long)-v);
    return fmt("%llu", (unsigned long long)v);
}
struct Op
{
    const char *t, *u, *r;
    i128 n, d, cn, cd, lo, hi;                           // operands, converted operands, range of the result type
    void (*run)(u64, u64, i128 &quot, i128 &rem);
};
__attribute__((noinline)) void judge(Ctx &c, const char *what, const Op &o, u64 a, u64 b)
{
    c.trace("%s<%s>(%s %s, %s %s)", what, o.r, o.t, str(o.n).c_str(), o.u, str(o.d).c_str());
    if (o.d == 0) return;
    if (o.cd == 0) return c.label("divisor converts to zero: skipped");
    i128 q = o.cn / o.cd, r = o.cn % o.cd;
    // MIN / -1 of the common type overflows in the type the division is done in, too
    if (q < o.lo || q > o.hi) return c.label("quotient not representable: skipped");
    c.nontrivial(o.cn != 0 && o.cd != 1 && o.cn != o.cd);
    c.label("negative operand", o.cn < 0 || o.cd < 0);
    i128 gq, gr;
    o.run(a, b, gq, gr);
    PBT_CHECK(c, gq == q && gr == r, "%s: %s / %s gives %s rem %s, expected %s rem %s", what, str(o.cn).c_str(),
              str(o.cd).c_str(), str(gq).c_str(), str(gr).c_str(), str(q).c_str(), str(r).c_str());
    PBT_CHECK(c, gq * o.cd + gr == o.cn, "%s: quotient * divisor + remainder is not the dividend", what);
}
template <typename R, typename T, typename U>
Op op(u64 a, u64 b)
{
    const T n = value<T>(a);
    const U d = value<U>(b);
    return {Name<T>::s, Name<U>::s, "", n, d, (R)n, (R)d, std::numeric_limits<R>::min(), std::numeric_limits<R>::max(),
            nullptr};
}
template <typename T, typename U>
void pair(Ctx &c, u64 a, u64 b)
{
    using C = std::common_type_t<T, U>;
    Op o = op<C, T, U>(a, b);
    o.r = "";
    o.run = [](u64 x, u64 y, i128 &q, i128 &r)
    {
        auto g = utils::div(value<T>(x), value<U>(y));
        static_assert(std::is_same_v<decltype(g), utils::div_t<C>>, "type of the result");
        q = g.quot, r = g.rem;
    };
    judge(c, "div", o, a, b);
}
template <typename R, typename T, typename U>
void as(Ctx &c, u64 a, u64 b)
{
    Op o = op<R, T, U>(a, b);
    o.r = Name<R>::s;
    o.run = [](u64 x, u64 y, i128 &q, i128 &r)
    {
        auto g = utils::div_as<R>(value<T>(x), value<U>(y));
        static_assert(std::is_same_v<decltype(g), utils::div_t<R>>, "type of the result");
        q = g.quot, r = g.rem;
    };
    judge(c, "div_as", o, a, b);
}
using Fn = void (*)(Ctx &, u64, u64);
template <typename T>
struct Id
{
    using type = T;
};
template <typename... T, typename... U>
std::vector<Fn> all_pairs(L<T...>, L<U...> us)
{
    std::vector<Fn> v;
    auto row = [&](auto t, auto... u)
    { (v.push_back(&pair<typename decltype(t)::type, typename decltype(u)::type>), ...); };
    (row(Id<T>{}, Id<U>{}...), ...);
    (void)us;
    return v;
}
template <typename... R, typename... T>
std::vector<Fn> all_as(L<R...>, L<T...>)
{
    std::vector<Fn> v;
    auto row = [&](auto r, auto... t)
    {
        using RR = typename decltype(r)::type;
        (v.push_back(&as<RR, typename decltype(t)::type, typename decltype(t)::type>), ...);
        (v.push_back(&as<RR, typename decltype(t)::type, signed char>), ...);
        (v.push_back(&as<RR, unsigned short, typename decltype(t)::type>), ...);
        (v.push_back(&as<RR, typename decltype(t)::type, long>), ...);
        (v.push_back(&as<RR, unsigned long long, typename decltype(t)::type>), ...);
    };
    (row(Id<R>{}, Id<T>{}...), ...);
    return v;
}
u64 operand(Ctx &c)
{
    unsigned w = c.pick({8u, 16u, 32u, 64u});
    u64 v = c.bits(w);
    switch (c.below(4))
    {
        case 0: return v;
        case 1: return 0 - v;
        case 2: return (1ull << (w - 1)) + c.below(5) - 2;         // around MIN of that width
        default: return (0 - (1ull << (w - 1))) + c.below(5) - 2;  // sign extended
    }
}
}  // namespace

PBT_TARGET(division, 3000000, 200000000,
           "one division of one pair of types (225 pairs; div_as to each of 15 types); non-trivial: dividend not 0, "
           "divisor neither 1 nor the dividend")
{
    static const std::vector<Fn> ps = all_pairs(All{}, All{}), as = all_as(All{}, All{});
    const Fn f = c.chance(35) ? as[c.below(as.size())] : ps[c.below(ps.size())];
    u64 a = operand(c), b = operand(c);
    if (c.chance(20)) a = b * c.below(9) + c.below(3) - 1;
    f(c, a, b);
}
PBT_MAIN
