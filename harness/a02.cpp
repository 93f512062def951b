// A02: alignment and power-of-two arithmetic. Oracle: the definitions, in 128-bit arithmetic.
#include "pbt.hpp"
#include <utils/common.h>
#include <utils/memory/memory.h>
using namespace pbt;
typedef unsigned __int128 u128;
typedef __int128 i128;

namespace
{
u64 gen_addr(Ctx &c)
{
    u64 v = c.bits(64);
    if (c.chance(40))
    {  // near a multiple of a power of two
        unsigned k = (unsigned)c.below(64);
        v = (v >> k << k) + c.below(5) - 2;
    }
    return v;
}
template <std::size_t A>
struct alignas(A) Al
{
    char x;
};
template <std::size_t A>
void typed(Ctx &c, u64 p)
{
    const void *q = reinterpret_cast<const void *>(p);
    u128 want = (A - p % A) % A;
    if ((u128)p + want <= ~0ull)
    {
        u64 got = utils::skip_to_align<Al<A>>(q);
        PBT_CHECK(c, got == want, "skip_to_align<type of alignment %zu>(0x%llx) = 0x%llx", A, (unsigned long long)p,
                  (unsigned long long)got);
    }
    PBT_CHECK(c, utils::is_aligned<Al<A>>(q) == (p % A == 0), "is_aligned<type of alignment %zu>(0x%llx)", A,
              (unsigned long long)p);
}
template <typename U, unsigned K, typename P>
void round_up_as(Ctx &c, U v)
{
    constexpr P m = (P)1 << K;
    if constexpr (K < sizeof(U) * 8 - std::is_signed_v<U>)
    {
        i128 w = v, mm = (i128)1 << K;
        i128 q = w / mm;
        if (w > 0 && w % mm) ++q;
        i128 want = q * mm;
        using Pr = decltype(+v);
        if (want > (i128)std::numeric_limits<U>::max()) return;
        if (w + mm - 1 > (i128)std::numeric_limits<Pr>::max()) return;  // signed overflow on the way
        U got = utils::next_multiple_of<m>(v);
        PBT_CHECK(c, (i128)got == want, "next_multiple_of<%llu> of %lld-sized 0x%llx is 0x%llx", (unsigned long long)m,
                  (long long)sizeof(U), (unsigned long long)v, (unsigned long long)got);
        static_assert(std::is_same_v<decltype(utils::next_multiple_of<m>(v)), U>, "type of the multiple");
    }
}
template <typename U, std::size_t... K>
void round_up(Ctx &c, U v, unsigned k, bool narrow, std::index_sequence<K...>)
{
    auto f = [&](auto kk)
    {
        constexpr unsigned KK = decltype(kk)::value;
        if (KK == k)
        {
            if constexpr (KK < 31)
                if (narrow) return round_up_as<U, KK, int>(c, v);
            round_up_as<U, KK, std::size_t>(c, v);
        }
    };
    (f(std::integral_constant<unsigned, K>{}), ...);
}
template <typename U>
void round_any(Ctx &c)
{
    U v = (U)c.bits(sizeof(U) * 8);
    unsigned k = (unsigned)c.below(sizeof(U) * 8);
    if (c.chance(30)) v = (U)((((u64)v >> k) << k) + c.below(3) - 1);
    c.trace("next_multiple_of<1<<%u>(%zu-byte 0x%llx)", k, sizeof(U), (unsigned long long)v);
    c.nontrivial(k > 0 && v > 1);
    round_up<U>(c, v, k, c.chance(50), std::make_index_sequence<sizeof(U) * 8>{});
}
template <typename U>
void divisor(Ctx &c)
{
    U v = c.chance(5) ? U(0) : (U)c.bits(sizeof(U) * 8);
    if (c.chance(50)) v = (U)(v << c.below(sizeof(U) * 8));
    c.trace("greatest power-of-two divisor of %zu-byte 0x%llx", sizeof(U), (unsigned long long)v);
    c.nontrivial(v > 1);
    c.label("divisor of zero", v == 0);
    u64 want = 1ull << (sizeof(U) * 8 - 1);
    while (v && v % want) want /= 2;
    U got = utils::greatest_divisor_that_is_power_of_2(v);
    PBT_CHECK(c, got == want, "greatest power-of-two divisor of %zu-byte 0x%llx is 0x%llx", sizeof(U),
              (unsigned long long)v, (unsigned long long)got);
}
}  // namespace

PBT_TARGET(arithmetic, 3000000, 200000000,
           "one function on one pair of operands; non-trivial: operands above 1")
{
    switch (c.below(7))
    {
        case 0:
        {
            u64 m = 1ull << c.below(64), v = gen_addr(c);
            if ((u128)((u128)(v / m + (v % m != 0)) * m) > ~0ull) v = c.below(m) + 1;
            u128 want = (u128)(v / m + (v % m != 0)) * m;
            c.trace("next_multiple_of(0x%llx, 0x%llx)", (unsigned long long)m, (unsigned long long)v);
            c.nontrivial(m > 1 && v > 1);
            if (want > ~0ull) return;
            u64 got = utils::next_multiple_of((std::uintptr_t)m, (std::uintptr_t)v);
            PBT_CHECK(c, got == want, "next_multiple_of(0x%llx, 0x%llx) = 0x%llx", (unsigned long long)m,
                      (unsigned long long)v, (unsigned long long)got);
            break;
        }
        case 1:
            switch (c.below(8))
            {
                case 0: round_any<std::uint8_t>(c); break;
                case 1: round_any<std::uint16_t>(c); break;
                case 2: round_any<std::uint32_t>(c); break;
                case 3: round_any<std::uint64_t>(c); break;
                case 4: round_any<std::int8_t>(c); break;
                case 5: round_any<std::int16_t>(c); break;
                case 6: round_any<std::int32_t>(c); break;
                default: round_any<std::int64_t>(c);
            }
            break;
        case 2:
        {
            u64 a = 1ull << c.below(64), p = gen_addr(c);
            c.trace("alignment 0x%llx of address 0x%llx", (unsigned long long)a, (unsigned long long)p);
            c.nontrivial(a > 1 && p > 1);
            const void *q = reinterpret_cast<const void *>(p);
            u64 want = (a - p % a) % a;
            PBT_CHECK(c, utils::is_aligned(q, a) == (p % a == 0), "is_aligned(0x%llx, 0x%llx)", (unsigned long long)p,
                      (unsigned long long)a);
            c.label("aligned", p % a == 0);
            if ((u128)p + want <= ~0ull)
            {
                u64 got = utils::skip_to_align(q, a);
                PBT_CHECK(c, got == want, "skip_to_align(0x%llx, 0x%llx) = 0x%llx", (unsigned long long)p,
                          (unsigned long long)a, (unsigned long long)got);
            }
            break;
        }
        case 3:
        {
            u64 p = gen_addr(c);
            c.trace("typed alignment of address 0x%llx", (unsigned long long)p);
            c.nontrivial(p > 1);
            typed<1>(c, p), typed<2>(c, p), typed<4>(c, p), typed<8>(c, p), typed<16>(c, p), typed<64>(c, p),
                typed<256>(c, p), typed<4096>(c, p);
            if (!p) return;
            std::size_t got = utils::memory::get_alignment(reinterpret_cast<const void *>(p));
            u64 want = 1ull << 63;
            while (p % want) want /= 2;
            PBT_CHECK(c, got == want, "get_alignment(0x%llx) = 0x%zx", (unsigned long long)p, got);
            break;
        }
        case 4:
        {
            u64 v = c.bits(64);
            if (c.chance(30)) v = (1ull << c.below(64)) | (c.chance(50) ? 1ull << c.below(64) : 0);
            int n = 0;
            for (int i = 0; i < 64; ++i) n += (v >> i) & 1;
            c.trace("is_power_of_2(0x%llx)", (unsigned long long)v);
            c.nontrivial(v > 1);
            c.label("power of two", n == 1);
            PBT_CHECK(c, utils::is_power_of_2(v) == (n == 1), "is_power_of_2(0x%llx)", (unsigned long long)v);
            break;
        }
        case 5:
            switch (c.below(4))
            {
                case 0: divisor<std::uint8_t>(c); break;
                case 1: divisor<std::uint16_t>(c); break;
                case 2: divisor<std::uint32_t>(c); break;
                default: divisor<std::uint64_t>(c);
            }
            break;
        default:
        {
            u64 a = 1ull << c.below(64), n = c.bits(64);
            if (c.chance(40)) n = c.bits(1 + (unsigned)c.below(20));
            if (c.chance(30)) n = (1ull << c.below(64)) - a + c.below(4);
            if (n == 0) n = 1;
            if ((u128)a + n - 1 > ~0ull) n = 1 + c.below(1000);
            if ((u128)a + n - 1 > ~0ull) n = 1;
            c.trace("max_alignment_inside_block(0x%llx, 0x%llx)", (unsigned long long)a, (unsigned long long)n);
            c.nontrivial(a > 1 && n > 1);
            // the worst block starts at an odd multiple of its alignment, A - a bytes before the next multiple of A
            u64 want = a;
            for (u64 A = a; A; A <<= 1)
                if (A - a <= n - 1) want = A;
            u64 got = utils::max_alignment_inside_block(a, n);
            PBT_CHECK(c, got == want, "max_alignment_inside_block(0x%llx, 0x%llx) = 0x%llx, expected 0x%llx",
                      (unsigned long long)a, (unsigned long long)n, (unsigned long long)got, (unsigned long long)want);
        }
    }
}

PBT_TARGET_NOFUZZ(small_ranges, 1, 1, "every small operand: values below 600, alignments up to 512, all 16-bit divisors")
{
    c.nontrivial();
    c.trace("all small operands");
    for (u64 m = 1; m <= 512; m *= 2)
        for (u64 v = 0; v < 600; ++v)
        {
            u64 want = 0;
            while (want < v) want += m;
            PBT_CHECK(c, utils::next_multiple_of((std::uintptr_t)m, (std::uintptr_t)v) == want,
                      "next_multiple_of(%llu, %llu)", (unsigned long long)m, (unsigned long long)v);
            const void *q = reinterpret_cast<const void *>(v);
            PBT_CHECK(c, utils::skip_to_align(q, m) == want - v, "skip_to_align(%llu, %llu)", (unsigned long long)v,
                      (unsigned long long)m);
            PBT_CHECK(c, utils::is_aligned(q, m) == (want == v), "is_aligned(%llu, %llu)", (unsigned long long)v,
                      (unsigned long long)m);
            if (!v) continue;
            // by brute force: the largest power of two met by every placement of the block
            u64 best = 0;
            for (u64 A = 1; A <= 4096; A *= 2)
            {
                bool every = true;
                for (u64 s = m; s <= 4096 && every; s += m) every = (s + A - 1) / A * A < s + v;
                if (every) best = A;
            }
            PBT_CHECK(c, utils::max_alignment_inside_block(m, v) == best,
                      "max_alignment_inside_block(%llu, %llu) = %llu, every placement meets %llu",
                      (unsigned long long)m, (unsigned long long)v,
                      (unsigned long long)utils::max_alignment_inside_block(m, v), (unsigned long long)best);
        }
    for (unsigned v = 0; v < 65536; ++v)
    {
        unsigned want = 32768;
        while (v && v % want) want /= 2;
        PBT_CHECK(c, utils::greatest_divisor_that_is_power_of_2((std::uint16_t)v) == want, "divisor of %u", v);
        PBT_CHECK(c, utils::is_power_of_2(v) == (v && want == v), "is_power_of_2(%u)", v);
    }
}
PBT_MAIN
