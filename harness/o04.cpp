// O04: arguments outside the domain of a function stop a build with assertions; those inside never do.
// The oracle is the domain itself. In builds without assertions only arguments inside the domain are asked.
#include <utils/common.h>
#include <utils/memory/memory.h>
#include <utils/memory/monotonic_buffer_resource.h>
#include <utils/memory/simple_resource.h>

#include <array>
#include <string_view>

#include "pbt.hpp"
using namespace pbt;
namespace um = utils::memory;

namespace
{
#ifdef NDEBUG
constexpr bool kChecked = false;
#else
constexpr bool kChecked = true;
#endif

template <typename T>
void keep(const T &v)
{
    asm volatile("" : : "g"(&v) : "memory");
}
bool pow2(u64 v)
{
    return v && !(v & (v - 1));
}
u64 some_alignment(Ctx &c)
{
    unsigned k = c.below(64);
    u64 one = 1ull << k;
    switch (c.below(6))
    {
        case 0:
        case 1: return one;
        case 2: return one + 1;
        case 3: return one - 1;
        case 4: return one | 1ull << c.below(64);
        default: return c.bits(64);
    }
}
struct Ask
{
    bool valid = false, asked = false;
    Death d;
};
// runs fn in a child unless the build cannot stop it
template <typename F>
void ask(Ctx &c, Ask &a, bool valid, F fn)
{
    a.valid = valid;
    a.asked = valid || kChecked;
    if (a.asked) a.d = in_child(fn);
    c.label("not asked without assertions", !a.asked);
}
void judge(Ctx &c, const Ask &a)
{
    if (!a.asked) return;
    if (a.valid)
        PBT_CHECK(c, a.d.clean, "arguments inside the domain end the process with %s [%.200s]", a.d.how.c_str(), a.d.err.c_str());
    else
    {
        PBT_CHECK(c, a.d.aborted, "arguments outside the domain are not stopped (%s)", a.d.clean ? "the call returned" : a.d.how.c_str());
        PBT_CHECK(c, !a.d.err.empty(), "arguments outside the domain are stopped without a message");
    }
}

template <typename T>
void shift(Ctx &c, Ask &a, bool left)
{
    T v = static_cast<T>(c.bits(sizeof(T) * 8) >> c.below(sizeof(T) * 8));
    if (v < 0) v = 0;
    if (left && std::is_signed_v<T>) v = static_cast<T>(c.below(2));
    constexpr u64 w = sizeof(T) * 8;
    u64 n = c.chance(70) ? c.below(w + 8) : c.bits(64);
    if (left && std::is_signed_v<T> && n == w - 1) n = w - 2;
    c.trace("shift_%s of a %u byte integer by %llu", left ? "left" : "right", (unsigned)sizeof(T), (unsigned long long)n);
    ask(c, a, n < w, [&] { left ? keep(utils::shift_left(v, n)) : keep(utils::shift_right(v, n)); });
}
template <typename T, typename U>
void divide(Ctx &c, Ask &a)
{
    T n = static_cast<T>(c.bits(16) & 0x7fff);
    U d = c.chance(50) ? U(0) : static_cast<U>(1 + (c.bits(8) & 0x3f));
    c.trace("div of a %u byte by a %u byte integer, %lld / %lld", (unsigned)sizeof(T), (unsigned)sizeof(U), (long long)n, (long long)d);
    ask(c, a, d != 0, [&] { keep(utils::div(n, d)); });
}
template <std::size_t N>
void compare(Ctx &c, Ask &a)
{
    std::array<int, N> x{}, y{};
    for (std::size_t i = 0; i < N; ++i) x[i] = y[i] = static_cast<int>(c.below(3));
    bool eq = c.chance(70);
    if (!eq && N) y[c.below(N)] += 1;
    u64 k = c.chance(80) ? c.below(N + 4) : c.bits(64);
    c.trace("is_equal of %zu elements, the first %llu", N, (unsigned long long)k);
    ask(c, a, k <= N, [&] { keep(utils::is_equal(x, y, k)); });
}
template <std::size_t N>
void from_view(Ctx &c, Ask &a)
{
    static const char text[] = "0123456789abcdefghijklmnopqrstuvwxyz";
    std::size_t n = c.below(N + 5);
    std::string_view sv(text + c.below(4), n);
    c.trace("make_array of %zu from a view of %zu characters", N, n);
    ask(c, a, N <= n, [&] { keep(utils::make_array<N, char>(sv)); });
}
template <typename P>
void pool_index(Ctx &c, Ask &a)
{
    static std::byte buf[4096];
    unsigned n = c.below(2000);
    unsigned k = c.below(600);
    bool at = c.chance(50);
    std::byte *b = buf;
    const P probe(b, n, nullptr);
    std::size_t blocks = probe.size() / P::kBlockSize;
    using I = std::remove_cv_t<std::remove_reference_t<decltype(probe.at(0).next_index())>>;
    if (c.chance(70)) k = static_cast<unsigned>(blocks + c.below(5)) - 2;
    I i = static_cast<I>(k);
    c.trace("%s(%u) of a pool of %zu blocks", at ? "at" : "in_use", (unsigned)i, blocks);
    ask(c, a, i < blocks,
        [&]
        {
            const P p(b, n, nullptr);
            if (at)
                keep(p.at(i));
            else
                keep(p.in_use(i));
        });
}
class Crooked : public um::memory_resource
{
    friend class um::memory_resource;

   public:
    std::byte *give = nullptr;
    Crooked() : um::memory_resource(&Crooked::allocate<Crooked>, &Crooked::deallocate<Crooked>) {}
    bool is_equal(const um::memory_resource &o) const noexcept override { return this == &o; }
    using um::memory_resource::allocate;
    using um::memory_resource::deallocate;

   private:
    void *allocate_impl(std::size_t, std::size_t) noexcept { return give; }
    void deallocate_impl(void *) noexcept {}
};
}  // namespace

PBT_TARGET_NOFUZZ(scalars, 24000, 300000,
                  "one call in a child process of an arithmetic, alignment, array or byte function, its arguments inside or outside "
                  "the domain; non-trivial: outside, or inside next to its border")
{
    Ask a;
    unsigned f = c.below(10);
    switch (f)
    {
        case 0:
        {
            u64 m = some_alignment(c), v = c.bits(40);
            c.trace("next_multiple_of(%llu, %llu)", (unsigned long long)m, (unsigned long long)v);
            ask(c, a, pow2(m), [&] { keep(utils::next_multiple_of(m, v)); });
            break;
        }
        case 1:
        {
            u64 m = some_alignment(c), p = c.bits(40);
            c.trace("skip_to_align(0x%llx, %llu)", (unsigned long long)p, (unsigned long long)m);
            ask(c, a, pow2(m), [&] { keep(utils::skip_to_align(reinterpret_cast<void *>(p), m)); });
            break;
        }
        case 2:
        {
            u64 m = some_alignment(c), p = c.bits(40);
            c.trace("is_aligned(0x%llx, %llu)", (unsigned long long)p, (unsigned long long)m);
            ask(c, a, pow2(m), [&] { keep(utils::is_aligned(reinterpret_cast<void *>(p), m)); });
            break;
        }
        case 3:
        {
            u64 m = c.chance(50) ? 1ull << c.below(40) : some_alignment(c) >> 2, s = c.chance(40) ? 0 : c.bits(40);
            c.trace("max_alignment_inside_block(%llu, %llu)", (unsigned long long)m, (unsigned long long)s);
            ask(c, a, pow2(m) && s, [&] { keep(utils::max_alignment_inside_block(m, s)); });
            break;
        }
        case 4:
        {
            static char x[64], y[64];
            bool d0 = c.chance(30), s0 = c.chance(30);
            std::size_t n = c.below(64);
            int form = c.below(3);
            c.trace("memcpy form %d to %s from %s, %zu bytes", form, d0 ? "null" : "a buffer", s0 ? "null" : "a buffer", n);
            ask(c, a, !d0 && !s0,
                [&]
                {
                    char *d = d0 ? nullptr : x;
                    const char *s = s0 ? nullptr : y;
                    switch (form)
                    {
                        case 0: return um::memcpy(d, s, n);
                        case 1: return um::memcpy(static_cast<void *>(d), static_cast<const void *>(s), n);
                        default: return um::memcpy(reinterpret_cast<std::byte *>(d), reinterpret_cast<const unsigned char *>(s), n);
                    }
                });
            break;
        }
        case 5:
        {
            u64 p = c.chance(40) ? 0 : c.bits(64);
            c.trace("get_alignment(0x%llx)", (unsigned long long)p);
            ask(c, a, p, [&] { keep(um::get_alignment(reinterpret_cast<void *>(p))); });
            break;
        }
        case 6:
        {
            bool l = c.chance(50);
            switch (c.below(8))
            {
                case 0: shift<std::uint8_t>(c, a, l); break;
                case 1: shift<std::uint16_t>(c, a, l); break;
                case 2: shift<std::uint32_t>(c, a, l); break;
                case 3: shift<std::uint64_t>(c, a, l); break;
                case 4: shift<std::int8_t>(c, a, l); break;
                case 5: shift<std::int16_t>(c, a, l); break;
                case 6: shift<std::int32_t>(c, a, l); break;
                default: shift<std::int64_t>(c, a, l); break;
            }
            break;
        }
        case 7:
            switch (c.below(8))
            {
                case 0: divide<int, int>(c, a); break;
                case 1: divide<unsigned, unsigned char>(c, a); break;
                case 2: divide<long long, short>(c, a); break;
                case 3: divide<std::uint64_t, int>(c, a); break;
                case 4: divide<short, std::uint64_t>(c, a); break;
                case 5: divide<signed char, signed char>(c, a); break;
                case 6: divide<unsigned char, unsigned char>(c, a); break;
                default: divide<char, long>(c, a); break;
            }
            break;
        case 8:
            switch (c.below(4))
            {
                case 0: compare<0>(c, a); break;
                case 1: compare<1>(c, a); break;
                case 2: compare<7>(c, a); break;
                default: compare<64>(c, a); break;
            }
            break;
        default:
            switch (c.below(4))
            {
                case 0: from_view<0>(c, a); break;
                case 1: from_view<1>(c, a); break;
                case 2: from_view<5>(c, a); break;
                default: from_view<30>(c, a); break;
            }
    }
    judge(c, a);
    c.label("outside", !a.valid);
    c.nontrivial(a.asked && (!a.valid || f > 5));
}

PBT_TARGET_NOFUZZ(resources, 8000, 100000,
                  "a call of a memory resource in a child process: alignments which are no power of two, block indices beyond the end, "
                  "fallbacks which hand out misaligned storage; non-trivial: outside the domain, or a valid call of the same kind")
{
    Ask a;
    alignas(64) static std::byte buf[4096];
    switch (c.below(5))
    {
        case 0:
        {
            u64 m = some_alignment(c), s = 1 + c.below(300);
            std::size_t n = c.below(1000);
            c.trace("%llu bytes aligned to %llu from a monotonic buffer of %zu", (unsigned long long)s, (unsigned long long)m, n);
            ask(c, a, pow2(m),
                [&]
                {
                    um::monotonic_buffer_resource r(buf, n, nullptr);
                    for (u64 k = 0; k < s % 3; ++k) keep(r.allocate(1 + k, 1));
                    keep(r.allocate(s, m));
                });
            break;
        }
        case 1:
        {
            u64 m = some_alignment(c), s = 1 + c.below(300);
            std::size_t n = c.below(1000);
            c.trace("%llu bytes aligned to %llu from a pool of %zu bytes", (unsigned long long)s, (unsigned long long)m, n);
            ask(c, a, pow2(m),
                [&]
                {
                    um::simple_resource<200, 16> r(buf, n, nullptr);
                    void *p = s % 3 ? r.allocate(1, 1) : nullptr;
                    void *q = r.allocate(s, m);
                    if (!a.valid) _exit(0);
                    r.deallocate(p);
                    r.deallocate(q);
                });
            break;
        }
        case 2:
            switch (c.below(3))
            {
                case 0: pool_index<um::simple_resource<40, 8>>(c, a); break;
                case 1: pool_index<um::simple_resource<300, 16>>(c, a); break;
                default: pool_index<um::simple_resource<255, 1>>(c, a); break;
            }
            break;
        case 3:
        {
            Crooked up;
            std::size_t off = c.below(65);
            up.give = c.chance(15) ? nullptr : buf + 2048 + off;
            std::size_t n = c.below(3) ? c.below(64) : 0;
            c.trace("a pool of 16 byte blocks whose fallback hands out %s+%zu", up.give ? "a multiple of 64" : "null", off);
            ask(c, a, !up.give || off % 16 == 0,
                [&]
                {
                    um::simple_resource<200, 16> r(buf, n, &up);
                    void *q = r.allocate(100, 1 + (off & 1));
                    if (a.valid) r.deallocate(q);   // the allocation itself must be stopped
                });
            break;
        }
        default:
        {
            // zero bytes are never looked at more closely
            u64 m = 1ull << c.below(64);
            bool mono = c.chance(50);
            c.trace("zero bytes aligned to %llu", (unsigned long long)m);
            ask(c, a, true,
                [&]
                {
                    um::simple_resource<200, 16> r(buf, 500, nullptr);
                    um::monotonic_buffer_resource q(buf, 500, nullptr);
                    keep(mono ? q.allocate(0, m) : r.allocate(0, m));
                });
        }
    }
    judge(c, a);
    c.label("outside", !a.valid);
    c.nontrivial(a.asked);
}
PBT_MAIN
