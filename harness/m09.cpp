// M09: byte-wise semantics of secure_zero_memory(_safe), memmove, memcpy and memvcmp at run time.
// Oracle: a plain std::vector<unsigned char> model of the whole arena, guard bytes included.
#include <memory>
#include <vector>

#include "pbt.hpp"
#include <utils/common.h>
#include <utils/memory/memory.h>
using namespace pbt;
namespace um = utils::memory;

namespace
{
std::size_t gen_len(Ctx &c, std::size_t max)
{
    switch (c.weighted({4, 6, 3, 1}))
    {
        case 0: return std::min<std::size_t>(c.below(5), max);
        case 1: return std::min<std::size_t>(c.below(70), max);
        case 2: return std::min<std::size_t>(c.below(700), max);
        default: return c.below(max + 1);
    }
}
struct Arena
{
    std::unique_ptr<unsigned char[]> mem;  // exactly sized: AddressSanitizer guards both ends
    std::vector<unsigned char> model;
    std::size_t n;
    Arena(Ctx &c, std::size_t size) : mem(new unsigned char[size]), model(size), n(size)
    {
        u64 s = c.below(0);
        for (std::size_t i = 0; i < n; ++i) model[i] = mem[i] = (unsigned char)(mix64(s + i) | (i % 7 == 0 ? 0x80 : 1));
    }
    std::byte *at(std::size_t i) { return reinterpret_cast<std::byte *>(mem.get() + i); }
    void same(Ctx &c, const char *what)
    {
        for (std::size_t i = 0; i < n; ++i)
            if (mem[i] != model[i])
                c.fail("%s: byte %zu of %zu is %02x, expected %02x", what, i, n, mem[i], model[i]);
    }
};
enum class E8 : unsigned char
{
};

template <typename To, typename From>
void do_copy(Arena &a, std::size_t d, std::size_t s, std::size_t len)
{
    um::memcpy(reinterpret_cast<To *>(a.at(d)), reinterpret_cast<const From *>(a.at(s)), len);
}
template <typename To>
void copy_from(int from, Arena &a, std::size_t d, std::size_t s, std::size_t len)
{
    switch (from)
    {
        case 0: return do_copy<To, std::byte>(a, d, s, len);
        case 1: return do_copy<To, char>(a, d, s, len);
        case 2: return do_copy<To, unsigned char>(a, d, s, len);
        case 3: return do_copy<To, signed char>(a, d, s, len);
        case 4: return do_copy<To, void>(a, d, s, len);
        default: return do_copy<To, E8>(a, d, s, len);
    }
}
}  // namespace

PBT_TARGET(bytes, 300000, 12000000,
           "a history of 1..12 operations on one arena; non-trivial: at least one operation on two or more bytes")
{
    const std::size_t n = 1 + gen_len(c, c.chance(3) ? 70000 : 1500);
    Arena a(c, n);
    c.trace("arena %zu", n);
    std::size_t ops = 0;
    do
    {
        ++ops;
        switch (c.weighted({4, 3, 3, 3, 5}))
        {
            case 0:
            {
                std::size_t off = c.below(n + 1), len = gen_len(c, n - off);
                c.trace("wipe %zu+%zu", off, len);
                c.nontrivial(len > 1);
                c.label("wipe");
                um::secure_zero_memory(a.at(off), len);
                std::fill(a.model.begin() + off, a.model.begin() + off + len, 0);
                a.same(c, "after secure_zero_memory");
                break;
            }
            case 1:
            {
                const bool null = c.chance(25);
                std::size_t off = c.below(n + 1), len = c.chance(25) ? 0 : gen_len(c, n - off);
                c.trace("safe wipe %s%zu+%zu", null ? "null " : "", off, len);
                int rc = um::secure_zero_memory_safe(null ? nullptr : a.at(off), len);
                if (null)
                {
                    int rc0 = um::secure_zero_memory_safe(nullptr, 0);
                    int rce = um::secure_zero_memory_safe(a.at(0), 0);
                    PBT_CHECK(c, rc != 0 && rc == rc0, "null range: code %d, for a null empty range %d", rc, rc0);
                    PBT_CHECK(c, rc != rce, "null and empty ranges share code %d", rc);
                    c.label("safe wipe of null");
                }
                else if (len == 0)
                {
                    PBT_CHECK(c, rc != 0, "empty range accepted");
                    c.label("safe wipe of nothing");
                }
                else
                {
                    PBT_CHECK(c, rc == 0, "range of %zu rejected with %d", len, rc);
                    std::fill(a.model.begin() + off, a.model.begin() + off + len, 0);
                    c.nontrivial(len > 1);
                }
                a.same(c, "after secure_zero_memory_safe");
                break;
            }
            case 2:
            {
                std::size_t len = gen_len(c, n);
                std::size_t s = c.below(n - len + 1), d = c.below(n - len + 1);
                if (c.chance(50) && len > 1)
                {  // close together
                    std::size_t k = c.below(std::min<std::size_t>(len, 9) + 1);
                    if (c.chance(50))
                        d = s + k <= n - len ? s + k : n - len;
                    else
                        d = s >= k ? s - k : 0;
                }
                c.trace("move %zu+%zu -> %zu", s, len, d);
                c.label("overlapping move forwards", d > s && d < s + len);
                c.label("overlapping move backwards", s > d && s < d + len);
                c.nontrivial(len > 1 && s != d);
                std::byte *r = um::memmove(a.at(d), a.at(s), len);
                PBT_CHECK(c, r == a.at(d), "memmove returned another pointer");
                std::vector<unsigned char> t(a.model.begin() + s, a.model.begin() + s + len);
                std::copy(t.begin(), t.end(), a.model.begin() + d);
                a.same(c, "after memmove");
                break;
            }
            case 3:
            {
                std::size_t len = gen_len(c, n / 2);
                std::size_t s = c.below(n - 2 * len + 1), d = s + len + c.below(n - 2 * len - s + 1);
                if (c.chance(50)) std::swap(s, d);
                int to = (int)c.below(6), from = (int)c.below(6);
                c.trace("copy %zu+%zu -> %zu (%d <- %d)", s, len, d, to, from);
                c.nontrivial(len > 1);
                switch (to)
                {
                    case 0: copy_from<std::byte>(from, a, d, s, len); break;
                    case 1: copy_from<char>(from, a, d, s, len); break;
                    case 2: copy_from<unsigned char>(from, a, d, s, len); break;
                    case 3: copy_from<signed char>(from, a, d, s, len); break;
                    case 4: copy_from<void>(from, a, d, s, len); break;
                    default: copy_from<E8>(from, a, d, s, len); break;
                }
                std::copy_n(a.model.begin() + s, len, a.model.begin() + d);
                a.same(c, "after memcpy");
                break;
            }
            default:
            {
                std::size_t off = c.below(n + 1), len = gen_len(c, n - off);
                unsigned char v = (unsigned char)c.below(256);
                if (c.chance(80))
                {  // make the range (nearly) uniform
                    std::fill(a.model.begin() + off, a.model.begin() + off + len, v);
                    if (len && c.chance(50))
                    {
                        std::size_t k = c.chance(40) ? (c.chance(50) ? 0 : len - 1) : c.below(len);
                        a.model[off + k] ^= (unsigned char)(c.chance(50) ? 1u << c.below(8) : 1 + c.below(255));
                    }
                    if (c.chance(20)) v = len ? a.model[off] : v;
                    std::copy(a.model.begin(), a.model.end(), a.mem.get());
                }
                bool want = len > 0;
                for (std::size_t i = off; i < off + len; ++i) want = want && a.model[i] == v;
                c.trace("uniform %zu+%zu = %02x", off, len, v);
                c.label(want ? "uniform" : "not uniform");
                c.nontrivial(len > 1);
                bool got = utils::memvcmp(a.at(off), v, len);
                PBT_CHECK(c, got == want, "memvcmp of %zu bytes with %02x gives %d", len, v, got);
                if (c.chance(5)) PBT_CHECK(c, !utils::memvcmp(nullptr, v, len), "memvcmp of null is true");
                a.same(c, "after memvcmp");
            }
        }
    } while (c.more(4, ops, 12));
}

namespace
{
// lengths around the places where a narrower length type or a chunk size would show
std::size_t long_len(Ctx &c, std::size_t max)
{
    std::size_t n;
    switch (c.weighted({4, 3, 2}))
    {
        case 0: n = (std::size_t{1} << (8 + c.below(13))) + c.below(19) - 9; break;
        case 1: n = max - std::min<std::size_t>(c.below(17), max); break;
        default: n = c.below(max + 1);
    }
    return std::min(n, max);
}
}  // namespace
PBT_TARGET(long_ranges, 9000, 300000,
           "one operation on up to 1 MiB, lengths around powers of two; non-trivial: more than 255 bytes")
{
    const std::size_t total = (std::size_t{1} << (10 + c.below(11))) + c.below(40);
    const int op = (int)c.below(5);
    const std::size_t len = long_len(c, op == 3 ? total / 2 : total);
    const std::size_t off = c.below(total - len + 1);
    Arena a(c, total);
    c.nontrivial(len > 255);
    c.label("more than 65535 bytes", len > 65535);
    c.trace("arena %zu op %d %zu+%zu", total, op, off, len);
    switch (op)
    {
        case 0:
            um::secure_zero_memory(a.at(off), len);
            std::fill_n(a.model.begin() + off, len, 0);
            break;
        case 1:
        {
            int rc = um::secure_zero_memory_safe(a.at(off), len);
            PBT_CHECK(c, (rc == 0) == (len != 0), "range of %zu: code %d", len, rc);
            std::fill_n(a.model.begin() + off, len, 0);
            break;
        }
        case 2:
        {
            const std::size_t d = c.below(total - len + 1);
            c.trace("move to %zu", d);
            um::memmove(a.at(d), a.at(off), len);
            std::vector<unsigned char> t(a.model.begin() + off, a.model.begin() + off + len);
            std::copy(t.begin(), t.end(), a.model.begin() + d);
            break;
        }
        case 3:
        {
            std::size_t s = c.below(total - 2 * len + 1), d = s + len + c.below(total - 2 * len - s + 1);
            if (c.chance(50)) std::swap(s, d);
            const int to = (int)c.below(6), from = (int)c.below(6);
            c.trace("copy %zu -> %zu (%d <- %d)", s, d, to, from);
            switch (to)
            {
                case 0: copy_from<std::byte>(from, a, d, s, len); break;
                case 1: copy_from<char>(from, a, d, s, len); break;
                case 2: copy_from<unsigned char>(from, a, d, s, len); break;
                case 3: copy_from<signed char>(from, a, d, s, len); break;
                case 4: copy_from<void>(from, a, d, s, len); break;
                default: copy_from<E8>(from, a, d, s, len); break;
            }
            std::copy_n(a.model.begin() + s, len, a.model.begin() + d);
            break;
        }
        default:
        {
            const unsigned char v = (unsigned char)c.below(256);
            std::fill_n(a.model.begin() + off, len, v);
            bool want = len > 0;
            if (len && c.chance(70))
            {
                std::size_t k = c.chance(40) ? len - 1 - c.below(std::min<std::size_t>(len, 20)) : c.below(len);
                a.model[off + k] ^= (unsigned char)(1u << c.below(8));
                c.trace("differs at %zu", k);
                want = false;
            }
            std::copy(a.model.begin(), a.model.end(), a.mem.get());
            PBT_CHECK(c, utils::memvcmp(a.at(off), v, len) == want, "memvcmp of %zu bytes is not %d", len, want);
        }
    }
    a.same(c, "after the operation");
}

#if !defined(PBT_SAN) && !defined(__SANITIZE_ADDRESS__)
// Ranges beyond 4 GiB: one 2 MiB page range mapped again and again, with private first and last pieces, so that
// no memory of that size is needed. Only the private pieces are looked at.
namespace
{
constexpr std::size_t kPiece = std::size_t{2} << 20, kPieces = 2051;
struct Long
{
    unsigned char *p = nullptr;
    Long()
    {
        int fd = memfd_create("m09", 0), fd2 = memfd_create("m09b", 0);
        if (fd < 0 || fd2 < 0 || ftruncate(fd, kPiece) || ftruncate(fd2, 4 * kPiece)) return;
        void *q = mmap(nullptr, kPieces * kPiece, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (q == MAP_FAILED) return;
        auto *b = (unsigned char *)q;
        for (std::size_t k = 0; k < kPieces; ++k)
        {
            const bool own = k == 0 || k + 3 >= kPieces;
            const std::size_t at = k == 0 ? 0 : own ? (k + 4 - kPieces) * kPiece : 0;
            if (mmap(b + k * kPiece, kPiece, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED | MAP_POPULATE, own ? fd2 : fd,
                     at) == MAP_FAILED)
            {
                munmap(q, kPieces * kPiece);
                q = nullptr;
                break;
            }
        }
        close(fd);
        close(fd2);
        p = (unsigned char *)q;
    }
    ~Long()
    {
        if (p) munmap(p, kPieces * kPiece);
    }
    static constexpr std::size_t size = kPieces * kPiece;
    static constexpr std::size_t last = (kPieces - 3) * kPiece;  // start of the private end, 4 GiB behind p
};
static_assert(Long::last == std::size_t{1} << 32);
}  // namespace
PBT_TARGET_NOFUZZ(beyond_4GiB, 5, 40, "one operation on more than 4 GiB (aliased pages); non-trivial: every case")
{
    Long a;
    if (!a.p) return;
    arm_cpu_timer(200);
    c.nontrivial();
    c.label("mapped");
    const int op = (int)c.below(3);
    const std::size_t off = c.below(4096), end = a.last + 1 + c.below(2 * kPiece), len = end - off;
    const unsigned char v = (unsigned char)(1 + c.below(255));
    std::memset(a.p, v, 2 * kPiece);
    std::memset(a.p + a.last, v, 3 * kPiece);
    c.trace("op %d on %zu+%zu, value %02x", op, off, len, v);
    if (op == 0)
    {
        const std::size_t k = c.chance(50) ? len : len - 1 - c.below(3000);
        if (k < len) a.p[off + k] ^= 1;
        bool got = utils::memvcmp(a.p + off, v, len);
        PBT_CHECK(c, got == (k == len), "memvcmp of %zu bytes with a difference at %zu gives %d", len, k, got);
        return;
    }
    if (op == 1)
        um::secure_zero_memory(reinterpret_cast<std::byte *>(a.p + off), len);
    else
        PBT_CHECK(c, um::secure_zero_memory_safe(reinterpret_cast<std::byte *>(a.p + off), len) == 0, "rejected");
    for (std::size_t i = 0; i < kPiece; ++i)
        PBT_CHECK(c, a.p[i] == (i < off ? v : 0), "byte %zu is %02x", i, a.p[i]);
    for (std::size_t i = a.last; i < a.size; ++i)
        PBT_CHECK(c, a.p[i] == (i < end ? 0 : v), "byte %zu is %02x", i, a.p[i]);
}

// A wipe must reach memory even if nobody reads it afterwards. The linker redirects free() to
// __wrap_free, which looks at the watched range before it is given back; for automatic storage the
// bytes are looked at right after the function which owned them has returned.
extern "C" void __real_free(void *);
namespace
{
unsigned char *volatile watch_ptr;
volatile std::size_t watch_off, watch_len;
volatile int watch_seen;
volatile std::size_t watch_left;
constexpr unsigned char secret = 0xA7;
}  // namespace
extern "C" void __wrap_free(void *p)
{
    if (p && p == watch_ptr)
    {
        std::size_t left = 0;
        auto *q = static_cast<volatile unsigned char *>(p) + watch_off;
        for (std::size_t i = 0; i < watch_len; ++i) left += q[i] != 0;
        watch_left = left;
        watch_seen = watch_seen + 1;
        watch_ptr = nullptr;
    }
    __real_free(p);
}
namespace
{
volatile unsigned sink;
// from here on the bytes are really in memory: without this the compiler drops the secret together with the wipe
inline __attribute__((always_inline)) void settle(void *p) { asm volatile("" : : "r"(p) : "memory"); }
template <int Form>
inline __attribute__((always_inline)) void wipe(void *p, std::size_t len)
{
    if constexpr (Form == 0)
        um::secure_zero_memory(static_cast<std::byte *>(p), len);
    else
        (void)!um::secure_zero_memory_safe(static_cast<std::byte *>(p), len);
}
template <int Form>
__attribute__((noinline)) void heap_dyn(std::size_t n, std::size_t off, std::size_t len)
{
    unsigned char *p = static_cast<unsigned char *>(std::malloc(n));
    std::memset(p, secret, n);
    watch_ptr = p;
    settle(p);
    sink = p[off];
    wipe<Form>(p + off, len);
    std::free(p);
}
template <int Form, std::size_t N>
__attribute__((noinline)) void heap_fix()
{
    unsigned char *p = static_cast<unsigned char *>(std::malloc(N));
    std::memset(p, secret, N);
    watch_ptr = p;
    settle(p);
    sink = p[N / 2];
    wipe<Form>(p, N);
    std::free(p);
}
template <int Form, std::size_t N>
__attribute__((noinline)) void stack_fix(std::size_t len)
{
    unsigned char p[N];
    std::memset(p, secret, N);
    unsigned char *volatile e = p;
    watch_ptr = e;
    settle(p);
    sink = p[N / 2];
    wipe<Form>(p, len);
}
template <int Form, std::size_t N>
std::size_t stack_left(std::size_t len)
{
    stack_fix<Form, N>(len);
    std::size_t left = 0;
    volatile unsigned char *q = watch_ptr;
    for (std::size_t i = 0; i < len; ++i) left += q[i] == secret;
    watch_ptr = nullptr;
    return left;
}
template <int Form>
void released_case(Ctx &c)
{
    switch (c.below(3))
    {
        case 0:
        {
            std::size_t n = 1 + gen_len(c, 3000), off = c.below(n), len = 1 + c.below(n - off);
            c.trace("heap block %zu, wipe %zu+%zu, free", n, off, len);
            watch_off = off, watch_len = len, watch_seen = 0;
            heap_dyn<Form>(n, off, len);
            break;
        }
        case 1:
        {
            watch_off = 0, watch_seen = 0;
            switch (c.below(6))
            {
#define FIX(k, N) \
    case k: c.trace("heap block of constant size %d, wipe, free", N); watch_len = N; heap_fix<Form, N>(); break;
                FIX(0, 8) FIX(1, 16) FIX(2, 32) FIX(3, 64) FIX(4, 100)
                default: c.trace("heap block of constant size 1024, wipe, free"); watch_len = 1024; heap_fix<Form, 1024>();
            }
            break;
        }
        default:
        {
            std::size_t left = 0, n = 0;
            switch (c.below(4))
            {
                case 0: n = 16 + c.below(17); left = stack_left<Form, 32>(n); break;
                case 1: n = 64; left = stack_left<Form, 64>(64); break;
                case 2: n = 256; left = stack_left<Form, 256>(256); break;
                default: n = 1 + c.below(500); left = stack_left<Form, 500>(n);
            }
            c.trace("automatic array, wipe %zu, return", n);
            c.label("stack");
            PBT_CHECK(c, left == 0, "%zu of %zu wiped bytes still hold the secret after the array ended", left, n);
            return;
        }
    }
    c.label("heap");
    PBT_CHECK(c, watch_seen == 1, "harness: free was called %d times", (int)watch_seen);
    PBT_CHECK(c, watch_left == 0, "%zu of %zu wiped bytes were not zero when the block was freed",
              (std::size_t)watch_left, (std::size_t)watch_len);
}
}  // namespace
PBT_TARGET_NOFUZZ(wiped_before_release, 60000, 1000000,
                  "memory wiped and released at once, optimised build; non-trivial: every case")
{
    c.nontrivial();
    if (c.chance(50))
        released_case<0>(c);
    else
        released_case<1>(c);
}
#endif
PBT_MAIN
