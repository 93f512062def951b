// Model of the fixed-buffer block pool and the operation generator shared by M01..M05.
#pragma once
#include <array>
#include <cstddef>
#include <memory>
#include <new>
#include <optional>

#include "pbt.hpp"
#include <utils/memory/simple_resource.h>

namespace pool
{
using namespace pbt;
namespace um = utils::memory;

enum Check : unsigned
{
    kLive = 1,      // M01
    kBook = 2,      // M02
    kComplete = 4,  // M03
    kUp = 8,        // M04
};

constexpr std::size_t kArena = std::size_t{8} << 20;
constexpr std::size_t kArenaAlign = std::size_t{1} << 22;

inline unsigned char *arena()
{
    static unsigned char *a = []
    {
        auto *p = (unsigned char *)mmap(nullptr, kArena + kArenaAlign, PROT_READ | PROT_WRITE,
                                        MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        return (unsigned char *)(((std::uintptr_t)p + kArenaAlign - 1) & ~(kArenaAlign - 1));
    }();
    return a;
}

// Address space for buffers beyond 4 GiB; only the pages a client writes exist, and they are dropped after each case.
constexpr std::size_t kGiant = std::size_t{40} << 30;
inline unsigned char *giant_arena()
{
    static unsigned char *a = []
    {
        constexpr std::size_t al = std::size_t{1} << 32;
        void *p = mmap(nullptr, kGiant + al, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (p == MAP_FAILED) return (unsigned char *)nullptr;
        madvise(p, kGiant + al, MADV_NOHUGEPAGE);
        return (unsigned char *)(((std::uintptr_t)p + al - 1) & ~(al - 1));
    }();
    return a;
}
struct GiantGuard
{
    bool on = false;
    ~GiantGuard()
    {
        if (on) madvise(giant_arena(), kGiant, MADV_DONTNEED);
    }
};

struct IPool
{
    virtual ~IPool() = default;
    virtual void *alloc(std::size_t s, std::size_t a) = 0;
    virtual void *alloc_default(std::size_t s) = 0;
    virtual void *alloc_typed(int k) = 0;
    virtual void dealloc(void *p) = 0;
    virtual void release() = 0;
    virtual const std::byte *data() const = 0;
    virtual std::size_t size() const = 0;
    virtual std::size_t max_blocks() const = 0;
    virtual std::size_t bs() const = 0;
    virtual std::size_t next(std::size_t i) const = 0;
    virtual std::size_t prev(std::size_t i) const = 0;
    virtual bool in_use(std::size_t i) const = 0;
    virtual std::size_t block_size(std::size_t i) const = 0;
    virtual std::size_t block_size_bytes(std::size_t i) const = 0;
    virtual std::size_t info_next(std::size_t i) const = 0;
    virtual std::size_t free_count() const = 0;
    virtual std::size_t busy_count() const = 0;
    virtual um::memory_resource *res() = 0;
};
struct alignas(8) T8
{
    char c[24];
};
struct alignas(32) T32
{
    char c[32];
};
struct T1
{
    char c[5];
};

struct Cfg
{
    std::size_t n, b;
    IPool *(*make)(int form, std::byte *buf, std::size_t size, um::memory_resource *up);
};
// instantiated in pool_inst.cpp, which is compiled once per part so that the parts build in parallel
constexpr int kParts = 7;
const std::vector<Cfg> &part(int k);
const std::vector<Cfg> &part0();
const std::vector<Cfg> &part1();
const std::vector<Cfg> &part2();
const std::vector<Cfg> &part3();
const std::vector<Cfg> &part4();
const std::vector<Cfg> &part5();
const std::vector<Cfg> &part6();
inline const std::vector<Cfg> &small_cfgs()
{
    static const std::vector<Cfg> v = []
    {
        std::vector<Cfg> r;
        for (auto *p : {&part0(), &part1(), &part2(), &part3()}) r.insert(r.end(), p->begin(), p->end());
        return r;
    }();
    return v;
}
inline const std::vector<Cfg> &wide_cfgs() { return part4(); }  // index type boundaries
inline const std::vector<Cfg> &huge_cfgs() { return part5(); }
inline const std::vector<Cfg> &giant_cfgs() { return part6(); }  // buffers of several GiB

inline u64 align_up(u64 x, u64 a) { return (u64)((((u128)x + a - 1) / a) * a); }

// Fallback resource that records calls, checks their discipline and hands out memory with exactly the
// alignment asked for (never more), from a zone outside or directly next to the pool's buffer.
class Up : public um::memory_resource
{
    friend class um::memory_resource;

   public:
    Up()
        : um::memory_resource(&Up::allocate<Up>, &Up::deallocate<Up>)
    {
    }
    bool is_equal(const um::memory_resource &o) const noexcept override { return this == &o; }

    struct Call
    {
        std::size_t size, align;
        unsigned char *ptr;
        bool freed;
    };
    std::vector<Call> calls;
    std::size_t frees = 0;
    unsigned char *zone = nullptr, *zone_end = nullptr;  // bump upwards
    bool fail_next = false;                              // fail until cleared
    Ctx *c = nullptr;

    Call *find(void *p)
    {
        for (auto &k : calls)
            if (k.ptr == p && !k.freed) return &k;
        return nullptr;
    }

   private:
    void *allocate_impl(std::size_t s, std::size_t a) noexcept
    {
        calls.push_back({s, a, nullptr, false});
        if (a == 0 || (a & (a - 1))) c->defer_fail("fallback asked for alignment %zu", a);
        if (fail_next || !zone || s > (std::size_t)(zone_end - zone) || a > (std::size_t{1} << 21)) return nullptr;
        u64 p = align_up((u64)zone, a);
        if ((p & (2 * a - 1)) == 0 && p + a + s <= (u64)zone_end && p != (u64)zone) p += a;  // not over-aligned
        if (p + s > (u64)zone_end) return nullptr;
        zone = (unsigned char *)p + (s ? s : 1);
        calls.back().ptr = (unsigned char *)p;
        return (void *)p;
    }
    void deallocate_impl(void *p) noexcept
    {
        ++frees;
        Call *k = find(p);
        if (!k)
            c->defer_fail("fallback was handed a pointer it does not own (or twice): %p", p);
        else
            k->freed = true;
    }
};

struct Alloc
{
    unsigned char *p;
    std::size_t size, align;
    bool up;
    unsigned seed;
};

inline void fill(unsigned char *p, std::size_t n, unsigned seed)
{
    auto put = [&](std::size_t i) { p[i] = (unsigned char)(seed * 37 + i * 11 + (i >> 8)); };
    if (n <= 256)
        for (std::size_t i = 0; i < n; ++i) put(i);
    else
        for (std::size_t i = 0; i < 128; ++i) put(i), put(n - 1 - i);
}
inline bool intact(unsigned char *p, std::size_t n, unsigned seed)
{
    auto same = [&](std::size_t i) { return p[i] == (unsigned char)(seed * 37 + i * 11 + (i >> 8)); };
    if (n <= 256)
    {
        for (std::size_t i = 0; i < n; ++i)
            if (!same(i)) return false;
    }
    else
        for (std::size_t i = 0; i < 128; ++i)
            if (!same(i) || !same(n - 1 - i)) return false;
    return true;
}

struct World
{
    Ctx &c;
    GiantGuard giant;
    unsigned checks;
    Up up;
    bool has_up = false;
    std::unique_ptr<IPool> pool;
    const Cfg *cfg = nullptr;
    unsigned char *buf = nullptr;
    std::size_t bufsize = 0;
    std::vector<Alloc> live;
    // expected geometry
    u64 data = 0;
    std::size_t nblocks = 0, B = 1;
    unsigned char *area = nullptr;
    std::size_t area_len = 0;
    std::vector<unsigned char> shadow;
    unsigned next_seed = 1;
    // stats
    std::vector<unsigned char *> gone;  // pool pointers that were valid once
    unsigned n_alloc_pool = 0, n_alloc_up = 0, n_free = 0, n_split = 0, n_release = 0, n_fail = 0;

    explicit World(Ctx &cc, unsigned ch) : c(cc), checks(ch) { up.c = &c; }
    ~World()
    {
        // a failed case may leave allocations: never run the pool's destructor then
        if (pool && !done_) pool.release();
    }
    bool done_ = false, filled_ = false;
    std::size_t churned_ = 0;

    void setup(bool allow_degenerate)
    {
        std::size_t kind = c.weighted({80, 16, 1, 3});
        if (kind == 3 && !giant_arena()) kind = 0;
        giant.on = kind == 3;
        cfg = &(kind == 0   ? c.pick(small_cfgs())
                : kind == 1 ? c.pick(wide_cfgs())
                : kind == 2 ? c.pick(huge_cfgs())
                            : c.pick(giant_cfgs()));
        // small pools in buffers of more than 2^32 blocks
        bool beyond = giant.on && c.chance(25);
        if (beyond)
        {
            std::vector<const Cfg *> narrow;
            for (auto *v : {&small_cfgs(), &wide_cfgs()})
                for (auto &k : *v)
                    if (k.b <= 4) narrow.push_back(&k);
            cfg = c.pick(narrow);
        }
        B = cfg->b;
        const std::size_t full = cfg->n * cfg->b;
        // base address: chosen power-of-two alignment, odd multiple, inside the middle of the arena
        u64 base;
        if (giant.on)
        {
            unsigned k = (unsigned)c.below(34);
            base = (u64)giant_arena() + (u64{1} << 32);
            if (k < 33) base += u64{1} << k;
        }
        else
        {
            unsigned k = (unsigned)c.below(22);
            base = (u64)arena() + (std::size_t{2} << 20);
            if (k < 21) base += (u64{1} << k);
        }
        if (c.chance(40)) base += c.below(2 * B + 3);
        buf = (unsigned char *)base;
        const std::size_t many = B << (B <= 8 ? 8 * (1 + c.below(2)) : 8);
        switch (beyond ? 6 : c.weighted({5, 4, 4, 2, 2, many <= (std::size_t{1} << 20) ? 1u : 0u}))
        {
            case 6: bufsize = (B << 32) * (1 + c.below(4 / B)) + c.below(2 * full + 2 * B) - c.below(2) * full; break;
            case 5: bufsize = many * (1 + c.below(2)) + c.below(full + B) % (std::size_t{1} << 19); break;  // many more blocks than the pool may have
            case 0: bufsize = full; break;
            case 1: bufsize = full + c.below(3 * B + 2); break;
            case 2: bufsize = 1 + c.below(full); break;
            case 3: bufsize = B * (1 + c.below(cfg->n)) + c.below(2); break;
            default: bufsize = 1 + c.below(3 * B); break;
        }
        int form = (int)c.weighted({8, 2, 1, 1});
        if (form >= 2) bufsize = 256;
        bool null_buf = false;
        if (allow_degenerate && c.chance(3))
        {
            if (c.chance(50))
                null_buf = true;
            else
                bufsize = 0;
            form = form & 1;
        }
        has_up = c.chance(75);
        // geometry by definition: blocks are the B-aligned B-sized pieces of the buffer
        if (!null_buf)
        {
            u64 first = align_up(base, B);
            u64 end = base + bufsize;
            nblocks = end > first ? (std::size_t)((end - first) / B) : 0;
            if (nblocks > cfg->n) nblocks = cfg->n;
            data = nblocks ? first : 0;
        }
        // fallback zone: far away, or adjacent above / below the usable range
        switch (giant.on ? 0 : c.weighted({3, 2, 1}))
        {
            case 1:
                if (nblocks)
                {
                    up.zone = (unsigned char *)(data + nblocks * B);
                    up.zone_end = up.zone + (std::size_t{1} << 20);
                    if (buf + bufsize > up.zone) up.zone = up.zone;  // tail of the buffer is not the pool's
                    c.label("fallback memory adjacent above pool");
                    break;
                }
                [[fallthrough]];
            case 0:
                up.zone = arena() + (std::size_t{6} << 20);
                up.zone_end = arena() + kArena;
                break;
            default:
                up.zone = arena();
                up.zone_end = nblocks ? (unsigned char *)data : arena() + (std::size_t{1} << 20);
                if (nblocks)
                {
                    // leave little room so that it ends adjacent to the pool
                    std::size_t room = 8 * B;
                    if (data - (u64)arena() > room) up.zone = (unsigned char *)(data - room);
                    c.label("fallback memory adjacent below pool");
                }
        }
        area_len = std::min<std::size_t>(bufsize + 512, 4096);
        area = buf - 256;
        bool far = giant.on || up.zone >= arena() + (std::size_t{6} << 20);
        if (!far) area_len = 0;  // fallback memory is written by the client too
        for (std::size_t i = 0; i < area_len; ++i) area[i] = (unsigned char)(0xA5 ^ i);
        shadow.assign(area, area + area_len);
        pool.reset(cfg->make(form, null_buf ? nullptr : (std::byte *)buf, bufsize, has_up ? &up : nullptr));
        c.trace("pool max=%zu block=%zu buf=%s%s+%llu size=%zu form=%d up=%d -> blocks=%zu", cfg->n, B,
                giant.on ? "giant " : "", null_buf ? "null" : "arena",
                (unsigned long long)(base - (u64)(giant.on ? giant_arena() : arena())), bufsize, form, has_up, nblocks);
    }

    bool in_pool(const void *p) const { return data && (u64)p >= data && (u64)p < data + nblocks * B; }

    struct Reg
    {
        std::size_t first, count;
        bool busy;
    };
    // partition of the blocks implied by the live allocations
    std::vector<Reg> regions() const
    {
        std::vector<Reg> r;
        std::vector<std::pair<std::size_t, std::size_t>> busy;
        for (auto &a : live)
            if (!a.up)
            {
                std::size_t f = ((u64)a.p - data) / B;
                std::size_t l = ((u64)a.p - data + a.size - 1) / B;
                busy.push_back({f, l - f + 1});
            }
        std::sort(busy.begin(), busy.end());
        std::size_t at = 0;
        for (auto &b : busy)
        {
            if (b.first > at) r.push_back({at, b.first - at, false});
            r.push_back({b.first, b.second, true});
            at = b.first + b.second;
        }
        if (at < nblocks) r.push_back({at, nblocks - at, false});
        return r;
    }
    u64 alignment_cap() const
    {
        u128 low = (u64)(data & (~data + 1));
        u128 v = low + (u128)nblocks * B - 1, p = 1;
        while (p * 2 <= v) p *= 2;
        return (u64)p;
    }
    bool fits(const Reg &r, std::size_t size, std::size_t align) const
    {
        u128 start = data + (u128)r.first * B, end = start + (u128)r.count * B;
        u128 p = (start + align - 1) / align * align;
        return p + size <= end;
    }

    void gen_request(std::size_t &size, std::size_t &align)
    {
        auto regs = regions();
        std::vector<Reg> fr;
        for (auto &r : regs)
            if (!r.busy) fr.push_back(r);
        unsigned lb = 0;
        while ((std::size_t{1} << lb) < B) ++lb;
        switch (c.weighted({6, 4, 3, 1}))
        {
            case 0: align = std::size_t{1} << c.below(lb + 1); break;
            case 1: align = std::size_t{1} << (lb + c.below(5)); break;
            case 2: align = std::size_t{1} << c.below(giant.on ? 36 : 14); break;
            default: align = std::size_t{1} << c.below(64);
        }
        switch (c.weighted({6, 5, 6, 3, 1, 1}))
        {
            case 0: size = 1 + c.below(3 * B); break;
            case 1: size = B * (1 + c.below(4)) + c.below(3) - 1; break;
            case 2:
                if (!fr.empty())
                {
                    auto &r = c.pick(fr);
                    u128 start = data + (u128)r.first * B, end = start + (u128)r.count * B;
                    u128 p = (start + align - 1) / align * align;
                    std::size_t room = p < end ? (std::size_t)(end - p) : r.count * B;
                    size = room + c.below(3) - 1;  // around exact fit
                    if (c.chance(25)) size -= std::min<std::size_t>(size - 1, B * c.below(3));
                    break;
                }
                [[fallthrough]];
            case 3: size = 1 + c.below(nblocks * B + B); break;
            case 4: size = ~std::size_t{0} - c.below(4 * B + 64); break;
            default: size = c.bits(64);
        }
        if (size == 0) size = 1;
    }

    void check_result(unsigned char *p, std::size_t size, std::size_t align, std::size_t calls_before,
                      const std::vector<Reg> &before)
    {
        bool can = false;
        for (auto &r : before)
            if (!r.busy && fits(r, size, align)) can = true;
        bool must = nblocks && can && align <= alignment_cap();
        std::size_t ncalls = up.calls.size() - calls_before;
        if (p)
        {
            if (checks & kLive)
                PBT_CHECK(c, (u64)p % align == 0, "allocation %p is not aligned to %zu", (void *)p, align);
            bool inp = in_pool(p);
            if (inp)
            {
                if (checks & (kLive | kComplete))
                {
                    PBT_CHECK(c, size <= data + nblocks * B - (u64)p, "allocation of %zu ends outside the pool", size);
                    for (auto &a : live)
                        PBT_CHECK(c, p + size <= a.p || a.p + a.size <= p,
                                  "allocation +%llu size %zu overlaps live +%llu size %zu",
                                  (unsigned long long)((u64)p - data), size, (unsigned long long)((u64)a.p - data),
                                  a.size);
                }
                if (checks & kUp) PBT_CHECK(c, ncalls == 0, "fallback was called although the pool served the request");
            }
            else
            {
                auto *k = up.find(p);
                PBT_CHECK(c, has_up && k, "pointer %p is neither in the pool nor from the fallback", (void *)p);
            }
        }
        if (checks & kComplete)
            PBT_CHECK(c, !must || in_pool(p), "request size %zu align %zu fits a free region but was not served", size,
                      align);
        if (checks & kUp)
        {
            if (!in_pool(p))
            {
                if (!has_up)
                    PBT_CHECK(c, p == nullptr, "no fallback but a pointer came back");
                else
                {
                    PBT_CHECK(c, ncalls == 1, "fallback must be asked exactly once, was asked %zu times", ncalls);
                    auto &k = up.calls.back();
                    PBT_CHECK(c, k.size >= size && k.align >= align, "fallback asked for %zu/%zu instead of %zu/%zu",
                              k.size, k.align, size, align);
                    PBT_CHECK(c, k.ptr == p, "fallback's answer %p was replaced by %p", (void *)k.ptr, (void *)p);
                }
            }
            PBT_CHECK(c, !must || in_pool(p), "a request the pool can serve went to the fallback");
        }
        c.raise_deferred();
    }

    void record(unsigned char *p, std::size_t size, std::size_t align)
    {
        if (!p)
        {
            ++n_fail;
            return;
        }
        bool isup = !in_pool(p);
        (isup ? n_alloc_up : n_alloc_pool)++;
        live.push_back({p, size, align, isup, next_seed++});
        if (checks & (kLive | kUp))
        {
            fill(p, size, live.back().seed);
            if (area_len && p >= area && p < area + area_len)
            {
                std::size_t off = p - area;
                std::size_t n = std::min(size, area_len - off);
                memcpy(shadow.data() + off, area + off, n);
            }
        }
    }

    void op_alloc()
    {
        std::size_t size = 0, align = 1;
        gen_request(size, align);
        auto before = regions();
        std::size_t calls = up.calls.size();
        up.fail_next = c.chance(15);
        unsigned char *p;
        switch (c.weighted({12, 1, 1}))
        {
            case 1:
                align = alignof(std::max_align_t);
                p = (unsigned char *)pool->alloc_default(size);
                break;
            case 2:
            {
                int k = (int)c.below(3);
                size = k == 0 ? sizeof(T8) : k == 1 ? sizeof(T32) : sizeof(T1);
                align = k == 0 ? alignof(T8) : k == 1 ? alignof(T32) : alignof(T1);
                p = (unsigned char *)pool->alloc_typed(k);
                break;
            }
            default: p = (unsigned char *)pool->alloc(size, align);
        }
        up.fail_next = false;
        if (!p)
            c.trace("alloc(%zu,%zu)=null", size, align);
        else if (in_pool(p))
            c.trace("alloc(%zu,%zu)=pool+%llu", size, align, (unsigned long long)((u64)p - data));
        else
            c.trace("alloc(%zu,%zu)=up", size, align);
        check_result(p, size, align, calls, before);
        if (in_pool(p))
        {
            u64 blk = ((u64)p - data) / B;
            for (auto &r : before)
                if (!r.busy && r.first < blk && blk < r.first + r.count) ++n_split;
        }
        record(p, size, align);
        after();
    }
    void verify_content(const Alloc &a)
    {
        if (checks & (kLive | kUp))
            PBT_CHECK(c, intact(a.p, a.size, a.seed), "bytes of a live allocation (size %zu) changed", a.size);
    }
    void op_free(std::size_t i)
    {
        Alloc a = live[i];
        verify_content(a);
        std::size_t fr = up.frees;
        auto *k = up.find(a.p);
        c.trace("free(%s%llu)", a.up ? "up" : "pool+", a.up ? 0ull : (unsigned long long)((u64)a.p - data));
        live.erase(live.begin() + i);
        if (!a.up && gone.size() < 64) gone.push_back(a.p);
        pool->dealloc(a.p);
        ++n_free;
        c.raise_deferred();
        if (checks & kUp)
        {
            if (a.up)
                PBT_CHECK(c, up.frees == fr + 1 && k->freed, "fallback memory was not returned to the fallback");
            else
                PBT_CHECK(c, up.frees == fr, "pool memory was handed to the fallback");
        }
        after();
    }
    void op_release()
    {
        for (auto &a : live) verify_content(a);
        std::size_t fr = up.frees, ca = up.calls.size();
        c.trace("release");
        pool->release();
        ++n_release;
        for (auto &a : live)
            if (!a.up && gone.size() < 64) gone.push_back(a.p);
        live.erase(std::remove_if(live.begin(), live.end(), [](auto &a) { return !a.up; }), live.end());
        if (checks & kUp)
            PBT_CHECK(c, up.frees == fr && up.calls.size() == ca, "release touched the fallback");
        after();
    }
    void op_harmless()
    {
        std::size_t fr = up.frees, ca = up.calls.size();
        if (c.chance(50))
        {
            c.trace("free(null)");
            pool->dealloc(nullptr);
        }
        else
        {
            std::size_t al = std::size_t{1} << c.below(12);
            c.trace("alloc(0,%zu)", al);
            void *p = pool->alloc(0, al);
            PBT_CHECK(c, p == nullptr, "zero-size request returned a pointer");
        }
        if (checks & kUp)
            PBT_CHECK(c, up.frees == fr && up.calls.size() == ca, "a harmless call reached the fallback");
        after();
    }

    void after()
    {
        c.raise_deferred();
        if (checks & kBook) check_book();
        if ((checks & kLive) && area_len) check_area();
    }
    void check_area()
    {
        PBT_CHECK(c, memcmp(area, shadow.data(), area_len) == 0,
                  "the buffer's bytes changed outside what the client wrote");
    }
    void check_book()
    {
        if (data)
            PBT_CHECK(c, (u64)pool->data() == data, "pool starts at offset %lld from the first aligned block",
                      (long long)((u64)pool->data() - data));
        PBT_CHECK(c, pool->size() == nblocks * B, "pool size %zu, expected %zu", pool->size(), nblocks * B);
        auto regs = regions();
        std::size_t nf = 0, nb = 0;
        for (auto &r : regs) (r.busy ? nb : nf)++;
        PBT_CHECK(c, pool->busy_count() == nb, "busy count %zu, live allocations %zu", pool->busy_count(), nb);
        PBT_CHECK(c, pool->free_count() == nf, "free count %zu, free regions %zu", pool->free_count(), nf);
        if (!nblocks) return;
        std::size_t i = 0, prev = 0;
        for (std::size_t k = 0; k < regs.size(); ++k)
        {
            auto &r = regs[k];
            PBT_CHECK(c, i == r.first, "region %zu starts at block %zu, expected %zu", k, i, r.first);
            PBT_CHECK(c, pool->in_use(i) == r.busy, "region at block %zu in_use=%d, expected %d", i, pool->in_use(i),
                      r.busy);
            PBT_CHECK(c, pool->block_size(i) == r.count, "region at block %zu has size %zu, expected %zu", i,
                      pool->block_size(i), r.count);
            PBT_CHECK(c, pool->block_size_bytes(i) == r.count * B, "region at block %zu has %zu bytes, expected %zu", i,
                      pool->block_size_bytes(i), r.count * B);
            PBT_CHECK(c, pool->prev(i) == prev, "region at block %zu has previous %zu, expected %zu", i, pool->prev(i),
                      prev);
            std::size_t nx = k + 1 < regs.size() ? regs[k + 1].first : 0;
            PBT_CHECK(c, pool->next(i) == nx, "region at block %zu has next %zu, expected %zu", i, pool->next(i), nx);
            PBT_CHECK(c, pool->info_next(i) == nx, "published table differs from region accessor at %zu", i);
            prev = i;
            i = nx;
        }
    }

    void step()
    {
        switch (c.weighted({56, 38, 2, 4}))
        {
            case 1:
                if (!live.empty())
                {
                    op_free(c.below(live.size()));
                    break;
                }
                [[fallthrough]];
            case 0: op_alloc(); break;
            case 2: op_release(); break;
            default: op_harmless();
        }
    }
    void history(unsigned avg, unsigned max)
    {
        if (nblocks && nblocks <= 300 && !giant.on && c.below(1500) == 1499) op_churn();
        bool may_fill = nblocks > 1 && nblocks <= 1000 && c.chance(nblocks <= 16 ? 12 : nblocks <= 64 ? 6 : 2);
        for (std::size_t i = 0; c.more(avg, i, max); ++i)
        {
            if (may_fill && c.chance(8))
            {
                op_fill();
                may_fill = c.chance(50);
                continue;
            }
            // fill phases make fragmentation with small requests in many-block pools
            if (c.chance(6))
            {
                std::size_t sz = 1 + c.below(2 * B), n = 1 + c.below(12);
                for (std::size_t k = 0; k < n; ++k)
                {
                    auto before = regions();
                    std::size_t calls = up.calls.size();
                    auto *p = (unsigned char *)pool->alloc(sz, 1);
                    if (p && in_pool(p)) c.trace("alloc(%zu,1)=pool+%llu", sz, (unsigned long long)((u64)p - data));
                    check_result(p, sz, 1, calls, before);
                    record(p, sz, 1);
                    after();
                }
                // free every other one
                if (c.chance(60))
                    for (std::size_t k = 0; k < live.size(); ++k) op_free(k);
            }
            else
                step();
        }
    }
    // every block allocated by itself (as far as the free blocks go), then some or all of that undone
    void op_fill()
    {
        c.trace("fill");
        filled_ = true;
        std::size_t free_blocks = 0;
        for (auto &r : regions()) free_blocks += r.busy ? 0 : r.count;
        const std::size_t one = 1 + c.below(B), first = live.size(), calls = up.calls.size();
        for (std::size_t k = 0; k < free_blocks; ++k)
        {
            auto *p = (unsigned char *)pool->alloc(one, 1);
            if (!in_pool(p))
            {
                if (p) record(p, one, 1);
                if (checks & (kComplete | kUp))
                    PBT_CHECK(c, false, "free block %zu of %zu could not be allocated", k, free_blocks);
                break;
            }
            record(p, one, 1);
            if (k % 16 == 0) after();
        }
        after();
        if (checks & (kLive | kComplete))
        {
            std::vector<u64> at;
            for (auto &a : live)
                if (!a.up) at.push_back((u64)a.p);
            std::sort(at.begin(), at.end());
            for (std::size_t k = 1; k < at.size(); ++k)
                PBT_CHECK(c, at[k] - at[k - 1] >= B, "two live allocations in one block");
        }
        if (checks & kUp) PBT_CHECK(c, up.calls.size() == calls, "fallback was called although the pool had free blocks");
        auto *p = (unsigned char *)pool->alloc(1, 1);
        bool full = true;
        for (auto &r : regions()) full = full && r.busy;
        PBT_CHECK(c, !full || !in_pool(p), "a full pool served a request");
        if (p) record(p, 1, 1);
        c.raise_deferred();
        switch (c.below(3))
        {
            case 0: op_release(); break;
            case 1:
                for (bool up_too = c.chance(50); live.size() > first;)
                {
                    std::size_t i = first + c.below(live.size() - first);
                    if (live[i].up && !up_too)
                    {
                        up_too = true;
                        continue;
                    }
                    quick_free(i);
                    if (live.size() % 16 == 0) after();
                }
                after();
                break;
            default:
                for (std::size_t n = c.below(40); n && live.size() > first; --n) quick_free(first + c.below(live.size() - first));
                after();
        }
    }
    // a long run of small allocations and frees over a few live ones, driven by one seed
    void op_churn()
    {
        const std::size_t n = std::array<std::size_t, 4>{300, 1200, 5000, 70000}[c.weighted({60, 25, 13, 2})];
        u64 s = c.bits(64);
        const std::size_t keep = live.size() + 1 + c.below(8);
        c.trace("churn of %zu steps (seed %llx)", n, (unsigned long long)s);
        churned_ += n;
        for (std::size_t k = 0; k < n; ++k)
        {
            s = mix64(s + k);
            auto before = regions();
            std::size_t size = 1 + (s >> 8) % (3 * B), align = std::size_t{1} << (s >> 40) % 6;
            if (s % 4 == 0) size = 1 + (s >> 8) % B, align = 1;
            bool ok = false;
            for (auto &r : before) ok = ok || (!r.busy && align <= alignment_cap() && fits(r, size, align));
            if (ok && (live.empty() || (live.size() < keep && s % 3)))
            {
                std::size_t calls = up.calls.size();
                auto *p = (unsigned char *)pool->alloc(size, align);
                check_result(p, size, align, calls, before);
                record(p, size, align);
            }
            else if (!live.empty())
                quick_free((s >> 48) % live.size());
            c.raise_deferred();
            if (checks & kBook) check_book();
        }
        after();
    }
    void quick_free(std::size_t i)
    {
        Alloc a = live[i];
        verify_content(a);
        live[i] = live.back();
        live.pop_back();
        pool->dealloc(a.p);
        ++n_free;
        c.raise_deferred();
    }
    void drain()
    {
        bool rel = c.chance(30);
        if (rel) op_release();
        while (!live.empty()) op_free(c.below(live.size()));
        if ((checks & kComplete) && nblocks)
        {
            PBT_CHECK(c, pool->busy_count() == 0 && pool->free_count() == 1,
                      "after everything was freed there are %zu busy and %zu free regions", pool->busy_count(),
                      pool->free_count());
            std::size_t whole = nblocks * B;
            unsigned lb = 0;
            while ((std::size_t{1} << lb) < B) ++lb;
            // every pool starts at a multiple of its block size
            auto *p = (unsigned char *)pool->alloc(whole, std::size_t{1} << c.below(lb + 1));
            PBT_CHECK(c, p && (u64)p == data, "a request for the whole pool (%zu bytes) was not served from it", whole);
            pool->dealloc(p);
            // and as many single blocks as there are
            if (nblocks <= 300 && c.chance(30))
            {
                std::vector<void *> v;
                for (std::size_t k = 0; k < nblocks; ++k)
                {
                    auto *q = pool->alloc(1 + c.below(B), 1);
                    PBT_CHECK(c, in_pool(q), "block %zu of %zu could not be allocated", k, nblocks);
                    v.push_back(q);
                }
                std::size_t calls = up.calls.size();
                auto *q = (unsigned char *)pool->alloc(1, 1);
                PBT_CHECK(c, !in_pool(q), "more blocks handed out than the pool has");
                if (q) pool->dealloc(q);
                (void)calls;
                while (!v.empty())
                {
                    std::size_t k = c.below(v.size());
                    pool->dealloc(v[k]);
                    v.erase(v.begin() + k);
                }
                auto *w = (unsigned char *)pool->alloc(whole, 1);
                PBT_CHECK(c, (u64)w == data, "the whole pool is not available after all blocks were freed");
                pool->dealloc(w);
            }
        }
        c.raise_deferred();
        if (checks & kUp)
        {
            for (auto &k : up.calls)
                PBT_CHECK(c, !k.ptr || k.freed, "memory of the fallback was never returned");
        }
        done_ = true;
        pool.reset();  // aborts when the pool believes something is live
        c.raise_deferred();
    }
    void classify()
    {
        c.label("every block allocated by itself", filled_);
        c.label("split inside a free region (alignment gap)", n_split > 0);
        c.label("churn of 300 steps or more", churned_ > 0);
        c.label("churn of 70000 steps", churned_ >= 70000);
        c.label("fallback used", n_alloc_up > 0);
        c.label("request failed", n_fail > 0);
        c.label("release with live allocations", n_release > 0);
        c.label(">=3 pool allocations and >=2 frees", n_alloc_pool >= 3 && n_free >= 2);
        c.label("pool of >255 blocks", nblocks > 255);
        c.label("pool of >65535 blocks", nblocks > 65535);
        c.label("pool beyond 4 GiB", nblocks * B > (std::size_t{1} << 32));
        c.label("no usable block", nblocks == 0);
    }
};
}  // namespace pool
