#include "pool.hpp"
#include <utils/memory/monotonic_buffer_resource.h>
using namespace pool;
using MB = um::monotonic_buffer_resource;

namespace
{
// reference model of one buffer
struct Model
{
    u64 base = 0, next = 0;
    std::size_t size = 0;
    bool serve(std::size_t s, std::size_t a, u64 &p) const
    {
        if (!size) return false;
        u128 q = ((u128)next + a - 1) / a * a;
        if (q + s > (u128)base + size) return false;
        p = (u64)q;
        return true;
    }
};

MB *make(Ctx &c, std::byte *buf, std::size_t &size, um::memory_resource *up, int form)
{
    auto with_default = [&](auto f)
    {
        auto *old = um::set_default_resource(up);
        MB *m = f();
        um::set_default_resource(old);
        return m;
    };
    (void)c;
    switch (form)
    {
        case 0: return new MB(buf, size, up);
        case 1: return with_default([&] { return new MB(buf, size); });
        case 2: size = 256; return new MB(reinterpret_cast<std::byte(&)[256]>(*buf), up);
        case 3: size = 1; return new MB(reinterpret_cast<std::byte(&)[1]>(*buf), up);
        case 4:
            size = 256;
            return with_default([&] { return new MB(reinterpret_cast<std::byte(&)[256]>(*buf)); });
        default:
            size = 4096;
            return with_default([&] { return new MB(reinterpret_cast<std::byte(&)[4096]>(*buf)); });
    }
}

void gen(Ctx &c, const Model &m, std::size_t &size, std::size_t &align)
{
    switch (c.weighted({8, 3, 1}))
    {
        case 0: align = std::size_t{1} << c.below(6); break;
        case 1: align = std::size_t{1} << c.below(m.size >> 32 ? 34 : 14); break;
        default: align = std::size_t{1} << c.below(64);
    }
    u128 q = ((u128)m.next + align - 1) / align * align, end = (u128)m.base + m.size;
    std::size_t room = q < end ? (std::size_t)(end - q) : 0;
    switch (c.weighted({8, 5, 2, 1, 1, 1}))
    {
        case 0: size = 1 + c.below(40); break;
        case 1: size = room + c.below(3) - 1; break;
        case 2: size = 1 + c.below(room + 2); break;
        case 3: size = ~std::size_t{0} - c.below(5000); break;
        case 4: size = c.bits(64); break;
        default: size = ~std::size_t{0} - (std::size_t)q + c.below(3) - 1; break;  // wraps around the address space
    }
    if (size == 0 || (room == 0 && size > (~std::size_t{0} >> 1) && c.chance(80))) size = 1 + c.below(8);
}
}  // namespace

PBT_TARGET(M06_history, 700000, 16000000,
           "history of allocate/deallocate/release on a buffer; non-trivial: at least 2 requests served from the buffer "
           "with padding or an exact fit, and one that went to the fallback or failed")
{
    const std::size_t levels = 1 + c.chance(20);
    Up up;
    up.c = &c;
    up.zone = arena() + (std::size_t{6} << 20);
    up.zone_end = arena() + kArena;
    bool has_up = c.chance(70);
    std::vector<Model> mod(levels);
    std::vector<std::unique_ptr<MB>> res(levels);
    GiantGuard giant;
    giant.on = c.chance(4) && giant_arena();
    const u64 origin = giant.on ? (u64)giant_arena() : (u64)arena();
    u64 at = origin + (std::size_t{2} << 20);
    for (std::size_t k = levels; k-- > 0;)
    {
        Model &m = mod[k];
        u64 b = at + c.below(5000);
        if (c.chance(40)) b = align_up(b, u64{1} << c.below(13));
        std::size_t size;
        switch (c.weighted({4, 4, 2, 1}))
        {
            case 0: size = 1 + c.below(300); break;
            case 1: size = 1 + c.below(5000); break;
            case 2: size = 1 + c.below(16); break;
            default: size = std::size_t{1} << c.below(16);
        }
        if (giant.on)
        {  // buffers around and beyond 4 GiB
            size = c.chance(50) ? (std::size_t{1} << 32) + c.below(100000) - 50000 : 1 + c.below(std::size_t{12} << 30);
            if (c.chance(50)) b = align_up(b, u64{1} << c.below(34)) + c.below(3);
        }
        int form = (int)c.weighted({8, 3, 1, 1, 1, 1});
        bool null_buf = false;
        if (c.chance(4))
        {
            null_buf = c.chance(60);
            if (!null_buf) size = 0;
            form &= 1;
        }
        um::memory_resource *u = k + 1 < levels ? (um::memory_resource *)res[k + 1].get() : has_up ? &up : nullptr;
        res[k].reset(make(c, null_buf ? nullptr : (std::byte *)b, size, u, form));
        if (null_buf || !size)
            m.base = m.next = 0, m.size = 0;
        else
            m.base = m.next = b, m.size = size;
        c.trace("buffer%zu %s+%llu size=%zu form=%d", k, null_buf ? "null" : "arena",
                (unsigned long long)(b - origin), size, form);
        at = b + size;
        if (c.chance(50)) at += c.below(64);
        PBT_CHECK(c, (u64)res[k]->data() == m.base, "data() is %p", (const void *)res[k]->data());
        PBT_CHECK(c, res[k]->size() == m.size, "size() is %zu, expected %zu", res[k]->size(), m.size);
    }
    unsigned char *area = (unsigned char *)origin + (std::size_t{2} << 20) - 64;
    const std::size_t area_len = std::min<std::size_t>(at + 128 - (u64)area, 30000);
    for (std::size_t i = 0; i < area_len; ++i) area[i] = (unsigned char)(i * 7 + 3);
    std::vector<unsigned char> shadow(area, area + area_len);
    struct L
    {
        unsigned char *p;
        std::size_t n;
        unsigned seed;
        std::size_t level;
    };
    std::vector<L> live;
    unsigned seed = 1;
    bool padded = false, exact = false, spilled = false, released = false;
    unsigned served = 0;
    um::memory_resource &top = *res[0];
    std::size_t expect_up = 0;
    for (std::size_t i = 0; c.more(20, i, 100); ++i)
    {
        switch (c.weighted({70, 12, 6, 6}))
        {
            case 0:
            {
                std::size_t size, align;
                gen(c, c.pick(mod), size, align);
                up.fail_next = c.chance(20);
                u64 want = 0;
                std::size_t lv = 0;
                while (lv < levels && !mod[lv].serve(size, align, want)) ++lv;
                auto *p = (unsigned char *)top.allocate(size, align);
                up.fail_next = false;
                c.trace("alloc(%zu,%zu)=%s%zu", size, align, p ? "level " : "null ", lv);
                c.raise_deferred();
                if (lv < levels)
                {
                    PBT_CHECK(c, (u64)p == want, "served at offset %lld of the buffer, expected %lld",
                              p ? (long long)((u64)p - mod[lv].base) : -1ll, (long long)(want - mod[lv].base));
                    padded = padded || want != mod[lv].next;
                    exact = exact || want + size == mod[lv].base + mod[lv].size;
                    mod[lv].next = want + size;
                    ++served;
                }
                else
                {
                    spilled = true;
                    if (has_up)
                    {
                        ++expect_up;
                        PBT_CHECK(c, up.calls.size() == expect_up, "fallback called %zu times instead of once",
                                  up.calls.size() - expect_up + 1);
                        auto &k = up.calls.back();
                        PBT_CHECK(c, k.size == size && k.align == align, "fallback asked for %zu/%zu instead of %zu/%zu",
                                  k.size, k.align, size, align);
                        PBT_CHECK(c, k.ptr == p, "the fallback's answer was not passed on");
                    }
                    else
                        PBT_CHECK(c, !p, "a request that fits nowhere returned %p", (void *)p);
                }
                PBT_CHECK(c, up.calls.size() == expect_up, "the fallback was called for a request the buffer serves");
                if (p)
                {
                    live.push_back({p, size, seed, lv});
                    fill(p, size, seed++);
                    if (p >= area && p < area + area_len)
                        memcpy(shadow.data() + (p - area), p, std::min<std::size_t>(size, area + area_len - p));
                }
                break;
            }
            case 1:
            {
                void *p = nullptr;
                switch (c.below(3))
                {
                    case 0: break;
                    case 1: p = live.empty() ? nullptr : (void *)c.pick(live).p; break;
                    default: p = (void *)(at + c.below(100));
                }
                c.trace("deallocate(%p)", p);
                top.deallocate(p);
                break;
            }
            case 2:
            {
                std::size_t k = c.below(levels);
                c.trace("release %zu", k);
                res[k]->release();
                mod[k].next = mod[k].base;
                live.erase(std::remove_if(live.begin(), live.end(), [&](auto &l) { return l.level == k; }), live.end());
                released = true;
                break;
            }
            default:
            {
                std::size_t a = std::size_t{1} << c.below(64);
                c.trace("alloc(0,%zu)", a);
                PBT_CHECK(c, top.allocate(0, a) == nullptr, "a zero-size request returned a pointer");
            }
        }
        c.raise_deferred();
        PBT_CHECK(c, up.calls.size() == expect_up && up.frees == 0, "the fallback received an unexpected call");
        PBT_CHECK(c, (u64)res[0]->data() == mod[0].base && res[0]->size() == mod[0].size, "data() or size() changed");
        for (auto &l : live)
            PBT_CHECK(c, intact(l.p, l.n, l.seed), "bytes of a live allocation changed");
        PBT_CHECK(c, memcmp(area, shadow.data(), area_len) == 0, "bytes nobody wrote changed");
    }
    // after a release everything is available again
    res[0]->release();
    if (mod[0].size)
    {
        auto *p = top.allocate(mod[0].size, 1);
        PBT_CHECK(c, (u64)p == mod[0].base, "after release a request for the whole buffer was not served from it");
    }
    c.label("buffer beyond 4 GiB", giant.on && mod[0].size >> 32);
    c.label("padding before an allocation", padded);
    c.label("exact fit", exact);
    c.label("request beyond the buffer", spilled);
    c.label("release in between", released);
    c.nontrivial(served >= 2 && (padded || exact) && spilled);
}
PBT_MAIN
