#include "pool.hpp"
using namespace pool;

PBT_TARGET(M04_history, 500000, 12000000,
           "history on a pool over a recording fallback that succeeds or fails; non-trivial: the fallback served or "
           "refused a request and the pool served one")
{
    World w(c, kUp | kLive);
    w.setup(true);
    w.history(25, 120);
    w.drain();
    w.classify();
    c.nontrivial(w.n_alloc_pool >= 1 && !w.up.calls.empty());
}

// Pools whose fallbacks are pools; the last one has a recording fallback or none.
PBT_TARGET(M04_chain, 250000, 6000000,
           "history on a chain of 2..4 pools with neighbouring buffers; non-trivial: at least two members of the chain "
           "served a request")
{
    struct P
    {
        const Cfg *cfg;
        std::unique_ptr<IPool> p;
        u64 data = 0;
        std::size_t n = 0;
        std::size_t B() const { return cfg->b; }
        bool has(const void *q) const { return n && (u64)q >= data && (u64)q < data + n * B(); }
    };
    Up up;
    up.c = &c;
    const std::size_t len = 2 + c.below(3);
    std::vector<P> ch(len);
    bool has_up = c.chance(60);
    // places for the buffers, in a random order, next to each other or with a gap
    std::vector<std::size_t> place(len);
    for (std::size_t i = 0; i < len; ++i) place[i] = i;
    for (std::size_t i = 0; i + 1 < len; ++i) std::swap(place[i], place[i + c.below(len - i)]);
    std::vector<std::pair<u64, std::size_t>> bufs(len);
    u64 at = (u64)arena() + (std::size_t{2} << 20) + c.below(130);
    for (auto &p : ch)
    {
        do
            p.cfg = &c.pick(small_cfgs());
        while (p.cfg->n * p.cfg->b > 40000);
    }
    for (std::size_t k = 0; k < len; ++k)
    {
        P &p = ch[place[k]];
        std::size_t size = p.cfg->n * p.B();
        if (c.chance(40)) size = 1 + c.below(size);
        if (c.chance(60))
            at = align_up(at, p.B());  // no gap when the block sizes allow
        else
            at += c.below(100);
        bufs[place[k]] = {at, size};
        u64 first = align_up(at, p.B());
        p.n = at + size > first ? (std::size_t)((at + size - first) / p.B()) : 0;
        if (p.n > p.cfg->n) p.n = p.cfg->n;
        p.data = p.n ? first : 0;
        at += size;
    }
    if (c.chance(50))
    {
        up.zone = (unsigned char *)at;
        up.zone_end = up.zone + (std::size_t{1} << 20);
    }
    else
    {
        up.zone = arena() + (std::size_t{6} << 20);
        up.zone_end = arena() + kArena;
    }
    for (std::size_t k = len; k-- > 0;)
    {
        um::memory_resource *next = k + 1 < len ? ch[k + 1].p->res() : has_up ? &up : nullptr;
        ch[k].p.reset(ch[k].cfg->make((int)c.below(2), (std::byte *)bufs[k].first, bufs[k].second, next));
        c.trace("pool%zu max=%zu block=%zu at=%llu size=%zu blocks=%zu", k, ch[k].cfg->n, ch[k].B(),
                (unsigned long long)(bufs[k].first - (u64)arena()), bufs[k].second, ch[k].n);
    }
    struct L
    {
        unsigned char *p;
        std::size_t size, level;
        unsigned seed;
    };
    struct Rel  // on failure the pools are abandoned
    {
        std::vector<P> &ch;
        bool ok = false;
        ~Rel()
        {
            if (!ok)
                for (auto &p : ch) p.p.release();
        }
    } rel{ch};
    std::vector<L> live;
    unsigned seed = 1;
    std::set<std::size_t> used;
    auto can = [&](std::size_t k, std::size_t size, std::size_t align)
    {
        P &p = ch[k];
        if (!p.n) return false;
        std::vector<bool> busy(p.n);
        for (auto &l : live)
            if (l.level == k)
                for (u64 b = ((u64)l.p - p.data) / p.B(); b <= ((u64)l.p - p.data + l.size - 1) / p.B(); ++b) busy[b] = true;
        u128 low = p.data & (~p.data + 1), v = low + (u128)p.n * p.B() - 1, cap = 1;
        while (cap * 2 <= v) cap *= 2;
        if (align > cap) return false;
        for (std::size_t b = 0; b < p.n; ++b)
        {
            u64 q = p.data + b * p.B();
            if (q % align) continue;
            std::size_t need = (std::size_t)(((u128)size + p.B() - 1) / p.B()), k2 = 0;
            while (k2 < need && b + k2 < p.n && !busy[b + k2]) ++k2;
            if (k2 == need) return true;
        }
        return false;
    };
    auto verify = [&](const char *when)
    {
        c.raise_deferred();
        std::vector<std::size_t> cnt(len + 1);
        for (auto &l : live) ++cnt[l.level];
        for (std::size_t k = 0; k < len; ++k)
            PBT_CHECK(c, ch[k].p->busy_count() == cnt[k], "%s: pool%zu counts %zu regions in use, %zu are live", when, k,
                      ch[k].p->busy_count(), cnt[k]);
        std::size_t up_live = 0;
        for (auto &k : up.calls) up_live += k.ptr && !k.freed;
        PBT_CHECK(c, up_live == cnt[len], "%s: the last fallback has %zu live blocks, expected %zu", when, up_live, cnt[len]);
    };
    auto free_one = [&](std::size_t i)
    {
        L l = live[i];
        PBT_CHECK(c, intact(l.p, l.size, l.seed), "bytes of a live allocation changed");
        live.erase(live.begin() + i);
        c.trace("free(level %zu)", l.level);
        ch[0].p->dealloc(l.p);
        verify("after free");
    };
    for (std::size_t i = 0; c.more(25, i, 100); ++i)
    {
        if (!live.empty() && c.chance(38))
            free_one(c.below(live.size()));
        else
        {
            std::size_t size, align = std::size_t{1} << c.below(9);
            switch (c.weighted({5, 4, 1}))
            {
                case 0: size = 1 + c.below(3 * ch[0].B()); break;
                case 1:
                {
                    P &p = c.pick(ch);
                    size = 1 + c.below(p.n * p.B() + p.B());
                    break;
                }
                default: size = ~std::size_t{0} - c.below(200);
            }
            up.fail_next = c.chance(15);
            auto *q = (unsigned char *)ch[0].p->alloc(size, align);
            bool refused = up.fail_next;
            up.fail_next = false;
            std::size_t lv = len;
            for (std::size_t k = 0; q && k < len; ++k)
                if (ch[k].has(q)) lv = k;
            c.trace("alloc(%zu,%zu)=%s%zu", size, align, q ? "level " : "null ", lv);
            // a member may be asked for at most the strongest block alignment of those before it
            std::size_t a = align;
            for (std::size_t k = 0; k < lv; ++k)
            {
                PBT_CHECK(c, !can(k, size, a), "pool%zu can serve size %zu align %zu but was passed over", k, size, a);
                a = std::max(a, ch[k].B());
            }
            if (!q)
            {
                bool zone_can = has_up && !refused && size < 100000 && a <= 4096 &&
                                (std::size_t)(up.zone_end - up.zone) > 200000;
                PBT_CHECK(c, !zone_can, "the last fallback can serve size %zu but the request failed", size);
                verify("after failed alloc");
                continue;
            }
            used.insert(lv);
            if (lv == len) PBT_CHECK(c, has_up && up.find(q), "pointer %p belongs to nobody", (void *)q);
            PBT_CHECK(c, (u64)q % align == 0, "allocation not aligned to %zu", align);
            if (lv < len)
                PBT_CHECK(c, (u64)q + size <= ch[lv].data + ch[lv].n * ch[lv].B(), "allocation leaves its pool");
            for (auto &l : live)
                PBT_CHECK(c, q + size <= l.p || l.p + l.size <= q, "allocation overlaps a live one");
            live.push_back({q, size, lv, seed});
            fill(q, size, seed++);
            verify("after alloc");
        }
    }
    while (!live.empty()) free_one(c.below(live.size()));
    rel.ok = true;
    for (auto &p : ch) p.p.reset();
    c.raise_deferred();
    c.label("three or more members used", used.size() >= 3);
    c.nontrivial(used.size() >= 2);
}
PBT_MAIN
