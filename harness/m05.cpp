#include "crowd.hpp"
using namespace pool;

PBT_TARGET_NOFUZZ(M05_misuse, 24000, 400000,
                  "history followed by one misuse in a child process, which must end by abort with a message on "
                  "standard error; non-trivial: the misuse follows at least one free or two allocations")
{
    World w(c, 0);
    w.setup(true);
    w.history(10, 60);
    std::set<u64> starts;
    for (auto &a : w.live)
        if (!a.up) starts.insert((u64)a.p);
    unsigned char *bad = nullptr;
    const char *kind = "";
    bool destroy = false;
    switch (c.weighted({5, 5, 4, 4, 4}))
    {
        case 0:  // freed before
        {
            std::vector<unsigned char *> g;
            for (auto *p : w.gone)
                if (!starts.count((u64)p)) g.push_back(p);
            if (!g.empty())
            {
                bad = c.pick(g);
                kind = "freed before";
                break;
            }
            [[fallthrough]];
        }
        case 1:  // any block which does not start a live allocation
            if (w.nblocks)
            {
                std::size_t b = c.below(w.nblocks), k = 0;
                if (!starts.empty() && c.chance(60))
                {  // close to a live allocation
                    std::vector<const Alloc *> in;
                    for (auto &a : w.live)
                        if (!a.up) in.push_back(&a);
                    auto &a = *c.pick(in);
                    const std::size_t first = ((u64)a.p - w.data) / w.B, last = ((u64)a.p + a.size - 1 - w.data) / w.B;
                    switch (c.below(5))
                    {
                        case 0: b = first + 1; break;
                        case 1: b = last; break;
                        case 2: b = last + 1; break;
                        case 3: b = first + w.nblocks - 1; break;
                        default: b = first + c.below(last - first + 1);
                    }
                    b %= w.nblocks;
                }
                while (k < w.nblocks && starts.count(w.data + b * w.B))
                {
                    b = (b + 1) % w.nblocks;
                    ++k;
                }
                if (k < w.nblocks)
                {
                    bad = (unsigned char *)w.data + b * w.B;
                    kind = "block inside an allocation or a free region";
                    break;
                }
            }
            [[fallthrough]];
        case 2:  // off the block grid
            if (w.nblocks && w.B > 1)
            {
                u64 base = w.data + c.below(w.nblocks) * w.B;
                if (!starts.empty() && c.chance(60))
                {
                    auto it = starts.begin();
                    std::advance(it, c.below(starts.size()));
                    base = *it;
                }
                bad = (unsigned char *)base + 1 + c.below(w.B - 1);
                kind = "misaligned";
                break;
            }
            [[fallthrough]];
        case 3:  // foreign
            if (!w.has_up)
            {
                u64 lo = w.nblocks ? w.data : (u64)w.buf, hi = w.nblocks ? w.data + w.nblocks * w.B : (u64)w.buf;
                switch (c.below(6))
                {
                    case 0: bad = (unsigned char *)hi; break;
                    case 1: bad = (unsigned char *)(lo - w.B); break;
                    case 2: bad = (unsigned char *)hi + w.B * c.below(1000); break;
                    case 3: bad = (unsigned char *)(lo - w.B * (1 + c.below(1000))); break;
                    case 4: bad = (unsigned char *)(hi + c.below(4096)); break;
                    default: bad = (unsigned char *)(w.B * (1 + c.below(64))); break;
                }
                kind = "foreign";
                break;
            }
            [[fallthrough]];
        default:
            if (!starts.empty())
            {
                destroy = true;
                kind = "destroyed with live allocations";
            }
    }
    if (bad || destroy)
    {
        c.trace("misuse: %s offset %lld", kind, bad ? (long long)((u64)bad - w.data) : 0ll);
        auto d = in_child(
            [&]
            {
                if (destroy)
                    w.pool.reset();
                else
                    w.pool->dealloc(bad);
            });
        PBT_CHECK(c, d.aborted, "misuse (%s) was not stopped: %s %.200s", kind, d.clean ? "the call returned" : d.how.c_str(),
                  d.err.c_str());
        PBT_CHECK(c, !d.err.empty(), "misuse (%s) was stopped without a message", kind);
        c.label(kind);
        c.nontrivial(w.n_alloc_pool >= 2 || w.n_free >= 1);
    }
    // nothing but the misuse aborts
    w.drain();
}

PBT_TARGET_NOFUZZ(M05_many, 4000, 40000,
                  "a pool with a given number of live allocations (also multiples of 256) is destroyed in a child process: must abort with "
                  "a message, and must not once all of them are freed; non-trivial: every case")
{
    World w(c, 0);
    w.setup(false);
    w.history(c.below(2) ? 5 : 0, 20);
    std::size_t want = 0, room = 0;
    for (auto &r : w.regions()) room += r.busy ? 0 : r.count;
    for (auto &a : w.live) want += !a.up;
    const std::size_t before = want;
    switch (c.below(4))
    {
        case 0: want += c.below(room + 1); break;
        case 1: want += c.below(std::min<std::size_t>(room, 9) + 1); break;
        default: want = 256 * (1 + c.below(3)) + c.below(3) - 1; break;
    }
    want = std::min({want, before + room, std::size_t{1025}});
    std::vector<void *> more;
    for (std::size_t k = before; k < want; ++k)
    {
        void *p = w.pool->alloc(1, 1);
        PBT_CHECK(c, w.in_pool(p), "a free block could not be allocated");
        more.push_back(p);
    }
    c.trace("%zu allocations live", want);
    c.nontrivial();
    c.label("a multiple of 256 live", want && want % 256 == 0);
    if (want > 0)
    {
        auto d = in_child([&] { w.pool.reset(); });
        PBT_CHECK(c, d.aborted, "destroying a pool with %zu live allocations was not stopped: %s %.200s", want,
                  d.clean ? "the call returned" : d.how.c_str(), d.err.c_str());
        PBT_CHECK(c, !d.err.empty(), "destroying a pool with live allocations was stopped without a message");
    }
    while (!more.empty())
    {
        std::size_t k = c.below(more.size());
        w.pool->dealloc(more[k]);
        more[k] = more.back();
        more.pop_back();
    }
    w.drain();
}

PBT_TARGET(M05_harmless, 300000, 6000000,
           "history with null frees, zero-size requests and releases of empty or unusable pools in between, then "
           "destruction of the empty pool; non-trivial: a harmless call came after a free")
{
    World w(c, kBook | kLive | kUp);
    w.setup(true);
    bool nt = false;
    for (std::size_t i = 0; c.more(12, i, 60); ++i)
    {
        if (c.chance(45))
        {
            w.op_harmless();
            nt = nt || w.n_free;
        }
        else
            w.step();
    }
    while (!w.live.empty()) w.op_free(c.below(w.live.size()));
    for (std::size_t i = 0; i < 3; ++i)
    {
        if (c.chance(50))
        {
            w.op_release();
            nt = nt || w.n_free;
        }
        else
            w.op_harmless();
    }
    w.drain();
    w.classify();
    c.nontrivial(nt || w.nblocks == 0);
}

PBT_TARGET_NOFUZZ(M05_crowd, 32, 400,
                  "a pool with up to 140000 live allocations (mostly about a multiple of 65536) is destroyed in a child process: must abort "
                  "with a message; so must freeing one of them again; non-trivial: at least 65535 allocations live")
{
    crowd::World w(c);
    w.fill(crowd::goal(c, crowd::N), 0, c.below(3));
    if (c.chance(30) && w.live.size() > 65536) w.thin(w.live.size() - 65536);
    c.trace("%zu live", w.live.size());
    c.nontrivial(w.live.size() >= 65535);
    if (w.live.empty()) return;
    auto d = in_child([&] { w.pool.reset(); });
    PBT_CHECK(c, d.aborted, "destroying a pool with %zu live allocations was not stopped: %s %.200s", w.live.size(),
              d.clean ? "the call returned" : d.how.c_str(), d.err.c_str());
    PBT_CHECK(c, !d.err.empty(), "destroying a pool with live allocations was stopped without a message");
    auto it = w.live.begin();
    std::advance(it, c.below(std::min<std::size_t>(w.live.size(), 1000)));
    const std::size_t b = it->first;
    w.free(b);
    auto d2 = in_child([&] { w.pool->deallocate(crowd::World::buffer() + b * crowd::B); });
    PBT_CHECK(c, d2.aborted, "freeing an allocation twice with %zu others live was not stopped: %s %.200s", w.live.size(),
              d2.clean ? "the call returned" : d2.how.c_str(), d2.err.c_str());
}
PBT_MAIN
