// Pools with tens of thousands of live allocations and free regions (M02, M03, M05). They are filled from the end: a
// filler takes everything in front, the next allocation lands behind it, the filler is freed again; so every step looks
// at a few regions only. Where an allocation really lands is read from the pointer, no placement is assumed.
#pragma once
#include <map>
#include "pool.hpp"

namespace crowd
{
using namespace pbt;
namespace um = utils::memory;
constexpr std::size_t N = 140000, B = 2;
using Pool = um::simple_resource<N, B>;

struct World
{
    Ctx &c;
    std::unique_ptr<Pool> pool;
    std::map<std::size_t, std::size_t> live;  // first block -> blocks
    std::size_t most_live = 0, most_gaps = 0;
    static std::byte *buffer()
    {
        alignas(64) static std::byte b[N * B];
        return b;
    }
    explicit World(Ctx &c_) : c(c_), pool(new Pool(buffer(), N * B, nullptr)) {}
    ~World()
    {
        if (!pool) return;
        pool->release();
    }
    std::size_t alloc(std::size_t blocks)
    {
        const std::size_t bytes = blocks * B - (blocks & 1);
        auto *p = static_cast<std::byte *>(pool->allocate(bytes, 1));
        PBT_CHECK(c, p, "a request of %zu blocks, which fits, was not served with %zu allocations live", blocks, live.size());
        PBT_CHECK(c, p >= buffer() && p + bytes <= buffer() + N * B && (p - buffer()) % B == 0, "a request was served outside the pool");
        const std::size_t first = std::size_t(p - buffer()) / B;
        auto it = live.lower_bound(first);
        PBT_CHECK(c, it == live.end() || first + blocks <= it->first, "two allocations overlap with %zu allocations live", live.size());
        if (it != live.begin())
        {
            --it;
            PBT_CHECK(c, it->first + it->second <= first, "two allocations overlap with %zu allocations live", live.size());
        }
        live[first] = blocks;
        return first;
    }
    void free(std::size_t first)
    {
        pool->deallocate(buffer() + first * B);
        live.erase(first);
    }
    // the lowest block in use, i.e. the length of the free region in front
    std::size_t front() const { return live.empty() ? N : live.begin()->first; }
    bool prepend(std::size_t blocks, std::size_t gap)
    {
        const std::size_t f = front();
        if (f < blocks + gap) return false;
        std::size_t filler = N;
        if (f > blocks + gap) filler = alloc(f - blocks - gap);
        alloc(blocks);
        if (filler != N) free(filler);
        return true;
    }
    void fill(std::size_t want_live, std::size_t want_gaps, unsigned mode)
    {
        for (std::size_t k = 0; k < N && (live.size() < want_live || made < want_gaps); ++k)
        {
            const std::size_t blocks = mode == 2 ? 1 + c.below(2) : 1, gap = mode == 0 ? 0 : mode == 1 ? 1 : c.below(2);
            if (!prepend(blocks, gap)) break;
            made += gap > 0;
        }
    }
    std::size_t made = 0;
    void thin(std::size_t times)
    {
        std::vector<std::size_t> at;
        for (auto &a : live) at.push_back(a.first);
        for (std::size_t k = 0; k < times && !at.empty(); ++k)
        {
            std::size_t i = c.below(at.size());
            free(at[i]);
            at[i] = at.back();
            at.pop_back();
        }
    }
    void check_map()
    {
        const Pool &is = *pool;
        std::size_t at = 0, prev = 0, busy = 0, fre = 0;
        auto region = [&](std::size_t first, std::size_t blocks, bool used)
        {
            const auto i = static_cast<Pool::BIndex>(first);
            PBT_CHECK(c, is.in_use(i) == used, "block %zu is %s", first, used ? "in use, but not marked so" : "free, but marked as in use");
            PBT_CHECK(c, is.block_size(i) == blocks, "the region at %zu has %zu blocks, published are %zu", first, blocks, is.block_size(i));
            PBT_CHECK(c, is.at(i).prev_index() == prev, "the region at %zu links back to %zu instead of %zu", first,
                      (std::size_t)is.at(i).prev_index(), prev);
            PBT_CHECK(c, is.at(i).next_index() == (first + blocks < N ? first + blocks : 0), "the region at %zu links to %zu", first,
                      (std::size_t)is.at(i).next_index());
            prev = first;
            ++(used ? busy : fre);
        };
        for (auto &a : live)
        {
            if (at < a.first) region(at, a.first - at, false);
            region(a.first, a.second, true);
            at = a.first + a.second;
        }
        if (at < N) region(at, N - at, false);
        PBT_CHECK(c, is.busy_count() == busy, "%zu regions are in use, published are %zu", busy, (std::size_t)is.busy_count());
        PBT_CHECK(c, is.free_count() == fre, "%zu regions are free, published are %zu", fre, (std::size_t)is.free_count());
        most_live = std::max(most_live, busy);
        most_gaps = std::max(most_gaps, fre);
    }
};

// how many: around a multiple of 65536, or anything
inline std::size_t goal(Ctx &c, std::size_t max)
{
    return std::min(max, c.chance(60) ? 65536 * (1 + c.below(max / 65536)) + c.below(5) - 2 : c.below(max + 1));
}
}  // namespace crowd
