#include "crowd.hpp"
using namespace pool;
PBT_TARGET(M03_history, 600000, 12000000,
           "history of allocate/deallocate/release on a generated pool; non-trivial: at least 3 pool allocations and 1 free")
{
    World w(c, kComplete);
    w.setup(true);
    w.history(25, 120);
    w.drain();
    w.classify();
    c.nontrivial(w.n_alloc_pool >= 3 && w.n_free >= 1);
}

PBT_TARGET_NOFUZZ(M03_crowd, 24, 400,
                  "a pool of 140000 blocks filled with up to 140000 allocations or 70000 free regions between them, then freed in any order "
                  "or released, after which one request for its full size must be served; non-trivial: at least 65535 allocations were live")
{
    crowd::World w(c);
    const unsigned mode = c.below(3);
    const bool by_gaps = mode == 1 && c.chance(70);
    w.fill(by_gaps ? 0 : crowd::goal(c, crowd::N), by_gaps ? crowd::goal(c, crowd::N / 2) : 0, mode);
    c.trace("%zu live;", w.live.size());
    c.nontrivial(w.live.size() >= 65535);
    if (mode != 0 && w.made && c.chance(50))
        w.alloc(1);  // some gap holds it
    const bool release = c.chance(50);
    if (c.chance(50) || !release) w.thin(release ? c.below(w.live.size() + 1) : w.live.size());
    if (release)
    {
        w.pool->release();
        w.live.clear();
    }
    c.trace(release ? "released" : "freed");
    const std::size_t all = w.alloc(crowd::N);
    w.free(all);
}
PBT_MAIN
