#include "crowd.hpp"
using namespace pool;
PBT_TARGET(M02_history, 600000, 12000000,
           "history of allocate/deallocate/release on a generated pool; non-trivial: at least 3 pool allocations and 1 free")
{
    World w(c, kBook);
    w.setup(true);
    w.history(25, 120);
    w.drain();
    w.classify();
    c.nontrivial(w.n_alloc_pool >= 3 && w.n_free >= 1);
}

PBT_TARGET_NOFUZZ(M02_crowd, 30, 400,
                  "a pool of 140000 blocks filled with up to 140000 allocations or 70000 free regions between them (often about a multiple "
                  "of 65536), then thinned out, the whole map being compared in between; non-trivial: at least 65535 regions of one kind")
{
    crowd::World w(c);
    const unsigned mode = c.below(3);
    const bool by_gaps = mode == 1 && c.chance(70);
    w.fill(by_gaps ? 0 : crowd::goal(c, crowd::N), by_gaps ? crowd::goal(c, crowd::N / 2) : 0, mode);
    w.check_map();
    c.trace("%zu live, %zu free regions;", w.most_live, w.most_gaps);
    const std::size_t n = w.live.size();
    w.thin(c.chance(50) ? c.below(n + 1) : c.below(9));
    w.check_map();
    if (c.chance(50))
    {
        w.fill(w.live.size() + c.below(100), 0, 2);
        w.check_map();
    }
    c.trace("then %zu live", w.live.size());
    c.label("at least 65536 live", w.most_live >= 65536);
    c.label("at least 65536 free regions", w.most_gaps >= 65536);
    c.nontrivial(w.most_live >= 65535 || w.most_gaps >= 65535);
    w.pool->release();
    w.live.clear();
    w.check_map();
}
PBT_MAIN
