#include "pool.hpp"
using namespace pool;
PBT_TARGET(M01_history, 600000, 12000000,
           "history of allocate/deallocate/release on a generated pool; non-trivial: at least 3 pool allocations and 1 free")
{
    World w(c, kLive);
    w.setup(true);
    w.history(25, 120);
    w.drain();
    w.classify();
    c.nontrivial(w.n_alloc_pool >= 3 && w.n_free >= 1);
}
PBT_MAIN
