// First uses of the program-wide resources, made by several threads at once in a process of its own.
#include <sys/wait.h>
#include <unistd.h>

#include <atomic>
#include <thread>

#include "pbt.hpp"
#include <utils/memory/allocator.h>
#include <utils/memory/monotonic_buffer_resource.h>
#include <utils/memory/simple_resource.h>
namespace um = utils::memory;
using namespace pbt;

namespace
{
enum Op { kSystem, kNull, kGet, kAllocator, kMonotonic, kSimple, kUse, kOps };
struct Seen
{
    um::memory_resource *system = nullptr, *null = nullptr, *dflt = nullptr;
    bool ok = true;
};
void act(Op op, Seen &s)
{
    alignas(64) std::byte b[64];
    auto keep = [&](um::memory_resource *&slot, um::memory_resource *r)
    {
        if (!r || (slot && slot != r)) s.ok = false;
        slot = r;
    };
    switch (op)
    {
        case kSystem: keep(s.system, um::system_memory_resource()); break;
        case kNull: keep(s.null, um::null_memory_resource()); break;
        case kGet: keep(s.dflt, um::get_default_resource()); break;
        case kAllocator: keep(s.dflt, um::allocator<int>{}.resource()); break;
        case kMonotonic:
        {
            um::monotonic_buffer_resource m(b, 8);
            void *p = m.allocate(100, 8);
            if (!p) s.ok = false;
            um::system_memory_resource()->deallocate(p);
            break;
        }
        case kSimple:
        {
            um::simple_resource<4, 16> m(b, 64);
            void *p = m.allocate(100, 8);
            if (!p) s.ok = false;
            m.deallocate(p);
            break;
        }
        default:
        {
            auto *r = um::get_default_resource();
            auto *p = static_cast<unsigned char *>(r->allocate(24, 8));
            if (!p)
                s.ok = false;
            else
                p[0] = p[23] = 1;
            r->deallocate(p);
            if (um::null_memory_resource()->allocate(1, 1)) s.ok = false;
        }
    }
}
}  // namespace

PBT_TARGET_NOFUZZ(M07_first_use, 1600, 40000,
                  "2..6 threads use the system, null and default resources for the first time in a process, in generated orders; all must "
                  "get the same objects, without a data race; non-trivial: two threads begin with the same resource")
{
    const std::size_t nt = 2 + c.below(5);
    std::vector<std::vector<Op>> plan(nt);
    unsigned first[kOps] = {};
    for (auto &p : plan)
    {
        std::size_t n = 1 + c.below(4);
        while (p.size() < n) p.push_back((Op)c.below(kOps));
        ++first[p[0]];
    }
    for (auto &p : plan)
    {
        for (Op o : p) c.trace("%d", o);
        c.trace("|");
    }
    fflush(nullptr);
    pid_t pid = fork();
    PBT_CHECK(c, pid >= 0, "fork");
    if (pid == 0)
    {
        std::vector<Seen> seen(nt);
        std::atomic<std::size_t> ready{0};
        std::vector<std::thread> th;
        for (std::size_t t = 0; t < nt; ++t)
            th.emplace_back(
                [&, t]
                {
                    ready.fetch_add(1, std::memory_order_relaxed);
                    while (ready.load(std::memory_order_relaxed) < nt)
                        ;
                    for (Op o : plan[t]) act(o, seen[t]);
                });
        for (auto &t : th) t.join();
        for (auto &s : seen)
            if (!s.ok || (s.system && s.system != um::system_memory_resource()) || (s.null && s.null != um::null_memory_resource()) ||
                (s.dflt && s.dflt != um::system_memory_resource()))
                _exit(3);
        _exit(0);
    }
    int st = 0;
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR)
        ;
    PBT_CHECK(c, WIFEXITED(st), "the process was killed by signal %d", WTERMSIG(st));
    PBT_CHECK(c, WEXITSTATUS(st) != 66, "first uses of a resource by several threads race");
    PBT_CHECK(c, WEXITSTATUS(st) == 0, "threads got different system, null or default resources (status %d)", WEXITSTATUS(st));
    unsigned most = 0;
    for (unsigned f : first) most = std::max(most, f);
    c.nontrivial(most > 1);
}
PBT_MAIN
