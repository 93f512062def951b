#include <pthread.h>

#include <atomic>
#include <memory>
#include <thread>

#include "pool.hpp"
#include <utils/memory/allocator.h>
#include <utils/memory/monotonic_buffer_resource.h>
using namespace pool;

um::memory_resource *static_resource2();
um::memory_resource *system2();
um::memory_resource *null2();
um::memory_resource *get2();
um::memory_resource *set2(um::memory_resource *);
um::memory_resource *alloc2();

namespace
{
um::allocator<char> static_allocator;
um::memory_resource *const initial_default = static_allocator.resource();
auto &hooks = sysops::memory::ops::hooks;

struct Sys
{
    Ctx *c = nullptr;
    bool fail = false;
    int garbage = 0;
    struct A
    {
        void *p;
        std::size_t size, align;
        bool freed;
    };
    std::vector<A> allocs;
    std::size_t calls = 0, frees = 0;
} sys;
int on_alloc(void **r, std::size_t a, std::size_t s)
{
    ++sys.calls;
    if (a < sizeof(void *) || (a & (a - 1))) return EINVAL;  // as the system's function does
    if (sys.fail)
    {
        if (sys.garbage == 1) *r = (void *)0x10;
        if (sys.garbage == 2) *r = nullptr;
        return ENOMEM;
    }
    int rc = s > (std::size_t{1} << 30) ? ENOMEM : ::posix_memalign(r, a, s);
    if (rc == 0) sys.allocs.push_back({*r, s, a, false});
    return rc;
}
void on_free(void *p)
{
    ++sys.frees;
    if (!p) return;
    for (auto &a : sys.allocs)
        if (a.p == p && !a.freed)
        {
            a.freed = true;
            ::free(p);
            return;
        }
    sys.c->defer_fail("system free was handed %p, which it did not hand out (or twice)", p);
}
struct HookGuard
{
    explicit HookGuard(Ctx &c)
    {
        sys = Sys{};
        sys.c = &c;
        hooks.on_alloc = on_alloc;
        hooks.on_free = on_free;
    }
    ~HookGuard()
    {
        for (auto &a : sys.allocs)
            if (!a.freed) ::free(a.p);
        hooks = {};
    }
};
struct alignas(64) S64
{
    char c[64];
};
struct S3
{
    char c[3];
};
struct DefaultGuard
{
    um::memory_resource *old = um::get_default_resource();
    ~DefaultGuard() { um::set_default_resource(old); }
};
}  // namespace

PBT_TARGET(M07_system, 250000, 5000000,
           "history of requests to the system resource with injected system failures; non-trivial: at least one refusal "
           "and one success followed by a return of the memory")
{
    HookGuard g(c);
    um::memory_resource &r = *(c.chance(50) ? um::system_memory_resource() : system2());
    struct L
    {
        unsigned char *p;
        std::size_t n, a;
        unsigned seed;
        bool direct;
    };
    std::vector<L> live;
    unsigned seed = 1, ok = 0, refused = 0, freed = 0;
    auto free_one = [&](std::size_t i)
    {
        L l = live[i];
        live.erase(live.begin() + i);
        PBT_CHECK(c, intact(l.p, l.n, l.seed), "bytes of a live allocation changed");
        if (l.direct)
            um::aligned_free(l.p);
        else
            r.deallocate(l.p);
        c.raise_deferred();
        for (auto &a : sys.allocs)
            PBT_CHECK(c, a.p != l.p || a.freed, "memory was not given back to the system");
        ++freed;
        c.trace("free");
    };
    for (std::size_t i = 0; c.more(8, i, 40); ++i)
    {
        switch (c.weighted({6, 4, 1, 1}))
        {
            case 1:
                if (!live.empty())
                {
                    free_one(c.below(live.size()));
                    break;
                }
                [[fallthrough]];
            case 0:
            {
                bool direct = false;
                std::size_t size = c.chance(70) ? 1 + c.below(300) : c.chance(60) ? 1 + c.below(5000) : c.bits(64);
                if (!size) size = 1;
                std::size_t align = std::size_t{1} << (c.chance(80) ? c.below(7) : c.chance(80) ? c.below(17) : c.below(27));
                sys.fail = c.chance(25);
                sys.garbage = (int)c.below(3);
                std::size_t before = sys.allocs.size();
                unsigned char *p;
                switch (c.weighted({8, 1, 1, 1, 2}))
                {
                    case 4:
                        p = (unsigned char *)um::aligned_malloc(size, align);
                        direct = true;
                        break;
                    case 1:
                        align = alignof(std::max_align_t);
                        p = (unsigned char *)r.allocate(size);
                        break;
                    case 2:
                        size = sizeof(S64);
                        align = alignof(S64);
                        p = (unsigned char *)r.allocate<S64>();
                        break;
                    case 3:
                        size = sizeof(S3);
                        align = alignof(S3);
                        p = (unsigned char *)r.allocate<S3>();
                        break;
                    default: p = (unsigned char *)r.allocate(size, align);
                }
                c.trace("alloc(%zu,%zu)%s=%s", size, align, sys.fail ? " system refuses" : "", p ? "ok" : "null");
                if (sys.fail || size > (std::size_t{1} << 30))
                {
                    PBT_CHECK(c, !p, "the system refused but %p was returned", (void *)p);
                    ++refused;
                }
                else
                {
                    PBT_CHECK(c, p, "request for %zu/%zu failed although the system has memory", size, align);
                    PBT_CHECK(c, sys.allocs.size() == before + 1 && sys.allocs.back().p == p, "pointer is not the system's");
                    PBT_CHECK(c, sys.allocs.back().size >= size, "only %zu bytes requested of %zu", sys.allocs.back().size, size);
                    PBT_CHECK(c, (u64)p % align == 0 && sys.allocs.back().align >= align, "alignment %zu not provided", align);
                    live.push_back({p, size, align, seed, direct});
                    fill(p, size, seed++);
                    ++ok;
                }
                sys.fail = false;
                break;
            }
            case 2:
                r.deallocate(nullptr);
                c.raise_deferred();
                break;
            default:
            {
                um::memory_resource &n = *(c.chance(50) ? um::null_memory_resource() : null2());
                std::size_t calls = sys.calls;
                PBT_CHECK(c, n.allocate(c.chance(50) ? c.bits(64) : c.below(10), std::size_t{1} << c.below(20)) == nullptr,
                          "the null resource returned memory");
                n.deallocate(c.chance(50) ? nullptr : live.empty() ? (void *)&seed : (void *)live[0].p);
                c.raise_deferred();
                PBT_CHECK(c, sys.calls == calls, "the null resource asked the system");
            }
        }
    }
    while (!live.empty()) free_one(c.below(live.size()));
    for (auto &a : sys.allocs) PBT_CHECK(c, a.freed, "memory was never given back to the system");
    c.nontrivial(refused && ok && freed);
}

PBT_TARGET(M07_default, 250000, 5000000,
           "history of default replacements from two translation units with resources and allocators constructed in "
           "between; non-trivial: at least two replacements and a construction between them")
{
    HookGuard g(c);
    DefaultGuard dg;
    um::set_default_resource(um::system_memory_resource());
    Up a, b, d;
    for (auto *u : {&a, &b, &d})
    {
        u->c = &c;
        u->zone = arena() + (std::size_t{1} << 20) * (u == &a ? 1 : u == &b ? 2 : 3);
        u->zone_end = u->zone + 100000;
    }
    std::vector<um::memory_resource *> rs{&a, &b, &d, um::system_memory_resource(), um::null_memory_resource(),
                                           nullptr};  // no resource: what is built then has no fallback
    um::memory_resource *cur = um::system_memory_resource();
    auto name = [&](um::memory_resource *r) { return (int)(std::find(rs.begin(), rs.end(), r) - rs.begin()); };
    alignas(64) static std::byte buf[4096];
    // things built with the default of their moment
    struct Built
    {
        std::unique_ptr<um::memory_resource> r;
        um::memory_resource *expect;
    };
    std::vector<Built> built;
    std::vector<std::pair<um::allocator<int>, um::memory_resource *>> allocs;
    unsigned sets = 0, between = 0;
    for (std::size_t i = 0; c.more(12, i, 60); ++i)
    {
        switch (c.weighted({5, 2, 2, 2, 3, 3}))
        {
            case 0:
            {
                auto *n = c.pick(rs);
                bool other = c.chance(50);
                auto *old = other ? set2(n) : um::set_default_resource(n);
                c.trace("set_default(%d)", name(n));
                PBT_CHECK(c, old == cur, "replacing the default returned resource %d, the previous one is %d", name(old), name(cur));
                cur = n;
                ++sets;
                break;
            }
            case 1:
                PBT_CHECK(c, (c.chance(50) ? get2() : um::get_default_resource()) == cur, "wrong default resource");
                break;
            case 2:
            {
                um::allocator<int> al;
                PBT_CHECK(c, al.resource() == cur && alloc2() == cur, "allocator does not use the default resource");
                allocs.push_back({al, cur});
                between += sets == 1;
                break;
            }
            case 3:
                built.push_back({nullptr, cur});
                switch (c.below(4))
                {
                    case 0: built.back().r.reset(new um::monotonic_buffer_resource(buf, 64)); break;
                    case 1:
                        built.back().r.reset(new um::monotonic_buffer_resource(reinterpret_cast<std::byte(&)[64]>(buf)));
                        break;
                    case 2: built.back().r.reset(new um::simple_resource<4, 16>(buf, 64)); break;
                    default:
                        built.back().r.reset(new um::simple_resource<4, 16>(reinterpret_cast<std::byte(&)[64]>(buf)));
                }
                c.trace("construct %zu with default %d", built.size() - 1, name(cur));
                between += sets >= 1;
                break;
            case 4:
                if (!built.empty())
                {
                    auto &x = c.pick(built);
                    std::size_t n[] = {a.calls.size(), b.calls.size(), d.calls.size(), sys.calls};
                    void *p = x.r->allocate(1000, 16);  // bigger than its buffer
                    std::size_t m[] = {a.calls.size(), b.calls.size(), d.calls.size(), sys.calls};
                    int want = name(x.expect);
                    for (int k = 0; k < 4; ++k)
                        PBT_CHECK(c, m[k] - n[k] == (k == want ? 1u : 0u),
                                  "resource %zu asked fallback %d %zu times; the default was %d when it was constructed",
                                  (std::size_t)(&x - built.data()), k, m[k] - n[k], want);
                    PBT_CHECK(c, want >= 4 ? p == nullptr : p != nullptr, "fallback answer lost");
                    if (p) x.expect->deallocate(p);
                    c.raise_deferred();
                }
                break;
            default:
            {
                std::vector<um::memory_resource *> all(rs.begin(), rs.end() - 1);
                for (auto &x : built) all.push_back(x.r.get());
                auto *x = c.pick(all), *y = c.pick(all);
                PBT_CHECK(c, (*x == *y) == (x == y) && (*x != *y) == (x != y) && x->is_equal(*y) == (x == y),
                          "equality of resources is not identity");
                PBT_CHECK(c, *x == *x && !(*x != *x), "a resource is not equal to itself");
            }
        }
    }
    for (auto &x : allocs)
        PBT_CHECK(c, x.first.resource() == x.second, "an allocator changed its resource");
    PBT_CHECK(c, um::system_memory_resource() == system2() && um::null_memory_resource() == null2(),
              "translation units see different system or null resources");
    PBT_CHECK(c, initial_default == um::system_memory_resource() && static_resource2() == initial_default,
              "the initial default is not the system resource");
    c.nontrivial(sets >= 2 && between);
}

PBT_TARGET_NOFUZZ(M07_concurrent, 1600, 40000,
                  "2..6 threads replace the default with unique resources at the same time; the values returned and the "
                  "last one set must be the values set, each once; non-trivial: always")
{
    DefaultGuard dg;
    const std::size_t nt = 2 + c.below(5), per = 20 + c.below(400);
    static std::vector<std::unique_ptr<Up>> pool_of = []
    {
        std::vector<std::unique_ptr<Up>> v;
        for (int i = 0; i < 6 * 420 + 1; ++i) v.push_back(std::make_unique<Up>());
        return v;
    }();
    auto *init = pool_of[0].get();
    um::set_default_resource(init);
    std::vector<std::vector<um::memory_resource *>> got(nt);
    std::atomic<std::size_t> ready{0};
    std::atomic<bool> bad_get{false};
    std::vector<std::thread> th;
    c.trace("%zu threads, %zu replacements each", nt, per);
    for (std::size_t t = 0; t < nt; ++t)
        th.emplace_back(
            [&, t]
            {
                got[t].reserve(per);
                ++ready;
                while (ready.load() < nt)
                    ;
                for (std::size_t k = 0; k < per; ++k)
                {
                    auto *n = pool_of[1 + t * 420 + k].get();
                    got[t].push_back((t & 1) ? set2(n) : um::set_default_resource(n));
                    if (k % 16 == 0 && !um::get_default_resource()) bad_get = true;
                }
            });
    for (auto &t : th) t.join();
    std::vector<um::memory_resource *> seen{um::get_default_resource()}, set{init};
    for (std::size_t t = 0; t < nt; ++t)
        for (std::size_t k = 0; k < per; ++k)
        {
            seen.push_back(got[t][k]);
            set.push_back(pool_of[1 + t * 420 + k].get());
        }
    std::sort(seen.begin(), seen.end());
    std::sort(set.begin(), set.end());
    PBT_CHECK(c, !bad_get && seen == set, "concurrent replacements do not form one chain: a resource was returned twice or lost");
    c.nontrivial(true);
}

namespace
{
struct Note : um::monotonic_buffer_resource
{
    Note(std::byte *b, std::size_t n) : um::monotonic_buffer_resource(b, n, um::null_memory_resource()) {}
    unsigned long who = 0, sum = 0;
};
}  // namespace

PBT_TARGET_NOFUZZ(M07_publish, 800, 20000,
                  "2..5 threads build resources, fill them in and make them the default while others take the default and "
                  "read them; what was written before must be seen (and is no data race); non-trivial: a resource of another thread was read")
{
    DefaultGuard dg;
    const std::size_t nt = 2 + c.below(4), per = 4 + c.below(60);
    const bool by_get = c.chance(70), by_set = c.chance(70);
    const unsigned long key = 1 + c.below(1000000);
    c.trace("%zu threads, %zu publications each, read by get %d, by set %d", nt, per, by_get, by_set);
    static std::byte bytes[64];
    Note first(bytes, sizeof(bytes));
    first.sum = key;
    um::set_default_resource(&first);
    std::vector<std::vector<std::unique_ptr<Note>>> made(nt);
    std::atomic<std::size_t> ready{0};
    std::atomic<unsigned> wrong{0}, foreign{0};
    std::vector<std::thread> th;
    for (std::size_t t = 0; t < nt; ++t)
        th.emplace_back(
            [&, t]
            {
                made[t].reserve(per);
                ready.fetch_add(1, std::memory_order_relaxed);
                while (ready.load(std::memory_order_relaxed) < nt)
                    ;
                unsigned bad = 0, other = 0;
                auto look = [&](um::memory_resource *r)
                {
                    auto *n = static_cast<Note *>(r);
                    if (n->sum != n->who * 3 + key) ++bad;
                    if (n->who && (n->who - 1) / per != t) ++other;
                };
                for (std::size_t k = 0; k < per; ++k)
                {
                    auto n = std::make_unique<Note>(bytes, sizeof(bytes));
                    n->who = t * per + k + 1;
                    n->sum = n->who * 3 + key;
                    auto *old = (k & 1) ? set2(n.get()) : um::set_default_resource(n.get());
                    made[t].push_back(std::move(n));
                    if (by_set) look(old);
                    if (by_get) look((k & 2) ? get2() : um::get_default_resource());
                }
                wrong += bad;
                foreign += other;
            });
    for (auto &t : th) t.join();
    PBT_CHECK(c, !wrong, "%u resources taken from the default did not show what was written before they were set", wrong.load());
    c.nontrivial(foreign > 0);
}
PBT_TARGET_NOFUZZ(M07_turns, 600, 40000,
                  "a generated sequence of steps, each made by one of 2..4 threads when the one before is done (the turns themselves order "
                  "nothing): make a filled in resource the default, the same and read the one it replaced, or take and read the default; "
                  "what was written must be seen (and is no data race); non-trivial: a resource of another thread was read")
{
    DefaultGuard dg;
    struct Step
    {
        std::size_t thread;
        unsigned op;
        bool second;
    };
    const std::size_t nt = 2 + c.below(3), n = 3 + c.below(20);
    const unsigned long key = 1 + c.below(1000000);
    std::vector<Step> steps(n);
    for (auto &s : steps)
    {
        s.thread = c.below(nt);
        s.op = c.below(3);
        s.second = c.chance(50);
        c.trace("%zu:%s;", s.thread, s.op == 0 ? "set" : s.op == 1 ? "set,read" : "get,read");
    }
    static std::byte bytes[64];
    Note first(bytes, sizeof(bytes));
    first.sum = key;
    um::set_default_resource(&first);
    std::vector<std::unique_ptr<Note>> made(n);
    std::atomic<std::size_t> turn{0};
    std::vector<unsigned> bad(n), other(n);
    std::vector<std::thread> th;
    for (std::size_t t = 0; t < nt; ++t)
        th.emplace_back(
            [&, t]
            {
                for (std::size_t i = 0; i < n; ++i)
                {
                    if (steps[i].thread != t) continue;
                    for (unsigned spins = 0; turn.load(std::memory_order_relaxed) != i; ++spins)
                        if (spins > 200) std::this_thread::yield();
                    um::memory_resource *r = nullptr;
                    if (steps[i].op < 2)
                    {
                        auto m = std::make_unique<Note>(bytes, sizeof(bytes));
                        m->who = i + 1;
                        m->sum = m->who * 3 + key;
                        auto *old = steps[i].second ? set2(m.get()) : um::set_default_resource(m.get());
                        made[i] = std::move(m);
                        if (steps[i].op == 1) r = old;
                    }
                    else
                        r = steps[i].second ? get2() : um::get_default_resource();
                    if (r)
                    {
                        auto *m = static_cast<Note *>(r);
                        bad[i] = m->sum != m->who * 3 + key;
                        other[i] = m->who && steps[m->who - 1].thread != t;
                    }
                    turn.store(i + 1, std::memory_order_relaxed);
                }
            });
    for (auto &t : th) t.join();
    unsigned wrong = 0, foreign = 0;
    for (std::size_t i = 0; i < n; ++i) wrong += bad[i], foreign += other[i];
    PBT_CHECK(c, !wrong, "%u resources taken from the default did not show what was written before they were set", wrong);
    c.nontrivial(foreign > 0);
}
PBT_MAIN
