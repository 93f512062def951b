#include <utils/timer.h>

#include <limits>
#include <map>
#include <memory>
#include <optional>

#include "pbt.hpp"
using namespace pbt;

using utils::timer;
using ns = std::chrono::nanoseconds;

namespace
{
long long fake_now = 0;
}
// the clock of this program: it moves only when the test says so
namespace std::chrono
{
inline namespace _V2
{
steady_clock::time_point steady_clock::now() noexcept { return time_point(duration(fake_now)); }
}  // namespace _V2
}  // namespace std::chrono

namespace
{
static_assert(std::is_nothrow_move_constructible_v<timer> && std::is_nothrow_move_assignable_v<timer>);
static_assert(!std::is_copy_constructible_v<timer> && !std::is_copy_assignable_v<timer> && !std::is_default_constructible_v<timer>);
static_assert(std::is_same_v<timer::clock, std::chrono::steady_clock>);

struct Call
{
    int id;
    const timer *t;
    long long start, leaked;
};
std::vector<Call> calls;
void record(int id, const timer &t)
{
    calls.push_back({id, &t, t.start_tp().time_since_epoch().count(), std::chrono::duration_cast<ns>(t.leaked()).count()});
}
// functions (identified by negative numbers)
void f1(const timer &t) { record(-1, t); }
void f2(const timer &t) noexcept { record(-2, t); }
int f3(const timer &t)
{
    record(-3, t);
    return 3;
}
template <int N>
void ft(const timer &t) noexcept
{
    record(-10 - N, t);
}
void (*const table[])(const timer &) noexcept = {ft<0>, ft<1>, ft<2>, ft<3>, ft<4>, ft<5>, ft<6>, ft<7>};

// what a callable captured: how many live callables hold it
struct Rec
{
    int id, live = 0, released = 0;
};
std::vector<std::unique_ptr<Rec>> recs;
struct Fn
{
    Rec *r;
    explicit Fn(Rec *p) : r(p) { ++r->live; }
    Fn(const Fn &o) noexcept : r(o.r) { ++r->live; }
    Fn(Fn &&o) noexcept : r(o.r) { ++r->live; }
    ~Fn()
    {
        --r->live;
        ++r->released;
    }
    void operator()(const timer &t) const { record(r->id, t); }
};
struct FnMut  // only a non-const object can be called
{
    Rec *r;
    explicit FnMut(Rec *p) : r(p) { ++r->live; }
    FnMut(const FnMut &o) noexcept : r(o.r) { ++r->live; }
    FnMut(FnMut &&o) noexcept : r(o.r) { ++r->live; }
    ~FnMut()
    {
        --r->live;
        ++r->released;
    }
    int operator()(const timer &t)
    {
        record(r->id, t);
        return 1;
    }
};
struct Del
{
    void operator()(Rec *r) const
    {
        --r->live;
        ++r->released;
    }
};
struct FnOwn  // can only be moved
{
    std::unique_ptr<Rec, Del> p;
    explicit FnOwn(Rec *r) : p(r) { ++r->live; }
    FnOwn(FnOwn &&) = default;
    void operator()(const timer &t) const noexcept { record(p->id, t); }
};
struct FnCopyOnly  // no move constructor: rvalues are copied
{
    Rec *r;
    explicit FnCopyOnly(Rec *p) : r(p) { ++r->live; }
    FnCopyOnly(const FnCopyOnly &o) noexcept : r(o.r) { ++r->live; }
    ~FnCopyOnly()
    {
        --r->live;
        ++r->released;
    }
    void operator()(const timer &t) const { record(r->id, t); }
};
struct Both  // tells a const from a non-const object apart; the stored callable is not const
{
    Rec *r;
    explicit Both(Rec *p) : r(p) { ++r->live; }
    Both(const Both &o) noexcept : r(o.r) { ++r->live; }
    ~Both()
    {
        --r->live;
        ++r->released;
    }
    void operator()(const timer &t) { record(r->id, t); }
    void operator()(const timer &t) const { record(r->id, t); }
};

std::map<const void *, Rec *> at_address;
struct FnHere  // known by its address only
{
    char pad = 0;
    explicit FnHere(Rec *p)
    {
        at_address[this] = p;
        ++p->live;
    }
    FnHere(const FnHere &o) noexcept { copy(&o); }
    FnHere(FnHere &&o) noexcept { copy(&o); }
    ~FnHere()
    {
        auto it = at_address.find(this);
        if (it == at_address.end())
        {
            ++lost;
            return;
        }
        --it->second->live;
        ++it->second->released;
        at_address.erase(it);
    }
    void operator()(const timer &t) const
    {
        auto it = at_address.find(this);
        record(it == at_address.end() ? 1 << 30 : it->second->id, t);
    }
    static int lost;

   private:
    void copy(const void *o)
    {
        auto it = at_address.find(o);
        if (it == at_address.end())
        {
            ++lost;
            return;
        }
        at_address[this] = it->second;
        ++it->second->live;
    }
};
int FnHere::lost = 0;
struct FnEmpty final  // nothing inside, yet every copy counts
{
    static int live;
    FnEmpty() { ++live; }
    FnEmpty(const FnEmpty &) noexcept { ++live; }
    FnEmpty(FnEmpty &&) noexcept { ++live; }
    ~FnEmpty() { --live; }
    void operator()(const timer &t) const { record(-102, t); }
};
int FnEmpty::live = 0;
struct FnLvalue  // can be called as an lvalue only
{
    Rec *r;
    explicit FnLvalue(Rec *p) : r(p) { ++r->live; }
    FnLvalue(const FnLvalue &o) noexcept : r(o.r) { ++r->live; }
    ~FnLvalue()
    {
        --r->live;
        ++r->released;
    }
    void operator()(const timer &t) & { record(r->id, t); }
    void operator()(const timer &) && = delete;
};
struct Model
{
    bool exists = false;
    int id = 0;  // 0: nothing to call
    Rec *rec = nullptr;
    long long start = 0;
};
constexpr int kN = 4;

struct Cells
{
    struct Cell
    {
        unsigned char before[32];
        alignas(timer) unsigned char mem[sizeof(timer)];
        unsigned char after[32];
    } cell[kN];
    Model m[kN];
    Cells() { memset(cell, 0x5C, sizeof cell); }
    timer &at(int i) { return *std::launder(reinterpret_cast<timer *>(cell[i].mem)); }
};

// constructs a timer at `mem` (or assigns it to `t`) from a callable of some shape
void start(Ctx &c, void *mem, timer *t, Model &m)
{
    m.exists = true;
    m.rec = nullptr;
    m.start = fake_now;
    auto put = [&](auto &&f)
    {
        using F = decltype(f);
        if (t)
            *t = timer(std::forward<F>(f));
        else
            new (mem) timer(std::forward<F>(f));
    };
    int k = (int)c.below(25);
    auto fresh = [&]
    {
        recs.push_back(std::make_unique<Rec>());
        m.rec = recs.back().get();
        m.rec->id = m.id = (int)recs.size();
        return m.rec;
    };
    c.trace("callable %d", k);
    switch (k)
    {
        case 0: m.id = -1; put(f1); break;
        case 1: m.id = -2; put(f2); break;
        case 2: m.id = -3; put(f3); break;
        case 3: m.id = -1; put(&f1); break;
        case 4: m.id = -2; put(&f2); break;
        case 5:
        {
            int n = (int)c.below(8);
            m.id = -10 - n;
            auto p = table[n];
            put(p);
            p = nullptr;
            break;
        }
        case 6:
        {
            int n = (int)c.below(8);
            m.id = -10 - n;
            put(table[n]);  // constant pointer
            break;
        }
        case 7: put(Fn(fresh())); break;
        case 8:
        {
            Fn f(fresh());
            put(f);
            break;
        }
        case 9:
        {
            const Fn f(fresh());
            put(f);
            break;
        }
        case 10: put(FnMut(fresh())); break;
        case 11:
        {
            FnMut f(fresh());
            put(f);
            break;
        }
        case 12: put(FnOwn(fresh())); break;
        case 13:
        {
            FnOwn f(fresh());
            put(std::move(f));
            PBT_CHECK(c, !f.p, "an rvalue callable was not moved");
            break;
        }
        case 14: put(FnCopyOnly(fresh())); break;
        case 15:
        {
            const Both f(fresh());
            put(f);
            break;
        }
        case 16:
            m.id = -100;
            put([](const timer &x) { record(-100, x); });
            break;
        case 17:
        {
            m.id = -101;
            auto l = [](const auto &x)
            {
                (void)x.leaked_milli_sec();
                record(-101, x);
            };
            put(l);
            break;
        }
        case 18: put(FnHere(fresh())); break;
        case 19:
        {
            FnHere f(fresh());
            put(f);
            break;
        }
        case 22:
            m.id = -102;
            put(FnEmpty());
            break;
        case 23:
        {
            m.id = -102;
            const FnEmpty f;
            put(f);
            break;
        }
        case 20: put(FnLvalue(fresh())); break;
        case 21:
        {
            const FnLvalue f(fresh());
            put(f);
            break;
        }
        default:
        {
            Rec *r = fresh();
            ++r->live;
            auto l = [p = std::unique_ptr<Rec, Del>(r)](const timer &x) { record(p->id, x); };
            put(std::move(l));
        }
    }
}
long long cast(long long v, long long unit) { return v / unit; }
}  // namespace

PBT_TARGET(O02_history, 2500000, 25000000,
           "history of starting, moving, assigning, resetting, reading and destroying four timers under a clock the test "
           "moves; non-trivial: moved timers and a replaced or restarted one")
{
    calls.clear();
    recs.clear();
    at_address.clear();
    FnHere::lost = 0;
    FnEmpty::live = 0;
    Cells w;
    fake_now = c.chance(20) ? (long long)c.bits(62) : (long long)c.below(1000000);
    unsigned moves = 0, restarts = 0;
    // exactly the invocations in `want`, and everything captured accounted for
    auto expect = [&](std::vector<Call> want, const char *what)
    {
        PBT_CHECK(c, calls.size() == want.size(), "%s: %zu invocations instead of %zu", what, calls.size(), want.size());
        for (std::size_t k = 0; k < want.size(); ++k)
        {
            auto &g = calls[k], &e = want[k];
            PBT_CHECK(c, g.id == e.id, "%s: callback %d was invoked instead of %d", what, g.id, e.id);
            PBT_CHECK(c, g.t == e.t, "%s: the callback got another timer than the one which ended", what);
            PBT_CHECK(c, g.start == e.start && g.leaked == e.leaked, "%s: the callback saw start %lld, elapsed %lld instead of %lld, %lld",
                      what, g.start, g.leaked, e.start, e.leaked);
        }
        calls.clear();
        PBT_CHECK(c, !FnHere::lost, "%s: a callable was moved or destroyed where none was", what);
        int empties = 0;
        for (auto &m : w.m) empties += m.exists && m.id == -102;
        PBT_CHECK(c, FnEmpty::live == empties, "%s: %d empty callables exist instead of %d", what, FnEmpty::live, empties);
        for (auto &r : recs)
        {
            int held = 0;
            for (auto &m : w.m) held += m.exists && m.rec == r.get();
            PBT_CHECK(c, r->live == held, "%s: what callback %d captured is held %d times instead of %d", what, r->id, r->live, held);
        }
        for (int i = 0; i < kN; ++i)
        {
            for (auto b : w.cell[i].before) PBT_CHECK(c, b == 0x5C, "a byte before the timer was written");
            for (auto b : w.cell[i].after) PBT_CHECK(c, b == 0x5C, "a byte behind the timer was written");
            if (w.m[i].exists)
                PBT_CHECK(c, w.at(i).start_tp().time_since_epoch().count() == w.m[i].start, "timer %d has another start time", i);
        }
    };
    auto fired = [&](int i, const void *at) -> std::vector<Call>
    {
        Model &m = w.m[i];
        if (!m.id) return {};
        return {{m.id, (const timer *)at, m.start, fake_now - m.start}};
    };
    for (std::size_t n = 0; c.more(14, n, 80); ++n)
    {
        int i = (int)c.below(kN), j = (int)c.below(kN);
        Model &a = w.m[i], &b = w.m[j];
        switch (c.weighted({8, 6, 6, 6, 5, 3, 6, 2, 2}))
        {
            case 0:
                if (!a.exists)
                {
                    c.trace("start %d", i);
                    memset(w.cell[i].mem, (int)c.below(256), sizeof(timer));
                    start(c, w.cell[i].mem, nullptr, a);
                    expect({}, "start");
                }
                else
                {
                    c.trace("restart %d", i);
                    start(c, nullptr, &w.at(i), a);
                    ++restarts;
                    expect({}, "assigning a new timer");
                }
                break;
            case 1:
                if (a.exists || !b.exists) break;
                c.trace("%d from %d", i, j);
                memset(w.cell[i].mem, (int)c.below(256), sizeof(timer));
                new (w.cell[i].mem) timer(std::move(w.at(j)));
                a = b;
                b.id = 0;
                b.rec = nullptr;
                ++moves;
                b.start = w.at(j).start_tp().time_since_epoch().count();
                expect({}, "move construction");
                break;
            case 2:
                if (!a.exists || !b.exists) break;
                c.trace("%d = move %d", i, j);
                {
                    timer &r = (w.at(i) = std::move(w.at(j)));
                    PBT_CHECK(c, &r == &w.at(i), "assignment does not return its target");
                }
                if (i != j)
                {
                    a = b;
                    b.id = 0;
                    b.rec = nullptr;
                    b.start = w.at(j).start_tp().time_since_epoch().count();
                    ++moves;
                }
                expect({}, "move assignment");
                break;
            case 3:
            {
                if (!a.exists) break;
                c.trace("end %d", i);
                auto want = fired(i, w.cell[i].mem);
                w.at(i).~timer();
                a = Model{};
                expect(want, "destruction");
                break;
            }
            case 4:
                switch (c.below(4))
                {
                    case 0: fake_now += (long long)c.below(5000); break;
                    case 1: fake_now += (long long)c.below(5000000000); break;
                    case 2: fake_now += 1000000000ll * (long long)c.below(100) + (long long)c.below(3) - 1; break;
                    default: fake_now += (long long)c.bits(40) - (c.chance(15) ? (1ll << 39) : 0);
                }
                if (fake_now > (1ll << 62)) fake_now = 1ll << 61;
                c.trace("clock %lld", fake_now);
                break;
            case 5:
                if (!a.exists) break;
                c.trace("reset %d", i);
                w.at(i).reset();
                a.start = fake_now;
                expect({}, "reset");
                break;
            case 6:
            {
                if (!a.exists) break;
                const timer &t = w.at(i);
                long long l = fake_now - a.start;
                PBT_CHECK(c, std::chrono::duration_cast<ns>(t.leaked()).count() == l, "elapsed %lld instead of %lld",
                          (long long)t.leaked().count(), l);
                static_assert(std::is_same_v<decltype(t.leaked_sec()), std::chrono::seconds> &&
                              std::is_same_v<decltype(t.leaked_milli_sec()), std::chrono::milliseconds> &&
                              std::is_same_v<decltype(t.leaked_micro_sec()), std::chrono::microseconds> &&
                              std::is_same_v<decltype(t.leaked_nano_sec()), std::chrono::nanoseconds>);
                PBT_CHECK(c, t.leaked_nano_sec().count() == l && t.leaked_micro_sec().count() == cast(l, 1000) &&
                                 t.leaked_milli_sec().count() == cast(l, 1000000) && t.leaked_sec().count() == cast(l, 1000000000),
                          "elapsed %lld ns is reported as %lld ns %lld us %lld ms %lld s", l, (long long)t.leaked_nano_sec().count(),
                          (long long)t.leaked_micro_sec().count(), (long long)t.leaked_milli_sec().count(), (long long)t.leaked_sec().count());
                c.label("negative time", l < 0);
                c.label("a second and more", l >= 1000000000);
                expect({}, "reading");
                break;
            }
            case 7:  // swap
                if (!a.exists || !b.exists || i == j) break;
                c.trace("swap %d %d", i, j);
                std::swap(w.at(i), w.at(j));
                {
                    Model oa = a, ob = b;
                    a = ob;
                    b = oa;
                    if (!a.id) a.start = w.at(i).start_tp().time_since_epoch().count();
                    if (!b.id) b.start = w.at(j).start_tp().time_since_epoch().count();
                }
                ++moves;
                expect({}, "swap");
                break;
            default:  // through a function and a container
            {
                if (!b.exists) break;
                c.trace("through %d", j);
                std::vector<Call> want;
                {
                    auto pass = [&](timer t) -> timer { return t; };
                    std::vector<timer> v;
                    v.push_back(pass(std::move(w.at(j))));
                    v.reserve(v.capacity() * 2 + 1);
                    std::optional<timer> o(std::move(v.front()));
                    v.clear();
                    PBT_CHECK(c, calls.empty(), "destroying moved-from timers invoked a callback");
                    moves += 4;
                    if (c.chance(50))
                    {
                        w.at(j) = std::move(*o);
                        o.reset();
                        if (!b.id) b.start = w.at(j).start_tp().time_since_epoch().count();
                    }
                    else
                    {
                        want = fired(j, &*o);
                        if (b.id == 0) want.clear();
                        o.reset();
                        b.id = 0;
                        b.rec = nullptr;
                        b.start = w.at(j).start_tp().time_since_epoch().count();
                    }
                }
                expect(want, "through functions and containers");
            }
        }
    }
    for (int i = 0; i < kN; ++i)
        if (w.m[i].exists)
        {
            auto want = fired(i, w.cell[i].mem);
            w.at(i).~timer();
            w.m[i] = Model{};
            expect(want, "destruction");
        }
    c.label("restarted", restarts);
    c.nontrivial(moves >= 2 && restarts);
}
PBT_MAIN
