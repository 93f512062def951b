#include "pool.hpp"
#include <utils/memory/allocator.h>
using namespace pool;

namespace
{
template <typename T>
using A = um::allocator<T>;

// resource with its own notion of equality
struct Res : Up
{
    int id = 0;
    bool is_equal(const um::memory_resource &o) const noexcept override
    {
        auto *r = dynamic_cast<const Res *>(&o);
        return r && r->id == id;
    }
};

enum Cat
{
    kNone,
    kL,
    kCL,
    kR,
    kCR
};
template <typename T>
constexpr int cat()
{
    using V = std::remove_reference_t<T>;
    return std::is_lvalue_reference_v<T> ? (std::is_const_v<V> ? kCL : kL) : (std::is_const_v<V> ? kCR : kR);
}
struct Arg
{
    int v = 0;
};
struct Arg2
{
    long v = 0;
};
struct Log
{
    unsigned ctors = 0, dtors = 0;
    int cats[3] = {0, 0, 0};
    const void *addr[3] = {nullptr, nullptr, nullptr};
    bool second[3] = {false, false, false};
    void *self = nullptr;
} lg;

template <std::size_t Size, std::size_t Align>
struct alignas(Align) Obj
{
    unsigned char body[Size];
    static int counter;
    Obj() noexcept { born(); }
    Obj(const Obj &o) noexcept { born(o); }
    Obj(Obj &o) noexcept { born(o); }
    Obj(Obj &&o) noexcept { born(std::move(o)); }
    Obj(const Obj &&o) noexcept { born(std::move(o)); }
    template <typename P, typename = std::enable_if_t<std::is_same_v<std::decay_t<P>, Arg> || std::is_same_v<std::decay_t<P>, Arg2>>>
    explicit Obj(P &&p) noexcept
    {
        born(std::forward<P>(p));
    }
    template <typename P, typename Q>
    Obj(P &&p, Q &&q) noexcept
    {
        born(std::forward<P>(p), std::forward<Q>(q));
    }
    template <typename P, typename Q, typename R>
    Obj(P &&p, Q &&q, R &&r) noexcept
    {
        born(std::forward<P>(p), std::forward<Q>(q), std::forward<R>(r));
    }
    ~Obj()
    {
        ++lg.dtors;
        lg.self = this;
        for (std::size_t i = 0; i < Size; ++i) body[i] = 0xDD;
    }

   private:
    template <typename... P>
    void born(P &&...p)
    {
        ++lg.ctors;
        lg.self = this;
        int k = 0;
        ((lg.cats[k] = cat<P &&>(), lg.addr[k] = &p, lg.second[k] = std::is_same_v<std::decay_t<P>, Arg2>, ++k), ...);
        for (std::size_t i = 0; i < Size; ++i) body[i] = (unsigned char)(i * 5 + 1);
    }
};
using O1 = Obj<1, 1>;
using O3 = Obj<3, 1>;
using O8 = Obj<8, 8>;
using O24 = Obj<24, 8>;
using O64 = Obj<64, 64>;
using O1000 = Obj<1000, 4>;
static_assert(sizeof(O3) == 3 && sizeof(O64) == 64 && sizeof(O1000) == 1000);

// one argument of a category and type chosen at run time, handed to f
template <typename F>
void with_arg(int which, bool second, Arg &a, Arg2 &b, F &&f)
{
    auto go = [&](auto &x)
    {
        using X = std::remove_reference_t<decltype(x)>;
        switch (which)
        {
            case kL: f(std::integral_constant<int, kL>{}, x); break;
            case kCL: f(std::integral_constant<int, kCL>{}, x); break;
            case kR: f(std::integral_constant<int, kR>{}, x); break;
            default: f(std::integral_constant<int, kCR>{}, x); break;
        }
        (void)sizeof(X);
    };
    second ? go(b) : go(a);
}
template <int C, typename X>
decltype(auto) as(X &x)
{
    if constexpr (C == kL)
        return static_cast<X &>(x);
    else if constexpr (C == kCL)
        return static_cast<const X &>(x);
    else if constexpr (C == kR)
        return static_cast<X &&>(x);
    else
        return static_cast<const X &&>(x);
}

struct World8
{
    Ctx &c;
    Res res[3];
    std::vector<std::size_t> up_live;
    explicit World8(Ctx &cc) : c(cc)
    {
        for (int i = 0; i < 3; ++i)
        {
            res[i].c = &c;
            res[i].id = i == 2 ? (int)c.below(3) : i;  // the third may be equal to another one
            res[i].zone = arena() + (std::size_t{1} << 20) * (i + 1);
            res[i].zone_end = res[i].zone + 200000;
        }
    }
};

struct Live
{
    int type;
    void *p;
    int r;
    bool object;
    std::size_t n;
};

template <typename F>
void with_type(int t, F &&f)
{
    switch (t)
    {
        case 0: f((O1 *)nullptr); break;
        case 1: f((O3 *)nullptr); break;
        case 2: f((O8 *)nullptr); break;
        case 3: f((O24 *)nullptr); break;
        case 4: f((O64 *)nullptr); break;
        default: f((O1000 *)nullptr); break;
    }
}
template <typename T>
bool fresh(const T *t)
{
    for (std::size_t i = 0; i < sizeof t->body; ++i)
        if (t->body[i] != (unsigned char)(i * 5 + 1)) return false;
    return true;
}
}  // namespace

PBT_TARGET(M08_history, 1500000, 20000000,
           "history of allocate/new_object/construct/delete/conversions over three resources which may fail; "
           "non-trivial: an object made from arguments, an object deleted and a failed request")
{
    World8 w(c);
    auto &res = w.res;
    std::vector<Live> live;
    lg = Log{};
    unsigned made = 0, deleted = 0, failed = 0;
    struct Pre
    {
        std::size_t calls[3], frees[3];
    };
    auto pre = [&]
    {
        Pre p;
        for (int i = 0; i < 3; ++i) p.calls[i] = res[i].calls.size(), p.frees[i] = res[i].frees;
        return p;
    };
    auto delta = [&](const Pre &p, int r, std::size_t calls, std::size_t frees, const char *what)
    {
        c.raise_deferred();
        for (int i = 0; i < 3; ++i)
        {
            PBT_CHECK(c, res[i].calls.size() - p.calls[i] == (i == r ? calls : 0), "%s: resource %d was asked %zu times",
                      what, i, res[i].calls.size() - p.calls[i]);
            PBT_CHECK(c, res[i].frees - p.frees[i] == (i == r ? frees : 0), "%s: resource %d received %zu blocks back",
                      what, i, res[i].frees - p.frees[i]);
        }
    };
    // an allocator of type T for resource r, possibly made by copying or converting another one
    auto route = [&](auto *tag, int r)
    {
        using T = std::remove_pointer_t<decltype(tag)>;
        switch (c.below(6))
        {
            case 5:
            {
                const A<const int> i(&res[r]);
                A<volatile O3> v(i);
                A<T> a = v;
                return a;
            }
            case 1:
            {
                A<int> i(&res[r]);
                return A<T>(i);
            }
            case 2:
            {
                A<T> a(&res[r]);
                A<T> b(a);
                return b;
            }
            case 3:
            {
                A<char> a(&res[r]);
                A<O64> b = a;
                A<T> d = b;
                return d;
            }
            case 4:
            {
                auto *old = um::set_default_resource(&res[r]);
                A<T> a;
                um::set_default_resource(old);
                return a;
            }
            default: return A<T>(&res[r]);
        }
    };
    auto destroy = [&](std::size_t i)
    {
        Live l = live[i];
        live.erase(live.begin() + i);
        with_type(l.type,
                  [&](auto *tag)
                  {
                      using T = std::remove_pointer_t<decltype(tag)>;
                      auto p = pre();
                      Log before = lg;
                      auto a = route(tag, l.r);
                      if (l.object)
                      {
                          PBT_CHECK(c, fresh((T *)l.p), "a live object was overwritten");
                          if (c.chance(50))
                              a.delete_object((T *)l.p);
                          else
                              A<long>(a).delete_object((T *)l.p);
                          PBT_CHECK(c, lg.dtors == before.dtors + 1 && lg.self == l.p && lg.ctors == before.ctors,
                                    "delete_object ran %u destructors", lg.dtors - before.dtors);
                          ++deleted;
                      }
                      else
                      {
                          switch (c.below(3))
                          {
                              case 0: a.deallocate((T *)l.p); break;
                              case 1: a.deallocate_bytes(l.p); break;
                              default: A<char>(a).deallocate_object((T *)l.p);
                          }
                          PBT_CHECK(c, lg.dtors == before.dtors && lg.ctors == before.ctors,
                                    "returning raw memory ran constructors or destructors");
                      }
                      c.trace("release type %d from resource %d", l.type, l.r);
                      delta(p, l.r, 0, 1, "release");
                      auto *k = std::find_if(res[l.r].calls.data(), res[l.r].calls.data() + res[l.r].calls.size(),
                                             [&](auto &x) { return x.ptr == l.p; });
                      PBT_CHECK(c, k->freed, "a different pointer was given back");
                  });
    };
    for (std::size_t i = 0; c.more(12, i, 60); ++i)
    {
        int t = (int)c.below(6), r = (int)c.below(3);
        bool fail = c.chance(20);
        res[r].fail_next = fail;
        switch (c.weighted({5, 7, 5, 1, 2}))
        {
            case 0:  // raw memory
            {
                with_type(
                    t,
                    [&](auto *tag)
                    {
                        using T = std::remove_pointer_t<decltype(tag)>;
                        auto p = pre();
                        std::size_t n = 1 + c.below(12);
                        const std::size_t max = ~std::size_t{0} / sizeof(T);
                        if (c.chance(35))
                        {
                            switch (c.below(4))
                            {
                                case 0: n = max + c.below(5) - 2; break;
                                case 1: n = max + 1 + c.below(300); break;
                                case 2: n = c.bits(64); break;
                                default:
                                    n = (std::size_t)((((u128)1 << 64) * (1 + c.below(sizeof(T)))) / sizeof(T)) + c.below(4);
                            }
                        }
                        else if (c.chance(4))
                            n = 0;
                        u128 want = (u128)n * sizeof(T);
                        bool over = want > ~std::size_t{0};
                        auto a = route(tag, r);
                        Log before = lg;
                        void *q;
                        int form = (int)c.below(3);
                        std::size_t align = alignof(T);
                        if (form == 2 && over) form = 0;
                        switch (form)
                        {
                            case 0: q = a.allocate(n); break;
                            case 1: q = A<short>(a).template allocate_object<T>(n); break;
                            default:
                                if (c.chance(50))
                                {
                                    align = std::size_t{1} << c.below(c.chance(15) ? 64 : 9);
                                    q = a.allocate_bytes((std::size_t)want, align);
                                }
                                else
                                {
                                    align = alignof(std::max_align_t);
                                    q = a.allocate_bytes((std::size_t)want);
                                }
                        }
                        c.trace("allocate form %d type %d n=%zu resource %d%s = %s", form, t, n, r, fail ? " fails" : "",
                                q ? "ok" : "null");
                        PBT_CHECK(c, lg.ctors == before.ctors, "allocating ran a constructor");
                        if (over)
                        {
                            PBT_CHECK(c, !q, "%zu objects of %zu bytes do not fit the address space but %p was returned", n,
                                      sizeof(T), q);
                            delta(p, r, 0, 0, "overflowing request");
                            ++failed;
                            return;
                        }
                        if (!n)
                        {
                            // nothing is asked for: passing that on and answering null are both fine
                            std::size_t asked = res[r].calls.size() - p.calls[r];
                            delta(p, r, asked ? 1 : 0, 0, "allocate 0");
                            void *ans = asked ? res[r].calls.back().ptr : nullptr;
                            PBT_CHECK(c, !asked || res[r].calls.back().size == 0, "no object asked for but %zu bytes requested",
                                      res[r].calls.back().size);
                            PBT_CHECK(c, q == ans, "the resource's answer %p became %p", ans, q);
                            if (q) live.push_back({t, q, r, false, 0});
                            return;
                        }
                        delta(p, r, 1, 0, "allocate");
                        auto &k = res[r].calls.back();
                        PBT_CHECK(c, k.size == (std::size_t)want && k.align == align, "asked for %zu/%zu instead of %zu/%zu",
                                  k.size, k.align, (std::size_t)want, align);
                        PBT_CHECK(c, k.ptr == q, "the resource's answer %p became %p", (void *)k.ptr, q);
                        if (q)
                        {
                            memset(q, 0x77, std::min<std::size_t>((std::size_t)want, 64));
                            live.push_back({t, q, r, false, n});
                        }
                        else
                            ++failed;
                    });
                break;
            }
            case 1:  // new object
            {
                if (c.chance(50)) t = 3;
                with_type(
                    t,
                    [&](auto *tag)
                    {
                        using T = std::remove_pointer_t<decltype(tag)>;
                        auto p = pre();
                        auto a = route(tag, r);
                        Arg a1{1}, a2{2}, a3{3};
                        Arg2 b1{1}, b2{2}, b3{3};
                        constexpr bool many = std::is_same_v<T, O24>;  // longer argument lists only here: build time
                        int nargs = (int)c.below(many ? 4 : 2), cats[3] = {0, 0, 0};
                        bool sec[3] = {false, false, false};
                        for (int k = 0; k < nargs; ++k) cats[k] = 1 + (int)c.below(4), sec[k] = c.chance(50);
                        const void *addr[3] = {sec[0] ? (void *)&b1 : &a1, sec[1] ? (void *)&b2 : &a2, sec[2] ? (void *)&b3 : &a3};
                        bool in_place = c.chance(30);  // construct() into memory of the caller
                        bool from_obj = !in_place && nargs == 1 && c.chance(40);
                        Log before;
                        lg = before;
                        T *q = nullptr;
                        alignas(64) unsigned char raw[1024];
                        auto build = [&](auto &&...xs)
                        {
                            if (in_place)
                            {
                                a.construct((T *)raw, std::forward<decltype(xs)>(xs)...);
                                q = (T *)raw;
                            }
                            else if (c.chance(50))
                                q = a.template new_object<T>(std::forward<decltype(xs)>(xs)...);
                            else
                                q = A<double>(a).template new_object<T>(std::forward<decltype(xs)>(xs)...);
                        };
                        if (nargs == 0)
                            build();
                        else if (from_obj)
                        {
                            alignas(T) static unsigned char srcmem[sizeof(T)];
                            T *src = new (srcmem) T();
                            lg = before;
                            addr[0] = src;
                            sec[0] = false;
                            switch (cats[0])
                            {
                                case kL: build(as<kL>(*src)); break;
                                case kCL: build(as<kCL>(*src)); break;
                                case kR: build(as<kR>(*src)); break;
                                default: build(as<kCR>(*src));
                            }
                        }
                        else
                            with_arg(cats[0], sec[0], a1, b1,
                                     [&](auto k1, auto &x1)
                                     {
                                         if (nargs == 1) return build(as<decltype(k1)::value>(x1));
                                         if constexpr (many)
                                         with_arg(cats[1], sec[1], a2, b2,
                                                  [&](auto k2, auto &x2)
                                                  {
                                                      if (nargs == 2)
                                                          return build(as<decltype(k1)::value>(x1), as<decltype(k2)::value>(x2));
                                                      // the third argument: a subset keeps the build small
                                                      if (cats[2] == kL || cats[2] == kCL)
                                                      {
                                                          cats[2] = kL;
                                                          sec[2] = false;
                                                          addr[2] = &a3;
                                                          build(as<decltype(k1)::value>(x1), as<decltype(k2)::value>(x2), a3);
                                                      }
                                                      else
                                                      {
                                                          cats[2] = kR;
                                                          sec[2] = true;
                                                          addr[2] = &b3;
                                                          build(as<decltype(k1)::value>(x1), as<decltype(k2)::value>(x2), std::move(b3));
                                                      }
                                                  });
                                     });
                        c.trace("%s type %d resource %d%s args %d%d%d = %s", in_place ? "construct" : "new_object", t, r,
                                fail ? " fails" : "", cats[0], cats[1], cats[2], q ? "ok" : "null");
                        if (in_place)
                            delta(p, r, 0, 0, "construct");
                        else
                        {
                            delta(p, r, 1, 0, "new_object");
                            auto &k = res[r].calls.back();
                            PBT_CHECK(c, k.size == sizeof(T) && k.align == alignof(T), "asked for %zu/%zu instead of %zu/%zu",
                                      k.size, k.align, sizeof(T), alignof(T));
                            PBT_CHECK(c, k.ptr == (void *)q, "the resource's answer %p became %p", (void *)k.ptr, (void *)q);
                        }
                        if (!q)
                        {
                            PBT_CHECK(c, lg.ctors == 0 && lg.dtors == 0, "memory is missing but a constructor ran");
                            ++failed;
                            return;
                        }
                        PBT_CHECK(c, lg.ctors == 1 && lg.dtors == 0 && lg.self == q,
                                  "%u constructors and %u destructors ran for one object", lg.ctors, lg.dtors);
                        for (int k = 0; k < 3; ++k)
                        {
                            PBT_CHECK(c, lg.cats[k] == (k < nargs ? cats[k] : 0),
                                      "argument %d arrived with value category %d instead of %d", k, lg.cats[k], cats[k]);
                            if (k < nargs)
                                PBT_CHECK(c, lg.addr[k] == addr[k] && lg.second[k] == sec[k],
                                          "argument %d is not the caller's object", k);
                        }
                        PBT_CHECK(c, fresh(q), "the new object was overwritten");
                        if (nargs) ++made;
                        if (in_place)
                            q->~T();
                        else
                            live.push_back({t, q, r, true, 1});
                    });
                break;
            }
            case 2:
                if (!live.empty()) destroy(c.below(live.size()));
                break;
            case 3:  // null
                with_type(t,
                          [&](auto *tag)
                          {
                              using T = std::remove_pointer_t<decltype(tag)>;
                              auto p = pre();
                              Log before = lg;
                              A<T> a(&res[r]);
                              a.delete_object((T *)nullptr);
                              c.trace("delete_object(null)");
                              delta(p, r, 0, 0, "deleting null");
                              PBT_CHECK(c, lg.dtors == before.dtors, "deleting null ran a destructor");
                          });
                break;
            default:  // comparisons
                with_type(t,
                          [&](auto *tag)
                          {
                              using T = std::remove_pointer_t<decltype(tag)>;
                              int s = (int)c.below(3);
                              const A<T> a = route(tag, r);
                              const A<T> b = route(tag, s);
                              const A<unsigned> d = b;
                              bool eq = res[r].id == res[s].id;
                              c.trace("compare %d %d", r, s);
                              PBT_CHECK(c, a.resource() == &res[r] && b.resource() == &res[s] && d.resource() == &res[s],
                                        "copying or converting changed the resource");
                              PBT_CHECK(c, (a == b) == eq && (b == a) == eq && (a != b) != eq,
                                        "allocators over resources %d and %d compare wrong", r, s);
                              PBT_CHECK(c, (a == d) == eq && (d == a) == eq && (a != d) != eq && (d != a) != eq,
                                        "allocators of different types over resources %d and %d compare wrong", r, s);
                          });
        }
        res[r].fail_next = false;
    }
    while (!live.empty()) destroy(c.below(live.size()));
    for (auto &r : res)
        for (auto &k : r.calls) PBT_CHECK(c, !k.ptr || k.freed, "memory was never returned");
    c.label("object made from arguments", made);
    c.label("request failed", failed);
    c.nontrivial(made && deleted && failed);
}
PBT_MAIN
