#include <utils/fast_pimpl.h>

#include <algorithm>
#include <deque>
#include <memory>
#include <string>
#include <vector>

#include "pbt.hpp"
using namespace pbt;

namespace
{
// ---- a wrapped type which reports everything that happens to it
enum Op
{
    kDef,
    kFwd,
    kCopy,
    kMove,
    kCopyAssign,
    kMoveAssign,
    kDtor
};
struct Event
{
    Op op;
    const void *self, *src;
    int cats[3];
    bool operator==(const Event &o) const
    {
        return op == o.op && self == o.self && src == o.src && !memcmp(cats, o.cats, sizeof cats);
    }
};
std::vector<Event> ev;
std::set<const void *> alive;
int throw_op = -1;  // this kind of operation throws
struct Boom
{
    int tag;
};
const char *names[] = {"default", "forwarded", "copied", "moved", "copy-assigned", "move-assigned", "destroyed"};
std::string text(const std::vector<Event> &v)
{
    std::string s;
    for (auto &e : v) s += fmt("%s %p from %p (%d %d %d), ", names[e.op], e.self, e.src, e.cats[0], e.cats[1], e.cats[2]);
    return s;
}
void maybe_throw(Op o)
{
    if (throw_op == o) throw Boom{1000 + o};
}
template <typename T>
constexpr int cat()
{
    using V = std::remove_reference_t<T>;
    return 1 + std::is_lvalue_reference_v<T> * 2 + std::is_const_v<V>;
}
struct Arg
{
    int v;
};
template <std::size_t Size, std::size_t Align>
struct alignas(Align) Tr
{
    unsigned char body[Size];
    void put(unsigned v)
    {
        for (std::size_t i = 0; i < Size; ++i) body[i] = (unsigned char)(v + i * (v % 7));
    }
    bool is(unsigned v) const
    {
        for (std::size_t i = 0; i < Size; ++i)
            if (body[i] != (unsigned char)(v + i * (v % 7))) return false;
        return true;
    }
    void born(Op o, const void *src, std::initializer_list<int> cats = {})
    {
        Event e{o, this, src, {0, 0, 0}};
        std::copy(cats.begin(), cats.end(), e.cats);
        ev.push_back(e);
        maybe_throw(o);
        if (!alive.insert(this).second) ev.push_back({o, this, nullptr, {-1, -1, -1}});
    }
    Tr() { born(kDef, nullptr), put(7); }
    template <typename P, typename = std::enable_if_t<std::is_same_v<std::decay_t<P>, Arg>>>
    explicit Tr(P &&p)
    {
        born(kFwd, &p, {cat<P &&>()}), put((unsigned)p.v);
    }
    template <typename P, typename Q>
    Tr(P &&p, Q &&q)
    {
        born(kFwd, &p, {cat<P &&>(), cat<Q &&>()}), put((unsigned)(p.v * 3 + q.v));
    }
    template <typename P, typename Q, typename R>
    Tr(P &&p, Q &&q, R &&r)
    {
        born(kFwd, &p, {cat<P &&>(), cat<Q &&>(), cat<R &&>()}), put((unsigned)(p.v * 9 + q.v * 3 + r.v));
    }
    Tr(const Tr &o)
    {
        born(kCopy, &o);
        memcpy(body, o.body, Size);
    }
    Tr(Tr &&o)
    {
        born(kMove, &o);
        memcpy(body, o.body, Size);
        if (&o != this) o.put(0);
    }
    Tr &operator=(const Tr &o)
    {
        ev.push_back({kCopyAssign, this, &o, {0, 0, 0}});
        maybe_throw(kCopyAssign);
        memmove(body, o.body, Size);
        return *this;
    }
    Tr &operator=(Tr &&o)
    {
        ev.push_back({kMoveAssign, this, &o, {0, 0, 0}});
        maybe_throw(kMoveAssign);
        memmove(body, o.body, Size);
        if (&o != this) o.put(0);
        return *this;
    }
    ~Tr()
    {
        ev.push_back({kDtor, this, nullptr, {0, 0, 0}});
        if (!alive.erase(this)) ev.push_back({kDtor, this, nullptr, {-1, -1, -1}});
    }
};

template <typename T>
using P = utils::fast_pimpl<T, sizeof(T), alignof(T)>;

constexpr int kSlots = 5;
template <typename T>
struct Store
{
    using H = P<T>;
    static_assert(sizeof(H) == sizeof(T) && alignof(H) == alignof(T));
    struct Cell
    {
        alignas(64) unsigned char before[64];
        alignas(H) unsigned char mem[sizeof(H)];
        unsigned char after[64];
    };
    Cell cell[kSlots];
    bool on[kSlots] = {};
    unsigned val[kSlots] = {};
    Store() { memset(cell, 0xA5, sizeof cell); }
    H &at(int i) { return *std::launder(reinterpret_cast<H *>(cell[i].mem)); }
    void check(Ctx &c)
    {
        for (int i = 0; i < kSlots; ++i)
        {
            for (auto b : cell[i].before) PBT_CHECK(c, b == 0xA5, "a byte before the holder was written");
            for (auto b : cell[i].after) PBT_CHECK(c, b == 0xA5, "a byte behind the holder was written");
            PBT_CHECK(c, alive.count(cell[i].mem) == (on[i] ? 1 : 0), "holder %d %s", i,
                      on[i] ? "has no live object" : "still has a live object");
            if (!on[i]) continue;
            H &h = at(i);
            const H &ch = h;
            static_assert(std::is_same_v<decltype(h.get()), T &> && std::is_same_v<decltype(ch.get()), const T &> &&
                          std::is_same_v<decltype(h.operator->()), T *> && std::is_same_v<decltype(ch.operator->()), const T *>);
            PBT_CHECK(c, (void *)&h.get() == (void *)&h && (void *)&ch.get() == (void *)&h && (void *)h.operator->() == (void *)&h &&
                             (void *)ch.operator->() == (void *)&h,
                      "access through the holder does not reach the object at the holder's address");
            PBT_CHECK(c, reinterpret_cast<std::uintptr_t>(&h.get()) % alignof(T) == 0, "the object is misaligned");
            PBT_CHECK(c, ch->is(val[i]) && h.get().is(val[i]), "holder %d has a value other than %u", i, val[i]);
        }
        std::size_t n = (std::size_t)std::count(on, on + kSlots, true);
        PBT_CHECK(c, alive.size() == n, "%zu objects live in %zu holders", alive.size(), n);
    }
};

template <typename T>
void history(Ctx &c)
{
    using H = P<T>;
    ev.clear();
    alive.clear();
    throw_op = -1;
    Store<T> s;
    unsigned thrown = 0, assigned = 0, copies = 0;
    auto expect = [&](std::vector<Event> w, const char *what)
    {
        PBT_CHECK(c, ev == w, "%s: happened: %s expected: %s", what, text(ev).c_str(), text(w).c_str());
        ev.clear();
    };
    for (std::size_t n = 0; c.more(14, n, 80); ++n)
    {
        int i = (int)c.below(kSlots), j = (int)c.below(kSlots);
        unsigned v = (unsigned)c.below(200);
        int kind = (int)c.below(12);
        bool boom = c.chance(15);
        ev.clear();
        try
        {
            if (!s.on[i])
            {
                void *m = s.cell[i].mem;
                if (kind >= 9 && !s.on[j]) kind = 0;
                memset(m, (int)c.below(256), sizeof(H));
                Event w{kDef, m, nullptr, {0, 0, 0}};
                unsigned nv = 7;
                // what the operation on a plain object would be
                switch (kind)
                {
                    case 0:
                    case 1:
                        if (boom) throw_op = kDef;
                        c.trace("%d default%s", i, boom ? " throws" : "");
                        if (kind)
                            new (m) H();
                        else
                            new (m) H(utils::forwarding_constructor{});
                        break;
                    case 2:
                    case 3:
                    case 4:
                    case 5:
                    {
                        if (boom) throw_op = kFwd;
                        Arg a{(int)v}, b{(int)v / 2}, d{1};
                        const Arg ca{(int)v};
                        w.op = kFwd;
                        w.src = &a;
                        int sh = (int)c.below(7);
                        c.trace("%d forward %u shape %d%s", i, v, sh, boom ? " throws" : "");
                        utils::forwarding_constructor f;
                        nv = v;
                        switch (sh)
                        {
                            case 0: w.cats[0] = cat<Arg &>(); new (m) H(f, a); break;
                            case 1: w.cats[0] = cat<Arg &&>(); new (m) H(f, std::move(a)); break;
                            case 2: w.cats[0] = cat<const Arg &>(); w.src = &ca; new (m) H(f, ca); break;
                            case 3: w.cats[0] = cat<const Arg &&>(); w.src = &ca; new (m) H(f, std::move(ca)); break;
                            case 4:
                                w.cats[0] = cat<Arg &>(), w.cats[1] = cat<Arg &&>();
                                nv = v * 3 + v / 2;
                                new (m) H(f, a, std::move(b));
                                break;
                            case 5:
                                w.cats[0] = cat<Arg &&>(), w.cats[1] = cat<const Arg &>();
                                nv = v / 2 * 3 + v;
                                w.src = &b;
                                new (m) H(f, std::move(b), ca);
                                break;
                            default:
                                w.cats[0] = cat<Arg &>(), w.cats[1] = cat<Arg &&>(), w.cats[2] = cat<const Arg &>();
                                nv = v * 9 + v / 2 * 3 + v;
                                new (m) H(f, a, std::move(b), ca);
                        }
                        (void)d;
                        break;
                    }
                    case 6:
                    case 7:
                    case 8:
                    {
                        // from the wrapped type itself
                        static T *src = nullptr;
                        alignas(T) unsigned char sm[sizeof(T)];
                        int to = throw_op;
                        throw_op = -1;
                        src = new (sm) T(Arg{(int)v});
                        ev.clear();
                        bool mv = c.chance(50), cst = c.chance(30);
                        throw_op = boom ? (mv ? kMove : kCopy) : to;
                        nv = v;
                        w.op = mv ? kMove : kCopy;
                        w.src = src;
                        c.trace("%d from plain %u %s%s", i, v, mv ? "moved" : "copied", boom ? " throws" : "");
                        struct Clean
                        {
                            ~Clean()
                            {
                                int t = throw_op;
                                throw_op = -1;
                                auto keep = ev;
                                src->~T();
                                ev = keep;
                                throw_op = t;
                            }
                        } clean;
                        if (mv)
                            new (m) H(std::move(*src));
                        else if (cst)
                            new (m) H(static_cast<const T &>(*src));
                        else
                            new (m) H(*src);
                        PBT_CHECK(c, src->is(mv ? 0 : v), "the source object has an unexpected value");
                        break;
                    }
                    default:
                    {
                        bool mv = kind == 11, cst = kind == 10;
                        if (boom) throw_op = mv ? kMove : kCopy;
                        w.op = mv ? kMove : kCopy;
                        w.src = s.cell[j].mem;
                        nv = s.val[j];
                        c.trace("%d %s %d%s", i, mv ? "moved from" : "copy of", j, boom ? " throws" : "");
                        if (mv)
                        {
                            new (m) H(std::move(s.at(j)));
                            s.val[j] = 0;
                        }
                        else if (cst)
                            new (m) H(static_cast<const H &>(s.at(j)));
                        else
                            new (m) H(s.at(j));
                        ++copies;
                    }
                }
                s.on[i] = true;
                s.val[i] = nv;
                expect({w}, "construction");
                PBT_CHECK(c, throw_op < 0, "the exception of the wrapped type's constructor was lost");
            }
            else if (kind < 3)
            {
                c.trace("destroy %d", i);
                s.at(i).~H();
                s.on[i] = false;
                expect({{kDtor, s.cell[i].mem, nullptr, {0, 0, 0}}}, "destruction");
            }
            else if (kind < 8 && s.on[j])
            {
                bool mv = kind & 1;
                bool inner = kind >= 6;  // through the wrapped object rather than the holder
                Event w{mv ? kMoveAssign : kCopyAssign, s.cell[i].mem, s.cell[j].mem, {0, 0, 0}};
                if (i == j) boom = false;
                if (boom) throw_op = w.op;
                c.trace("%d %s= %d%s%s", i, mv ? "move" : "copy", j, inner ? " wrapped" : "", boom ? " throws" : "");
                unsigned nv = s.val[j];
                H *r;
                if (mv)
                    r = inner ? &(s.at(i) = std::move(s.at(j).get())) : &(s.at(i) = std::move(s.at(j)));
                else
                    r = inner ? &(s.at(i) = static_cast<const T &>(s.at(j).get())) : &(s.at(i) = static_cast<const H &>(s.at(j)));
                PBT_CHECK(c, r == &s.at(i), "assignment does not return its target");
                PBT_CHECK(c, throw_op < 0, "the exception of the wrapped type's assignment was lost");
                if (mv && i != j) s.val[j] = 0;
                s.val[i] = nv;
                if (i == j && ev.empty()) ev.push_back(w);  // assigning an object to itself may be left out
                expect({w}, "assignment");
                ++assigned;
            }
            else if (kind < 10)
            {
                bool mv = kind & 1;
                if (c.chance(35))
                {
                    // the target itself through its wrapped object
                    Event w{mv ? kMoveAssign : kCopyAssign, s.cell[i].mem, s.cell[i].mem, {0, 0, 0}};
                    c.trace("%d = itself", i);
                    if (mv)
                        s.at(i) = std::move(*s.at(i).operator->());
                    else
                        s.at(i) = *s.at(i).operator->();
                    if (ev.empty()) ev.push_back(w);
                    expect({w}, "self assignment");
                }
                else
                {
                    T src{Arg{(int)v}};
                    ev.clear();
                    Event w{mv ? kMoveAssign : kCopyAssign, s.cell[i].mem, &src, {0, 0, 0}};
                    c.trace("%d %s= plain %u%s", i, mv ? "move" : "copy", v, boom ? " throws" : "");
                    if (boom) throw_op = w.op;
                    if (mv)
                        s.at(i) = std::move(src);
                    else if (c.chance(50))
                        s.at(i) = src;
                    else
                        s.at(i) = static_cast<const T &>(src);
                    PBT_CHECK(c, throw_op < 0, "the exception of the wrapped type's assignment was lost");
                    s.val[i] = v;
                    expect({w}, "assignment from the wrapped type");
                    PBT_CHECK(c, src.is(mv ? 0 : v), "the assigned-from object has an unexpected value");
                    ++assigned;
                }
            }
            else
            {
                c.trace("write %d = %u", i, v);
                if (c.chance(50))
                    s.at(i)->put(v);
                else
                    s.at(i).get().put(v);
                s.val[i] = v;
                expect({}, "access");
            }
        }
        catch (const Boom &b)
        {
            PBT_CHECK(c, boom && b.tag == 1000 + throw_op, "an unexpected exception");
            if (ev.size() && ev.back().op == kDtor && ev.size() > 1) ev.pop_back();  // the plain source
            PBT_CHECK(c, ev.size() == 1 && ev[0].op == throw_op, "around a throwing operation happened: %s", text(ev).c_str());
            ++thrown;
        }
        throw_op = -1;
        s.check(c);
    }
    for (int i = 0; i < kSlots; ++i)
        if (s.on[i])
        {
            ev.clear();
            s.at(i).~H();
            s.on[i] = false;
            expect({{kDtor, s.cell[i].mem, nullptr, {0, 0, 0}}}, "destruction");
        }
    s.check(c);
    c.label("exception passed through", thrown);
    c.label("assignments", assigned);
    c.nontrivial(assigned && copies);
}

// ---- the same program on holders and on plain objects of library types
template <typename T>
T value(Ctx &c)
{
    if constexpr (std::is_same_v<T, std::string>)
        return std::string(c.below(40), (char)('a' + c.below(26)));
    else if constexpr (std::is_same_v<T, std::vector<int>>)
        return std::vector<int>(c.below(8), (int)c.below(100));
    else if constexpr (std::is_same_v<T, std::shared_ptr<int>>)
        return c.chance(30) ? nullptr : std::make_shared<int>((int)c.below(9));
    else if constexpr (sizeof(T) > 1000)
    {
        T t{};
        if (c.chance(80)) t.v[c.below(std::size(t.v))] = 1 + (int)c.below(100);
        t.v[std::size(t.v) - 1 - c.below(3)] = (int)c.below(100);
        return t;
    }
    else
    {
        T t{};
        t.c = (char)c.below(100);
        t.f = (float)c.below(100);
        t.i = (int)c.below(100);
        return t;
    }
}
struct Big  // trivially copyable and large
{
    int v[2500];
    bool operator==(const Big &o) const { return !std::memcmp(v, o.v, sizeof v); }
};
struct Pod
{
    char c;
    float f;
    int i;
    bool operator==(const Pod &o) const { return c == o.c && f == o.f && i == o.i; }
};
template <typename T>
bool eq(const T &a, const T &b)
{
    if constexpr (std::is_same_v<T, std::shared_ptr<int>>)
        return !a == !b && (!a || (*a == *b && a.use_count() == b.use_count()));
    else
        return a == b;
}
template <typename T>
void differential(Ctx &c)
{
    using H = P<T>;
    std::vector<H> h;
    std::vector<T> m;
    unsigned steps = 0, moves = 0;
    for (std::size_t n = 0; c.more(14, n, 80); ++n)
    {
        std::size_t i = h.empty() ? 0 : c.below(h.size()), j = h.empty() ? 0 : c.below(h.size());
        int k = (int)c.below(13);
        if (h.empty() && k > 3) k = 0;
        if (h.size() > 12) k = 4;
        ++steps;
        switch (k)
        {
            case 0:
                c.trace("default");
                h.emplace_back();
                m.emplace_back();
                break;
            case 1:
            {
                T v = value<T>(c);
                T v2 = v;
                if constexpr (std::is_same_v<T, std::shared_ptr<int>>)
                    v2 = v ? std::make_shared<int>(*v) : nullptr;
                c.trace("push value");
                bool mv = c.chance(50);
                if (mv)
                    h.push_back(H(std::move(v))), m.push_back(std::move(v2));
                else
                    h.push_back(H(v)), m.push_back(v2);
                PBT_CHECK(c, eq(v, v2), "the source differs from what the plain operation leaves");
                break;
            }
            case 2:
                if constexpr (std::is_same_v<T, std::string> || std::is_same_v<T, std::vector<int>>)
                {
                    std::size_t len = c.below(40);
                    c.trace("forward (%zu, x)", len);
                    h.emplace_back(utils::forwarding_constructor{}, len, (typename T::value_type)('x'));
                    m.emplace_back(len, (typename T::value_type)('x'));
                }
                else
                {
                    h.emplace_back(utils::forwarding_constructor{});
                    m.emplace_back();
                }
                break;
            case 3:
            {
                T v = value<T>(c);
                T v2 = v;
                if constexpr (std::is_same_v<T, std::shared_ptr<int>>)
                    v2 = v ? std::make_shared<int>(*v) : nullptr;
                c.trace("insert at %zu", i);
                h.insert(h.begin() + i, v);
                m.insert(m.begin() + i, v2);
                break;
            }
            case 4:
                c.trace("erase %zu", i);
                h.erase(h.begin() + i);
                m.erase(m.begin() + i);
                break;
            case 5:
                c.trace("%zu = %zu", i, j);
                h[i] = h[j];
                m[i] = m[j];
                break;
            case 6:
                c.trace("%zu = move %zu", i, j);
                if (i == j) break;
                h[i] = std::move(h[j]);
                m[i] = std::move(m[j]);
                ++moves;
                break;
            case 7:
                c.trace("swap %zu %zu", i, j);
                std::swap(h[i], h[j]);
                std::swap(m[i], m[j]);
                ++moves;
                break;
            case 8:
            {
                T v = value<T>(c);
                T v2 = v;
                if constexpr (std::is_same_v<T, std::shared_ptr<int>>)
                    v2 = v ? std::make_shared<int>(*v) : nullptr;
                c.trace("%zu = value", i);
                if (c.chance(50))
                    h[i] = v, m[i] = v2;
                else
                    h[i] = std::move(v), m[i] = std::move(v2);
                PBT_CHECK(c, eq(v, v2), "the source differs from what the plain operation leaves");
                break;
            }
            case 9:
            {
                c.trace("copy all");
                std::vector<H> h2(h);
                std::vector<T> m2(m);
                h.swap(h2);
                m.swap(m2);
                break;
            }
            case 10:
            {
                H x(std::move(h[i]));
                T y(std::move(m[i]));
                c.trace("out and back %zu -> %zu", i, j);
                PBT_CHECK(c, eq(x.get(), y), "a moved-out value differs");
                h[j] = std::move(x);
                m[j] = std::move(y);
                ++moves;
                break;
            }
            case 11:
                c.trace("reverse");
                std::reverse(h.begin(), h.end());
                std::reverse(m.begin(), m.end());
                ++moves;
                break;
            default:
                c.trace("self %zu", i);
                h[i] = static_cast<const H &>(h[i]);
                m[i] = static_cast<const T &>(m[i]);
        }
        PBT_CHECK(c, h.size() == m.size(), "sizes differ");
        for (std::size_t q = 0; q < h.size(); ++q)
        {
            const H &ch = h[q];
            PBT_CHECK(c, eq(ch.get(), m[q]) && eq(*ch.operator->(), m[q]), "element %zu differs from the plain object", q);
        }
    }
    c.nontrivial(steps > 4 && moves);
}

// a move-only type and one whose value is its own address; that one also overloads what a holder must not use
struct Self
{
    static void *decoy()
    {
        alignas(16) static char d[64];
        return d;
    }
    Self *operator&() { return static_cast<Self *>(decoy()); }
    const Self *operator&() const { return static_cast<const Self *>(decoy()); }
    static void *operator new(std::size_t, void *) noexcept { return decoy(); }
    static void *operator new(std::size_t) { std::abort(); }
    static void operator delete(void *) { std::abort(); }
    Self *me;
    int v;
    Self() : me(this), v(0) {}
    explicit Self(int x) : me(this), v(x) {}
    Self(const Self &o) : me(this), v(o.v) {}
    Self &operator=(const Self &o)
    {
        v = o.v;
        return *this;
    }
};
// types of which only some special members do anything (the others are trivial), with and without data
int *tally;
enum
{
    kOnDef = 1,
    kOnCopy = 2,
    kOnMove = 4,
    kOnCopyTo = 8,
    kOnMoveTo = 16,
    kOnEnd = 32
};
template <int K, int What>
struct Part
{
};
#define PART(K, DEF, COPY, MOVE, CTO, MTO, END) \
    template <>                                 \
    struct Part<K, K>                           \
    {                                           \
        Part() DEF                              \
        Part(const Part &) COPY                 \
        Part(Part &&) noexcept MOVE             \
        Part &operator=(const Part &) CTO       \
        Part &operator=(Part &&) noexcept MTO   \
        ~Part() END                             \
    };
#define D = default;
PART(kOnDef, { ++tally[0]; }, D, D, D, D, D)
PART(kOnCopy, D, { ++tally[1]; }, D, D, D, D)
PART(kOnMove, D, D, { ++tally[2]; }, D, D, D)
PART(kOnCopyTo, D, D, D, { ++tally[3]; return *this; }, D, D)
PART(kOnMoveTo, D, D, D, D, { ++tally[4]; return *this; }, D)
PART(kOnEnd, D, D, D, D, D, { ++tally[5]; })
#undef D
template <int N>
struct Data
{
    char bytes[N];
};
template <>
struct Data<0>
{
};
template <int F, int N>
struct Some : Part<kOnDef, F & kOnDef>, Part<kOnCopy, F & kOnCopy>, Part<kOnMove, F & kOnMove>, Part<kOnCopyTo, F & kOnCopyTo>,
              Part<kOnMoveTo, F & kOnMoveTo>, Part<kOnEnd, F & kOnEnd>, Data<N>
{
};
template <typename T>
void tallies(Ctx &c)
{
    using H = P<T>;
    int on_holders[6] = {}, on_objects[6] = {};
    auto same = [&](const char *what)
    {
        for (int i = 0; i < 6; ++i)
            PBT_CHECK(c, on_holders[i] == on_objects[i], "%s: special member %d ran %d times instead of %d", what, i, on_holders[i], on_objects[i]);
    };
    {
        std::vector<std::unique_ptr<H>> h;
        std::vector<std::unique_ptr<T>> t;
        auto both = [&](const char *what, auto f, auto g)
        {
            c.trace("%s", what);
            tally = on_holders;
            f();
            tally = on_objects;
            g();
            same(what);
        };
        for (std::size_t n = 0; c.more(8, n, 30); ++n)
        {
            std::size_t i = h.empty() ? 0 : c.below(h.size()), j = h.empty() ? 0 : c.below(h.size());
            unsigned k = (unsigned)c.below(10);
            if (h.empty()) k %= 2;
            switch (k)
            {
                case 0: both("default", [&] { h.push_back(std::make_unique<H>()); }, [&] { t.push_back(std::make_unique<T>()); }); break;
                case 1:
                    both("from an rvalue", [&] { h.push_back(std::make_unique<H>(T())); }, [&] { t.push_back(std::make_unique<T>(T())); });
                    break;
                case 2: both("copy", [&] { h.push_back(std::make_unique<H>(std::as_const(*h[i]))); }, [&] { t.push_back(std::make_unique<T>(std::as_const(*t[i]))); }); break;
                case 3: both("move", [&] { h.push_back(std::make_unique<H>(std::move(*h[i]))); }, [&] { t.push_back(std::make_unique<T>(std::move(*t[i]))); }); break;
                case 4:
                    if (i == j) break;
                    both("copy to", [&] { *h[i] = std::as_const(*h[j]); }, [&] { *t[i] = std::as_const(*t[j]); });
                    break;
                case 5:
                    if (i == j) break;
                    both("move to", [&] { *h[i] = std::move(*h[j]); }, [&] { *t[i] = std::move(*t[j]); });
                    break;
                case 6: both("assign an rvalue", [&] { *h[i] = T(); }, [&] { *t[i] = T(); }); break;
                case 7:
                    both("assign an lvalue", [&] { T x{}; *h[i] = x; }, [&] { T x{}; *t[i] = x; });
                    break;
                case 8:
                    both("forward", [&] { T x{}; h.push_back(std::make_unique<H>(utils::forwarding_constructor{}, x)); },
                         [&] { T x{}; t.push_back(std::make_unique<T>(x)); });
                    break;
                default: both("end", [&] { h.erase(h.begin() + (long)i); }, [&] { t.erase(t.begin() + (long)i); });
            }
        }
        both("all end", [&] { h.clear(); }, [&] { t.clear(); });
    }
}
}  // namespace

PBT_TARGET(O01_tallies, 300000, 4000000,
           "the same program on holders and objects of types of which only some special members do anything, with data and without; "
           "non-trivial: more than two steps")
{
    unsigned k = (unsigned)c.below(22);
    switch (k)
    {
#define T_(K, F)                          \
    case 2 * K: tallies<Some<F, 0>>(c); break; \
    case 2 * K + 1: tallies<Some<F, 5>>(c); break;
        T_(0, 0) T_(1, kOnDef) T_(2, kOnCopy) T_(3, kOnMove) T_(4, kOnCopyTo) T_(5, kOnMoveTo) T_(6, kOnEnd) T_(7, 63) T_(8, kOnDef | kOnEnd)
        T_(9, kOnCopy | kOnMove | kOnEnd) T_(10, kOnCopyTo | kOnMoveTo)
    }
    c.label("no data", k % 2 == 0);
    c.nontrivial(true);
}
PBT_TARGET(O01_history, 900000, 15000000,
           "history of constructions, assignments and destructions of five holders, any of which may throw, against the "
           "exact sequence of operations on plain objects; non-trivial: a copy or move and an assignment")
{
    switch (c.below(4))
    {
        case 0: history<Tr<8, 8>>(c); break;
        case 1: history<Tr<1, 1>>(c); break;
        case 2: history<Tr<192, 64>>(c); break;
        default: history<Tr<24, 4>>(c);
    }
}
PBT_TARGET(O01_differential, 700000, 12000000,
           "the same container program on holders and on plain objects; non-trivial: more than four steps with a move")
{
    switch (c.weighted({8, 8, 8, 8, 1}))
    {
        case 0: differential<std::string>(c); break;
        case 1: differential<std::vector<int>>(c); break;
        case 2: differential<std::shared_ptr<int>>(c); break;
        case 3: differential<Pod>(c); break;
        default: differential<Big>(c);
    }
}
PBT_TARGET(O01_special, 300000, 4000000,
           "move-only contents, contents that know their address, temporaries returned by value; non-trivial: always")
{
    using U = P<std::unique_ptr<int>>;
    using S = P<Self>;
    std::vector<U> us;
    std::deque<S> ss;
    std::vector<int> um, sm;
    for (std::size_t n = 0; c.more(10, n, 40); ++n)
    {
        int v = (int)c.below(50);
        std::size_t i = us.empty() ? 0 : c.below(us.size()), j = ss.empty() ? 0 : c.below(ss.size());
        switch (c.below(9))
        {
            case 0:
                us.emplace_back(std::make_unique<int>(v));
                um.push_back(v);
                break;
            case 1:
                us.push_back(U(utils::forwarding_constructor{}, new int(v)));
                um.push_back(v);
                break;
            case 2:
                us.emplace_back();
                um.push_back(-1);
                break;
            case 3:
                if (us.empty()) break;
                us[i] = std::make_unique<int>(v);
                um[i] = v;
                break;
            case 4:
            {
                if (us.empty()) break;
                U x = std::move(us[i]);
                PBT_CHECK(c, !us[i].get(), "a moved-from unique_ptr still owns");
                us[c.below(us.size())] = std::move(x);
                um.clear();
                for (auto &u : us) um.push_back(u.get() ? **u.operator->() : -1);
                break;
            }
            case 5:
                ss.emplace_back(utils::forwarding_constructor{}, v);
                sm.push_back(v);
                break;
            case 6:
                ss.push_front([&]() -> S { return Self(v); }());
                sm.insert(sm.begin(), v);
                break;
            case 7:
                if (ss.empty()) break;
                ss[j] = ss[c.below(ss.size())];
                sm.clear();
                for (auto &q : ss) sm.push_back(q->v);
                break;
            default:
                if (ss.empty()) break;
                ss.erase(ss.begin() + (long)j);
                sm.erase(sm.begin() + (long)j);
        }
        for (std::size_t q = 0; q < us.size(); ++q)
            PBT_CHECK(c, (us[q].get() ? *us[q].get() : -1) == um[q], "unique_ptr %zu has a wrong value", q);
        for (std::size_t q = 0; q < ss.size(); ++q)
        {
            PBT_CHECK(c, ss[q]->v == sm[q], "value %zu is %d", q, ss[q]->v);
            PBT_CHECK(c, ss[q]->me == (void *)&ss[q] && ss[q].get().me == std::addressof(ss[q].get()) && ss[q].operator->() == (void *)&ss[q], "an object does not live where it was made");
        }
    }
    c.nontrivial();
}
PBT_MAIN
