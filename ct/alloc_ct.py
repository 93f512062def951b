"""M08: generated programs which create objects through allocators from argument lists of any length and kind."""
from ctlib import Case, Target
from a06_ct import PRE as PRE6, TY, init

PRE = PRE6.replace('#include <array>', '#include <utils/memory/allocator.h>\n#include <array>\n#include <cstddef>\n#include <cstring>\n#include <initializer_list>\n#include <memory>') + '''
namespace um = utils::memory;
inline int made = 0, gone = 0, given = 0, taken = 0;
inline std::size_t got_size = 0, got_align = 0;
inline void *last = nullptr;
struct Res : um::memory_resource {
    bool fail = false;
    alignas(256) unsigned char mem[1 << 14];
    Res() : um::memory_resource(&Res::allocate<Res>, &Res::deallocate<Res>) {}
    bool is_equal(const um::memory_resource &o) const noexcept override { return this == &o; }
    void *allocate_impl(std::size_t s, std::size_t a) noexcept {
        got_size = s; got_align = a; ++given;
        if (fail || s > sizeof(mem)) return nullptr;
        std::memset(mem, 0xCD, sizeof mem);
        return last = mem;
    }
    void deallocate_impl(void *p) noexcept { ++taken; if (p != last) taken += 100; last = nullptr; }
};
struct Any {
    Rec r;
    int n = 0;
    template <typename... P, typename = std::enable_if_t<sizeof...(P) != 1 || !(std::is_same_v<std::remove_cv_t<std::remove_reference_t<P>>, Any> || ...)>>
    explicit Any(P &&...p) noexcept { ++made; n = sizeof...(P); ((void)r(std::forward<P>(p)), ...); }
    Any(const Any &) = delete;
    ~Any() { ++gone; }
};
inline void zero() { seen.clear(); made = gone = given = taken = 0; }
struct Lst {   // braces would choose another constructor
    int how;
    Lst(int, int) noexcept : how(1) {}
    Lst(int) noexcept : how(3) {}
    Lst() noexcept : how(4) {}
    Lst(std::initializer_list<int>) noexcept : how(2) {}
};
struct Agg { int a, b, c; };
struct Big { explicit Big(unsigned char x) noexcept : v(x) {} unsigned char v; char pad[1000]; };
struct Vb { virtual ~Vb() { ++gone; } };
struct alignas(64) Vd : Vb { explicit Vd(int i) noexcept : x(i) { ++made; } int x; ~Vd() override { gone += 10; } };
struct Emp { Emp() noexcept { ++made; } explicit Emp(int) noexcept { made += 2; } ~Emp() { ++gone; } };
struct Fin final { explicit Fin(char) noexcept { ++made; } Fin(const Fin &) = delete; ~Fin() { ++gone; } };
struct Dtr { int x; ~Dtr() { ++gone; } };
struct Nst : Emp { Emp e; int x = 5; };
inline char decoy[64];
struct New { explicit New(int i) noexcept : v(i) {} int v; static void *operator new(std::size_t, void *) noexcept { return decoy; } };
struct Own { explicit Own(int i) noexcept : v(i) {} int v; static void *operator new(std::size_t) = delete; static void operator delete(void *) = delete; };
struct Adr { explicit Adr(int i) noexcept : v(i) {} int v; void operator&() const = delete; };
'''


def expect(k, cond, what):
    k.run('if (!(%s)) return "%s";' % (cond, what))


def gen(c):
    k = Case()
    k.run('zero(); Res res; um::allocator<%s> al(&res);' % c.pick(['int', 'char', 'std::byte', 'Any', 'Big']))
    a = 'al' if c.chance(60) else 'um::allocator<double>(al)'
    place = c.chance(35)
    if c.chance(75):
        n = c.length(3, 12)
        if c.chance(5):
            n = 12 + c.below(14)
        k.run('alignas(Any) unsigned char raw[sizeof(Any)];' if place else '')
        fail = not place and c.chance(12)
        if fail:
            k.run('res.fail = true;')
        want, args = [], []
        for i in range(n):
            t, v = c.pick(TY), c.below(40)
            q = c.pick(['lv', 'clv', 'rv', 'crv', 'tmp'])
            if q != 'tmp':
                k.run('%s%s x%d(%s);' % ('const ' if q[0] == 'c' else '', t, i, ("%d, 'x'" % v) if t == 'std::string' else v))
            args.append('x%d' % i if 'lv' in q else init(t, v) if q == 'tmp' else 'std::move(x%d)' % i)
            want.append((TY.index(t), int('lv' in q), int(q[0] == 'c'), v, '&x%d' % i if q != 'tmp' else None))
        if place:
            k.run('%s.construct(%s);' % (a, ', '.join(['(Any *)raw'] + args)))
            k.run('Any *p = (Any *)raw;')
        else:
            k.run('Any *p = %s.new_object<Any>(%s);' % (a, ', '.join(args)))
        expect(k, 'given == %d && taken == 0' % (0 if place else 1), 'requests made')
        if fail:
            expect(k, '!p && made == 0 && seen.empty()', 'an object without memory')
            k.run('%s.delete_object(p);' % a)
            expect(k, 'gone == 0 && taken == 0', 'deleting null did something')
        else:
            expect(k, 'made == 1 && gone == 0 && p->n == %d && seen.size() == %d' % (n, n), 'another constructor ran')
            if not place:
                expect(k, '(void *)p == res.mem && got_size == sizeof(Any) && got_align == alignof(Any)', 'the request')
            for i, (t, lv, cst, v, p) in enumerate(want):
                expect(k, 'seen[%d].type == %d' % (i, t), 'type of argument %d' % i)
                expect(k, 'seen[%d].cat == %d' % (i, lv), 'value category of argument %d' % i)
                expect(k, 'seen[%d].cst == %d' % (i, cst), 'constness of argument %d' % i)
                expect(k, 'seen[%d].val == %d' % (i, v), 'value of argument %d' % i)
                if p:
                    expect(k, 'seen[%d].p == (const void *)%s' % (i, p), 'argument %d is another object' % i)
            if place:
                k.run('p->~Any();')
                expect(k, 'taken == 0', 'something was returned')
            else:
                k.run('%s.delete_object(p);' % ('al' if c.chance(50) else 'um::allocator<Any>(&res)'))
                expect(k, 'gone == 1 && taken == 1', 'delete_object')
        k.label('construct' if place else 'new_object')
        k.label('no memory', fail)
        k.label('more than 3 arguments', n > 3)
        k.nontrivial = n > 0
        k.trace = '%s(%s)' % ('construct' if place else 'new_object', ', '.join(args))
        return k
    v = c.below(100)
    t, args, cond = c.pick([
        ('Lst', '3, 4', 'p->how == 1'), ('Lst', '3', 'p->how == 3'), ('Lst', '', 'p->how == 4'), ('Lst', 'std::initializer_list<int>{3, 4}', 'p->how == 2'),
        ('int', '', '*p == 0'), ('double', '', '*p == 0.0'), ('void *', '', '*p == nullptr'), ('Agg', '', 'p->a == 0 && p->b == 0 && p->c == 0'),
        ('Agg', 'Agg{%d, 2, 3}' % v, 'p->a == %d && p->b == 2 && p->c == 3' % v), ('int', str(v), '*p == %d' % v), ('short', '%dL' % v, '*p == %d' % v),
        ('unsigned char', str(v + 256), '*p == %d' % v), ('Big', str(v + 512), 'p->v == %d' % v), ('Vd', str(v), 'p->x == %d && made == 1' % v),
        ('std::unique_ptr<int>', 'std::make_unique<int>(%d)' % v, '**p == %d' % v), ('bool', '&v', '*p == true'), ('New', str(v), 'p->v == %d' % v), ('Own', str(v), 'p->v == %d' % v), ('Adr', str(v), 'p->v == %d' % v),
        ('Emp', '', 'made == 1'), ('Emp', '3', 'made == 2'), ('Fin', "'c'", 'made == 1'), ('Dtr', '', 'p->x == 0'), ('Dtr', 'Dtr{%d}' % v, 'p->x == %d && gone == 1' % v),
        ('Nst', '', 'made == 2 && p->x == 5'), ('std::shared_ptr<Emp>', 'std::make_shared<Emp>()', 'made == 1 && gone == 0 && p->use_count() == 1'),
        ('const int', str(v), '*p == %d' % v), ('float', '0x1p-%d' % v, '*p == 0x1p-%df' % v)])
    k.run('static int v = 0; (void)v;')
    if place and t == 'const int':
        place = False
    if t in ('New', 'Own', 'Adr'):
        k.label('own operator new or address')
    if t == 'const int':
        t, args = 'int', args
    if place:
        k.run('alignas(64) unsigned char raw[2048]; for (auto &x : raw) x = 0xCD; auto *p = (%s *)raw; %s.construct(%s);' % (t, a, 'p' + (', ' + args if args else '')))
    else:
        k.run('auto *p = %s.new_object<%s>(%s);' % (a, t, args))
        expect(k, 'p && got_size == sizeof(%s) && got_align == alignof(%s) && given == 1' % (t, t), 'the request for ' + t)
    expect(k, cond, 'the value of %s' % t)
    if place:
        k.run('std::destroy_at(p);')
    else:
        k.run('%s.delete_object(%sp);' % (a, '(Vb *)' if t == 'Vd' and c.chance(50) else ''))
        expect(k, 'taken == 1', 'returning the memory')
    ends = {'Emp': 1, 'Fin': 1, 'Dtr': 2 if args else 1, 'Nst': 2, 'std::shared_ptr<Emp>': 1}
    if t in ends:
        expect(k, 'gone == %d' % ends[t], 'destructors of ' + t)
        k.label('own destructor')
    if t == 'Vd':
        expect(k, 'gone == 11', 'destructors of a derived object')
    k.label('construct' if place else 'new_object')
    k.nontrivial = True
    k.trace = '%s of %s(%s)' % ('construct' if place else 'new_object', t, args)
    return k


RULE = 'one object created and deleted through a generated program; non-trivial: it takes an argument or is of a special type'
SAN = ['-O1', '-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-Wno-conversion']
TARGETS = [Target('creation', RULE, 1600, 60000, gen, batch=60, preamble=PRE, runs=True),
           Target('creation_sanitized', RULE, 320, 8000, gen, batch=40, preamble=PRE, runs=True, flags=SAN)]
