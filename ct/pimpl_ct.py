"""O01: what the holder of a generated type promises at compile time."""
from ctlib import Case, Target

PRE = '''#include <utils/fast_pimpl.h>
#include <cstddef>
#include <type_traits>
#include <utility>
struct X1 {}; struct X2 {};
'''
# members which must not disturb the holder: it places the object in its own storage and hands out the real address
SELF = ['', '', '', '', '', 'static void *operator new(std::size_t);', 'static void *operator new(std::size_t, void *) = delete;', 'T **operator&();',
        'void operator&() const;', 'int operator&() = delete;', 'static void operator delete(void *) = delete;']
FC = 'utils::forwarding_constructor'


def b(v):
    return 'true' if v else 'false'


def ctor_args(c):
    return [c.pick(['X1', 'X1 &', 'X1 const &', 'X2', 'int', 'int &']) for _ in range(1 + c.length(1, 3))]


def gen(c):
    k = Case()
    ne = [c.below(2) for _ in range(6)]
    n = [' noexcept' if x else '' for x in ne]
    args = ctor_args(c)
    size = 1 + (c.below(300) if c.chance(50) else c.below(17))
    al = c.pick([1, 1, 2, 4, 8, 16, 64])
    shape = c.weighted([6, 2, 1])
    copyable = not c.chance(20)
    expl = 'explicit ' if c.chance(50) else ''
    own = c.pick(SELF)
    copy = 'T(T const &)%s; T &operator=(T const &)%s;' % (n[1], n[3]) if copyable else ''
    virt = c.chance(15)
    if virt:
        al = max(al, 8)
    k.decl('struct alignas(%d) T { T()%s; %sT(%s)%s; %s T(T &&)%s; T &operator=(T &&)%s; ~T()%s; char c[%d]; %s %s };' % (
        al, n[0], expl, ', '.join(args), n[5], copy, n[2], n[4], '', size, 'virtual void v();' if virt else '', own))
    k.label('own operator new or address', own != '')
    k.decl('using P = utils::fast_pimpl<T, sizeof(T), alignof(T)>;')
    k.decl('inline void use(P &p, P const &q) { P a, b(%s{})%s; p = T(); (void)p->c; (void)q->c; }' % (FC, ', d(q)' if copyable else ''))
    k.check('sizeof(P) == sizeof(T) && alignof(P) == alignof(T)', 'the holder has the size and alignment of the object')
    tr = [('std::is_nothrow_default_constructible_v<P>', ne[0], 'default construction'),
          ('std::is_nothrow_constructible_v<P, %s>' % FC, ne[0], 'forwarding construction from nothing'),
          ('std::is_nothrow_move_constructible_v<P>', ne[2], 'move construction'),
          ('std::is_nothrow_constructible_v<P, T>', ne[2], 'construction from an rvalue'),
          ('std::is_nothrow_constructible_v<P, %s, T>' % FC, ne[2], 'forwarding an rvalue'),
          ('std::is_nothrow_move_assignable_v<P>', ne[4], 'move assignment'),
          ('std::is_nothrow_assignable_v<P &, T>', ne[4], 'assignment from an rvalue'),
          ('std::is_nothrow_constructible_v<P, %s, %s>' % (FC, ', '.join(args)), ne[5], 'forwarding construction'),
          ('std::is_nothrow_destructible_v<P>', 1, 'destruction'),
          ('noexcept(std::declval<P &>().get())', 1, 'access'), ('noexcept(std::declval<P const &>().get())', 1, 'const access'),
          ('noexcept(std::declval<P &>().operator->())', 1, 'access'), ('noexcept(std::declval<P const &>().operator->())', 1, 'access')]
    if copyable:
        tr += [('std::is_nothrow_copy_constructible_v<P>', ne[1], 'copy construction'),
               ('std::is_nothrow_constructible_v<P, T const &>', ne[1], 'construction from an lvalue'),
               ('std::is_nothrow_constructible_v<P, T &>', ne[1], 'construction from an lvalue'),
               ('std::is_nothrow_constructible_v<P, %s, T const &>' % FC, ne[1], 'forwarding an lvalue'),
               ('std::is_nothrow_copy_assignable_v<P>', ne[3], 'copy assignment'),
               ('std::is_nothrow_assignable_v<P &, T const &>', ne[3], 'assignment from an lvalue'),
               ('std::is_convertible_v<T const &, P>', 1, 'implicit conversion from the object')]
    tr += [('std::is_convertible_v<T, P>', 1, 'implicit conversion from the object')]
    for e, w, what in tr:
        k.check('%s == %s' % (e, b(w)), 'noexcept of ' + what if 'noexcept' in e or 'nothrow' in e else what)
    for e, w in (('std::declval<P &>().get()', 'T &'), ('std::declval<P const &>().get()', 'T const &'),
                 ('std::declval<P &>().operator->()', 'T *'), ('std::declval<P const &>().operator->()', 'T const *'),
                 ('std::declval<P &>() = std::declval<P>()', 'P &'), ('std::declval<P &>() = std::declval<T>()', 'P &')):
        k.check('std::is_same_v<decltype(%s), %s>' % (e, w), 'type of ' + e)
    # only declared so far: the holder of a type which is incomplete here
    k.decl('struct L; struct Out { utils::fast_pimpl<L, %d, %d> p; Out(); ~Out(); int get() const; };' % (size, al))
    k.check('sizeof(Out) == %d && alignof(Out) == %d' % ((size + al - 1) // al * al, al), 'a holder of an incomplete type')
    k.trace = ' '.join(k.decls)[:300]
    k.label('copyable' if copyable else 'move only')
    k.nontrivial = True
    return k


def gen_bad(c):
    """a holder whose size or alignment is not that of the object is rejected"""
    k = Case()
    size = 1 + c.below(40)
    al = c.pick([1, 2, 4, 8])
    real = (size + al - 1) // al * al
    use = c.below(2)
    ds, da = real, al
    if use:
        ds = c.pick([x for x in (real + 1, real - 1, real + al, real * 2, 1, real + 8) if x > 0 and x != real])
    else:
        da = c.pick([x for x in (1, 2, 4, 8, 16) if x != al])
        if c.chance(30):
            ds = real
    body = 'struct alignas(%d) T { char c[%d]; };' % (al, size)
    what = c.pick(['void f() { P p; }', 'void f() { T t{}; P p(t); }', 'void f(P *p) { p->~P(); }', 'struct H { P p; }; void f() { H h; H i(h); }'])
    k.reject('%s using P = utils::fast_pimpl<T, %d, %d>; %s' % (body, ds, da, what),
             '%s using P = utils::fast_pimpl<T, %d, %d>; %s' % (body, real, al, what))
    k.trace = k.bad
    k.label('wrong size' if use else 'wrong alignment')
    k.nontrivial = True
    return k


TARGETS = [Target('holder_traits', 'a generated type with its own noexcept promises, sizes and constructors; non-trivial: always', 2400, 60000, gen,
                  batch=100, preamble=PRE),
           Target('holder_traits_clang', 'the same under another compiler', 500, 12000, gen, batch=60, preamble=PRE, cxx='clang++'),
           Target('holder_rejects', 'a holder of wrong size or alignment must not compile, its corrected neighbour must', 100, 1500, gen_bad,
                  batch=13, preamble=PRE, reject=True)]
