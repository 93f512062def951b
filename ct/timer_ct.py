"""O02: which callables a timer of a generated capacity takes, and what it promises at compile time."""
from ctlib import Case, Target

PRE = '''#include <utils/timer.h>
#include <chrono>
#include <cstddef>
#include <type_traits>
#include <utility>
struct Clk { using rep = long long; using period = std::nano; using duration = std::chrono::nanoseconds;
    using time_point = std::chrono::time_point<Clk>; static constexpr bool is_steady = true; static time_point now() noexcept; };
// the template behind utils::timer, wherever it lives
template <typename T> struct Same;
template <template <std::size_t, std::size_t, typename> class Tm, std::size_t A0, std::size_t S0, typename C0> struct Same<Tm<A0, S0, C0>>
{
    template <std::size_t A, std::size_t S> using with = Tm<A, S, Clk>;
};
template <std::size_t A, std::size_t S> using TmOf = typename Same<utils::timer>::template with<A, S>;
'''


def functor(name, size, al, op):
    return 'struct alignas(%d) %s { char c[%d]; %s };' % (al, name, size, op)


OK = ['void operator()(%s const &) noexcept {}', 'void operator()(%s const &) const noexcept {}', 'template <typename X> void operator()(X const &) noexcept {}',
      'int operator()(%s const &) { return 1; }', 'template <typename... X> void operator()(X &&...) const {}', 'void operator()(%s const &) & {}',
      'void operator()(%s const &, int = 0) {}', 'void operator()(%s const &) {} static void *operator new(std::size_t);',
      'void operator()(%s const &) {} static void *operator new(std::size_t, void *) = delete;', 'void operator()(%s const &) {} void operator&() const = delete;']
NO = ['void operator()() {}', 'void operator()(int) {}', 'void operator()(%s const &, int) {}', 'void operator()(%s &) {}', 'void operator()(%s &&) {}',
      'void operator()(%s const &) && {}', 'void call(%s const &) {}', 'private: void operator()(%s const &) {}']
HOW = ['T{}', 'x', 'static_cast<T const &>(x)', 'std::move(x)']


def op(c, ops):
    s = c.pick(ops)
    return s % 'Tm' if '%s' in s else s


def capacity(c):
    a = 1 << c.below(6)
    return a, 1 + c.below(c.pick([9, 40, 130]))


def layout(c, a, s):
    """size and alignment of a callable which fits"""
    al = 1 << c.below(6)
    al = min(al, a)
    while al > s:
        al //= 2
    n = al * (1 + c.below(s // al))
    if c.chance(50):
        n = s // al * al
    return n, al


def gen(c):
    k = Case()
    a, s = capacity(c)
    n, al = layout(c, a, s)
    k.decl('using Tm = TmOf<%d, %d>; %s' % (a, s, functor('T', n, al, op(c, OK))))
    k.decl('inline void use() { T x{}; (void)x; Tm t(%s); Tm u(std::move(t)); u = Tm(T{}); }' % c.pick(HOW))
    k.check('sizeof(T) == %d && alignof(T) == %d' % (n, al), 'the layout of the callable')
    for e, what in (('!std::is_copy_constructible_v<Tm> && !std::is_constructible_v<Tm, Tm &> && !std::is_constructible_v<Tm, Tm const>', 'a timer can not be copied'),
                    ('!std::is_copy_assignable_v<Tm> && !std::is_assignable_v<Tm &, Tm &> && !std::is_assignable_v<Tm &, Tm const>', 'a timer can not be assigned a copy'),
                    ('!std::is_default_constructible_v<Tm>', 'a timer has a callback'),
                    ('std::is_nothrow_move_constructible_v<Tm> && std::is_nothrow_move_assignable_v<Tm>', 'moving a timer does not throw'),
                    ('std::is_constructible_v<Tm, T> && std::is_constructible_v<Tm, T &> && std::is_constructible_v<Tm, T const &>', 'takes the callable'),
                    ('Tm::kMaxCallbackSize == %d && Tm::kMaxCallbackAlignment == %d && alignof(Tm) >= %d && sizeof(Tm) >= %d' % (s, a, a, s), 'the capacity'),
                    ('std::is_same_v<Tm::clock, Clk> && std::is_same_v<Tm::duration, std::chrono::nanoseconds>', 'the clock'),
                    ('std::is_same_v<decltype(std::declval<Tm const &>().leaked_sec()), std::chrono::seconds>', 'the unit'),
                    ('std::is_same_v<decltype(std::declval<Tm const &>().leaked_milli_sec()), std::chrono::milliseconds>', 'the unit'),
                    ('std::is_same_v<decltype(std::declval<Tm const &>().leaked_micro_sec()), std::chrono::microseconds>', 'the unit'),
                    ('std::is_same_v<decltype(std::declval<Tm const &>().leaked_nano_sec()), std::chrono::nanoseconds>', 'the unit'),
                    ('std::is_same_v<decltype(std::declval<Tm const &>().leaked()), std::chrono::nanoseconds>', 'elapsed time'),
                    ('std::is_same_v<decltype(std::declval<Tm const &>().start_tp()), Clk::time_point>', 'start time')):
        k.check(e, what)
    k.label('exactly the capacity', n == s and al == a)
    k.nontrivial = True
    k.trace = 'capacity %d/%d, callable %d/%d' % (s, a, n, al)
    return k


def gen_bad(c):
    k = Case()
    a, s = capacity(c)
    f = c.weighted([3, 3, 4, 1, 1])
    n, al = layout(c, a, s)
    good = functor('T', n, al, op(c, OK))
    use = 'inline void use() { T x{}; (void)x; Tm t(%s); }' % c.pick(HOW)
    guse = use
    if f == 0:      # too large
        n = s // al * al + al * (1 + c.below(3))
        bad = functor('T', n, al, op(c, OK))
        why = 'a callable of %d bytes in a timer for %d' % (n, s)
    elif f == 1:    # too strictly aligned
        a = min(a, 16)
        al = a * (2 << c.below(2))
        s = al * (1 + c.below(3)) + c.below(3)
        bad = functor('T', al, al, op(c, OK))
        good = functor('T', al, a, op(c, OK))
        why = 'a callable aligned to %d in a timer for %d' % (al, a)
    elif f == 2:    # not callable with a timer (or only in a way which the timer does not use)
        bad = functor('T', n, al, op(c, NO))
        why = bad
    elif f == 3:
        bad = good
        use = c.pick(['inline void use() { Tm t(T{}); Tm u(t); }', 'inline void use() { Tm t(T{}), u(T{}); u = t; }', 'inline void use(Tm const &t) { Tm u(t); }'])
        guse = 'inline void use() { Tm t(T{}); Tm u(std::move(t)); }'
        why = 'a copy of a timer'
    else:
        bad = ''
        use = 'inline void %s; inline void use() { Tm t(f); }' % c.pick(['f() {}', 'f(int) {}', 'f(Tm &) {}', 'f(Tm &&) {}', 'f(Tm const &, int) {}'])
        good, guse = '', 'inline void f(Tm const &) {} inline void use() { Tm t(f); }'
        a, s = max(a, 8), max(s, 8)
        why = 'a function which can not be called with a timer'
    tm = 'using Tm = TmOf<%d, %d>; ' % (a, s)
    k.reject(tm + bad + use, tm + good + guse)
    k.label(('too large', 'too strictly aligned', 'not callable', 'copied', 'function')[f])
    k.nontrivial = True
    k.trace = why
    return k


RULE = 'a timer of a generated capacity with a generated callable; non-trivial: always'
TARGETS = [Target('timer_traits', RULE, 1200, 30000, gen, batch=60, preamble=PRE),
           Target('timer_traits_clang', RULE, 300, 8000, gen, batch=40, preamble=PRE, cxx='clang++'),
           Target('timer_rejects', 'a callable which does not fit or can not be called, or a copied timer, must not compile, its corrected neighbour must; '
                  'non-trivial: always', 100, 1500, gen_bad, batch=13, preamble=PRE, reject=True)]
