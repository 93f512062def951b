"""O04 in constant evaluation: calls outside the domain of a function are no constants, and unsupported kinds of argument do not
compile; the nearest call inside the domain does."""
from arith_ct import INTS, PRE, lit
from ctlib import Case, Target

PRE4 = PRE + '#include <string_view>\n#include <utils/memory/memory.h>\n#include <utils/memory/simple_resource.h>\n'
SHIFTED = [t for t in INTS if t not in ('bool',)]


def not_pow2(c):
    k = c.below(63)
    v = c.pick([(1 << k) + 1, (1 << k) - 1, (1 << k) | 1 << c.below(63), c.bits(63), 0])
    return v if v & (v - 1) or v == 0 else v * 3 % (1 << 64) or 3


def const(k, bad, good, pre=''):
    k.reject('%sconstexpr auto x = %s;' % (pre, bad), '%sconstexpr auto x = %s;' % (pre, good))
    k.trace = bad


def gen_values(c):
    k = Case()
    f = c.below(7)
    if f == 0:
        v = c.bits(30)
        m = not_pow2(c)
        const(k, 'utils::next_multiple_of(%dull, %d)' % (m, v), 'utils::next_multiple_of(%dull, %d)' % (1 << c.below(40), v))
    elif f == 1:
        g = 1 << c.below(40)
        s = 1 + c.bits(20)
        bad = (g, 0) if c.chance(50) else (not_pow2(c), s)
        const(k, 'utils::max_alignment_inside_block(%dull, %dull)' % bad, 'utils::max_alignment_inside_block(%dull, %dull)' % (g, s))
    elif f == 2:
        t = c.pick(SHIFTED)
        b, s = INTS[t]
        d = c.pick(['left', 'right'])
        n = b + c.pick([0, 0, 1, 2, 7, 15, 16, 23, 24, 40, 1 << 20])
        v = c.below(2)
        call = 'utils::shift_%s(%s, %%d)' % (d, lit(t, v))
        const(k, call % n, call % c.below(b - s))
    elif f == 3:
        t, u = c.pick(list(INTS)[1:]), c.pick(list(INTS)[1:])
        call = 'utils::div(%s, (%s)%%d)' % (lit(t, c.bits(7)), u)
        const(k, call % 0, call % (1 + c.below(100)))
    elif f == 4:
        n = c.below(6)
        a = [c.below(3) for _ in range(n)]
        b = list(a)
        if n and c.chance(70):
            b[0] += 1          # the first elements decide, only the check of the count can object
        arr = lambda x: 'std::array<int, %d>{%s}' % (n, ', '.join(map(str, x)))
        call = 'utils::is_equal(%s, %s, %%d)' % (arr(a), arr(b))
        const(k, call % (n + 1 + c.below(9)), call % c.below(n + 1))
    elif f == 5:
        n = 1 + c.below(8)
        bad = c.below(n)
        call = 'utils::make_array<%d, char>(std::string_view("abcdefghijklmnop", %%d))' % n
        const(k, call % bad, call % (n + c.below(5)))
    else:
        d, s = c.pick([('nullptr', 's'), ('d', 'nullptr'), ('nullptr', 'nullptr')])
        t = c.pick(['char', 'unsigned char', 'std::byte'])
        fn = 'constexpr int f() { %s a[2]{}, b[2]{}; %s *d = a; const %s *s = b; (void)d; (void)s; ' \
             'utils::memory::memcpy(static_cast<%s *>(%%s), static_cast<const %s *>(%%s), %d); return 1; }\n' % (t, t, t, t, t, c.below(2))
        k.reject(fn % (d, s) + 'constexpr int x = f();', fn % ('d', 's') + 'constexpr int x = f();')
        k.trace = 'constant memcpy from %s to %s' % (s, d)
    k.nontrivial = True
    k.label(['next_multiple_of', 'max_alignment_inside_block', 'shift', 'div', 'is_equal', 'make_array of a view', 'memcpy'][f])
    return k


def gen_kinds(c):
    k = Case()
    f = c.below(7)
    fl = c.pick(['float', 'double', 'long double'])
    i = c.pick(['int', 'unsigned', 'long long', 'unsigned char'])
    if f == 0:
        m = not_pow2(c) or 6
        const(k, 'utils::next_multiple_of<%dull>(5ull)' % m, 'utils::next_multiple_of<%dull>(5ull)' % (1 << c.below(40)))
    elif f == 1:
        d = c.pick(['left', 'right'])
        bad = c.pick(['true', '(%s)1' % fl, 'nullptr', '(const bool &)b'])
        const(k, 'utils::shift_%s(%s, 0)' % (d, bad), 'utils::shift_%s((%s)1, 0)' % (d, i), 'constexpr bool b = true; ')
    elif f == 2:
        a, b = c.pick([('(%s)3' % fl, '(%s)2' % i), ('(%s)3' % i, '(%s)2' % fl), ('(%s)3' % fl, '(%s)2' % fl)])
        const(k, 'utils::div(%s, %s)' % (a, b), 'utils::div((%s)3, (%s)2)' % (i, i))
    elif f == 3:
        b = c.below(50)
        e = b + 1 + c.below(20)
        t = c.pick(['', 'u'])
        call = 'utils::make_array_from_range<%d%s, %d%s, %%s>()' % (b, t, e, t)
        const(k, call % ('0' + t if t else c.pick(['0', '-1', '-%d' % (1 + c.below(30))])), call % ('%d%s' % (1 + c.below(9), t)))
    elif f == 4:
        fn = c.pick(['clz', 'ctz', 'greatest_divisor_that_is_power_of_2'])
        bad = c.pick(['int', 'signed char', 'long long', 'double', 'short'])
        const(k, 'utils::%s((%s)4)' % (fn, bad), 'utils::%s((%s)4)' % (fn, c.pick(['unsigned', 'unsigned char', 'unsigned long long'])))
    elif f == 5:
        n = 2 + c.below(100)
        bs = c.pick([3, 5, 6, 7, 12, 24, 33, 48, 100, 3 + 2 * c.below(50)])
        use = 'std::byte buf[1000];\nvoid *f() { utils::memory::simple_resource<%d, %d> r(buf, 1000, nullptr); return r.allocate(1); }'
        k.reject(use % (n, bs), use % (n, 1 << c.below(7)))
        k.trace = 'a pool of blocks of %d bytes' % bs
    else:
        t = c.pick(['short', 'int', 'double', 'char32_t'])
        a, b = c.pick([(t, 'char'), ('char', t), (t, t), ('const char', 'char')])
        fn = 'void f(%s *d, const %s *s) { utils::memory::memcpy(d, s, 0); }'
        k.reject(fn % (a, b), fn % (c.pick(['char', 'std::byte', 'unsigned char']), c.pick(['char', 'unsigned char'])))
        k.trace = 'memcpy to %s from %s' % (a, b)
    k.nontrivial = True
    k.label(['rounding to no power of two', 'shift', 'div', 'range', 'count of zeros', 'pool', 'memcpy'][f])
    return k


R1 = 'a call outside the domain of a constexpr function must not be a constant, its neighbour inside must; all non-trivial'
R2 = 'a call with an unsupported kind of argument must not compile, its neighbour must; all non-trivial'
TARGETS = [Target('constants', R1, 100, 1600, gen_values, batch=4, preamble=PRE4, reject=True),
           Target('constants_clang', R1, 60, 800, gen_values, batch=4, preamble=PRE4, reject=True, cxx='clang++'),
           Target('kinds', R2, 80, 1200, gen_kinds, batch=4, preamble=PRE4, reject=True)]
