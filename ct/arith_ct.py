"""A01, A02, A03, A04, A06 in constant evaluation. The expected numbers are computed here, in Python."""
from ctlib import Case, Target

PRE = '''#include <array>
#include <cstddef>
#include <cstdint>
#include <string>
#include <tuple>
#include <type_traits>
#include <utils/clz.h>
#include <utils/ctz.h>
#include <utils/type_list.h>
#include <utils/common.h>
'''
# name -> (bits, signed)
INTS = {'bool': (1, False), 'char': (8, True), 'signed char': (8, True), 'unsigned char': (8, False),
        'short': (16, True), 'unsigned short': (16, False), 'int': (32, True), 'unsigned int': (32, False),
        'long': (64, True), 'unsigned long': (64, False), 'long long': (64, True), 'unsigned long long': (64, False),
        'char16_t': (16, False), 'char32_t': (32, False), 'wchar_t': (32, True)}
UINTS = [t for t, (b, s) in INTS.items() if not s and b > 1]
SIZE = {t: max(1, b // 8) for t, (b, s) in INTS.items()}
RANK = {'bool': 0, 'char': 1, 'signed char': 1, 'unsigned char': 1, 'short': 2, 'unsigned short': 2, 'int': 3,
        'unsigned int': 3, 'long': 4, 'unsigned long': 4, 'long long': 5, 'unsigned long long': 5}


def lit(t, v):
    """a constant expression of type t and value v"""
    b, s = INTS[t]
    if s and v < 0:
        return '(%s)(%dll - 1)' % (t, v + 1)
    return '(%s)%dull' % (t, v)


def wrap(t, v):
    b, s = INTS[t]
    if t == 'bool':
        return int(v != 0)
    v &= (1 << b) - 1
    return v - (1 << b) if s and v >> (b - 1) else v


def lo_hi(t):
    b, s = INTS[t]
    return (-(1 << (b - 1)), (1 << (b - 1)) - 1) if s else (0, (1 << b) - 1)


def promote(t):
    if t in ('bool', 'char', 'signed char', 'unsigned char', 'short', 'unsigned short', 'char16_t'):
        return 'int'
    return {'char32_t': 'unsigned int', 'wchar_t': 'int'}.get(t, t)


def common(t, u):
    """std::common_type_t of two arithmetic types: t when equal, else the usual arithmetic conversions"""
    if t == u:
        return t
    a, b = promote(t), promote(u)
    if a == b:
        return a
    (ba, sa), (bb, sb) = INTS[a], INTS[b]
    if sa == sb:
        return a if RANK[a] >= RANK[b] else b
    un, si = (a, b) if not sa else (b, a)
    if RANK[un] >= RANK[si]:
        return un
    if INTS[si][0] > INTS[un][0]:
        return si
    return 'unsigned ' + si


def value(c, t):
    b, s = INTS[t]
    v = c.bits(max(b, 2))
    k = c.below(4)
    if k == 1:
        v = -v
    elif k == 2:
        v = (1 << (b - 1)) + c.below(5) - 2
    return wrap(t, v)


def gen_a01(c):
    k = Case()
    t = c.pick(UINTS)
    b = INTS[t][0]
    v = c.bits(b) or (1 << c.below(b))
    lead, trail = b - v.bit_length(), (v & -v).bit_length() - 1
    k.check('utils::clz(%s) == %d' % (lit(t, v), lead), 'clz of %s %#x' % (t, v))
    k.check('utils::ctz(%s) == %d' % (lit(t, v), trail), 'ctz of %s %#x' % (t, v))
    f = {'unsigned int': 'ui', 'unsigned long': 'ul', 'unsigned long long': 'ull'}.get(t)
    if f:
        k.check('utils::clz_%s(%s) == %d && utils::ctz_%s(%s) == %d' % (f, lit(t, v), lead, f, lit(t, v), trail),
                'clz_%s/ctz_%s of %#x' % (f, f, v))
    k.nontrivial = v & (v - 1) != 0
    k.label(t)
    k.trace = '%s %#x' % (t, v)
    return k


def gen_a02(c):
    k = Case()
    f = c.below(5)
    M = (1 << 64) - 1
    if f == 0:
        m, v = 1 << c.below(64), c.bits(64)
        w = -(-v // m) * m
        if w > M:
            v, w = 0, 0
        k.check('utils::next_multiple_of(std::uintptr_t{%dull}, std::uintptr_t{%dull}) == %dull' % (m, v, w),
                'next_multiple_of(%#x, %#x)' % (m, v))
        k.trace = 'next_multiple_of(%#x, %#x)' % (m, v)
        k.nontrivial = m > 1 and v > 1
    elif f == 1:
        t = c.pick([x for x in INTS if x != 'bool'])
        b, s = INTS[t]
        kk = c.below(b - s)
        m, v = 1 << kk, value(c, t)
        w = -(-v // m) * m
        if w > lo_hi(t)[1] or v + m - 1 > lo_hi(promote(t))[1]:
            v, w = 0, 0
        pt = c.pick([x for x in INTS if x != 'bool' and lo_hi(x)[1] >= m])
        k.check('utils::next_multiple_of<%s>(%s) == %s' % (lit(pt, m), lit(t, v), lit(t, w)),
                'next_multiple_of<%s %#x>(%s %d)' % (pt, m, t, v))
        k.check('std::is_same_v<decltype(utils::next_multiple_of<%s>(%s)), %s>' % (lit(pt, m), lit(t, v), t), 'type')
        k.trace = 'next_multiple_of<%s %#x>(%s %d)' % (pt, m, t, v)
        k.nontrivial = m > 1 and v > 1
    elif f == 2:
        v = c.bits(64)
        if c.chance(30):
            v = 1 << c.below(64)
        k.check('utils::is_power_of_2(%dull) == %s' % (v, 'true' if v and v & (v - 1) == 0 else 'false'),
                'is_power_of_2(%#x)' % v)
        k.trace = 'is_power_of_2(%#x)' % v
        k.nontrivial = v > 1
    elif f == 3:
        t = c.pick(UINTS)
        b = INTS[t][0]
        v = (c.bits(b) << c.below(b)) & ((1 << b) - 1)
        w = (v & -v) or 1 << (b - 1)
        k.check('utils::greatest_divisor_that_is_power_of_2(%s) == %s' % (lit(t, v), lit(t, w)),
                'greatest_divisor_that_is_power_of_2(%s %#x)' % (t, v))
        k.trace = 'greatest_divisor_that_is_power_of_2(%s %#x)' % (t, v)
        k.nontrivial = v > 1
    else:
        a, n = 1 << c.below(64), c.bits(64) or 1
        if c.chance(30):
            n = ((1 << c.below(64)) - a + c.below(4)) & M or 1
        if a + n - 1 > M:
            n = 1
        w = max(1 << i for i in range(64) if 1 << i <= a or (1 << i) - a <= n - 1)
        k.check('utils::max_alignment_inside_block(%dull, %dull) == %dull' % (a, n, w),
                'max_alignment_inside_block(%#x, %#x)' % (a, n))
        k.trace = 'max_alignment_inside_block(%#x, %#x)' % (a, n)
        k.nontrivial = a > 1 and n > 1
    return k


def uint_for(n):
    return 'std::uint%d_t' % min(b for b in (8, 16, 32, 64) if b >= n)


def fast_for(n):
    return 'std::uint_fast%d_t' % min(b for b in (8, 16, 32, 64) if b >= n)


FIELDS = [('int', 4), ('bool', 0), ('char', 1), ('double', 8), ('std::uint16_t', 2), ('void *', 8), ('P3', 3), ('P12', 12),
          ('E2', 2), ('EB', 1), ('std::array<char, 5>', 5), ('signed char', 1), ('long double', 16), ('int (*)(int)', 8)]


def gen_a03(c):
    k = Case()
    f = c.below(6)
    if f == 0:
        v = c.bits(64)
        k.check('utils::bits_count(%dull) == %d' % (v, v.bit_length()), 'bits_count(%#x)' % v)
        t = c.pick(UINTS)
        v = c.bits(INTS[t][0])
        k.check('utils::nbits_occupied(%s) == %d' % (lit(t, v), v.bit_length()), 'nbits_occupied(%s %#x)' % (t, v))
        k.trace = 'occupied bits of %s %#x' % (t, v)
        k.nontrivial = v > 1
    elif f == 1:
        n = 1 + c.below(64)
        k.check('std::is_same_v<utils::uint_from_nbits_t<%d>, %s>' % (n, uint_for(n)), 'uint_from_nbits<%d>' % n)
        k.check('std::is_same_v<utils::fast_uint_from_nbits_t<%d>, %s>' % (n, fast_for(n)), 'fast_uint_from_nbits<%d>' % n)
        k.check('std::is_same_v<utils::uint_from_nbits<%d>::type, %s>' % (n, uint_for(n)), 'uint_from_nbits<%d>' % n)
        k.trace = 'types of %d bits' % n
        k.nontrivial = True
    elif f == 2:
        n = 1 + c.below(8)
        for q in ('utils::uint_from_nbytes_t', 'utils::UInt'):
            k.check('std::is_same_v<%s<%d>, %s>' % (q, n, uint_for(8 * n)), '%s<%d>' % (q, n))
        for q in ('utils::fast_uint_from_nbytes_t', 'utils::FastUInt'):
            k.check('std::is_same_v<%s<%d>, %s>' % (q, n, fast_for(8 * n)), '%s<%d>' % (q, n))
        k.trace = 'types of %d bytes' % n
        k.nontrivial = True
    elif f == 3:
        v = c.below(256)
        k.check('utils::kNumBitsTable[%d] == %d && utils::kNumBitsTable.size() == 256' % (v, bin(v).count('1')),
                'kNumBitsTable[%d]' % v)
        k.trace = 'kNumBitsTable[%d]' % v
        k.nontrivial = v > 0
    elif f == 4:
        u = c.pick([None, None] + [x for x in INTS if x not in ('bool', 'char16_t', 'char32_t', 'wchar_t')])
        scoped = c.chance(60)
        hi = lo_hi(u or 'int')[1]
        if c.chance(40):
            names = ['e%d' % i for i in range(c.below(min(40, hi)))]
            body, n = ', '.join(names + ['Count']), len(names)
            if n == 0:
                body, n = 'a, Count', 1
        else:
            n = c.bits(min(hi.bit_length(), 63)) & hi or 1
            body = 'Count = %d%s' % (n, 'ull' if n > (1 << 31) else '')
        k.decl('enum %s%s%s { %s };' % ('class ' if scoped else '', 'E', ' : ' + u if u else '', body))
        k.check('utils::enum_properties<E>::numBits == %d' % n.bit_length(), 'width of an enum of count %d' % n)
        k.check('std::is_same_v<utils::enum_properties<E>::SerializeT, %s>' % uint_for(n.bit_length()),
                'type of an enum of count %d' % n)
        k.trace = k.decls[0]
        k.nontrivial = n > 1
    else:
        fs = [c.pick(FIELDS) for _ in range(1 + c.length(5, 24))]
        if c.chance(30):
            fs += [FIELDS[1]] * c.below(12)
        if c.chance(6):
            fs += [c.pick([('std::array<char, 8192>', 8192), ('std::array<char, 9001>', 9001), ('std::array<int, 150000000>', 600000000)])]
            k.label('more than 65535 bits')
        if c.chance(2):
            fs += [FIELDS[1]] * (60 + c.below(120))
        if c.chance(30):
            fs = c.shuffle(fs)
        bits = sum(8 * b if b else 1 for _, b in fs)
        names = ', '.join(n for n, _ in fs)
        k.check('utils::sum_size<%s>() == %d' % (names, (bits + 7) // 8), 'sum_size<%s>' % names)
        t, b = fs[0]
        k.check('utils::num_bits<%s>() == %d' % (t, 8 * b if b else 1), 'num_bits<%s>' % t)
        k.trace = 'sum_size<%s>' % names
        k.nontrivial = len(fs) > 1
        k.label('booleans', sum(not b for _, b in fs) > 0)
    return k


def gen_a03_reject(c):
    k = Case()
    fast = 'fast_' if c.chance(50) else ''
    if c.chance(60):
        n, lim, name = c.pick([0, 65, 66, 72, 128, 255, 65 + c.below(191)]), 64, fast + 'uint_from_nbits_t'
    else:
        n, lim = c.pick([0, 9, 16, 31, 9 + c.below(23), 32 + c.below(10)]), 8
        name = c.pick([fast + 'uint_from_nbytes_t', 'FastUInt' if fast else 'UInt'])
    if c.chance(20) and lim == 64:
        name = name[:-2]
        k.reject('utils::%s<%d>::type x = 1;' % (name, n), 'utils::%s<%d>::type x = 1;' % (name, n and lim or 1))
    else:
        k.reject('utils::%s<%d> x = 1;' % (name, n), 'utils::%s<%d> x = 1;' % (name, n and lim or 1))
    k.trace = '%s<%d>' % (name, n)
    k.nontrivial = True
    return k


def gen_a04(c):
    k = Case()
    t, u = c.pick(list(INTS)), c.pick(list(INTS))
    n, d = value(c, t), value(c, u)
    r = common(t, u)
    f = 'utils::div'
    if c.chance(35):
        r = c.pick(list(INTS))
        f = 'utils::div_as<%s>' % r
    cn, cd = wrap(r, n), wrap(r, d)
    if d == 0 or cd == 0:
        d, cd = 1, 1
    q = abs(cn) // abs(cd) * (1 if (cn < 0) == (cd < 0) else -1)
    m = cn - q * cd
    if q > lo_hi(r)[1]:
        d, cd, q, m = 1, 1, cn, 0
    e = '%s(%s, %s)' % (f, lit(t, n), lit(u, d))
    k.check('%s.quot == %s' % (e, lit(r, q)), 'quotient of %s %d / %s %d as %s is %d' % (t, n, u, d, r, q))
    k.check('%s.rem == %s' % (e, lit(r, m)), 'remainder of %s %d / %s %d as %s is %d' % (t, n, u, d, r, m))
    k.check('std::is_same_v<std::decay_t<decltype(%s)>, utils::div_t<%s>>' % (e, r), 'type of the result')
    if c.chance(40):        # a result written down by hand, with its type deduced
        r, lo, hi = common(t, u), *lo_hi(common(t, u))
        if lo <= n <= hi and lo <= d <= hi:
            e = 'utils::div_t{%s, %s}' % (lit(t, n), lit(u, d))
            k.check('std::is_same_v<decltype(%s), utils::div_t<%s>>' % (e, r), 'type of ' + e)
            k.check('%s.quot == %s && %s.rem == %s' % (e, lit(r, n), e, lit(r, d)), 'values of ' + e)
            k.label('deduced result')
    k.check('std::is_same_v<utils::div_t<%s>::value_type, %s>' % (r, r), 'value_type of div_t<%s>' % r)
    k.trace = '%s %d / %s %d as %s' % (t, n, u, d, r)
    k.nontrivial = cn != 0 and cd != 1 and cn != cd
    k.label('negative operand', n < 0 or d < 0)
    return k


def gen_a06(c):
    k = Case()
    t = c.pick([x for x in INTS if x != 'bool'])
    b, s = INTS[t]
    v, n = value(c, t), c.below(b)
    if c.chance(50):
        p = promote(t)
        if INTS[p][1]:
            v = abs(v)
            if v > lo_hi(t)[1]:
                v = 1
            if v << n > (1 << INTS[p][0]) - 1:
                v = 1
        w = wrap(t, v << n)
        k.check('utils::shift_left(%s, %d) == %s' % (lit(t, v), n, lit(t, w)), '%s %d << %d' % (t, v, n))
        k.trace = '%s %d << %d' % (t, v, n)
    else:
        w = v >> n
        k.check('utils::shift_right(%s, %d) == %s' % (lit(t, v), n, lit(t, w)), '%s %d >> %d' % (t, v, n))
        k.trace = '%s %d >> %d' % (t, v, n)
    u = c.pick([x for x in INTS if x not in ('char16_t', 'char32_t', 'wchar_t')])
    e = value(c, u)
    k.decl('enum class E : %s { x = %s };' % (u, lit(u, e)))
    k.check('utils::to_underlying(E::x) == %s && std::is_same_v<std::decay_t<decltype(utils::to_underlying(E::x))>, %s>' %
            (lit(u, e), u), 'underlying value of %s %d' % (u, e))
    k.nontrivial = v not in (0, 1) and n > 0
    k.label(t)
    return k


R1 = 'constant expression on one operand set; non-trivial: operands beyond 0 and 1 (A01: more than one bit set)'
P3 = PRE + '''
struct P3 { char a[3]; };
struct P12 { int a, b, c; };
enum E2 : std::uint16_t {};
enum class EB : bool {};
'''


def both(n, gen, pre=PRE, q=6000, th=200000):
    return [Target(n, R1, q, th, gen, batch=250, preamble=pre),
            Target(n + '_clang', R1, q // 4, th // 4, gen, batch=250, preamble=pre, cxx='clang++')]


A01 = both('constant_clz_ctz', gen_a01)
A02 = both('constant_alignment', gen_a02)
A03 = both('constant_widths', gen_a03, P3) + [
    Target('no_such_width', 'a width which no standard type has must not compile, the nearest one which exists must; all '
           'non-trivial', 80, 800, gen_a03_reject, batch=4, preamble=PRE, reject=True)]
A04 = both('constant_division', gen_a04)
A06 = both('constant_shifts', gen_a06)
